// P03: isolated systems conserve energy, momentum, angular momentum and the motion of their centre of mass.
//: methods all
#include "gen.hpp"
using namespace sim;
using ref::R;
using ref::V;

static R eps(Method const& m) { return m.prec >= Ext ? 1.1e-19L : 2.2e-16L; }
struct Track {
    R t0{0}, E0{0}, emax{0}, vmax{0}, smax{0}, M{0};  // scales: energy, velocity, length; total mass
    V P0, L0, c0, w;
    R dE{0}, dP{0}, dL{0}, dC{0}, dE1{0}, dE2{0}, t_end{0}, tau{1e300L}, rmin{1e300L};
    long n{0};
    void start(Snap const& s) {
        t0 = s.t; E0 = ref::energy(s.b); P0 = ref::momentum(s.b); L0 = ref::angmom(s.b); c0 = ref::com(s.b); w = P0 / ref::mass(s.b);
    }
    void add(Snap const& s) {
        auto const& b = s.b;
        R x = 0, u = 0;
        M = ref::mass(b);
        for (auto& q : b) {
            u = std::max(u, ref::norm(ref::vel(q))); x = std::max(x, ref::norm(ref::pos(q)));
        }
        emax = std::max(emax, ref::kinetic(b) - ref::potential(b));
        vmax = std::max(vmax, u); smax = std::max(smax, x);
        R e = std::fabs(ref::energy(b) - E0);
        dE = std::max(dE, e);
        if (t_end != 0) (std::fabs(s.t - t0) < 0.5L * std::fabs(t_end - t0) ? dE1 : dE2) = std::max(std::fabs(s.t - t0) < 0.5L * std::fabs(t_end - t0) ? dE1 : dE2, e);
        dP = std::max(dP, ref::norm(ref::momentum(b) - P0));
        dL = std::max(dL, ref::norm(ref::angmom(b) - L0));
        dC = std::max(dC, ref::norm(ref::com(b) - c0 - w * (s.t - t0)));
        ++n;
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) rmin = std::min(rmin, ref::norm(ref::pos(b[i]) - ref::pos(b[j])));
        tau = std::min(tau, gen::time_scale(b));
    }
};
static std::vector<Body> make(pbt::Case& C) {
    std::vector<Body> b;
    if (C.chance(1, 3)) { C.label("two bodies"); b = gen::two_body(C, 0, 0.95L, false).b; }
    else b = gen::any_system(C, 3, 6);
    if (C.chance(1, 3)) {
        C.label("moving frame");
        R L = 0;
        for (auto& q : b) L = std::max(L, ref::norm(ref::pos(q)));
        V x = gen::unit(C) * (L * (R)C.real(0, 3)), w = gen::unit(C) * (R)(C.real(0, 1) * std::sqrt((double)(-ref::potential(b) / ref::mass(b))));
        for (auto& p : b) { ref::set_pos(p, ref::pos(p) + x); ref::set_vel(p, ref::vel(p) + w); }
        ref::round_double(b);
    }
    return b;
}
LAW("adaptive methods", "2-6 bodies, any adaptive method, tolerance, frame and start time, over up to 100 dynamical times: energy, momentum, angular momentum, centre of mass at every step; non-trivial: more than 10 steps", 5000, 400000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (!m.fixed && m.integ != "Sym2") v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    auto b = make(C);
    if (m.regularised() && gen::frame_cancellation(b) > 20) C.discard();
    R tau = gen::time_scale(b), span = tau * (R)C.logreal(1, m.order == 4 ? 30 : 300);
    R t0 = C.chance(1, 4) ? (R)(double)(span * C.sym(3)) : 0;
    double lo = m.order == 4 ? 1e-12 : 1e-14, rtol = C.boolean() ? lo : C.logreal(lo, 1e-7);
    C.note(m.name, " rtol=", rtol, " t0=", (double)t0, " span=", (double)span, "\n", describe(b));
    auto s = m.make(t0, b);
    Track k;
    k.start(s->view().snap());
    RunSpec r;
    r.t_end = (double)(t0 + span); r.rtol = rtol; r.max_steps = 3000;
    r.on_op = [&](View const& v, real) { k.add(v.snap()); };
    s->run(r);
    C.label(m.integ);
    C.nontrivial(k.n > 10);
    R sq = 3 + std::sqrt((R)k.n), e = eps(m), canc = m.regularised() ? gen::frame_cancellation(b) : 1;
    R clock = std::fabs(t0) * 2.2e-16L * ref::norm(k.w);
    R tol = (m.integ == "Radau" ? std::max<R>(std::min<R>(rtol, 1e-9L), 1e-15L) : std::max<R>(rtol, 1e-15L)) * canc;
    std::string g = pbt::str(m.integ, m.regularised() || m.chain() ? " reg" : " flat");
    R fE = k.dE / (k.emax * (tol + e * k.smax / k.rmin) * sq), fL = k.dL / ((k.M * k.vmax * k.smax) * tol * sq);
    R fP = k.dP / ((k.M * k.vmax) * e * sq), fC = k.dC / ((k.smax * e + clock) * sq + k.vmax * span * e * sq);
    pbt::cal("E " + g, fE); pbt::cal("L " + g, fL); pbt::cal("P", fP); pbt::cal("C", fC);
    R aE = 25, aL = 1, aP = 40, aC = 40;
    REQUIRE(C, fE <= aE, m.name, ": the energy drifts by ", k.dE / k.emax, " (relative) in ", k.n, " steps at tolerance ", rtol);
    REQUIRE(C, fL <= aL, m.name, ": the angular momentum drifts by ", k.dL / (k.M * k.vmax * k.smax), " (relative) in ", k.n, " steps at tolerance ", rtol);
    REQUIRE(C, fP <= aP, m.name, ": the momentum changes by ", k.dP / (k.M * k.vmax), " (relative) in ", k.n, " steps");
    REQUIRE(C, fC <= aC, m.name, ": the centre of mass is off its straight line by ", k.dC / k.smax, " (relative) in ", k.n, " steps");
}
LAW("constant-step methods", "2-5 bodies, constant-step symplectic and Gauss-Radau methods at a resolved step over hundreds of steps; symplectic: angular momentum to rounding and no energy drift; non-trivial: more than 100 steps", 8000, 400000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (m.fixed) v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    bool two = C.boolean();
    auto b = two ? gen::two_body(C, 0, m.regularised() ? 0.8L : 0.5L, false).b : C.boolean() ? gen::planets(C, 1 + C.integer(1, 3)) : gen::hierarchy(C, C.integer(3, 4));
    if (m.regularised() && gen::frame_cancellation(b) > 20) C.discard();
    R h = gen::time_scale(b) * (R)C.real(0.02, 0.12);
    h = (double)h;
    long steps = C.integer(100, 600);
    C.note(m.name, " h=", (double)h, " steps=", steps, "\n", describe(b));
    auto s = m.make(0, b);
    Track k;
    k.start(s->view().snap());
    RunSpec r;
    r.has_end = false; r.step = m.regularised() ? h * s->view().step_scale() : h; r.max_steps = steps;
    k.t_end = h * steps;
    r.on_op = [&](View const& v, real) { k.add(v.snap()); };
    s->run(r);
    C.label(m.integ);
    C.nontrivial(k.n > 100);
    R ratio = h / k.tau;
    if (ratio > 0.2L) C.discard();  // a close encounter that this step does not resolve
    R sq = 3 + std::sqrt((R)k.n), e = eps(m);
    bool sym = m.integ != "Radau";
    std::string g = pbt::str("const ", m.integ, m.regularised() || m.chain() ? " reg" : " flat");
    R fL = k.dL / (k.M * k.vmax * k.smax * (sym ? e : 2.2e-16L) * sq), fP = k.dP / (k.M * k.vmax * e * sq), fC = k.dC / (k.smax * e * sq + k.vmax * h * k.n * e * sq);
    int ord = sym ? m.order : 15;
    R fE = k.dE / (k.emax * (std::pow(ratio, (R)ord) + 2.2e-16L * sq));
    pbt::cal("L " + g, fL); pbt::cal("P c", fP); pbt::cal("C c", fC); pbt::cal("E " + g, fE);
    REQUIRE(C, fP <= 40, m.name, ": the momentum changes by ", k.dP / (k.M * k.vmax), " (relative) in ", k.n, " steps");
    REQUIRE(C, fC <= 40, m.name, ": the centre of mass is off its straight line by ", k.dC / k.smax, " (relative) in ", k.n, " steps");
    double aE = !sym ? 20 : m.order <= 4 ? 0.4 : m.order == 6 ? 0.04 : m.order == 8 ? 100 : 30;
    REQUIRE(C, fL <= 25, m.name, ": the angular momentum drifts by ", k.dL / (k.M * k.vmax * k.smax), " (relative) in ", k.n, " steps");
    REQUIRE(C, fE <= aE, m.name, ": the energy is off by ", k.dE / k.emax, " (relative) with steps of ", ratio, " dynamical times");
}
LAW("no secular energy drift", "constant-step symplectic methods on an eccentric orbit, 30 revolutions: energy error in the last two against the first two; non-trivial: error above rounding", 700, 40000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (m.fixed && m.integ != "Radau") v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    auto t = gen::two_body(C, 0.05, 0.5, false);
    R h = t.P / (R)C.real(m.order <= 4 ? 60 : 30, 150) * std::pow(1 - t.e, 1.5L);
    h = (double)h;
    C.note(m.name, " h=", (double)h, "\n", describe(t.b));
    auto s = m.make(0, t.b);
    R E0 = ref::energy(t.b), K = 0, a = 0, b = 0;
    RunSpec r;
    r.t_end = 30 * t.P; r.step = m.regularised() ? h * s->view().step_scale() : h; r.max_steps = 30000;
    r.on_op = [&](View const& v, real) {
        auto q = v.snap();
        R e = std::fabs(ref::energy(q.b) - E0);
        K = std::max(K, ref::kinetic(q.b));
        if (q.t < 2.05L * t.P) a = std::max(a, e);
        if (q.t > 27.95L * t.P) b = std::max(b, e);
    };
    auto res = s->run(r);
    REQUIRE(C, !res.hit_cap, "30 revolutions take more than 30000 steps of ", h);
    C.nontrivial(a > 1e-13L * K);
    R f = b / (a + 1e-13L * K);
    pbt::cal(pbt::str("D ", m.integ, m.regularised() ? " reg" : " flat"), f);
    REQUIRE(C, f <= 1.5L, m.name, ": the energy error grows from ", a / K, " in the first revolutions to ", b / K, " after thirty");
}
