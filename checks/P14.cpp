// P14: trajectories under extra forces agree with an independent integration of the same equations of motion
//: also P14_trap_ADAPTIVE.cpp P14_trap_FIXED.cpp P14_wind_ADAPTIVE.cpp P14_wind_FIXED.cpp P14_both_ADAPTIVE.cpp P14_both_FIXED.cpp P14_pn_ADAPTIVE.cpp P14_pn_FIXED.cpp ../lib/sim_core.cpp
#include "cond.hpp"
#include "gen.hpp"
#include "pn_formulas.hpp"
using namespace sim;
using ref::R;
using ref::V;

static std::vector<Method const*> pool(bool fixed) {
    std::vector<Method const*> v;
    for (auto& m : methods()) if (m.fixed == fixed) v.push_back(&m);
    return v;
}
static void trap(size_t i, V x, V& a) { R k = 0.03125L * (1 + 0.5L * (i % 3)); a += V(-k * x.x, -2 * k * x.y, -0.5L * k * x.z); }
static void wind(size_t i, V v, V& a) { R d = 0.015625L * (1 + (i % 2)), w = 0.125L; a += V(-d * v.x + w * v.y, -d * v.y - w * v.x, -d * v.z); }
static ref::Acc equations(std::string const& tag) {
    return [tag](R t, std::vector<R> const& m, std::vector<V> const& x, std::vector<V> const& v, std::vector<V>& a) {
        ref::newton(t, m, x, v, a);
        size_t n = m.size();
        if (tag == "trap" || tag == "both") for (size_t i = 0; i < n; ++i) trap(i, x[i], a[i]);
        if (tag == "wind" || tag == "both") for (size_t i = 0; i < n; ++i) wind(i, v[i], a[i]);
        if (tag == "pn")
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (i != j) {
                        Body p, q;
                        p.m = m[i]; q.m = m[j];
                        ref::set_pos(p, x[i]); ref::set_pos(q, x[j]); ref::set_vel(p, v[i]); ref::set_vel(q, v[j]);
                        R size = 0;
                        for (int o : {10, 20, 25}) pn::pair_acc(o, p, q, 1, a[i], size);
                    }
    };
}
// PN systems are shrunk until they are relativistic: v/c of a few per cent
static void compact(pbt::Case& C, std::vector<Body>& b) {
    R f = C.logreal(1e-6, 1e-4);
    for (auto& p : b) { ref::set_pos(p, ref::pos(p) * f); ref::set_vel(p, ref::vel(p) / std::sqrt(f)); }
    ref::round_double(b);
}
// external fields have strengths of their own: give every system a dynamical time comparable with theirs
static void normalise(pbt::Case& C, std::vector<Body>& b) {
    R f = std::pow((R)C.logreal(0.3, 2) / gen::time_scale(b), 2 / 3.0L);
    for (auto& p : b) { ref::set_pos(p, ref::pos(p) * f); ref::set_vel(p, ref::vel(p) / std::sqrt(f)); }
    ref::round_double(b);
}
struct Problem { std::vector<Body> b, want; R span, k, accel, tau{1e300L}; ref::Acc acc; };
static bool prepare(std::vector<Body> b, R span, R kmax, ref::Acc acc, Problem& p) {
    p.b = b; p.span = span; p.acc = acc;
    ref::Nbody n; n.acc = acc; n.load(b, 0); n.max_steps = 2000;
    // time transformations cancel kinetic against binding energy: a field that makes bodies much faster than
    // their mutual attraction could is outside the statement
    for (int k = 1; k <= 32; ++k) { n.run_to(span * k / 32); p.tau = std::min(p.tau, n.scale_step()); if (!n.ok || gen::frame_cancellation(n.bodies()) > 20) return false; }
    p.want = n.bodies();
    p.k = ref::condition(b, p.want, [&](auto const& c) { return ref::nbody(c, span, acc, 1e-15L); });
    R r0 = 1e300L;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) r0 = std::min(r0, ref::norm(ref::pos(b[i]) - ref::pos(b[j])));
    p.k *= std::max<R>(1, (r0 / n.rmin) * (r0 / n.rmin));
    // how much the extra force matters: difference from the unforced motion
    auto free_ = ref::nbody(b, span, ref::newton, 1e-12L);
    p.accel = ref::rel_diff(free_, p.want, ref::scales(b, p.want));
    return p.k < kmax;
}
static std::vector<Body> small_system(pbt::Case& C, size_t nmax) {
    if (C.chance(1, 3)) { C.label("two bodies"); return gen::two_body(C, 0, 0.7L, false).b; }
    return gen::any_system(C, 3, nmax);
}
static double allowance(Method const& m) { return m.integ == "BS" ? 4 : m.integ == "Radau" ? 2 : 40; }

LAW("forced trajectories, adaptive methods",
    "2-5 bodies under a trap (velocity independent), a wind (velocity dependent), both, or post-Newtonian terms in a compact system, by 17 adaptive methods of all four system kinds and both time transformations, against "
    "the reference; non-trivial: the force changes the final state by at least 1e4 times the tolerance",
    1200, 60000) {
    static auto ms = pool(false);
    auto const& m = *C.pick(ms);
    auto b = small_system(C, 5);
    if (m.base == "pn") compact(C, b); else normalise(C, b);
    R span = (double)(gen::time_scale(b) * (R)C.logreal(0.5, 25));
    Problem p;
    if (!prepare(b, span, 1e5L, equations(m.base), p)|| gen::frame_cancellation(b) > 20) C.discard();
    double lo = 1e-14, rtol = C.boolean() ? lo : C.logreal(lo, 1e-9);
    if (p.accel < 1e4L * rtol) C.discard();
    C.nontrivial();
    C.label(m.base); C.label(m.integ);
    R t0 = C.chance(1, 4) ? (R)(double)(span * C.sym(5)) : 0;
    auto s = m.make(t0, p.b);
    RunSpec r;
    r.t_end = t0 + p.span; r.rtol = rtol; r.time_rtol = 1e-13; r.max_steps = 60000;
    auto res = s->run(r);
    C.note(m.base, " ", m.name, " rtol=", rtol, " t0=", (double)t0, " span=", (double)p.span, "\n", describe(p.b), "\n");
    REQUIRE(C, !res.hit_cap, m.name, " does not finish within 60000 steps");
    auto got = s->view().snap();
    auto want = p.want;
    R late = got.t - r.t_end;
    auto sc = ref::scales(p.b, want);
    if (late != 0) want = ref::nbody(want, late, p.acc);
    R err = ref::rel_diff(got.b, want, sc);
    R rate = 1 / (gen::time_scale(p.b) * 0.2L), clock = 1e-15L * std::max(std::fabs(t0), std::fabs(r.t_end)) * rate;
    R unit = p.k * ((m.integ == "Radau" ? 1e-14L : (R)std::max(rtol, 1e-14)) * (m.regularised() ? gen::frame_cancellation(p.b) : 1) + clock);
    pbt::cal(pbt::str(m.base, " ", m.integ, m.name.substr(0, 3) == "TTL" ? " ttl" : m.regularised() ? " reg" : " flat"), err / unit);
    REQUIRE(C, err <= allowance(m) * unit, m.name, " under ", m.base, " is off by ", (double)err, " (relative), condition ", (double)p.k, ", allowed ", (double)(allowance(m) * unit));
}
LAW("forced trajectories, constant steps",
    "the same forces and 11 constant-step methods of order 2, 4 and 15: halving the step reduces the error at the design order (15th order: error small); non-trivial: as above",
    700, 30000) {
    static auto ms = pool(true);
    auto const& m = *C.pick(ms);
    auto b = C.boolean() ? gen::two_body(C, 0, 0.5L, false).b : gen::planets(C, 2);
    if (m.base == "pn") compact(C, b); else normalise(C, b);
    R tau = gen::time_scale(b), span = tau * (R)C.real(2, 8);
    Problem p;
    if (!prepare(b, span, 1e4L, equations(m.base), p)) C.discard();
    tau = std::min(tau, p.tau);
    R base = m.order == 2 ? 0.02L : m.order == 4 ? 0.1L : 0.2L;  // time-transformed steps grow where the potential is shallow
    long n = std::max<long>(8, (long)std::ceil(span / (tau * base * (R)C.real(0.7, 1.3))));
    if (n > 2000) C.discard();
    R h = span / n, e[3];
    C.note(m.base, " ", m.name, " h=", (double)h, " n=", n, "\n", describe(p.b), "\n");
    for (int k = 0; k < 3; ++k) {
        auto s = m.make(0, p.b);
        RunSpec r;
        r.has_end = false;
        R step = h / (1 << k);
        r.step = m.regularised() ? step * s->view().step_scale() : step;
        long cnt = 0, todo = n << k;
        r.stop = [&](View const&, real) { return ++cnt > todo; };
        s->run(r);
        auto got = s->view().snap();
        auto want = ref::nbody(p.b, got.t, p.acc, 1e-16L);
        e[k] = ref::rel_diff(got.b, want, ref::scales(p.b, want));
        if (m.order == 15) break;
    }
    R floor = 2e-15L * p.k * std::sqrt((R)(n << 2)) + 1e-14L;
    if (p.accel < 1e3L * std::max(e[m.order == 15 ? 0 : 2], floor)) C.discard();
    C.label(m.base); C.label(m.integ);
    if (m.order == 15) {
        C.nontrivial();
        pbt::cal(pbt::str(m.base, " ", m.name), e[0] / p.k);
        REQUIRE(C, e[0] <= 1e-10L * p.k, m.name, " under ", m.base, ": error ", (double)e[0], " at step ", (double)h, ", condition ", (double)p.k);
        return;
    }
    if (e[2] < 30 * floor) C.discard();
    C.nontrivial();
    R slope = std::log2(e[1] / e[2]);
    pbt::cal(pbt::str(m.base, " slope deficit ", m.name), m.order - slope);
    pbt::cal(pbt::str(m.base, " const ", m.name), e[1] / p.k / std::pow(h / 2 / tau, m.order));
    R slack = m.order == 2 ? 0.15L : 0.5L;
    bool late = m.order - slope > slack && e[0] > 0.02L;  // not yet in the asymptotic regime
    if (late) C.discard();
    REQUIRE(C, slope >= m.order - slack, m.name, " under ", m.base, " converges at order ", (double)slope, ": errors ", (double)e[0], ", ", (double)e[1], ", ", (double)e[2]);
}
