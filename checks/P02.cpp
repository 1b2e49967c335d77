// P02: few-body trajectories of every adaptive method agree with an independent reference integrator.
//: methods all
#include "cond.hpp"
#include "gen.hpp"
using namespace sim;
using ref::R;

static std::vector<Method const*> pool(bool slow) {
    std::vector<Method const*> v;
    for (auto& m : methods())
        if (!m.fixed && (m.integ == "Sym2") == slow) v.push_back(&m);
    return v;
}
// multiple of (condition number x tolerance); 20-50 times the largest value seen in 30000 cases
static double allowance(Method const& m) {
    if (m.integ == "BS") return 3;
    if (m.integ == "Radau") return 2;
    if (m.integ == "Sym2") return 200;
    if (m.integ == "Sym4") return 80;
    return 12;
}
struct Problem { std::vector<Body> b, want; R span, k; };
static bool prepare(std::vector<Body> b, R span, R kmax, Problem& p) {
    p.b = b; p.span = span;
    ref::Nbody n; n.load(b, 0); n.max_steps = 3000; n.run_to(span);
    if (!n.ok) return false;
    p.want = n.bodies();
    p.k = ref::condition(b, p.want, [&](auto const& c) { return ref::nbody(c, span, ref::newton, 1e-15L); });
    // rounding during a close encounter is amplified more than a perturbation of the initial state
    R r0 = 1e300L;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) r0 = std::min(r0, ref::norm(ref::pos(b[i]) - ref::pos(b[j])));
    p.k *= std::max<R>(1, (r0 / n.rmin) * (r0 / n.rmin));
    return p.k < kmax;
}
static R check(pbt::Case& C, Method const& m, Problem const& p, double rtol, R t0) {
    auto s = m.make(t0, p.b);
    RunSpec r;
    r.t_end = t0 + p.span; r.rtol = rtol; r.time_rtol = 1e-13; r.max_steps = 60000;
    auto res = s->run(r);
    if (res.hit_cap) {
        C.note(m.name, " rtol=", rtol, "\n", describe(p.b));
        REQUIRE(C, false, m.name, " does not finish within 60000 steps");
    }
    auto got = s->view().snap();
    auto want = p.want;
    R late = got.t - r.t_end, span = std::max(std::fabs(t0), std::fabs(r.t_end));
    auto sc = ref::scales(p.b, want);
    if (late != 0) want = ref::nbody(want, late);
    R err = ref::rel_diff(got.b, want, sc);
    // the clock carries rounding of its own: eps * |t| * (rate of change of the state)
    R rate = 1 / (gen::time_scale(p.b) * 0.2L), clock = 1e-15L * span * rate;
    R unit = p.k * ((m.integ == "Radau" ? 1e-14L : (R)std::max(rtol, 1e-14)) * (m.regularised() ? gen::frame_cancellation(p.b) : 1) + clock);
    pbt::cal(pbt::str(m.integ, m.regularised() ? " reg" : " flat", rtol < 2e-14 ? " tight" : ""), err / unit);
    double a = allowance(m);
    if (!(err <= a * unit)) C.note(m.name, " rtol=", rtol, " t0=", (double)t0, " span=", (double)p.span, "\n", describe(p.b), "\n");
    REQUIRE(C, err <= a * unit, m.name, " is off by ", err, " (relative), condition ", p.k, ", rtol ", rtol, ", allowed ", a * unit);
    return err / unit;
}
static std::vector<Body> framed(pbt::Case& C, std::vector<Body> b) {
    if (C.chance(1, 3)) {
        C.label("moving frame");
        ref::V x = gen::unit(C) * (R)C.real(0, 5), w = gen::unit(C) * (R)(C.real(0, 1) * std::sqrt((double)(-ref::potential(b) / ref::mass(b))));
        for (auto& p : b) { set_pos(p, ref::pos(p) + x); set_vel(p, ref::vel(p) + w); }
        ref::round_double(b);
    }
    return b;
}
LAW("few-body trajectory", "hierarchies, clouds, planetary systems of 3-6 bodies, three methods each, any tolerance and frame, against the reference; non-trivial: condition number below 1e5", 3500, 150000) {
    static auto ms = pool(false);
    auto b = framed(C, gen::any_system(C, 3, 6));
    R span = gen::time_scale(b) * (R)C.logreal(0.5, 40);
    span = (double)span;
    Problem p;
    if (!prepare(b, span, 1e5L, p) || gen::frame_cancellation(b) > 20) C.discard();
    C.nontrivial();
    for (int i = 0; i < 3; ++i) {
        auto const& m = *C.pick(ms);
        double lo = m.integ == "Sym4" ? 1e-12 : 1e-14;
        double rtol = C.boolean() ? lo : C.logreal(lo, 1e-9);
        C.label(m.integ);
        check(C, m, p, rtol, C.chance(1, 4) ? (R)(double)(span * C.sym(5)) : 0);
    }
}
LAW("scattering", "two groups of one to three bodies on a hyperbolic encounter, from before to after, three methods each, any tolerance; non-trivial: condition number below 1e5", 1500, 60000) {
    static auto ms = pool(false);
    R span;
    auto b = gen::scattering(C, span);
    span = (double)span;
    Problem p;
    if (span > 150 * gen::time_scale(b)) C.discard();
    if (!prepare(b, span, 1e5L, p) || gen::frame_cancellation(b) > 40) C.discard();
    C.nontrivial();
    for (int i = 0; i < 3; ++i) {
        auto const& m = *C.pick(ms);
        double lo = m.integ == "Sym4" ? 1e-10 : 1e-14;
        double rtol = C.boolean() ? lo : C.logreal(lo, 1e-8);
        C.label(m.integ);
        check(C, m, p, rtol, C.chance(1, 4) ? (R)(double)(span * C.sym(5)) : 0);
    }
}
LAW("few-body trajectory, 2nd order methods", "as above, second-order adaptive methods at loose tolerance; non-trivial: as above", 120, 4000) {
    static auto ms = pool(true);
    auto b = framed(C, gen::any_system(C, 3, 4));
    R span = (double)(gen::time_scale(b) * (R)C.logreal(0.5, 8));
    Problem p;
    if (!prepare(b, span, 1e4L, p) || gen::frame_cancellation(b) > 20) C.discard();
    C.nontrivial();
    check(C, *C.pick(ms), p, C.logreal(1e-8, 1e-6), 0);
}
// the median over several systems is less scattered, so its bound is tight
static double typical(Method const& m) {
    if (m.integ == "BS" || m.integ == "Radau") return 0.03;
    if (m.integ == "Sym10") return 0.06;
    return 0.3;
}
LAW("typical accuracy", "one method at the default tolerance on five systems: the median error; non-trivial: as above", 600, 30000) {
    static auto ms = pool(false);
    auto const& m = *C.pick(ms);
    if (m.integ == "Sym4") C.discard();
    std::vector<R> e;
    for (int i = 0; i < 12 && e.size() < 5; ++i) {
        auto b = C.boolean() ? gen::hierarchy(C, 3) : gen::planets(C, 1 + C.integer(1, 3));
        Problem p;
        if (!prepare(b, (double)(gen::time_scale(b) * (R)C.real(2, 20)), 1e4L, p)) continue;
        e.push_back(check(C, m, p, 1e-14, 0));
    }
    if (e.size() < 5) C.discard();
    C.nontrivial();
    std::sort(e.begin(), e.end());
    pbt::cal(pbt::str("median ", m.integ, m.regularised() ? " reg" : " flat"), e[2]);
    REQUIRE(C, e[2] <= typical(m), m.name, ": median error over five systems is ", e[2], " units, at most ", typical(m), " expected");
}
