// P01: two-body motion agrees with the analytic Kepler solution for every method.
//: methods all
#include "cond.hpp"
#include "gen.hpp"
using namespace sim;
using ref::R;

// multiple of (condition number x tolerance) a method may be off by; 20-50 times the largest value seen in
// 50000 cases on the fixed tree
// the condition along the path absorbs more of what an eccentric or unbound orbit amplifies: less is left to allow for
static double allowance(Method const& m, double rtol, bool path = false) {
    if (path && m.regularised()) return allowance(m, rtol) / (m.integ == "Sym4" ? 3 : m.prec >= Ext ? 1 : 8);
    bool reg = m.regularised(), ext = m.prec >= Ext;
    if (m.integ == "Radau") return ext ? 0.2 : reg ? 8 : 120;
    if (m.integ == "Sym2") return reg ? 1500 : 8000;
    if (m.integ == "Sym4") return reg ? 150 : 1000;
    return reg ? 20 : 250;
}
static std::vector<Method const*> pool(bool slow, bool fixed) {
    std::vector<Method const*> v;
    for (auto& m : methods())
        if (m.fixed == fixed && (m.integ == "Sym2") == slow) v.push_back(&m);
    return v;
}
// rounding and truncation happen all along the orbit, relative to the state there: the largest amplification of a relative
// perturbation of an intermediate state (the periapsis among them)
static R path_condition(std::vector<Body> const& b, std::vector<Body> const& out, R dt, ref::Scales sc) {
    std::vector<R> ts;
    for (int i = 1; i < 8; ++i) ts.push_back(dt * i / 8);
    ref::V r = ref::pos(b[1]) - ref::pos(b[0]), v = ref::vel(b[1]) - ref::vel(b[0]);
    // time of the periapsis passages: bisect r.v between steps of the true anomaly is overkill; scan and refine
    R lo = 0, step = dt / 64;
    auto rv = [&](R s) { auto c = ref::kepler_two_body(b, s); return ref::dot(ref::pos(c[1]) - ref::pos(c[0]), ref::vel(c[1]) - ref::vel(c[0])); };
    for (R f0 = rv(0); lo < dt * 0.999L; lo += step) {
        R f1 = rv(lo + step);
        if (f0 < 0 && f1 >= 0) {
            R a = lo, z = lo + step;
            for (int k = 0; k < 40; ++k) { R m = (a + z) / 2; (rv(m) < 0 ? a : z) = m; }
            ts.push_back(a);
        }
        f0 = f1;
    }
    R worst = 1;
    for (R s : ts) {
        auto c = ref::kepler_two_body(b, s);
        R l = 0, w = 0, eps = 1e-12L;
        l = ref::norm(ref::pos(c[1]) - ref::pos(c[0])); w = ref::norm(ref::vel(c[1]) - ref::vel(c[0]));
        for (auto& q : c) { l = std::max(l, ref::norm(ref::pos(q))); w = std::max(w, ref::norm(ref::vel(q))); }
        for (int p = 0; p < 3; ++p) {
            auto d = c;
            for (size_t i = 0; i < d.size(); ++i)
                for (int k = 0; k < 3; ++k) {
                    unsigned h = (unsigned)(i * 7 + k * 3 + p * 11 + 1) * 2654435761u;
                    d[i].x[k] += eps * l * ((h >> 13) & 1 ? 0.5L : -0.5L);
                    d[i].v[k] += eps * w * ((h >> 17) & 1 ? 0.5L : -0.5L);
                }
            worst = std::max(worst, ref::rel_diff(ref::kepler_two_body(d, dt - s), out, sc) / eps);
        }
    }
    return worst;
}
// one orbit; returns error / unit
enum Shape { Bound, Extreme, Unbound };
static R orbit(pbt::Case& C, Method const& m, double rt_lo, double rt_hi, Shape shape = Bound) {
    auto t = shape == Bound ? gen::two_body(C, 0, 0.9L) : shape == Extreme ? gen::two_body(C, 1 - 0.1L * (R)C.logreal(1e-3, 1), -1, C.chance(1, 4)) : gen::two_body(C, 1 + (R)C.logreal(1e-3, 10), -1, C.chance(1, 4));
    double rtol = rt_lo == rt_hi || C.boolean() ? rt_lo : C.logreal(rt_lo, m.regularised() ? rt_hi : std::max(rt_lo, rt_hi * 1e-3));
    if (shape == Bound && C.chance(1, 4)) {
        if (m.integ.substr(0, 3) == "Sym") rtol = std::max(rtol, 1e-12);  // many stages of rounding at the scale of the offset
        C.label("far from the origin");
        ref::V s = gen::unit(C) * (t.a * (R)C.logreal(10, 3000));
        for (auto& q : t.b) ref::set_pos(q, ref::pos(q) + s);
        ref::round_double(t.b);
    }
    R t0 = C.chance(1, 3) ? (R)(double)(t.P * C.sym(3)) : 0;
    R dur = (R)(double)(t.P * (shape == Unbound ? C.logreal(0.02, 20) : C.real(0.02, 1.5)));
    C.note(m.name, " rtol=", rtol, " t0=", (double)t0, " dur=", (double)dur, " e=", (double)t.e, "\n", describe(t.b), "\n");
    auto s = m.make(t0, t.b);
    RunSpec r;
    r.t_end = t0 + dur; r.rtol = rtol; r.time_rtol = 1e-13; r.max_steps = 400000;
    long steps = 0;
    r.on_op = [&](View const&, real) { ++steps; };
    auto res = s->run(r);
    REQUIRE(C, !res.hit_cap, "does not reach its end within 400000 steps");
    auto got = s->view().snap();
    R dt = got.t - t0;
    R span = std::max(std::fabs(t0), std::fabs(r.t_end));
    REQUIRE(C, std::fabs(got.t - r.t_end) <= 2e-13L * span, "stopped at ", got.t, " instead of ", r.t_end);
    auto want = ref::kepler_two_body(t.b, dt);
    R k = ref::condition(t.b, want, [&](auto const& c) { return ref::kepler_two_body(c, dt); });
    auto sc = ref::scales(t.b, want);
    if (shape != Bound) k = std::max(k, path_condition(t.b, want, dt, sc));
    // an offset of the frame or of the clock costs digits: the clock error moves the bodies by eps*|t|*rate
    R clock = 4 * 2.2e-16L * span * (ref::norm(ref::vel(want[0]) - ref::vel(want[1])) / sc.L + t.mu / std::pow(ref::norm(ref::pos(want[0]) - ref::pos(want[1])), 2) / sc.V);
    R err = ref::rel_diff(got.b, want, sc);
    R unit = k * (m.integ == "Radau" ? 1e-14L : (R)std::max(rtol, 1e-14)) * (m.regularised() ? gen::frame_cancellation(t.b) : 1) + clock * 10;
    // far from the origin the rounding of the positions is all Gauss-Radau sees of its error: it takes many small steps, each rounded
    if (m.integ == "Radau" && !m.regularised()) unit *= std::max<R>(1, steps / 200.0L);
    C.label(m.integ);
    C.nontrivial(t.e > 0.01 && steps > 1);
    pbt::cal(pbt::str(shape == Bound ? "" : shape == Extreme ? "ecc " : "hyp ", m.integ, m.regularised() ? " reg" : " flat", m.prec >= Ext ? " ext" : "", " 1e", (int)std::floor(std::log10(rtol))), err / unit);
    REQUIRE(C, err <= allowance(m, rtol, shape != Bound) * unit, m.name, " is off by ", err, " (relative), condition ", k, " rtol ", rtol, " allowed ", allowance(m, rtol, shape != Bound) * unit);
    return err / unit;
}

LAW("kepler orbit", "random bound two-body system, method, tolerance, start time and duration; non-trivial: e > 0.01 and more than one step", 25000, 1500000) {
    static auto ms = pool(false, false);
    orbit(C, *C.pick(ms), 1e-14, 1e-7);
}
LAW("kepler orbit, 2nd order methods", "as above for the second-order adaptive methods at looser tolerances", 900, 30000) {
    static auto ms = pool(true, false);
    orbit(C, *C.pick(ms), 1e-9, 1e-6);
}
LAW("eccentric orbit", "eccentricities of 0.9 to 0.9999; non-trivial: more than one step", 4000, 300000) {
    static auto ms = pool(false, false);
    orbit(C, *C.pick(ms), 1e-14, 1e-7, Extreme);
}
LAW("unbound orbit", "hyperbolas with e - 1 of 0.001 to 10, from far to far, far to near, near to far; non-trivial: more than one step", 4000, 300000) {
    static auto ms = pool(false, false);
    orbit(C, *C.pick(ms), 1e-14, 1e-7, Unbound);
}
// the median over seven orbits is far less scattered than a single error, so its bound can be much tighter
static double typical(Method const& m) {
    bool reg = m.regularised();
    if (m.integ == "BS") return reg ? 0.3 : 1.5;
    if (m.integ == "Radau") return reg ? 0.2 : 1;
    if (m.integ == "Sym4") return reg ? 10 : 40;
    if (m.integ == "Sym6") return reg ? 1.5 : 10;
    if (m.integ == "Sym8") return reg ? 0.7 : 10;
    return reg ? 0.5 : 2;
}
LAW("typical accuracy", "one method on seven random orbits at the default tolerance: the median error; non-trivial: as above", 3000, 150000) {
    static auto ms = pool(false, false);
    auto const& m = *C.pick(ms);
    std::vector<R> q;
    for (int i = 0; i < 7; ++i) q.push_back(orbit(C, m, 1e-14, 1e-14));
    std::sort(q.begin(), q.end());
    pbt::cal(pbt::str("median ", m.integ, m.regularised() ? " reg" : " flat"), q[3] / typical(m));
    REQUIRE(C, q[3] <= typical(m) / 2, m.name, ": median error over seven orbits is ", q[3], " units, at most ", typical(m) / 2, " expected");
}
static double typical_loose(Method const& m) {
    bool reg = m.regularised(), ext = m.prec >= Ext;
    if (m.integ == "BS") return reg ? 0.006 : 0.06;
    if (m.integ == "Radau") return ext ? (reg ? 2.5e-5 : 1e-4) : reg ? 0.03 : 0.2;
    if (m.integ == "Sym4") return reg ? 0.5 : 2.5;
    if (m.integ == "Sym6") return reg ? 0.07 : 0.3;
    if (m.integ == "Sym8") return reg ? 0.03 : 0.1;
    return reg ? 7e-4 : 0.02;
}
LAW("typical accuracy at a loose tolerance", "one method on 25 random orbits at one tolerance of 1e-11 to 1e-8: the median error; non-trivial: as above", 900, 40000) {
    static auto ms = pool(false, false);
    auto const& m = *C.pick(ms);
    std::vector<R> q;
    double rtol = C.logreal(1e-11, 1e-8);
    for (int i = 0; i < 25; ++i) q.push_back(orbit(C, m, rtol, rtol));
    std::sort(q.begin(), q.end());
    pbt::cal(pbt::str("loose ", m.integ, m.regularised() ? " reg" : " flat", m.prec >= Ext ? " ext" : ""), q[12]);
    REQUIRE(C, q[12] <= typical_loose(m), m.name, ": median error over 25 orbits at a tolerance of ", rtol, " is ", q[12], " units, at most ", typical_loose(m), " expected");
}
