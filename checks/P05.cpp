// P05: constant-step methods converge at their design order.
//: methods all
#include "cond.hpp"
#include "gen.hpp"
using namespace sim;
using ref::R;

static std::vector<Method const*> fixed_methods() {
    std::vector<Method const*> v;
    for (auto& m : methods())
        if (m.fixed) v.push_back(&m);
    return v;
}
// how far below the design order a measured slope may lie (pre-asymptotic steps, close encounters)
static R slack(int p, bool two) {
    switch (p) {
        case 2: return two ? 0.03L : 0.15L;
        case 4: return two ? 0.25L : 0.9L;
        case 6: return two ? 0.4L : 1.5L;
        case 8: return two ? 4 : 6;
        default: return two ? 6 : 7;
    }
}
// leading error coefficient on a two-body orbit: about ten times the largest value seen
static R constant(Method const& m) {
    bool reg = m.regularised();
    switch (m.order) {
        case 2: return reg ? 1 : 3;
        case 4: return reg ? 0.6L : 8;
        case 6: return reg ? 0.02L : 0.8L;
        case 8: return reg ? 0.3L : 500;
        case 10: return reg ? 3e-9L : 3e-6L;
        default: return reg ? 4e-5L : 3e-2L;
    }
}

// error after n fixed steps; wanted(t) is the reference state at time t
template <class Want> static R fixed_error(Method const& m, std::vector<Body> const& b, R h, long n, Want want, R* tend) {
    auto s = m.make(0, b);
    RunSpec r;
    r.has_end = false;
    R h_in = m.regularised() ? h * s->view().step_scale() : h;
    r.step = h_in;
    long k = 0;
    r.stop = [&](View const&, real) { return ++k > n; };
    s->run(r);
    auto got = s->view().snap();
    *tend = got.t;
    auto w = want(got.t);
    return ref::rel_diff(got.b, w, ref::scales(b, w));
}
template <class Want> static void order_law(pbt::Case& C, std::vector<Body> const& b, R tau, R span, Want want) {
    static auto ms = fixed_methods();
    auto const& m = *C.pick(ms);
    C.label(m.integ);
    C.note(m.name, " span=", span, " tau=", tau, "\n", describe(b));
    int p = m.order;
    R frac = p == 2 ? 0.02L : p == 4 ? 0.1L : p == 15 ? 2.4L : p == 10 ? 1.5L : 0.5L;
    frac *= (R)C.real(0.7, 1.4);
    long n = std::max<long>(2, (long)std::ceil(span / (tau * frac)));
    R h = span / n, t1;
    R floor = (m.prec >= Ext ? 3e-15L : p <= 4 ? 2e-11L : 1e-12L);  // rounding, which grows with the number of steps
    if (b.size() > 2) {
        R k = ref::condition(b, want(span), [&](auto const& c) { return ref::nbody(c, span); });
        if (!(k < 1e4L)) C.discard();
        floor *= k;
    }
    std::vector<R> e;
    R last = 0;
    for (int k = 0; k < 12 && n < 60000; ++k, n *= 2, h /= 2) {
        R x = fixed_error(m, b, h, n, want, &t1);
        if (!(x < 3e-2L / (1 << (p > 6 ? 2 : 0)))) { e.clear(); continue; }
        if (e.size() && x < floor) break;
        e.push_back(x);
        last = h;
        if (e.size() >= (p <= 4 ? 6u : 5u)) break;
    }
    if (e.size() < 2 || e.back() < floor || (p <= 4 && e.size() < 3) || (b.size() > 2 && p <= 8 && e.size() < 4)) C.discard();
    // slope over the last refinements, where the leading error term dominates
    size_t k = e.size() - 1, j = k >= 2 && p <= 8 ? k - 2 : k - 1;
    R slope = std::log2(e[j] / e[k]) / (R)(k - j);
    if (b.size() > 2)  // error terms of the different pairs may cancel at one step size: take the best of the last refinements
        for (size_t i = k > 3 ? k - 3 : 0; i < k; ++i) slope = std::max(slope, std::log2(e[i] / e[i + 1]));
    C.nontrivial();
    R unit = std::pow(last / tau, (R)p) * (span / tau);
    bool two = b.size() == 2;
    if (two) pbt::cal(pbt::str("const ", m.integ, m.regularised() ? " reg" : " flat"), (e.back() - 10 * floor) / unit);
    pbt::cal(pbt::str(m.integ, m.regularised() ? " reg" : " flat", two ? " 2" : " n"), p - slope);
    std::string es;
    for (auto x : e) es += pbt::str((double)x, " ");
    bool clear = p <= 6 || (two && e.back() > 100 * floor) || (p == 8 && e.back() > 1000 * floor);
    if (clear && p <= 10)
        REQUIRE(C, slope > p - slack(p, two), m.name, " converges with order ", slope, " instead of ", p, "; errors under step halving: ", es);
    if (two)
        REQUIRE(C, e.back() <= constant(m) * unit + 10 * floor, m.name, " makes an error of ", e.back(), " with steps of ", last / tau, " dynamical times over ", span / tau,
                " of them, at most ", constant(m) * unit + 10 * floor, " expected");
}

LAW("two-body convergence", "random bound orbit and constant-step method, repeated step halving against the analytic solution; non-trivial: at least two errors above rounding", 12000, 250000) {
    auto t = gen::two_body(C, 0, 0.6L, false);
    R tau = std::sqrt(t.q * t.q * t.q / t.mu);
    order_law(C, t.b, tau, t.P * (R)C.real(0.15, 0.6), [&](R dt) { return ref::kepler_two_body(t.b, dt); });
}
LAW("n-body convergence", "hierarchies, clouds and planetary systems of three to five bodies against the independent N-body reference; non-trivial: as above", 1500, 30000) {
    auto b = gen::any_system(C, 3, 5);
    R tau = gen::time_scale(b) * 2;
    order_law(C, b, tau, tau * (R)C.real(1.0, 4), [&](R dt) { return ref::nbody(b, dt); });
}
