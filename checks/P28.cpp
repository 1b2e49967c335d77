// P28: error measures, step controllers and the Bulirsch-Stoer solver for arbitrary differential equations
//: flags -O1
#include <array>
#include <functional>
#include <tuple>
#include "gen.hpp"
#include "sim_impl.hpp"
using pbt::Case;
using ref::R;
using ref::V;
namespace {
using namespace hub;
template <class S> constexpr R eps() { return std::numeric_limits<S>::epsilon(); }
template <class S> using Ty = Types<S, Vec3>;
// an array entry of any size, also zero and repeated values
static double entry(Case& C) {
    switch (C.integer(0, 4)) {
        case 0: return 0;
        case 1: return C.sym(1);
        case 2: return double(C.integer(-3, 3));
        case 3: return (C.boolean() ? -1 : 1) * C.logreal(1e-30, 1e30);
        default: return (C.boolean() ? -1 : 1) * C.logreal(1e-3, 1e3);
    }
}
template <class S> struct Data { std::vector<S> y0, y1, y2; };
template <class S> Data<S> draw(Case& C, size_t n) {
    Data<S> d;
    bool rest = C.boolean();  // entries that do not move at all
    for (size_t i = 0; i < n; ++i) {
        double a = entry(C);
        double rel = C.chance(1, 6) ? C.logreal(1e-3, 3) : C.logreal(1e-17, 1e-6);
        S y1 = S(a) + S(a) * S(C.sym(C.chance(1, 4) ? 2 : 1e-3)) + (C.chance(1, 6) ? S(C.sym(1e-3)) : S(0));
        S y2 = y1 + y1 * S(C.boolean() ? rel : -rel);
        if (rest && C.chance(1, 3)) { y1 = y2 = S(a); }
        d.y0.push_back(S(a)); d.y1.push_back(y1); d.y2.push_back(y2);
    }
    return d;
}
template <class S> std::vector<Vec3<S>> vecs(std::vector<S> const& f) {
    std::vector<Vec3<S>> r;
    for (size_t i = 0; i + 2 < f.size(); i += 3) r.emplace_back(f[i], f[i + 1], f[i + 2]);
    return r;
}
template <class S, class A> A load(std::vector<S> const& f) { A a(f.size()); for (size_t i = 0; i < f.size(); ++i) a[i] = f[i]; return a; }

enum Kind { Worst, Rms, Ratio };
// the definition of each measure; blocks of 1 (numbers) or 3 (vectors) entries; nullopt-like NaN when undefined
template <class S> R measure(Kind k, Data<S> const& d, bool diff_only, int block, R atol, R rtol, bool& touchy) {
    size_t n = d.y0.size();
    R worst = 0, sum = 0, maxd = 0, maxs = 0;
    touchy = false;
    for (size_t i = 0; i < n; i += block) {
        R df = 0, sc = 0;
        for (int c = 0; c < block; ++c) {
            size_t j = i + c;
            R e = diff_only ? std::fabs((R)d.y2[j]) : std::fabs((R)d.y2[j] - (R)d.y1[j]);
            R s = diff_only || k == Ratio ? std::fabs((R)d.y0[j]) : std::max(std::fabs((R)d.y0[j]), std::fabs((R)d.y1[j]));
            if (k == Rms) { R den = s * rtol + atol; if (den == 0) { if (e) touchy = true; } else sum += (e / den) * (e / den) / block; }
            df = std::max(df, e); sc = std::max(sc, s);
        }
        R den = atol + sc * rtol;
        if (den == 0 && df != 0) touchy = true;
        if (den != 0) worst = std::max(worst, df / den);
        maxd = std::max(maxd, df); maxs = std::max(maxs, den);
    }
    if (k == Worst) return worst;
    if (k == Rms) return std::sqrt(sum / (n / block));
    if (maxs == 0) touchy = true;
    return maxs ? maxd / maxs : 0;
}
template <class S> void check_measure(Case& C) {
    Kind k = Kind(C.integer(0, 2));
    bool diff = k != Rms && C.boolean();
    // arrays of vectors: the forms the library has for them
    bool vec = ((k == Worst && diff) || (k == Ratio && !diff)) && C.boolean();
    size_t n = (vec ? 3 : 1) * (C.boolean() ? C.integer(1, 4) : C.integer(1, 40));
    auto d = draw<S>(C, n);
    if (diff) for (size_t i = 0; i < n; ++i) d.y2[i] -= d.y1[i];
    S atol = C.boolean() ? 0 : S(C.logreal(1e-20, 1e-3)), rtol = C.chance(1, 6) && atol > 0 ? 0 : S(C.logreal(1e-18, 1e-2));
    bool touchy;
    R want = measure(k, d, diff, vec ? 3 : 1, atol, rtol, touchy);
    C.note(k == Worst ? "WorstOffender" : k == Rms ? "RMS" : "MaxRatioError", vec ? " of vectors" : " of numbers", ", ", n, " entries, atol ", (R)atol, " rtol ", (R)rtol, " gives ", want);
    C.label(k == Worst ? "WorstOffender" : k == Rms ? "RMS" : "MaxRatioError");
    if (touchy || want > 1e300L) C.discard();
    auto eval = [&](auto& m) -> R {
        constexpr bool two = !std::is_same_v<std::decay_t<decltype(m)>, ode::RMS<Ty<S>>>;
        if (C.boolean()) { m.set_atol(atol); m.set_rtol(rtol); }
        else m = std::decay_t<decltype(m)>(atol, rtol);
        REQUIRE(C, m.atol() == atol && m.rtol() == rtol, "the tolerances are not those that were set");
        if constexpr (std::is_same_v<std::decay_t<decltype(m)>, ode::WorstOffender<Ty<S>>>) if (vec) return (R)m.error(vecs(d.y0), vecs(d.y2));
        if constexpr (std::is_same_v<std::decay_t<decltype(m)>, ode::MaxRatioError<Ty<S>>>) if (vec) return (R)m.error(vecs(d.y0), vecs(d.y1), vecs(d.y2));
        if (!diff && k != Ratio && C.boolean()) {  // states in compensated numbers, as in the Plus methods
            using A = typename Types<Kahan<S>, Vec3>::StateScalarArray;
            if constexpr (!std::is_same_v<std::decay_t<decltype(m)>, ode::MaxRatioError<Ty<S>>>) return (R)m.error(load<S, A>(d.y0), d.y1, d.y2);
        }
        if (C.boolean()) {  // the arrays the iterators use
            using A = typename Ty<S>::ScalarArray;
            A a = load<S, A>(d.y0), b = load<S, A>(d.y1), c = load<S, A>(d.y2);
            if constexpr (two) if (diff) return (R)m.error(a, c);
            return (R)m.error(a, b, c);
        }
        if constexpr (two) if (diff) return (R)m.error(d.y0, d.y2);
        return (R)m.error(d.y0, d.y1, d.y2);
    };
    R got;
    if (k == Worst) { ode::WorstOffender<Ty<S>> m; got = eval(m); }
    else if (k == Rms) { ode::RMS<Ty<S>> m; got = eval(m); }
    else { ode::MaxRatioError<Ty<S>> m; got = eval(m); }
    // y2 - y1 of close numbers is exact in both; a few operations on the rest
    R tol = (20 + n) * eps<S>() * want + 1e-290L;
    pbt::cal("measure", std::fabs(got - want) / tol);
    REQUIRE(C, std::fabs(got - want) <= tol, "measured error ", got, " instead of ", want);
    C.nontrivial(want > 0);
}
LAW("error measures follow their definitions", "WorstOffender, RMS and MaxRatioError on 1-40 numbers or vectors over 60 orders of magnitude, with entries at rest and zero entries, absolute and relative tolerances incl. zero, two and three arguments; nontrivial: the error is not zero", 12000, 400000) {
    if (C.boolean()) check_measure<long double>(C); else check_measure<double>(C);
}


template <class S> void check_controller(Case& C) {
    ode::PIDController<Ty<S>> c;
    R s1 = S(0.65), s2 = S(0.95), s3 = S(0.02), s4 = 4, kp = S(0.7), ki = S(0.4);  // documented defaults
    int set = C.integer(0, 7);
    if (set & 1) { S a = S(C.real(0.1, 1)), b = S(C.real(0.1, 1)); c.set_safe_guards(a, b); s1 = a; s2 = b; }
    if (set & 2) { S a = S(C.real(0.1, 2)), b = S(C.real(0, 2)), e = S(C.real(0, 1)); c.set_PID_coefficients(a, b, e); kp = a; ki = b; }
    if (set & 4) { S a = S(C.logreal(1e-4, 0.9)), b = S(C.real(1, 20)); c.set_limiter(a, b); s3 = a; s4 = b; }
    size_t o = C.integer(0, 49);
    S e0 = C.chance(1, 5) ? 0 : S(C.logreal(1e-30, 1e30)), e1 = C.chance(1, 8) ? e0 : S(C.logreal(1e-30, 1e30));
    S ratio = C.chance(1, 5) ? 0 : S(C.logreal(1e-6, 1e6));
    C.note("order ", o, ", errors ", (R)e0, " ", (R)e1, ", guards ", s1, " ", s2, ", limits ", s3, " ", s4, ", ratio ", (R)ratio);
    R x = o ? 1 / (R)o : 0;
    R lo = o ? std::pow(s3, x) / s4 : 1 / s4, hi = o ? std::pow(1 / s3, x) : s4;
    auto near = [&](R a, R b, R cond, char const* what) {
        R t = (20 + cond) * eps<S>() * std::fabs(b);
        pbt::cal("controller", b ? std::fabs(a - b) / t : 0);
        REQUIRE(C, std::fabs(a - b) <= t, what, " is ", a, " instead of ", b);
    };
    near(c.limiter_min(o), lo, std::fabs(std::log(s3)), "smallest ratio");
    near(c.limiter_max(o), hi, std::fabs(std::log(s3)), "largest ratio");
    near(c.limiter_min(), 1 / s4, 0, "smallest ratio of no order");
    near(c.limiter_max(), s4, 0, "largest ratio of no order");
    REQUIRE(C, c.limiter(o, ratio) == std::min(std::max(c.limiter_min(o), ratio), c.limiter_max(o)), "limiter(", (R)ratio, ") = ", (R)c.limiter(o, ratio));
    REQUIRE(C, c.limiter(ratio) == std::min(std::max(c.limiter_min(), ratio), c.limiter_max()), "limiter(", (R)ratio, ") = ", (R)c.limiter(ratio));
    R one = e0 == 0 ? (R)c.limiter_max(o) : s1 * std::pow(s2 / (R)e0, x);
    R two = e0 == 0 ? (R)c.limiter_max(o) : s1 * std::pow(s2 / (R)e0, kp * x) * std::pow((R)e1 / s2, ki * x);
    R cond = 3 * (std::fabs(e0 == 0 ? 0 : std::log(s2 / (R)e0)) * x * (1 + kp) + (e1 == 0 ? 0 : std::fabs(std::log((R)e1 / s2)) * x * ki));
    near(c.next(o, e0), one, cond, "proposal");
    near(c.next(o, std::make_tuple(e0)), one, cond, "proposal");
    if (e1 != 0) near(c.next(o, std::make_tuple(e0, e1)), two, cond, "proposal with the previous error");
    if (e1 != 0) near(c.next(o, std::array<S, 2>{e0, e1}), two, cond, "proposal with the previous error");
    REQUIRE(C, c.next_with_limiter(o, e0) == c.limiter(o, c.next(o, e0)), "limited proposal");
    // a larger error never gives a longer step
    if (e0 != 0 && e1 > e0) REQUIRE(C, c.next(o, e1) <= c.next(o, e0) * (1 + 10 * eps<S>()), "a larger error gives a longer step");
    ode::ConstStepController<Ty<S>> k;
    REQUIRE(C, k.next(o, ratio, e0) == ratio && k.next_with_limiter(o, ratio, e0) == ratio && k.next(o, ratio, std::make_tuple(e0, e1)) == ratio && k.next_with_limiter(o, ratio, std::make_tuple(e0, e1)) == ratio, "the constant step changed");
    C.nontrivial(o > 0 && e0 != 0);
}
LAW("step controllers follow their definitions", "PID controller with default or set safety factors, gains and limits, orders 0-49, errors from zero over 60 orders of magnitude, one or two errors; constant controller; nontrivial: order and error are not zero", 12000, 400000) {
    if (C.boolean()) check_controller<long double>(C); else check_controller<double>(C);
}

// Differential equations with known solutions. Each block of variables is independent of the others; rates below are
// per unit of time; `grow` bounds how much a disturbance of any variable can have grown by the end.
struct Block { int kind; R w, a, b, c; };
static int width(Block const& k) { return k.kind == 1 || k.kind == 5 ? 2 : 1; }
static void solution(Block const& k, R t, R* x) {
    switch (k.kind) {
        case 0: x[0] = k.a * std::exp(-k.w * t); break;                                                          // decay
        case 1: x[0] = k.a * std::cos(k.w * t + k.b); x[1] = -k.a * std::sin(k.w * t + k.b); break;              // rotation
        case 2: x[0] = k.a + k.b * std::sin(k.w * t) + k.c * t * t; break;                                       // pure function of time
        case 3: x[0] = k.a / (k.a + (1 - k.a) * std::exp(-k.w * t)); break;                                      // logistic growth
        case 4: x[0] = k.a; break;                                                                               // constant
        case 5: x[0] = k.a * std::exp(k.b * std::sin(k.w * t)); x[1] = k.c + k.a * k.w * t; break;               // time-dependent rate
    }
}
template <class S> void slope(Block const& k, S t, S const* x, S* d) {
    S w = k.w;
    switch (k.kind) {
        case 0: d[0] = -w * x[0]; break;
        case 1: d[0] = w * x[1]; d[1] = -w * x[0]; break;
        case 2: d[0] = S(k.b) * w * std::cos(w * t) + 2 * S(k.c) * t; break;
        case 3: d[0] = w * x[0] * (1 - x[0]); break;
        case 4: d[0] = 0; break;
        case 5: d[0] = S(k.b) * w * std::cos(w * t) * x[0]; d[1] = S(k.a) * w; break;
    }
}
template <class BS, class S> void solve(Case& C) {
    using A = typename Ty<S>::StateScalarArray;
    BS bs;
    S atol = C.boolean() ? S(0) : S(C.logreal(1e-14, 1e-6)), rtol = S(C.logreal(sizeof(S) > 8 ? 1e-16 : 1e-13, 1e-7));
    bool tols = C.boolean();
    if (tols) { bs.set_atol(atol); bs.set_rtol(rtol); } else { atol = 0; rtol = S(1e-14); }  // the documented default
    int problems = C.integer(1, 3);  // the same solver for problems of different size
    for (int q = 0; q < problems; ++q) {
        std::vector<Block> k(C.boolean() ? C.integer(1, 3) : C.integer(1, 14));
        R wmax = 0;
        for (auto& b : k) {
            b.kind = C.integer(0, 5);
            b.w = C.logreal(0.02, 3);
            b.a = b.kind == 3 ? C.real(0.05, 0.95) : (C.boolean() ? -1 : 1) * C.logreal(1e-3, 1e3);
            b.b = C.sym(2); b.c = C.sym(1);
            wmax = std::max(wmax, b.w);
        }
        S t0 = C.boolean() ? S(0) : S(C.sym(20));
        if (C.boolean()) for (auto& b : k) if (b.kind == 3 && t0 != 0) b.kind = 4;  // keep the logistic curve near its rise
        for (auto& b : k) if ((b.kind == 3 || b.kind == 0) && t0 != 0) b.kind = 4;
        S span = S(C.logreal(0.05, 12)), dir = C.chance(1, 4) ? -1 : 1;
        for (auto& b : k) if (dir < 0 && (b.kind == 0 || b.kind == 3)) b.kind = 1;
        S step = dir * S(C.logreal(1e-4, 1)) * S(0.4 / std::max<R>(wmax, 0.1L));
        // a variable that passes through zero cannot be known to a relative accuracy alone
        R far = std::fabs((R)t0) + std::fabs((R)span), need = 0;
        for (auto& b : k) {
            if (!tols && b.kind != 0 && b.kind != 3) b.kind = 4;
            if (b.kind == 1) need = std::max(need, std::fabs(b.a));
            if (b.kind == 2) need = std::max(need, std::fabs(b.a) + std::fabs(b.b) + std::fabs(b.c) * far * far);
            if (b.kind == 5) need = std::max(need, std::fabs(b.c) + std::fabs(b.a * b.w) * far);
        }
        if (need > 0) { atol = std::max<S>(atol, S(need * 100 * eps<S>() * (1 + far))); bs.set_atol(atol); }
        size_t n = 0;
        for (auto& b : k) n += width(b);
        C.note(q ? "; then " : "", n, " variables, t0 ", (R)t0, " span ", (R)(dir * span), " first step ", (R)step, " atol ", (R)atol, " rtol ", (R)rtol, " kinds");
        for (auto& b : k) C.note(" ", b.kind);
        A x(n);
        { std::vector<R> s(n); size_t o = 0; for (auto& b : k) { solution(b, (R)t0, &s[o]); o += width(b); } for (size_t i = 0; i < n; ++i) x[i] = S(s[i]); }
        std::vector<R> big(n, 0);  // largest size of each variable so far
        S t = t0;
        long evals = 0, steps = 0;
        bool bad_size = false, bad_time = false;
        S lo = 0, hi = 0;
        std::function<void(A const&, A&, S)> f = [&](A const& y, A& d, S at) {
            ++evals;
            if (y.size() != n || d.size() != n) { bad_size = true; return; }
            S m = std::fabs(hi - lo) * S(1e-9) + std::fabs(at) * 64 * std::numeric_limits<S>::epsilon();
            if (at < std::min(lo, hi) - m || at > std::max(lo, hi) + m) bad_time = true;
            size_t o = 0;
            std::vector<S> yy(n), dd(n);
            for (size_t i = 0; i < n; ++i) yy[i] = y[i];
            for (auto& b : k) { slope<S>(b, at, &yy[o], &dd[o]); o += width(b); }
            for (size_t i = 0; i < n; ++i) d[i] = dd[i];
        };
        S end = t0 + dir * span, h = step;
        R dist = 0;  // sum of the steps in units of the fastest rate
        while (dir * (end - t) > 0) {
            if (dir * h > dir * (end - t)) h = end - t;
            if (std::fabs(h) <= 8 * std::numeric_limits<S>::epsilon() * std::max<R>(std::fabs((R)t), std::fabs((R)end))) break;
            lo = t; hi = t + h;
            S was = t, next = bs.iterate(f, x, t, h);
            ++steps;
            REQUIRE(C, !bad_size, "the derivative was asked for arrays of the wrong size");
            REQUIRE(C, !bad_time, "the derivative was asked for a time outside the step from ", (R)was, " to ", (R)(was + h));
            REQUIRE(C, dir * (t - was) > 0 && std::fabs(t - was) <= std::fabs(h) * (1 + 4 * std::numeric_limits<S>::epsilon()) + 2 * std::numeric_limits<S>::epsilon() * std::fabs(t), "a step of ", (R)h, " moved the time from ", (R)was, " to ", (R)t);
            REQUIRE(C, std::isfinite((R)next) && dir * next > 0, "the next step is ", (R)next);
            if (steps > 2000) { C.label("stopped after 2000 steps"); break; }  // how many steps a problem takes is not part of the property
            REQUIRE(C, x.size() == n, "the solution has ", x.size(), " entries");
            dist += std::fabs((R)(t - was)) * wmax;
            h = next;
            size_t o = 0;
            std::vector<R> s(n);
            for (auto& b : k) { solution(b, (R)t, &s[o]); o += width(b); }
            o = 0;
            for (auto& b : k) {
                R amp = 0;
                for (int c = 0; c < width(b); ++c) {
                    R m = std::max(std::fabs(s[o + c]), std::fabs((R)x[o + c]));
                    if (b.kind == 2) m = std::max(m, std::fabs(b.b) + std::fabs(b.a) + std::fabs(b.c) * (R)(t * t));
                    if (b.kind == 5) m = c ? std::fabs(b.c) + std::fabs(b.a * b.w * (R)t) + std::fabs(b.a * b.w * (R)t0) : m;
                    amp = std::max(amp, m);
                }
                for (int c = 0; c < width(b); ++c) big[o + c] = std::max(big[o + c], amp);
                R grow = b.kind == 3 ? 4 : b.kind == 5 ? std::exp(2 * std::fabs(b.b)) : 1;
                for (int c = 0; c < width(b); ++c) {
                    R unit = steps * (atol + (R)rtol * big[o + c]) * grow;
                    // rounding: of the state in every step and of the time the rates depend on
                    R round = eps<S>() * (40 * std::sqrt((R)steps) + 10 + steps) * big[o + c] * grow + 10 * eps<S>() * (steps + 10) * (std::fabs((R)t) + std::fabs((R)t0)) * b.w * (std::fabs(b.b) + 1) * big[o + c] * grow;
                    R err = std::fabs((R)x[o + c] - s[o + c]), tol = 60 * unit + 3 * round;
                    pbt::cal(pbt::str("ode kind ", b.kind, rtol < 1e-11L ? " tight" : ""), err / tol);
                    REQUIRE(C, err <= tol, "variable ", o + c, " of kind ", b.kind, " is ", (R)x[o + c], " instead of ", s[o + c], " at ", (R)t, " after ", steps, " steps: error ", err, ", allowed ", tol);
                }
                o += width(b);
            }
        }
        if (std::fabs((R)step) * wmax > 0.1L && dist > 1) pbt::cal("work per characteristic time", evals / dist);
        REQUIRE(C, bs.reject_rate() >= 0 && bs.reject_rate() < 1, "rejection rate ", (R)bs.reject_rate());
        C.nontrivial(steps > 2 && dist > 1);
        if (problems > 1) C.label("several problems");
        C.label(dir < 0 ? "backwards" : "forwards");
    }
}
template <class S, template <class> class I> using Solver = ode::BulirschStoer<I<Ty<S>>, ode::WorstOffender<Ty<S>>, ode::PIDController<Ty<S>>>;
template <class S, template <class> class I> using SolverR = ode::BulirschStoer<I<Ty<S>>, ode::RMS<Ty<S>>, ode::PIDController<Ty<S>>>;
LAW("the equation solver solves equations to its tolerance", "Bulirsch-Stoer iterate() on systems of 1-28 variables built from decays, rotations, functions of time, logistic growth, constants and time-dependent rates, forwards and backwards from any time, any first step and tolerance, one solver reused for several problems; nontrivial: more than two steps over more than one characteristic time", 3000, 100000) {
    switch (C.integer(0, 3)) {
        case 0: solve<Solver<double, integrator::LeapFrogDKD>, double>(C); break;
        case 1: solve<Solver<double, integrator::LeapFrogKDK>, double>(C); break;
        case 2: solve<Solver<long double, integrator::LeapFrogDKD>, long double>(C); break;
        default: solve<SolverR<double, integrator::LeapFrogDKD>, double>(C); break;
    }
}
}  // namespace
