// P25: random draws follow the distributions they are named after
#include <algorithm>
#include <thread>
#include "pbt.hpp"
#include "rand-generator.hpp"
using namespace hub;
using pbt::Case;
typedef long double R;

static R Phi(R x) { return 0.5L * std::erfc(-x / std::sqrt(2.0L)); }
static R maxwell(R x) { return x <= 0 ? 0 : std::erf(x / std::sqrt(2.0L)) - std::sqrt(2 / 3.14159265358979323846264L) * x * std::exp(-x * x / 2); }

// Kolmogorov-Smirnov at the 1e-13 point: the library seeds its generators by itself
template <class F> void ks(Case& C, std::vector<double> x, F cdf, char const* what) {
    std::sort(x.begin(), x.end());
    size_t n = x.size();
    R d = 0;
    for (size_t i = 0; i < n; ++i) {
        R c = cdf((R)x[i]);
        REQUIRE(C, c == c, what, ": no distribution function at ", x[i]);
        d = std::max({d, c - (R)i / n, (R)(i + 1) / n - c});
    }
    R lim = std::sqrt(std::log(2e13L) / 2 / n);
    pbt::cal(what, d / lim);
    REQUIRE(C, d <= lim, what, ": distance ", d, " of ", n, " draws from the distribution, allowed ", lim);
    // draws must not repeat: they are continuous
    size_t same = 0;
    for (size_t i = 1; i < n; ++i) same += x[i] == x[i - 1];
    REQUIRE(C, same <= n / 100, what, ": ", same, " of ", n, " draws are equal");
    }
// serial correlation of the order in which values were drawn
template <class F> void independent(Case& C, std::vector<double> const& x, F cdf, char const* what) {
    size_t n = x.size();
    R s = 0;
    for (size_t i = 1; i < n; ++i) s += (cdf((R)x[i]) - 0.5L) * (cdf((R)x[i - 1]) - 0.5L);
    s *= 12 / std::sqrt((R)(n - 1));
    pbt::cal("correlation", std::fabs(s) / 8);
    REQUIRE(C, std::fabs(s) <= 9, what, ": successive draws are correlated by ", s, " sigma");
}
template <class D, class F> void test(Case& C, D draw, F cdf, double lo, double hi, char const* what, size_t n = 1500) {
    std::vector<double> x;
    for (size_t i = 0; i < n; ++i) {
        double v = draw();
        double slack = 1e-12 * (std::fabs(lo) + std::fabs(hi));
        if (!(slack < 1e300)) slack = 0;
        REQUIRE(C, v >= lo - slack && v <= hi + slack, what, " drew ", v, " outside [", lo, ",", hi, "]");
        x.push_back(v);
    }
    independent(C, x, cdf, what);
    ks(C, std::move(x), cdf, what);
}
static double number(Case& C) {
    switch (C.choice(3)) {
        case 0: return C.integer(-3, 3);
        case 1: return C.sym(100);
        case 2: { double v = C.logreal(1e-3, 1e3); return C.boolean() ? -v : v; }
        default: return C.sym(1);
    }
}
static const double INF = std::numeric_limits<double>::infinity();
struct Dist {
    std::string name;
    std::function<double()> draw;
    std::function<R(R)> cdf;
    double lo, hi;
};
static Dist any(Case& C) {
    switch (C.choice(7)) {
        case 0: {
            double a = number(C), b = a + C.logreal(1e-3, 1e3);
            return {pbt::str("Uniform(", a, ",", b, ")"), [=] { return random::Uniform(a, b); }, [=](R x) { return (x - a) / ((R)b - a); }, a, b};
        }
        case 1: {
            double a = C.logreal(1e-6, 1e3), b = a * C.logreal(1.01, 1e6);
            return {pbt::str("Logarithm(", a, ",", b, ")"), [=] { return random::Logarithm(a, b); }, [=](R x) { return std::log(x / a) / std::log((R)b / a); }, a, b};
        }
        case 2: case 3: {
            double p = C.chance(1, 5) ? -1 : C.chance(1, 3) ? (double)C.integer(-4, 4) : C.sym(4), a = C.logreal(1e-2, 1e2), b = a * C.logreal(1.1, 1e2);
            if (p != -1 && std::fabs(p + 1) < 0.01) p = -0.5;
            if (C.chance(1, 3)) { p = -1 + C.logreal(0.01, 0.2) * (C.boolean() ? 1 : -1); a = C.logreal(1e-12, 1e-2); b = a * C.logreal(1e6, 1e14); }  // almost logarithmic, many decades
            return {pbt::str("PowerLaw(", p, ",", a, ",", b, ")"), [=] { return random::PowerLaw(p, a, b); },
                    [=](R x) { R q = (R)p + 1; return q == 0 ? std::log(x / a) / std::log((R)b / a) : std::expm1(q * std::log(x / a)) / std::expm1(q * std::log((R)b / a)); }, a, b};
        }
        case 4: {
            double m = number(C), s = C.logreal(1e-3, 1e3);
            if (C.chance(1, 4)) return {"Normal()", [=] { return random::Normal(); }, [](R x) { return Phi(x); }, -INF, INF};
            return {pbt::str("Normal(", m, ",", s, ")"), [=] { return random::Normal(m, s); }, [=](R x) { return Phi((x - m) / s); }, -INF, INF};
        }
        case 5: {
            double m = number(C), s = C.logreal(1e-3, 1e3), lo = m + s * C.real(-3, 1), hi = lo + s * C.real(0.3, 4);
            return {pbt::str("TruncatedNormal(", lo, ",", hi, ",", m, ",", s, ")"), [=] { return random::TruncatedNormal(lo, hi, m, s); },
                    [=](R x) { R a = Phi((lo - (R)m) / s), b = Phi((hi - (R)m) / s); return (Phi((x - m) / s) - a) / (b - a); }, lo, hi};
        }
        case 6: {
            double s = C.logreal(1e-3, 1e3);
            return {pbt::str("Maxwellian(", s, ")"), [=] { return random::Maxwellian(s); }, [=](R x) { return maxwell(x / s); }, 0, INF};
        }
        default: {
            double s = C.logreal(1e-3, 1e3), lo = s * C.real(0, 2.5), hi = lo + s * C.real(0.3, 3);
            return {pbt::str("TruncatedMaxwellian(", lo, ",", hi, ",", s, ")"), [=] { return random::TruncatedMaxwellian(lo, hi, s); },
                    [=](R x) { R a = maxwell((R)lo / s), b = maxwell((R)hi / s); return (maxwell(x / s) - a) / (b - a); }, lo, hi};
        }
    }
}
LAW("distributions", "1500 draws of any generator with any parameters: support, Kolmogorov-Smirnov distance, serial correlation; non-trivial: all", 5000, 60000, 20) {
    auto d = any(C);
    C.note(d.name);
    C.nontrivial();
    test(C, d.draw, d.cdf, d.lo, d.hi, d.name.c_str());
}
// counts of rare values, which the Kolmogorov-Smirnov distance hardly sees
LAW("tails", "60000 draws of any generator with any parameters: as many beyond the quantiles at 0.001, 0.0003 and at the same distance from 1 as there should be (1e-13 point); non-trivial: all", 600, 8000, 20) {
    Dist d = any(C);
    C.note(d.name);
    C.nontrivial();
    constexpr int N = 60000;
    long low[2] = {0, 0}, high[2] = {0, 0};
    const double q[2] = {1e-3, 3e-4};
    for (int i = 0; i < N; ++i) {
        R c = d.cdf((R)d.draw());
        for (int k = 0; k < 2; ++k) { low[k] += c < q[k]; high[k] += c > 1 - q[k]; }
    }
    for (int k = 0; k < 2; ++k) {
        double mean = N * q[k];
        // Poisson tails at 1e-13: outward and inward
        double hi = mean + 8 * std::sqrt(mean) + 20, lo = k == 0 ? 13 : 0;
        for (long n : {low[k], high[k]}) {
            pbt::cal(pbt::str("tail ", k), n / hi);
            REQUIRE(C, n <= hi && n >= lo, d.name, ": ", n, " of ", N, " draws beyond the quantile at ", q[k], ", ", mean, " expected");
        }
    }
}
LAW("pairs of normals", "1500 pairs from the polar method, cut at any inner radius: radius, angle; non-trivial: all", 200, 8000, 20) {
    double r0 = C.boolean() ? 0 : C.real(0, 0.9);
    C.note("Normal2(", r0, ")");
    C.nontrivial();
    std::vector<double> rad, ang;
    R rmax2 = r0 > 0 ? -4 * std::log((R)r0) : INFINITY;
    for (int i = 0; i < 1500; ++i) {
        auto [x, y] = random::Normal2(r0);
        rad.push_back(x * x + y * y);
        ang.push_back(std::atan2(y, x));
        REQUIRE(C, x * x + y * y <= rmax2 * (1 + 1e-12), "radius^2 ", x * x + y * y, " of a pair is beyond ", rmax2);
    }
    R full = 1 - (R)r0 * r0;
    ks(C, rad, [&](R q) { return (1 - std::exp(-q / 2)) / full; }, "squared radius of pairs");
    ks(C, ang, [&](R q) { return (q + M_PIl) / (2 * M_PIl); }, "angle of pairs");
}
LAW("bounded parameters", "a Parameter of any distribution, also negative, constant or zero, with or without bounds set in any way: the distribution restricted to the bounds; non-trivial: bounds that cut", 800, 20000, 20) {
    if (C.chance(1, 6)) {
        double v = C.boolean() ? 0 : number(C);
        C.note("Fixed(", v, ")");
        random::Parameter p(random::Fixed, v);
        if (C.boolean()) p.set_boundary(v - 1, v + 1);
        for (int i = 0; i < 3; ++i) { double g = p.draw(); REQUIRE(C, g == v, "Fixed(", v, ") drew ", g); }
        return;
    }
    auto d = any(C);
    random::Parameter p([d] { return d.draw(); });
    // bounds at quantiles found by bisection
    auto quant = [&](R q) {
        R lo = std::max<R>(d.lo, -1e6), hi = std::min<R>(d.hi, 1e6);
        for (int i = 0; i < 200; ++i) { R m = (lo + hi) / 2; if (d.cdf(m) < q) lo = m; else hi = m; }
        return (double)lo;
    };
    R qa = 0, qb = 1;
    double a = -INF, b = INF;
    int how = (int)C.choice(4);
    R u = C.real(0, 0.6), w = u + C.real(0.2, 0.4);
    if (how == 1 || how >= 3) { a = quant(u); qa = d.cdf(a); }
    if (how == 2 || how >= 3) { b = quant(w); qb = d.cdf(b); }
    if (how >= 3 && !(b > a)) C.discard();
    C.note(d.name, " within [", a, ",", b, "]");
    C.nontrivial(how > 0);
    if (how == 1) p.set_min(a);
    if (how == 2) p.set_max(b);
    if (how == 3) p.set_boundary(a, b);
    if (how == 4) { p.set_max(b); p.set_min(a); }
    if (C.boolean()) { random::Parameter q = p; p = q; }
    test(C, [&] { return p.draw(); }, [&](R x) { return (d.cdf(x) - qa) / (qb - qa); }, std::max(a, d.lo), std::min(b, d.hi), "Parameter", 600);
}
LAW("parameters with arguments", "a Parameter bound to a generator and its arguments draws from it; non-trivial: all", 100, 2000, 20) {
    double a = number(C), s = C.logreal(0.1, 10);
    C.nontrivial();
    C.note("a=", a, " s=", s);
    random::Parameter u(random::Uniform, a, a + s), f(random::Fixed, a);
    test(C, [&] { return u.draw(); }, [&](R x) { return (x - a) / (R)((a + s) - a); }, a, a + s, "Parameter(Uniform)", 600);
    REQUIRE(C, f.draw() == a, "Parameter(Fixed) drew something else");
}
LAW("threads", "several threads draw from the same generator at once: every thread gets the distribution, and its own numbers; non-trivial: all", 60, 2000, 20) {
    auto d = any(C);
    int k = 2 + (int)C.choice(4);
    C.note(d.name, " in ", k, " threads");
    C.nontrivial();
    std::vector<std::vector<double>> x(k);
    std::vector<std::thread> th;
    for (int i = 0; i < k; ++i) th.emplace_back([&, i] { for (int j = 0; j < 500; ++j) x[i].push_back(d.draw()); });
    for (auto& t : th) t.join();
    std::vector<double> all;
    for (auto& v : x) all.insert(all.end(), v.begin(), v.end());
    ks(C, all, d.cdf, "draws of all threads");
}
