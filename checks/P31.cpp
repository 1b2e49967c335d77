// P31: root finders, limiters and the unit system
#include <algorithm>
#include "pbt.hpp"
#include "math.hpp"
#include "macros.hpp"
#include "stellar/stellar.hpp"
using namespace hub;
using pbt::Case;
typedef long double R;

template <class T> void bisection(Case& C, char const* type) {
    // a root and a bracket around it, in any order, at any scale
    T r;
    switch (C.choice(4)) {
        case 0: r = 0; break;
        case 1: r = (T)C.integer(-3, 3); break;
        case 2: r = (T)C.logreal(1e-12, 1e12); if (C.boolean()) r = -r; break;
        case 3: r = (T)C.logreal(1e-30, 1e-12); break;
        default: r = (T)C.sym(10); break;
    }
    auto side = [&]() -> T {
        switch (C.choice(3)) {
            case 0: return 0;
            case 1: return (T)C.logreal(1e-8, 1e8);
            case 2: return (T)(std::fabs((R)r) * C.real(0, 2));
            default: return (T)C.real(0, 3);
        }
    };
    T lo = r - side(), hi = r + side();
    if (lo > r || hi < r) C.discard();
    if (lo == hi) { lo -= 1; hi += 1; }
    T scale = (T)std::exp((double)C.sym(sizeof(T) == 4 ? 30 : 300));
    int shape = (int)C.choice(4);
    bool down = C.boolean(), swap = C.boolean();
    C.note(type, " root ", (R)r, " in [", (R)lo, ",", (R)hi, "] shape ", shape, " scale ", (R)scale, down ? " falling" : "", swap ? " swapped" : "");
    C.nontrivial(lo < r && r < hi);
    long calls = 0;
    auto f = [&](T x) -> T {
        if (++calls > 200000) throw pbt::Fail(pbt::str("the search does not end, at x=", (R)x));
        T d = x - r, y;
        switch (shape) {
            case 0: y = d; break;
            case 1: y = d * d * d; if (y == 0) y = d; break;
            case 2: y = d > 0 ? 1 : d < 0 ? -1 : 0; break;                  // a jump
            case 3: y = d > 0 ? std::sqrt(d) : -std::sqrt(-d); break;         // infinite slope
            default: y = std::atan(d); if (y == 0) y = d; break;
        }
        y *= scale;
        if (y == 0 && d != 0) y = d > 0 ? std::numeric_limits<T>::min() : -std::numeric_limits<T>::min();
        return down ? -y : y;
    };
    T x = swap ? math::root_bisection(f, hi, lo) : math::root_bisection(f, lo, hi);
    R e = std::numeric_limits<T>::epsilon(), err = std::fabs((R)x - (R)r);
    R unit = e * std::fabs((R)r) + 4 * (R)std::numeric_limits<T>::denorm_min();
    pbt::cal("bisection", err / unit);
    REQUIRE(C, err <= 3 * unit, "found ", (R)x, " instead of ", (R)r);
}
LAW("bisection", "roots of monotonic functions, steep, flat, discontinuous, tiny or huge, with the root anywhere in or at the end of a bracket in either order, in float, double and long double; non-trivial: the root is inside", 40000, 800000, 10) {
    switch (C.choice(2)) {
        case 0: return bisection<double>(C, "double");
        case 1: return bisection<long double>(C, "long double");
        default: return bisection<float>(C, "float");
    }
}
template <class T> void newton(Case& C, char const* type) {
    R e = std::numeric_limits<T>::epsilon();
    int kind = (int)C.choice(2);
    R want, cond = 1;
    T x;
    C.nontrivial();
    if (kind == 0) {  // exp(x) = c
        T c = (T)C.logreal(0.3, 20);
        C.note(type, " exp(x)=", (R)c);
        want = std::log((R)c);
        x = math::root_newton([=](T t) -> T { return 1 - c * std::exp(-t); });
    } else if (kind == 1) {  // Kepler's equation
        T ec = (T)C.real(0, 0.6), M = (T)C.sym(3);
        R q = 0, p = 1;  // Newton's iteration from zero must converge by itself
        for (int i = 0; i < 50; ++i) { p = q; q -= (q - (R)ec * std::sin(q) - (R)M) / (1 - (R)ec * std::cos(q)); }
        if (!(std::fabs(p - q) < 1e-15L)) C.discard();
        C.note(type, " Kepler e=", (R)ec, " M=", (R)M);
        R a = -4, b = 4;
        for (int i = 0; i < 200; ++i) { R m = (a + b) / 2; if (m - (R)ec * std::sin(m) < (R)M) a = m; else b = m; }
        want = a; cond = 1 / (1 - (R)ec);
        x = math::root_newton([=](T t) -> T { return (t - ec * std::sin(t) - M) / (1 - ec * std::cos(t)); });
    } else {
        T k = (T)C.sym(5);
        C.note(type, " linear ", (R)k);
        want = k;
        x = math::root_newton([=](T t) -> T { return t - k; });
    }
    R err = std::fabs((R)x - want), unit = e * std::max<R>(1, std::fabs(want)) * cond;
    pbt::cal("newton", err / unit);
    REQUIRE(C, err <= 8 * unit, "found ", (R)x, " instead of ", want);
}
LAW("newton", "functions on which Newton's iteration from zero converges; non-trivial: all", 20000, 400000, 10) {
    if (C.boolean()) newton<double>(C, "double"); else newton<long double>(C, "long double");
}
template <class T> T any(Case& C) {
    switch (C.choice(3)) {
        case 0: return (T)C.integer(-3, 3);
        case 1: return (T)C.sym(1);
        case 2: { T v = (T)C.logreal(1e-30, 1e30); return C.boolean() ? -v : v; }
        default: return (T)(1 + 1e-15L * C.sym(8));
    }
}
template <class T> void simple(Case& C) {
    T x = any<T>(C), a = any<T>(C), b = any<T>(C);
    if (b < a) std::swap(a, b);
    C.note("x=", (R)x, " a=", (R)a, " b=", (R)b);
    C.nontrivial(x > a && x < b);
    REQUIRE(C, math::in_range(a, x, b) == std::clamp(x, a, b), "in_range gives ", (R)math::in_range(a, x, b));
    REQUIRE(C, math::min(x, a) == std::min(x, a) && math::max(x, a) == std::max(x, a), "min or max");
    REQUIRE(C, math::abs(x) == std::fabs(x), "abs gives ", (R)math::abs(x));
    if (x != 0) REQUIRE(C, math::sign(x) == (x > 0 ? 1 : -1) && math::step(x) == (x > 0 ? 1 : 0), "sign or step of ", (R)x);
    R d = std::fabs((R)x - (R)a), e = std::numeric_limits<T>::epsilon();
    if (d > 2 * e) REQUIRE(C, !math::iseq(x, a), "iseq holds for numbers ", d, " apart");
    if (d < e / 2) REQUIRE(C, math::iseq(x, a), "iseq fails for numbers ", d, " apart");
    REQUIRE(C, math::epsilon_v<T> == std::numeric_limits<T>::epsilon() && math::max_value_v<T> == std::numeric_limits<T>::max() && math::big_value_v<T> < math::max_value_v<T> && math::big_value_v<T> > math::max_value_v<T> / 1000, "constants");
}
LAW("elementary functions", "limiters, minimum, maximum, sign, step, approximate equality of any numbers; non-trivial: the number is inside the range", 40000, 400000) {
    switch (C.choice(2)) {
        case 0: return simple<double>(C);
        case 1: return simple<long double>(C);
        default: return simple<float>(C);
    }
}
// Units -----------------------------------------------------------------------
// SI values and exact relations; the code unit of velocity follows from AU and the year.
LAW("units and stellar radii", "any amount in any unit, converted to code units by multiplication, by literals and by way of SI units; radii of any star; non-trivial: all", 20000, 200000) {
    using namespace unit;
    C.nontrivial();
    const R au = 1.495978707e11L, msun = 1.98847e30L, yr = 365.25636042L * 86400, pi = 3.14159265358979323846L;
    const R tu = yr / (2 * pi), GM = 1.32712440018e20L, c = 299792458.0L;
    struct { char const* n; R code, si, base, tol; } u[] = {
        {"AU", AU, au, au, 1e-9L}, {"Ms", Ms, msun, msun, 1e-9L}, {"year", year, yr, tu, 1e-9L}, {"kyr", kyr, 1e3L * yr, tu, 1e-9L}, {"Myr", Myr, 1e6L * yr, tu, 1e-9L},
        {"Gyr", Gyr, 1e9L * yr, tu, 1e-9L}, {"month", month, yr / 12, tu, 1e-9L}, {"day", day, 86400, tu, 1e-9L}, {"hr", hr, 3600, tu, 1e-9L}, {"min", unit::min, 60, tu, 1e-9L},
        {"sec", sec, 1, tu, 1e-9L}, {"kg", kg, 1, msun, 1e-9L}, {"mp", mp, 1.67262192e-27L, msun, 1e-6L}, {"km", km, 1000, au, 1e-9L}, {"m", m, 1, au, 1e-9L}, {"cm", cm, 0.01L, au, 1e-9L},
        {"PC", PC, 3.0856775814913673e16L, au, 1e-9L}, {"Rs", Rs, 6.957e8L, au, 1e-6L}, {"Re", Re, 6.378e6L, au, 1e-3L}, {"Rj", Rj, 6.9911e7L, au, 1e-2L}, {"kms", kms, 1000, au / tu, 1e-9L},
        {"cms", cms, 0.01L, au / tu, 1e-9L}, {"Me", Me, 5.9722e24L, msun, 1e-3L}, {"Mj", Mj, 1.89813e27L, msun, 6e-3L}, {"Mmoon", Mmoon, 7.342e22L, msun, 1e-3L}, {"deg", deg, pi / 180, 1, 1e-12L},
        {"speed of light", consts::C, c, au / tu, 1e-9L}, {"gravitational constant", consts::G, GM / msun, au * au * au / (tu * tu) / msun, 1e-5L}, {"Hubble time", T_hubble, 13.7e9L * yr, tu, 1e-9L},
    };
    auto& x = u[C.choice(sizeof u / sizeof u[0] - 1)];
    C.note(x.n);
    REQUIRE(C, std::fabs(x.code / (x.si / x.base) - 1) <= x.tol, "one ", x.n, " is ", x.code, " in code units, should be ", x.si / x.base);
    REQUIRE(C, 3_km == 3 * km && 2.5_km == 2.5 * km && 7_year == 7 * year && 0.5_Rs == 0.5 * Rs && 10_kms == 10 * kms, "literals");
    double M = C.logreal(1e-3, 1e9);
    using namespace stellar;
    R rg = 2 * (M * GM) / (c * c) / au;
    R r[] = {(R)stellar_radius(StarType::BH, M), (R)stellar_radius(StarType::NS, M), (R)stellar_radius(StarType::STAR, M), (R)stellar_radius(StarType::WD, M)};
    R w[] = {rg, 1e4L / au, 6.957e8L / au * std::pow((R)M, 0.75L), 6.957e6L / au / std::cbrt((R)M)};
    for (int i = 0; i < 4; ++i) REQUIRE(C, std::fabs(r[i] / w[i] - 1) < 1e-5L, "radius of star kind ", i, " of ", M, " solar masses is ", r[i], " AU, should be ", w[i]);
}
