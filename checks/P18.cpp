// P18: Kepler elements, anomalies and orbital times describe the same orbit as the state vectors
#include <algorithm>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.hpp"
#include "phys.hpp"
#include "orbits/orbits.hpp"
using namespace hub;
using pbt::Case;
using ref::R;
using ref::V;
using Vd = Vec3<double>;
static constexpr R EPS = 2.220446049250313e-16L;

static V v3(Vd const& a) { return V(a.x, a.y, a.z); }
static Vd d3(V a) { return Vd((double)a.x, (double)a.y, (double)a.z); }
static R wrap(R a) { a = std::remainder(a, 2 * ref::PI); return a; }

struct El { R m1, m2, p, e, i, Om, om, nu; };
static double gen_ecc(Case& C) {
    switch (C.choice(7)) {
        case 0: return C.real(0, 0.9);
        case 1: return 0;
        case 2: return 1 - C.logreal(1e-8, 0.1);
        case 3: return C.logreal(1e-12, 0.1);
        case 4: return 1 + C.logreal(1e-8, 0.5);
        case 5: return C.logreal(1.5, 50);
        case 6: return 1;
        default: return C.real(0, 1);
    }
}
static double gen_angle(Case& C, double lo, double hi) {
    switch (C.choice(4)) {
        case 0: { double a[] = {0, M_PI / 2, M_PI, -M_PI / 2, -M_PI, M_PI / 4}; double x = a[C.choice(5)]; return x < lo || x > hi ? 0 : x; }
        case 1: { double x = C.logreal(1e-12, 0.1); return lo < 0 && C.boolean() ? -x : x; }
        case 2: return hi - C.logreal(1e-12, 0.1);
        default: return C.real(lo, hi);
    }
}
// a true anomaly the orbit reaches
static double gen_nu(Case& C, double e) {
    if (e < 1) return gen_angle(C, -M_PI, M_PI);
    double lim = (double)std::acos(-1 / (R)e);
    switch (C.choice(3)) {
        case 0: return 0;
        case 1: { double x = C.logreal(1e-9, 0.1) * lim; return C.boolean() ? -x : x; }
        default: return C.real(-0.98, 0.98) * lim;
    }
}
static El gen_el(Case& C) {
    El k;
    k.m1 = C.logreal(1e-6, 1e3);
    k.m2 = C.chance(1, 6) ? (double)k.m1 : C.logreal(1e-6, 1e3);
    k.p = C.logreal(1e-4, 1e4);
    k.e = gen_ecc(C);
    k.i = gen_angle(C, 0, M_PI);
    k.Om = gen_angle(C, -M_PI, M_PI);
    k.om = gen_angle(C, -M_PI, M_PI);
    k.nu = gen_nu(C, (double)k.e);
    return k;
}
static std::string show(El const& k) {
    return pbt::str("m=", k.m1, ",", k.m2, " p=", k.p, " e=", k.e, " i=", k.i, " Om=", k.Om, " om=", k.om, " nu=", k.nu);
}

#define NEAR(C, group, err, unit, k, ...)                                                                            \
    do {                                                                                                             \
        R e__ = (err), u__ = (unit);                                                                                 \
        if (u__ > 0) pbt::cal(group, e__ / u__);                                                                     \
        REQUIRE(C, e__ <= (k) * u__, group, ": off by ", e__, ", allowed ", (k) * u__, ": ", __VA_ARGS__);           \
    } while (0)

LAW("elements to state",
    "elements of any conic (including circular, nearly parabolic, exactly parabolic, planar, polar and retrograde orbits) to relative position and velocity, against the formulas in long double "
    "(the periapsis at omega + pi from the node); non-trivial: eccentric and inclined",
    300000, 6000000) {
    El k = gen_el(C);
    C.note(show(k));
    C.nontrivial(k.e > 0.01 && k.i > 0.01);
    V r, v;
    ref::elements_to_state(k.m1 + k.m2, k.p, k.e, k.i, k.Om, k.om + ref::PI, k.nu, r, v);
    orbit::KeplerOrbit<double> o((double)k.m1, (double)k.m2, (double)k.p, (double)k.e, (double)k.i, (double)k.Om, (double)k.om, (double)k.nu);
    REQUIRE(C, o.m1 == (double)k.m1 && o.m2 == (double)k.m2 && o.p == (double)k.p && o.e == (double)k.e && o.i == (double)k.i && o.Omega == (double)k.Om &&
                   o.omega == (double)k.om && o.nu == (double)k.nu, "constructor does not keep its arguments: ", show(k));
    auto want = k.e < 1 ? orbit::OrbitType::Ellipse : k.e > 1 ? orbit::OrbitType::Hyperbola : orbit::OrbitType::Parabola;
    REQUIRE(C, o.orbit_type == want && orbit::classify_orbit((double)k.e) == want, "orbit type of e=", k.e);
    Vd a, b;
    orbit::orbit_to_coord(o, a, b);
    auto [c, d] = orbit::orbit_to_coord<Vd>(o);
    // the denominator 1 + e cos(nu) loses relative accuracy near the asymptote
    R den = 1 + k.e * std::cos(k.nu), amp = 1 + (1 + k.e) / den;
    R vs = std::sqrt((k.m1 + k.m2) / k.p) * (1 + k.e);
    NEAR(C, "pos", norm(v3(a) - r), EPS * norm(r) * amp, 16, show(k));
    NEAR(C, "vel", norm(v3(b) - v), EPS * vs, 16, show(k));
    NEAR(C, "pos2", norm(v3(c) - r), EPS * norm(r) * amp, 16, show(k));
    NEAR(C, "vel2", norm(v3(d) - v), EPS * vs, 16, show(k));
}

// state with the direction errors that its own rounding to double implies
struct St { V r, v; R m1, m2; };
static St gen_state(Case& C) {
    St s;
    if (C.chance(1, 4)) {  // arbitrary state
        s.m1 = C.logreal(1e-6, 1e3);
        s.m2 = C.logreal(1e-6, 1e3);
        R q = C.logreal(1e-3, 1e3);
        R w = std::sqrt((s.m1 + s.m2) / q) * C.logreal(0.01, 30);
        s.r = V(C.sym(1), C.sym(1), C.sym(1)) * q;
        s.v = V(C.sym(1), C.sym(1), C.sym(1)) * w;
        if (C.chance(1, 4)) s.r.z = s.v.z = 0;
        if (norm(s.r) < q * 1e-3 || norm(s.v) < w * 1e-3) C.discard();
    } else {
        El k = gen_el(C);
        s.m1 = k.m1; s.m2 = k.m2;
        ref::elements_to_state(k.m1 + k.m2, k.p, k.e, k.i, k.Om, k.om, k.nu, s.r, s.v);
        if (C.chance(1, 8)) { s.r.z = s.v.z = 0; }
    }
    s.r = v3(d3(s.r)); s.v = v3(d3(s.v));
    s.m1 = (double)s.m1; s.m2 = (double)s.m2;
    return s;
}
static std::string show(St const& s) {
    return pbt::str("m=", s.m1, ",", s.m2, " r=(", s.r.x, ",", s.r.y, ",", s.r.z, ") v=(", s.v.x, ",", s.v.y, ",", s.v.z, ")");
}
struct Exact { R u, r, v2, rv, l, e, p, a; V L, E; R dE; };
static Exact exact(St const& s) {
    Exact x;
    x.u = s.m1 + s.m2;
    x.r = norm(s.r); x.v2 = dot(s.v, s.v); x.rv = dot(s.r, s.v);
    x.L = cross(s.r, s.v); x.l = norm(x.L);
    x.E = s.r * (x.v2 / x.u - 1 / x.r) - s.v * (x.rv / x.u);
    x.e = norm(x.E); x.p = x.l * x.l / x.u;
    x.a = 1 / (2 / x.r - x.v2 / x.u);
    x.dE = EPS * (1 + x.r * x.v2 / x.u);  // rounding of the eccentricity vector
    return x;
}

LAW("state to elements and back",
    "relative states (bound, unbound, circular, planar, retrograde, at the apsides and anywhere between) to elements and back to the same state through an independent formula; e, p and i against the "
    "exact values; bounds scale with the rounding of the node and eccentricity vectors; non-trivial: e > 0.01 and the orbit is inclined",
    300000, 6000000) {
    St s = gen_state(C);
    Exact x = exact(s);
    C.note(show(s));
    R sini = std::sqrt(x.L.x * x.L.x + x.L.y * x.L.y) / x.l, dL = EPS * x.r * std::sqrt(x.v2) / x.l;
    if (!(dL < 1e-6L)) C.discard();  // nearly radial
    C.nontrivial(x.e > 0.01L && sini > 0.01L);
    auto o = orbit::coord_to_orbit((double)s.m1, (double)s.m2, d3(s.r), d3(s.v));
    orbit::KeplerOrbit<double> o2;
    orbit::coord_to_orbit((double)s.m1, (double)s.m2, d3(s.r), d3(s.v), o2);
    for (double q : {o.p, o.e, o.i, o.Omega, o.omega, o.nu}) REQUIRE(C, std::isfinite(q), "element not finite: ", show(s));
    REQUIRE(C, std::fabs(o.p - o2.p) <= 1e-9 * o.p && std::fabs(wrap((R)o.omega + o.nu - o2.omega - o2.nu)) < 1e-6, "the two forms of coord_to_orbit differ: ", show(s));
    REQUIRE(C, o.m1 == (double)s.m1 && o.m2 == (double)s.m2, "masses: ", show(s));
    NEAR(C, "p", std::fabs(o.p - x.p), x.p * (EPS + dL), 16, show(s));
    NEAR(C, "e", std::fabs(o.e - x.e), x.dE, 16, show(s));
    REQUIRE(C, o.i >= 0 && o.i <= M_PI * (1 + EPS), "inclination ", o.i);
    R ci = std::max<R>(-1, std::min<R>(1, x.L.z / x.l)), ei = 8 * (EPS + dL);
    NEAR(C, "i", std::fabs(o.i - std::acos(ci)), std::min(std::sqrt(2 * ei), ei / std::max<R>(sini, 1e-30L)) + EPS * 4, 2, show(s));
    REQUIRE(C, o.orbit_type == orbit::classify_orbit(o.e), "orbit type");
    // back again.  Each angle comes from an arc cosine of a quantity with relative error d: angle error min(sqrt(2d), d / |sin|)
    V r2, v2;
    ref::elements_to_state(x.u, o.p, o.e, o.i, o.Omega, (R)o.omega + ref::PI, o.nu, r2, v2);
    // of the vectors it uses.  The node and the eccentricity vector may be pure noise: what matters is that they lie in the plane.
    R n = sini * x.l, eN = EPS * (std::fabs(s.r.z) * std::sqrt(x.v2) + x.r * std::fabs(s.v.z)) / std::max<R>(n, 1e-300L);
    R al = std::fabs(x.v2 / x.u - 1 / x.r) + EPS / x.r * (1 + x.r * x.v2 / x.u), be = (std::fabs(x.rv) + EPS * x.r * std::sqrt(x.v2)) / x.u;
    R ec = std::max<R>({x.e, (R)o.e, 1e-300L}), eE = EPS * (x.r * al + std::sqrt(x.v2) * be) / ec;
    R eEz = sini > 0 ? EPS * (std::fabs(s.r.z) * al + std::fabs(s.v.z) * be) / ec / sini : 0;
    auto arc = [](R d, R sn) { return std::min<R>({std::sqrt(2 * d), d / std::max<R>(std::fabs(sn), 1e-30L), 4}); };
    R bound = 2 * arc(8 * (EPS + dL), sini);
    bound += arc(4 * (EPS + eN), std::sin((R)o.Omega));
    bound += arc(4 * (EPS + eE), std::sin((R)o.nu)) + arc(4 * (EPS + eE + eN + eEz), std::sin((R)o.omega));
    R den = 1 + x.e * std::cos((R)o.nu);
    R amp = 1 + (1 + x.e) / std::max<R>(std::fabs(den), 1e-30L);
    R rel = (bound + 16 * (EPS + dL) + 16 * x.dE) * amp;
    if (!(rel < 0.01L)) { C.label("ill-conditioned"); C.discard(); }
    R vs = std::sqrt(x.u / x.p) * (1 + x.e);
    NEAR(C, "back r", norm(r2 - s.r), rel * x.r, 2, show(s), " elements i=", o.i, " Om=", o.Omega, " om=", o.omega, " nu=", o.nu, " e=", o.e);
    NEAR(C, "back v", norm(v2 - s.v), rel * vs, 2, show(s));
}

template <class T> static void invariants(Case& C, St const& s, Exact const& x, R eps, char const* t) {
    using Vt = Vec3<T>;
    Vt r((T)s.r.x, (T)s.r.y, (T)s.r.z), v((T)s.v.x, (T)s.v.y, (T)s.v.z);
    T u = (T)s.m1 + (T)s.m2, m1 = (T)s.m1, m2 = (T)s.m2;
    R k = eps / EPS, dE = x.dE * k, da = eps * std::fabs(x.a) * (1 + std::fabs(x.a) * (2 / x.r + x.v2 / x.u));
    auto V3 = [](Vt const& q) { return V(q.x, q.y, q.z); };
    auto [a1, e1] = orbit::calc_a_e(u, r, v);
    auto [a2, E2] = orbit::calc_a_RL_vector(u, r, v);
    auto [a3, E3, L3] = orbit::calc_a_e_L(m1, m2, r, v);
    T a4 = orbit::calc_semi_major_axis(u, r, v), e4 = orbit::calc_eccentricity(u, r, v);
    Vt E4 = orbit::calc_runge_lenz_vector(u, r, v), L4 = orbit::calc_angular_momentum(m1, m2, r, v);
    for (R a : {(R)a1, (R)a2, (R)a3, (R)a4}) NEAR(C, "a", std::fabs(a - x.a), da, 8, t, " ", show(s));
    NEAR(C, "ecc", std::fabs(e1 - x.e), dE, 8, t, " ", show(s));
    NEAR(C, "ecc4", std::fabs(e4 - x.e), dE, 8, t, " ", show(s));
    NEAR(C, "E2", norm(V3(E2) - x.E), dE, 8, t, " ", show(s));
    NEAR(C, "E3", norm(V3(E3) - x.E), dE, 8, t, " ", show(s));
    NEAR(C, "E4", norm(V3(E4) - x.E), dE, 8, t, " ", show(s));
    R mu = s.m1 * s.m2 / (s.m1 + s.m2), dl = eps * mu * x.r * std::sqrt(x.v2);
    NEAR(C, "L3", norm(V3(L3) - x.L * mu), dl, 8, t, " ", show(s));
    NEAR(C, "L4", norm(V3(L4) - x.L * mu), dl, 8, t, " ", show(s));
}
LAW("orbital invariants", "semi-major axis, eccentricity, Laplace-Runge-Lenz vector and angular momentum of generated states by every function, in double and long double, against the exact values; "
    "non-trivial: e > 0.01", 40000, 2000000) {
    St s = gen_state(C);
    Exact x = exact(s);
    C.note(show(s));
    C.nontrivial(x.e > 0.01L);
    if (!std::isfinite(x.a) || std::fabs(x.a) > 1e9L * x.r) C.discard();
    invariants<double>(C, s, x, EPS, "double");
    invariants<long double>(C, s, x, 1.0842e-19L * 8, "long double");
}

LAW("anomalies",
    "eccentric, mean and true anomaly of ellipses (several turns), parabolas and hyperbolas converted in all six directions against the defining equations in long double; "
    "non-trivial: the anomaly is not small and e > 0.01",
    300000, 8000000) {
    double e = gen_ecc(C);
    R lo = 1 - (R)e;
    if (e < 1) {
        double E = C.chance(1, 4) ? C.real(-20, 20) : gen_angle(C, -M_PI, M_PI);
        if (C.chance(1, 10)) E = C.logreal(1e-9, 1) * (C.boolean() ? -1 : 1);
        C.note("e=", e, " E=", E);
        C.nontrivial(e > 0.01 && std::fabs(E) > 0.1);
        R h = std::sin((R)E / 2), w = lo + 2 * (R)e * h * h, nu = std::atan2(std::sqrt(lo * (1 + (R)e)) * std::sin((R)E), lo - 2 * h * h), M = (R)E - (R)e * std::sin((R)E);
        // conditioning: d nu/dE = sqrt(1-e^2)/w; the sensitivity to e itself near 1 is not an error of the conversion
        R s = std::sqrt(lo * (1 + (R)e)), amp = s / w;
        double gT = orbit::E_anomaly_to_T_anomaly(E, e), gM = orbit::E_anomaly_to_M_anomaly(E, e);
        NEAR(C, "E->T", std::fabs(wrap((R)gT - nu)), EPS * (4 + std::fabs(E) * amp), 4, "e=", e, " E=", E);
        NEAR(C, "E->M", std::fabs(gM - M), EPS * (std::fabs(E) + e), 4, "e=", e, " E=", E);
        // inverse directions: start from doubles
        double nud = (double)nu, Md = (double)M;
        R En = std::atan2(s * std::sin((R)nud), (R)e + std::cos((R)nud)), Mn = En - (R)e * std::sin(En);
        double gE = orbit::T_anomaly_to_E_anomaly(nud, e), gMn = orbit::T_anomaly_to_M_anomaly(nud, e);
        R damp = s / (1 + (R)e * std::cos((R)nud));  // dE/dnu
        NEAR(C, "T->E", std::fabs(wrap((R)gE - En)), EPS * (4 + std::fabs(nud) * damp), 4, "e=", e, " nu=", nud);
        NEAR(C, "T->M", std::fabs(wrap((R)gMn - Mn)), EPS * (4 + std::fabs(En) + std::fabs(nud) * damp), 6, "e=", e, " nu=", nud);
        // M -> E: residual of Kepler's equation, which is what a double root can achieve
        double rE = orbit::M_anomaly_to_E_anomaly(Md, e);
        R res = std::fabs((R)rE - (R)e * std::sin((R)rE) - (R)Md);
        // (means below epsilon count as zero)
        NEAR(C, "M->E", res, std::fabs(Md) <= 1.001 * EPS ? EPS : EPS * (std::fabs(Md) + std::fabs(rE)), 8, "e=", e, " M=", Md, " got E=", rE);
        REQUIRE(C, std::fabs(Md) < 1e-9 || std::fabs(rE - Md) <= e * (1 + 1e-9) + 8 * EPS * (1 + std::fabs(Md)), "E - M out of range: e=", e, " M=", Md, " E=", rE);
        double rT = orbit::M_anomaly_to_T_anomaly(Md, e), viaE = orbit::E_anomaly_to_T_anomaly(rE, e);
        NEAR(C, "M->T", std::fabs(wrap((R)rT - viaE)), EPS * 4 * (1 + (1 + std::fabs(rE)) * s / (1 - (R)e * std::cos((R)rE))), 8, "e=", e, " M=", Md);
    } else if (e > 1) {
        double F = C.chance(1, 3) ? C.logreal(1e-6, 1) * (C.boolean() ? -1 : 1) : C.real(-12, 12);
        C.note("e=", e, " F=", F);
        C.nontrivial(std::fabs(F) > 0.1);
        R h = std::sinh((R)F / 2), s = std::sqrt(-lo * ((R)e + 1)), w = -lo + 2 * (R)e * h * h;
        R nu = std::atan2(s * std::sinh((R)F), -lo - 2 * h * h), M = (R)e * std::sinh((R)F) - F;
        double gT = orbit::E_anomaly_to_T_anomaly(F, e), gM = orbit::E_anomaly_to_M_anomaly(F, e);
        NEAR(C, "F->T", std::fabs(wrap((R)gT - nu)), EPS * (4 + std::fabs(F) * s / w), 4, "e=", e, " F=", F);
        NEAR(C, "F->M", std::fabs(gM - M), EPS * ((R)e * std::fabs(std::sinh((R)F)) * (1 + std::fabs(F)) + std::fabs(F)), 4, "e=", e, " F=", F);
        double Md = (double)M;
        double rF = orbit::M_anomaly_to_E_anomaly(Md, e);
        R res = std::fabs((R)e * std::sinh((R)rF) - (R)rF - (R)Md);
        NEAR(C, "M->F", res, std::fabs(Md) <= 1.001 * EPS ? EPS : EPS * (std::fabs(Md) + ((R)e * std::cosh((R)rF)) * std::fabs(rF)), 8, "e=", e, " M=", Md, " got ", rF);
        double nud = (double)nu;
        R lim = std::acos(-1 / (R)e);
        if (std::fabs(nud) < lim * 0.999L) {
            R th = std::sqrt(((R)e - 1) / ((R)e + 1)) * std::tan((R)nud / 2), Fn = 2 * std::atanh(th), Mn = (R)e * std::sinh(Fn) - Fn;
            R dF = s / (1 + (R)e * std::cos((R)nud)), unit = EPS * (1 + std::fabs(Fn) + 4 * std::fabs(th) / (1 - th * th) + std::fabs(nud) * dF);
            double gF = orbit::T_anomaly_to_E_anomaly(nud, e), gMn = orbit::T_anomaly_to_M_anomaly(nud, e);
            NEAR(C, "T->F", std::fabs(gF - Fn), unit, 4, "e=", e, " nu=", nud);
            NEAR(C, "T->Mh", std::fabs(gMn - Mn), unit * ((R)e * std::cosh(Fn) + 1), 6, "e=", e, " nu=", nud);
        }
        double rT = orbit::M_anomaly_to_T_anomaly(Md, e), viaE = orbit::E_anomaly_to_T_anomaly(rF, e);
        NEAR(C, "M->Th", std::fabs(wrap((R)rT - viaE)), EPS * (8 + 8 * std::fabs(rF) * s / ((R)e * std::cosh((R)rF) - 1)), 8, "e=", e, " M=", Md);
    } else {
        double D = C.real(-30, 30);
        C.note("parabola D=", D);
        C.nontrivial(std::fabs(D) > 0.1);
        R nu = 2 * std::atan((R)D), M = (R)D + (R)D * D * D / 3;
        NEAR(C, "D->T", std::fabs(orbit::E_anomaly_to_T_anomaly(D, e) - nu), EPS * std::fabs(nu), 4, "D=", D);
        NEAR(C, "D->M", std::fabs(orbit::E_anomaly_to_M_anomaly(D, e) - M), EPS * std::fabs(M), 8, "D=", D);
        double Md = (double)M, nud = (double)nu, rD = orbit::M_anomaly_to_E_anomaly(Md, e);
        NEAR(C, "M->D", std::fabs((R)rD + (R)rD * rD * rD / 3 - Md), EPS * (std::fabs(Md) + EPS), 16, "M=", Md, " got ", rD);
        R Dn = std::tan((R)nud / 2), Mn = Dn + Dn * Dn * Dn / 3;
        R du = EPS * (std::fabs(Dn) + std::fabs(nud) * (1 + Dn * Dn) / 2);
        NEAR(C, "T->D", std::fabs(orbit::T_anomaly_to_E_anomaly(nud, e) - Dn), du, 4, "nu=", nud);
        NEAR(C, "T->Mp", std::fabs(orbit::T_anomaly_to_M_anomaly(nud, e) - Mn), du * (1 + Dn * Dn) + EPS * std::fabs(Mn), 6, "nu=", nud);
        NEAR(C, "M->Tp", std::fabs(orbit::M_anomaly_to_T_anomaly(Md, e) - 2 * std::atan((R)rD)), EPS * 8, 4, "M=", Md);
    }
}

LAW("times",
    "the period, and the time between the periapsis and a generated point of the orbit (time to it on open orbits, time since it on ellipses): moving the state by that time with an independent "
    "Kepler solver reaches the periapsis or the same point; non-trivial: not at the periapsis already",
    100000, 3000000) {
    El k = gen_el(C);
    if (k.e > 1 - 1e-3L && k.e < 1 + 1e-3L && k.e != 1) C.discard();
    if (k.e < 1) k.nu = std::max<R>(-3.1L, std::min<R>(3.1L, k.nu));
    C.note(show(k));
    C.nontrivial(std::fabs(k.nu) > 0.1L);
    R u = k.m1 + k.m2;
    k.nu = (double)k.nu;
    orbit::KeplerOrbit<double> o((double)k.m1, (double)k.m2, (double)k.p, (double)k.e, (double)k.i, (double)k.Om, (double)k.om, (double)k.nu);
    V r, v, r0, v0;
    ref::elements_to_state(u, k.p, k.e, k.i, k.Om, k.om, k.nu, r, v);
    ref::elements_to_state(u, k.p, k.e, k.i, k.Om, k.om, 0, r0, v0);
    double t = orbit::time_to_periapsis(o);
    R a = k.e == 1 ? k.p : k.p / (1 - k.e * k.e);
    R M = k.e < 1 ? orbit::T_anomaly_to_M_anomaly((double)k.nu, (double)k.e) : orbit::T_anomaly_to_M_anomaly((double)k.nu, (double)k.e);
    double t2 = orbit::time_to_periapsis(o.orbit_type, (double)u, (double)a, (double)M);
    REQUIRE(C, std::isfinite(t) && std::isfinite(t2), "time not finite: ", show(k));
    REQUIRE(C, std::fabs(std::fabs((R)t) - std::fabs((R)t2)) <= 1e-9L * std::fabs(t) + 1e-300L && (t2 >= 0) == (M >= 0), "the two overloads differ: ", t, " and ", t2, ": ", show(k));
    if (k.e < 1) t = -t;  // elliptic: time since the periapsis
    REQUIRE(C, (t > 0) == (k.nu < 0) || k.nu == 0, "sign of the time to periapsis: ", t, " at nu=", k.nu);
    V rr = r, vv = v;
    ref::kepler_step(u, rr, vv, t);
    // error of the state after moving by t: |v| dt with dt ~ eps * conditioning of t in (e, nu)
    R den = 1 + k.e * std::cos(k.nu), cond = 8 + 4 * (1 + k.e) / den + 2 / std::fabs(k.e == 1 ? 1 : 1 - k.e);
    R dt = EPS * (std::fabs((R)t) * cond + norm(r) / norm(v));
    NEAR(C, "periapsis r", norm(rr - r0), norm(v0) * dt + EPS * norm(r0) * cond, 16, show(k));
    NEAR(C, "periapsis v", norm(vv - v0), u / dot(r0, r0) * dt + EPS * norm(v0) * cond, 16, show(k));
    if (k.e < 1) {
        double T = orbit::period(o), T2 = orbit::period((double)k.m1, (double)k.m2, (double)a);
        R want = 2 * ref::PI * std::sqrt(a * a * a / u);
        NEAR(C, "period", std::fabs(T - want), EPS * want * cond, 8, show(k));
        NEAR(C, "period2", std::fabs(T2 - want), EPS * want, 16, show(k));
        rr = r; vv = v;
        ref::kepler_step(u, rr, vv, want);
        REQUIRE(C, norm(rr - r) < 1e-9L * norm(r) * cond, "the reference period is wrong");
    }
}

LAW("constructors from scattering and elliptic parameters",
    "incident and ejected hyperbolas from velocity at infinity, impact parameter and distance: the state has that energy, angular momentum, distance and direction; ellipses keep a, e and angles; "
    "non-trivial: e above 1.01 or an ellipse with e > 0.01",
    100000, 3000000) {
    double m1 = C.logreal(1e-3, 1e3), m2 = C.logreal(1e-3, 1e3), i = gen_angle(C, 0, M_PI), Om = gen_angle(C, -M_PI, M_PI), om = gen_angle(C, -M_PI, M_PI);
    if (C.boolean()) {
        double e = C.choice(3) == 0 ? 0 : C.real(0, 0.999), a = C.logreal(1e-3, 1e4), nu = gen_angle(C, -M_PI, M_PI);
        orbit::Elliptic o(m1, m2, a, e, i, Om, om, nu);
        C.note("ellipse a=", a, " e=", e);
        C.nontrivial(e > 0.01);
        REQUIRE(C, o.a == a && o.e == e && o.i == i && o.Omega == Om && o.omega == om && o.nu == nu && o.m1 == m1 && o.m2 == m2, "elliptic orbit does not keep its arguments");
        NEAR(C, "ell p", std::fabs(o.p - (R)a * (1 - (R)e * e)), EPS * a, 4, "a=", a, " e=", e);
        REQUIRE(C, o.orbit_type == orbit::OrbitType::Ellipse, "type");
        auto [r, v] = orbit::orbit_to_coord<Vd>(o);
        St s{v3(r), v3(v), m1, m2};
        Exact x = exact(s);
        NEAR(C, "ell a", std::fabs(x.a - a), EPS * a * (2 * a / x.r + a * x.v2 / x.u) * (1 + 2 / (1 - e)), 32, "a=", a, " e=", e);
        NEAR(C, "ell e", std::fabs(x.e - e), x.dE * (1 + 2 / (1 - e)), 16, "a=", a, " e=", e);
    } else {
        R u = (R)m1 + m2;
        double vinf = C.logreal(1e-3, 10), q = (double)(u / ((R)vinf * vinf));
        double b = q * C.logreal(1e-3, 100);
        R A = u / ((R)vinf * vinf), e = std::sqrt(1 + (R)b * b / (A * A)), rp = A * (e - 1), p = A * (e * e - 1);
        double r = (double)(std::max<R>(rp, p / (1 + e)) * C.logreal(1.0001, 1e5));
        bool out = C.boolean();
        C.note("hyperbola v_inf=", vinf, " b=", b, " r=", r, " e=", e, out ? " out" : " in");
        C.nontrivial(e > 1.01L);
        orbit::Hyperbolic o(m1, m2, vinf, b, i, Om, om, r, out ? orbit::Hyper::out : orbit::Hyper::in);
        std::string w = pbt::str("m=", m1, ",", m2, " v_inf=", vinf, " b=", b, " r=", r, " out=", out);
        REQUIRE(C, o.b == b && o.i == i && o.Omega == Om && o.omega == om && o.m1 == m1 && o.m2 == m2, "hyperbolic orbit does not keep its arguments: ", w);
        REQUIRE(C, o.orbit_type == orbit::OrbitType::Hyperbola, "type: ", w);
        auto [rr, vv] = orbit::orbit_to_coord<Vd>(o);
        V x = v3(rr), v = v3(vv);
        // the distance is recovered from an angle near the asymptote: relative amplification r/p (1+e)
        // (e, p) carry one rounding each; r depends on 1 + e cos nu, v_inf^2 on e^2 - 1 = b^2/A^2
        R amp = 4 + (1 + e) * (R)r / p * 4 + 4 / (e - 1);
        R sv = e * std::sin(std::acos(std::max<R>(-1, (p / r - 1) / e)));  // radial velocity in units of sqrt(u/p)
        R arc = std::min<R>(std::sqrt(2 * EPS), EPS / std::max<R>(std::sqrt(std::max<R>(0, 1 - std::pow((p / r - 1) / e, 2))), 1e-30L));
        R rel = EPS * amp + arc * e * std::fabs(std::sin(arc + std::acos(std::max<R>(-1, std::min<R>(1, (p / r - 1) / e))))) * r / p;
        (void)sv;
        if (rel > 1e-4L) C.discard();
        NEAR(C, "hyp r", std::fabs(norm(x) - r), rel * r, 16, w);
        R l = norm(cross(x, v)), E = dot(v, v) / 2 - u / norm(x), ke = dot(v, v) / 2 + u / norm(x);
        NEAR(C, "hyp L", std::fabs(l - (R)b * vinf), (R)b * vinf * (rel + EPS * norm(x) * norm(v) / l * 4), 16, w);
        NEAR(C, "hyp E", std::fabs(E - (R)vinf * vinf / 2), ke * (rel + EPS * 8) + EPS * u / p * (1 + e) * (1 + e) * 4, 16, w);
        R vr = dot(x, v) / norm(x);
        if (r > 1.01L * rp) REQUIRE(C, (vr > 0) == out, "the object should be ", out ? "leaving" : "approaching", ": radial velocity ", vr, ": ", w);
    }
}

LAW("isotropic orbits",
    "angles left to chance: uniform cos i, node, periapsis and mean anomaly (Kolmogorov-Smirnov distance of 3000 draws below the 1e-13 point), given angles untouched; non-trivial: always",
    24, 400) {
    double e = C.real(0, 0.95), m1 = C.logreal(0.1, 10), m2 = C.logreal(0.1, 10), p = C.logreal(0.1, 10);
    bool ci = C.boolean(), co = C.boolean(), shuffle = C.boolean();
    C.note("e=", e, ci ? " random i" : "", co ? " random Omega" : "", shuffle ? " by shuffling" : "");
    C.nontrivial();
    constexpr int N = 3000;
    std::vector<R> I, O, W, M;
    using orbit::isotherm;
    orbit::Elliptic sh(m1, m2, p, e, 0.3, 0.4, 0.5, 0.6);
    for (int q = 0; q < N; ++q) {
        if (shuffle) {
            sh.shuffle_i(); sh.shuffle_Omega(); sh.shuffle_omega(); sh.shuffle_nu();
            I.push_back(std::cos((R)sh.i)); O.push_back(sh.Omega); W.push_back(sh.omega);
            M.push_back(orbit::T_anomaly_to_M_anomaly(sh.nu, e));
            continue;
        }
        auto o = ci ? (co ? orbit::Elliptic(m1, m2, p, e, isotherm, isotherm, isotherm, isotherm) : orbit::Elliptic(m1, m2, p, e, isotherm, 0.25, isotherm, isotherm))
                    : (co ? orbit::Elliptic(m1, m2, p, e, 0.5, isotherm, 0.75, isotherm) : orbit::Elliptic(m1, m2, p, e, 0.5, 0.25, isotherm, 1.0));
        if (ci) I.push_back(std::cos((R)o.i)); else REQUIRE(C, o.i == 0.5, "given inclination changed to ", o.i);
        if (co) O.push_back(o.Omega); else REQUIRE(C, o.Omega == 0.25, "given node changed to ", o.Omega);
        if (ci || !co) W.push_back(o.omega); else REQUIRE(C, o.omega == 0.75, "given periapsis changed to ", o.omega);
        if (ci || co) M.push_back(orbit::T_anomaly_to_M_anomaly(o.nu, e)); else REQUIRE(C, o.nu == 1.0, "given anomaly changed to ", o.nu);
    }
    auto ks = [&](std::vector<R> v, R lo, R hi, char const* what) {
        if (v.empty()) return;
        std::sort(v.begin(), v.end());
        REQUIRE(C, v.front() >= lo * (1 + 1e-12L) && v.back() <= hi * (1 + 1e-12L), what, " outside [", lo, ",", hi, "]: ", v.front(), " ", v.back());
        R d = 0;
        for (size_t j = 0; j < v.size(); ++j) {
            R f = (v[j] - lo) / (hi - lo);
            d = std::max({d, std::fabs(f - (R)j / v.size()), std::fabs(f - (R)(j + 1) / v.size())});
        }
        R lim = std::sqrt(std::log(2 / 1e-13L) / (2 * v.size()));
        pbt::cal(std::string("ks ") + what, d / lim);
        REQUIRE(C, d <= lim, what, " is not uniform: distance ", d, " over ", v.size(), " draws");
    };
    ks(I, -1, 1, "cos i"); ks(O, -ref::PI, ref::PI, "Omega"); ks(W, -ref::PI, ref::PI, "omega"); ks(M, -ref::PI, ref::PI, "mean anomaly");
}

LAW("rotation and tidal relations",
    "euler_rotate is Rz(phi) Rx(theta) Rz(psi) on any vector; the tidal factor and radius of two bodies follow m2/m1 (R1/r)^3 and are inverses of each other; non-trivial: always",
    20000, 1000000) {
    C.nontrivial();
    double a = gen_angle(C, -M_PI, M_PI), b = gen_angle(C, -M_PI, M_PI), c = gen_angle(C, -M_PI, M_PI);
    Vd v(C.sym(10), C.sym(10), C.sym(10));
    V w = v3(v);
    auto rz = [](V q, R t) { return V(q.x * std::cos(t) - q.y * std::sin(t), q.x * std::sin(t) + q.y * std::cos(t), q.z); };
    auto rx = [](V q, R t) { return V(q.x, q.y * std::cos(t) - q.z * std::sin(t), q.y * std::sin(t) + q.z * std::cos(t)); };
    V want = rz(rx(rz(w, c), b), a);
    orbit::euler_rotate(v, a, b, c);
    NEAR(C, "rotate", norm(v3(v) - want), EPS * norm(w), 16, "angles ", a, " ", b, " ", c);
    double m1 = C.logreal(1e-3, 1e3), m2 = C.logreal(1e-3, 1e3), R1 = C.logreal(1e-4, 1), R2 = C.logreal(1e-4, 1), r = C.logreal(1e-3, 1e3);
    auto [f1, f2] = orbit::tidal_factor(r, m1, m2, R1, R2);
    R w1 = (R)m2 / m1 * std::pow((R)R1 / r, 3), w2 = (R)m1 / m2 * std::pow((R)R2 / r, 3);
    NEAR(C, "tidal factor 1", std::fabs(f1 - w1), EPS * w1, 16, "m=", m1, ",", m2);
    NEAR(C, "tidal factor 2", std::fabs(f2 - w2), EPS * w2, 16, "m=", m1, ",", m2);
    double f = C.logreal(1e-8, 10);
    double one = orbit::tidal_radius(f, m1, m2, R2), both = orbit::tidal_radius(f, m1, m2, R1, R2);
    R x2 = std::cbrt((R)m1 / m2 / f) * R2, x1 = std::cbrt((R)m2 / m1 / f) * R1;
    NEAR(C, "tidal radius", std::fabs(one - x2), EPS * x2, 64, "m=", m1, ",", m2, " R=", R2, " f=", f);
    NEAR(C, "tidal radius 2", std::fabs(both - std::max(x1, x2)), EPS * std::max(x1, x2), 64, "m=", m1, ",", m2);
    auto [g1, g2] = orbit::tidal_factor(both, m1, m2, R1, R2);
    REQUIRE(C, std::fabs(std::max(g1, g2) / f - 1) < 1e-12, "the tidal radius does not give the tidal factor back: ", std::max(g1, g2), " for ", f);
}

// does the call refuse its arguments: end the program or raise an exception instead of returning?
template <class F> static bool refuses(F&& call) {
    pid_t pid = fork();
    if (pid == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        alarm(20);
        try { call(); } catch (...) { _exit(1); }
        _exit(77);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) != 77;
}
LAW("elements of no orbit are refused",
    "negative or NaN eccentricities, semi-latus recta that are not positive, true anomalies beyond the asymptotes of a hyperbola, distances below the periapsis, head-on hyperbolas, ellipses that are not closed, "
    "periods of and random anomalies on open orbits: the call ends the program or raises an exception and never returns; and the same call just inside the domain returns; non-trivial: always",
    2500, 100000) {
    C.nontrivial();
    double m1 = C.logreal(1e-3, 1e3), m2 = C.logreal(1e-3, 1e3), p = C.logreal(1e-3, 1e3), i = gen_angle(C, 0, M_PI), Om = gen_angle(C, -M_PI, M_PI), om = gen_angle(C, -M_PI, M_PI);
    double bad = C.chance(1, 5) ? NAN : -C.logreal(1e-9, 1e3), open = C.boolean() ? 1 + C.logreal(1e-6, 10) : 1 + C.logreal(1e-3, 1), closed = C.chance(1, 4) ? 0 : C.real(0, 0.99);
    double any = C.boolean() ? closed : open, sign = C.boolean() ? -1 : 1, gap = C.logreal(1e-6, 0.5);
    volatile double out = 0;
    auto both = [&](char const* what, auto const& call, double wrong, double right) {
        C.label(what);
        C.note(what, ": ", wrong, " is wrong, ", right, " is right");
        REQUIRE(C, refuses([&] { call(wrong); }), what, ": ", wrong, " is accepted");
        REQUIRE(C, !refuses([&] { call(right); }), what, ": ", right, " is refused");
    };
    orbit::RandomIndicator any_angle = orbit::isotherm;
    switch (C.choice(15)) {
        case 0: both("eccentricity of an orbit", [&](double e) { orbit::KeplerOrbit<double> o(m1, m2, p, e, i, Om, om, 0.0); out = o.p; }, bad, any); break;
        case 1: both("semi-latus rectum", [&](double q) { orbit::KeplerOrbit<double> o(m1, m2, q, any, i, Om, om, 0.0); out = o.p; }, C.chance(1, 4) ? 0 : -p, p); break;
        case 2: { double x = C.sym(3); both("eccentricity of E to T", [&](double e) { out = orbit::E_anomaly_to_T_anomaly(x, e); }, bad, any); break; }
        case 3: { double M = sign * C.logreal(1e-3, 3); both("eccentricity of M to E", [&](double e) { out = orbit::M_anomaly_to_E_anomaly(M, e); }, bad, any); break; }
        case 4: { double M = sign * C.logreal(1e-3, 3); both("eccentricity of M to T", [&](double e) { out = orbit::M_anomaly_to_T_anomaly(M, e); }, bad, any); break; }
        case 5: { double x = C.sym(1); both("eccentricity of T to E", [&](double e) { out = orbit::T_anomaly_to_E_anomaly(x, e); }, bad, closed); break; }
        case 6: { double x = C.sym(3); both("eccentricity of E to M", [&](double e) { out = orbit::E_anomaly_to_M_anomaly(x, e); }, bad, any); break; }
        case 7: { double x = C.sym(1); both("eccentricity of T to M", [&](double e) { out = orbit::T_anomaly_to_M_anomaly(x, e); }, bad, closed); break; }
        case 8: {
            double lim = std::acos(-1 / open);
            bool M = C.boolean();
            both("true anomaly on a hyperbola", [&](double nu) { out = M ? orbit::T_anomaly_to_M_anomaly(nu, open) : orbit::T_anomaly_to_E_anomaly(nu, open); }, sign * (lim + gap * (M_PI - lim)), sign * lim * (1 - gap));
            break;
        }
        case 9: {
            double v = C.logreal(1e-2, 10), b = C.logreal(0.1, 10) * (m1 + m2) * consts::G / v / v;
            R u = ((R)m1 + m2) * consts::G, a = u / v / v, peri = a * (std::sqrt(1 + (R)b * b / a / a) - 1);
            both("distance below the periapsis", [&](double r) { orbit::Hyperbolic o(m1, m2, v, b, i, Om, om, r, sign > 0 ? orbit::Hyper::in : orbit::Hyper::out); out = o.nu; }, (double)(peri * (1 - gap)), (double)(peri * (1 + gap)));
            break;
        }
        case 10: {
            double v = C.logreal(1e-2, 10), a = (m1 + m2) * consts::G / v / v, b = C.logreal(0.1, 10) * a;
            both("head-on hyperbola", [&](double q) { orbit::Hyperbolic o(m1, m2, v, q, i, Om, om, 100 * (a + b), sign > 0 ? orbit::Hyper::in : orbit::Hyper::out); out = o.nu; }, 0, b);
            break;
        }
        case 11: both("eccentricity of an ellipse", [&](double e) { orbit::Elliptic o(m1, m2, e < 1 ? p : sign * p, e, i, Om, om, 0.0); out = o.p; }, C.chance(1, 3) ? bad : open, closed); break;
        case 12: both("axis of an ellipse", [&](double a) { orbit::Elliptic o(m1, m2, a, closed, i, Om, om, 0.0); out = o.p; }, -p, p); break;
        case 13:
            if (C.boolean()) both("period of an axis", [&](double a) { out = orbit::period(m1, m2, a); }, C.chance(1, 4) ? NAN : -p, p);
            else both("period of an orbit", [&](double e) { orbit::KeplerOrbit<double> o(m1, m2, p, e, i, Om, om, 0.0); out = orbit::period(o); }, open, closed);
            break;
        default:
            if (C.boolean()) both("random anomaly", [&](double e) { orbit::KeplerOrbit<double> o(m1, m2, p, e, i, Om, om, any_angle); out = o.nu; }, C.chance(1, 4) ? 1 : open, closed);
            else both("anomaly shuffled", [&](double e) { orbit::KeplerOrbit<double> o(m1, m2, p, e, i, Om, om, 0.0); o.shuffle_nu(); out = o.nu; }, C.chance(1, 4) ? 1 : open, closed);
    }
}
