// P21: scattering setup: critical velocity, impact parameters, incident orbits
#include <algorithm>
#include "clusters.hpp"
using namespace hub;
using namespace cl;
static constexpr R EPS = 2.3e-16L;

template <class P, class A, class B> void cross_section(Case& C, Group const& ga, Group const& gb, A const& a, B const& b, double vinf, double f) {
    using T = typename P::Scalar;
    Sum s = sum(ga), q = sum(gb);
    R eps = eps_of<T>(), n = ga.size() + gb.size();
    std::string w = pbt::str("v_inf=", vinf, " f=", f, " ") + show(ga) + " and " + show(gb);
    R e1 = s.ek + s.ep - s.m * dot(s.v, s.v) / 2, e2 = q.ek + q.ep - q.m * dot(q.v, q.v) / 2, mu = s.m * q.m / (s.m + q.m);
    R err = eps * n * (s.m * s.vs * s.vs + s.eps_rel + q.m * q.vs * q.vs + q.eps_rel), x = -2 * (e1 + e2) / mu;
    R got = (R)scattering::critical_vel(a, b);
    if (err < 1e-3L * std::fabs(e1 + e2)) {
        if (x > 0) NEAR(C, "critical velocity", std::fabs(got - std::sqrt(x)), std::sqrt(x) * (err / std::fabs(e1 + e2) + eps * n), 8, w);
        else REQUIRE(C, std::isnan(got), "unbound clusters have no critical velocity, got ", got, ": ", w);
        if (ga.size() == 2 && gb.size() == 1 && x > 0) {  // at the critical velocity the whole system has zero energy in its centre-of-mass frame
            R tot = e1 + e2 + mu * got * got / 2;
            REQUIRE(C, std::fabs(tot) <= 64 * (err + eps * n * std::fabs(e1)), "the total energy at the critical velocity is ", tot);
        }
    }
    bool sized = std::is_same_v<P, Sized<T>>;
    R R1 = ga.size() > 1 || sized ? s.size : 0, R2 = gb.size() > 1 || sized ? q.size : 0;
    R rp = std::max(std::cbrt(s.m / q.m / (T)f) * R2, std::cbrt(q.m / s.m / (T)f) * R1);
    R es = eps * (8 + (ga.size() > 1 ? s.xs / s.size * 2 : 0) + (gb.size() > 1 ? q.xs / q.size * 2 : 0)) + 3e-16L;
    R u = s.m + q.m, bm = std::sqrt(rp * rp + 2 * u * rp / ((R)(T)vinf * (T)vinf));
    NEAR(C, "largest impact parameter", std::fabs((R)scattering::b_max(a, b, (T)vinf, (T)f) - bm), bm * (es + eps * n), 16, w);
}
LAW("cross sections of clusters",
    "two clusters of 1-4 particles: the critical velocity is that at which the total energy vanishes (NaN if they are unbound) and the largest impact parameter that whose periapsis is the tidal "
    "radius, against long-double formulas; non-trivial: the clusters are bound",
    60000, 3000000) {
    R L = C.logreal(1e-2, 1e2), W = C.logreal(1e-2, 3);
    V X = place(C, L), U = place(C, W);
    Group a = group(C, C.integer(1, 4), L, W, X, U), b = group(C, C.integer(1, 4), L * C.logreal(0.1, 10), W, X + gen::unit(C) * (L * 50), U);
    if (C.boolean()) {  // cold: bound
        Sum s = sum(a);
        for (auto& z : a) z.v = rd(s.v + (z.v - s.v) * 0.01L * std::sqrt(s.m / L) / W);
        s = sum(b);
        for (auto& z : b) z.v = rd(s.v + (z.v - s.v) * 0.01L * std::sqrt(s.m / L) / W);
    }
    double vinf = C.logreal(1e-3, 10), f = C.logreal(1e-6, 1);
    C.note(show(a), " and ", show(b));
    Sum s = sum(a), q = sum(b);
    C.nontrivial(s.ek + s.ep + q.ek + q.ep < 0);
    if (C.boolean()) {
        auto x = make_all<Sized<double>>(a), y = make_all<Sized<double>>(b);
        cross_section<Sized<double>>(C, a, b, x, y, vinf, f);
        if (b.size() == 1) cross_section<Sized<double>>(C, a, b, x, y[0], vinf, f);
    } else {
        auto x = make_all<Point<long double>>(a), y = make_all<Point<long double>>(b);
        cross_section<Point<long double>>(C, a, b, x, y, vinf, f);
        if (b.size() == 1) cross_section<Point<long double>>(C, a, b, x, y[0], vinf, f);
    }
}

LAW("cross section formulas",
    "critical velocity, impact parameters (both forms) and the hard radius of given masses, sizes and energies: an orbit with that impact parameter and velocity at infinity has exactly that periapsis; "
    "non-trivial: always",
    60000, 3000000) {
    C.nontrivial();
    double m1 = C.logreal(1e-6, 1e6), m2 = C.logreal(1e-6, 1e6), v = C.logreal(1e-4, 1e3), rp = C.logreal(1e-4, 1e4), R1 = C.logreal(1e-4, 1e2), R2 = C.logreal(1e-4, 1e2), f = C.logreal(1e-8, 10);
    std::string w = pbt::str("m=", m1, ",", m2, " v=", v, " rp=", rp, " R=", R1, ",", R2, " f=", f);
    C.note(w);
    R M = (R)m1 + m2, b = scattering::b_max((double)M, v, rp);
    // periapsis of the orbit with this b and v: a = -M/v^2, e = sqrt(1 + b^2/a^2)
    R A = M / ((R)v * v), t = b / A, per = A * (t * t / (1 + std::sqrt(1 + t * t)));
    NEAR(C, "b_max", std::fabs(per - rp), EPS * rp, 32, w);
    R x = std::max(std::cbrt((R)m1 / m2 / f) * R2, std::cbrt((R)m2 / m1 / f) * R1), want = std::sqrt(x * x + 2 * M * x / ((R)v * v));
    NEAR(C, "b_max of sizes", std::fabs(scattering::b_max(m1, m2, R1, R2, v, f) - want), want * EPS, 64, w);
    double E1 = -C.logreal(1e-6, 1e3), E2 = C.boolean() ? 0 : -C.logreal(1e-6, 1e3);
    R vc = scattering::critical_vel(m1, m2, E1, E2), mu = (R)m1 * m2 / M;
    NEAR(C, "critical", std::fabs(mu * vc * vc / 2 + E1 + E2), EPS * std::fabs((R)E1 + E2), 16, w, " E=", E1, ",", E2);
    double me = C.logreal(1e-3, 1e3), sg = C.logreal(1e-4, 10);
    R h = (R)m1 * m2 / ((R)me * sg * sg);
    NEAR(C, "hard radius", std::fabs(scattering::hard_radius(m1, m2, me, sg) - h), EPS * h, 8, w, " m_env=", me, " sigma=", sg);
}

LAW("incident orbits",
    "800 orbits per case: velocity at infinity, distance and direction as asked, inbound, impact parameter below b_max with b^2 uniform and orientation uniform (Kolmogorov-Smirnov at 1e-13); the cluster form "
    "starts at the tidal radius for the given factor and uses the radius for a factor 0.02 to bound b; non-trivial: always",
    400, 20000) {
    C.nontrivial();
    double v = C.logreal(1e-3, 3), r = C.logreal(10, 1e4), bm = C.logreal(1e-1, 1e2), m1 = C.logreal(0.1, 30), m2 = C.logreal(0.1, 30), f = C.logreal(1e-7, 1e-4);
    bool cluster = C.boolean();
    Group ga = group(C, C.integer(1, 3), C.logreal(0.1, 1), 0.1, V(), V()), gb = group(C, C.integer(1, 3), C.logreal(0.1, 1), 0.1, V(100, 3, 4), V(1, 0, 0));
    auto a = make_all<Sized<double>>(ga), b = make_all<Sized<double>>(gb);
    if (cluster) {
        Sum s = sum(ga), q = sum(gb);
        auto rt = [&](R k) { return std::max(std::cbrt(s.m / q.m / k) * q.size, std::cbrt(q.m / s.m / k) * s.size); };
        m1 = (double)s.m; m2 = (double)q.m;
        R rp = rt(0.02L);
        bm = (double)std::sqrt(rp * rp + 2 * (s.m + q.m) * rp / ((R)v * v));
        r = (double)rt(f);
    }
    R u = (R)m1 + m2, A = u / ((R)v * v), t = bm / A, per = A * t * t / (1 + std::sqrt(1 + t * t));
    if (r < per * 1.01L) C.discard();  // the library refuses to start inside the periapsis
    C.note("v=", v, " r=", r, " b_max=", bm, " m=", m1, ",", m2, cluster ? " from clusters" : "");
    constexpr int N = 800;
    std::vector<R> B, W;
    for (int k = 0; k < N; ++k) {
        auto o = cluster ? scattering::incident_orbit(a, b, v, f) : scattering::incident_orbit(m1, m2, v, bm, r);
        auto [x, dv] = orbit::orbit_to_coord<Vec3<double>>(o);
        V X = v3(x), D = v3(dv);
        std::string w = pbt::str("m=", m1, ",", m2, " v=", v, " r=", r, " b=", o.b, " b_max=", bm);
        REQUIRE(C, o.b >= 0 && o.b <= bm * (1 + 1e-12), "impact parameter out of range: ", w);
        REQUIRE(C, std::fabs(o.m1 / m1 - 1) < 1e-13 && std::fabs(o.m2 / m2 - 1) < 1e-13, "masses of the orbit: ", w);
        B.push_back((R)o.b * o.b / ((R)bm * bm));
        R e = std::sqrt(1 + std::pow((R)o.b / A, 2)), p = A * (e * e - 1), amp = 10 + 20 * (1 + e) * r / p + 1e2 / (e - 1);
        if (EPS * amp < 1e-5L) {
            REQUIRE(C, std::fabs(norm(X) - r) <= r * (EPS * amp + 1e-12L) * 10, "starts at distance ", norm(X), ": ", w);
            R l = norm(cross(X, D)), want = (R)o.b * v;
            REQUIRE(C, std::fabs(l - want) <= want * (EPS * amp + 1e-12L) * 100, "angular momentum ", l, " instead of ", want, ": ", w);
            REQUIRE(C, dot(X, D) < 0, "not inbound: ", w);
            R E = dot(D, D) / 2 - u / norm(X);
            REQUIRE(C, std::fabs(E - (R)v * v / 2) <= 100 * (EPS * amp + 1e-12L) * (dot(D, D) / 2 + u / norm(X)), "energy ", E, " instead of ", (R)v * v / 2, ": ", w);
            V nrm = cross(X, D) / l;  // the orbital plane turns about a fixed axis by a uniform angle
            W.push_back(std::atan2(nrm.y, nrm.z) / (2 * ref::PI) + 0.5L);
        }
    }
    auto ks = [&](std::vector<R> z, char const* what) {
        if (z.size() < 100) return;
        std::sort(z.begin(), z.end());
        R d = 0;
        for (size_t j = 0; j < z.size(); ++j) d = std::max({d, std::fabs(z[j] - (R)j / z.size()), std::fabs(z[j] - (R)(j + 1) / z.size())});
        R lim = std::sqrt(std::log(2 / 1e-13L) / (2 * z.size()));
        pbt::cal(std::string("ks ") + what, d / lim);
        REQUIRE(C, d <= lim, what, " is not uniform: distance ", d, " over ", z.size(), " draws");
    };
    ks(B, "b^2");
    if (W.size() == N) ks(W, "orientation");
}
