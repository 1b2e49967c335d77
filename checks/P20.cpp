// P20: functions of particle clusters (centre of mass, energies, sizes, mutual orbit, placement) for every way to pass a cluster
#include "clusters.hpp"
using namespace hub;
using namespace cl;

// calls f(ptcs...) with the elements of a container of 2-6 particles
template <class P, class F> auto spread(std::vector<P>& v, F f) {
    switch (v.size()) {
        case 2: return f(v[0], v[1]);
        case 3: return f(v[0], v[1], v[2]);
        case 4: return f(v[0], v[1], v[2], v[3]);
        case 5: return f(v[0], v[1], v[2], v[3], v[4]);
        default: return f(v[0], v[1], v[2], v[3], v[4], v[5]);
    }
}
// every way to pass a cluster: container, fixed array, single particle, separate arguments
template <class P, class F> void each_form(Group const& g, F f) {
    auto v = make_all<P>(g);
    f("vector", v);
    if (v.size() == 1) f("single particle", v[0]);
    if (v.size() == 2) { std::array<P, 2> a{v[0], v[1]}; f("array", a); }
    if (v.size() == 3) { auto a = orbit::group(v[0], v[1], v[2]); f("group", a); }
    if (v.size() >= 2 && v.size() <= 6) spread(v, [&](auto&... p) { f("separate particles", p...); });
}

template <class P> void values(Case& C, Group const& g) {
    using T = typename P::Scalar;
    Sum s = sum(g);
    R eps = eps_of<T>(), n = g.size();
    auto w = [&](char const* form) { return pbt::str(form, " ", show(g)); };
    each_form<P>(g, [&](char const* form, auto&... c) {
        NEAR(C, "mass", std::fabs((R)orbit::M_tot(c...) - s.m), eps * s.m * n, 4, w(form));
        NEAR(C, "COM position", norm(v3(orbit::COM_p(c...)) - s.x), eps * s.xs * n, 8, w(form));
        NEAR(C, "COM velocity", norm(v3(orbit::COM_v(c...)) - s.v), eps * s.vs * n, 8, w(form));
        NEAR(C, "kinetic energy", std::fabs((R)orbit::E_k(c...) - s.ek), eps * s.ek * n, 8, w(form));
        NEAR(C, "potential energy", std::fabs((R)orbit::E_p(c...) - s.ep), eps * s.eps_rel * n, 4, w(form));
        R kc = s.m * dot(s.v, s.v) / 2, scale = s.m * s.vs * s.vs;
        NEAR(C, "COM kinetic energy", std::fabs((R)orbit::E_k_COM(c...) - kc), eps * (scale * n), 8, w(form));
        NEAR(C, "total energy", std::fabs((R)orbit::E_tot(c...) - s.ek - s.ep), eps * n * (s.ek + s.eps_rel), 8, w(form));
        NEAR(C, "inner energy", std::fabs((R)orbit::E_inner(c...) - (s.ek + s.ep - kc)), eps * n * (scale + s.eps_rel), 8, w(form));
        R size = s.size;
        if (g.size() == 1 && !std::is_same_v<P, Sized<T>>) size = 0;
        NEAR(C, "size", std::fabs((R)orbit::cluster_size(c...) - size), eps * (4 * size + (g.size() > 1 ? s.xs : 0)), 4, w(form));
    });
}
LAW("values of a cluster",
    "1-60 (mostly at most 8) point or finite-size particles anywhere, as vector, array, group, single particle or separate arguments, in double and long double: mass, centre of mass, kinetic, potential, centre-of-mass, "
    "total and inner energy and size against long-double sums; non-trivial: at least 2 particles away from the origin",
    200000, 4000000) {
    Group g = any(C, 1, C.chance(1, 8) ? 60 : 8);
    C.note(show(g));
    C.nontrivial(g.size() > 1 && norm(g[0].x) > 0);
    switch (C.choice(3)) {
        case 0: return values<Point<double>>(C, g);
        case 1: return values<Sized<double>>(C, g);
        case 2: return values<Point<long double>>(C, g);
        default: return values<Sized<long double>>(C, g);
    }
}

template <class P> void moves(Case& C, Group const& g, int op, V X, V Vc, orbit::KeplerOrbit<double> const& k) {
    using T = typename P::Scalar;
    Sum s = sum(g);
    R eps = eps_of<T>(), n = g.size();
    auto judge = [&](std::string form, std::vector<P> const& a) {
        V tx = X, tv = Vc;
        bool px = op != 1, pv = op != 0;
        R ke = 0;
        if (op == 3) { tx = V(); tv = V(); }
        if (op == 4) {
            ref::elements_to_state((R)k.m1 + k.m2, k.p, k.e, k.i, k.Omega, (R)k.omega + ref::PI, k.nu, tx, tv);
            ke = 1e-13L;  // rounding of the orbit itself
        }
        R ux = eps * (norm(tx) + s.xs) * n + ke * norm(tx), uv = eps * (norm(tv) + s.vs) * n + ke * norm(tv);
        V sx, sv;
        REQUIRE(C, a.size() == g.size(), "cluster changed its size");
        V shift = px ? tx - s.x : V(), kick = pv ? tv - s.v : V();
        for (size_t i = 0; i < a.size(); ++i) {
            REQUIRE(C, (R)a[i].mass == g[i].m, "a mass changed: ", form, " ", show(g));
            NEAR(C, "moved position", norm(v3(a[i].pos) - g[i].x - shift), ux, 8, form, " op ", op, " particle ", i, " ", show(g));
            NEAR(C, "moved velocity", norm(v3(a[i].vel) - g[i].v - kick), uv, 8, form, " op ", op, " particle ", i, " ", show(g));
            if (!px) REQUIRE(C, norm(v3(a[i].pos) - g[i].x) == 0, "a position changed: ", form);
            if (!pv) REQUIRE(C, norm(v3(a[i].vel) - g[i].v) == 0, "a velocity changed: ", form);
        }
    };
    auto x = vec<T>(X), v = vec<T>(Vc);
    auto act = [&](auto&... c) {
        switch (op) {
            case 0: orbit::move_particles_pos(x, c...); break;
            case 1: orbit::move_particles_vel(v, c...); break;
            case 2: orbit::move_particles(x, v, c...); break;
            case 3: orbit::move_to_COM_frame(c...); break;
        }
    };
    if (op < 4) {
        auto a = make_all<P>(g);
        act(a);
        judge("vector", a);
        if (g.size() == 1) { auto b = make_all<P>(g); act(b[0]); judge("single particle", b); }
        if (g.size() == 3) { std::array<P, 3> b{make<P>(g[0]), make<P>(g[1]), make<P>(g[2])}; act(b); judge("array", {b[0], b[1], b[2]}); }
    }
    if (op < 4 && g.size() >= 2 && g.size() <= 6) {
        auto b = make_all<P>(g);
        spread(b, [&](auto&... p) { act(p...); });
        judge("separate particles", b);
    }
    if constexpr (std::is_same_v<T, double>)
        if (op == 4) {
            auto b = make_all<P>(g);
            if (g.size() == 1) orbit::move_particles(k, b[0]);
            else if (g.size() <= 6) spread(b, [&](auto&... p) { orbit::move_particles(k, p...); });
            else return;
            judge("orbit", b);
        }
}
LAW("placing a cluster",
    "moving a cluster to a position, velocity, both, the centre-of-mass frame or onto a Kepler orbit shifts every particle by the same amount, puts the centre of mass there and leaves the rest alone; "
    "non-trivial: at least 2 particles",
    200000, 4000000) {
    Group g = any(C, 1, C.chance(1, 8) ? 60 : 8);
    int op = (int)C.choice(4);
    V X = rd(place(C, 10)), Vc = rd(place(C, 1));
    orbit::KeplerOrbit<double> k(C.logreal(0.1, 10), C.logreal(0.1, 10), C.logreal(0.1, 100), C.real(0, 0.9), C.real(0, 3.1), C.real(-3, 3), C.real(-3, 3), C.real(-3, 3));
    C.note("operation ", op, " ", show(g));
    C.nontrivial(g.size() > 1);
    switch (C.choice(2)) {
        case 0: return moves<Point<double>>(C, g, op, X, Vc, k);
        case 1: return moves<Sized<double>>(C, g, op, X, Vc, k);
        default: return moves<Point<long double>>(C, g, op == 4 ? 3 : op, X, Vc, k);
    }
}

template <class P, class A, class B> void pair_values(Case& C, Group const& ga, Group const& gb, A const& a, B const& b, std::string form) {
    using T = typename P::Scalar;
    Sum s = sum(ga), q = sum(gb);
    std::string w = form + " " + show(ga) + " and " + show(gb);
    bool sized = std::is_same_v<P, Sized<T>>;
    R eps = eps_of<T>(), n = ga.size() + gb.size(), u = s.m + q.m;
    V dr = s.x - q.x, dv = s.v - q.v;
    R r = norm(dr), v = norm(dv);
    R er = eps * n * (4 + (s.xs + q.xs) / r), ev = eps * n * (4 + (s.vs + q.vs) / v);  // relative error of dr and dv
    R al = 2 / r - v * v / u, ax = 1 / al;
    V E = dr * (v * v / u - 1 / r) - dv * (dot(dr, dv) / u);
    R e = norm(E), ealpha = 2 / r * er + v * v / u * 2 * ev, dE = (er + ev) * 2 * (1 + r * v * v / u) + eps * 4;
    R da = std::fabs(ax) * ealpha / std::fabs(al);
    NEAR(C, "reduced mass", std::fabs((R)orbit::M_rdc(a, b) - s.m * q.m / u), eps * n * s.m * q.m / u, 8, w);
    R s1 = ga.size() > 1 || sized ? s.size : 0, s2 = gb.size() > 1 || sized ? q.size : 0;
    R es = eps * 4 + (ga.size() > 1 ? eps * s.xs / s.size * 2 : 0) + (gb.size() > 1 ? eps * q.xs / q.size * 2 : 0);
    R want = -s.m * q.m * (s1 + s2) / (r * r);
    NEAR(C, "tidal energy", std::fabs((R)orbit::E_tid(a, b) - want), std::fabs(want) * (2 * er + es), 8, w);
    R f1 = q.m / s.m * std::pow(s1 / r, 3), f2 = s.m / q.m * std::pow(s2 / r, 3);
    auto [t1, t2] = orbit::tidal_factor(a, b);
    NEAR(C, "tidal factor 1", std::fabs((R)t1 - f1), f1 * 3 * (er + es), 8, w);
    NEAR(C, "tidal factor 2", std::fabs((R)t2 - f2), f2 * 3 * (er + es), 8, w);
    T R1 = (T)0.25, R2 = (T)3;
    auto [g1, g2] = orbit::tidal_factor(a, b, R1, R2);
    NEAR(C, "tidal factor of given sizes", std::fabs((R)g1 - q.m / s.m * std::pow(0.25L / r, 3)), q.m / s.m * std::pow(0.25L / r, 3) * 3 * er, 8, w);
    NEAR(C, "tidal factor of given sizes", std::fabs((R)g2 - s.m / q.m * std::pow(3 / r, 3)), s.m / q.m * std::pow(3 / r, 3) * 3 * er, 8, w);
    R we = -s.m * q.m * 3.25L / (r * r);
    NEAR(C, "tidal energy of given sizes", std::fabs((R)orbit::E_tid(a, b, R1, R2) - we), std::fabs(we) * 2 * er, 8, w);
    if constexpr (is_ranges_v<A> && is_ranges_v<B>) {
        T f = (T)0.01;
        R tr = std::pow(s.m / ((R)f * q.m), 1.0L / 3) * s2;
        R e3 = std::is_same_v<T, long double> ? 1e-16L * 20 : 0;  // the exponent 1/3 is a double
        NEAR(C, "tidal radius", std::fabs((R)orbit::tidal_radius(f, a, b) - tr), tr * (eps * n + es + e3), 16, w);
        tr = std::pow(s.m / ((R)f * q.m), 1.0L / 3) * 3;
        NEAR(C, "tidal radius of given size", std::fabs((R)orbit::tidal_radius(f, a, b, R2) - tr), tr * (eps * n + e3), 16, w);
    }
    if (!(dE < 1e-6L) || !(ealpha < 1e-6L * std::fabs(al))) { C.label("relative orbit ill-conditioned"); return; }
    NEAR(C, "eccentricity", std::fabs((R)orbit::calc_eccentricity(a, b) - e), dE, 8, w);
    NEAR(C, "semi-major axis", std::fabs((R)orbit::calc_semi_major_axis(a, b) - ax), da, 8, w);
    auto [ca, ce] = orbit::calc_a_e(a, b);
    NEAR(C, "eccentricity of calc_a_e", std::fabs((R)ce - e), dE, 8, w);
    NEAR(C, "semi-major axis of calc_a_e", std::fabs((R)ca - ax), da, 8, w);
    if (ax > 0) {
        R P0 = 2 * ref::PI * std::sqrt(ax * ax * ax / u);
        NEAR(C, "period", std::fabs((R)orbit::period(a, b) - P0), P0 * (1.5L * da / ax + eps * 8 + (eps < 1e-17L ? 1e-16L : 0)), 8, w);
    }
    if constexpr (std::is_same_v<T, double>) {
        R l = norm(cross(dr, dv));
        if (std::fabs(e - 1) < 1e-3L || e < 1e-3L || l < r * v * 1e-3L) return;
        R p = l * l / u, c = std::max<R>(-1, std::min<R>(1, (p / r - 1) / e)), nu = std::acos(c), sn = std::sin(nu);
        R d = (2 * (er + ev) * r * v / l * p / r + dE + eps * 8) * 4 / e;  // error of cos nu
        R dnu = std::min(std::sqrt(2 * d), d / std::max<R>(sn, 1e-30L));
        R M, dM, n0 = std::sqrt(std::fabs(ax * ax * ax) / u);
        if (e < 1) {
            R En = 2 * std::atan2(std::sqrt(1 - e) * std::sin(nu / 2), std::sqrt(1 + e) * std::cos(nu / 2));
            M = En - e * std::sin(En);
            dM = std::pow(1 - e * e, 1.5L) / std::pow(1 + e * c, 2) * dnu * 1.5L + dE * (std::fabs(std::sin(En)) + std::fabs(sn) * 2 / (1 - e));
        } else {
            R F = 2 * std::atanh(std::min<R>(1, std::sqrt((e - 1) / (e + 1)) * std::tan(nu / 2)));
            if (!(F < 12)) return;
            M = e * std::sinh(F) - F;
            dM = std::pow(e * e - 1, 1.5L) / std::pow(1 + e * c, 2) * (dnu * 1.5L + dE * 4) + dE * (std::sinh(F) * (1 + 4 * e / (e - 1)));
            if (!(dM < 1e-6L * M) || !(dnu * e < 1e-3L * (1 + e * c))) return;
        }
        R t = n0 * M;
        NEAR(C, e < 1 ? "time to periapsis, bound" : "time to periapsis, unbound", std::fabs((R)orbit::time_to_periapsis(a, b) - t), n0 * dM + t * (1.5L * da / std::fabs(ax) + eps * 8), 8,
             w, " a=", ax, " e=", e, " nu=", nu);
    }
}
template <class P> void pairs(Case& C, Group const& ga, Group const& gb) {
    auto a = make_all<P>(ga), b = make_all<P>(gb);
    pair_values<P>(C, ga, gb, a, b, "vectors");
    if (ga.size() == 1) pair_values<P>(C, ga, gb, a[0], b, "particle and vector");
    if (gb.size() == 1) pair_values<P>(C, ga, gb, a, b[0], "vector and particle");
    if (ga.size() == 1 && gb.size() == 1) pair_values<P>(C, ga, gb, a[0], b[0], "particles");
    if (gb.size() == 2) { std::array<P, 2> c{b[0], b[1]}; pair_values<P>(C, ga, gb, a, c, "vector and array"); }
}
LAW("values of two clusters",
    "two clusters of 1-4 particles (or single particles) on bound or unbound mutual orbits: reduced mass, tidal energy, factors and radius, semi-major axis, eccentricity, period and time to the "
    "periapsis (its magnitude) against long-double formulas; non-trivial: one of them has at least 2 members",
    200000, 4000000) {
    size_t n1 = C.integer(1, 4), n2 = C.integer(1, 4);
    R D = C.logreal(1e-1, 1e2);
    V X = place(C, D), U = C.boolean() ? V() : gen::unit(C) * C.logreal(1e-2, 10);
    Group a = group(C, n1, D * C.logreal(1e-3, 0.5), C.logreal(1e-2, 1), X, U);
    Group b = group(C, n2, D * C.logreal(1e-3, 0.5), C.logreal(1e-2, 1), X + gen::unit(C) * D, U);
    Sum s = sum(a), q = sum(b);
    // relative velocity of the centres of mass: bound to strongly hyperbolic
    V dir = gen::unit(C), dr = s.x - q.x;
    if (C.chance(1, 3)) {  // at an apsis
        C.label("apsis");
        V t = cross(dr, dir);
        if (norm(t) > 0.1L * norm(dr)) dir = t / norm(t);
    }
    V dv = dir * (std::sqrt((s.m + q.m) / D) * C.logreal(0.1, 10)) - (s.v - q.v);
    for (auto& z : a) z.v = rd(z.v + dv);
    if (norm(s.x - q.x) < D * 0.05L) C.discard();
    C.note(show(a), " and ", show(b));
    C.nontrivial(n1 + n2 > 2);
    switch (C.choice(2)) {
        case 0: return pairs<Sized<double>>(C, a, b);
        case 1: return pairs<Point<double>>(C, a, b);
        default: return pairs<Sized<long double>>(C, a, b);
    }
}
