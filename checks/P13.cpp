// P13: tidal and gas forces follow their formulas for every pair, act along the stated directions and obey action = reaction
#include "force_sys.hpp"
#include "interaction/static-gas-drag.hpp"
#include "interaction/disk-capture-star.hpp"
using namespace hub;
using namespace fs;
using pbt::Case;

double hub::force::AlphaDisk::Q{1}, hub::force::AlphaDisk::alpha{0.1}, hub::force::AlphaDisk::lambda{1};
int hub::force::AlphaDisk::force{0};

struct Expected { std::vector<V> a; std::vector<R> size; };
static Expected zero(size_t n) { return {std::vector<V>(n), std::vector<R>(n, 0)}; }
static void same(Case& C, std::vector<V> const& got, Expected const& e, R tol, R junk, std::string const& what) {
    for (size_t i = 0; i < got.size(); ++i) {
        V d = got[i] - e.a[i] - junk_vec(junk);
        R allow = tol * (e.size[i] + std::fabs(junk) * 3);
        if (allow > 0) pbt::cal(what, norm(d) / allow);
        REQUIRE(C, norm(d) <= 64 * allow, what, ": particle ", i, " of ", got.size(), ": got (", got[i].x, ",", got[i].y, ",", got[i].z, ") expected (",
                e.a[i].x, ",", e.a[i].y, ",", e.a[i].z, ")+junk ", junk, "; off by ", norm(d), " allowed ", 64 * allow);
    }
}
template <class P, class I> using ArLogH = hub::system::ARchainSystem<P, I, hub::system::ReguType::LogH>;
using TD = Types<double, Vec3>;
using TL = Types<long double, Vec3>;
using TK = Types<double_k, Vec3>;

struct Star { R rad, k, tau; };
template <template <class, class> class Sys, class T> void tidal(Case& C, std::vector<Body> const& b, std::vector<Star> const& st, std::string name) {
    using S = Sys<particles::TideParticles<T>, force::Interactions<force::NewtonianGrav, force::Tidal>>;
    using Sc = typename S::Scalar;
    S s = make_with<S>(b, [&](size_t i, Body const& q) {
        return typename S::Particle((Sc)q.m, (Sc)st[i].rad, (Sc)st[i].k, (Sc)st[i].tau, (Sc)q.x[0], (Sc)q.x[1], (Sc)q.x[2], (Sc)q.v[0], (Sc)q.v[1], (Sc)q.v[2]);
    });
    size_t n = b.size();
    Expected e = zero(n);
    auto k = pair_slack(s, b, true);
    V mom;
    R momsize = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (i != j) {  // bulge raised on i by j (Hut 1981): pulls i and j together
                V d = pos(b[j]) - pos(b[i]), w = vel(b[j]) - vel(b[i]);
                R r = norm(d), rd = dot(w, d) / r;
                R R5 = std::pow(st[i].rad, 5), base = 3 * st[i].k * b[j].m * b[j].m * R5 / std::pow(r, 7);
                R f = base * (1 + 3 * st[i].tau * rd / r);
                R mag = base * (1 + 3 * st[i].tau * norm(w) / r) * k[i][j];
                e.a[i] += d / r * (f / b[i].m);
                e.a[j] -= d / r * (f / b[j].m);
                e.size[i] += std::fabs(mag / b[i].m);
                e.size[j] += std::fabs(mag / b[j].m);
            }
    R junk = C.boolean() ? 0 : (R)C.real(-1, 1);
    auto got = call(s, junk, [&](auto& a) { force::Tidal::add_acc_to(s, a); });
    same(C, got, e, epsilon<S>(), junk, name + " tidal");
    auto ev = call(s, junk, [&](auto& a) { S::Interaction::eval_extra_acc(s, a); });
    same(C, ev, e, epsilon<S>(), 0, name + " tidal evaluator");
    for (size_t i = 0; i < n; ++i) { mom += ev[i] * b[i].m; momsize += b[i].m * e.size[i]; }
    REQUIRE(C, norm(mom) <= 200 * epsilon<S>() * momsize, name, ": tidal forces do not sum to zero: ", norm(mom), " of ", momsize);
}
LAW("tidal forces",
    "2-12 bodies with radii, apsidal constants and lag times (some zero, so that only one side of a pair is deformable) in 5 system types against the equilibrium-tide formula "
    "(64 eps of the summed magnitudes) and zero total force; non-trivial: at least one deformable body",
    25000, 1000000) {
    auto b = config(C, 2, 12);
    std::vector<Star> st;
    R L = norm(pos(b[0]) - pos(b[1]));
    bool any = false;
    for (size_t i = 0; i < b.size(); ++i) {
        Star q{(double)(L * C.logreal(1e-3, 0.5)), C.chance(1, 3) ? 0 : (R)C.logreal(1e-3, 1), C.chance(1, 3) ? 0 : (R)C.logreal(1e-6, 1)};
        any = any || q.k != 0;
        st.push_back(q);
    }
    C.nontrivial(any);
    switch (C.choice(4)) {
        case 0: return tidal<hub::system::SimpleSystem, TD>(C, b, st, "simple/double");
        case 1: return tidal<hub::system::ChainSystem, TD>(C, b, st, "chain/double");
        case 2: return tidal<hub::system::SimpleSystem, TK>(C, b, st, "simple/double_k");
        case 3: return tidal<hub::system::ChainSystem, TL>(C, b, st, "chain/long double");
        default: return tidal<ArLogH, TD>(C, b, st, "AR-chain/double");
    }
}

LAW("static gas drag",
    "1-12 bodies moving sub- and supersonically through gas at rest: deceleration c m v below the sound speed, 3 sqrt(pi/2) c cs^3 m / v^2 above it; "
    "non-trivial: both regimes occur",
    15000, 500000) {
    using S = hub::system::SimpleSystem<particles::DragParticles<TD>, force::Interactions<force::NewtonianGrav, force::StaticGasDrag>>;
    auto b = config(C, 1, 12);
    std::vector<std::array<R, 2>> g;
    size_t n = b.size(), sub = 0;
    Expected e = zero(n);
    for (size_t i = 0; i < n; ++i) {
        R u = norm(vel(b[i])), c = (double)C.logreal(1e-6, 10), cs = (double)(u * C.logreal(0.05, 20));
        if (C.chance(1, 8)) { set_vel(b[i], V()); u = 0; cs = 1; }
        if (std::fabs(u / cs - 1) < 1e-12L) C.discard();
        g.push_back({c, cs});
        R f = u < cs ? c * b[i].m : 3 * std::sqrt(ref::PI / 2) * c * cs * cs * cs * b[i].m / (u * u * u);
        sub += u < cs;
        e.a[i] = vel(b[i]) * -f;
        e.size[i] = f * u;
    }
    C.nontrivial(sub > 0 && sub < n);
    S s = make_with<S>(b, [&](size_t i, Body const& q) {
        return S::Particle((double)q.m, (double)g[i][0], (double)g[i][1], (double)q.x[0], (double)q.x[1], (double)q.x[2], (double)q.v[0], (double)q.v[1], (double)q.v[2]);
    });
    R junk = C.boolean() ? 0 : (R)C.real(-1, 1);
    same(C, call(s, junk, [&](auto& a) { force::StaticGasDrag::add_acc_to(s, a); }), e, 2.3e-16L, junk, "static drag");
    same(C, call(s, junk, [&](auto& a) { S::Interaction::eval_extra_vel_dep_acc(s, a); }), e, 2.3e-16L, 0, "static drag evaluator");
}

// --- discs around particle 0 -------------------------------------------------------------------------------------
struct Gas { R rho, cs; V v; };
static V rot_v(V d, R v) { R rr = std::sqrt(d.x * d.x + d.y * d.y); return V(-v * d.y / rr, v * d.x / rr, 0); }
static R alpha_I(R M) {  // Ostriker (1999), with a cubic joining the two branches around Mach 1
    const R lr = 3, eps = std::exp(-2 * lr / 3), x1 = 1 - eps, x2 = 1 + eps;
    auto sup = [&](R m) { return (0.5L * std::log(1 - 1 / (m * m)) + lr) / (m * m); };
    auto sub = [&](R m) { return m < 0.02L ? m / 3 : (0.5L * std::log((1 + m) / (1 - m)) - m) / (m * m); };
    if (M > x2) return sup(M);
    if (M < 0.1L) return M / 3;
    if (M < x1) return sub(M);
    R h = 1e-6L, k1 = (sub(x1 + h) - sub(x1 - h)) / (2 * h), k2 = (sup(x2 + h) - sup(x2 - h)) / (2 * h), y1 = sub(x1), y2 = sup(x2);
    R t = (M - x1) / (x2 - x1), D = x2 - x1;  // Hermite
    return (1 + 2 * t) * (1 - t) * (1 - t) * y1 + t * (1 - t) * (1 - t) * D * k1 + t * t * (3 - 2 * t) * y2 + t * t * (t - 1) * D * k2;
}
struct DiscSys {
    using S = hub::system::SimpleSystem<particles::SizeParticles<TD>, force::Interactions<force::NewtonianGrav>>;
};
using DS = DiscSys::S;
static std::vector<Body> disc_bodies(Case& C, R rmin, R rmax, std::vector<R>& rad, int* comoving) {
    size_t n = C.integer(2, 6);
    std::vector<Body> b(n);
    b[0].m = C.logreal(1e5, 1e9);
    V c, w;
    if (C.boolean()) { c = gen::unit(C) * C.real(0, 1000); w = gen::unit(C) * C.real(0, 100); }
    set_pos(b[0], c); set_vel(b[0], w);
    rad.push_back(1);
    *comoving = -1;
    for (size_t i = 1; i < n; ++i) {
        R r = C.logreal((double)rmin, (double)rmax), ph = C.real(0, 2 * M_PI), inc = C.chance(1, 2) ? C.logreal(1e-4, 0.05) : C.real(0, 1.4), vk = std::sqrt(b[0].m / r);
        b[i].m = C.logreal(0.5, 200);
        V d(r * std::cos(ph), r * std::sin(ph) * std::cos(inc), r * std::sin(ph) * std::sin(inc));
        V u(-vk * std::sin(ph), vk * std::cos(ph) * std::cos(inc), vk * std::cos(ph) * std::sin(inc));
        if (C.chance(1, 3)) u = u * C.real(0.5, 1.4);
        if (C.chance(1, 4)) u = -u;
        if (C.chance(1, 3)) u = u + gen::unit(C) * (vk * C.logreal(1e-4, 0.5));
        set_pos(b[i], c + d); set_vel(b[i], w + u);
        rad.push_back((double)C.logreal(1e-4, 1));
    }
    round_double(b);
    for (size_t i = 1; i < n; ++i) { V d = pos(b[i]) - pos(b[0]); if (std::sqrt(d.x * d.x + d.y * d.y) < 1e-3L * norm(d)) C.discard(); }
    return b;
}
static DS disc_system(std::vector<Body> const& b, std::vector<R> const& rad) {
    return make_with<DS>(b, [&](size_t i, Body const& q) {
        return DS::Particle((double)q.m, (double)rad[i], (double)q.x[0], (double)q.x[1], (double)q.x[2], (double)q.v[0], (double)q.v[1], (double)q.v[2]);
    });
}
// force magnitude f(mach, v2, i) against -v_rel, with the reaction on particle 0
template <class G, class F> Expected drag(std::vector<Body> const& b, G gas, F mag, R* worst) {
    Expected e = zero(b.size());
    *worst = 1;
    for (size_t i = 1; i < b.size(); ++i) {
        V d = pos(b[i]) - pos(b[0]), dv = vel(b[i]) - vel(b[0]);
        Gas g = gas(d);
        V w = dv - g.v;
        R u = norm(w), f = mag(i, g, u, u / g.cs);
        R k = 1 + (norm(dv) + norm(g.v)) / u;  // cancellation in the relative velocity
        *worst = std::max(*worst, k);
        e.a[i] += w / u * (-f / b[i].m);
        e.a[0] += w / u * (f / b[0].m);
        e.size[i] += f / b[i].m * k;
        e.size[0] += f / b[0].m * k;
    }
    return e;
}
static bool near(R x, R y, R tol) { return std::fabs(x / y - 1) < tol; }

LAW("alpha disc drag",
    "1-5 bodies crossing or embedded in an alpha disc (Q, alpha, lambda, force mode generated): gaseous dynamical friction plus aerodynamic drag against the formulas, opposite to the "
    "motion relative to the gas, equal and opposite on the central body; non-trivial: some body moves supersonically or transonically",
    12000, 400000) {
    std::vector<R> rad;
    int co;
    auto b = disc_bodies(C, 10, 1e5, rad, &co);
    using A = force::AlphaDisk;
    A::Q = C.real(1, 3); A::alpha = C.logreal(0.01, 1); A::lambda = C.logreal(0.1, 10); A::force = (int)C.integer(-1, 1);
    DS s = disc_system(b, rad);
    R M = b[0].m;
    bool fast = false, edge = false;
    R worst;
    auto gas = [&](V d) {
        R r = std::sqrt(d.x * d.x + d.y * d.y), Om = std::sqrt(M / (r * r * r));
        R mdot = A::lambda * 0.22L * (M / 1e7L) / (2 * ref::PI), H = std::cbrt(A::Q / 2 / A::alpha * mdot / M / Om) * r;
        return Gas{M / (2 * A::Q * ref::PI * r * r * r) * std::exp(-d.z * d.z / (2 * H * H)) * 1000, Om * H, rot_v(d, std::sqrt(M / r))};
    };
    auto e = drag(b, gas, [&](size_t i, Gas const& g, R u, R mach) {
        if (mach > 0.6L) fast = true;
        R x = std::exp(-2.0L);
        if (near(mach, 0.1L, 1e-9) || near(mach, 1 - x, 1e-9) || near(mach, 1 + x, 1e-9)) edge = true;
        R df = alpha_I(mach) * 4 * ref::PI * b[i].m * b[i].m / (g.cs * g.cs) * g.rho, aero = 4 * ref::PI * rad[i] * rad[i] * g.rho * u * u;
        return A::force == 1 ? df : A::force == -1 ? aero : df + aero;
    }, &worst);
    if (edge || worst > 1e5L) C.discard();
    C.nontrivial(fast);
    for (size_t i = 0; i < b.size(); ++i)  // exp(-z^2/2H^2) far above the disc amplifies rounding of z/H: discard what underflows
        if (i && e.size[i] < 1e-200L) C.discard();
    R zh = 1;
    for (size_t i = 1; i < b.size(); ++i) { V d = pos(b[i]) - pos(b[0]); R r = std::sqrt(d.x * d.x + d.y * d.y), Om = std::sqrt(M / (r * r * r)); R H = gas(d).cs / Om; zh = std::max(zh, d.z * d.z / (H * H) * (1 + norm(pos(b[0])) / r)); }
    R tol = 1e-12L + 1e-15L * zh;
    same(C, call(s, 0, [&](auto& a) { A::add_acc_to(s, a); }), e, tol, 0, "alpha disc");
}
LAW("drag on bodies moving with the gas", "a body exactly co-moving with an alpha disc, magnetised disc or thin disc feels no drag, and no result is NaN; non-trivial: always", 500, 20000) {
    R M = (double)C.logreal(1e5, 1e9), r = (double)C.logreal(100, 1e4);
    std::vector<Body> b(2);
    b[0].m = M; b[1].m = C.logreal(0.1, 100);
    b[1].m = (double)b[1].m;
    int quarter = C.integer(0, 3);
    R cx[] = {1, 0, -1, 0}, sx[] = {0, 1, 0, -1};
    double v = std::sqrt((double)M / (double)r);
    set_pos(b[1], V(r * cx[quarter], r * sx[quarter], 0)); set_vel(b[1], V(-v * sx[quarter], v * cx[quarter], 0));
    int kind = C.integer(0, 2);
    if (kind == 2) {
        Vec3<double> d((double)b[1].x[0], (double)b[1].x[1], (double)b[1].x[2]);
        auto g = force::MagnetoDisk::disk_v(d);
        set_vel(b[1], V(g.x, g.y, g.z));
    }
    C.nontrivial();
    using A = force::AlphaDisk;
    A::Q = 1; A::alpha = 0.1; A::lambda = 1; A::force = (int)C.integer(-1, 1);
    auto run = [&] {
        DS s = disc_system(b, {1, 0.01L});
        return call(s, 0, [&](auto& a) { kind == 0 ? A::add_acc_to(s, a) : kind == 1 ? force::DiskCaptureStar::add_acc_to(s, a) : force::MagnetoDisk::add_acc_to(s, a); });
    };
    auto got = run();
    V ride = vel(b[1]);
    set_vel(b[1], ride * 0.9L);
    auto slow = run();
    for (size_t i = 0; i < 2; ++i)
        REQUIRE(C, norm(got[i]) <= 1e-9L * norm(slow[i]), "disc ", kind, " acts on a co-moving body: (", got[i].x, ",", got[i].y, ",", got[i].z, "), at 0.9 of the speed it would be ", norm(slow[i]));
}
LAW("thin disc capture drag", "1-5 bodies, aerodynamic drag pi R^2 rho v^2 of a Q = alpha = lambda = 1 disc on each and its reaction; non-trivial: always", 6000, 200000) {
    std::vector<R> rad;
    int co;
    auto b = disc_bodies(C, 10, 1e5, rad, &co);
    DS s = disc_system(b, rad);
    R M = b[0].m, worst, zh = 1;
    auto gas = [&](V d) {
        R r = std::sqrt(d.x * d.x + d.y * d.y), Om = std::sqrt(M / (r * r * r));
        R mdot = 0.22L * (M / 1e7L) / (2 * ref::PI), H = std::cbrt(0.5L * mdot / M / Om) * r;
        zh = std::max(zh, d.z * d.z / (H * H) * (1 + norm(pos(b[0])) / r));
        return Gas{M / (2 * ref::PI * r * r * r) * std::exp(-d.z * d.z / (2 * H * H)), Om * H, rot_v(d, std::sqrt(M / r))};
    };
    auto e = drag(b, gas, [&](size_t i, Gas const& g, R u, R) { return ref::PI * rad[i] * rad[i] * g.rho * u * u; }, &worst);
    for (size_t i = 1; i < b.size(); ++i) if (e.size[i] < 1e-200L) C.discard();
    if (worst > 1e5L) C.discard();
    C.nontrivial();
    same(C, call(s, 0, [&](auto& a) { force::DiskCaptureStar::add_acc_to(s, a); }), e, 1e-13L + 1e-15L * zh, 0, "thin disc");
}

// piecewise-linear table lookup, cells found by search
static R table(R x, std::vector<double> const& X, std::vector<double> const& Y) {
    size_t i = 1;
    while (i + 1 < X.size() && X[i] <= x) ++i;
    return Y[i - 1] + (x - X[i - 1]) * ((R)Y[i] - Y[i - 1]) / ((R)X[i] - X[i - 1]);
}
LAW("magnetised disc profiles and drag",
    "radii inside, across and outside the tabulated range: density, height, rotation and friction factor interpolate the tables linearly (constant outside, Mach/3 below and 0 above the "
    "friction table) and drag follows the formula; non-trivial: a radius within the table",
    15000, 400000) {
    using namespace force;
    auto const& X = _mag_disk_lgr_cgs;
    std::vector<R> rad;
    int co;
    R cm = (R)unit::cm;
    auto lgr = [&](R r) { return std::log10(r / cm); };
    auto b = disc_bodies(C, std::pow(10.0L, X.front() - 0.5L) * cm, std::pow(10.0L, X.back() + 0.5L) * cm, rad, &co);
    DS s = disc_system(b, rad);
    bool in = false;
    R worst, bent = 1;
    auto lookup = [&](R r, std::vector<double> const& Y) {
        R l = lgr(r);
        return l < X.front() ? (R)Y.front() : l >= X.back() ? (R)Y.back() : table(l, X, Y);
    };
    for (size_t i = 1; i < b.size(); ++i) {
        V d = pos(b[i]) - pos(b[0]);
        R r = std::sqrt(d.x * d.x + d.y * d.y);
        if (near(lgr(r), X.front(), 1e-9) || near(lgr(r), X.back(), 1e-9)) C.discard();
        in = in || (lgr(r) > X.front() && lgr(r) < X.back());
        Vec3<double> dd((double)d.x, (double)d.y, (double)d.z);
        R rr = std::sqrt((R)dd.x * dd.x + (R)dd.y * dd.y);
        R rho = std::pow(10.0L, lookup(rr, _mag_disk_lgrho_cgs)) / 5.893333333333333e-07L, H = std::pow(10.0L, lookup(rr, _mag_disk_lgH_cgs)) / 1.5e13L;
        R v = lookup(rr, _mag_disk_v_cgs) * 3.357318203286629e-07L;
        REQUIRE(C, std::fabs(MagnetoDisk::disk_rho(dd) / rho - 1) < 1e-9, "density at ", rr, ": ", MagnetoDisk::disk_rho(dd), " expected ", rho);
        REQUIRE(C, std::fabs(MagnetoDisk::disk_H(dd) / H - 1) < 1e-9, "height at ", rr, ": ", MagnetoDisk::disk_H(dd), " expected ", H);
        auto gv = MagnetoDisk::disk_v(dd);
        V ev = rot_v(V(dd.x, dd.y, dd.z), v);
        REQUIRE(C, norm(V(gv.x, gv.y, gv.z) - ev) < 1e-9L * (std::fabs(v) + 1e-3L), "gas velocity at ", rr, ": (", gv.x, ",", gv.y, ",", gv.z, ") expected (", ev.x, ",", ev.y, ",", ev.z, ")");
        bent = std::max(bent, 1 + norm(pos(b[0])) / norm(d));
    }
    C.nontrivial(in);
    // friction factor on its own, including the very ends of its table
    R lg = C.chance(1, 5) ? (R)C.pick(std::vector<double>{-1.0, std::nextafter(2.0, 1.0), 2 - 1e-15, 2 - 4e-15, -1 + 1e-15, 1.9999}) : (R)C.real(-1.5, 2.5);
    double mach = (double)std::pow(10.0L, lg);
    auto factor = [&](R m) { R l = std::log10(m); return l < _GDF_lgM.front() ? m / 3 : l >= _GDF_lgM.back() ? 0.0L : table(l, _GDF_lgM, _GDF_I); };
    double got = MagnetoDisk::GDF_I(mach);
    R want = factor(mach), alt = factor(mach * (1 + 4e-16L)), alt2 = factor(mach * (1 - 4e-16L));
    bool ok = false;
    for (R w : {want, alt, alt2}) ok = ok || std::fabs(got - w) < 1e-11L * (1 + std::fabs(w));
    REQUIRE(C, ok, "friction factor at Mach ", mach, ": ", got, " expected ", want);
    auto gas = [&](V d) {
        R r = std::sqrt(d.x * d.x + d.y * d.y), d3 = norm(d);
        return Gas{std::pow(10.0L, lookup(r, _mag_disk_lgrho_cgs)) / 5.893333333333333e-07L,
                   std::sqrt(b[0].m / (d3 * d3 * d3)) * std::pow(10.0L, lookup(r, _mag_disk_lgH_cgs)) / 1.5e13L, rot_v(d, lookup(r, _mag_disk_v_cgs) * 3.357318203286629e-07L)};
    };
    bool edge = false;
    auto e = drag(b, gas, [&](size_t i, Gas const& g, R u, R m) {
        if (near(m, 0.1L, 1e-8) || near(m, 100, 1e-8)) edge = true;
        return factor(m) * 4 * ref::PI * b[i].m * b[i].m / (g.cs * g.cs) * g.rho + 4 * ref::PI * rad[i] * rad[i] * g.rho * u * u;
    }, &worst);
    if (edge || worst > 1e5L) C.discard();
    same(C, call(s, 0, [&](auto& a) { MagnetoDisk::add_acc_to(s, a); }), e, 1e-11L * bent, 0, "magnetised disc");
}
