// P15 (common part): the flat state array, kicks, drifts, derivatives and collected increments of every kind of particle system agree
#pragma once
#include "P14_forces.hpp"
#include "force_sys.hpp"
using pbt::Case;
using ref::R;
using ref::V;
using ref::pos;
using ref::vel;
#define NEAR(C, group, err, unit, k, ...)                                                                            \
    do {                                                                                                             \
        R e__ = (err), u__ = (unit);                                                                                 \
        if (u__ > 0) pbt::cal(group, e__ / u__);                                                                     \
        REQUIRE(C, e__ <= (k) * u__, group, ": off by ", e__, ", allowed ", (k) * u__, ": ", __VA_ARGS__);           \
    } while (0)
namespace {
using hub::system::ReguType;
template <class S, class = void> struct regularised : std::false_type {};
template <class S> struct regularised<S, std::void_t<decltype(std::declval<S>().omega())>> : std::true_type {};
template <class S> constexpr ReguType regu() { if constexpr (regularised<S>::value) return S::regu_type; else return ReguType::None; }
template <class S> constexpr bool chained = fs::has_index<S>::value;
template <class S> constexpr bool VD = S::ext_vel_dep;
template <class S> constexpr bool VI = S::ext_vel_indep;
template <class S> struct Kind { bool trap = S::ext_vel_indep, wind = S::ext_vel_dep; };

using Arr = std::vector<R>;
// groups of the state array
template <class S> std::vector<std::pair<size_t, size_t>> groups(S const& s) {
    size_t n = s.number();
    std::vector<std::pair<size_t, size_t>> g{{0, 1}, {1, 1 + 3 * n}, {1 + 3 * n, 1 + 6 * n}};
    size_t e = 1 + 6 * n;
    if (VD<S>) { g.push_back({e, e + 3 * n}); e += 3 * n; }
    if (regularised<S>::value) { g.push_back({e, e + 1}); g.push_back({e + 1, e + 2}); }
    return g;
}
static char const* const group_names[] = {"time", "position", "velocity", "auxiliary velocity", "omega", "bindE"};
template <class S> char const* group_name(size_t k) { return group_names[k >= 3 && !VD<S> ? k + 1 : k]; }
template <class S> Arr array_of(S& s) {
    typename S::StateScalarArray y;
    s.write_to_scalar_array(y);
    Arr r;
    for (size_t i = 0; i < y.size(); ++i) r.push_back((R)y[i]);
    return r;
}
template <class S> void restore(S& s, Arr const& a) {
    typename S::StateScalarArray y;
    for (R q : a) y.emplace_back((typename S::Scalar)q);
    s.read_from_scalar_array(y);
}
struct Cart { R t; std::vector<V> x, v; };
template <class S> Cart cart(S const& s) { return {(R)s.time(), fs::vecs(s.pos()), fs::vecs(s.vel())}; }
template <class S> std::vector<sim::Body> bodies(S const& s, std::vector<sim::Body> b) {
    for (size_t i = 0; i < b.size(); ++i) { set_pos(b[i], V((R)s.pos(i).x, (R)s.pos(i).y, (R)s.pos(i).z)); set_vel(b[i], V((R)s.vel(i).x, (R)s.vel(i).y, (R)s.vel(i).z)); }
    return b;
}
// Newtonian acceleration (ref::) and the extra forces of P14_forces.hpp
static std::vector<V> newton(std::vector<sim::Body> const& b) {
    std::vector<V> a(b.size());
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
            if (i != j) { V d = pos(b[j]) - pos(b[i]); R r = ref::norm(d); a[i] += d * ((R)b[j].m / (r * r * r)); }
    return a;
}
template <class S> std::vector<V> extra(std::vector<sim::Body> const& b) {
    std::vector<V> a(b.size());
    for (size_t i = 0; i < b.size(); ++i) {
        V x = pos(b[i]), v = vel(b[i]);
        if (VI<S>) { R k = 0.03125L * (1 + 0.5L * (i % 3)); a[i] += V(-k * x.x, -2 * k * x.y, -0.5L * k * x.z); }
        if (VD<S>) { R d = 0.015625L * (1 + (i % 2)), w = 0.125L; a[i] += V(-d * v.x + w * v.y, -d * v.y - w * v.x, -d * v.z); }
    }
    return a;
}
template <class S> Arr coords(S const& s, std::vector<V> const& c) {  // as they would appear in the array, without the chain's anchor
    Arr r;
    auto put = [&](V p) { r.push_back(p.x); r.push_back(p.y); r.push_back(p.z); };
    if constexpr (chained<S>) for (size_t k = 0; k + 1 < c.size(); ++k) put(c[s.index()[k + 1]] - c[s.index()[k]]);
    else for (auto& p : c) put(p);
    return r;
}
struct Setup { std::vector<sim::Body> b; R tau; };
// shortest time in which something changes appreciably; the extra forces have time scales of their own
static R time_scale(std::vector<sim::Body> const& b) {
    R U = -ref::potential(b), p = 0, q = 0;
    for (auto& o : b) {
        R e = 0.06L * ref::norm(pos(o)) + 0.13L * ref::norm(vel(o));
        p += (R)o.m * ref::norm(vel(o)) * e; q += (R)o.m * e * e;
    }
    return std::min({(R)gen::time_scale(b), (R)4, p > 0 ? U / p : 4, q > 0 ? std::sqrt(U / q) : 4});
}
static Setup setup(Case& C) {
    Setup u;
    switch (C.choice(2)) {
        case 0: u.b = gen::any_system(C, 2, 6); break;
        case 1: u.b = gen::two_body(C, 0, 0.9L).b; break;
        default: u.b = gen::cloud(C, C.integer(2, 9));
    }
    u.tau = time_scale(u.b);
    return u;
}
template <class S> R largest(S const& s, bool velocity) {
    R m = 0;
    for (size_t i = 0; i < s.number(); ++i) m = std::max(m, velocity ? ref::norm(V((R)s.vel(i).x, (R)s.vel(i).y, (R)s.vel(i).z)) : ref::norm(V((R)s.pos(i).x, (R)s.pos(i).y, (R)s.pos(i).z)));
    return m;
}
template <class S> void op(S& s, int kind, R h) {
    if (kind == 0) s.drift((typename S::Scalar)h); else s.kick((typename S::Scalar)h);
}
// a number of drifts and kicks; the regularised step for one time scale is about scale0 * tau
template <class S> void wander(Case& C, S& s, R h0, int n) { for (int k = 0; k < n; ++k) op(s, C.choice(1), h0 * C.sym(0.2)); }
template <class S> R step_unit(S const& s, R tau) { return tau * (R)s.step_scale(); }

#define SHOW(C, S, u) C.note(name, VD<S> ? " +wind" : "", VI<S> ? " +trap" : "", " ", sim::describe(u.b)); C.label(name)
template <class S> struct Err {  // rounding units of the groups, given what the state and its changes amount to
    Arr unit;
    Err(S& s, std::vector<Arr> const& seen, R eps, std::vector<sim::Body> const& b) {
        auto g = groups(s);
        R x = largest(s, false), v = largest(s, true), K = ref::kinetic(bodies(s, b)), U = -ref::potential(bodies(s, b));
        for (size_t k = 0; k < g.size(); ++k) {
            R m = k == 1 ? x : k == 2 || (VD<S> && k == 3) ? v : 0;
            for (auto& a : seen) for (size_t i = g[k].first; i < g[k].second; ++i) m = std::max(m, std::fabs(a[i]));
            if (g[k].second - g[k].first == 1 && k > 2) m += K + U;
            unit.push_back(eps * m * (2 + s.number()));
        }
    }
};
// ---- 1: layout, write/read -------------------------------------------------------------------------------------------
template <class S> void layout(Case& C, char const* name) {
    auto u = setup(C);
    SHOW(C, S, u);
    auto s = fs::make<S>(u.b);
    size_t n = s.number(), want = 1 + 3 * n * (2 + (VD<S> ? 1 : 0)) + (regularised<S>::value ? 2 : 0);
    R h0 = step_unit(s, u.tau), eps = fs::epsilon<S>();
    wander(C, s, h0, C.integer(0, 6));
    if (C.boolean()) s.pre_iter_process();
    if (C.boolean()) s.post_iter_process();
    C.nontrivial(n > 2);
    auto y = array_of(s);
    REQUIRE(C, s.variable_number() == want, "variable_number() is ", s.variable_number(), " instead of ", want);
    REQUIRE(C, y.size() == want, "the array has ", y.size(), " entries instead of ", want);
    REQUIRE(C, s.time_offset() == 0 && s.pos_offset() == 1 && s.vel_offset() == 1 + 3 * n && s.auxi_vel_offset() == 1 + 6 * n, "offsets of time, position, velocity, auxiliary velocity");
    REQUIRE(C, y[s.time_offset()] == (R)s.time(), "time entry");
    Arr px = coords(s, fs::vecs(s.pos())), pv = coords(s, fs::vecs(s.vel()));
    R lx = largest(s, false), lv = largest(s, true);
    for (size_t i = 0; i < px.size(); ++i) {
        NEAR(C, "position entries", std::fabs(y[s.pos_offset() + i] - px[i]), eps * lx * n, 8, "entry ", i);
        NEAR(C, "velocity entries", std::fabs(y[s.vel_offset() + i] - pv[i]), eps * lv * n, 8, "entry ", i);
    }
    if constexpr (chained<S>) {  // the accessor of the chain shows the same
        for (size_t k = 0; k < n; ++k) {
            REQUIRE(C, (R)s.chain_pos()[k].x == y[s.pos_offset() + 3 * k] && (R)s.chain_pos()[k].z == y[s.pos_offset() + 3 * k + 2], "chain position entry ", k);
            REQUIRE(C, (R)s.chain_vel()[k].x == y[s.vel_offset() + 3 * k] && (R)s.chain_vel()[k].z == y[s.vel_offset() + 3 * k + 2], "chain velocity entry ", k);
        }
    }
    if constexpr (regularised<S>::value) {
        REQUIRE(C, s.omega_offset() == want - 2 && s.bindE_offset() == want - 1, "offsets of omega and bindE");
        REQUIRE(C, y[s.omega_offset()] == (R)s.omega() && y[s.bindE_offset()] == (R)s.bindE(), "omega and bindE entries");
    }
    if constexpr (VD<S>) {
        s.pre_iter_process();
        auto z = array_of(s);
        for (size_t i = 0; i < 3 * n; ++i) REQUIRE(C, z[s.auxi_vel_offset() + i] == z[s.vel_offset() + i], "after pre_iter_process the auxiliary velocity entry ", i, " is not the velocity");
        y = z;
    }
    // saving does not change anything; a saved state is restored after the system has moved on
    auto c = cart(s);
    R om = 0, be = 0;
    if constexpr (regularised<S>::value) { om = (R)s.omega(); be = (R)s.bindE(); }
    typename S::StateScalarArray saved, again;
    s.write_to_scalar_array(saved);
    for (int k = C.choice(3); k > 0; --k) again.emplace_back(1);  // stale content is replaced
    s.write_to_scalar_array(again);
    REQUIRE(C, again.size() == want, "writing into a used array leaves ", again.size(), " entries");
    wander(C, s, h0, C.integer(1, 6));
    if (C.boolean()) s.kick((typename S::Scalar)(h0 * 0.3L));
    s.read_from_scalar_array(C.boolean() ? saved : again);
    auto d = cart(s);
    REQUIRE(C, d.t == c.t, "time ", d.t, " instead of ", c.t);
    for (size_t i = 0; i < n; ++i) {
        NEAR(C, "restored positions", ref::norm(d.x[i] - c.x[i]), eps * lx * n, 8, "particle ", i);
        NEAR(C, "restored velocities", ref::norm(d.v[i] - c.v[i]), eps * lv * n, 8, "particle ", i);
    }
    if constexpr (regularised<S>::value) REQUIRE(C, (R)s.omega() == om && (R)s.bindE() == be, "omega ", (R)s.omega(), "/", om, " bindE ", (R)s.bindE(), "/", be);
    auto z = array_of(s);
    for (size_t i = 0; i < want; ++i) REQUIRE(C, z[i] == y[i], "entry ", i, " is ", z[i], " after reading ", y[i]);
    // and continues as the original would: the state is all there is
    auto t = fs::make<S>(u.b);
    wander(C, t, h0, 3);
    if constexpr (!chained<S>) {
        t.read_from_scalar_array(saved);
        for (int k = C.integer(1, 4); k > 0; --k) { int kind = C.choice(1); R h = h0 * C.sym(0.2); op(s, kind, h); op(t, kind, h); }
        auto a = array_of(s), b = array_of(t);
        for (size_t i = 0; i < want; ++i) REQUIRE(C, a[i] == b[i], "two systems with the same array part ways: entry ", i, " ", a[i], " and ", b[i]);
    }
}
// ---- 2: drifts and kicks ---------------------------------------------------------------------------------------------
template <class S> R drift_time(S const& s, std::vector<sim::Body> const& b, R h) {
    if constexpr (regularised<S>::value) {
        if (regu<S>() == ReguType::LogH) return h / ((R)s.bindE() + ref::kinetic(bodies(s, b)));
        if (regu<S>() == ReguType::TTL) return h / (R)s.omega();
    }
    return h;
}
template <class S> R kick_time(S const& s, std::vector<sim::Body> const& b, R h) { return regu<S>() == ReguType::None ? h : h / -ref::potential(bodies(s, b)); }
template <class S> void leapfrog(Case& C, char const* name) {
    auto u = setup(C);
    SHOW(C, S, u);
    auto s = fs::make<S>(u.b);
    size_t n = s.number();
    R eps = fs::epsilon<S>(), h0 = step_unit(s, u.tau);
    wander(C, s, h0, C.integer(0, 4));
    if (C.boolean()) s.post_iter_process();
    s.pre_iter_process();
    int kind = C.choice(1);
    R h = (R)(double)(h0 * (C.boolean() ? 1 : -1) * C.logreal(1e-3, 0.5));
    C.note(kind ? "kick " : "drift ", h);
    C.nontrivial(n > 2);
    auto B0 = bodies(s, u.b);
    auto c0 = cart(s);
    auto y0 = array_of(s);
    R E = ref::kinetic(B0) - ref::potential(B0);
    R dtd = drift_time(s, u.b, h), dtk = kick_time(s, u.b, h);
    R x0 = largest(s, false), v0 = largest(s, true);
    R kap = 1 + (regu<S>() == ReguType::LogH ? E / std::fabs(h / dtd) : 0);  // the drift's time is a difference of energies
    op(s, kind, h);
    auto c1 = cart(s);
    auto y1 = array_of(s);
    auto slack = fs::pair_slack(s, B0);
    if (kind == 0) {
        NEAR(C, "drift: time", std::fabs(c1.t - c0.t - dtd), eps * (std::fabs(c0.t) + std::fabs(dtd) * kap) * n, 16, "advanced by ", c1.t - c0.t, " instead of ", dtd);
        for (size_t i = 0; i < n; ++i)
            NEAR(C, "drift: positions", ref::norm(c1.x[i] - c0.x[i] - c0.v[i] * dtd), eps * n * (x0 + v0 * std::fabs(dtd) * kap), 16, "particle ", i);
        auto g = groups(s);
        for (size_t i = g[2].first; i < y0.size(); ++i) REQUIRE(C, y1[i] == y0[i], "a drift changes entry ", i, " from ", y0[i], " to ", y1[i]);
        for (size_t i = 0; i < n; ++i) REQUIRE(C, c1.v[i].x == c0.v[i].x && c1.v[i].y == c0.v[i].y && c1.v[i].z == c0.v[i].z, "a drift changes the velocity of particle ", i);
    } else {
        for (size_t i = 0; i <= 3 * n; ++i) REQUIRE(C, y1[i] == y0[i], "a kick changes entry ", i, " from ", y0[i], " to ", y1[i]);
        for (size_t i = 0; i < n; ++i) REQUIRE(C, c1.x[i].x == c0.x[i].x && c1.x[i].y == c0.x[i].y && c1.x[i].z == c0.x[i].z, "a kick moves particle ", i);
        R amax = 0, worst = 1;
        auto a = newton(B0);
        for (size_t i = 0; i < n; ++i) {
            R m = 0;
            for (size_t j = 0; j < n; ++j) if (i != j) { V d = pos(B0[j]) - pos(B0[i]); R r = ref::norm(d); m += (R)B0[j].m / (r * r) * (slack[i][j] + (ref::norm(pos(B0[j])) + ref::norm(pos(B0[i]))) / r); worst = std::max(worst, slack[i][j] * x0 / r); }
            amax = std::max(amax, m);
        }
        if constexpr (!VD<S>) {
            auto e = extra<S>(B0);
            for (size_t i = 0; i < n; ++i)
                NEAR(C, "kick: velocities", ref::norm(c1.v[i] - c0.v[i] - (a[i] + e[i]) * dtk), eps * n * (v0 + std::fabs(dtk) * (amax + ref::norm(e[i]) * worst + ref::norm(a[i]) * worst)), 16, "particle ", i);
            if constexpr (regularised<S>::value) {
                // omega follows the Newtonian potential (TTL), bindE loses the work of the extra forces (LogH), both by the mean velocity
                R dw = 0, de = 0, scale = 0;
                for (size_t i = 0; i < n; ++i) {
                    V vm = (c0.v[i] + c1.v[i]) * 0.5L;
                    dw += (R)u.b[i].m * ref::dot(vm, a[i]) * dtk;
                    de -= (R)u.b[i].m * ref::dot(vm, e[i]) * dtk;
                    scale += (R)u.b[i].m * ref::norm(vm) * (amax + ref::norm(e[i]) + v0 / std::fabs(dtk)) * std::fabs(dtk);
                }
                if (regu<S>() != ReguType::TTL) dw = 0;
                if (regu<S>() != ReguType::LogH) de = 0;
                R om = y1[y1.size() - 2] - y0[y0.size() - 2], be = y1.back() - y0.back();
                NEAR(C, "kick: omega", std::fabs(om - dw), eps * n * worst * (std::fabs(y0[y0.size() - 2]) + scale), 16, "changes by ", om, " instead of ", dw);
                NEAR(C, "kick: bindE", std::fabs(be - de), eps * n * worst * (std::fabs(y0.back()) + scale), 16, "changes by ", be, " instead of ", de);
            }
        }
        // undone exactly by the opposite kick, see below
    }
    op(s, kind, -h);
    auto y2 = array_of(s);
    Err<S> unit(s, {y0, y1}, eps, u.b);
    auto g = groups(s);
    for (size_t k = 0; k < g.size(); ++k)
        for (size_t i = g[k].first; i < g[k].second; ++i)
            NEAR(C, "undone", std::fabs(y2[i] - y0[i]), unit.unit[k] * kap, 16, group_name<S>(k), " entry ", i, " is ", y2[i], " instead of ", y0[i], " after ", kind ? "kick" : "drift", "(h), (-h)");
}
// ---- 3: increments ---------------------------------------------------------------------------------------------------
template <class S> void increments(Case& C, char const* name) {
    auto u = setup(C);
    SHOW(C, S, u);
    auto s = fs::make<S>(u.b);
    R eps = fs::epsilon<S>(), h0 = step_unit(s, u.tau);
    if (C.boolean()) { wander(C, s, h0, C.integer(0, 4)); s.post_iter_process(); }
    s.pre_iter_process();
    s.collect_increment(true);
    if (C.boolean()) wander(C, s, h0, 2);  // something to clear
    s.clear_increment();
    REQUIRE(C, s.increment().size() == s.variable_number(), "the increments have ", s.increment().size(), " entries");
    for (auto const& q : s.increment()) REQUIRE(C, (R)q == 0, "an increment is left after clear_increment()");
    auto y0 = array_of(s), prev = y0;
    Arr moved(y0.size(), 0);
    int n = C.integer(1, 8), used = 0;
    C.nontrivial(n > 1);
    Arr base = y0, expect(y0.size(), 0);
    std::vector<Arr> seen{y0};
    for (int k = 0; k < n; ++k) {
        bool on = !C.chance(1, 4);
        s.collect_increment(on);
        op(s, C.choice(1), h0 * C.sym(0.3));
        auto y = array_of(s);
        if (on) { ++used; for (size_t i = 0; i < y.size(); ++i) expect[i] += y[i] - prev[i]; }
        else C.label("paused");
        prev = y;
        seen.push_back(y);
    }
    Err<S> unit(s, seen, eps * n, u.b);
    auto g = groups(s);
    for (size_t k = 0; k < g.size(); ++k)
        for (size_t i = g[k].first; i < g[k].second; ++i)
            NEAR(C, "increments", std::fabs((R)s.increment()[i] - expect[i]), unit.unit[k], 16, group_name<S>(k), " entry ", i, ": ", (R)s.increment()[i], " collected, the array changed by ", expect[i]);
}
// ---- 4: the derivative is the limit of a leapfrog step ------------------------------------------------------------------
template <class S> void derivative(Case& C, char const* name) {
    auto u = setup(C);
    SHOW(C, S, u);
    auto s = fs::make<S>(u.b);
    size_t n = s.number();
    R eps = fs::epsilon<S>(), h0 = step_unit(s, u.tau);
    wander(C, s, h0, C.integer(0, 4));
    if (C.boolean()) s.post_iter_process();
    s.pre_iter_process();
    if constexpr (regularised<S>::value) if (C.chance(1, 3)) {  // omega and bindE are variables of their own
        C.label("omega, bindE off");
        s.omega() *= (typename S::Scalar)C.real(0.8, 1.5);
        s.bindE() += (typename S::Scalar)((R)-ref::potential(bodies(s, u.b)) * C.real(-0.2, 0.5));
        R T = drift_time(s, u.b, 1);
        if (!(T > 0) || T > 20 / -ref::potential(bodies(s, u.b))) C.discard();
    }
    C.nontrivial(n > 2);
    auto B = bodies(s, u.b);
    R tau = time_scale(B), U = -ref::potential(B), pt = drift_time(s, u.b, 1), kt = kick_time(s, u.b, 1);
    auto y0 = array_of(s);
    typename S::StateScalarArray saved, dy;
    s.write_to_scalar_array(saved);
    dy.emplace_back(3);
    s.evaluate_general_derivative(dy);
    REQUIRE(C, dy.size() == s.variable_number(), "the derivative has ", dy.size(), " entries instead of ", s.variable_number());
    auto y1 = array_of(s);
    for (size_t i = 0; i < y0.size(); ++i) REQUIRE(C, y1[i] == y0[i], "evaluating the derivative changes entry ", i);
    // against the equations of motion
    auto a = newton(B), e = extra<S>(B);
    R dw = 0, de = 0, worst = 1, amax = 0, vmax = largest(s, true), power = 0;
    auto slack = fs::pair_slack(s, B);
    std::vector<V> acc = a;
    for (size_t i = 0; i < n; ++i) {
        acc[i] += e[i];
        dw += (R)u.b[i].m * ref::dot(vel(B[i]), a[i]);
        de -= (R)u.b[i].m * ref::dot(vel(B[i]), e[i]);
        power += (R)u.b[i].m * ref::norm(vel(B[i])) * (ref::norm(a[i]) + ref::norm(e[i]));
        amax = std::max(amax, ref::norm(a[i]) + ref::norm(e[i]));
        for (size_t j = 0; j < n; ++j) if (i != j) worst = std::max(worst, slack[i][j] * (1 + largest(s, false) / ref::norm(pos(B[i]) - pos(B[j]))));
    }
    R kap = 1 + (regu<S>() == ReguType::LogH ? pt * (ref::kinetic(B) + std::fabs(y0.back())) : 0);
    NEAR(C, "dt", std::fabs((R)dy[0] - pt), eps * pt * kap * n, 16, (R)dy[0], " instead of ", pt);
    Arr dx = coords(s, fs::vecs(s.vel())), dv = coords(s, acc);
    for (size_t i = 0; i < dx.size(); ++i) {
        NEAR(C, "dx", std::fabs((R)dy[1 + i] - dx[i] * pt), eps * n * vmax * pt * kap, 16, "entry ", i, ": ", (R)dy[1 + i], " instead of ", dx[i] * pt);
        NEAR(C, "dv", std::fabs((R)dy[1 + 3 * n + i] - dv[i] * kt), eps * n * amax * kt * worst, 32, "entry ", i, ": ", (R)dy[1 + 3 * n + i], " instead of ", dv[i] * kt);
    }
    if constexpr (regularised<S>::value) {
        if (regu<S>() != ReguType::TTL) dw = 0;
        if (regu<S>() != ReguType::LogH) de = 0;
        NEAR(C, "domega", std::fabs((R)dy[dy.size() - 2] - dw * kt), eps * n * power * kt * worst, 32, (R)dy[dy.size() - 2], " instead of ", dw * kt);
        NEAR(C, "dbindE", std::fabs((R)dy[dy.size() - 1] - de * kt), eps * n * power * kt * worst, 32, (R)dy[dy.size() - 1], " instead of ", de * kt);
    }
    // against drift(h/2) kick(h) drift(h/2)
    R hs = tau * 1e-3L / std::max(pt, kt);
    auto map = [&](R h) {
        s.read_from_scalar_array(saved);
        s.drift((typename S::Scalar)(h / 2)); s.kick((typename S::Scalar)h); s.drift((typename S::Scalar)(h / 2));
        return array_of(s);
    };
    auto f1 = map(hs), b1 = map(-hs), f2 = map(hs / 2), b2 = map(-hs / 2);
    auto g = groups(s);
    Err<S> unit(s, {y0}, eps * worst, u.b);
    R magn[6] = {pt, vmax * pt, amax * kt, amax * kt, power * kt + U / tau * kt, power * kt + U / tau * kt};
    for (size_t k = 0; k < g.size(); ++k) {
        R m = magn[k >= 3 && !VD<S> ? k + 1 : k];
        for (size_t i = g[k].first; i < g[k].second; ++i) {
            R d = (4 * (f2[i] - b2[i]) / hs - (f1[i] - b1[i]) / (2 * hs)) / 3;
            NEAR(C, "limit of a step", std::fabs(d - (R)dy[i]), 1e-11L * m * kap + unit.unit[k] * kap / hs, 10, group_name<S>(k), " entry ", i, ": derivative ", (R)dy[i], ", limit of a step ", d);
        }
    }
}
using hub::Types;
using hub::Vec3;
template <class T> using P = hub::particles::PointParticles<Types<T, Vec3>>;
using I0 = hub::force::Interactions<hub::force::NewtonianGrav>;
using I1 = hub::force::Interactions<hub::force::NewtonianGrav, p14::Trap>;
using I2 = hub::force::Interactions<hub::force::NewtonianGrav, p14::Wind>;
using I3 = hub::force::Interactions<hub::force::NewtonianGrav, p14::Wind, p14::Trap>;
template <template <class> class F, class T, class I> void systems(Case& C) {
    using namespace hub::system;
    switch (C.choice(7)) {
        case 0: return F<SimpleSystem<P<T>, I>>()(C, "simple");
        case 1: return F<ChainSystem<P<T>, I>>()(C, "chain");
        case 2: return F<RegularizedSystem<P<T>, I, ReguType::LogH>>()(C, "regularised LogH");
        case 3: return F<RegularizedSystem<P<T>, I, ReguType::TTL>>()(C, "regularised TTL");
        case 4: return F<ARchainSystem<P<T>, I, ReguType::LogH>>()(C, "AR chain LogH");
        case 5: return F<ARchainSystem<P<T>, I, ReguType::TTL>>()(C, "AR chain TTL");
        case 6: return F<RegularizedSystem<P<T>, I, ReguType::None>>()(C, "regularised None");
        default: return F<ARchainSystem<P<T>, I, ReguType::None>>()(C, "AR chain None");
    }
}
template <template <class> class F> void all(Case& C) {
    switch (C.choice(6)) {
        case 0: return systems<F, double, I0>(C);
        case 1: return systems<F, double, I1>(C);
        case 2: return systems<F, double, I2>(C);
        case 3: return systems<F, double, I3>(C);
        case 4: return systems<F, hub::double_k, I3>(C);
        case 5: return systems<F, hub::double_k, I0>(C);
        default: return systems<F, long double, I2>(C);
    }
}
template <class S> struct Layout { void operator()(Case& C, char const* n) { layout<S>(C, n); } };
template <class S> struct Leap { void operator()(Case& C, char const* n) { leapfrog<S>(C, n); } };
template <class S> struct Incr { void operator()(Case& C, char const* n) { increments<S>(C, n); } };
template <class S> struct Deriv { void operator()(Case& C, char const* n) { derivative<S>(C, n); } };
}  // namespace
#define WHERE "8 kinds of system, 4 sets of forces, 3 precisions, 2-9 bodies; non-trivial: "
