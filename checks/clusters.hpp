// Generated clusters of real particle objects and long-double reference values for them.
#pragma once
#include <array>
#include "pbt.hpp"
#include "gen.hpp"
#include "spaceHub.hpp"

namespace cl {
using namespace ref;
using sim::Body;
using pbt::Case;
struct Member { R m, rad; V x, v; };
using Group = std::vector<Member>;
template <class T> using Sized = hub::particles::SizeParticle<hub::Vec3<T>>;
template <class T> using Point = hub::particles::PointParticle<hub::Vec3<T>>;
template <class T> R eps_of() { return std::is_same_v<T, long double> ? 1.1e-19L : 2.3e-16L; }
inline V rd(V a) { return V((double)a.x, (double)a.y, (double)a.z); }
inline std::string show(Group const& g) {
    std::string s = pbt::str(g.size(), " bodies");
    for (auto& q : g) s += pbt::str(" [m=", q.m, " R=", q.rad, " x=(", q.x.x, ",", q.x.y, ",", q.x.z, ") v=(", q.v.x, ",", q.v.y, ",", q.v.z, ")]");
    return s;
}
// n bodies of extent L and velocities W around (X, Vc)
inline Group group(Case& C, size_t n, R L, R W, V X, V Vc) {
    Group g(n);
    for (size_t i = 0; i < n; ++i) {
        g[i].m = C.logreal(1e-4, 1e3);
        g[i].rad = C.logreal(1e-6, 1e-2);
        V p = gen::unit(C) * (L * C.real(0.05, 1));
        if (i && C.chance(1, 4)) p = (g[i - 1].x - X) + gen::unit(C) * (L * C.logreal(1e-4, 1e-1));
        g[i].x = rd(X + p);
        g[i].v = rd(Vc + gen::unit(C) * (W * C.real(0, 1)));
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) if (norm(g[i].x - g[j].x) < L * 1e-6L) C.discard();
    return g;
}
inline V place(Case& C, R s) { return C.boolean() ? V() : gen::unit(C) * (s * C.logreal(1e-2, 1e2)); }
inline Group any(Case& C, size_t nmin, size_t nmax) {
    R L = C.logreal(1e-2, 1e2), W = C.logreal(1e-2, 10);
    size_t n = C.integer((long long)nmin, (long long)nmax);
    V X = place(C, L), Vc = place(C, W);
    return group(C, n, L, W, X, Vc);
}
template <class T> hub::Vec3<T> vec(V a) { return hub::Vec3<T>((T)a.x, (T)a.y, (T)a.z); }
template <class P> P make(Member const& q) {
    using T = typename P::Scalar;
    if constexpr (std::is_same_v<P, Sized<T>>) return P((T)q.m, (T)q.rad, vec<T>(q.x), vec<T>(q.v));
    else return P((T)q.m, vec<T>(q.x), vec<T>(q.v));
}
template <class P> std::vector<P> make_all(Group const& g) {
    std::vector<P> r;
    for (auto& q : g) r.push_back(make<P>(q));
    return r;
}
template <class Q> V v3(Q const& a) { return V((R)a.x, (R)a.y, (R)a.z); }

struct Sum { R m{0}; V x, v; R xs{0}, vs{0}, ek{0}, ep{0}, eps_rel{0}, size{0}; };
// exact values; xs, vs: largest |x|, |v| (rounding units)
inline Sum sum(Group const& g) {
    Sum s;
    for (auto& q : g) {
        s.m += q.m; s.x += q.x * q.m; s.v += q.v * q.m;
        s.xs = std::max(s.xs, norm(q.x)); s.vs = std::max(s.vs, norm(q.v));
        s.ek += q.m * dot(q.v, q.v) / 2;
    }
    s.x = s.x / s.m; s.v = s.v / s.m;
    for (size_t i = 0; i < g.size(); ++i)
        for (size_t j = i + 1; j < g.size(); ++j) {
            R d = norm(g[i].x - g[j].x), e = g[i].m * g[j].m / d;
            s.ep -= e;
            s.eps_rel += e * (4 + 2 * (norm(g[i].x) + norm(g[j].x)) / d);  // error of the potential in units of eps
            s.size = std::max(s.size, d);
        }
    if (g.size() == 1) s.size = g[0].rad;
    return s;
}
}  // namespace cl

#define NEAR(C, group, err, unit, k, ...)                                                                  \
    do {                                                                                                   \
        R e__ = (err), u__ = (unit);                                                                       \
        if (u__ > 0) pbt::cal(group, e__ / u__);                                                           \
        REQUIRE(C, e__ <= (k) * u__, group, ": off by ", e__, ", allowed ", (k) * u__, ": ", __VA_ARGS__); \
    } while (0)
