// Builds real particle systems and calls forces on them; allowances for the comparison with long-double formulas.
#pragma once
#include "spaceHub.hpp"
#include "pbt.hpp"
#include "gen.hpp"

namespace fs {
using namespace ref;
using sim::Body;
template <class T> struct is_ext { static constexpr bool value = false; };
template <class S> R epsilon() { return std::is_same_v<typename S::Scalar, long double> ? 1.1e-19L : 2.3e-16L; }

template <class A> std::vector<V> vecs(A const& a) {
    std::vector<V> r;
    for (auto& q : a) r.emplace_back((R)q.x, (R)q.y, (R)q.z);
    return r;
}
// accelerations produced by f(acc) where acc starts from `junk`
template <class S, class F> std::vector<V> call(S const& s, R junk, F f) {
    typename S::VectorArray acc(s.number());
    for (auto& q : acc) { q.x = junk; q.y = junk * 2; q.z = -junk; }
    f(acc);
    return vecs(acc);
}
inline V junk_vec(R j) { return V(j, 2 * j, -j); }

// relative error of the separation of a pair as the system may compute it: directly (1), or along its chain
template <class S, class = void> struct has_index : std::false_type {};
template <class S> struct has_index<S, std::void_t<decltype(std::declval<S>().index())>> : std::true_type {};
template <class S> std::vector<std::vector<R>> pair_slack(S const& s, std::vector<Body> const& b, bool with_vel = false) {
    size_t n = b.size();
    std::vector<std::vector<R>> k(n, std::vector<R>(n, 1));
    if constexpr (has_index<S>::value) {
        auto const& id = s.index();
        for (size_t i = 0; i < n; ++i) {
            R path = 0, vpath = 0;
            for (size_t j = i + 1; j < n; ++j) {
                path += norm(pos(b[id[j]]) - pos(b[id[j - 1]]));
                vpath += norm(vel(b[id[j]]) - vel(b[id[j - 1]]));
                R r = norm(pos(b[id[j]]) - pos(b[id[i]])), w = norm(vel(b[id[j]]) - vel(b[id[i]]));
                R q = 1 + (j - i) * (path / r + (with_vel && w > 0 ? vpath / w : 0));
                k[id[i]][id[j]] = k[id[j]][id[i]] = q;
            }
        }
    }
    return k;
}
// any set of positions the forces accept: clouds, hierarchies, tight pairs, far from the origin, many bodies
inline std::vector<Body> config(pbt::Case& C, size_t nmin, size_t nmax) {
    std::vector<Body> b;
    size_t n = C.integer((long long)nmin, (long long)nmax);
    b.resize(n);
    R L = C.logreal(1e-3, 1e3);
    for (size_t i = 0; i < n; ++i) {
        b[i].m = C.logreal(1e-6, 1e2);
        V p = gen::unit(C) * (L * C.real(0.05, 1));
        if (i && C.chance(1, 3)) { C.label("tight pair"); p = pos(b[C.choice(i - 1)]) + gen::unit(C) * (L * C.logreal(1e-5, 1e-2)); }
        set_pos(b[i], p);
        set_vel(b[i], gen::unit(C) * C.logreal(1e-3, 30));
    }
    if (C.chance(1, 4)) {
        C.label("shifted");
        V s = gen::unit(C) * (L * C.logreal(1, 1e3)), w = gen::unit(C) * C.logreal(0.1, 100);
        for (auto& q : b) { set_pos(q, pos(q) + s); set_vel(q, vel(q) + w); }
    }
    if (C.chance(1, 6)) {
        C.label("aligned");  // collinear or planar: components exactly zero
        int mode = C.integer(0, 1);
        for (auto& q : b) { q.x[2] = 0; q.v[2] = 0; if (mode) { q.x[1] = 0; q.v[0] = 0; } }
    }
    round_double(b);
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (norm(pos(b[i]) - pos(b[j])) < 1e-7L * L) C.discard();
    return b;
}
template <class S> typename S::Particle point_particle(Body const& q) {
    return typename S::Particle((typename S::Scalar)q.m, (typename S::Scalar)q.x[0], (typename S::Scalar)q.x[1], (typename S::Scalar)q.x[2],
                                (typename S::Scalar)q.v[0], (typename S::Scalar)q.v[1], (typename S::Scalar)q.v[2]);
}
template <class S> S make(std::vector<Body> const& b) {
    std::vector<typename S::Particle> p;
    for (auto& q : b) p.push_back(point_particle<S>(q));
    return S((typename S::Scalar)0, p);
}
template <class S, class P> S make_with(std::vector<Body> const& b, P particle) {
    std::vector<typename S::Particle> p;
    for (size_t i = 0; i < b.size(); ++i) p.push_back(particle(i, b[i]));
    return S((typename S::Scalar)0, p);
}
}  // namespace fs
