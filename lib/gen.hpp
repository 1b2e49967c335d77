// Generators of particle systems.
#pragma once
#include "pbt.hpp"
#include "phys.hpp"

namespace gen {
using pbt::Case;
using ref::R;
using ref::V;
using sim::Body;
using namespace ref;

inline V unit(Case& C) {
    R c = C.sym(1), p = C.real(0, 2 * M_PI), s = std::sqrt(std::max<R>(0, 1 - c * c));
    return V(s * std::cos(p), s * std::sin(p), c);
}
struct TwoBody { std::vector<Body> b; R a, e, P, q, mu; bool bound; };
// e in [e0,e1]; bound when e<1
inline TwoBody two_body(Case& C, R e0, R e1, bool shift = true) {
    TwoBody t;
    R m1 = C.logreal(0.1, 10), ratio = C.logreal(1e-3, 1);
    if (C.chance(1, 4)) ratio = 1;
    R m2 = m1 * ratio;
    if (C.boolean()) std::swap(m1, m2);
    R L = C.logreal(0.05, 50);
    t.e = e1 < e0 ? e0 : (R)C.real(e0, e1);  // e1 < e0: e0 as given
    t.mu = m1 + m2;
    t.bound = t.e < 1;
    t.a = L;
    R p = t.bound ? L * (1 - t.e * t.e) : L * (t.e * t.e - 1);
    t.q = p / (1 + t.e);
    t.P = 2 * ref::PI * std::sqrt(L * L * L / t.mu);
    R nu = t.bound ? C.real(0, 2 * M_PI) : C.sym(0.9) * std::acos(-1 / (t.e));
    R inc = C.real(0, M_PI), Om = C.real(0, 2 * M_PI), om = C.real(0, 2 * M_PI);
    V r, v;
    ref::elements_to_state(t.mu, p, t.e, inc, Om, om, nu, r, v);
    V c, w;
    if (shift && C.boolean()) { c = unit(C) * (L * C.real(0, 10)); w = unit(C) * (std::sqrt(t.mu / L * m1 * m2) / t.mu * C.real(0, 3)); }
    t.b.resize(2);
    t.b[0].m = m1; t.b[1].m = m2;
    set_pos(t.b[0], c - r * (m2 / t.mu)); set_pos(t.b[1], c + r * (m1 / t.mu));
    set_vel(t.b[0], w - v * (m2 / t.mu)); set_vel(t.b[1], w + v * (m1 / t.mu));
    ref::round_double(t.b);
    return t;
}
// how much larger the kinetic energy in this frame is than the binding: time transformations cancel the two
inline R frame_cancellation(std::vector<Body> const& b) { return 1 + ref::kinetic(b) / -ref::potential(b); }
// A mildly interacting cloud of n bodies, minimum separation guaranteed by construction of the draw.
inline std::vector<Body> cloud(Case& C, size_t n, R size = 1, R vscale = 0.5) {
    std::vector<Body> b(n);
    for (size_t i = 0; i < n; ++i) {
        b[i].m = C.chance(1, 5) ? C.logreal(1e-4, 1e-2) : C.logreal(0.05, 2);
        V p;
        for (int k = 0; k < 30; ++k) {
            p = unit(C) * (size * C.real(0.2, 1) * std::cbrt((R)n));
            R dm = 1e9;
            for (size_t j = 0; j < i; ++j) dm = std::min(dm, norm(p - pos(b[j])));
            if (dm > 0.4L * size) break;
            if (k == 29) p = V(0, 2 * size * (R)(i + 1), 0.1L * size);
        }
        set_pos(b[i], p);
        set_vel(b[i], unit(C) * (vscale * C.real(0, 1) / std::sqrt(size)));
    }
    ref::round_double(b);
    return b;
}
// star with n planets on well separated orbits
inline std::vector<Body> planets(Case& C, size_t n) {
    std::vector<Body> b(1);
    b[0].m = C.real(0.5, 2);
    R a = C.real(0.5, 1);
    for (size_t i = 0; i < n; ++i) {
        Body p;
        p.m = C.logreal(1e-6, 1e-3);
        R e = C.real(0, 0.2);
        V r, v;
        ref::elements_to_state(b[0].m + p.m, a * (1 - e * e), e, C.real(0, 0.3), C.real(0, 2 * M_PI), C.real(0, 2 * M_PI), C.real(0, 2 * M_PI), r, v);
        set_pos(p, r); set_vel(p, v);
        b.push_back(p);
        a *= C.real(1.6, 2.5);
    }
    ref::round_double(b);
    return b;
}
// hierarchical: tight binary plus distant companions
inline std::vector<Body> hierarchy(Case& C, size_t n) {
    std::vector<Body> b;
    auto add = [&](R m, R a, R e) {
        Body p;
        p.m = m;
        if (b.empty()) { b.push_back(p); return; }
        R M = ref::mass(b);
        V c = ref::com(b), w = ref::momentum(b) / M;
        V r, v;
        ref::elements_to_state(M + m, a * (1 - e * e), e, C.real(0, M_PI), C.real(0, 2 * M_PI), C.real(0, 2 * M_PI), C.real(0, 2 * M_PI), r, v);
        set_pos(p, c + r); set_vel(p, w + v);
        b.push_back(p);
    };
    R a = C.real(0.3, 1);
    for (size_t i = 0; i < n; ++i) {
        add(C.real(0.1, 1.5), a, C.real(0, 0.6));
        if (i) a *= C.real(4, 8);
    }
    if (C.boolean()) std::reverse(b.begin(), b.end());
    ref::round_double(b);
    return b;
}
// two groups of one to three bodies that meet on a hyperbola; duration: from the start to past the encounter
inline std::vector<Body> scattering(Case& C, R& duration) {
    auto one = [&] { size_t n = C.integer(1, 3); auto g = hierarchy(C, n); V x = ref::com(g), w = ref::momentum(g) / ref::mass(g); for (auto& p : g) { set_pos(p, ref::pos(p) - x); set_vel(p, ref::vel(p) - w); } return g; };
    auto g = one(), h = one();
    if (g.size() + h.size() < 3) { h.resize(0); h = hierarchy(C, 2); V x = ref::com(h), w = ref::momentum(h) / ref::mass(h); for (auto& p : h) { set_pos(p, ref::pos(p) - x); set_vel(p, ref::vel(p) - w); } }
    R size = 0;
    for (auto* q : {&g, &h}) for (auto& p : *q) size = std::max(size, ref::norm(ref::pos(p)));
    R mg = ref::mass(g), mh = ref::mass(h), mu = mg + mh, q = size * (R)C.real(1.5, 6), e = 1 + (R)C.logreal(0.02, 20), p = q * (1 + e), a = q / (e - 1);
    R r0 = q * (R)C.real(2, 8);
    R nu = -std::acos(std::max<R>(-1, std::min<R>(1, (p / r0 - 1) / e)));
    V r, v;
    ref::elements_to_state(mu, p, e, C.real(0, M_PI), C.real(0, 2 * M_PI), C.real(0, 2 * M_PI), nu, r, v);
    R ch = (1 + r0 / a) / e, H = std::acosh(std::max<R>(1, ch));
    duration = std::sqrt(a * a * a / mu) * (e * std::sinh(H) - H) * (R)C.real(1, 2.5);
    std::vector<Body> b;
    for (auto& x : g) { b.push_back(x); set_pos(b.back(), ref::pos(x) - r * (mh / mu)); set_vel(b.back(), ref::vel(x) - v * (mh / mu)); }
    for (auto& x : h) { b.push_back(x); set_pos(b.back(), ref::pos(x) + r * (mg / mu)); set_vel(b.back(), ref::vel(x) + v * (mg / mu)); }
    ref::round_double(b);
    return b;
}
inline std::vector<Body> any_system(Case& C, size_t nmin, size_t nmax) {
    size_t n = C.integer((long long)nmin, (long long)nmax);
    std::vector<Body> b;
    switch (C.choice(2)) {
        case 0: C.label("hierarchy"); b = hierarchy(C, n); break;
        case 1: C.label("cloud"); b = cloud(C, n); break;
        default: C.label("planets"); b = n > 1 ? planets(C, n - 1) : cloud(C, n);
    }
    return b;
}
// shortest two-body time scale
inline R time_scale(std::vector<Body> const& b) {
    ref::Nbody n; n.load(b, 0);
    return n.scale_step();
}
// time in which an uncoupled pair would make one radian, for the tightest bound pair (or the crossing time)
}  // namespace gen
