// Condition numbers: how much an integration amplifies a relative perturbation of the initial state.
#pragma once
#include "phys.hpp"

namespace ref {
struct Scales { R L, V; };
// characteristic length and velocity: largest relative separation / relative velocity among both states
inline Scales scales(std::vector<Body> const& a, std::vector<Body> const& b) {
    Scales s{0, 0};
    for (auto* p : {&a, &b})
        for (size_t i = 0; i < p->size(); ++i)
            for (size_t j = i + 1; j < p->size(); ++j) {
                s.L = std::max(s.L, norm(pos((*p)[i]) - pos((*p)[j])));
                s.V = std::max(s.V, norm(vel((*p)[i]) - vel((*p)[j])));
            }
    for (auto* p : {&a, &b})
        for (auto& q : *p) { s.L = std::max(s.L, norm(pos(q))); s.V = std::max(s.V, norm(vel(q))); }
    if (s.L == 0) s.L = 1;
    if (s.V == 0) s.V = 1;
    return s;
}
inline R rel_diff(std::vector<Body> const& a, std::vector<Body> const& b, Scales s) {
    Diff d = diff(a, b);
    return std::max(d.dx / s.L, d.dv / s.V);
}
// prop: propagates a state; returns max over perturbation patterns of (relative output change)/(relative input change)
template <class F> R condition(std::vector<Body> const& b, std::vector<Body> const& out, F prop, R eps = 1e-10L, int patterns = 3) {
    Scales s = scales(b, out);
    R worst = 1;
    for (int p = 0; p < patterns; ++p) {
        auto c = b;
        for (size_t i = 0; i < c.size(); ++i)
            for (int k = 0; k < 3; ++k) {
                unsigned h = (unsigned)(i * 7 + k * 3 + p * 11 + 1) * 2654435761u;
                R sx = (h >> 13) & 1 ? 1 : -1, sv = (h >> 17) & 1 ? 1 : -1;
                c[i].x[k] += eps * s.L * sx * 0.5L;
                c[i].v[k] += eps * s.V * sv * 0.5L;
            }
        worst = std::max(worst, rel_diff(prop(c), out, s) / eps);
    }
    return worst;
}
}  // namespace ref
