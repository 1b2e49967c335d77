// Reference physics in long double, independent of the library under test.  G = 1.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <vector>
#include "sim.hpp"

namespace ref {
using R = long double;
using sim::Body;
constexpr R PI = 3.14159265358979323846264338327950288L;

struct V {
    R x{0}, y{0}, z{0};
    V() = default;
    V(R a, R b, R c) : x(a), y(b), z(c) {}
    V operator+(V o) const { return {x + o.x, y + o.y, z + o.z}; }
    V operator-(V o) const { return {x - o.x, y - o.y, z - o.z}; }
    V operator-() const { return {-x, -y, -z}; }
    V operator*(R k) const { return {x * k, y * k, z * k}; }
    V operator/(R k) const { return {x / k, y / k, z / k}; }
    V& operator+=(V o) { x += o.x; y += o.y; z += o.z; return *this; }
    V& operator-=(V o) { x -= o.x; y -= o.y; z -= o.z; return *this; }
};
inline V operator*(R k, V a) { return a * k; }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline R norm(V a) { return std::sqrt(dot(a, a)); }
inline V pos(Body const& b) { return {b.x[0], b.x[1], b.x[2]}; }
inline V vel(Body const& b) { return {b.v[0], b.v[1], b.v[2]}; }
inline void set_pos(Body& b, V p) { b.x[0] = p.x; b.x[1] = p.y; b.x[2] = p.z; }
inline void set_vel(Body& b, V p) { b.v[0] = p.x; b.v[1] = p.y; b.v[2] = p.z; }
// make every number exactly representable in double, so that all precisions start from the same point
inline void round_double(std::vector<Body>& bs) {
    for (auto& b : bs) {
        b.m = (double)b.m;
        for (int k = 0; k < 3; ++k) { b.x[k] = (double)b.x[k]; b.v[k] = (double)b.v[k]; }
    }
}

inline R kinetic(std::vector<Body> const& b) { R e = 0; for (auto& p : b) e += p.m * dot(vel(p), vel(p)) / 2; return e; }
inline R potential(std::vector<Body> const& b) {
    R e = 0;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < b.size(); ++j) e -= b[i].m * b[j].m / norm(pos(b[i]) - pos(b[j]));
    return e;
}
inline R energy(std::vector<Body> const& b) { return kinetic(b) + potential(b); }
inline R mass(std::vector<Body> const& b) { R m = 0; for (auto& p : b) m += p.m; return m; }
inline V momentum(std::vector<Body> const& b) { V s; for (auto& p : b) s += vel(p) * p.m; return s; }
inline V com(std::vector<Body> const& b) { V s; for (auto& p : b) s += pos(p) * p.m; return s / mass(b); }
inline V angmom(std::vector<Body> const& b) { V s; for (auto& p : b) s += cross(pos(p), vel(p)) * p.m; return s; }

using Acc = std::function<void(R t, std::vector<R> const& m, std::vector<V> const& x, std::vector<V> const& v, std::vector<V>& a)>;
inline void newton(R, std::vector<R> const& m, std::vector<V> const& x, std::vector<V> const&, std::vector<V>& a) {
    size_t n = m.size();
    for (auto& q : a) q = V();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            V d = x[j] - x[i];
            R r2 = dot(d, d), k = 1 / (r2 * std::sqrt(r2));
            a[i] += d * (m[j] * k);
            a[j] -= d * (m[i] * k);
        }
}

// Two-body propagation in universal variables (works for every conic).  mu > 0.
inline R stumpff_c(R z) {
    if (std::fabs(z) < 0.1L) { R s = 0, t = 0.5L; for (int k = 0; k < 14; ++k) { s += t; t *= -z / ((2 * k + 3) * (2 * k + 4)); } return s; }
    return z > 0 ? (1 - std::cos(std::sqrt(z))) / z : (std::cosh(std::sqrt(-z)) - 1) / (-z);
}
inline R stumpff_s(R z) {
    if (std::fabs(z) < 0.1L) { R s = 0, t = 1.0L / 6; for (int k = 0; k < 14; ++k) { s += t; t *= -z / ((2 * k + 4) * (2 * k + 5)); } return s; }
    R q = std::sqrt(std::fabs(z));
    return z > 0 ? (q - std::sin(q)) / (q * q * q) : (std::sinh(q) - q) / (q * q * q);
}
inline void kepler_step(R mu, V& r, V& v, R dt) {
    R r0 = norm(r), vr = dot(r, v) / r0, alpha = 2 / r0 - dot(v, v) / mu, sm = std::sqrt(mu);
    if (alpha > 0) {  // drop whole periods
        R P = 2 * PI / (sm * alpha * std::sqrt(alpha));
        dt = std::fmod(dt, P);
    }
    auto F = [&](R c) { R z = alpha * c * c; return r0 * vr / sm * c * c * stumpff_c(z) + (1 - alpha * r0) * c * c * c * stumpff_s(z) + r0 * c - sm * dt; };
    auto D = [&](R c) { R z = alpha * c * c; return r0 * vr / sm * c * (1 - z * stumpff_s(z)) + (1 - alpha * r0) * c * c * stumpff_c(z) + r0; };
    if (dt == 0) return;
    R sg = dt > 0 ? 1 : -1;
    R lo = 0, hi = sg * std::min(sm * std::fabs(dt) / r0, alpha < 0 ? 1 / std::sqrt(-alpha) : 1e300L);  // F is increasing in c; widen until bracketed
    for (int k = 0; k < 200 && sg * F(hi) < 0; ++k) { lo = hi; hi *= 1.5L; }
    R c = hi;
    for (int k = 0; k < 300; ++k) {
        R f = F(c);
        if (sg * f > 0) hi = c; else lo = c;
        R n = c - f / D(c);
        R a = std::min(lo, hi), b = std::max(lo, hi);
        if (!(n > a && n < b) || (k % 3 == 2 && k < 240)) n = (lo + hi) / 2;  // Newton alone can cycle
        if (n == c || std::fabs(n - c) < 1e-20L * std::fabs(c)) { c = n; break; }
        c = n;
    }
    R z = alpha * c * c, C = stumpff_c(z), S = stumpff_s(z);
    R f = 1 - c * c / r0 * C, g = dt - c * c * c * S / sm;
    V rn = r * f + v * g;
    R rr = norm(rn);
    R fd = sm / (rr * r0) * (alpha * c * c * c * S - c), gd = 1 - c * c / rr * C;
    V vn = r * fd + v * gd;
    r = rn; v = vn;
}
inline std::vector<Body> kepler_two_body(std::vector<Body> b, R dt) {
    R M = b[0].m + b[1].m;
    V c = (pos(b[0]) * b[0].m + pos(b[1]) * b[1].m) / M, w = (vel(b[0]) * b[0].m + vel(b[1]) * b[1].m) / M;
    V r = pos(b[1]) - pos(b[0]), v = vel(b[1]) - vel(b[0]);
    kepler_step(M, r, v, dt);
    c += w * dt;
    set_pos(b[0], c - r * (b[1].m / M)); set_pos(b[1], c + r * (b[0].m / M));
    set_vel(b[0], w - v * (b[1].m / M)); set_vel(b[1], w + v * (b[0].m / M));
    return b;
}

// Reference N-body integrator: Gragg-Bulirsch-Stoer on y=(x,v), long double, adaptive.
struct Nbody {
    Acc acc{newton};
    R tol{1e-17L};
    long max_steps{200000};
    bool ok{true};
    long steps{0};
    R rmin{1e300L};  // closest approach seen
    std::vector<R> m;
    std::vector<V> x, v;
    R t{0};
    void load(std::vector<Body> const& b, R t0) {
        m.clear(); x.clear(); v.clear(); t = t0;
        for (auto& p : b) { m.push_back(p.m); x.push_back(pos(p)); v.push_back(vel(p)); }
    }
    std::vector<Body> bodies() const {
        std::vector<Body> b(m.size());
        for (size_t i = 0; i < m.size(); ++i) { b[i].m = m[i]; set_pos(b[i], x[i]); set_vel(b[i], v[i]); }
        return b;
    }
    void midpoint(R H, int n, std::vector<V>& ox, std::vector<V>& ov) const {
        size_t N = m.size();
        R h = H / n;
        std::vector<V> x0 = x, v0 = v, x1(N), v1(N), a(N), x2(N), v2(N);
        acc(t, m, x0, v0, a);
        for (size_t i = 0; i < N; ++i) { x1[i] = x0[i] + v0[i] * h; v1[i] = v0[i] + a[i] * h; }
        for (int k = 1; k < n; ++k) {
            acc(t + k * h, m, x1, v1, a);
            for (size_t i = 0; i < N; ++i) { x2[i] = x0[i] + v1[i] * (2 * h); v2[i] = v0[i] + a[i] * (2 * h); }
            x0.swap(x1); v0.swap(v1); x1.swap(x2); v1.swap(v2);
        }
        acc(t + H, m, x1, v1, a);
        for (size_t i = 0; i < N; ++i) {
            ox[i] = (x0[i] + x1[i] + v1[i] * h) * 0.5L;
            ov[i] = (v0[i] + v1[i] + a[i] * h) * 0.5L;
        }
    }
    R scale_step() const {
        R s = 1e300L;
        for (size_t i = 0; i < m.size(); ++i)
            for (size_t j = i + 1; j < m.size(); ++j) {
                V d = x[j] - x[i], w = v[j] - v[i];
                R r = norm(d);
                s = std::min(s, std::sqrt(r * r * r / (m[i] + m[j] + 1e-300L)));
                R q = norm(w);
                if (q > 0) s = std::min(s, r / q);
            }
        return s;
    }
    void run_to(R T) {
        static const int seq[] = {2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24};
        constexpr int KM = 12;
        size_t N = m.size();
        R dir = T >= t ? 1 : -1;
        R H = dir * std::min((R)std::fabs(T - t), scale_step() * 0.5L);
        while (dir * (T - t) > 0) {
            if (++steps > max_steps) { ok = false; return; }
            bool last = false;
            if (dir * (t + H - T) >= 0) { H = T - t; last = true; }
            std::vector<std::vector<V>> TX(KM, std::vector<V>(N)), TV = TX;
            bool good = false;
            for (int k = 0; k < KM; ++k) {
                std::vector<V> cx(N), cv(N);
                midpoint(H, seq[k], cx, cv);
                std::vector<V> px = cx, pv = cv;
                std::vector<V> bx, bv;
                // Neville: row k in place
                std::vector<V> rowx{}, rowv{};
                R err = 0;
                for (int j = 1; j <= k; ++j) {
                    R q = (R)seq[k] / seq[k - j];
                    R f = 1 / (q * q - 1);
                    for (size_t i = 0; i < N; ++i) {
                        V ox = TX[j - 1][i], ov = TV[j - 1][i];
                        V nx = cx[i] + (cx[i] - ox) * f, nv = cv[i] + (cv[i] - ov) * f;
                        if (j == k) {
                            R sx = norm(x[i] - com_x()) + norm(v[i]) * std::fabs(H) + 1e-300L, sv = norm(v[i]) + norm(cv[i]) + 1e-300L;
                            err = std::max(err, std::max(norm(nx - cx[i]) / sx, norm(nv - cv[i]) / sv));
                        }
                        TX[j - 1][i] = cx[i]; TV[j - 1][i] = cv[i];
                        cx[i] = nx; cv[i] = nv;
                    }
                }
                for (size_t i = 0; i < N; ++i) { TX[k][i] = cx[i]; TV[k][i] = cv[i]; }
                if (k >= 3 && err < tol) {
                    x = cx; v = cv; good = true;
                    t = last ? T : t + H;
                    if (k <= 8) H *= 1.4L; else if (k >= 10) H *= 0.7L;
                    break;
                }
            }
            if (!good) { H *= 0.5L; if (std::fabs(H) < 1e-16L * (std::fabs(t) + 1e-30L)) { ok = false; return; } continue; }
            for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) rmin = std::min(rmin, norm(x[i] - x[j]));
            R lim = scale_step() * 2;
            if (std::fabs(H) > lim) H = dir * lim;
        }
    }
    V com_x() const { return V(); }
};
inline std::vector<Body> nbody(std::vector<Body> const& b, R dt, Acc acc = newton, R tol = 1e-16L) {
    Nbody n; n.acc = acc; n.tol = tol; n.load(b, 0); n.run_to(dt);
    return n.bodies();
}

// state from classical elements: the rotation R_z(Omega) R_x(i) R_z(omega) applied to the perifocal state
inline void elements_to_state(R mu, R p, R e, R inc, R Om, R om, R nu, V& r, V& v) {
    R rr = p / (1 + e * std::cos(nu)), s = std::sqrt(mu / p);
    V rp(rr * std::cos(nu), rr * std::sin(nu), 0), vp(-s * std::sin(nu), s * (e + std::cos(nu)), 0);
    auto rot = [&](V a) {
        V b(a.x * std::cos(om) - a.y * std::sin(om), a.x * std::sin(om) + a.y * std::cos(om), a.z);
        V c(b.x, b.y * std::cos(inc) - b.z * std::sin(inc), b.y * std::sin(inc) + b.z * std::cos(inc));
        return V(c.x * std::cos(Om) - c.y * std::sin(Om), c.x * std::sin(Om) + c.y * std::cos(Om), c.z);
    };
    r = rot(rp); v = rot(vp);
}

// distance between two states, in units that make positions and velocities comparable
struct Diff { R dx{0}, dv{0}; };
inline Diff diff(std::vector<Body> const& a, std::vector<Body> const& b) {
    Diff d;
    for (size_t i = 0; i < a.size(); ++i) {
        d.dx = std::max(d.dx, norm(pos(a[i]) - pos(b[i])));
        d.dv = std::max(d.dv, norm(vel(a[i]) - vel(b[i])));
    }
    return d;
}
}  // namespace ref
