// Pairwise post-Newtonian accelerations (Blanchet, Living Rev. Relativ. 17, 2, eq. 203), independent of the library.
#pragma once
#include "spaceHub.hpp"
#include "phys.hpp"
namespace pn {
using namespace ref;
using sim::Body;
// value plus the sum of the magnitudes of everything that was added up to get it
struct E {
    R v{0}, m{0};
    E() = default;
    E(R x) : v(x), m(std::fabs(x)) {}
    E(R x, R y) : v(x), m(y) {}
};
static E operator+(E a, E b) { return {a.v + b.v, a.m + b.m}; }
static E operator-(E a, E b) { return {a.v - b.v, a.m + b.m}; }
static E operator*(E a, E b) { return {a.v * b.v, a.m * b.m}; }
static E dotE(V a, V b) { return {dot(a, b), std::fabs(a.x * b.x) + std::fabs(a.y * b.y) + std::fabs(a.z * b.z)}; }
static E sq(E a) { return a * a; }

constexpr R EPS = 2.3e-16L;  // 1/c is a double constant in every precision
constexpr R CC = 299792.458L;  // km/s
// speed of light in code units: AU, yr/2pi with G = Msun = 1, from the library's own unit of speed
static R light() { return CC * (R)hub::unit::kms; }

// acceleration of body 1 due to body 2
static void pair_acc(int order, Body const& b1, Body const& b2, R k, V& out, R& size) {
    V d = pos(b1) - pos(b2), v1v = vel(b1), v2v = vel(b2), w = v1v - v2v;
    R r = norm(d), m1 = b1.m, m2 = b2.m, c2 = light() * light();
    V n = d / r;
    E v1 = dotE(v1v, v1v), v2 = dotE(v2v, v2v), v12 = dotE(v1v, v2v), n1 = dotE(n, v1v), n2 = dotE(n, v2v), ww = dotE(w, w), nw = dotE(n, w);
    E g1 = E(m1 / r), g2 = E(m2 / r);
    E A, B;
    R coef;
    if (order == 10) {
        A = E(5) * g1 + E(4) * g2 + E(1.5L) * sq(n2) - v1 + E(4) * v12 - E(2) * v2;
        B = E(4) * n1 - E(3) * n2;
        coef = m2 / (r * r) / c2;
    } else if (order == 20) {
        A = E(-57.0L / 4) * g1 * g1 - E(69.0L / 2) * g1 * g2 - E(9) * g2 * g2
          - E(15.0L / 8) * sq(sq(n2)) + E(1.5L) * sq(n2) * v1 - E(6) * sq(n2) * v12 - E(2) * sq(v12) + E(4.5L) * sq(n2) * v2 + E(4) * v12 * v2 - E(2) * sq(v2)
          + g1 * (E(39.0L / 2) * sq(n1) - E(39) * n1 * n2 + E(17.0L / 2) * sq(n2) - E(15.0L / 4) * v1 - E(5.0L / 2) * v12 + E(5.0L / 4) * v2)
          + g2 * (E(2) * sq(n1) - E(4) * n1 * n2 - E(6) * sq(n2) - E(8) * v12 + E(4) * v2);
        B = g2 * (E(-2) * n1 - E(2) * n2) + g1 * (E(-63.0L / 4) * n1 + E(55.0L / 4) * n2)
          - E(6) * n1 * sq(n2) + E(4.5L) * n2 * sq(n2) + n2 * v1 - E(4) * n1 * v12 + E(4) * n2 * v12 + E(4) * n1 * v2 - E(5) * n2 * v2;
        coef = m2 / (r * r) / (c2 * c2);
    } else {
        A = nw * (E(208.0L / 15) * g2 - E(24.0L / 5) * g1 + E(12.0L / 5) * ww);
        B = E(8.0L / 5) * g1 - E(32.0L / 5) * g2 - E(4.0L / 5) * ww;
        coef = m1 * m2 / (r * r * r) / (c2 * c2 * light());
    }
    out += (n * A.v + w * B.v) * coef;
    size += (A.m + norm(w) * B.m) * coef * k;
}
}  // namespace pn
