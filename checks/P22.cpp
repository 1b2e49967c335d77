// P22: vectors, array kernels and the diagnostics of particle systems compute what they say
#include <algorithm>
#include "force_sys.hpp"
using namespace hub;
using pbt::Case;
using ref::R;
using ref::V;
template <class T> R eps_of() { return (R)std::numeric_limits<typename raw_type<T>::type>::epsilon(); }
template <class T> struct Name { static constexpr char const* n = "double"; };
template <> struct Name<float> { static constexpr char const* n = "float"; };
template <> struct Name<long double> { static constexpr char const* n = "long double"; };
template <> struct Name<double_k> { static constexpr char const* n = "Kahan double"; };

#define NEAR(C, group, err, unit, k, ...)                                                                            \
    do {                                                                                                             \
        R e__ = (err), u__ = (unit);                                                                                 \
        if (u__ > 0) pbt::cal(group, e__ / u__);                                                                     \
        REQUIRE(C, e__ <= (k) * u__, group, ": off by ", e__, ", allowed ", (k) * u__, ": ", __VA_ARGS__);           \
    } while (0)

template <class T> T num(Case& C, bool zero_ok = true) {
    switch (C.choice(5)) {
        case 0: if (zero_ok) return (T)0; return (T)1;
        case 1: return (T)C.integer(1, 5) * (C.boolean() ? 1 : -1);
        case 2: { T v = (T)C.logreal(1e-6, 1e6); return C.boolean() ? -v : v; }
        case 3: { T v = (T)(1 + 1e-5 * C.sym(1)); return C.boolean() ? -v : v; }
        default: { T v = (T)C.sym(10); return v == 0 && !zero_ok ? (T)1 : v; }
    }
}
static std::string show(V a) { return pbt::str("(", (double)a.x, ",", (double)a.y, ",", (double)a.z, ")"); }
template <class T> V lv(Vec3<T> const& a) { return V((R)a.x, (R)a.y, (R)a.z); }
static V each(V a, V b, int op) {
    auto f = [&](R x, R y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; };
    return V(f(a.x, b.x), f(a.y, b.y), f(a.z, b.z));
}
static V each_abs(V a, V b, int op) { return each(V(std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)), V(std::fabs(b.x), std::fabs(b.y), std::fabs(b.z)), op == 1 ? 0 : op); }
template <class X> static void vnear(Case& C, char const* what, X const& got, V want, V mag, R eps, R k = 1) {
    V g((R)got.x, (R)got.y, (R)got.z);
    R e[3] = {std::fabs(g.x - want.x), std::fabs(g.y - want.y), std::fabs(g.z - want.z)}, m[3] = {mag.x, mag.y, mag.z};
    for (int i = 0; i < 3; ++i) NEAR(C, what, e[i], eps * std::fabs(m[i]) * k, 4, "component ", i, " of ", show(g), " instead of ", show(want));
}
template <class T> void vectors(Case& C) {
    using W = Vec3<T>;
    R eps = eps_of<T>();
    W a(num<T>(C), num<T>(C), num<T>(C)), b(num<T>(C, false), num<T>(C, false), num<T>(C, false));
    T c = num<T>(C, false);
    if (C.chance(1, 6)) { b = a * (T)num<T>(C, false); for (T* q : {&b.x, &b.y, &b.z}) if (*q == 0) *q = 1; C.label("parallel"); }
    C.note(Name<T>::n, " a=", show(lv(a)), " b=", show(lv(b)), " c=", (double)c);
    C.nontrivial(a.x != 0 && a.y != 0 && a.z != 0);
    V A = lv(a), B = lv(b), CC((R)c, (R)c, (R)c);
    vnear(C, "a+b", a + b, each(A, B, 0), each_abs(A, B, 0), eps);
    vnear(C, "a-b", a - b, each(A, B, 1), each_abs(A, B, 1), eps);
    vnear(C, "a*b", a * b, each(A, B, 2), each_abs(A, B, 2), eps);
    vnear(C, "a/b", a / b, each(A, B, 3), each_abs(A, B, 3), eps);
    vnear(C, "a+c", a + c, each(A, CC, 0), each_abs(A, CC, 0), eps);
    vnear(C, "a-c", a - c, each(A, CC, 1), each_abs(A, CC, 1), eps);
    vnear(C, "a*c", a * c, each(A, CC, 2), each_abs(A, CC, 2), eps);
    vnear(C, "a/c", a / c, each(A, CC, 3), each_abs(A, CC, 3), eps);
    vnear(C, "c+a", c + a, each(A, CC, 0), each_abs(A, CC, 0), eps);
    vnear(C, "c-a", c - a, each(CC, A, 1), each_abs(A, CC, 1), eps);
    vnear(C, "c*a", c * a, each(A, CC, 2), each_abs(A, CC, 2), eps);
    vnear(C, "c/b", c / b, each(CC, B, 3), each_abs(CC, B, 3), eps);
    vnear(C, "-a", -a, V(-A.x, -A.y, -A.z), V(0, 0, 0), eps);
    W q = a; q += b; vnear(C, "a+=b", q, each(A, B, 0), each_abs(A, B, 0), eps);
    q = a; q -= b; vnear(C, "a-=b", q, each(A, B, 1), each_abs(A, B, 1), eps);
    q = a; q *= b; vnear(C, "a*=b", q, each(A, B, 2), each_abs(A, B, 2), eps);
    q = a; q /= b; vnear(C, "a/=b", q, each(A, B, 3), each_abs(A, B, 3), eps);
    q = a; q += c; vnear(C, "a+=c", q, each(A, CC, 0), each_abs(A, CC, 0), eps);
    q = a; q -= c; vnear(C, "a-=c", q, each(A, CC, 1), each_abs(A, CC, 1), eps);
    q = a; q *= c; vnear(C, "a*=c", q, each(A, CC, 2), each_abs(A, CC, 2), eps);
    q = a; q /= c; vnear(C, "a/=c", q, each(A, CC, 3), each_abs(A, CC, 3), eps);
    q = a; q += q; vnear(C, "a+=a", q, A * 2.0L, V(0, 0, 0), eps);
    q = a; q -= q; vnear(C, "a-=a", q, V(0, 0, 0), V(0, 0, 0), eps);
    q = c; vnear(C, "assign scalar", q, CC, V(0, 0, 0), eps);
    vnear(C, "from scalar", W(c), CC, V(0, 0, 0), eps);
    W def; vnear(C, "default", def, V(0, 0, 0), V(0, 0, 0), eps);
    Vec3<long double> wide(a); vnear(C, "conversion", wide, A, V(0, 0, 0), eps);
    Vec3<double> nar(a); vnear(C, "conversion", nar, A, A, std::max(eps, (R)2.3e-16L));
    V ab(std::fabs(A.x), std::fabs(A.y), std::fabs(A.z));
    vnear(C, "abs", a.abs(), ab, V(0, 0, 0), eps);
    vnear(C, "vec_abs", vec_abs(a), ab, V(0, 0, 0), eps);
    vnear(C, "vec_max", vec_max(a, b), V(std::max(A.x, B.x), std::max(A.y, B.y), std::max(A.z, B.z)), V(0, 0, 0), eps);
    vnear(C, "vec_min", vec_min(a, b), V(std::min(A.x, B.x), std::min(A.y, B.y), std::min(A.z, B.z)), V(0, 0, 0), eps);
    REQUIRE(C, (R)a.max_component() == std::max({A.x, A.y, A.z}), "max_component is ", (R)a.max_component(), " for ", show(A));
    REQUIRE(C, (R)max_abs(a) == std::max({ab.x, ab.y, ab.z}), "max_abs is ", (R)max_abs(a), " for ", show(A));
    R n2 = ref::dot(A, A), n = std::sqrt(n2), mag = std::fabs(A.x * B.x) + std::fabs(A.y * B.y) + std::fabs(A.z * B.z);
    NEAR(C, "norm", std::fabs((R)norm(a) - n), eps * n, 4, show(A));
    NEAR(C, "norm", std::fabs((R)a.norm() - n), eps * n, 4, show(A));
    NEAR(C, "norm2", std::fabs((R)norm2(a) - n2), eps * n2, 4, show(A));
    NEAR(C, "norm2", std::fabs((R)a.norm2() - n2), eps * n2, 4, show(A));
    if (n > 0) {
        NEAR(C, "re_norm", std::fabs((R)re_norm(a) - 1 / n), eps / n, 4, show(A));
        NEAR(C, "re_norm", std::fabs((R)a.re_norm() - 1 / n), eps / n, 4, show(A));
    }
    NEAR(C, "dot", std::fabs((R)dot(a, b) - ref::dot(A, B)), eps * mag, 4, show(A), show(B));
    R d = ref::norm(A - B);
    NEAR(C, "distance", std::fabs((R)distance(a, b) - d), eps * (d + ref::norm(A) + ref::norm(B)), 4, show(A), show(B));
    V x = ref::cross(A, B), xm(std::fabs(A.y * B.z) + std::fabs(A.z * B.y), std::fabs(A.z * B.x) + std::fabs(A.x * B.z), std::fabs(A.x * B.y) + std::fabs(A.y * B.x));
    vnear(C, "cross", cross(a, b), x, xm, eps);
}
LAW("vectors", "every operation on 3-vectors of float, double and long double with zeros, parallel vectors and large ratios, against long double; non-trivial: no component zero", 30000, 600000) {
    switch (C.choice(2)) {
        case 0: return vectors<double>(C);
        case 1: return vectors<long double>(C);
        default: return vectors<float>(C);
    }
}

// arrays of numbers -----------------------------------------------------------
template <class T> using Arr = SSO_vector<T>;
template <class T> using VArr = SSO_vec_vector<Vec3<T>>;
template <class T> Arr<T> arr(Case& C, size_t n, bool zero_ok = true) {
    using U = typename raw_type<T>::type;
    Arr<T> a(n);
    for (auto& q : a) q = num<U>(C, zero_ok);
    return a;
}
template <class T> VArr<T> varr(Case& C, size_t n) {
    using U = typename raw_type<T>::type;
    VArr<T> a(n);
    for (auto& q : a) { q.x = num<U>(C); q.y = num<U>(C); q.z = num<U>(C); }
    return a;
}
template <class A> std::vector<R> lr(A const& a) {
    std::vector<R> r;
    for (auto const& q : a) r.push_back((R)(typename raw_type<typename A::value_type>::type)q);
    return r;
}
static size_t length(Case& C) { return C.chance(1, 8) ? 0 : C.chance(1, 4) ? C.choice(40) : 1 + C.choice(7); }

template <class D, class F, class M> void check_arr(Case& C, char const* what, D const& got, size_t n, R eps, F want, M mag) {
    REQUIRE(C, got.size() == n, what, " changed the length from ", n, " to ", got.size());
    auto g = lr(got);
    for (size_t i = 0; i < n; ++i) NEAR(C, what, std::fabs(g[i] - want(i)), eps * std::fabs(mag(i)), 6, "element ", i, " of ", n, " is ", g[i], " instead of ", want(i));
}
// T: type of the arrays; D: type of the destination (may be compensated)
template <class T, class D> void scalars(Case& C) {
    size_t n = length(C);
    auto a = arr<T>(C, n), b = arr<T>(C, n, false), c = arr<T>(C, n);
    T s = num<T>(C, false), u = num<T>(C, false);
    auto A = lr(a), B = lr(b), Z = lr(c);
    R S = (R)s, U = (R)u, eps = eps_of<T>();
    C.note(Name<T>::n, " -> ", Name<D>::n, " length ", n, " s=", (double)s);
    C.nontrivial(n > 2);
    auto f = [](R x) { return std::fabs(x); };
    int op = (int)C.choice(20);
    bool alias = C.boolean();  // destination is the first operand
    C.note(" op ", op, alias ? " in place" : "");
    auto run = [&](char const* what, auto call, auto want, auto mag) {
        if constexpr (std::is_same_v<T, D>) {
            if (alias) { auto w = a; call(w, w); check_arr(C, what, w, n, eps, want, mag); return; }
        }
        auto d = arr<D>(C, n);
        call(d, a);
        check_arr(C, what, d, n, eps, want, mag);
    };
    auto adv = [&](char const* what, auto call, auto want, auto mag) {
        Arr<D> d(n);
        for (size_t i = 0; i < n; ++i) d[i] = a[i];
        call(d);
        check_arr(C, what, d, n, eps, want, mag);
    };
    switch (op) {
        case 0: return run("array_add", [&](auto& d, auto& x) { calc::array_add(d, x, b); }, [&](size_t i) { return A[i] + B[i]; }, [&](size_t i) { return f(A[i]) + f(B[i]); });
        case 1: return run("array_add 3", [&](auto& d, auto& x) { calc::array_add(d, x, b, c); }, [&](size_t i) { return A[i] + B[i] + Z[i]; }, [&](size_t i) { return f(A[i]) + f(B[i]) + f(Z[i]); });
        case 2: return run("array_sub", [&](auto& d, auto& x) { calc::array_sub(d, x, b); }, [&](size_t i) { return A[i] - B[i]; }, [&](size_t i) { return f(A[i]) + f(B[i]); });
        case 3: return run("array_mul", [&](auto& d, auto& x) { calc::array_mul(d, x, b); }, [&](size_t i) { return A[i] * B[i]; }, [&](size_t i) { return A[i] * B[i]; });
        case 4: return run("array_mul 3", [&](auto& d, auto& x) { calc::array_mul(d, x, b, c); }, [&](size_t i) { return A[i] * B[i] * Z[i]; }, [&](size_t i) { return A[i] * B[i] * Z[i]; });
        case 5: return run("array_div", [&](auto& d, auto& x) { calc::array_div(d, x, b); }, [&](size_t i) { return A[i] / B[i]; }, [&](size_t i) { return A[i] / B[i]; });
        case 6: return run("array_scale", [&](auto& d, auto& x) { calc::array_scale(d, x, s); }, [&](size_t i) { return A[i] * S; }, [&](size_t i) { return A[i] * S; });
        case 7: return run("array_div_scale", [&](auto& d, auto& x) { calc::array_div_scale(d, x, s); }, [&](size_t i) { return A[i] / S; }, [&](size_t i) { return A[i] / S; });
        case 8: return run("array_scale_add", [&](auto& d, auto& x) { calc::array_scale_add(d, x, b, s); }, [&](size_t i) { return (A[i] + B[i]) * S; }, [&](size_t i) { return (f(A[i]) + f(B[i])) * S; });
        case 9: return run("array_scale_add 2", [&](auto& d, auto& x) { calc::array_scale_add(d, x, s, b, u); }, [&](size_t i) { return A[i] * S + B[i] * U; }, [&](size_t i) { return f(A[i] * S) + f(B[i] * U); });
        case 10: return run("array_scale_sub", [&](auto& d, auto& x) { calc::array_scale_sub(d, x, b, s); }, [&](size_t i) { return (A[i] - B[i]) * S; }, [&](size_t i) { return (f(A[i]) + f(B[i])) * S; });
        case 11: return run("array_advance 4", [&](auto& d, auto& x) { calc::array_advance(d, x, b, s); }, [&](size_t i) { return A[i] + B[i] * S; }, [&](size_t i) { return f(A[i]) + f(B[i] * S); });
        case 12: return run("array_retreat 4", [&](auto& d, auto& x) { calc::array_retreat(d, x, b, s); }, [&](size_t i) { return A[i] - B[i] * S; }, [&](size_t i) { return f(A[i]) + f(B[i] * S); });
        case 13: return adv("array_advance", [&](auto& d) { calc::array_advance(d, b); }, [&](size_t i) { return A[i] + B[i]; }, [&](size_t i) { return f(A[i]) + f(B[i]); });
        case 14: return adv("array_retreat", [&](auto& d) { calc::array_retreat(d, b); }, [&](size_t i) { return A[i] - B[i]; }, [&](size_t i) { return f(A[i]) + f(B[i]); });
        case 15: return adv("array_advance 3", [&](auto& d) { calc::array_advance(d, b, s); }, [&](size_t i) { return A[i] + B[i] * S; }, [&](size_t i) { return f(A[i]) + f(B[i] * S); });
        case 16: return adv("array_retreat 3", [&](auto& d) { calc::array_retreat(d, b, s); }, [&](size_t i) { return A[i] - B[i] * S; }, [&](size_t i) { return f(A[i]) + f(B[i] * S); });
        case 17: {
            Arr<D> d(n), e(n);
            VArr<T> v = varr<T>(C, n);
            for (size_t i = 0; i < n; ++i) d[i] = e[i] = a[i];
            calc::set_arrays_zero(d, e, v);
            check_arr(C, "set_arrays_zero", d, n, 0, [](size_t) { return 0; }, [](size_t) { return 0; });
            check_arr(C, "set_arrays_zero", e, n, 0, [](size_t) { return 0; }, [](size_t) { return 0; });
            for (auto& q : v) REQUIRE(C, q.x == 0 && q.y == 0 && q.z == 0, "set_arrays_zero leaves a vector");
            return;
        }
        case 18: {
            R sum = 0, mag = 0;
            for (size_t i = 0; i < n; ++i) sum += A[i], mag += f(A[i]);
            R g = (R)calc::array_sum(a);
            NEAR(C, "array_sum", std::fabs(g - sum), eps * mag * (n + 1), 1, "sum ", g, " instead of ", sum);
            return;
        }
        default: {
            R sum = 0, mag = 0, sum3 = 0, mag3 = 0;
            for (size_t i = 0; i < n; ++i) { sum += A[i] * B[i], mag += f(A[i] * B[i]); sum3 += A[i] * B[i] * Z[i], mag3 += f(A[i] * B[i] * Z[i]); }
            R g = (R)calc::array_dot(a, b), h = (R)calc::array_dot(a, b, c);
            NEAR(C, "array_dot", std::fabs(g - sum), eps * mag * (n + 2), 1, g, " instead of ", sum);
            NEAR(C, "array_dot 3", std::fabs(h - sum3), eps * mag3 * (n + 3), 1, h, " instead of ", sum3);
            return;
        }
    }
}
LAW("array kernels", "every element-wise kernel on arrays of 0-40 numbers (double, long double, float, into compensated numbers), out of place and in place; non-trivial: more than two elements", 60000, 1200000) {
    switch (C.choice(3)) {
        case 0: return scalars<double, double>(C);
        case 1: return scalars<long double, long double>(C);
        case 2: return scalars<float, float>(C);
        default: return scalars<double, double_k>(C);
    }
}

template <class T, class D> void coords(Case& C) {
    using U = typename raw_type<T>::type;
    size_t n = length(C);
    auto a = varr<T>(C, n), b = varr<T>(C, n);
    auto w = arr<T>(C, n);
    T s = num<T>(C, false);
    R S = (R)s, eps = eps_of<T>();
    auto W = lr(w);
    std::vector<V> A, B;
    for (auto& q : a) A.push_back(lv(q));
    for (auto& q : b) B.push_back(lv(q));
    C.note(Name<T>::n, " -> ", Name<D>::n, " length ", n);
    C.nontrivial(n > 2);
    auto f = [](R x) { return std::fabs(x); };
    auto mabs = [&](V q) { return V(f(q.x), f(q.y), f(q.z)); };
    auto dmag = [&](size_t i) { return f(A[i].x * B[i].x) + f(A[i].y * B[i].y) + f(A[i].z * B[i].z); };
    switch (C.choice(8)) {
        case 0: {
            Arr<T> d(n);
            calc::coord_dot(d, a, b);
            return check_arr(C, "coord_dot", d, n, eps, [&](size_t i) { return ref::dot(A[i], B[i]); }, dmag);
        }
        case 1: {
            R x = 0, xm = 0, y = 0, ym = 0;
            for (size_t i = 0; i < n; ++i) { R q = ref::dot(A[i], B[i]); x += q; xm += dmag(i); y += q * W[i]; ym += dmag(i) * f(W[i]); }
            NEAR(C, "contract", std::fabs((R)calc::coord_contract_to_scalar(a, b) - x), eps * xm * (n + 3), 1, "n=", n);
            NEAR(C, "weighted contract", std::fabs((R)calc::coord_contract_to_scalar(w, a, b) - y), eps * ym * (n + 4), 1, "n=", n);
            return;
        }
        case 2: {
            if (n == 0) return;
            R M = 0;
            for (auto& q : w) { q = std::fabs(q); M += (R)q; }
            if (M == 0) return;
            V c, cm;
            for (size_t i = 0; i < n; ++i) { c += A[i] * ((R)w[i] / M); cm += mabs(A[i]) * ((R)w[i] / M); }
            vnear(C, "calc_com", calc::calc_com(w, a), c, cm, eps * (n + 3));
            auto m = a;
            calc::move_to_com(w, m);
            for (size_t i = 0; i < n; ++i) vnear(C, "move_to_com", m[i], A[i] - c, cm + mabs(A[i]), eps * (n + 3));
            return;
        }
        case 3: {  // flat arrays of coordinates and back
            Arr<D> flat = arr<D>(C, C.choice(5));
            size_t off = flat.size();
            auto before = lr(flat);
            calc::array_set_zero(flat);
            if constexpr (std::is_same_v<T, D>) for (size_t i = 0; i < off; ++i) flat[i] = (T)before[i];
            auto keep = lr(flat);
            add_coords_to(flat, a);
            REQUIRE(C, flat.size() == off + 3 * n, "add_coords_to: length ", flat.size(), " instead of ", off + 3 * n);
            for (size_t i = 0; i < off; ++i) REQUIRE(C, (R)(U)flat[i] == keep[i], "add_coords_to changed the values already there");
            for (size_t i = 0; i < n; ++i) REQUIRE(C, (U)flat[off + 3 * i] == (U)a[i].x && (U)flat[off + 3 * i + 1] == (U)a[i].y && (U)flat[off + 3 * i + 2] == (U)a[i].z, "add_coords_to: vector ", i, " is not stored as x,y,z");
            auto back = varr<D>(C, C.choice(8));
            load_to_coords(flat.begin() + off, flat.end(), back);
            REQUIRE(C, back.size() == n, "load_to_coords: ", back.size(), " vectors instead of ", n);
            for (size_t i = 0; i < n; ++i) REQUIRE(C, (U)back[i].x == (U)a[i].x && (U)back[i].y == (U)a[i].y && (U)back[i].z == (U)a[i].z, "coordinates change in a round trip");
            return;
        }
        case 4: {
            Arr<D> flat = arr<D>(C, C.choice(5));
            size_t off = flat.size();
            add_scaled_coords_to(flat, a, s);
            REQUIRE(C, flat.size() == off + 3 * n, "add_scaled_coords_to: length ", flat.size(), " instead of ", off + 3 * n);
            VArr<D> got;
            load_to_coords(flat.begin() + off, flat.end(), got);
            for (size_t i = 0; i < n; ++i) vnear(C, "add_scaled_coords_to", got[i], A[i] * S, A[i] * S, eps);
            return;
        }
        case 5: case 6: {
            bool scaled = C.boolean();
            Arr<D> flat;
            add_coords_to(flat, a);
            if (scaled) advance_scaled_coords_to(flat.begin(), b, s); else advance_coords_to(flat.begin(), b);
            R k = scaled ? S : 1;
            VArr<D> got;
            load_to_coords(flat.begin(), flat.end(), got);
            for (size_t i = 0; i < n; ++i) vnear(C, scaled ? "advance_scaled_coords_to" : "advance_coords_to", got[i], A[i] + B[i] * k, mabs(A[i]) + mabs(B[i] * k), eps);
            return;
        }
        case 7: {
            VArr<D> d(n);
            for (size_t i = 0; i < n; ++i) d[i] = a[i];
            bool back = C.boolean();
            if (back) calc::array_retreat(d, b, s); else calc::array_advance(d, b, s);
            R k = back ? -S : S;
            for (size_t i = 0; i < n; ++i) vnear(C, "advance of coordinates", d[i], A[i] + B[i] * k, mabs(A[i]) + mabs(B[i] * k), eps);
            return;
        }
        default: {  // weighted sum of vectors
            V x, xm;
            for (size_t i = 0; i < n; ++i) { x += A[i] * W[i]; xm += mabs(A[i] * W[i]); }
            vnear(C, "array_dot of vectors", calc::array_dot(a, w), x, xm, eps * (n + 2));
            return;
        }
    }
}
LAW("coordinate kernels", "kernels on arrays of 0-40 vectors, their flat representation as x,y,z triples, centre of mass; non-trivial: more than two vectors", 40000, 800000) {
    switch (C.choice(2)) {
        case 0: return coords<double, double>(C);
        case 1: return coords<long double, long double>(C);
        default: return coords<double, double_k>(C);
    }
}
// compensation terms
LAW("compensation kernels", "saving, loading, copying and clearing the compensation of arrays of compensated numbers and vectors; non-trivial: more than two elements", 20000, 300000) {
    size_t n = length(C);
    C.note("length ", n);
    C.nontrivial(n > 2);
    Arr<double_k> a(n), b(n), p(n);
    Arr<double> e(n);
    VArr<double_k> va(n), vb(n), vp(n);
    VArr<double> ve(n);
    auto fill = [&](double_k& q) { q = num<double>(C); q += 1e-17 * num<double>(C); };
    for (size_t i = 0; i < n; ++i) { fill(a[i]); fill(b[i]); fill(va[i].x); fill(va[i].y); fill(va[i].z); fill(vb[i].x); p[i] = a[i]; vp[i] = va[i]; }
    calc::array_save_err(e, a);
    calc::array_save_err(ve, va);
    calc::array_set_err_zero(a);
    calc::array_set_err_zero(va);
    for (size_t i = 0; i < n; ++i) {
        REQUIRE(C, e[i] == p[i].err && ve[i].x == vp[i].x.err && ve[i].y == vp[i].y.err && ve[i].z == vp[i].z.err, "array_save_err, element ", i);
        REQUIRE(C, a[i].err == 0 && va[i].x.err == 0 && va[i].y.err == 0 && va[i].z.err == 0, "array_set_err_zero, element ", i);
        REQUIRE(C, a[i].real == p[i].real && va[i].x.real == vp[i].x.real && va[i].y.real == vp[i].y.real && va[i].z.real == vp[i].z.real, "array_set_err_zero changes the values");
    }
    calc::array_load_err(a, e);
    calc::array_load_err(va, ve);
    calc::array_copy_err(b, p);
    calc::array_copy_err(vb, vp);
    for (size_t i = 0; i < n; ++i) {
        REQUIRE(C, a[i].err == p[i].err && va[i].x.err == vp[i].x.err && va[i].y.err == vp[i].y.err && va[i].z.err == vp[i].z.err, "array_load_err, element ", i);
        REQUIRE(C, b[i].err == p[i].err && vb[i].x.err == vp[i].x.err && vb[i].y.err == vp[i].y.err && vb[i].z.err == vp[i].z.err, "array_copy_err, element ", i);
    }
}

// diagnostics -----------------------------------------------------------------
template <class S, class = void> struct regularised : std::false_type {};
template <class S> struct regularised<S, std::void_t<decltype(S::regu_type)>> : std::true_type {};
template <class S> void diagnostics(Case& C, char const* name) {
    using namespace fs;
    auto b = config(C, 1, 12);
    size_t n = b.size();
    C.note(name, " ", sim::describe(b));
    C.nontrivial(n > 2);
    S s = fs::make<S>(b);
    R eps = epsilon<S>();
    R T = 0, U = 0, Us = 0;
    V L, P;
    R Lm = 0;
    for (auto& q : b) { T += q.m * ref::dot(vel(q), vel(q)) / 2; L += ref::cross(pos(q), vel(q)) * q.m; Lm += q.m * norm(pos(q)) * norm(vel(q)); }
    auto k = pair_slack(s, b);
    R tff = -1;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            R r = norm(pos(b[i]) - pos(b[j]));
            U -= b[i].m * b[j].m / r;
            Us += b[i].m * b[j].m / r * k[i][j];
            R t = ref::PI / 2 * std::sqrt(r * r * r / (2 * (b[i].m + b[j].m)));
            if (tff < 0 || t < tff) tff = t;
        }
    // positions in a chain system may be recomputed along the chain
    NEAR(C, "kinetic", std::fabs((R)calc::calc_kinetic_energy(s) - T), eps * T * (n + 3), 2, "n=", n);
    R u = (R)calc::calc_potential_energy(s);
    NEAR(C, "potential", std::fabs(u - U), eps * Us * (n + 3), 2, "got ", u, " instead of ", U, " n=", n);
    NEAR(C, "total", std::fabs((R)calc::calc_total_energy(s) - (T + U)), eps * (T + Us) * (n + 3), 2, "n=", n);
    auto gl = calc::calc_total_angular_momentum(s);
    NEAR(C, "angular momentum", norm(V((R)gl.x, (R)gl.y, (R)gl.z) - L), eps * Lm * (n + 3), 2, "n=", n);
    // a subset
    std::vector<size_t> id;
    for (size_t i = 0; i < n; ++i) if (C.boolean()) id.push_back(i);
    if (!id.empty()) {
        V Ls, c, w, Li;
        R M = 0, Lsm = 0, Lim = 0, cm = 0, wm = 0;
        for (auto i : id) { Ls += ref::cross(pos(b[i]), vel(b[i])) * b[i].m; Lsm += b[i].m * norm(pos(b[i])) * norm(vel(b[i])); M += b[i].m; }
        for (auto i : id) { c += pos(b[i]) * (b[i].m / M); w += vel(b[i]) * (b[i].m / M); cm = std::max(cm, norm(pos(b[i]))); wm = std::max(wm, norm(vel(b[i]))); }
        for (auto i : id) { V x = pos(b[i]) - c, y = vel(b[i]) - w; Li += ref::cross(x, y) * b[i].m; Lim += b[i].m * (norm(x) * (norm(y) + wm) + cm * norm(y)); }
        auto g1 = calc::calc_angular_momentum(s, id);
        auto g2 = calc::calc_isolated_angular_momentum(s, id);
        NEAR(C, "angular momentum of a subset", norm(V((R)g1.x, (R)g1.y, (R)g1.z) - Ls), eps * Lsm * (n + 3), 2, id.size(), " of ", n);
        NEAR(C, "isolated angular momentum", norm(V((R)g2.x, (R)g2.y, (R)g2.z) - Li), eps * (Lim + M * cm * wm * eps * 8) * (n + 3), 4, id.size(), " of ", n, " (", (double)g2.x, ",", (double)g2.y, ",", (double)g2.z, ") instead of ", show(Li));
    }
    if (tff > 0) {
        R g = (R)calc::calc_fall_free_time(s.mass(), s.pos());
        NEAR(C, "free fall time", std::fabs(g - tff), std::max(eps, (R)2.3e-16L) * tff * 8, 1, g, " instead of ", tff);
        R E0 = (R)(typename S::Scalar)((T + U) * (R)C.real(1, 2));
        if (E0 != 0) {
            R e = (R)calc::calc_energy_error(s, (typename S::Scalar)E0);
            if constexpr (!regularised<S>::value) {
                NEAR(C, "energy error", std::fabs(e - std::fabs((T + U - E0) / E0)), eps * (T + Us + std::fabs(E0)) / std::fabs(E0) * (n + 5), 2, e);
            } else {
                // log |(T + binding energy) / U|: zero as long as the conserved binding energy is that of the state
                NEAR(C, "regularised energy error", std::fabs(e), eps * (T + Us) / -U * (n + 5), 4, e);
            }
        }
    }
}
#define ONE(M) diagnostics<typename methods::M<>::ParticleSystem>(C, #M)
LAW("diagnostics", "energies, angular momenta (of all, of a subset, about its own centre of mass), free fall time and energy error of systems of 1-12 bodies of every kind, tight pairs and shifted frames; non-trivial: more than two bodies", 12000, 300000) {
    switch (C.choice(7)) {
        case 0: return ONE(BS);
        case 1: return ONE(Chain_BS);
        case 2: return ONE(AR_BS);
        case 3: return ONE(AR_Chain);
        case 4: return ONE(BS_ExtPlus);
        case 5: return ONE(Chain_BS_Ext);
        case 6: return ONE(AR_BS_Plus);
        default: return ONE(AR_Chain_ExtPlus);
    }
}
