// P17: compensated numbers accumulate without loss, and the Plus methods use them
//: methods all
#include <quadmath.h>
#include "gen.hpp"
#include "spaceHub.hpp"
using namespace hub;
using pbt::Case;
typedef __float128 Q;
static Q qabs(Q a) { return a < 0 ? -a : a; }
template <class T> T eps_of() { return std::numeric_limits<T>::epsilon(); }

// second: the class keeps a second-order compensation
template <class K> struct Kind { static constexpr bool second = false; };
template <class T> struct Kind<Klein<T>> { static constexpr bool second = true; };

// The exact value and what the class may have lost so far.
template <class K> struct Model {
    using T = typename K::value_type;
    K k{T(0)};
    Q x{0}, mag{0}, extra{0}, last{0};  // exact value; sum of magnitudes added; rounding of the products; last term added
    long n{0};
    Q tol() const {
        Q e = (Q)eps_of<T>();
        if (Kind<K>::second) return 2 * e * (qabs(x) + last) + (8 + 4 * (Q)n) * e * e * mag * 4 + 2 * extra;
        return 2 * e * mag + 16 * (Q)n * e * e * mag + 2 * extra;
    }
    void check(Case& C, char const* what) {
        Q err = qabs((Q)(T)k - x), t = tol();
        if (t > 0) pbt::cal(what, (long double)(err / t));
        REQUIRE(C, err <= t, what, ": the number is ", (long double)(T)k, ", exactly ", (long double)x, " (off by ", (long double)err, ", allowed ", (long double)t, ") after ", n, " additions");
    }
};
template <class T> T gen_num(Case& C, int regime, T big) {
    T v;
    switch (regime) {
        case 0: v = (T)C.logreal(1e-3, 1e3); break;
        case 1: v = (T)C.logreal(1e-12, 1e12); break;
        case 2: v = big * eps_of<T>() * (T)C.logreal(1e-3, 10); break;
        default: v = C.chance(1, 4) ? big : (T)C.real(0, 1); break;
    }
    v += v * (T)C.sym(1) * eps_of<T>() * 1024;
    return C.chance(1, 4) ? -v : v;
}
template <class K> void history(Case& C, bool scaling) {
    using T = typename K::value_type;
    Model<K> m;
    int regime = (int)C.choice(3);
    T big = (T)C.logreal(1, 1e12);
    if (C.boolean()) { m.k = K(big); m.x = big; m.mag = big; }
    int len = 1 + (int)C.choice(C.chance(1, 4) ? 2000 : 40);
    C.note(" regime ", regime, " start ", (long double)m.x);
    bool added = false;
    for (int i = 0; i < len; ++i) {
        int op = (int)C.choice(scaling ? 9 : 3);
        T v = gen_num<T>(C, regime, big);
        if (len <= 12) C.note(" [", op, ":", (long double)v, "]");
        switch (op) {
            case 0: case 4: m.k += v; m.x += (Q)v; break;
            case 1: case 5: m.k -= v; m.x -= (Q)v; break;
            case 2: m.k += K(v); m.x += (Q)v; break;
            case 3: m.k -= K(v); m.x -= (Q)v; break;
            case 6: case 7: {
                T s = (T)C.logreal(0.01, 100);
                if (C.boolean()) s = (T)std::ldexp(1, (int)C.integer(-3, 3));
                if (C.boolean()) s = -s;
                Q f = op == 6 ? (Q)s : 1 / (Q)s;
                if (op == 6) m.k *= s; else m.k /= s;
                m.x *= f; m.mag *= qabs(f); m.last *= qabs(f);
                m.extra = m.extra * qabs(f) + (Q)eps_of<T>() * qabs(m.x);
                if (added) C.nontrivial();
                m.check(C, op == 6 ? "after *=" : "after /=");
                continue;
            }
            case 8: m.k = v; m.x = v; m.mag = qabs((Q)v); m.extra = 0; m.n = 0; m.last = 0; break;
            default: { K c(m.k); K d{T(0)}; d = c; m.k = d; continue; }
        }
        if (op != 8) { m.mag += qabs((Q)v); m.last = qabs((Q)v); ++m.n; added = true; }
        if (len <= 40 || i == len - 1) m.check(C, op < 8 ? "after adding" : "after assigning");
    }
    if (!scaling && qabs(m.x) > 0 && m.n > 10) C.nontrivial();
    m.check(C, "at the end");
}
template <template <class> class K> void any_type(Case& C, bool scaling) {
    switch (C.choice(2)) {
        case 0: C.note("double"); return history<K<double>>(C, scaling);
        case 1: C.note("long double"); return history<K<long double>>(C, scaling);
        default: C.note("float"); return history<K<float>>(C, scaling);
    }
}
static void any_class(Case& C, bool scaling) {
    switch (C.choice(2)) {
        case 0: C.note("Kahan "); return any_type<Kahan>(C, scaling);
        case 1: C.note("Neumaier "); return any_type<Neumaier>(C, scaling);
        default: C.note("Klein "); return any_type<Klein>(C, scaling);
    }
}
LAW("sums", "up to 2000 additions and subtractions of numbers or compensated numbers, equal or wildly different in size, on Kahan, Neumaier and Klein numbers of float, double and long double, against quadruple precision; non-trivial: more than 10 terms", 60000, 1500000) { any_class(C, false); }
LAW("arithmetic histories", "additions, subtractions, multiplications, divisions, assignments and copies in any order; non-trivial: a scaling after an addition", 60000, 1500000) { any_class(C, true); }

template <class K> void tiny(Case& C, int log2n) {
    using T = typename K::value_type;
    T big = (T)C.logreal(1, 1e6), d = big * eps_of<T>() * (T)C.logreal(1e-3, 1);
    long n = (1l << log2n) + (long)C.choice(1000);
    bool down = C.boolean();
    C.note(" ", n, " times ", (long double)d, down ? " subtracted from " : " added to ", (long double)big);
    C.nontrivial();
    K k(big);
    for (long i = 0; i < n; ++i) { if (down) k -= d; else k += d; }
    Q x = (Q)big + (down ? -1 : 1) * (Q)n * (Q)d, err = qabs((Q)(T)k - x), t = (Q)eps_of<T>() * (qabs(x) + 3 * (Q)n * d + 4 * (Q)n * eps_of<T>() * big);
    pbt::cal("tiny", (long double)(err / t));
    REQUIRE(C, err <= 2 * t, "the result is ", (long double)(T)k, ", exactly ", (long double)x, ", off by ", (long double)err, ", one unit in the last place is ", (long double)(eps_of<T>() * big));
}
LAW("tiny increments", "up to 130 000 equal increments below the last place of a large number; non-trivial: all", 600, 20000) {
    int l = (int)C.integer(4, 17);
    switch (C.choice(6)) {
        case 0: C.note("Kahan double"); return tiny<Kahan<double>>(C, l);
        case 1: C.note("Neumaier double"); return tiny<Neumaier<double>>(C, l);
        case 2: C.note("Klein double"); return tiny<Klein<double>>(C, l);
        case 3: C.note("Kahan long double"); return tiny<Kahan<long double>>(C, l);
        case 4: C.note("Neumaier long double"); return tiny<Neumaier<long double>>(C, l);
        case 5: C.note("Klein long double"); return tiny<Klein<long double>>(C, l);
        default: C.note("Kahan float"); return tiny<Kahan<float>>(C, l);
    }
}
template <class K> void text(Case& C) {
    using T = typename K::value_type;
    T big = (T)C.logreal(1, 1e25);
    K k(big);
    for (int i = (int)C.choice(8); i >= 0; --i) k += C.boolean() ? big * (T)C.real(0, 2) * eps_of<T>() : big * (T)C.sym(1);
    T v = (T)C.logreal(1e-5, 1e5);
    std::stringstream s;
    s.precision(25);
    s << K(v);
    s >> k;
    REQUIRE(C, (T)k == v, "wrote ", (long double)v, ", read ", (long double)(T)k);
    k += (T)0;
    REQUIRE(C, (T)k == v, "a number just read changes when zero is added: ", (long double)v, " -> ", (long double)(T)k);
    K a((T)1);
    a += eps_of<T>() * (T)0.3;
    a.zero_err();
    a += (T)0;
    REQUIRE(C, (T)a == 1, "zero_err leaves a compensation: 1 -> ", (long double)(T)a);
    K b((T)-3);
    REQUIRE(C, (T)(-b) == 3 && (T)(-K(v)) == -v, "negation");
}
LAW("stream and reset", "numbers written and read back, into numbers that carry a compensation; zero_err; negation; non-trivial: all", 20000, 200000) {
    C.nontrivial();
    switch (C.choice(5)) {
        case 0: return text<Kahan<double>>(C);
        case 1: return text<Neumaier<double>>(C);
        case 2: return text<Klein<double>>(C);
        case 3: return text<Kahan<long double>>(C);
        case 4: return text<Neumaier<long double>>(C);
        default: return text<Klein<long double>>(C);
    }
}

LAW("uniform motion of the Plus methods",
    "one free particle over up to 30 000 constant steps of every Plus and ExtPlus method in plain and chain systems: the error of time and position does not grow with the number of steps; non-trivial: more than 1000 steps",
    600, 20000) {
    static auto ms = [] {
        std::vector<sim::Method const*> v;
        for (auto& m : sim::methods()) if (m.fixed && (m.prec == sim::DblComp || m.prec == sim::ExtComp) && !m.regularised()) v.push_back(&m);
        return v;
    }();
    REQUIRE(C, !ms.empty(), "no such method");
    auto const& m = *C.pick(ms);
    sim::Body b;
    b.m = 1;
    for (int j = 0; j < 3; ++j) { b.x[j] = C.sym(100); b.v[j] = C.sym(1); }
    double t0 = C.boolean() ? C.sym(1000) : 0, h = C.logreal(1e-4, 1);
    long n = (long)C.logreal(10, 30000);
    C.note(m.name, " ", n, " steps of ", h, " from t=", t0, " ", sim::describe({b}));
    C.nontrivial(n > 1000);
    auto s = m.make(t0, {b});
    sim::RunSpec r;
    r.has_end = false; r.step = h; r.max_steps = n + 100;
    long k = 0;
    r.stop = [&](sim::View const&, sim::real) { return k++ >= n; };
    s->run(r);
    long double e = m.prec == sim::ExtComp ? 1.1e-19L : 2.2e-16L;
    long double dt = (long double)s->view().time() - (long double)t0;
    long nn = std::lroundl(dt / h);
    long double err = std::fabs(dt - nn * (long double)h), unit = e * (std::fabs((long double)t0) + nn * (long double)h);
    // the coefficients of the composition methods are double numbers, their sum is one to that precision
    if (m.prec == sim::ExtComp) unit += 2.2e-16L * nn * (long double)h;
    pbt::cal("time", err / unit);
    REQUIRE(C, nn >= n - 2 && nn <= n + 2, "took ", nn, " steps instead of ", n);
    REQUIRE(C, err <= 8 * unit, "time is off by ", err, " after ", nn, " steps, ", err / unit, " units in the last place");
    auto q = s->view().body(0);
    for (int j = 0; j < 3; ++j) {
        long double x = b.x[j] + b.v[j] * dt;
        long double er = std::fabs(q.x[j] - x), u = e * (std::fabs(b.x[j]) + std::fabs(b.v[j]) * (std::fabs((long double)t0) + 3 * nn * (long double)h));
        if (u > 0) pbt::cal("position", er / u);
        REQUIRE(C, er <= 8 * u, "coordinate ", j, " is off by ", er, " after ", nn, " steps, ", er / u, " units in the last place");
        REQUIRE(C, std::fabs(q.v[j] - b.v[j]) <= e * std::fabs(b.v[j]), "the velocity changed");
    }
}

// the scalars a method keeps its state in
template <class M, bool plus, class T> void state(Case& C, char const* name) {
    using S = typename M::ParticleSystem::StateScalar;
    using K = std::conditional_t<plus, Kahan<T>, T>;
    REQUIRE(C, (std::is_same_v<typename M::Scalar, T>), name, " computes in another precision than its name says");
    if constexpr (plus) {
        REQUIRE(C, (!std::is_same_v<S, T>), name, " keeps its state in plain numbers");
        // a step of a hundredth of the last place, many times
        S s(1);
        for (int i = 0; i < 1000; ++i) s += std::numeric_limits<T>::epsilon() * (T)0.01;
        REQUIRE(C, (T)s > 1 + 9 * std::numeric_limits<T>::epsilon() && (T)s < 1 + 11 * std::numeric_limits<T>::epsilon(), name, ": its state loses small increments");
    } else REQUIRE(C, (std::is_same_v<S, K>), name, " has another state type than its name says");
}
#define FOUR(N)                                                        \
    { state<hub::methods::N<>, false, double>(C, #N);                       \
      state<hub::methods::N##_Plus<>, true, double>(C, #N "_Plus");         \
      state<hub::methods::N##_Ext<>, false, long double>(C, #N "_Ext");     \
      state<hub::methods::N##_ExtPlus<>, true, long double>(C, #N "_ExtPlus"); }
#define KINDS(N) FOUR(N) FOUR(AR_##N) FOUR(Chain_##N) FOUR(AR_##N##_Chain) FOUR(Const_##N) FOUR(Const_AR_##N) FOUR(Const_Chain_##N) FOUR(Const_AR_##N##_Chain)
LAW("precision of the methods", "all plain, Plus, Ext and ExtPlus variants of a family of methods: precision and compensation of the state; non-trivial: all", 8, 8) {
    C.nontrivial();
    FOUR(BS) FOUR(AR_BS) FOUR(Chain_BS) FOUR(AR_Chain)
    KINDS(Sym2) KINDS(Sym4) KINDS(Sym6) KINDS(Sym8) KINDS(Sym10) KINDS(Radau)
}
