// P10: chain coordinates: nearest-neighbour chains, exact transformations, consistency while integrating.
//: flags -O1
#include "gen.hpp"
#include "sim_impl.hpp"
using ref::R;
using ref::V;

// Is `idx` an order that greedy nearest-neighbour chaining can produce?  Link the closest pair first, then repeatedly
// the closest unlinked particle to either end.  Distances within `slop` of each other count as tied.
static bool nearest_chain(std::vector<V> const& x, std::vector<size_t> const& idx, R slop, std::string* why) {
    size_t n = x.size();
    auto d = [&](size_t a, size_t b) { return ref::norm(x[idx[a]] - x[idx[b]]); };
    R shortest = 1e300L;
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) shortest = std::min(shortest, d(i, j));
    std::vector<std::vector<char>> seen(n, std::vector<char>(n, 0));
    std::vector<std::pair<size_t, size_t>> todo;
    size_t best = 0;
    for (size_t i = 0; i + 1 < n; ++i) if (d(i, i + 1) <= shortest * (1 + slop)) { todo.push_back({i, i + 1}); seen[i][i + 1] = 1; }
    if (todo.empty()) { *why = "the closest pair is not adjacent"; return false; }
    while (todo.size()) {
        auto [l, r] = todo.back();
        todo.pop_back();
        best = std::max(best, r - l + 1);
        if (r - l + 1 == n) return true;
        R m = 1e300L;
        for (size_t k = 0; k < n; ++k) if (k < l || k > r) m = std::min({m, d(k, l), d(k, r)});
        if (l > 0 && d(l - 1, l) <= m * (1 + slop) && !seen[l - 1][r]) { seen[l - 1][r] = 1; todo.push_back({l - 1, r}); }
        if (r + 1 < n && d(r, r + 1) <= m * (1 + slop) && !seen[l][r + 1]) { seen[l][r + 1] = 1; todo.push_back({l, r + 1}); }
    }
    *why = pbt::str("only ", best, " of ", n, " particles are linked in nearest-neighbour order");
    return false;
}
static bool permutation(std::vector<size_t> p, size_t n) {
    if (p.size() != n) return false;
    std::sort(p.begin(), p.end());
    for (size_t i = 0; i < n; ++i) if (p[i] != i) return false;
    return true;
}
static std::vector<V> points(pbt::Case& C, size_t n) {
    std::vector<V> x;
    int kind = C.choice(4);
    C.label(kind == 0 ? "uniform" : kind == 1 ? "lattice (ties)" : kind == 2 ? "clustered" : kind == 3 ? "line" : "spread over magnitudes");
    R off = C.chance(1, 4) ? C.sym(100) : 0;
    V u = gen::unit(C);
    for (size_t i = 0; i < n; ++i) {
        V p;
        switch (kind) {
            case 0: p = V(C.sym(1), C.sym(1), C.sym(1)); break;
            case 1: p = V(C.integer(0, 3), C.integer(0, 3), C.integer(0, 2)); break;
            case 2: p = i && C.boolean() ? x[C.choice(i - 1)] + gen::unit(C) * (R)C.logreal(1e-4, 0.1) : V(C.sym(10), C.sym(10), C.sym(10)); break;
            case 3: p = u * (R)C.sym(5); break;
            default: p = gen::unit(C) * (R)C.logreal(1e-3, 1e4);
        }
        if (kind != 1) p += V(off, off, -off);
        bool dup = false;
        for (auto& q : x) dup = dup || ref::norm(p - q) == 0;
        if (dup) { --i; if (x.size() > 60 || C.choices().size() > 4000) C.discard(); continue; }
        x.push_back(V((double)p.x, (double)p.y, (double)p.z));
    }
    return x;
}
template <class T> using Types = hub::Types<T>;
template <class VA> static VA to_array(std::vector<V> const& x) {
    VA a;
    using Vec = typename VA::value_type;
    using S = std::decay_t<decltype(Vec().x)>;
    for (auto& p : x) a.emplace_back(Vec(S(p.x), S(p.y), S(p.z)));
    return a;
}
template <class Vec> static V from(Vec const& p) { return V((R)p.x, (R)p.y, (R)p.z); }
template <class VA> static std::vector<V> from_array(VA const& a) { std::vector<V> r; for (auto& p : a) r.push_back(from(p)); return r; }
static std::string show(std::vector<V> const& x) {
    std::string s;
    for (auto& p : x) s += pbt::str("(", (double)p.x, ",", (double)p.y, ",", (double)p.z, ") ");
    return s;
}
template <class Idx> static std::vector<size_t> ids(Idx const& i) { return std::vector<size_t>(i.begin(), i.end()); }
static std::string show(std::vector<size_t> const& x) { std::string s; for (auto i : x) s += pbt::str(i, " "); return s; }

template <class T> static void order(pbt::Case& C) {
    size_t n = C.integer(2, 14);
    auto x = points(C, n);
    C.note(n, " particles: ", show(x));
    auto arr = to_array<typename Types<T>::VectorArray>(x);
    typename Types<T>::IdxArray idx;
    if (C.boolean()) for (size_t k = C.choice(n); k > 0; --k) idx.emplace_back(k);  // stale content must not matter
    hub::Chain::calc_chain_index(arr, idx);
    auto p = ids(idx);
    REQUIRE(C, permutation(p, n), "the chain is not a permutation: ", show(p));
    std::string why;
    C.nontrivial(n > 3);
    REQUIRE(C, nearest_chain(x, p, 1e-12L, &why), "not a nearest-neighbour chain (", why, "): ", show(p));
}
LAW("chain order", "2-14 particles, uniform, clustered, collinear, on a lattice with ties, spread over 7 decades; non-trivial: more than 3", 400000, 20000000) {
    if (C.boolean()) order<double>(C); else order<hub::double_k>(C);
}
template <class T> static void transforms(pbt::Case& C) {
    using A = typename Types<T>::StateVectorArray;
    size_t n = C.integer(2, 14);
    auto x = points(C, n);
    auto perm = [&] {
        typename Types<T>::IdxArray i;
        for (size_t k = 0; k < n; ++k) i.emplace_back(k);
        for (size_t k = n; k-- > 1;) std::swap(i[k], i[C.choice(k)]);
        return i;
    };
    auto i1 = perm(), i2 = perm();
    C.note(n, " particles: ", show(x), " chains ", show(ids(i1)), " / ", show(ids(i2)));
    R scale = 0;
    for (auto& p : x) scale = std::max(scale, ref::norm(p));
    R tol = 2.3e-16L * 8 * n * scale;
    C.nontrivial(n > 2);
    auto pos = to_array<A>(x);
    A ch(n), back(n);
    hub::Chain::calc_chain(pos, ch, i1);
    auto c = from_array(ch);
    REQUIRE(C, c.size() == n, "chain has ", c.size(), " entries");
    for (size_t k = 0; k + 1 < n; ++k)
        REQUIRE(C, ref::norm(c[k] - (x[i1[k + 1]] - x[i1[k]])) <= tol, "link ", k, " is not the separation of the particles it joins");
    std::vector<double> m;
    for (size_t k = 0; k < n; ++k) m.push_back(C.logreal(1e-3, 1e2));
    typename Types<T>::ScalarArray mass;
    for (auto q : m) mass.emplace_back(q);
    hub::Chain::calc_cartesian(mass, ch, back, i1);
    auto b = from_array(back);
    for (size_t k = 0; k < n; ++k) REQUIRE(C, ref::norm(b[k] - x[k]) <= tol, "particle ", k, " comes back displaced by ", ref::norm(b[k] - x[k]));
    // re-chaining
    hub::Chain::update_chain(ch, pos, i1, i2);
    auto u = from_array(ch);
    REQUIRE(C, u.size() == n, "updated chain has ", u.size(), " entries");
    for (size_t k = 0; k + 1 < n; ++k)
        REQUIRE(C, ref::norm(u[k] - (x[i2[k + 1]] - x[i2[k]])) <= tol, "after re-chaining link ", k, " is off by ", ref::norm(u[k] - (x[i2[k + 1]] - x[i2[k]])));
    hub::Chain::calc_cartesian(mass, ch, back, i2);
    b = from_array(back);
    for (size_t k = 0; k < n; ++k) REQUIRE(C, ref::norm(b[k] - x[k]) <= tol, "after re-chaining particle ", k, " comes back displaced by ", ref::norm(b[k] - x[k]));
}
LAW("chain transformations", "random positions and permutations: chain <-> Cartesian round trip and re-chaining; non-trivial: more than 2 particles", 300000, 15000000) {
    switch (C.choice(2)) {
        case 0: transforms<double>(C); break;
        case 1: transforms<hub::double_k>(C); break;
        default: transforms<long double>(C);
    }
}
// While a system is integrated, its chain stays a valid nearest-neighbour chain that describes the Cartesian state.
template <class S> static void integrate(pbt::Case& C, bool fixed) {
    size_t n = C.integer(3, 7);
    auto b = C.boolean() ? gen::cloud(C, n, 1, 1.5L) : gen::any_system(C, n, n);
    R tau = gen::time_scale(b) * 6.28L, T = tau * (R)C.real(0.5, 4);
    C.note(sim::describe(b), " T=", T);
    auto s = sim::make_sim<S>(0, b);
    auto& sys = dynamic_cast<sim::SimOf<S>&>(*s).s;
    long changes = 0, ops = 0;
    std::vector<size_t> last;
    typename S::RunArgs a;
    using Sc = typename S::Scalar;
    a.rtol = Sc(1e-12);
    if (fixed) a.step_size = Sc(tau / 60) * Sc(sys.particles().step_scale());
    a.add_stop_condition(Sc(T));
    a.add_stop_condition([&](auto&, auto) { return ops > 3000; });
    a.add_operation([&](auto& p, auto) {
        ++ops;
        auto ix = ids(p.index());
        auto x = from_array(p.pos()), v = from_array(p.vel()), cx = from_array(p.chain_pos()), cv = from_array(p.chain_vel());
        REQUIRE(C, permutation(ix, n), "step ", ops, ": the chain is not a permutation: ", show(ix));
        std::string why;
        REQUIRE(C, nearest_chain(x, ix, 1e-9L, &why), "step ", ops, ": not a nearest-neighbour chain (", why, "): ", show(ix), " positions ", show(x));
        R sx = 0, sv = 0;
        for (size_t i = 0; i < n; ++i) { sx = std::max(sx, ref::norm(x[i])); sv = std::max(sv, ref::norm(v[i])); }
        for (size_t k = 0; k + 1 < n; ++k) {
            REQUIRE(C, ref::norm(cx[k] - (x[ix[k + 1]] - x[ix[k]])) <= 1e-13L * sx, "step ", ops, ": position link ", k, " does not describe the particles");
            REQUIRE(C, ref::norm(cv[k] - (v[ix[k + 1]] - v[ix[k]])) <= 1e-13L * sv, "step ", ops, ": velocity link ", k, " does not describe the particles");
        }
        if (last.size() && last != ix) ++changes;
        last = ix;
    });
    sys.run(a);
    C.nontrivial(changes > 0);
    C.label(changes ? "chain changed" : "chain kept");
}
LAW("chain while integrating", "clouds and hierarchies of 3-7 bodies under chain methods, checked at every step; non-trivial: the chain changed", 5000, 200000) {
    using namespace hub::methods;
    switch (C.choice(5)) {
        case 0: C.note("Chain_BS "); integrate<Chain_BS<>>(C, false); break;
        case 1: C.note("AR_Chain "); integrate<AR_Chain<>>(C, false); break;
        case 2: C.note("AR_Chain_Plus "); integrate<AR_Chain_Plus<>>(C, false); break;
        case 3: C.note("Chain_Sym6 "); integrate<Chain_Sym6<>>(C, false); break;
        case 4: C.note("Const_AR_Sym4_Chain "); integrate<Const_AR_Sym4_Chain<>>(C, true); break;
        default: C.note("AR_Radau_Chain_Plus "); integrate<AR_Radau_Chain_Plus<>>(C, false);
    }
}
