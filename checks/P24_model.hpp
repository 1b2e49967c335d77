// History generator of P24: the small-size-optimised vector behaves like std::vector under any history of operations (run under ASan and UBSan)
#pragma once
#include <forward_list>
#include <list>
#include <set>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#include <string>
#include "pbt.hpp"
#include "small-vector.hpp"
#include "vector/vector3.hpp"
#include "kahan-number.hpp"
using pbt::Case;

// counts objects and notices copies from, assignments to and destruction of anything that is not alive
struct Tracked {
    static std::set<void const*>& alive() { static std::set<void const*> s; return s; }
    static std::string& fault() { static std::string s; return s; }
    static void bad(char const* m) { if (fault().empty()) fault() = m; }
    int v;
    void born() { if (!alive().insert(this).second) bad("constructed over a live object"); }
    static void need(Tracked const& o, char const* m) { if (!alive().count(&o)) bad(m); }
    Tracked(int x = 0) : v(x) { born(); }
    Tracked(Tracked const& o) : v(o.v) { need(o, "copied from a dead object"); born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { need(o, "moved from a dead object"); if (&o != this) o.v = -1; born(); }
    Tracked& operator=(Tracked const& o) { need(o, "assigned from a dead object"); need(*this, "assigned to a dead object"); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept {
        need(o, "move-assigned from a dead object"); need(*this, "move-assigned to a dead object");
        v = o.v;
        if (&o != this) o.v = -1;
        return *this;
    }
    ~Tracked() { if (!alive().erase(this)) bad("destroyed a dead object"); }
    bool operator==(Tracked const& o) const { return v == o.v; }
    bool operator<(Tracked const& o) const { return v < o.v; }
};
// blocks the vectors under test hold: everything allocated except through operator new (which P24.cpp counts)
struct Blocks {
    static long& total() { static long n = 0; return n; }
    static long& by_new() { static long n = 0; return n; }
    static void up(const volatile void* p, size_t) { if (p) ++total(); }
    static void down(const volatile void* p) { if (p) --total(); }
    static long held() {
        static bool once = (__sanitizer_install_malloc_and_free_hooks(up, down), true);
        (void)once;
        return total() - by_new();
    }
};
template <class T> T val(int x) {
    if constexpr (std::is_same_v<T, std::string>) return x % 3 ? std::string(x % 40, 'a' + x % 26) + std::to_string(x) : std::to_string(x);
    else if constexpr (std::is_same_v<T, hub::Vec3<double>>) return hub::Vec3<double>(x, x * 0.5, -x);
    else return T(x);
}
template <class T> bool same(T const& a, T const& b) {
    if constexpr (std::is_same_v<T, hub::Vec3<double>>) return a.x == b.x && a.y == b.y && a.z == b.z;
    else if constexpr (std::is_same_v<T, hub::Kahan<double>>) return a.real == b.real && a.err == b.err;
    else return a == b;
}
template <class T> constexpr bool comparable = !std::is_same_v<T, hub::Vec3<double>>;


template <class T, unsigned N> void history(Case& C) {
    using SV = llvm::SmallVector<T, N>;
    Tracked::alive().clear();
    Tracked::fault().clear();
    long blocks = Blocks::held();
    {
        constexpr int K = 3;
        SV v[K];
        std::vector<T> m[K];
        int next = 1, len = (int)C.integer(1, 40);
        bool grown = false, shrunk = false;
        std::string log;
        auto fresh = [&] { return val<T>(next++); };
        auto cnt = [&] { return (size_t)(C.chance(1, 4) ? C.choice(3 * N + 3) : C.choice(4)); };
        for (int step = 0; step < len; ++step) {
            int a = (int)C.choice(K - 1), b = (int)C.choice(K - 1);
            auto& x = v[a];
            auto& q = m[a];
            size_t cap0 = x.capacity();
            bool may_grow = true;
            int op = (int)C.choice(31);
            auto at = [&](size_t n) { return (size_t)C.choice(n); };
            auto say = [&](std::string s) { log += " " + s; };
            switch (op) {
                case 0: case 1: { T t = fresh(); x.push_back(t); q.push_back(t); say("push_back"); break; }
                case 2: { T t = fresh(), t2 = t; x.push_back(std::move(t)); q.push_back(t2); say("push_back(&&)"); break; }
                case 3: { T t = fresh(); x.emplace_back(t); q.push_back(t); say("emplace_back"); break; }
                case 4: if (!q.empty()) { x.pop_back(); q.pop_back(); say("pop_back"); } break;
                case 5: if (!q.empty()) { T t = x.pop_back_val(); REQUIRE(C, same(t, q.back()), "pop_back_val"); q.pop_back(); say("pop_back_val"); } break;
                case 6: x.clear(); q.clear(); say("clear"); may_grow = false; break;
                case 7: { size_t n = cnt() + (C.boolean() ? q.size() : 0); x.resize(n); q.resize(n); say(pbt::str("resize ", n)); break; }
                case 8: { size_t n = cnt() + (C.boolean() ? q.size() : 0); T t = fresh(); x.resize(n, t); q.resize(n, t); say(pbt::str("resize ", n, " value")); break; }
                case 9: { size_t n = cnt(); x.reserve(n); q.reserve(n); REQUIRE(C, x.capacity() >= n, "reserve"); say(pbt::str("reserve ", n)); break; }
                case 10: { std::vector<T> r; for (size_t n = cnt(); n--;) r.push_back(fresh()); x.append(r.begin(), r.end()); q.insert(q.end(), r.begin(), r.end()); say("append range"); break; }
                case 11: { std::forward_list<T> r; for (size_t n = cnt(); n--;) r.push_front(fresh()); x.append(r.begin(), r.end()); q.insert(q.end(), r.begin(), r.end()); say("append forward range"); break; }
                case 12: { size_t n = cnt(); T t = fresh(); x.append(n, t); q.insert(q.end(), n, t); say("append n"); break; }
                case 13: { T t = fresh(), u = fresh(); x.append({t, u}); q.insert(q.end(), {t, u}); say("append list"); break; }
                case 14: { size_t n = cnt(); T t = fresh(); x.assign(n, t); q.assign(n, t); say("assign n"); break; }
                case 15: { std::list<T> r; for (size_t n = cnt(); n--;) r.push_back(fresh()); x.assign(r.begin(), r.end()); q.assign(r.begin(), r.end()); say("assign range"); break; }
                case 16: { T t = fresh(), u = fresh(), w = fresh(); x.assign({t, u, w}); q.assign({t, u, w}); say("assign list"); break; }
                case 17: if (!q.empty()) { size_t i = at(q.size() - 1); auto it = x.erase(x.begin() + i); REQUIRE(C, it == x.begin() + i, "erase returns position"); q.erase(q.begin() + i); say(pbt::str("erase ", i)); } break;
                case 18: { size_t i = at(q.size()), j = i + at(q.size() - i); auto it = x.erase(x.begin() + i, x.begin() + j); REQUIRE(C, it == x.begin() + i, "erase range returns position"); q.erase(q.begin() + i, q.begin() + j); say(pbt::str("erase ", i, "-", j)); break; }
                case 19: { size_t i = at(q.size()); T t = fresh(); auto it = x.insert(x.begin() + i, t); REQUIRE(C, it == x.begin() + i, "insert returns position"); q.insert(q.begin() + i, t); say(pbt::str("insert at ", i)); break; }
                case 20: { size_t i = at(q.size()); T t = fresh(), u = t; auto it = x.insert(x.begin() + i, std::move(t)); REQUIRE(C, it == x.begin() + i, "insert returns position"); q.insert(q.begin() + i, u); say(pbt::str("insert(&&) at ", i)); break; }
                case 21: { size_t i = at(q.size()), n = cnt(); T t = fresh(); auto it = x.insert(x.begin() + i, n, t); REQUIRE(C, it == x.begin() + i, "insert n returns position"); q.insert(q.begin() + i, n, t); say(pbt::str("insert ", n, " at ", i)); break; }
                case 22: { size_t i = at(q.size()); std::list<T> r; for (size_t n = cnt(); n--;) r.push_back(fresh()); auto it = x.insert(x.begin() + i, r.begin(), r.end()); REQUIRE(C, it == x.begin() + i, "insert range returns position"); q.insert(q.begin() + i, r.begin(), r.end()); say(pbt::str("insert range of ", r.size(), " at ", i)); break; }
                case 23: { size_t i = at(q.size()); T t = fresh(), u = fresh(); x.insert(x.begin() + i, {t, u}); q.insert(q.begin() + i, {t, u}); say(pbt::str("insert list at ", i)); break; }
                case 24: if (!q.empty()) {  // arguments that are elements of the vector itself, also when it has to grow
                    size_t i = at(q.size()), j = at(q.size() - 1), n = cnt();
                    T t = q[j];
                    int how = (int)C.choice(8);
                    say(pbt::str("own ", j, " way ", how, " at ", i, " n ", n));
                    switch (how) {
                        case 0: { auto it = x.insert(x.begin() + i, x[j]); REQUIRE(C, it == x.begin() + i, "insert returns position"); q.insert(q.begin() + i, t); break; }
                        case 1: x.push_back(x[j]); q.push_back(t); break;
                        case 2: x.emplace_back(x[j]); q.push_back(t); break;
                        case 3: { auto it = x.insert(x.begin() + i, n, x[j]); REQUIRE(C, it == x.begin() + i, "insert n returns position"); q.insert(q.begin() + i, n, t); break; }
                        case 4: x.append(n, x[j]); q.insert(q.end(), n, t); break;
                        case 5: x.resize(q.size() + n, x[j]); q.resize(q.size() + n, t); break;
                        case 6: x.assign(n, x[j]); q.assign(n, t); break;
                        case 7: x.push_back(x.front()); q.push_back(q.front()); break;
                        default: x.push_back(x.back()); q.push_back(q.back()); break;
                    }
                } break;
                case 25: x = v[b]; q = m[b]; say(pbt::str(a, "=", b)); break;
                case 26: if (a != b) { x = std::move(v[b]); q = m[b]; v[b].clear(); m[b].clear(); say(pbt::str(a, "=move ", b)); } break;
                case 27: if (C.boolean()) x.swap(v[b]); else { using std::swap; swap(x, v[b]); } if (a != b) std::swap(q, m[b]); say(pbt::str("swap ", a, " ", b)); break;
                case 28: { SV c(x), d(x.begin(), x.end()), e(std::move(c)); REQUIRE(C, e.size() == q.size() && d.size() == q.size(), "copies"); for (size_t i = 0; i < q.size(); ++i) REQUIRE(C, same(e[i], q[i]) && same(d[i], q[i]), "copy differs at ", i); x = e; say("copy round trip"); break; }
                case 29: { size_t n = cnt(); T t = fresh(); SV c(n, t); std::vector<T> r(n, t); x = std::move(c); q = r; say("construct n"); break; }
                case 30: { T t = fresh(), u = fresh(); if (C.boolean()) { x = {t, u}; q = {t, u}; } else { SV c{t, u, t}; x.swap(c); q = {t, u, t}; } say("list"); break; }
                default: if (!q.empty()) { size_t i = at(q.size() - 1); T t = fresh(); x[i] = t; q[i] = t; say(pbt::str("write ", i)); } break;
            }
            if (!may_grow) REQUIRE(C, x.capacity() == cap0, "clear changed the capacity");
            for (int k = 0; k < K; ++k) {
                auto const& c = v[k];
                REQUIRE(C, c.size() == m[k].size() && c.empty() == m[k].empty(), "size ", c.size(), " instead of ", m[k].size(), " after", log);
                REQUIRE(C, c.capacity() >= c.size(), "capacity ", c.capacity(), " after", log);
                REQUIRE(C, (size_t)(c.end() - c.begin()) == c.size() && c.data() == c.begin(), "iterators");
                for (size_t i = 0; i < c.size(); ++i) REQUIRE(C, same(c[i], m[k][i]), "vector ", k, " element ", i, " of ", c.size(), " wrong after", log);
                if (!c.empty()) REQUIRE(C, same(c.front(), m[k].front()) && same(c.back(), m[k].back()) && same(*c.rbegin(), m[k].back()) && same(*(c.rend() - 1), m[k].front()), "ends after", log);
                REQUIRE(C, c.size_in_bytes() == c.size() * sizeof(T) && c.capacity_in_bytes() == c.capacity() * sizeof(T), "sizes in bytes");
                grown = grown || c.capacity() > N;
                shrunk = shrunk || (c.capacity() > N && c.size() <= N);
                if constexpr (comparable<T>)
                    for (int l = 0; l < K; ++l) {
                        REQUIRE(C, (c == v[l]) == (m[k] == m[l]) && (c != v[l]) == (m[k] != m[l]), "comparison after", log);
                        REQUIRE(C, (c < v[l]) == (m[k] < m[l]), "ordering after", log);
                    }
            }
            if constexpr (std::is_same_v<T, Tracked>) {
                REQUIRE(C, Tracked::fault().empty(), Tracked::fault(), " after", log);
                size_t live = 0;
                for (int k = 0; k < K; ++k) live += 2 * m[k].size();
                REQUIRE(C, Tracked::alive().size() == live, Tracked::alive().size(), " objects alive instead of ", live, " after", log);
            }
        }
        C.note("N=", N, ":", log);
        C.nontrivial(grown && len > 5);
        if (shrunk) C.label("shrunk back");
    }
    REQUIRE(C, Blocks::held() == blocks, "the vectors left ", Blocks::held() - blocks, " allocated blocks behind");
    if constexpr (std::is_same_v<T, Tracked>) REQUIRE(C, Tracked::fault().empty() && Tracked::alive().empty(), Tracked::fault(), " ", Tracked::alive().size(), " objects leaked");
}
#define RULE "histories of 1-40 operations on three vectors (push, emplace, pop, insert and erase single elements, counts and ranges of strong and weak iterators, own elements as arguments, append, assign, " \
    "resize, reserve, copy, move, swap, construction, comparison) against std::vector after each step; non-trivial: more than five operations and a vector that outgrew its inline storage"
