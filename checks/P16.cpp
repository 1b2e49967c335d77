// P16: particle containers behave like a list of particles under any history, and hand every attribute on
//: flags -O1 -fsanitize=address -fno-sanitize-recover=all
#include <cstring>
#include <list>
#include <optional>
#include <sstream>
#include <iomanip>
#include "P14_forces.hpp"
#include "force_sys.hpp"
using pbt::Case;
using ref::R;
using ref::V;
namespace {
using namespace hub;
// one row of the model: id, then the attributes in the order of the CSV columns
struct Row { size_t id; std::vector<R> a; bool operator==(Row const& o) const { return id == o.id && a == o.a; } };
struct Table { R time = 0; std::vector<Row> rows; };
static std::string show(Table const& t) { std::string s = pbt::str("t=", t.time); for (auto& r : t.rows) { s += pbt::str(" [", r.id, ":"); for (R q : r.a) s += pbt::str(" ", q); s += "]"; } return s; }

// how each family names its attributes (the ones besides position and velocity), in column order
template <class T> struct Family;
template <class T> struct Family<particles::PointParticles<T>> {
    static constexpr char const* name = "point"; static constexpr int extra = 1; static constexpr bool after = false;
    static constexpr char const* columns = "time,id,mass,px,py,pz,vx,vy,vz";
    template <class Q> static auto* field(Q& q, int) { return &q.mass; }
    template <class C> static auto& array(C& c, int) { return c.mass(); }
    template <class C> static auto& at(C& c, int, size_t i) { return c.mass(i); }
    template <class P, class S, class Vec> static P vec(S const* e, Vec p, Vec v) { return P(e[0], p, v); }
    template <class P, class S> static P comp(S const* e, S const* x) { return P(e[0], x[0], x[1], x[2], x[3], x[4], x[5]); }
};
template <class T> struct Family<particles::SizeParticles<T>> {
    static constexpr char const* name = "size"; static constexpr int extra = 2; static constexpr bool after = false;
    static constexpr char const* columns = "time,id,mass,radius,px,py,pz,vx,vy,vz";
    template <class Q> static auto* field(Q& q, int k) { return k ? &q.radius : &q.mass; }
    template <class C> static auto& array(C& c, int k) { return k ? c.radius() : c.mass(); }
    template <class C> static auto& at(C& c, int k, size_t i) { return k ? c.radius(i) : c.mass(i); }
    template <class P, class S, class Vec> static P vec(S const* e, Vec p, Vec v) { return P(e[0], e[1], p, v); }
    template <class P, class S> static P comp(S const* e, S const* x) { return P(e[0], e[1], x[0], x[1], x[2], x[3], x[4], x[5]); }
};
template <class T> struct Family<particles::TideParticles<T>> {
    static constexpr char const* name = "tide"; static constexpr int extra = 4; static constexpr bool after = false;
    static constexpr char const* columns = "time,id,mass,radius,k_AM,tau_lag,px,py,pz,vx,vy,vz";
    template <class Q> static auto* field(Q& q, int k) { return k == 0 ? &q.mass : k == 1 ? &q.radius : k == 2 ? &q.tide_apsidal_const : &q.tide_lag_time; }
    template <class C> static auto& array(C& c, int k) { return k == 0 ? c.mass() : k == 1 ? c.radius() : k == 2 ? c.tide_apsidal_const() : c.tide_lag_time(); }
    template <class C> static auto& at(C& c, int k, size_t i) { return k == 0 ? c.mass(i) : k == 1 ? c.radius(i) : k == 2 ? c.tide_apsidal_const(i) : c.tide_lag_time(i); }
    template <class P, class S, class Vec> static P vec(S const* e, Vec p, Vec v) { return P(e[0], e[1], e[2], e[3], p, v); }
    template <class P, class S> static P comp(S const* e, S const* x) { return P(e[0], e[1], e[2], e[3], x[0], x[1], x[2], x[3], x[4], x[5]); }
};
template <class T> struct Family<particles::DragParticles<T>> {
    static constexpr char const* name = "drag"; static constexpr int extra = 3; static constexpr bool after = true;
    static constexpr char const* columns = "time,id,mass,px,py,pz,vx,vy,vz,sub_sonic_c,local_cs";
    template <class Q> static auto* field(Q& q, int k) { return k == 0 ? &q.mass : k == 1 ? &q.sub_sonic_coef : &q.local_cs; }
    template <class C> static auto& array(C& c, int k) { return k == 0 ? c.mass() : k == 1 ? c.sub_sonic_c() : c.local_cs(); }
    template <class C> static auto& at(C& c, int k, size_t i) { return k == 0 ? c.mass(i) : k == 1 ? c.sub_sonic_c(i) : c.local_cs(i); }
    template <class P, class S, class Vec> static P vec(S const* e, Vec p, Vec v) { return P(e[0], e[1], e[2], p, v); }
    template <class P, class S> static P comp(S const* e, S const* x) { return P(e[0], e[1], e[2], x[0], x[1], x[2], x[3], x[4], x[5]); }
};
// model attributes: extras then px..vz; CSV order differs for "after" families
template <class F> std::vector<R> csv_order(std::vector<R> const& a) {
    if (!F::after) return a;
    std::vector<R> r{a[0]};
    r.insert(r.end(), a.begin() + F::extra, a.end());
    r.insert(r.end(), a.begin() + 1, a.begin() + F::extra);
    return r;
}
template <class S> S value(Case& C) { return (S)(double)(C.chance(1, 5) ? C.integer(-2, 2) : C.chance(1, 4) ? C.logreal(1e-12, 1e12) : C.sym(10)); }
template <class Con> struct Made { typename Con::Particle p; std::vector<R> a; };
template <class Con> Made<Con> particle(Case& C) {
    using F = Family<Con>;
    using P = typename Con::Particle;
    using S = typename P::Scalar;
    S e[4], x[6];
    for (int k = 0; k < F::extra; ++k) e[k] = value<S>(C);
    for (auto& q : x) q = value<S>(C);
    std::vector<R> a;
    for (int k = 0; k < F::extra; ++k) a.push_back((R)e[k]);
    for (auto& q : x) a.push_back((R)q);
    if (C.boolean()) return {F::template comp<P, S>(e, x), a};
    using Vec = typename P::Vector;
    return {F::template vec<P, S, Vec>(e, Vec(x[0], x[1], x[2]), Vec(x[3], x[4], x[5])), a};
}
template <class Con, class Q> std::vector<R> attributes(Q& q) {
    using F = Family<Con>;
    std::vector<R> a;
    for (int k = 0; k < F::extra; ++k) a.push_back((R)*F::field(q, k));
    for (auto* v : {&q.pos, &q.vel}) { a.push_back((R)v->x); a.push_back((R)v->y); a.push_back((R)v->z); }
    return a;
}
template <class Con, class Any> Table read(Any const& c) {  // through the accessors
    using F = Family<Con>;
    Table t;
    t.time = (R)c.time();
    for (size_t i = 0; i < c.number(); ++i) {
        Row r{(size_t)c.idn(i), {}};
        for (int k = 0; k < F::extra; ++k) r.a.push_back((R)F::at(c, k, i));
        for (auto* v : {&c.pos(i), &c.vel(i)}) { r.a.push_back((R)v->x); r.a.push_back((R)v->y); r.a.push_back((R)v->z); }
        t.rows.push_back(r);
    }
    return t;
}
template <class Con, class Any> void same(Case& C, Any const& c, Table const& m, char const* when) {
    using F = Family<Con>;
    REQUIRE(C, c.number() == m.rows.size(), when, ": holds ", c.number(), " particles instead of ", m.rows.size());
    for (int k = 0; k < F::extra; ++k) REQUIRE(C, F::array(c, k).size() == m.rows.size(), when, ": attribute ", k, " has ", F::array(c, k).size(), " entries for ", m.rows.size(), " particles");
    REQUIRE(C, c.pos().size() == m.rows.size() && c.vel().size() == m.rows.size() && c.idn().size() == m.rows.size(), when, ": arrays of positions, velocities, ids have ", c.pos().size(), ", ", c.vel().size(), ", ", c.idn().size(), " entries for ", m.rows.size(), " particles");
    REQUIRE(C, c.capacity() >= c.number(), when, ": capacity ", c.capacity(), " for ", c.number());
    auto t = read<Con>(c);
    REQUIRE(C, t.time == m.time, when, ": time ", t.time, " instead of ", m.time);
    for (size_t i = 0; i < t.rows.size(); ++i) REQUIRE(C, t.rows[i] == m.rows[i], when, ": particle ", i, " differs: ", show(Table{0, {t.rows[i]}}), " instead of ", show(Table{0, {m.rows[i]}}));
    auto aos = c.to_AoS();
    REQUIRE(C, aos.size() == m.rows.size(), when, ": to_AoS gives ", aos.size(), " particles");
    for (size_t i = 0; i < aos.size(); ++i) REQUIRE(C, attributes<Con>(aos[i]) == m.rows[i].a, when, ": to_AoS particle ", i, " differs");
}
template <class Con, class Any> void csv(Case& C, Any const& c, Table const& m) {
    using F = Family<Con>;
    REQUIRE(C, c.column_names() == F::columns, "column names ", c.column_names());
    std::ostringstream os;
    os << std::scientific << std::setprecision(21) << c;
    std::istringstream is(os.str());
    std::string line;
    size_t i = 0;
    while (std::getline(is, line)) {
        REQUIRE(C, i < m.rows.size(), "more rows than particles: ", line);
        std::vector<R> got;
        std::istringstream ls(line);
        std::string f;
        while (std::getline(ls, f, ',')) { char* e; got.push_back(strtold(f.c_str(), &e)); REQUIRE(C, f.size() && !*e, "field '", f, "' in '", line, "'"); }
        std::vector<R> want{m.time, (R)m.rows[i].id};
        for (R q : csv_order<F>(m.rows[i].a)) want.push_back(q);
        size_t cols = 1 + std::count(F::columns, F::columns + strlen(F::columns), ',');
        REQUIRE(C, got.size() == cols && got == want, "row ", i, " is '", line, "' for ", show(Table{m.time, {m.rows[i]}}));
        ++i;
    }
    REQUIRE(C, i == m.rows.size(), i, " rows for ", m.rows.size(), " particles");
}
template <class Con> void history(Case& C) {
    using F = Family<Con>;
    using P = typename Con::Particle;
    struct Slot { std::optional<Con> c; Table m; };
    std::vector<Slot> s(2);
    C.label(F::name);
    auto make = [&](Slot& k) {
        size_t n = C.chance(1, 4) ? C.integer(0, 40) : C.integer(0, 6);
        std::vector<P> v;
        k.m = {};
        for (size_t i = 0; i < n; ++i) { auto q = particle<Con>(C); v.push_back(q.p); k.m.rows.push_back({i, q.a}); }
        k.m.time = (R)(double)C.sym(100);
        typename Con::Scalar t = (typename Con::Scalar)k.m.time;
        switch (C.choice(2)) {
            case 0: k.c.emplace(t, v); break;
            case 1: k.c.emplace(t, std::list<P>(v.begin(), v.end())); break;
            default: k.c.emplace(t, (std::vector<P> const&)v);
        }
        return n;
    };
    for (auto& k : s) if (C.boolean()) { k.c.emplace(); k.m = {}; } else make(k);
    int steps = C.integer(1, 25), changes = 0;
    for (auto& k : s) same<Con>(C, *k.c, k.m, "start");
    for (int st = 0; st < steps; ++st) {
        int w = C.choice(1);
        Slot &k = s[w], &o = s[1 - w];
        Con& c = *k.c;
        size_t n = k.m.rows.size();
        std::string when;
        switch (C.choice(13)) {
            case 0: case 1: case 2: { auto q = particle<Con>(C); c.emplace_back(q.p); k.m.rows.push_back({n, q.a}); when = "emplace_back"; break; }
            case 3: c.clear(); k.m.rows.clear(); when = "clear"; break;
            case 4: {
                size_t to = C.integer(0, 30);
                c.resize(to);
                k.m.rows.resize(to);
                for (size_t i = n; i < to; ++i) {  // new entries are the caller's to fill
                    auto q = particle<Con>(C);
                    c.pos(i) = q.p.pos; c.vel(i) = q.p.vel; c.idn(i) = i;
                    for (int a = 0; a < F::extra; ++a) F::at(c, a, i) = *F::field(q.p, a);
                    k.m.rows[i] = {i, q.a};
                }
                when = "resize"; break;
            }
            case 5: { size_t to = C.integer(0, 60); c.reserve(to); REQUIRE(C, c.capacity() >= to, "reserve(", to, ") leaves capacity ", c.capacity()); when = "reserve"; break; }
            case 6: o.c.emplace(c); o.m = k.m; when = "copy construction"; break;
            case 7: *o.c = c; o.m = k.m; when = "copy assignment"; break;
            case 8: { *o.c = std::move(c); o.m = k.m; make(k); when = "move assignment"; break; }
            case 9: { Con t(std::move(c)); o.c.emplace(std::move(t)); o.m = k.m; make(k); when = "move construction"; break; }
            case 10: if (n) {
                size_t i = C.choice(n - 1);
                int a = C.choice(F::extra - 1);
                auto v = value<typename P::Scalar>(C);
                F::at(c, a, i) = v; k.m.rows[i].a[a] = (R)v; when = "attribute accessor";
            } break;
            case 11: if (n) {
                size_t i = C.choice(n - 1);
                auto v = value<typename P::Scalar>(C), u = value<typename P::Scalar>(C);
                if (C.boolean()) { c.pos(i).y = v; c.vel()[i].x = u; } else { c.pos()[i].y = v; c.vel(i).x = u; }
                k.m.rows[i].a[F::extra + 1] = (R)v; k.m.rows[i].a[F::extra + 3] = (R)u; when = "position and velocity accessors";
            } break;
            case 12: c.time() = (typename Con::Scalar)(k.m.time = (R)(double)C.sym(10)); when = "time accessor"; break;
            default: { *(&c) = *(Con const*)&c; when = "self assignment"; }
        }
        if (when.size()) ++changes;
        same<Con>(C, *s[0].c, s[0].m, when.c_str());
        same<Con>(C, *s[1].c, s[1].m, when.c_str());
    }
    for (auto& k : s) csv<Con>(C, *k.c, k.m);
    C.nontrivial(changes > 2);
}
// systems (and copies of them) hold the particles they were made from
template <class S> void system_of(Case& C) {
    using Con = typename S::Base;
    using P = typename Con::Particle;
    C.label(Family<Con>::name);
    auto b = gen::any_system(C, 2, 7);
    std::vector<P> v;
    Table m;
    m.time = (R)(double)C.sym(100);
    for (size_t i = 0; i < b.size(); ++i) {
        auto q = particle<Con>(C);
        q.p.mass = b[i].m;
        q.p.pos.x = b[i].x[0]; q.p.pos.y = b[i].x[1]; q.p.pos.z = b[i].x[2];
        q.p.vel.x = b[i].v[0]; q.p.vel.y = b[i].v[1]; q.p.vel.z = b[i].v[2];
        v.push_back(q.p);
        m.rows.push_back({i, attributes<Con>(q.p)});
    }
    C.nontrivial(b.size() > 2);
    C.note(S::name(), " ", sim::describe(b));
    typename Con::Scalar t = (typename Con::Scalar)m.time;
    typename S::Sys s = C.boolean() ? typename S::Sys(t, v) : typename S::Sys(t, std::list<P>(v.begin(), v.end()));
    same<Con>(C, s, m, "system");
    csv<Con>(C, static_cast<Con const&>(s), m);
    // a copy has a life of its own and the same future
    auto h = (typename Con::Scalar)((R)s.step_scale() * gen::time_scale(b) * 0.05L);
    auto go = [&](typename S::Sys& q) { q.pre_iter_process(); q.drift(h); q.kick(h); q.drift(h); q.post_iter_process(); };
    for (int k = C.integer(0, 2); k > 0; --k) go(s);
    auto before = read<Con>(s);
    typename S::Sys c(s), d(t, std::vector<P>(v.begin(), v.begin() + 2));
    same<Con>(C, c, before, "copy");
    if (C.boolean()) { d = s; C.label("assigned"); } else d = c;
    same<Con>(C, d, before, "assigned copy");
    go(c);
    auto after = read<Con>(c);
    same<Con>(C, s, before, "original after its copy moved");
    go(d); go(s);
    same<Con>(C, d, after, "assigned copy, one step on");
    same<Con>(C, s, after, "original, one step on");
    typename S::Sys e(std::move(d));
    go(e); go(s);
    same<Con>(C, e, read<Con>(s), "moved system, one more step on");
}
template <class T> using TY = Types<T, Vec3>;
using I = force::Interactions<force::NewtonianGrav, p14::Wind>;
#define SYS(NAME, CON, ...) struct NAME { using Base = particles::CON; using Sys = __VA_ARGS__; static char const* name() { return #NAME; } };
SYS(simple_size, SizeParticles<TY<double>>, system::SimpleSystem<Base, I>)
SYS(simple_point_ext, PointParticles<TY<long double>>, system::SimpleSystem<Base, I>)
SYS(chain_tide, TideParticles<TY<double>>, system::ChainSystem<Base, I>)
SYS(chain_point_plus, PointParticles<TY<double_k>>, system::ChainSystem<Base, I>)
SYS(regu_drag, DragParticles<TY<double>>, system::RegularizedSystem<Base, I, system::ReguType::LogH>)
SYS(regu_ttl_size_plus, SizeParticles<TY<double_k>>, system::RegularizedSystem<Base, I, system::ReguType::TTL>)
SYS(arch_tide_plus, TideParticles<TY<double_k>>, system::ARchainSystem<Base, I, system::ReguType::TTL>)
SYS(arch_drag, DragParticles<TY<double>>, system::ARchainSystem<Base, I, system::ReguType::LogH>)
}  // namespace
LAW("histories", "1-25 operations on two containers of 4 families and 3 precisions against lists of rows; non-trivial: more than 2 operations took effect", 40000, 3000000) {
    switch (C.choice(7)) {
        case 0: return history<particles::PointParticles<TY<double>>>(C);
        case 1: return history<particles::SizeParticles<TY<double>>>(C);
        case 2: return history<particles::TideParticles<TY<double>>>(C);
        case 3: return history<particles::DragParticles<TY<double>>>(C);
        case 4: return history<particles::PointParticles<TY<double_k>>>(C);
        case 5: return history<particles::SizeParticles<TY<long double>>>(C);
        case 6: return history<particles::TideParticles<TY<double_k>>>(C);
        default: return history<particles::DragParticles<TY<double_k>>>(C);
    }
}
LAW("systems", "8 combinations of system, particle family and precision, 2-7 bodies: built, printed, copied, assigned, moved; non-trivial: more than 2 bodies", 40000, 2000000) {
    switch (C.choice(7)) {
        case 0: return system_of<simple_size>(C);
        case 1: return system_of<simple_point_ext>(C);
        case 2: return system_of<chain_tide>(C);
        case 3: return system_of<chain_point_plus>(C);
        case 4: return system_of<regu_drag>(C);
        case 5: return system_of<regu_ttl_size_plus>(C);
        case 6: return system_of<arch_tide_plus>(C);
        default: return system_of<arch_drag>(C);
    }
}
