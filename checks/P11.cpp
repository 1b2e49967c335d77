// P11: accelerations are the sum of Newtonian gravity and the registered forces, in every system and precision
#include "force_sys.hpp"
using namespace hub;
using namespace fs;
using pbt::Case;

struct Spring {  // velocity independent
    constexpr static bool vel_dependent{false};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) {
            a[i].x += -0.25 * (typename P::Scalar)p.pos(i).x; a[i].y += -0.5 * (typename P::Scalar)p.pos(i).y; a[i].z += -0.125 * (typename P::Scalar)p.pos(i).z;
        }
    }
};
struct Uniform {  // velocity independent
    constexpr static bool vel_dependent{false};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { a[i].x += 1.0; a[i].y += -2.0; a[i].z += 0.5 * (double)(i + 1); }
    }
};
struct Drag {  // velocity dependent
    constexpr static bool vel_dependent{true};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) {
            a[i].x += -0.125 * (typename P::Scalar)p.vel(i).x; a[i].y += -0.125 * (typename P::Scalar)p.vel(i).y; a[i].z += -0.125 * (typename P::Scalar)p.vel(i).z;
        }
    }
};
struct Coriolis {  // velocity dependent
    constexpr static bool vel_dependent{true};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { a[i].x += 0.5 * (typename P::Scalar)p.vel(i).y; a[i].y += -0.5 * (typename P::Scalar)p.vel(i).x; }
    }
};
template <class F> V one(Body const& q, size_t i);
template <> V one<Spring>(Body const& q, size_t) { return V(-0.25L * q.x[0], -0.5L * q.x[1], -0.125L * q.x[2]); }
template <> V one<Uniform>(Body const&, size_t i) { return V(1, -2, 0.5L * (i + 1)); }
template <> V one<Drag>(Body const& q, size_t) { return V(q.v[0], q.v[1], q.v[2]) * -0.125L; }
template <> V one<Coriolis>(Body const& q, size_t) { return V(0.5L * q.v[1], -0.5L * q.v[0], 0); }

struct Expected { std::vector<V> a; std::vector<R> size; };  // value and sum of the magnitudes of its parts
template <class S> Expected gravity(S const& s, std::vector<Body> const& b) {
    size_t n = b.size();
    Expected e{std::vector<V>(n), std::vector<R>(n, 0)};
    auto k = pair_slack(s, b);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (i != j) {
                V d = pos(b[j]) - pos(b[i]);
                R r = norm(d);
                e.a[i] += d * (b[j].m / (r * r * r));
                e.size[i] += b[j].m / (r * r) * k[i][j];
            }
    return e;
}
template <class F> void add(Expected& e, std::vector<Body> const& b) {
    for (size_t i = 0; i < b.size(); ++i) { V f = one<F>(b[i], i); e.a[i] += f; e.size[i] += norm(f); }
}
static void same(Case& C, std::vector<V> const& got, Expected const& e, R eps, R junk, char const* what, char const* sys) {
    for (size_t i = 0; i < got.size(); ++i) {
        V d = got[i] - e.a[i] - junk_vec(junk);
        R allow = eps * (e.size[i] + std::fabs(junk) * 3);
        if (allow > 0) pbt::cal(what, norm(d) / allow);
        REQUIRE(C, norm(d) <= 64 * allow, sys, " ", what, ": particle ", i, " of ", got.size(), ": got (", got[i].x, ",", got[i].y, ",", got[i].z, ") expected (",
                e.a[i].x, ",", e.a[i].y, ",", e.a[i].z, ")+junk ", junk, "; off by ", norm(d), " allowed ", 64 * allow);
    }
}
template <class I, class... Ex> struct Comb {};
template <class... Ex> using Forces = force::Interactions<force::NewtonianGrav, Ex...>;

template <template <class, class> class Sys, class T, class... Ex> void check_one(Case& C, std::vector<Body> const& b, char const* name) {
    using I = Forces<Ex...>;
    using P = particles::PointParticles<T>;
    using S = Sys<P, I>;
    R eps = epsilon<S>();
    S s = make<S>(b);
    R junk = C.boolean() ? 0 : (R)C.real(-3, 3);
    junk = (double)junk;
    Expected g = gravity(s, b), none{std::vector<V>(b.size()), std::vector<R>(b.size(), 0)};
    // the force adds to what is there; the evaluators replace it
    same(C, call(s, junk, [&](auto& a) { force::NewtonianGrav::add_acc_to(s, a); }), g, eps, junk, "NewtonianGrav::add_acc_to", name);
    same(C, call(s, junk, [&](auto& a) { I::eval_newtonian_acc(s, a); }), g, eps, 0, "eval_newtonian_acc", name);
    Expected all = g, dep = none, indep = none, extra = none;
    (add<Ex>(all, b), ...);
    (add<Ex>(extra, b), ...);
    ((Ex::vel_dependent ? add<Ex>(dep, b) : add<Ex>(indep, b)), ...);
    same(C, call(s, junk, [&](auto& a) { I::eval_acc(s, a); }), all, eps, 0, "eval_acc", name);
    if constexpr (sizeof...(Ex) > 0) same(C, call(s, junk, [&](auto& a) { I::eval_extra_acc(s, a); }), extra, eps, 0, "eval_extra_acc", name);
    constexpr bool any_dep = (... || Ex::vel_dependent), any_indep = (... || !Ex::vel_dependent);
    REQUIRE(C, I::ext_vel_dep == any_dep && I::ext_vel_indep == any_indep, name, " kinds of extra force: dep ", I::ext_vel_dep, " indep ", I::ext_vel_indep);
    if constexpr (any_dep) same(C, call(s, junk, [&](auto& a) { I::eval_extra_vel_dep_acc(s, a); }), dep, eps, 0, "eval_extra_vel_dep_acc", name);
    if constexpr (any_indep) same(C, call(s, junk, [&](auto& a) { I::eval_extra_vel_indep_acc(s, a); }), indep, eps, 0, "eval_extra_vel_indep_acc", name);
}
template <class P, class I> using ReguLogH = hub::system::RegularizedSystem<P, I, hub::system::ReguType::LogH>;
template <class P, class I> using ReguTTL = hub::system::RegularizedSystem<P, I, hub::system::ReguType::TTL>;
template <class P, class I> using ArLogH = hub::system::ARchainSystem<P, I, hub::system::ReguType::LogH>;

template <template <class, class> class Sys, class T> void combos(Case& C, std::vector<Body> const& b, char const* name) {
    switch (C.choice(6)) {
        case 0: return check_one<Sys, T>(C, b, name);
        case 1: return check_one<Sys, T, Spring>(C, b, name);
        case 2: return check_one<Sys, T, Drag>(C, b, name);
        case 3: return check_one<Sys, T, Spring, Drag>(C, b, name);
        case 4: return check_one<Sys, T, Coriolis, Spring, Drag>(C, b, name);
        case 5: return check_one<Sys, T, Drag, Coriolis>(C, b, name);
        default: return check_one<Sys, T, Uniform, Drag, Spring, Coriolis>(C, b, name);
    }
}
using TD = Types<double, Vec3>;
using TL = Types<long double, Vec3>;
using TK = Types<double_k, Vec3>;

LAW("accelerations of any configuration",
    "1-24 bodies (clouds with tight pairs down to 1e-5 of the size, shifted or aligned configurations, masses 1e-6..1e2) in one of 5 system types x 3 precisions x 7 combinations of "
    "extra forces; every evaluator compared with long-double pair sums, error within 64 eps of the sum of the magnitudes; non-trivial: at least 2 bodies",
    60000, 3000000) {
    int sys = C.integer(0, 6);
    auto b = config(C, sys >= 3 && sys <= 5 ? 2 : 1, 24);
    C.nontrivial(b.size() >= 2);
    C.note("sys ", sys, " n=", b.size(), " ");
    switch (sys) {
        case 0: return combos<hub::system::SimpleSystem, TD>(C, b, "simple/double");
        case 1: return combos<hub::system::ChainSystem, TD>(C, b, "chain/double");
        case 2: return combos<hub::system::ChainSystem, TL>(C, b, "chain/long double");
        case 3: return combos<ReguLogH, TK>(C, b, "regularised/double_k");
        case 4: return combos<ArLogH, TD>(C, b, "AR-chain/double");
        case 5: return combos<ArLogH, TK>(C, b, "AR-chain/double_k");
        default: return combos<hub::system::SimpleSystem, TL>(C, b, "simple/long double");
    }
}
