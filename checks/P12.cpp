// P12: post-Newtonian accelerations follow the published formulas (Blanchet, Living Rev. Relativ. 17, 2, eq. 203) for every pair
#include "force_sys.hpp"
#include "pn_formulas.hpp"
using namespace hub;
using namespace fs;
using pbt::Case;

using namespace pn;
struct Expected { std::vector<V> a; std::vector<R> size; };
template <class S> Expected expected(S const& s, std::vector<Body> const& b, std::vector<int> const& orders) {
    size_t n = b.size();
    Expected e{std::vector<V>(n), std::vector<R>(n, 0)};
    auto k = pair_slack(s, b, true);
    for (int o : orders)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (i != j) pair_acc(o, b[i], b[j], k[i][j], e.a[i], e.size[i]);
    return e;
}
static void same(Case& C, std::vector<V> const& got, Expected const& e, R eps, R junk, std::string const& what) {
    for (size_t i = 0; i < got.size(); ++i) {
        V d = got[i] - e.a[i] - junk_vec(junk);
        R allow = eps * (e.size[i] + std::fabs(junk) * 3);
        if (allow > 0) pbt::cal(what, norm(d) / allow);
        REQUIRE(C, norm(d) <= 64 * allow, what, ": particle ", i, " of ", got.size(), ": got (", got[i].x, ",", got[i].y, ",", got[i].z, ") expected (",
                e.a[i].x, ",", e.a[i].y, ",", e.a[i].z, ")+junk ", junk, "; off by ", norm(d), " allowed ", 64 * allow);
    }
}
template <template <class, class> class Sys, class T, class F> void each(Case& C, std::vector<Body> const& b, int order, std::string name) {
    using S = Sys<particles::PointParticles<T>, force::Interactions<force::NewtonianGrav, F>>;
    S s = make<S>(b);
    R junk = C.boolean() ? 0 : (R)C.real(-1, 1);
    Expected e = expected(s, b, {order});
    REQUIRE(C, S::Interaction::ext_vel_dep && !S::Interaction::ext_vel_indep, name, ": not treated as velocity dependent");
    same(C, call(s, junk, [&](auto& a) { F::add_acc_to(s, a); }), e, EPS, junk, name);
    same(C, call(s, junk, [&](auto& a) { S::Interaction::eval_extra_vel_dep_acc(s, a); }), e, EPS, 0, name + " evaluator");
}
template <template <class, class> class Sys, class T> void orders(Case& C, std::vector<Body> const& b, std::string name) {
    switch (C.choice(3)) {
        case 0: return each<Sys, T, force::PN1>(C, b, 10, name + " PN1");
        case 1: return each<Sys, T, force::PN2>(C, b, 20, name + " PN2");
        case 2: return each<Sys, T, force::PN2p5>(C, b, 25, name + " PN2.5");
        default: {
            using S = Sys<particles::PointParticles<T>, force::Interactions<force::NewtonianGrav, force::PN1, force::PN2, force::PN2p5>>;
            S s = make<S>(b);
            same(C, call(s, 1, [&](auto& a) { S::Interaction::eval_extra_acc(s, a); }), expected(s, b, {10, 20, 25}), EPS, 0, name + " PN1+PN2+PN2.5");
        }
    }
}
template <class P, class I> using ArLogH = hub::system::ARchainSystem<P, I, hub::system::ReguType::LogH>;
using TD = Types<double, Vec3>;
using TL = Types<long double, Vec3>;
using TK = Types<double_k, Vec3>;

LAW("post-Newtonian accelerations of any configuration",
    "2-16 bodies of any mass ratio, velocity and separation, five system types, terms of order 1, 2, 2.5 alone and together, against the published pair formulas in long double "
    "(error within 64 eps of the summed magnitudes); non-trivial: the pair moves and has unequal masses",
    50000, 2000000) {
    int sys = C.integer(0, 4);
    auto b = config(C, 2, 16);
    // strong-field samples: separations of a few gravitational radii and speeds near that of light weigh all terms equally
    if (C.chance(1, 2)) {
        C.label("relativistic");
        R f = C.logreal(1e-9, 1e-6), u = light() * C.real(0.01, 0.5) / 30;
        for (auto& q : b) { set_pos(q, pos(q) * f); set_vel(q, vel(q) * u); }
        round_double(b);
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < b.size(); ++j) if (norm(pos(b[i]) - pos(b[j])) == 0) C.discard();
    }
    C.nontrivial(b[0].m != b[1].m && norm(vel(b[0])) > 0);
    C.note("sys ", sys, " n=", b.size(), " ");
    switch (sys) {
        case 0: return orders<hub::system::SimpleSystem, TD>(C, b, "simple/double");
        case 1: return orders<hub::system::ChainSystem, TD>(C, b, "chain/double");
        case 2: return orders<hub::system::SimpleSystem, TL>(C, b, "simple/long double");
        case 3: return orders<hub::system::ChainSystem, TK>(C, b, "chain/double_k");
        default: return orders<ArLogH, TL>(C, b, "AR-chain/long double");
    }
}
LAW("speed of light", "the constant used by the terms is 299792.458 km/s in code units", 1, 1) {
    C.nontrivial();
    // independent: AU in km, year in s, one code time unit = yr/(2 pi) for G Msun = 4 pi^2 AU^3/yr^2
    R au = 149597870.7L, c = CC / au;  // AU per second
    R GM = 1.32712440018e11L;          // km^3/s^2
    R tu = std::sqrt(au * au * au / GM);
    REQUIRE(C, std::fabs(consts::C / (double)(c * tu) - 1) < 2e-3, "C = ", consts::C, " expected about ", c * tu);
    REQUIRE(C, std::fabs(consts::C - (double)light()) < 1e-12 * consts::C, "C = ", consts::C, " is not 299792.458 km/s = ", light());
}
