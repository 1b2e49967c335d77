// extra forces used by P14, in the library's form and for the reference integrator
#pragma once
#include "sim_impl.hpp"
#include "phys.hpp"
namespace p14 {
// velocity independent: an anisotropic trap, slightly different for every particle
struct Trap {
    constexpr static bool vel_dependent{false};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        using S = typename P::Scalar;
        for (size_t i = 0; i < p.number(); ++i) {
            S k = 0.03125 * (1 + 0.5 * (p.idn(i) % 3));
            a[i].x -= k * (S)p.pos(i).x; a[i].y -= 2 * k * (S)p.pos(i).y; a[i].z -= 0.5 * k * (S)p.pos(i).z;
        }
    }
};
// velocity dependent: drag and a magnetic-like term
struct Wind {
    constexpr static bool vel_dependent{true};
    template <class P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        using S = typename P::Scalar;
        for (size_t i = 0; i < p.number(); ++i) {
            S d = 0.015625 * (1 + (p.idn(i) % 2)), w = 0.125;
            S vx = (S)p.vel(i).x, vy = (S)p.vel(i).y, vz = (S)p.vel(i).z;
            a[i].x += -d * vx + w * vy; a[i].y += -d * vy - w * vx; a[i].z += -d * vz;
        }
    }
};
}  // namespace p14
// the time transformation no method alias uses
namespace hub::methods {
template <class I, class T> using TtlRegu = system::RegularizedSystem<particles::PointParticles<T>, I, system::ReguType::TTL>;
template <class I, class T> using TtlChain = system::ARchainSystem<particles::PointParticles<T>, I, system::ReguType::TTL>;
template <class I> using TTL_BS = Simulator<TtlRegu<I, details::normal_type>, details::BS>;
template <class I> using TTL_Chain_BS_Plus = Simulator<TtlChain<I, details::precise_type>, details::BS_plus>;
template <class I> using TTL_Chain_Radau = Simulator<TtlChain<I, details::normal_type>, details::Radau>;
template <class I> using TTL_Sym6_Plus = Simulator<TtlRegu<I, details::precise_type>, details::sym6_plus>;
template <class I> using Const_TTL_Sym4 = Simulator<TtlRegu<I, details::normal_type>, details::const_sym4>;
template <class I> using Const_TTL_Chain_Sym2 = Simulator<TtlChain<I, details::normal_type>, details::const_sym2>;
}  // namespace hub::methods
#define F_ADD(TAG, NAME, SYS, INTEG, FIXED, PREC, ORDER, ...)                                                                         \
    sim::add_method({#NAME, TAG, SYS, INTEG, FIXED, sim::PREC, ORDER, [](sim::real t, std::vector<sim::Body> const& b) {                \
                         return sim::make_sim<hub::methods::NAME<__VA_ARGS__>>(t, b); }})
#define F_ADAPTIVE(TAG, ...)                                                 \
    F_ADD(TAG, BS, "Simple", "BS", false, Dbl, 0, __VA_ARGS__),              \
    F_ADD(TAG, AR_BS, "Regu", "BS", false, Dbl, 0, __VA_ARGS__),             \
    F_ADD(TAG, Chain_BS_Plus, "Chain", "BS", false, DblComp, 0, __VA_ARGS__), \
    F_ADD(TAG, AR_Chain, "ARchain", "BS", false, Dbl, 0, __VA_ARGS__),       \
    F_ADD(TAG, AR_Chain_Plus, "ARchain", "BS", false, DblComp, 0, __VA_ARGS__), \
    F_ADD(TAG, Radau_Plus, "Simple", "Radau", false, DblComp, 0, __VA_ARGS__),   \
    F_ADD(TAG, AR_Radau, "Regu", "Radau", false, Dbl, 0, __VA_ARGS__),       \
    F_ADD(TAG, Chain_Radau, "Chain", "Radau", false, Dbl, 0, __VA_ARGS__),   \
    F_ADD(TAG, AR_Radau_Chain_Plus, "ARchain", "Radau", false, DblComp, 0, __VA_ARGS__), \
    F_ADD(TAG, Sym6, "Simple", "Sym6", false, Dbl, 6, __VA_ARGS__),          \
    F_ADD(TAG, AR_Sym6, "Regu", "Sym6", false, Dbl, 6, __VA_ARGS__),         \
    F_ADD(TAG, Chain_Sym6_Ext, "Chain", "Sym6", false, Ext, 6, __VA_ARGS__), \
    F_ADD(TAG, AR_Sym8_Chain_Plus, "ARchain", "Sym8", false, DblComp, 8, __VA_ARGS__), \
    F_ADD(TAG, TTL_BS, "Regu", "BS", false, Dbl, 0, __VA_ARGS__),            \
    F_ADD(TAG, TTL_Chain_BS_Plus, "ARchain", "BS", false, DblComp, 0, __VA_ARGS__), \
    F_ADD(TAG, TTL_Chain_Radau, "ARchain", "Radau", false, Dbl, 0, __VA_ARGS__), \
    F_ADD(TAG, TTL_Sym6_Plus, "Regu", "Sym6", false, DblComp, 6, __VA_ARGS__)
#define F_FIXED(TAG, ...)                                                    \
    F_ADD(TAG, Const_Sym2, "Simple", "Sym2", true, Dbl, 2, __VA_ARGS__),     \
    F_ADD(TAG, Const_AR_Sym2, "Regu", "Sym2", true, Dbl, 2, __VA_ARGS__),    \
    F_ADD(TAG, Const_Chain_Sym4, "Chain", "Sym4", true, Dbl, 4, __VA_ARGS__),  \
    F_ADD(TAG, Const_Sym4_Plus, "Simple", "Sym4", true, DblComp, 4, __VA_ARGS__), \
    F_ADD(TAG, Const_AR_Sym4, "Regu", "Sym4", true, Dbl, 4, __VA_ARGS__),    \
    F_ADD(TAG, Const_AR_Sym4_Chain, "ARchain", "Sym4", true, Dbl, 4, __VA_ARGS__), \
    F_ADD(TAG, Const_AR_Sym2_Chain_Plus, "ARchain", "Sym2", true, DblComp, 2, __VA_ARGS__), \
    F_ADD(TAG, Const_Radau, "Simple", "Radau", true, Dbl, 15, __VA_ARGS__),  \
    F_ADD(TAG, Const_AR_Radau_Chain, "ARchain", "Radau", true, Dbl, 15, __VA_ARGS__), \
    F_ADD(TAG, Const_TTL_Sym4, "Regu", "Sym4", true, Dbl, 4, __VA_ARGS__),   \
    F_ADD(TAG, Const_TTL_Chain_Sym2, "ARchain", "Sym2", true, Dbl, 2, __VA_ARGS__)
#define G_ hub::force::NewtonianGrav
#define F_REGISTER(LIST, TAG, ...) static bool reg_[] = {LIST(TAG, hub::force::Interactions<G_ __VA_OPT__(, ) __VA_ARGS__>)};
