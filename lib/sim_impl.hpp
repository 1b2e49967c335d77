#pragma once
#include "sim.hpp"
#include "spaceHub.hpp"

namespace sim {
template <class PS> struct ViewOf : View {
    PS const* p;
    explicit ViewOf(PS const& s) : p(&s) {}
    real time() const override { return static_cast<real>(p->time()); }
    size_t size() const override { return p->number(); }
    Body body(size_t i) const override {
        Body b;
        b.m = p->mass()[i];
        b.x[0] = static_cast<real>(p->pos()[i].x); b.x[1] = static_cast<real>(p->pos()[i].y); b.x[2] = static_cast<real>(p->pos()[i].z);
        b.v[0] = static_cast<real>(p->vel()[i].x); b.v[1] = static_cast<real>(p->vel()[i].y); b.v[2] = static_cast<real>(p->vel()[i].z);
        return b;
    }
    size_t idn(size_t i) const override { return p->idn()[i]; }
    real step_scale() const override { return static_cast<real>(const_cast<PS*>(p)->step_scale()); }
};

template <class S> typename S::Particle point(Body const& b) {
    using T = typename S::Scalar;
    return typename S::Particle{T(b.m), T(b.x[0]), T(b.x[1]), T(b.x[2]), T(b.v[0]), T(b.v[1]), T(b.v[2])};
}

template <class S> struct SimOf : Sim {
    using PS = typename S::ParticleSystem;
    using T = typename S::Scalar;
    S s;
    explicit SimOf(S x) : s(std::move(x)) {}
    struct V : View {
        SimOf const* o;
        ViewOf<PS> w() const { return ViewOf<PS>(o->s.particles()); }
        real time() const override { return w().time(); }
        size_t size() const override { return w().size(); }
        Body body(size_t i) const override { return w().body(i); }
        size_t idn(size_t i) const override { return w().idn(i); }
        real step_scale() const override { return w().step_scale(); }
    };
    mutable V v_;
    View const& view() const override { v_.o = this; return v_; }
    std::unique_ptr<Sim> clone() const override { return std::make_unique<SimOf<S>>(s); }
    RunResult run(RunSpec const& r) override {
        RunResult res;
        typename S::RunArgs a;
        if (r.step != 0) a.step_size = T(r.step);
        if (r.atol >= 0) a.atol = T(r.atol);
        if (r.rtol >= 0) a.rtol = T(r.rtol);
        if (r.time_rtol >= 0) a.time_rtol = T(r.time_rtol);
        if (r.has_end) a.add_stop_condition(T(r.t_end));
        if (r.on_start) a.add_start_point_operation([&](auto& p, auto h) { r.on_start(ViewOf<PS>(p), h); });
        if (r.on_op) a.add_operation([&](auto& p, auto h) { r.on_op(ViewOf<PS>(p), h); });
        if (r.on_stop) a.add_stop_point_operation([&](auto& p, auto h) { r.on_stop(ViewOf<PS>(p), h); });
        a.add_stop_condition([&](auto& p, auto h) -> bool {
            if (++res.checks > r.max_steps) { res.hit_cap = true; return true; }
            if (r.stop && r.stop(ViewOf<PS>(p), h)) { res.stopped = true; return true; }
            return false;
        });
        s.run(a);
        return res;
    }
};

template <class S> std::unique_ptr<Sim> make_sim(real t0, std::vector<Body> const& b) {
    std::vector<typename S::Particle> ps;
    for (auto& x : b) ps.push_back(point<S>(x));
    return std::make_unique<SimOf<S>>(S(typename S::Scalar(t0), ps));
}
inline const char* suffix(Precision p) { return p == Dbl ? "" : p == DblComp ? "_Plus" : p == Ext ? "_Ext" : "_ExtPlus"; }
}  // namespace sim

#define M_ADD(BASE, SUF, PREC, SYS, INTEG, FIXED, ORDER, TYPE)                                                             \
    static bool reg_##TYPE = sim::add_method({#TYPE, BASE, SYS, INTEG, FIXED, sim::PREC, ORDER,                            \
                                              [](sim::real t, std::vector<sim::Body> const& b) { return sim::make_sim<hub::methods::TYPE<>>(t, b); }});
#define M_ADAPT(NAME, SYS, INTEG, ORDER)                            \
    M_ADD(#NAME, "", Dbl, SYS, INTEG, false, ORDER, NAME)           \
    M_ADD(#NAME, "_Plus", DblComp, SYS, INTEG, false, ORDER, NAME##_Plus) \
    M_ADD(#NAME, "_Ext", Ext, SYS, INTEG, false, ORDER, NAME##_Ext) \
    M_ADD(#NAME, "_ExtPlus", ExtComp, SYS, INTEG, false, ORDER, NAME##_ExtPlus)
#define M_FIXED(NAME, SYS, INTEG, ORDER)                                    \
    M_ADD("Const_" #NAME, "", Dbl, SYS, INTEG, true, ORDER, Const_##NAME)         \
    M_ADD("Const_" #NAME, "_Plus", DblComp, SYS, INTEG, true, ORDER, Const_##NAME##_Plus) \
    M_ADD("Const_" #NAME, "_Ext", Ext, SYS, INTEG, true, ORDER, Const_##NAME##_Ext) \
    M_ADD("Const_" #NAME, "_ExtPlus", ExtComp, SYS, INTEG, true, ORDER, Const_##NAME##_ExtPlus)
