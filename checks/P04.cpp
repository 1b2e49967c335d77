// P04: trajectories respect the symmetries of Newtonian gravity (metamorphic relations between runs).
//: methods all
#include "cond.hpp"
#include "gen.hpp"
using namespace sim;
using ref::R;
using ref::V;

static R eps(Method const& m) { return m.prec >= Ext && m.integ != "Radau" ? 1.1e-19L : 2.2e-16L; }
// a symmetry operation: scaling of length (time and velocity follow), rotation/reflection, shift, boost, relabelling, clock offset
struct Sym {
    R len{1}, mass{1}, tscale{1}, vscale{1}, t0{0};
    V e1{1, 0, 0}, e2{0, 1, 0}, e3{0, 0, 1}, shift, boost;
    std::vector<size_t> perm;
    V lin(V a) const { return V(ref::dot(e1, a), ref::dot(e2, a), ref::dot(e3, a)); }
    // t: time since the start, in the original system
    std::vector<Body> apply(std::vector<Body> const& b, R t) const {
        std::vector<Body> o(b.size());
        for (size_t i = 0; i < b.size(); ++i) {
            auto& q = o[i];
            auto const& p = b[perm[i]];
            q.m = p.m * mass;
            ref::set_pos(q, lin(ref::pos(p)) * len + shift + boost * (t * tscale));
            ref::set_vel(q, lin(ref::vel(p)) * vscale + boost);
        }
        return o;
    }
};
static Sym symmetry(pbt::Case& C, std::vector<Body> const& b, bool boost) {
    Sym s;
    size_t n = b.size();
    for (size_t i = 0; i < n; ++i) s.perm.push_back(i);
    auto sc = ref::scales(b, b);
    if (C.boolean()) { C.label("relabelled"); for (size_t k = n; k-- > 1;) std::swap(s.perm[k], s.perm[C.choice(k)]); }
    if (C.boolean()) {
        C.label("rotated");
        V a = gen::unit(C), u = gen::unit(C);
        a = a / ref::norm(a);
        V c = ref::cross(a, u);
        if (ref::norm(c) > 0.05L) { c = c / ref::norm(c); s.e1 = a; s.e2 = c; s.e3 = ref::cross(a, c); }
    }
    if (C.chance(1, 3)) { C.label("reflected"); s.e1 = -s.e1; }
    if (C.boolean()) {
        C.label("scaled");
        s.len = C.logreal(1e-3, 1e3); s.mass = C.boolean() ? C.logreal(1e-2, 1e2) : 1;
        s.vscale = std::sqrt(s.mass / s.len); s.tscale = s.len / s.vscale;
    }
    if (C.boolean()) { C.label("shifted"); s.shift = gen::unit(C) * (sc.L * s.len * (R)C.real(0, 5)); }
    if (boost && C.boolean()) { C.label("boosted"); s.boost = gen::unit(C) * (sc.V * s.vscale * (R)C.real(0, 2)); }
    if (C.chance(1, 3)) { C.label("clock offset"); s.t0 = C.sym(20); }
    return s;
}
static std::vector<Body> own(Snap const& s) { return s.b; }
// relative to the particles' identifiers nothing is reordered by a run
LAW("constant-step methods", "a run and its image under relabelling, rotation, reflection, rescaling, shift, boost, clock offset take the same discrete trajectory up to rounding; 2-5 bodies, every constant-step method; non-trivial: condition number below 1e6", 6000, 300000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (m.fixed) v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    auto b = C.boolean() ? gen::two_body(C, 0, 0.7L, false).b : gen::any_system(C, 3, 5);
    if (m.regularised() && gen::frame_cancellation(b) > 5) C.discard();
    auto y = symmetry(C, b, !m.regularised());
    R h = gen::time_scale(b) * (R)C.real(0.02, 0.15);
    h = (double)h;
    long n = C.integer(1, 60);
    auto img = y.apply(b, 0);
    if (m.prec < Ext) ref::round_double(img);
    C.note(m.name, " h=", (double)h, " steps=", n, " t0=", (double)y.t0, "\n", describe(b), "\nimage ", describe(img));
    R tau = 1e300L;
    auto go = [&](std::vector<Body> const& s0, R t0, R step) {
        auto s = m.make(t0, s0);
        RunSpec r;
        r.has_end = false; r.step = m.regularised() ? step * s->view().step_scale() : step; r.max_steps = n;
        r.on_op = [&](View const& v, real) { tau = std::min(tau, gen::time_scale(v.snap().b)); };
        s->run(r);
        return s->view().snap();
    };
    auto A = go(b, 0, h);
    if (h > 0.2L * tau) C.discard();  // an encounter this step does not resolve
    R t = A.t;
    auto B = go(img, y.t0, h * y.tscale);
    auto want = y.apply(A.b, t);
    auto sc = ref::scales(img, want);
    R k = ref::condition(b, A.b, [&](auto const& c) { return go(c, 0, h).b; }, 1e-8L, 2);
    if (!(k < 1e6L)) C.discard();
    C.nontrivial();
    C.label(m.system);
    R clock = 2.2e-16L * (std::fabs(y.t0) + std::fabs(t * y.tscale)) * (n + 5);
    R unit = k * eps(m) * (3 + std::sqrt((R)n)) * (m.regularised() ? gen::frame_cancellation(b) : 1);
    R err = ref::rel_diff(B.b, want, sc);
    R et = std::fabs(B.t - y.t0 - t * y.tscale);
    pbt::cal(m.integ + (m.regularised() ? " const reg" : m.chain() ? " const chain" : " const flat") + (m.prec>=Ext?" ext":""), err / unit);
    R tu = clock + std::fabs(t * y.tscale) * unit;
    pbt::cal("clock", et / tu);
    REQUIRE(C, err <= 60 * unit, m.name, ": the image of the final state and the final state of the image differ by ", err, " (relative), ", 60 * unit, " allowed");
    REQUIRE(C, et <= 30 * tu, m.name, ": the clocks differ by ", et);
}
LAW("adaptive methods", "as above for every adaptive method (not second order), tolerance and end time, within the tolerance; boosts included for all; non-trivial: condition number below 1e5", 2500, 120000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (!m.fixed && m.integ != "Sym2") v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    auto b = C.boolean() ? gen::two_body(C, 0, 0.8L, false).b : gen::any_system(C, 3, 5);
    auto y = symmetry(C, b, true);
    auto img = y.apply(b, 0);
    if (m.prec < Ext) ref::round_double(img);
    R canc = m.regularised() ? std::max(gen::frame_cancellation(b), gen::frame_cancellation(img)) : 1;
    if (canc > 20) C.discard();
    R T = gen::time_scale(b) * (R)C.logreal(0.3, 20);
    T = (double)T;
    double lo = m.integ == "Sym4" ? 1e-12 : 1e-14, rtol = C.boolean() ? lo : C.logreal(lo, 1e-9);
    C.note(m.name, " T=", (double)T, " rtol=", rtol, " t0=", (double)y.t0, "\n", describe(b), "\nimage ", describe(img));
    auto go = [&](std::vector<Body> const& s0, R t0, R span) {
        auto s = m.make(t0, s0);
        RunSpec r;
        r.t_end = t0 + span; r.rtol = rtol; r.time_rtol = 1e-13; r.max_steps = 20000;
        auto q = s->run(r);
        if (q.hit_cap) C.discard();
        return s->view().snap();
    };
    ref::Nbody nb;
    nb.load(b, 0); nb.max_steps = 3000; nb.tol = 1e-15L; nb.run_to(T);
    if (!nb.ok) C.discard();
    R r0 = 1e300L;
    for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < i; ++j) r0 = std::min(r0, ref::norm(ref::pos(b[i]) - ref::pos(b[j])));
    auto A = go(b, 0, T);
    auto B = go(img, y.t0, T * y.tscale);
    // both ends are only hit within the time tolerance: move the image to the same instant
    auto want = y.apply(A.b, A.t);
    auto sc = ref::scales(img, want);
    want = ref::nbody(want, B.t - y.t0 - A.t * y.tscale);
    R k = ref::condition(b, A.b, [&](auto const& c) { return ref::nbody(c, A.t, ref::newton, 1e-13L); }, 1e-8L, 2);
    k *= std::max<R>(1, (r0 / nb.rmin) * (r0 / nb.rmin));  // rounding during a close encounter
    if (!(k < 1e5L)) C.discard();
    C.nontrivial();
    C.label(m.system);
    R rate = 1 / (gen::time_scale(img) * 0.2L), clock = 1e-15L * (std::fabs(y.t0) + T * y.tscale) * rate;
    R unit = k * ((m.integ == "Radau" ? 1e-14L : (R)std::max(rtol, 1e-14)) * canc + clock);
    R err = ref::rel_diff(B.b, want, sc);
    pbt::cal(pbt::str("adaptive ", m.integ), err / unit);
    double allow = m.integ == "Sym4" ? 200 : 20;
    REQUIRE(C, err <= allow * unit, m.name, ": the image of the final state and the final state of the image differ by ", err, " (relative), ", allow * unit, " allowed");
}
LAW("time reversal, constant step", "n steps forwards, then n steps back: flat systems by flipping the velocities, time-transformed ones with the opposite step; symplectic methods return to the start up to rounding; non-trivial: condition number below 1e6", 5000, 250000) {
    static auto ms = [] { std::vector<Method const*> v; for (auto& m : methods()) if (m.fixed && m.integ != "Radau") v.push_back(&m); return v; }();
    auto const& m = *C.pick(ms);
    auto b = C.boolean() ? gen::two_body(C, 0, 0.7L, false).b : gen::any_system(C, 3, 5);
    if (m.regularised() && gen::frame_cancellation(b) > 5) C.discard();
    R h = gen::time_scale(b) * (R)C.real(0.02, 0.15);
    h = (double)h;
    long n = C.integer(1, 60);
    bool flip = !m.regularised() && C.boolean();
    C.note(m.name, " h=", (double)h, " steps=", n, flip ? " velocities flipped" : " negative step", "\n", describe(b));
    auto s = m.make(0, b);
    RunSpec r;
    r.has_end = false; r.step = m.regularised() ? h * s->view().step_scale() : h; r.max_steps = n;
    R tau = 1e300L;
    r.on_op = [&](View const& v, real) { tau = std::min(tau, gen::time_scale(v.snap().b)); };
    s->run(r);
    if (h > 0.2L * tau) C.discard();  // an encounter this step does not resolve
    auto mid = s->view().snap();
    std::vector<Body> back;
    R tb;
    auto rev = [&](std::vector<Body> c) { for (auto& p : c) ref::set_vel(p, -ref::vel(p)); return c; };
    if (flip) {
        auto s2 = m.make(mid.t, rev(mid.b));
        s2->run(r);
        back = rev(s2->view().snap().b);
        tb = s2->view().time() - 2 * mid.t;
    } else {
        r.step = -r.step;
        s->run(r);
        back = s->view().snap().b;
        tb = s->view().time();
    }
    R k = ref::condition(b, mid.b, [&](auto const& c) { auto q = m.make(0, c); RunSpec f; f.has_end = false; f.step = m.regularised() ? h * q->view().step_scale() : h; f.max_steps = n; q->run(f); return q->view().snap().b; }, 1e-8L, 2);
    if (!(k < 1e6L)) C.discard();
    C.nontrivial();
    R unit = k * eps(m) * (3 + std::sqrt((R)n)) * (m.regularised() ? gen::frame_cancellation(b) : 1);
    R err = ref::rel_diff(back, b, ref::scales(b, mid.b));
    pbt::cal(m.regularised() ? "rev reg" : m.chain() ? "rev chain" : "rev flat", err / unit);
    REQUIRE(C, err <= 100 * unit, m.name, ": after going forth and back the state is off by ", err, " (relative), ", 100 * unit, " allowed");
    REQUIRE(C, std::fabs(tb) <= 1e-13L * std::fabs(mid.t) * (1 + k), m.name, ": after going forth and back the clock is off by ", tb);
}
