// P08: runs can be interrupted, continued, copied, repeated, nested and executed side by side.
//: methods all
#include <atomic>
#include <thread>
#include "cond.hpp"
#include "gen.hpp"
using namespace sim;
using ref::R;

static bool same(Snap const& a, Snap const& b) {
    if (a.t != b.t || a.b.size() != b.b.size() || a.idn != b.idn) return false;
    for (size_t i = 0; i < a.b.size(); ++i) {
        if (a.b[i].m != b.b[i].m) return false;
        for (int k = 0; k < 3; ++k) if (a.b[i].x[k] != b.b[i].x[k] || a.b[i].v[k] != b.b[i].v[k]) return false;
    }
    return true;
}
static std::vector<Method const*> pool(bool fixed) {
    std::vector<Method const*> v;
    for (auto& m : methods()) if (m.fixed == fixed && (fixed || m.integ != "Sym2")) v.push_back(&m);
    return v;
}
struct Setup { Method const* m; std::vector<Body> b; R t0, T, h, k; double rtol; };
static Setup setup(pbt::Case& C, bool fixed, R kmax) {
    static auto f = pool(true), a = pool(false);
    Setup s;
    s.m = C.pick(fixed ? f : a);
    s.b = C.boolean() ? gen::two_body(C, 0, 0.7L, false).b : gen::any_system(C, 3, 4);
    if (s.m->regularised() && gen::frame_cancellation(s.b) > 20) C.discard();
    R tau = gen::time_scale(s.b);
    s.T = (double)(tau * (R)C.real(0.5, 12));
    s.h = (double)(tau * (R)C.real(0.02, 0.1));
    s.t0 = C.chance(1, 3) ? (R)(double)(s.T * C.sym(3)) : 0;
    double lo = s.m->integ == "Sym4" ? 1e-12 : 1e-14;
    s.rtol = C.boolean() ? lo : C.logreal(lo, 1e-9);
    ref::Nbody n; n.load(s.b, 0); n.max_steps = 1000; n.tol = 1e-13L; n.run_to(s.T);
    if (!n.ok) C.discard();
    R r0 = 1e300L;
    for (size_t i = 0; i < s.b.size(); ++i) for (size_t j = 0; j < i; ++j) r0 = std::min(r0, ref::norm(ref::pos(s.b[i]) - ref::pos(s.b[j])));
    auto end = n.bodies();
    s.k = ref::condition(s.b, end, [&](auto const& c) { return ref::nbody(c, s.T, ref::newton, 1e-13L); }, 1e-8L, 2) * std::max<R>(1, (r0 / n.rmin) * (r0 / n.rmin));
    if (!(s.k < kmax) || (fixed && r0 / n.rmin > 2.5L)) C.discard();
    C.note(s.m->name, " t0=", (double)s.t0, " T=", (double)s.T, " h=", (double)s.h, " rtol=", s.rtol, "\n", describe(s.b), "\n");
    return s;
}
static RunSpec spec(Setup const& s, Sim const& q) {
    RunSpec r;
    r.t_end = s.t0 + s.T; r.rtol = s.rtol; r.time_rtol = 1e-13; r.max_steps = 20000;
    if (s.m->fixed) { r.step = s.m->regularised() ? s.h * q.view().step_scale() : s.h; }
    return r;
}
LAW("interrupted runs, adaptive", "one run against the same run in up to 5 pieces (by end time or stop condition, same simulator or a copy taken in between), any adaptive method; non-trivial: several pieces", 2500, 120000) {
    auto s = setup(C, false, 1e5L);
    auto a = s.m->make(s.t0, s.b), b = s.m->make(s.t0, s.b);
    auto r = spec(s, *a);
    a->run(r);
    int pieces = C.integer(2, 5);
    R t = s.t0;
    for (int i = 0; i < pieces; ++i) {
        auto p = r;
        if (i + 1 < pieces) {
            if (C.boolean()) { t += (s.t0 + s.T - t) * (R)C.real(0.05, 0.9); t = (double)t; p.t_end = t; C.note(" to ", (double)t); }
            else { long n = C.integer(1, 12); p.max_steps = n; C.note(" ", n, " steps"); }
        }
        if (C.chance(1, 3)) { b = b->clone(); C.note(" copy"); }
        b->run(p);
        t = b->view().time();
    }
    C.nontrivial();
    auto A = a->view().snap(), B = b->view().snap();
    R scale = std::max(std::fabs(s.t0), std::fabs(s.t0 + s.T));
    REQUIRE(C, std::fabs(B.t - (s.t0 + s.T)) <= 2e-13L * scale, "the pieces end at ", B.t, " instead of ", s.t0 + s.T);
    auto want = ref::nbody(A.b, B.t - A.t);
    auto sc = ref::scales(s.b, want);
    R err = ref::rel_diff(B.b, want, sc);
    R clock = 1e-15L * scale / (gen::time_scale(s.b) * 0.2L) * pieces;
    R unit = s.k * ((s.m->integ == "Radau" ? 1e-14L : (R)std::max(s.rtol, 1e-14)) * (s.m->regularised() ? gen::frame_cancellation(s.b) : 1) + clock);
    pbt::cal(pbt::str("pieces ", s.m->integ), err / unit);
    double allow = s.m->integ == "Sym4" ? 50 : 5;
    REQUIRE(C, err <= allow * unit, s.m->name, ": run in pieces the result differs by ", err, " (relative), ", allow * unit, " allowed");
}
LAW("interrupted runs, constant step", "n steps at once against the same number of steps in pieces, any constant-step method; non-trivial: several pieces", 6000, 300000) {
    auto s = setup(C, true, 1e6L);
    auto a = s.m->make(s.t0, s.b), b = s.m->make(s.t0, s.b);
    auto r = spec(s, *a);
    r.has_end = false;
    int pieces = C.integer(2, 5);
    long n = 0, total = std::max<long>(pieces, (long)(s.T / s.h));
    if (total > 400) C.discard();
    std::vector<long> part;
    for (int i = 0; i < pieces; ++i) { part.push_back(i + 1 < pieces ? C.integer(1, std::max<long>(1, (total - n) / 2)) : std::max<long>(1, total - n)); n += part.back(); }
    r.max_steps = n;
    a->run(r);
    for (long p : part) {
        if (C.chance(1, 3)) { b = b->clone(); C.note(" copy"); }
        C.note(" ", p, " steps");
        r.max_steps = p;
        b->run(r);
    }
    C.nontrivial();
    auto A = a->view().snap(), B = b->view().snap();
    auto sc = ref::scales(s.b, A.b);
    R err = ref::rel_diff(B.b, A.b, sc), unit = s.k * (s.m->prec >= Ext && s.m->integ != "Radau" ? 1.1e-19L : 2.2e-16L) * (3 + std::sqrt((R)n)) * (s.m->regularised() ? gen::frame_cancellation(s.b) : 1);
    pbt::cal(pbt::str("const pieces ", s.m->integ, s.m->regularised() ? " reg" : s.m->chain() ? " chain" : " flat"), err / unit);
    REQUIRE(C, err <= 40 * unit, s.m->name, ": ", n, " steps in pieces end ", err, " (relative) away from ", n, " steps at once, ", 40 * unit, " allowed");
    REQUIRE(C, std::fabs(A.t - B.t) <= 1e-14L * (std::fabs(A.t) + std::fabs(s.t0)) * (n + 10) + (s.m->regularised() ? 40 * unit * s.T : 0), s.m->name, ": clocks ", A.t, " and ", B.t);
}
LAW("copies and repetitions", "a simulator, its copy (fresh, or taken after a run), and a second one made from the same input: equal results; running one leaves the others alone; same when nested in a callback of another run or run in threads side by side; any method; non-trivial: always", 3000, 150000) {
    bool fixed = C.boolean();
    auto s = setup(C, fixed, 1e9L);
    int mode = C.choice(3);
    C.label(mode == 0 ? "copy of a fresh simulator" : mode == 1 ? "copy after a run" : mode == 2 ? "nested" : "threads");
    auto a = s.m->make(s.t0, s.b);
    auto r = spec(s, *a);
    auto start = a->view().snap();
    C.nontrivial();
    if (mode <= 1) {
        if (mode == 1) { auto p = r; p.max_steps = C.integer(1, 5); a->run(p); start = a->view().snap(); }
        auto c = a->clone();
        REQUIRE(C, same(c->view().snap(), start), s.m->name, ": a copy differs from the original");
        c->run(r);
        auto end = c->view().snap();
        REQUIRE(C, same(a->view().snap(), start), s.m->name, ": running a copy changed the original");
        if (mode == 0) { auto d = s.m->make(s.t0, s.b); d->run(r); REQUIRE(C, same(d->view().snap(), end), s.m->name, ": a second simulator from the same input gives another result"); }
        a->run(r);
        auto fin = a->view().snap();
        REQUIRE(C, same(c->view().snap(), end), s.m->name, ": running the original changed the copy");
        REQUIRE(C, same(fin, end), s.m->name, ": the original (time ", fin.t, ") and its copy (time ", end.t, ") give different results, ", ref::rel_diff(fin.b, end.b, ref::scales(fin.b, end.b)), " apart");
        return;
    }
    a->run(r);
    auto alone = a->view().snap();
    // beside it another one: of the same kind, or any other
    bool kind = C.boolean();
    auto o = setup(C, kind ? fixed : C.boolean(), 1e9L);
    if (kind) {
        if (s.m->regularised() && gen::frame_cancellation(o.b) > 20) C.discard();
        o.m = s.m;
        o.rtol = std::max(o.rtol, s.m->integ == "Sym4" ? 1e-12 : 1e-14);
        C.label("same kind");
    }
    auto b = o.m->make(o.t0, o.b);
    auto ro = spec(o, *b);
    b->run(ro);
    auto alone2 = b->view().snap();
    auto a2 = s.m->make(s.t0, s.b), b2 = o.m->make(o.t0, o.b);
    if (mode == 2) {
        long at = C.integer(0, 6), i = 0;
        auto rn = r;
        rn.on_op = [&](View const&, real) { if (i++ == at) b2->run(ro); };
        a2->run(rn);
        if (i <= at) C.discard();
    } else {
        std::atomic<int> ready{0};  // start together
        auto together = [&](Sim& q, RunSpec const& spec) { ++ready; while (ready < 2) {} q.run(spec); };
        std::thread x([&] { together(*a2, r); }), y([&] { together(*b2, ro); });
        x.join(); y.join();
    }
    REQUIRE(C, same(a2->view().snap(), alone), s.m->name, ": another result while ", o.m->name, mode == 2 ? " runs in a callback" : " runs in another thread");
    REQUIRE(C, same(b2->view().snap(), alone2), o.m->name, ": another result ", mode == 2 ? "in a callback of " : "next to ", s.m->name);
}
