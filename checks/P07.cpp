// P07: the run contract: where a run ends, what is called when, and how much work it may take.
//: methods all
#include "gen.hpp"
#include "sim_impl.hpp"
using namespace sim;
using pbt::Case;
using ref::R;

static std::vector<Method const*> pool(int kind) {  // 0 adaptive without the slow 2nd order, 1 fixed, 2 all but slow
    std::vector<Method const*> v;
    for (auto& m : methods()) {
        if (m.integ == "Sym2" && !m.fixed) continue;
        if (kind == 0 && m.fixed) continue;
        if (kind == 1 && !m.fixed) continue;
        v.push_back(&m);
    }
    return v;
}
static std::vector<Body> system(pbt::Case& C) {
    if (C.boolean()) { C.label("two bodies"); return gen::two_body(C, 0, 0.8L, false).b; }
    auto b = gen::any_system(C, 3, 5);
    return b;
}
// start and end times of every kind: zero, negative, crossing zero, far from zero
static void times(pbt::Case& C, R span, R& t0, R& t1) {
    int k = C.choice(4);
    C.label(k == 0 ? "from 0" : k == 1 ? "ends at 0" : k == 2 ? "negative" : k == 3 ? "crosses 0" : "far from 0");
    switch (k) {
        case 0: t0 = 0; t1 = span; break;
        case 1: t0 = -span; t1 = 0; break;
        case 2: t1 = -span * C.real(0.1, 3); t0 = t1 - span; break;
        case 3: t0 = -span * C.real(0.1, 0.9); t1 = t0 + span; break;
        default: t0 = span * C.real(1, 50) * (C.boolean() ? 1 : -1); t1 = t0 + span;
    }
    t0 = (double)t0; t1 = (double)t1;
}

// close encounters or many revolutions: the reference integrator needs many steps as well
static bool hard(Method const& m, std::vector<Body> const& b, R span) {
    if (m.regularised() && gen::frame_cancellation(b) > 20) return true;  // the known finding below
    if (b.size() == 2) return false;
    ref::Nbody n; n.load(b, 0); n.tol = 1e-13L; n.max_steps = 400; n.run_to(span);
    return !n.ok || n.rmin < 1e-2L * gen::time_scale(b);
}

LAW("end time", "any method from any start to any end time (zero, negative, far away): final time, call order, clock; non-trivial: more than one step", 9000, 500000) {
    static auto ms = pool(2);
    auto const& m = *C.pick(ms);
    auto b = system(C);
    R tau = gen::time_scale(b), t0, t1;
    times(C, tau * (R)C.logreal(0.05, 30), t0, t1);
    double trt = C.boolean() ? 1e-8 : C.logreal(1e-13, 1e-6);
    C.note(m.name, " t0=", (double)t0, " t1=", (double)t1, " time_rtol=", trt, "\n", describe(b));
    auto s = m.make(t0, b);
    RunSpec r;
    r.t_end = t1; r.time_rtol = trt; r.rtol = m.order == 4 ? 1e-9 : 1e-12; r.max_steps = m.fixed ? 10000 : 40000;
    R h = 0;
    if (m.fixed) {
        h = tau * (R)C.real(0.02, 0.2);
        h = (double)h;
        r.step = m.regularised() ? h * s->view().step_scale() : h;
    }
    // history of calls
    long starts = 0, ops = 0, stops = 0;
    R last = t0;
    std::string bad;
    auto say = [&](auto const&... a) { if (bad.empty()) bad = pbt::str(a...); };
    std::vector<R> at, given, told, rest;
    r.on_start = [&](View const& v, real st) { ++starts; if (ops || stops) say("start operation after other calls"); if (v.time() != t0) say("start operation at time ", v.time()); if (!(st != 0)) say("step size 0 at the start"); };
    r.stop = [&](View const&, real st) { told.push_back(st); return false; };
    r.on_op = [&](View const& v, real st) { ++ops; at.push_back(v.time()); given.push_back(st); rest.push_back((t1 - v.time()) * v.step_scale()); if (!starts) say("operation before the start operation"); if (stops) say("operation after the stop operation"); };
    r.on_stop = [&](View const& v, real) { ++stops; last = v.time(); };
    auto res = s->run(r);
    R end = s->view().time(), scale = std::max(std::fabs(t0), std::fabs(t1));
    REQUIRE(C, bad.empty(), bad);
    if (res.hit_cap && ((m.fixed && b.size() > 2) || hard(m, b, t1 - t0))) C.discard();  // a close encounter that the constant step does not resolve
    REQUIRE(C, !res.hit_cap, "still running after ", res.checks, " steps, at time ", end);
    REQUIRE(C, std::fabs(end - t1) <= trt * scale * 1.0000001L, "ended at ", end, ", off by ", end - t1);
    REQUIRE(C, starts == 1 && stops == 1, starts, " start and ", stops, " stop operations in one run");
    REQUIRE(C, ops >= 2 && at.front() == t0, "the first operation saw time ", at.empty() ? 0 : at.front());
    REQUIRE(C, at.back() == end && last == end, "the last operation saw ", at.back(), ", the stop operation ", last, ", the run ended at ", end);
    REQUIRE(C, res.checks == ops - 1, res.checks, " stop checks for ", ops, " operations");
    C.nontrivial(ops > 3);
    // stop conditions and operations are told the same current step, which is cut only to meet the end
    for (size_t i = 0; i < told.size() && i < given.size(); ++i) {
        REQUIRE(C, std::fabs(given[i]) <= std::fabs(told[i]), "step ", i, ": the operation was told a step of ", given[i], ", the stop condition of ", told[i]);
        if (given[i] != told[i]) REQUIRE(C, std::fabs(given[i] - rest[i]) <= 1e-9L * std::fabs(rest[i]), "step ", i, ": the operation was told a step of ", given[i], ", the stop condition of ", told[i], ", and the rest is ", rest[i]);
    }
    R back = 0;
    for (size_t i = 1; i < at.size(); ++i) { if (at[i] < at[i - 1]) back += at[i - 1] - at[i]; }
    if (!m.regularised()) REQUIRE(C, back <= 1e-12L * scale, "the clock ran backwards by ", back);
    if (m.fixed && !m.regularised()) {
        for (size_t i = 0; i + 2 < at.size(); ++i)
            REQUIRE(C, std::fabs(at[i] - (t0 + h * i)) <= 1e-14L * scale * (i + 2), "step ", i, " starts at ", at[i], " instead of ", t0 + h * i);
        // operations and stop conditions are told the step size in use
        for (size_t i = 0; i + 1 < at.size(); ++i) REQUIRE(C, std::fabs(given[i] - (at[i + 1] - at[i])) <= 1e-14L * scale * (i + 2), "operation ", i, " was told a step of ", given[i], ", taken was ", at[i + 1] - at[i]);
        for (size_t i = 0; i + 2 < told.size(); ++i) REQUIRE(C, std::fabs(told[i] - h) <= 1e-14L * h, "stop conditions were told a step of ", told[i], " instead of ", h);
        long want = (long)std::ceil((t1 - t0) / h);
        REQUIRE(C, std::labs(ops - 1 - want) <= 1, ops - 1, " steps of ", h, " for an interval of ", t1 - t0);
    }
    // masses never change, ids neither
    auto sn = s->view().snap();
    REQUIRE(C, sn.b.size() == b.size(), "number of particles changed");
    for (size_t i = 0; i < b.size(); ++i) REQUIRE(C, sn.b[i].m == b[i].m && sn.idn[i] == i, "particle ", i, " changed its mass or id");
}
LAW("stop condition", "a stop condition on time, separation or number of steps ends the run at the first step boundary where it holds; non-trivial: it stopped before the end", 6000, 300000) {
    static auto ms = pool(2);
    auto const& m = *C.pick(ms);
    auto b = system(C);
    R tau = gen::time_scale(b), t0, t1;
    times(C, tau * (R)C.logreal(0.5, 30), t0, t1);
    bool has_end = C.boolean();
    int kind = C.choice(2);
    long count = C.integer(0, 40);
    R when = t0 + (t1 - t0) * (R)C.real(-0.1, 1.2), sep = ref::norm(ref::pos(b[0]) - ref::pos(b[1])) * (R)C.real(0.5, 1.5);
    C.note(m.name, " t0=", (double)t0, " t1=", (double)t1, has_end ? "" : " (no end)", " kind=", kind, " count=", count, " when=", (double)when, "\n", describe(b));
    auto s = m.make(t0, b);
    RunSpec r;
    r.has_end = has_end || kind == 1;
    if (!r.has_end && kind == 0 && when > t1 + 1) C.discard();
    r.t_end = t1; r.rtol = m.order == 4 ? 1e-9 : 1e-12; r.max_steps = m.fixed ? 10000 : 40000;
    if (m.fixed) { R h = tau * (R)C.real(0.02, 0.2); r.step = m.regularised() ? h * s->view().step_scale() : h; }
    bool inside = ref::norm(ref::pos(b[0]) - ref::pos(b[1])) < sep;
    long n = 0;
    auto cond = [&](View const& v) {
        if (kind == 0) return v.time() >= when;
        if (kind == 1) return (ref::norm(ref::pos(v.body(0)) - ref::pos(v.body(1))) < sep) != inside;
        return n > count;
    };
    std::vector<char> seen;
    std::vector<R> at;
    std::string bad;
    r.stop = [&](View const& v, real) { ++n; bool c = cond(v); if (seen.size() && seen.back()) bad = "the run went on after a stop condition held"; seen.push_back(c); return c; };
    r.on_op = [&](View const& v, real) { at.push_back(v.time()); };
    auto res = s->run(r);
    REQUIRE(C, bad.empty(), bad);
    if (res.hit_cap && (!has_end || (((m.fixed && b.size() > 2) || hard(m, b, t1 - t0))))) C.discard();
    REQUIRE(C, !res.hit_cap, "still running after ", res.checks, " steps");
    R end = s->view().time(), scale = std::max(std::fabs(t0), std::fabs(t1));
    bool stopped = seen.size() && seen.back();
    C.label(stopped ? "stopped" : "reached the end");
    C.nontrivial(stopped && n > 1);
    if (!stopped) {
        REQUIRE(C, r.has_end, "the run ended although no stop condition held");
        REQUIRE(C, std::fabs(end - t1) <= 1.0001e-8L * scale, "ended at ", end, " with no stop condition true");
    } else {
        for (size_t i = 0; i + 1 < seen.size(); ++i) REQUIRE(C, !seen[i], "a true stop condition was ignored");
        REQUIRE(C, kind != 2 || n == count + 1, "stopped after ", n, " checks instead of ", count + 1);
        REQUIRE(C, at.size() == seen.size() && at.back() == end, "state changed after the stop condition held");
    }
}
LAW("nothing to do", "a run whose end time equals the current time leaves the system untouched; non-trivial: all", 1500, 50000) {
    static auto ms = pool(2);
    auto const& m = *C.pick(ms);
    auto b = system(C);
    R t0 = (double)C.sym(10);
    C.note(m.name, " t0=", (double)t0, "\n", describe(b));
    auto s = m.make(t0, b);
    RunSpec r; r.t_end = t0;
    if (m.fixed) r.step = 0.01;
    long steps = 0, starts = 0, stops = 0; R seen = t0 - 1;
    r.on_start = [&](View const&, real) { ++starts; };
    r.on_stop = [&](View const&, real) { ++stops; };
    r.on_op = [&](View const& v, real) { ++steps; seen = v.time(); };
    auto before = s->view().snap();
    s->run(r);
    auto after = s->view().snap();
    REQUIRE(C, after.t == t0 && seen == t0 && steps == 1, "time ", after.t, " after ", steps, " operations");
    REQUIRE(C, starts == 1 && stops == 1, starts, " start and ", stops, " stop operations in a run without steps");
    for (size_t i = 0; i < b.size(); ++i)
        for (int k = 0; k < 3; ++k) REQUIRE(C, before.b[i].x[k] == after.b[i].x[k] && before.b[i].v[k] == after.b[i].v[k], "the state changed");
    C.nontrivial();
}
// several operations and conditions, with state of their own
LAW("several callbacks", "random sets of stateful operations and stop conditions: called in order of registration, once per step; non-trivial: two or more of each", 2500, 100000) {
    using S = hub::methods::Chain_BS<>;
    auto b = system(C);
    R tau = gen::time_scale(b);
    auto s = make_sim<S>(0, b);
    auto& sys = dynamic_cast<SimOf<S>&>(*s).s;
    S::RunArgs a;
    std::vector<std::pair<char, int>> log;
    int no = C.integer(0, 4), ns = C.integer(0, 3), nt = C.integer(1, 3), np = C.integer(0, 3);
    std::vector<long> limit;
    for (int i = 0; i < nt; ++i) limit.push_back(C.integer(0, 25));
    long lim = *std::min_element(limit.begin(), limit.end());
    C.note("ops ", no, " starts ", ns, " stops ", np, " conditions ", nt, " limit ", lim);
    bool end = C.boolean();
    if (end) a.add_stop_condition(double(tau * 1000));
    for (int i = 0; i < ns; ++i) a.add_start_point_operation([&log, i](auto&, auto) { log.push_back({'s', i}); });
    for (int i = 0; i < np; ++i) a.add_stop_point_operation([&log, i](auto&, auto) { log.push_back({'e', i}); });
    std::vector<long> own(no, 0);
    for (int i = 0; i < no; ++i) a.add_operation([&log, &own, i, calls = 0L](auto&, auto) mutable { log.push_back({'o', i}); own[i] = ++calls; });
    for (int i = 0; i < nt; ++i) a.add_stop_condition([&log, i, l = limit[i], calls = 0L](auto&, auto) mutable { return ++calls > l; });
    sys.run(a);
    std::vector<std::pair<char, int>> want;
    for (int i = 0; i < ns; ++i) want.push_back({'s', i});
    for (long k = 0; k <= lim; ++k) for (int i = 0; i < no; ++i) want.push_back({'o', i});
    for (int i = 0; i < np; ++i) want.push_back({'e', i});
    for (int i = 0; i < no; ++i) REQUIRE(C, own[i] == lim + 1, "operation ", i, " counted ", own[i], " calls of its own instead of ", lim + 1);
    REQUIRE(C, log == want, "callbacks were not called in order: ", log.size(), " calls instead of ", want.size());
    C.nontrivial(no > 1 && nt > 1);
}
// the same arguments used, extended and changed from run to run
template <class S> static void history(Case& C, bool fixed) {
    auto b = gen::two_body(C, 0, 0.6L, false).b;
    R tau = gen::time_scale(b), t0 = C.boolean() ? 0 : (R)(double)(tau * C.sym(20));
    auto s = make_sim<S>(t0, b);
    auto& sys = dynamic_cast<SimOf<S>&>(*s).s;
    typename S::RunArgs a;
    a.time_rtol = 1e-12;
    long ops = 0, starts = 0, stops = 0;
    int no = 0, ns = 0, np = 0;
    std::vector<R> times;
    R now = t0, end = 0, h = 0;
    bool ended = false;
    long per_run = 0, cap = 0;
    a.add_operation([&](auto& p, auto) { times.push_back(p.time()); });
    C.note("start ", (double)t0, " ");
    int runs = 0;
    for (int n = C.integer(2, 8); n > 0; --n) {
        int what = C.choice(6);
        if (what <= 1 || !ended) {  // an end time, sometimes set more than once
            if (C.boolean()) a.add_stop_condition(double(now + tau * C.real(0.1, 6)));
            end = (R)(double)(now + tau * (R)C.real(0.1, 6));
            if (C.boolean()) a.end_time = (double)end;
            a.add_stop_condition((double)end);
            ended = true;
            C.note("end ", (double)end, " ");
        } else if (what == 2) { a.add_operation([&](auto&, auto) { ++ops; }); ++no; C.note("op ");
        } else if (what == 3) { a.add_start_point_operation([&](auto&, auto) { ++starts; }); ++ns; C.note("start-op ");
        } else if (what == 4) { a.add_stop_point_operation([&](auto&, auto) { ++stops; }); ++np; C.note("stop-op ");
        } else if (what == 5) { auto c = a; a = c; C.note("copy ");
        } else if (!cap) { cap = C.integer(1, 6); a.add_stop_condition([&](auto&, auto) { return per_run++ >= cap; }); C.note("cap ", cap, " "); }
        if (end <= now + tau * 0.01L || C.chance(1, 3)) continue;
        if (fixed && (h == 0 || C.boolean())) { h = (double)(tau * (R)C.real(0.02, 0.2)); }
        if (fixed) a.step_size = (double)h;
        ops = starts = stops = per_run = 0;
        times.clear();
        C.note("run ");
        sys.run(a);
        ++runs;
        long steps = (long)times.size() - 1;
        now = sys.particles().time();
        R slack = 1e-11L * std::max(std::fabs(end), std::fabs(t0)) + (fixed ? 0 : 1e-11L * tau);
        if (!cap || steps < cap) REQUIRE(C, std::fabs(now - end) <= slack, "run ", runs, " ended at ", now, " instead of ", end, ", the end time set last");
        else REQUIRE(C, steps == cap, "run ", runs, " took ", steps, " steps where ", cap, " were allowed");
        REQUIRE(C, a.is_end_time_set() && a.is_stop_condition_set() == (cap > 0), "wrong account of what ends a run");
        REQUIRE(C, ops == no * (steps + 1) && starts == ns && stops == np, "run ", runs, " of ", steps, " steps called ", no, " operations ", ops, " times, ", ns, " start operations ", starts, " times and ", np, " stop operations ", stops, " times");
        if (fixed)
            for (long i = 0; i < steps; ++i) {
                R dt = times[i + 1] - times[i];
                bool last = i + 1 == steps;
                REQUIRE(C, dt <= h * (1 + 1e-9L) + slack && (last || dt >= h * (1 - 1e-9L) - slack), "run ", runs, ": step ", i, " of ", dt, " instead of ", h);
            }
        if (std::fabs(now - end) <= slack) ended = false;
    }
    C.nontrivial(runs > 1);
}
LAW("histories of arguments", "up to eight changes of one set of run arguments (end time, step, operations, conditions, copies) with runs in between; non-trivial: two or more runs", 3000, 150000) {
    switch (C.choice(4)) {
        case 0: C.label("BS"); return history<hub::methods::BS<>>(C, false);
        case 1: C.label("AR_Chain"); return history<hub::methods::AR_Chain<>>(C, false);
        case 2: C.label("Radau"); return history<hub::methods::Radau<>>(C, false);
        case 3: C.label("Const_Sym4"); return history<hub::methods::Const_Sym4<>>(C, true);
        default: C.label("Const_Chain_Sym6"); return history<hub::methods::Const_Chain_Sym6<>>(C, true);
    }
}
// work: an ordinary problem must not take an extraordinary number of steps
LAW("work", "adaptive methods at the default tolerance on bound pairs and few-body systems: steps per dynamical time; non-trivial: all", 2500, 100000) {
    static auto ms = pool(0);
    auto const& m = *C.pick(ms);
    if (m.order == 4) C.discard();
    bool two = C.boolean();
    auto t = gen::two_body(C, 0, 0.7L, false);
    auto b = two ? t.b : C.boolean() ? gen::hierarchy(C, 3) : gen::planets(C, 2);
    R span = two ? t.P : gen::time_scale(b) * 6;
    double rtol = C.boolean() ? 1e-14 : C.logreal(1e-14, 1e-8);
    C.note(m.name, " rtol ", rtol, " span ", (double)span, "\n", describe(b));
    auto s = m.make(0, b);
    RunSpec r; r.t_end = span; r.rtol = rtol; r.max_steps = 100000;
    auto res = s->run(r);
    C.nontrivial();
    double per = (double)res.checks;
    pbt::cal(pbt::str("work ", m.integ, m.regularised() ? " reg " : " flat ", two ? 2 : 3), per);
    long lim = m.integ == "BS" ? 100 : m.integ == "Sym10" ? 200 : m.integ == "Radau" ? 900 : 1600;
    REQUIRE(C, res.checks <= lim, m.name, " needs ", res.checks, " steps where ", lim, " are plenty");
}
// Known finding: in a frame where the centre of mass moves fast (kinetic energy thousands of times the binding energy)
// the logarithmic-Hamiltonian time transformation loses the binding energy to rounding and the steps collapse.
LAW("moving frame", "the recorded configuration: a bound pair whose centre of mass moves at 10; non-trivial: all", 16, 64) {
    static std::vector<std::string> names{"AR_BS", "AR_Chain", "AR_Radau", "AR_Radau_Chain", "BS", "Chain_BS", "Radau", "Sym6"};
    auto name = C.pick(names);
    std::vector<Body> b(2);
    ref::V r, v, w(10, 0, 0);
    ref::elements_to_state(0.1001L, 0.1186L, 0, 0.3L, 0.2L, 0.1L, 0.5L, r, v);
    b[0].m = 0.1L; b[1].m = 1e-4L;
    set_pos(b[0], -r * (1e-4L / 0.1001L)); set_pos(b[1], r * (0.1L / 0.1001L));
    set_vel(b[0], w - v * (1e-4L / 0.1001L)); set_vel(b[1], w + v * (0.1L / 0.1001L));
    ref::round_double(b);
    C.note(name, "\n", describe(b));
    auto& m = method(name);
    if (m.regularised()) C.key_ = "moving-frame";
    auto s = m.make(0, b);
    RunSpec q; q.t_end = 0.8L; q.max_steps = 5000;
    auto res = s->run(q);
    C.nontrivial();
    REQUIRE(C, !res.hit_cap, name, " is still at time ", s->view().time(), " of 0.8 after 5000 steps");
}
