// P09: sliced callbacks are invoked on their schedule.
//: flags -O1
#include "gen.hpp"
#include "sim_impl.hpp"
using ref::R;
using namespace hub::callback;

template <class T> struct Clock {
    using Scalar = T;
    T t;
    T time() const { return t; }
};
enum Kind { Time, Log, Step };
// All schedule positions the slice may be in, given what was observed (times within rounding of a scheduled one are
// undecided, so more than one position can be possible).
struct Model {
    Kind kind;
    R start, end;
    size_t n;
    std::vector<size_t> at{0};
    long steps{0};
    R when(size_t k) const {
        return kind == Time ? start + (end - start) * k / n : start + std::pow(end - start, (R)(k + 1) / n);
    }
    R slop(size_t k) const { return (std::fabs(start) + std::fabs(end) + (end - start)) * 1e-14L * (k + 2) * (kind == Log ? 4 : 1); }
    void reset(Kind kd, R s, R e, size_t m) { kind = kd; start = s; end = e; n = m; at = {0}; steps = 0; if (kind == Log && e - s != 1 && e - s < 1.4L) throw pbt::Discard{}; }
    // returns false when the observation is impossible
    bool step(R t, bool called) {
        if (kind == Step) return called == (steps++ % (long)n == 0);
        std::vector<size_t> next;
        for (size_t k : at) {
            R w = when(k), e = slop(k);
            bool due_yes = t >= w - e, due_no = t <= w + e;
            if (t > end) due_yes = false, due_no = true;
            if (t == end && kind == Time && k <= n) due_yes = true;
            if (!called && due_no) next.push_back(k);
            if (called && due_yes) {
                if (kind == Time) next.push_back(k + 1);
                else {
                    size_t j = k + 1;
                    if (end - start <= 1) { next.push_back(j); continue; }
                    while (when(j) <= t - slop(j)) ++j;  // missed slices are skipped
                    next.push_back(j);
                    while (when(j) <= t + slop(j)) next.push_back(++j);
                }
            }
        }
        std::sort(next.begin(), next.end());
        next.erase(std::unique(next.begin(), next.end()), next.end());
        at = next;
        return !at.empty();
    }
    std::string show() const { std::string s; for (auto k : at) s += pbt::str(k, "@", (double)when(k), " "); return s; }
};
template <class T, bool B> struct Op {
    std::shared_ptr<std::vector<std::pair<R, R>>> log;
    std::shared_ptr<std::vector<bool>> answers;
    int own{0};  // state of the operation itself
    template <class P> auto operator()(P& p, typename P::Scalar h) -> std::conditional_t<B, bool, void> {
        log->push_back({(R)p.time(), (R)h});
        ++own;
        if constexpr (B) { bool a = (own * 2654435761u >> 7) & 1; answers->push_back(a); return a; }
    }
};
template <class T, bool B> static void history(pbt::Case& C) {
    Op<T, B> op{std::make_shared<std::vector<std::pair<R, R>>>(), std::make_shared<std::vector<bool>>()};
    Kind kind = (Kind)C.choice(2);
    R start = C.chance(1, 2) ? 0 : (R)(double)C.sym(1e3);
    auto length = [&] { return (R)(double)(C.chance(1, 8) ? 1.0 : C.logreal(kind == Log ? 1.5 : 1e-3, 1e5)); };
    R len = length();
    size_t n = C.integer(1, kind == Step ? 9 : 60);
    Model m;
    m.reset(kind, start, (R)(T)(start + len), n);
    len = m.end - start;
    TimeSlice ts(op, (T)start, (T)m.end, n);
    StepSlice ss(op, n);
    LogTimeSlice ls(op, (T)start, (T)m.end, n);
    C.label(kind == Time ? "time slices" : kind == Log ? "logarithmic slices" : "step slices");
    C.note(kind == Time ? "TimeSlice " : kind == Log ? "LogTimeSlice " : "StepSlice ", (double)start, " .. ", (double)m.end, " / ", n, " times:");
    R t = start + (C.boolean() ? 0 : -len * (R)C.real(0, 0.5));
    size_t calls = 0;
    size_t own = 0;
    for (int i = 0, N = C.integer(1, 120); i < N; ++i) {
        if (C.chance(1, 60)) {
            start = t + (C.boolean() ? 0 : len * (R)C.sym(0.2));
            start = (T)start;
            len = length();
            n = C.integer(1, kind == Step ? 9 : 60);
            m.reset(kind, start, (R)(T)(start + len), n);
            len = m.end - start;
            if (kind == Time) ts.reset_slice_params((T)start, (T)m.end, n);
            if (kind == Log) ls.reset_slice_params((T)start, (T)m.end, n);
            if (kind == Step) ss.reset_slice_params(n);
            C.note(" reset(", (double)start, "..", (double)m.end, "/", n, ")");
            C.label("reset");
        }
        if (C.chance(1, 40)) { C.label("copied"); auto a = ts; auto b = ss; auto c = ls; ts = a; ss = b; ls = c; }
        switch (C.choice(5)) {
            case 0: t += len / n * (R)C.real(0, 0.5); break;
            case 1: t += len / n * (R)C.real(0.5, 2); break;
            case 2: t += len / n * (R)C.real(2, 8); break;
            case 3: t = std::max(t, (R)(T)(start + (T)(len / n) * (R)C.integer(0, (long)n))); break;  // a scheduled instant
            case 4: break;                                                                    // no progress
            default: if (C.chance(1, 4)) t = std::max(t, m.end); else t += len * (R)C.logreal(1e-4, 0.2);
        }
        t = (T)t;
        Clock<T> c{(T)t};
        T h = (T)C.sym(10);
        size_t before = op.log->size();
        bool ret = false;
        auto call = [&](auto& s) { if constexpr (B) ret = s(c, h); else s(c, h); };
        if (kind == Time) call(ts); else if (kind == Log) call(ls); else call(ss);
        size_t got = op.log->size() - before;
        C.note(" ", (double)t, got ? "*" : "");
        REQUIRE(C, got <= 1, "called ", got, " times at one boundary");
        auto was = m.show();
        REQUIRE(C, m.step(t, got == 1), "at boundary ", i, " (time ", t, ") the operation was ", got ? "called" : "not called", "; next scheduled: ", was);
        if (got) {
            ++calls;
            ++own;
            REQUIRE(C, op.log->back().first == t && op.log->back().second == (R)h, "the operation received other arguments");
            if (B) REQUIRE(C, ret == op.answers->back(), "the operation's answer is not passed on");
            if (B) REQUIRE(C, op.answers->back() == (bool)((own * 2654435761u >> 7) & 1), "the operation lost its state");
        } else if (B) REQUIRE(C, !ret, "true without calling the operation");
    }
    C.nontrivial(calls > 1);
}
LAW("call histories", "sequences of up to 120 time boundaries (dense, sparse, on the schedule, stalled, past the end) with resets and copies, for time, logarithmic and step slices of void and bool operations; non-trivial: called more than once", 150000, 8000000, 10) {
    switch (C.choice(2)) {
        case 0: history<double, false>(C); break;
        case 1: history<double, true>(C); break;
        default: history<long double, true>(C);
    }
}
template <class S> static void in_run(pbt::Case& C, bool fixed) {
    auto t = gen::two_body(C, 0, 0.7, false);
    R t0 = C.boolean() ? 0 : (R)(double)(t.P * C.sym(2)), len = (double)(t.P * (R)C.real(0.1, 1));
    using T = typename S::Scalar;
    std::vector<typename S::Particle> ps;
    for (auto& x : t.b) ps.push_back(sim::point<S>(x));
    S s(T(t0), ps);
    typename S::RunArgs a;
    R t1 = t0 + len;
    a.add_stop_condition(T(t1));
    a.rtol = T(1e-10);
    if (fixed) a.step_size = T(t.P / C.integer(40, 200));
    Kind kind = (Kind)C.choice(2);
    int where = C.choice(2);  // operation, stop condition, both
    size_t n = C.integer(1, kind == Step ? 7 : 50);
    R s0 = t0 + len * (R)(C.boolean() ? 0 : C.real(0, 0.5)), s1 = t0 + len * (R)C.real(0.6, 1.2);
    if (kind == Log && s1 - s0 < 1.01L) C.discard();
    s0 = (double)s0; s1 = (double)s1;
    std::vector<R> boundary, calls, asked;
    a.add_operation([&](auto& p, auto) { boundary.push_back((R)p.time()); });
    auto op = [&](auto& p, auto) { calls.push_back((R)p.time()); };
    auto cond = [&](auto& p, auto) -> bool { asked.push_back((R)p.time()); return false; };
    auto add = [&](auto f, auto reg) {
        if (kind == Time) reg(TimeSlice(f, (T)s0, (T)s1, n));
        if (kind == Log) reg(LogTimeSlice(f, (T)s0, (T)s1, n));
        if (kind == Step) reg(StepSlice(f, n));
    };
    if (where != 1) add(op, [&](auto x) { a.add_operation(x); });
    if (where != 0) add(cond, [&](auto x) { a.add_stop_condition(x); });
    s.run(a);
    C.note(kind == Time ? "TimeSlice " : kind == Log ? "LogTimeSlice " : "StepSlice ", (double)s0, " .. ", (double)s1, " / ", n, " in a run ", (double)t0, " .. ", (double)t1, " with ", boundary.size(), " boundaries");
    C.nontrivial(calls.size() + asked.size() > 1);
    auto check = [&](std::vector<R> const& c, std::vector<R> const& b, char const* what) {
        Model m;
        m.reset(kind, s0, s1, n);
        size_t j = 0;
        for (size_t i = 0; i < b.size(); ++i) {
            bool called = j < c.size() && c[j] == b[i];
            if (called) ++j;
            auto was = m.show();
            REQUIRE(C, m.step(b[i], called), what, " at boundary ", i, " (time ", b[i], ") was ", called ? "called" : "not called", "; next scheduled: ", was);
        }
        REQUIRE(C, j == c.size(), what, " was called ", c.size(), " times, ", j, " of them at step boundaries");
    };
    if (where != 1) check(calls, boundary, "the sliced operation");
    // stop conditions are asked once per boundary after the first step
    if (where != 0) { std::vector<R> b(boundary.begin(), boundary.end() - 1); check(asked, b, "the sliced stop condition"); }
}
LAW("slices in runs", "time, logarithmic and step slices as operations and stop conditions of adaptive and constant-step runs; non-trivial: called more than once", 6000, 300000) {
    switch (C.choice(2)) {
        case 0: in_run<hub::methods::BS<>>(C, false); break;
        case 1: in_run<hub::methods::AR_Chain<>>(C, false); break;
        default: in_run<hub::methods::Const_Sym4<>>(C, true);
    }
}
