// P27: helpers that spread work over threads, and files shared by threads, under the race detector
//: flags -O1 -g -fsanitize=thread -fno-sanitize-recover=all
//: harnessflags -O1 -fsanitize=thread
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "gen.hpp"
#include "sim_impl.hpp"
// The pool's condition variable, slowed down: between the decision to wait and the wait itself (the lock is still
// held) a moment passes, which makes the schedule in which a notification comes just then an ordinary one.
static std::atomic<int> cv_delay_us{0};
namespace std {
struct pbt_slow_cv : condition_variable {
    static void nap() { if (int d = cv_delay_us.load()) usleep(d); }
    void wait(unique_lock<mutex>& l) { nap(); condition_variable::wait(l); }
    template <class P> void wait(unique_lock<mutex>& l, P p) { while (!p()) wait(l); }
};
}  // namespace std
#define condition_variable pbt_slow_cv
#include "multi-thread/thread_pool.h"
#undef condition_variable
using pbt::Case;
namespace {
using namespace hub;
namespace mt = hub::multi_thread;
struct Scratch {
    std::string dir, path;
    Scratch() {
        char t[] = "/tmp/spacehub-p27-XXXXXX";
        dir = mkdtemp(t);
        chmod(dir.c_str(), 0755);
        path = dir + "/shared.txt";
    }
    ~Scratch() { unlink(path.c_str()); rmdir(dir.c_str()); }
    std::string read() const { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); return s.str(); }
    std::vector<std::string> lines() const {
        std::ifstream f(path);
        std::vector<std::string> r;
        for (std::string l; std::getline(f, l);) r.push_back(l);
        return r;
    }
};
// a job that knows whether it is intact: its payload lives on the heap
struct Payload {
    std::vector<int> v;
    std::string s;
    explicit Payload(int k) : v(k, k), s("payload of size " + std::to_string(k)) {}
    bool intact(int k) const { return v == std::vector<int>(k, k) && s == "payload of size " + std::to_string(k); }
};
template <class S> struct pbt_tag { using type = S; };
static void jitter(int k) { if (k % 3 == 1) std::this_thread::yield(); else if (k % 7 == 2) usleep(k % 50); }

LAW("a loop split over threads covers every index once", "multi_threads_loop over 0-400 indices on 1-16, at times up to 70 threads (more threads than indices, remainders), tasks as named or temporary lambdas, functors with state, std::function; nontrivial: the length is no multiple of the thread count", 6000, 200000) {
    size_t total = C.boolean() ? C.integer(0, 24) : C.integer(0, 400), n = C.chance(1, 20) ? C.integer(17, 70) : C.integer(1, 16);
    int kind = C.integer(0, 3);
    C.note("loop over ", total, " on ", n, " threads, task kind ", kind);
    C.label(total < n ? "fewer indices than threads" : total % n ? "remainder" : "even");
    std::vector<int> hit(total, 0);  // plain ints: two threads on one index, or a thread still running on return, is a race
    std::vector<std::atomic<int>> at(total);
    std::atomic<bool> range_ok{true}, whole{true};
    auto work = [&](size_t b, size_t e) {
        if (b > e || e > total) { range_ok = false; return; }
        for (size_t i = b; i < e; ++i) { at[i]++; if (at[i] == 1) hit[i] += int(i) + 1; }
        jitter(int(b));
    };
    struct Functor { decltype(work)& w; Payload p; std::atomic<bool>& whole; void operator()(size_t b, size_t e) const { if (!p.intact(30)) whole = false; w(b, e); } };
    if (kind == 0) mt::multi_threads_loop(total, n, work);
    else if (kind == 1) mt::multi_threads_loop(total, n, [&work, &whole, p = Payload(40)](size_t b, size_t e) { if (!p.intact(40)) whole = false; work(b, e); });
    else if (kind == 2) { Functor f{work, Payload(30), whole}; mt::multi_threads_loop(total, n, f); REQUIRE(C, f.p.intact(30), "the caller's task was changed"); }
    else mt::multi_threads_loop(total, n, std::function<void(size_t, size_t)>(Functor{work, Payload(30), whole}));
    REQUIRE(C, range_ok, "a thread was given a range outside the loop");
    REQUIRE(C, whole, "a thread was given a task whose captured state had been moved away");
    for (size_t i = 0; i < total; ++i) REQUIRE(C, at[i] == 1 && hit[i] == int(i) + 1, "index ", i, " was visited ", at[i].load(), " times, value ", hit[i]);
    C.nontrivial(total % n != 0);
}

static std::atomic<int> free_calls{0};
static void free_job(std::atomic<int>* a, int k) { *a += k; free_calls++; }
struct Member { std::atomic<int> n{0}; void go(int k) { n += k; } };

LAW("every thread runs the job once with its own copy of the arguments", "multi_thread, indexed_multi_thread, auto_multi_thread and auto_indexed_multi_thread on 0-12, at times up to 70 threads with lvalue, temporary, std::ref and pointer arguments and jobs that change their arguments; nontrivial: two or more threads", 6000, 200000) {
    size_t n = C.chance(1, 10) ? C.integer(13, 70) : C.integer(0, 12);
    int variant = C.integer(0, 3), kind = C.integer(0, 4), k = C.integer(1, 60);
    C.note("variant ", variant, ", job kind ", kind, ", ", n, " threads, payload ", k);
    REQUIRE(C, mt::auto_thread == mt::machine_thread_num && mt::machine_thread_num == std::max(1u, std::thread::hardware_concurrency()), "machine_thread_num = ", mt::machine_thread_num);
    if (variant >= 2) n = mt::machine_thread_num;
    std::vector<std::atomic<int>> idx(n);
    std::atomic<int> runs{0}, bad{0};
    Payload mine(k);
    bool indexed = variant & 1;
    auto seen = [&](size_t i) { if (i < n) idx[i]++; else bad++; };
    auto go0 = [&](auto job, auto&&... args) {
        if (variant == 0) mt::multi_thread(n, job, std::forward<decltype(args)>(args)...);
        else mt::auto_multi_thread(job, std::forward<decltype(args)>(args)...);
    };
    auto go1 = [&](auto job, auto&&... args) {
        if (variant == 1) mt::indexed_multi_thread(n, job, std::forward<decltype(args)>(args)...);
        else mt::auto_indexed_multi_thread(job, std::forward<decltype(args)>(args)...);
    };
    int plain = 7;
    if (kind == 0) {  // the job takes its arguments by value and spoils its copies
        auto j0 = [&](Payload p, std::string s, int x) { runs++; if (!p.intact(k) || s != "temporary string that lives on the heap" || x != 7) bad++; p.v.assign(3, 3); s.clear(); jitter(k); };
        auto j1 = [&](size_t i, Payload p, std::string s, int x) { seen(i); j0(std::move(p), std::move(s), x); };
        if (indexed) { if (variant == 1) mt::indexed_multi_thread(n, j1, mine, std::string("temporary string that lives on the heap"), plain); else mt::auto_indexed_multi_thread(j1, mine, std::string("temporary string that lives on the heap"), plain); }
        else { if (variant == 0) mt::multi_thread(n, j0, mine, std::string("temporary string that lives on the heap"), plain); else mt::auto_multi_thread(j0, mine, std::string("temporary string that lives on the heap"), plain); }
    } else if (kind == 1) {  // temporaries everywhere, the job steals them
        auto j0 = [&](Payload&& p) { runs++; if (!p.intact(k)) bad++; Payload q(std::move(p)); if (!q.intact(k)) bad++; };
        auto j1 = [&](size_t i, Payload&& p) { seen(i); j0(std::move(p)); };
        if (indexed) { if (variant == 1) mt::indexed_multi_thread(n, j1, Payload(k)); else mt::auto_indexed_multi_thread(j1, Payload(k)); }
        else { if (variant == 0) mt::multi_thread(n, j0, Payload(k)); else mt::auto_multi_thread(j0, Payload(k)); }
    } else if (kind == 2) {  // shared on purpose
        std::mutex m; long shared = 0;
        auto j0 = [&](long& s, std::mutex& mm, int d) { runs++; std::lock_guard<std::mutex> l(mm); s += d; };
        auto j1 = [&](size_t i, long& s, std::mutex& mm, int d) { seen(i); j0(s, mm, d); };
        if (indexed) { if (variant == 1) mt::indexed_multi_thread(n, j1, std::ref(shared), std::ref(m), k); else mt::auto_indexed_multi_thread(j1, std::ref(shared), std::ref(m), k); }
        else { if (variant == 0) mt::multi_thread(n, j0, std::ref(shared), std::ref(m), k); else mt::auto_multi_thread(j0, std::ref(shared), std::ref(m), k); }
        REQUIRE(C, shared == long(n) * k, "the shared sum is ", shared, " instead of ", n * k);
    } else if (kind == 3) {  // plain functions and member functions
        std::atomic<int> a{0};
        Member mem;
        if (indexed) { go1([&](size_t i, int d) { seen(i); runs++; a += d; }, k); REQUIRE(C, a == int(n) * k, "sum ", a.load()); }
        else if (C.boolean()) { free_calls = 0; go0(&free_job, &a, k); runs = free_calls.load(); REQUIRE(C, a == int(n) * k, "sum ", a.load()); }
        else { go0(&Member::go, &mem, k); runs = int(n); REQUIRE(C, mem.n == int(n) * k, "sum ", mem.n.load()); }
    } else {  // a temporary job that owns what it needs; changes of its own state stay in its thread
        auto j0 = [p = Payload(k), &runs, &bad, k]() mutable { runs++; if (!p.intact(k)) bad++; p.v.clear(); p.s = "spoiled"; jitter(k); };
        auto j1 = [p = Payload(k), &runs, &bad, &seen, k](size_t i) mutable { seen(i); runs++; if (!p.intact(k)) bad++; p.v.clear(); p.s = "spoiled"; };
        if (C.boolean()) { if (indexed) go1(j1); else go0(j0); }
        else if (variant == 0) mt::multi_thread(n, std::move(j0));
        else if (variant == 1) mt::indexed_multi_thread(n, std::move(j1));
        else if (variant == 2) mt::auto_multi_thread(std::move(j0));
        else mt::auto_indexed_multi_thread(std::move(j1));
    }
    REQUIRE(C, runs == int(n), "the job ran ", runs.load(), " times for ", n, " threads");
    REQUIRE(C, bad == 0, bad.load(), " threads got arguments that were not those of the call");
    if (indexed) for (size_t i = 0; i < n; ++i) REQUIRE(C, idx[i] == 1, "index ", i, " was handed out ", idx[i].load(), " times");
    REQUIRE(C, mine.intact(k) && plain == 7, "an argument of the caller was changed");
    C.nontrivial(n >= 2);
}

LAW("records written by several threads stay whole and in order", "1-6 threads writing 0-40 records each through the same file object, a copy or a reference, as strings, tuples, vectors of numbers, or several items inside execute, to new, emptied or extended files, with flushes in between; nontrivial: two threads wrote", 4000, 100000) {
    Scratch f;
    int T = C.integer(1, 6), K = C.integer(0, 40), mode = C.integer(0, 2);
    std::string before = mode ? "kept 1\nkept 2\n" : "";
    if (mode) { std::ofstream o(f.path); o << before; }
    bool copies = C.boolean();
    std::vector<int> how(T);
    for (auto& h : how) h = C.integer(0, 3);
    int overlap = 0, mid_flush = C.integer(0, 3);
    C.note(T, " threads, ", K, " records each, ", copies ? "own copies" : "one object", ", mode ", mode);
    std::atomic<int> bad{0};
    {
        std::optional<mt::ConcurrentFile> file;
        auto om = mode == 2 ? std::ios::out | std::ios::app : std::ios::out | std::ios::trunc;
        if (C.boolean()) file.emplace(mt::make_thread_safe_fstream(f.path, om));
        else if (C.boolean()) file.emplace(f.path.c_str(), om);
        else file.emplace(f.path, om);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t) {
            auto body = [&, t](mt::ConcurrentFile& fl) {
                for (int k = 0; k < K; ++k) {
                    std::string tail(1 + (k * 7 + t) % 60, char('a' + (k + t) % 26));
                    if (how[t] == 0) { fl << (std::to_string(t) + " " + std::to_string(k) + " " + tail + " \n"); }
                    else if (how[t] == 1) { fl << std::make_tuple(t, k, tail, "\n"); }
                    else if (how[t] == 2) {
                        auto r = fl.execute([&](std::fstream& s, int a, int const& b, std::string const& c) { ++overlap; s << a << ' '; jitter(k); s << b << ' ' << c << " \n"; return std::make_pair(a + b, &b); }, t, k, tail);
                        if (r.first != t + k || r.second != &k) bad++;
                    } else {
                        std::tuple<int, int, std::string, char> rec(t, k, tail, '\n');
                        auto& ref = (fl << rec);
                        if (&ref != &fl) bad++;
                    }
                    if (mid_flush == 1 && k % 9 == 4) fl.flush();
                    if (mid_flush == 2 && k % 5 == 3 && fl.eof()) bad++;
                }
            };
            if (copies) th.emplace_back([body, c = *file]() mutable { body(c); });
            else th.emplace_back([body, &file]() mutable { body(*file); });
        }
        if (mid_flush == 3) file->flush();
        for (auto& t : th) t.join();
        int want = 0;
        for (int h : how) want += h == 2 ? K : 0;
        REQUIRE(C, overlap == want, "execute ran ", overlap, " times instead of ", want);
        REQUIRE(C, bad == 0, "execute lost its result or arguments, << did not return the file, or a file being written was at its end");
        if (C.boolean()) { file->flush(); REQUIRE(C, T * K == 0 || f.read().size() > before.size() * (mode == 2), "flush left nothing in the file"); }
    }
    auto l = f.lines();
    size_t s = 0;
    if (mode == 2) { REQUIRE(C, l.size() >= 2 && l[0] == "kept 1" && l[1] == "kept 2", "appending lost the previous contents"); s = 2; }
    REQUIRE(C, l.size() - s == size_t(T * K), l.size() - s, " records instead of ", T * K);
    std::vector<int> next(T, 0);
    for (; s < l.size(); ++s) {
        std::istringstream is(l[s]);
        int t = -1, k = -1;
        std::string tail, rest;
        is >> t >> k >> tail;
        bool extra = bool(is >> rest);
        REQUIRE(C, t >= 0 && t < T && !extra, "torn record '", l[s], "'");
        REQUIRE(C, k == next[t], "record ", k, " of thread ", t, " where ", next[t], " was due: '", l[s], "'");
        REQUIRE(C, tail == std::string(1 + (k * 7 + t) % 60, char('a' + (k + t) % 26)), "torn record '", l[s], "'");
        next[t]++;
    }
    C.nontrivial(T >= 2 && K > 0);
    C.label(pbt::str("mode ", mode));
}

LAW("items read by several threads are handed out once each", "1-6 threads draining a file of 0-200 numbers, words or vectors through the same file object or copies, item by item or in records inside execute; nontrivial: two or more threads and items", 4000, 100000) {
    Scratch f;
    int T = C.integer(1, 6), N = C.integer(0, 200), kind = C.integer(0, 3);
    bool copies = C.boolean(), newline = C.boolean();
    {
        std::ofstream o(f.path);
        for (int i = 0; i < N; ++i) {
            if (i) o << (i % 5 ? ' ' : '\n');
            if (kind == 0) o << i * 3;
            else if (kind == 1) o << "w" << i;
            else if (kind == 2) o << i << ' ' << -i << ' ' << 0.5 * i;
            else o << i << ' ' << i * i;
        }
        if (newline) o << '\n';
    }
    C.note(T, " threads reading ", N, " items of kind ", kind, copies ? " from copies" : "");
    std::vector<std::vector<int>> got(T);
    std::atomic<int> bad{0};
    bool ended = false;
    {
        mt::ConcurrentFile file(f.path, std::ios::in);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t) {
            auto body = [&, t](mt::ConcurrentFile& fl) {
                for (;;) {
                    if (kind == 0) { double x; if (!(fl >> x)) break; got[t].push_back(int(x / 3)); if (x != 3 * got[t].back()) bad++; }
                    else if (kind == 1) { std::string w; if (!(fl >> w)) break; if (w[0] != 'w') bad++; got[t].push_back(atoi(w.c_str() + 1)); }
                    else if (kind == 2) { Vec3<double> v; if (!(fl >> v)) break; if (v.y != -v.x || v.z != 0.5 * v.x) bad++; got[t].push_back(int(v.x)); }
                    else {
                        int a = 0, b = 0;
                        if (!fl.execute([&](std::fstream& s) { s >> a; jitter(a); s >> b; return bool(s); })) break;
                        if (b != a * a) bad++;
                        got[t].push_back(a);
                    }
                    jitter(got[t].back());
                }
                double dummy;
                if (fl >> dummy) bad++;
            };
            if (copies) th.emplace_back([body, c = file]() mutable { body(c); });
            else th.emplace_back([body, &file]() mutable { body(file); });
        }
        for (auto& t : th) t.join();
        ended = file.eof();
    }
    REQUIRE(C, ended, "the file was drained but is not at its end");
    REQUIRE(C, bad == 0, bad.load(), " items were torn or read again after the end");
    std::vector<int> n(N, 0);
    for (auto& g : got) {
        for (size_t i = 0; i < g.size(); ++i) {
            REQUIRE(C, g[i] >= 0 && g[i] < N, "item ", g[i], " is not in the file");
            REQUIRE(C, i == 0 || g[i] > g[i - 1], "item ", g[i], " came after ", g[i - 1]);
            n[g[i]]++;
        }
    }
    for (int i = 0; i < N; ++i) REQUIRE(C, n[i] == 1, "item ", i, " was handed out ", n[i], " times");
    C.nontrivial(T >= 2 && N > 0);
}

// empty: the reference count of an exception lives in code the race detector does not see, so nothing of it may be read
struct Oops {};
LAW("the thread pool runs every task once and ends with the program", "0-200 tasks from 1-4 threads committed to the pool of a fresh process, returning values, references to results or exceptions, with slowed-down waits; then the process ends, at once or after a pause; nontrivial: tasks from two threads", 400, 8000) {
    int T = C.integer(1, 4), K = C.integer(0, 50), delay = C.pick<int>({0, 0, 200, 3000}), pause = C.pick<int>({0, 100, 2000});
    bool none = C.chance(1, 4);  // only start and end
    C.note(T, " threads, ", none ? 0 : K, " tasks each, waits slowed by ", delay, " us, pause ", pause, " us");
    int p[2];
    REQUIRE(C, pipe(p) == 0, "no pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        alarm(100);
        std::string err;
        cv_delay_us = delay;
        {
            auto& pool = mt::ThreadPool::get_instance();
            std::mutex m;
            std::vector<std::atomic<int>> ran(T * K);
            auto fail = [&](std::string const& e) { std::lock_guard<std::mutex> l(m); err = e; };
            std::vector<std::thread> th;
            if (!none)
                for (int t = 0; t < T; ++t)
                    th.emplace_back([&, t] {
                        std::vector<std::future<std::string>> r;
                        std::vector<std::future<void>> v;
                        for (int k = 0; k < K; ++k) {
                            int id = t * K + k;
                            if (id % 3 != 1) r.push_back(pool.commit([&ran, id](std::string const& s, int n) { ran[id]++; jitter(id); if (id % 5 == 3) throw Oops{}; return s + std::to_string(n); }, std::string("result number "), id));
                            else v.push_back(pool.commit([&ran](int i) { ran[i]++; }, id));
                        }
                        size_t a = 0, b = 0;
                        for (int k = 0; k < K; ++k) {
                            int id = t * K + k;
                            std::string got;
                            try {
                                if (id % 3 != 1) { got = r[a++].get(); if (id % 5 == 3 || got != "result number " + std::to_string(id)) fail("task " + std::to_string(id) + " returned '" + got + "'"); }
                                else v[b++].get();
                            } catch (Oops const&) {
                                if (id % 3 == 1 || id % 5 != 3) fail("task " + std::to_string(id) + " raised an exception");
                            }
                        }
                    });
            for (auto& t : th) t.join();
            if (!none) for (int i = 0; i < T * K; ++i) if (ran[i] != 1) err = "task " + std::to_string(i) + " ran " + std::to_string(ran[i].load()) + " times";
        }
        if (pause) usleep(pause);
        (void)!write(p[1], err.data(), err.size());
        close(p[1]);
        exit(0);  // destroys the pool
    }
    close(p[1]);
    std::string err;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) err.append(buf, n);
    close(p[0]);
    int st = 0;
    bool ended = false;
    for (int i = 0; i < 1500 && !ended; ++i) { ended = waitpid(pid, &st, WNOHANG) == pid; if (!ended) usleep(10000); }
    if (!ended) { kill(pid, SIGKILL); waitpid(pid, &st, 0); }
    REQUIRE(C, err.empty(), err);
    REQUIRE(C, ended, "the program did not end: the pool waits for workers that missed the end");
    REQUIRE(C, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process with the pool ended with status ", st);
    C.nontrivial(!none && T >= 2 && K > 0);
}

// Concurrent work of the whole library: nothing may be shared between threads that the user did not share
LAW("independent simulations, orbits and draws on different threads share no data", "2-4 threads that build particles from random orbits, run different methods with callbacks writing to one shared file, and draw random numbers, under the race detector; nontrivial: always", 600, 20000) {
    Scratch f;
    int T = C.integer(2, 4);
    std::vector<int> kind(T);
    for (auto& k : kind) k = C.integer(0, 5);
    double inc = C.real(0, 3);
    C.note(T, " threads, methods");
    for (int k : kind) C.note(" ", k);
    std::vector<int> rows(T, 0);
    std::atomic<int> bad{0};
    {
        mt::ConcurrentFile file(f.path, std::ios::out);
        auto run = [&](size_t t, auto tag) {
            using S = typename decltype(tag)::type;
            using P = typename S::Particle;
            using Sc = typename S::Scalar;
            P p1(Sc(1)), p2(Sc(0.01)), p3(Sc(1e-3));
            auto orb = orbit::Elliptic(Sc(1), Sc(0.01), Sc(1), Sc(0.1), Sc(inc), random::Uniform(0, 3), random::Uniform(0, 3), orbit::isotherm);
            orbit::move_particles(orb, p2);
            auto out = orbit::Elliptic(Sc(1.01), Sc(1e-3), Sc(5), Sc(0.1), orbit::isotherm, orbit::isotherm, orbit::isotherm, orbit::isotherm);
            orbit::move_particles(out, p3);
            orbit::move_to_COM_frame(p1, p2, p3);
            S solver{0, p1, p2, p3};
            typename S::RunArgs args;
            args.add_stop_condition(Sc(1));
            size_t steps = 0;
            args.add_operation([&, t](auto& ptc, auto) { if (++steps % 5 == 1) { file << std::make_tuple(t, (double)ptc.time(), (double)ptc.pos(0).x, "\n"); rows[t]++; } });
            args.add_stop_condition([&steps](auto&, auto) { return steps > 200; });
            solver.run(args);
            auto e = calc::calc_total_energy(solver.particles());
            if (!(e < 0)) bad++;
        };
        mt::indexed_multi_thread(T, [&](size_t t) {
            if (kind[t] == 0) run(t, pbt_tag<methods::BS<>>());
            else if (kind[t] == 1) run(t, pbt_tag<methods::AR_Chain_Plus<>>());
            else if (kind[t] == 2) run(t, pbt_tag<methods::Radau<>>());
            else if (kind[t] == 3) run(t, pbt_tag<methods::Chain_Radau<>>());
            else if (kind[t] == 4) run(t, pbt_tag<methods::Sym6<>>());
            else {
                double s = 0;
                for (int i = 0; i < 200; ++i) s += random::Normal(0, 1) + random::PowerLaw(-2.0, 1.0, 2.0) + random::Maxwellian(1.0) + random::Logarithm(1.0, 2.0);
                if (!(std::fabs(s) < 1e9)) bad++;
            }
        });
    }
    REQUIRE(C, bad == 0, "a run or a draw went wrong");
    auto l = f.lines();
    size_t want = 0;
    for (int r : rows) want += r;
    REQUIRE(C, l.size() == want, l.size(), " rows in the shared file for ", want, " written");
    for (auto& s : l) {
        std::istringstream is(s);
        double a, b, c; std::string rest;
        REQUIRE(C, bool(is >> a >> b >> c) && !(is >> rest) && a < T, "torn row '", s, "'");
    }
    C.nontrivial();
}
}  // namespace
