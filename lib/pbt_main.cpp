#include "pbt.hpp"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <thread>
#include <unordered_set>

namespace pbt {
static std::vector<Law>& laws() {
    static std::vector<Law> l;
    return l;
}
void add_law(Law l) { laws().push_back(std::move(l)); }

static std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
static uint64_t hash_str(std::string const& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
static uint64_t hash_choices(std::vector<uint64_t> const& v) {
    uint64_t h = v.size();
    for (auto x : v) h = mix(h, x);
    return h;
}
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Slot {
    volatile long cur;        // case index in progress (-1: none)
    volatile double cpu0;     // process CPU time when it began
    volatile double t0;       // wall-clock time when it began
    volatile int running;     // 1 while inside a case
};
static double proc_cpu(pid_t pid) {
    clockid_t c;
    if (clock_getcpuclockid(pid, &c)) return -1;
    timespec t;
    if (clock_gettime(c, &t)) return -1;
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static double self_cpu() {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Outcome {
    enum K { pass, discard, fail } k{pass};
    std::string msg, key, note;
    std::vector<uint64_t> choices;
};
static Outcome run_case(Law const& L, Case& c) {
    Outcome o;
    try {
        L.fn(c);
    } catch (Discard const&) {
        o.k = Outcome::discard;
    } catch (Fail const& f) {
        o.k = Outcome::fail; o.msg = f.what(); o.key = f.key;
    } catch (std::exception const& e) {
        o.k = Outcome::fail; o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.k = Outcome::fail; o.msg = "unexpected exception of unknown type";
    }
    o.choices = c.choices();
    o.note = c.note_;
    return o;
}

static void put(std::string& b, std::string const& s) {
    uint64_t n = s.size();
    b.append((char*)&n, 8); b += s;
}
static void put(std::string& b, std::vector<uint64_t> const& v) {
    uint64_t n = v.size();
    b.append((char*)&n, 8); b.append((char*)v.data(), 8 * n);
}
struct Reader {
    std::string const& b; size_t p{0};
    uint64_t u() { uint64_t v = 0; if (p + 8 <= b.size()) memcpy(&v, b.data() + p, 8); p += 8; return v; }
    std::string s() { auto n = u(); std::string r = p + n <= b.size() ? b.substr(p, n) : ""; p += n; return r; }
    std::vector<uint64_t> v() { auto n = u(); std::vector<uint64_t> r; for (uint64_t i = 0; i < n && p + 8 <= b.size(); ++i) r.push_back(u()); return r; }
};

static void quiet_stdout() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!getenv("PBT_VERBOSE")) dup2(fd, 2);
    close(fd);
}

// Run one case in a child process: used for shrinking, replay and for attributing crashes.
static Outcome isolated(Law const& L, std::vector<uint64_t> const* ch, uint64_t seed, double cpu_limit) {
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    fflush(stdout); std::cout.flush();
    // the recorded choices live in shared memory so that they survive a crash of the child
    size_t cap = 1 << 20;
    auto* shm = (uint64_t*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        quiet_stdout();
        rlimit rl{(rlim_t)(cpu_limit + 5), (rlim_t)(cpu_limit + 10)};
        setrlimit(RLIMIT_CPU, &rl);
        Case c = ch ? Case(*ch) : Case(seed);
        c.mirror_ = shm; c.mirror_cap_ = cap / 8 - 1;
        auto o = run_case(L, c);
        std::string b;
        uint64_t k = o.k;
        b.append((char*)&k, 8);
        put(b, o.msg); put(b, o.key); put(b, o.note); put(b, o.choices);
        b += "DONE";
        size_t off = 0;
        while (off < b.size()) { auto n = write(p[1], b.data() + off, b.size() - off); if (n <= 0) break; off += n; }
        _exit(0);
    }
    close(p[1]);
    std::string b;
    char buf[65536];
    double t0 = now();
    bool killed = false;
    for (;;) {
        pollfd pf{p[0], POLLIN, 0};
        int r = poll(&pf, 1, 200);
        if (r > 0) {
            auto n = read(p[0], buf, sizeof buf);
            if (n <= 0) break;
            b.append(buf, n);
        } else {
            double cpu = proc_cpu(pid);
            if (cpu > cpu_limit || now() - t0 > cpu_limit * 8 + 60) { kill(pid, SIGKILL); killed = true; break; }
        }
    }
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    std::vector<uint64_t> seen(shm + 1, shm + 1 + std::min<uint64_t>(shm[0], cap / 8 - 1));
    munmap(shm, cap);
    Outcome o;
    if (b.size() >= 4 && b.compare(b.size() - 4, 4, "DONE") == 0) {
        Reader r{b};
        o.k = (Outcome::K)r.u(); o.msg = r.s(); o.key = r.s(); o.note = r.s(); o.choices = r.v();
        return o;
    }
    o.k = Outcome::fail;
    o.choices = seen;
    if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)))
        o.msg = str("case did not terminate within ", cpu_limit, " CPU seconds");
    else if (WIFSIGNALED(st))
        o.msg = str("case crashed with signal ", WTERMSIG(st));
    else
        o.msg = str("the library ended the process (exit status ", WEXITSTATUS(st), ") instead of returning");
    o.key = "abort";
    return o;
}

static std::vector<uint64_t> shrink(Law const& L, std::vector<uint64_t> best, Outcome& bo, double budget_s) {
    double t0 = now();
    int evals = 0;
    auto better = [](std::vector<uint64_t> const& a, std::vector<uint64_t> const& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](std::vector<uint64_t> const& c) {
        if (now() - t0 > budget_s || evals > 1500) return false;
        if (!better(c, best)) return false;
        ++evals;
        auto o = isolated(L, &c, 0, std::min(L.cpu_limit, 20.0));
        if (o.k == Outcome::fail && o.key == bo.key && o.msg.find("CPU seconds") == std::string::npos) {
            auto n = o.choices.empty() ? c : o.choices;
            if (!better(n, best)) n = c;
            best = n; bo = o; bo.choices = best;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget_s && evals <= 1500) {
        progress = false;
        for (size_t len : {16, 8, 4, 2, 1})
            for (size_t i = 0; i + len <= best.size();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else ++i;
                if (now() - t0 > budget_s || evals > 1500) return best;
            }
        for (size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0) continue;
            auto c = best;
            c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best[i];  // lo fails to reproduce, hi reproduces
            for (int k = 0; k < 12 && hi - lo > 1 && i < best.size(); ++k) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
            for (int bits = 36; bits >= 8 && i < best.size(); bits -= 7) {
                c = best; c[i] = (c[i] >> bits) << bits;
                if (attempt(c)) { progress = true; break; }
            }
        }
    }
    return best;
}

struct Acc {
    long evals{0}, discards{0};
    std::map<std::string, long> labels;
    std::unordered_set<uint64_t> nontriv;
    std::vector<std::string> samples;
};
struct Failure { Law const* law; long idx; uint64_t seed; Outcome o; };

static uint64_t case_seed(uint64_t seed, std::string const& law, long i) { return mix(mix(seed * 0x9E3779B97F4A7C15ull + 17, hash_str(law)), i + 1); }

// Runs cases of one law over W worker processes.
static void run_law(Law const& L, long cases, uint64_t seed, int W, Acc& acc, std::vector<Failure>& fails, std::string const& dir,
                    std::set<std::string> const& known, std::map<std::string, long>& known_seen, double deadline, bool& truncated) {
    auto* slots = (Slot*)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(W, -1);
    std::vector<long> next(W);
    std::vector<int> gen(W, 0);
    std::vector<char> finished(W, 0);
    auto file = [&](int w, int g) { return str(dir, "/w", w, "_", g); };
    auto launch = [&](int w, long from) {
        slots[w].cur = -1; slots[w].running = 0;
        std::string fn = file(w, gen[w]);
        fflush(stdout); std::cout.flush();
        pid[w] = fork();
        if (pid[w] != 0) return;
        quiet_stdout();
        long ev = 0, di = 0;
        std::map<std::string, long> lab;
        std::vector<uint64_t> nt;
        std::vector<std::string> samples;
        std::string failbuf;
        int nf = 0;
        auto flush = [&](bool done) {
            std::string b;
            auto u = [&](uint64_t x) { b.append((char*)&x, 8); };
            u(ev); u(di);
            u(lab.size());
            for (auto& [k, v] : lab) { put(b, k); u(v); }
            put(b, nt);
            u(samples.size());
            for (auto& s : samples) put(b, s);
            u(nf); b += failbuf;
            u(done ? 0xD0E : 0);
            std::ofstream f(fn + ".tmp", std::ios::binary);
            f << b; f.close();
            rename((fn + ".tmp").c_str(), fn.c_str());
        };
        double last = now();
        for (long i = from; i < cases; i += W) {
            if (now() > deadline) break;
            slots[w].cur = i; slots[w].cpu0 = self_cpu(); slots[w].t0 = now(); slots[w].running = 1;
            Case c(case_seed(seed, L.name, i));
            auto o = run_case(L, c);
            slots[w].running = 0;
            ++ev;
            for (auto& [k, v] : c.labels_) lab[k] += 1;
            if (o.k == Outcome::discard) { ++di; }
            else {
                if (c.nontrivial_) nt.push_back(hash_choices(c.choices()));
                if (samples.size() < 2 && (c.nontrivial_ || i > cases / 2)) samples.push_back(c.note_);
            }
            if (o.k == Outcome::fail) {
                ++nf;
                uint64_t ii = i;
                failbuf.append((char*)&ii, 8);
                put(failbuf, o.msg); put(failbuf, o.key); put(failbuf, o.note); put(failbuf, o.choices);
                flush(false);
                if (!known.count(o.key)) break;
            }
            if (now() - last > 2) { flush(false); last = now(); }
        }
        flush(true);
        _exit(0);
    };
    auto collect = [&](int w, int g) -> bool {
        std::ifstream f(file(w, g), std::ios::binary);
        if (!f) return false;
        std::string b((std::istreambuf_iterator<char>(f)), {});
        Reader r{b};
        acc.evals += r.u(); acc.discards += r.u();
        auto nl = r.u();
        for (uint64_t i = 0; i < nl; ++i) { auto k = r.s(); acc.labels[k] += r.u(); }
        for (auto h : r.v()) acc.nontriv.insert(mix(h, hash_str(L.name)));
        auto ns = r.u();
        for (uint64_t i = 0; i < ns; ++i) { auto s = r.s(); if (acc.samples.size() < 3 && !s.empty()) acc.samples.push_back(s); }
        auto nf = r.u();
        for (uint64_t i = 0; i < nf; ++i) {
            Failure F; F.law = &L; F.idx = r.u(); F.seed = case_seed(seed, L.name, F.idx);
            F.o.k = Outcome::fail; F.o.msg = r.s(); F.o.key = r.s(); F.o.note = r.s(); F.o.choices = r.v();
            if (known.count(F.o.key)) known_seen[F.o.key]++;
            else fails.push_back(F);
        }
        bool done = r.u() == 0xD0E;
        unlink(file(w, g).c_str());
        return done;
    };
    int live = 0;
    for (int w = 0; w < W; ++w)
        if (w < cases) { launch(w, w); ++live; } else finished[w] = 1;
    bool stop = false;
    while (live > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            usleep(3000);
            for (int w = 0; w < W; ++w)
                if (!finished[w] && slots[w].running) {
                    double cpu = proc_cpu(pid[w]);
                    // the wall-clock bound is for cases that wait for each other for ever
                    if (cpu - slots[w].cpu0 > L.cpu_limit || now() - slots[w].t0 > L.cpu_limit * 8 + 60) kill(pid[w], SIGKILL);
                }
            if (stop) for (int w = 0; w < W; ++w) if (!finished[w]) kill(pid[w], SIGKILL);
            continue;
        }
        if (p < 0) break;
        int w = std::find(pid.begin(), pid.end(), p) - pid.begin();
        if (w >= W) continue;
        long cur = slots[w].cur;
        size_t before = fails.size();
        bool done = collect(w, gen[w]);
        if (fails.size() > before) stop = true;
        bool abnormal = !done;
        if (abnormal && !stop) {
            // attribute to the case that was running
            if (cur >= 0) {
                Failure F; F.law = &L; F.idx = cur; F.seed = case_seed(seed, L.name, cur);
                // failures that depend on the schedule may need several attempts to show again
                for (int tries = 0; tries < 8; ++tries) {
                    F.o = isolated(L, nullptr, F.seed, L.cpu_limit);
                    if (F.o.k == Outcome::fail) break;
                }
                if (F.o.k == Outcome::fail) {
                    if (known.count(F.o.key) && F.o.key != "abort") {
                        known_seen[F.o.key]++;
                    } else {
                        fails.push_back(F); stop = true;
                    }
                } else {
                    acc.labels["worker died but the case alone passes"]++;
                }
                gen[w]++;
                if (!stop && cur + W < cases) { launch(w, cur + W); continue; }
            } else if (gen[w] < 3) {
                gen[w]++; launch(w, w); continue;
            }
        }
        finished[w] = 1; --live;
    }
    if (now() > deadline) truncated = true;
    munmap(slots, sizeof(Slot) * W);
}
}  // namespace pbt

using namespace pbt;

static std::string get(std::string const& text, std::string const& key) {
    auto p = text.find("\n" + key + ":");
    if (p == std::string::npos) return "";
    p += key.size() + 2;
    auto e = text.find('\n', p);
    return text.substr(p, e - p);
}

int main(int argc, char** argv) {
    std::string prop = "?", tier = "quick", out, replay, replay_dir = "/tmp", known_s, only;
    uint64_t seed = 1;
    int W = std::max(1u, std::thread::hardware_concurrency());
    double soft = 600, scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--known") known_s = val();
        else if (a == "--law") only = val();
        else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--soft") soft = atof(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--list") { for (auto& l : laws()) std::cout << l.name << "  " << l.quick << "/" << l.thorough << "\n"; return 0; }
    }
    std::set<std::string> known;
    { std::stringstream ss(known_s); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) known.insert(k); }

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string text = "\n" + std::string((std::istreambuf_iterator<char>(f)), {});
        std::string ln = get(text, "law");
        for (auto& L : laws())
            if (" " + L.name == ln || L.name == ln) {
                std::vector<uint64_t> ch;
                std::string cs = get(text, "choices"), ss = get(text, "seed");
                std::stringstream s(cs);
                uint64_t v;
                while (s >> v) ch.push_back(v);
                bool by_seed = get(text, "by") == " seed";
                auto o = isolated(L, by_seed ? nullptr : &ch, strtoull(ss.c_str(), nullptr, 0), L.cpu_limit);
                std::cout << "case: " << o.note << "\n";
                if (o.k == Outcome::fail) { std::cout << "fails: " << o.msg << "\n"; std::cout << "VIOLATION property=" << prop << " replay=" << replay << "\n"; return 1; }
                std::cout << "passes\n";
                return 0;
            }
        std::cerr << "law not found in replay file\n";
        return 2;
    }

    double t0 = now();
    char tmpl[] = "/tmp/pbt_XXXXXX";
    std::string dir = mkdtemp(tmpl);
    std::vector<std::string> law_json;
    long ev = 0, nt = 0, dis = 0;
    std::vector<std::string> samples;
    std::string rule;
    std::vector<Failure> fails;
    std::map<std::string, long> known_seen;
    bool truncated = false;
    size_t li = 0, nl = laws().size();
    for (auto& L : laws()) {
        ++li;
        if (!only.empty() && L.name != only) continue;
        long cases = tier == "thorough" ? L.thorough : L.quick;
        cases = std::max(1l, long(cases * scale));
        Acc acc;
        double t1 = now();
        // soft deadline, shared out so that every law runs
        double remain = std::max(5.0, soft - (t1 - t0));
        double dl = t1 + std::max(remain / double(nl - li + 1), remain * 0.5);
        bool tr = false;
        run_law(L, cases, seed, W, acc, fails, dir, known, known_seen, dl, tr);
        truncated = truncated || tr;
        ev += acc.evals; nt += acc.nontriv.size(); dis += acc.discards;
        std::string labs;
        for (auto& [k, v] : acc.labels) labs += str(labs.empty() ? "" : ",", "\"", esc(k), "\":", v);
        law_json.push_back(str("{\"law\":\"", esc(L.name), "\",\"cases\":", acc.evals, ",\"discarded\":", acc.discards,
                               ",\"distinct_nontrivial\":", acc.nontriv.size(), ",\"rule\":\"", esc(L.rule), "\",\"seconds\":", now() - t1,
                               ",\"truncated\":", tr ? "true" : "false", ",\"classes\":{", labs, "}}"));
        rule += str(rule.empty() ? "" : " | ", L.name, ": ", L.rule);
        for (auto& s : acc.samples) if (samples.size() < 24) samples.push_back(str("{\"law\":\"", esc(L.name), "\",\"case\":\"", esc(s), "\"}"));
        fprintf(stderr, "  %-44s %8ld cases %8zu nontrivial %6ld discarded  %.1fs%s\n", L.name.c_str(), acc.evals, acc.nontriv.size(), acc.discards, now() - t1, tr ? " (truncated)" : "");
        if (getenv("PBT_LABELS")) for (auto& [k, v] : acc.labels) fprintf(stderr, "        %-60s %ld\n", k.c_str(), v);
        if (!fails.empty()) break;
    }
    rmdir(dir.c_str());

    int rc = 0;
    std::string vio;
    if (!fails.empty()) {
        auto& F = fails.front();
        Outcome o = F.o;
        bool by_seed = o.choices.empty();
        std::vector<uint64_t> ch = o.choices;
        // how often the recorded choices fail again
        int again = 0;
        for (int k = 0; k < 3; ++k) {
            auto r = isolated(*F.law, by_seed ? nullptr : &ch, F.seed, F.law->cpu_limit);
            if (r.k == Outcome::fail) ++again;
            if (r.msg.find("CPU seconds") != std::string::npos) break;
        }
        if (!by_seed && o.msg.find("CPU seconds") == std::string::npos) {
            Outcome bo = o;
            auto s = shrink(*F.law, ch, bo, 60);
            auto r = isolated(*F.law, &s, 0, F.law->cpu_limit);
            if (r.k == Outcome::fail) { ch = s; o = r; }
        }
        mkdir(replay_dir.c_str(), 0755);
        std::string path = str(replay_dir, "/", prop, "-", std::hex, (mix(hash_choices(ch), F.seed) & 0xffffffff), ".txt");
        std::ofstream f(path);
        f << "property: " << prop << "\nlaw: " << F.law->name << "\nby: " << (by_seed ? "seed" : "choices") << "\nseed: " << F.seed << "\nchoices:";
        for (auto v : ch) f << ' ' << v;
        f << "\nmessage: " << o.msg << "\ncase: " << o.note << "\n# replay: ./run.py " << prop << " --replay <this file>\n";
        f.close();
        fprintf(stderr, "law %s fails (reproduced %d/3): %s\n  case: %s\n", F.law->name.c_str(), again, o.msg.c_str(), o.note.substr(0, 1500).c_str());
        if (again == 0)
            fprintf(stderr, "note: the failure was observed but did not recur on replay (it depends on scheduling or memory layout)\n");
        std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
        rc = 1;
    }
    for (auto& [k, v] : known_seen) std::cout << "KNOWN " << k << " " << v << std::endl;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{"
          << "\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << nt << ",\"discarded\":" << dis << ",\"rule\":\"" << esc(rule) << "\",\"truncated_by_time\":" << (truncated ? "true" : "false") << ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << samples[i];
        f << "],\"laws\":[";
        for (size_t i = 0; i < law_json.size(); ++i) f << (i ? "," : "") << law_json[i];
        f << "]},\"wall_s\":" << (now() - t0) << ",\"violations\":" << (rc == 1 ? 1 : 0) << "}\n";
    }
    return rc;
}
