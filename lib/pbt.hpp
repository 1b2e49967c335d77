// Small property-based-testing engine: integrated shrinking over a choice sequence,
// process-isolated parallel execution, replay files, coverage counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cmath>

namespace pbt {

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) {
        for (auto& x : s) {
            seed += 0x9e3779b97f4a7c15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            x = z ^ (z >> 31);
        }
    }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
};

struct Fail : std::runtime_error {
    std::string key;
    Fail(std::string const& m, std::string k = "") : std::runtime_error(m), key(std::move(k)) {}
};
struct Discard {};

// One test case: the source of every random choice plus what the case reports about itself.
class Case {
   public:
    explicit Case(uint64_t seed) : rng_(seed) {}
    explicit Case(std::vector<uint64_t> replay) : rng_(0), replay_(std::move(replay)), replaying_(true) {}

    // uniform integer in [0,bound]; 0 is the simplest value
    uint64_t choice(uint64_t bound) {
        uint64_t v;
        if (replaying_) {
            v = pos_ < replay_.size() ? replay_[pos_] : 0;
            if (v > bound) v = bound;
        } else {
            v = bound == ~0ull ? rng_.next() : rng_.next() % (bound + 1);
        }
        ++pos_;
        rec_.push_back(v);
        if (mirror_ && rec_.size() <= mirror_cap_) { mirror_[rec_.size()] = v; mirror_[0] = rec_.size(); }
        return v;
    }
    long long integer(long long lo, long long hi) {
        return lo + (long long)choice((uint64_t)(hi - lo));
    }
    // uniform real in [lo,hi] on a 2^40 grid, simplest = lo
    double real(double lo, double hi) {
        constexpr uint64_t G = (1ull << 40);
        return lo + (hi - lo) * (double(choice(G)) / double(G));
    }
    // symmetric real in [-a,a], simplest = 0
    double sym(double a) {
        constexpr uint64_t G = (1ull << 40);
        uint64_t c = choice(2 * G);
        double m = a * (double(c >> 1) / double(G));
        return (c & 1) ? -m : m;
    }
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    bool boolean() { return choice(1) != 0; }
    bool chance(int num, int den) { return (long long)choice(den - 1) >= den - num; }  // simplest = false
    template <class T> T const& pick(std::vector<T> const& v) { return v[choice(v.size() - 1)]; }

    void label(std::string const& l) { labels_[l]++; }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    template <class... A> void note(A const&... a) {
        std::ostringstream os;
        os.precision(17);
        (os << ... << a);
        if (note_.size() < 4000) note_ += os.str();
    }
    [[noreturn]] void discard() { throw Discard{}; }

    std::vector<uint64_t> const& choices() const { return rec_; }
    std::map<std::string, long> labels_;
    bool nontrivial_{false};
    std::string note_;
    uint64_t* mirror_{nullptr};  // shared-memory copy of the choices, so that they survive a crash
    size_t mirror_cap_{0};
    std::string key_;  // key given to failures raised by REQUIRE from here on ("" = none)

   private:
    Rng rng_;
    std::vector<uint64_t> replay_, rec_;
    size_t pos_{0};
    bool replaying_{false};
};

template <class... A> std::string str(A const&... a) {
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    return os.str();
}

// calibration aid: with PBT_CAL=<file> every checked ratio is appended there (group, measured/allowed unit)
inline void cal(std::string const& group, long double ratio) {
    static char const* path = std::getenv("PBT_CAL");
    if (!path) return;
    if (FILE* f = std::fopen(path, "a")) { std::fprintf(f, "%s\t%.4Lg\n", group.c_str(), ratio); std::fclose(f); }
}

#define REQUIRE(C, cond, ...)                                                                   \
    do {                                                                                        \
        if (!(cond)) throw ::pbt::Fail(::pbt::str("[" #cond "] ", __VA_ARGS__), (C).key_);      \
    } while (0)

struct Law {
    std::string name;
    std::string rule;  // what a case is and what makes it non-trivial
    long quick, thorough;
    std::function<void(Case&)> fn;
    double cpu_limit{120};  // CPU seconds after which a single case counts as non-terminating
};

void add_law(Law l);
struct AddLaw {
    AddLaw(std::string name, std::string rule, long q, long t, std::function<void(Case&)> f, double cpu = 120) {
        add_law({std::move(name), std::move(rule), q, t, std::move(f), cpu});
    }
};
#define LAW_CAT2(a, b) a##b
#define LAW_CAT(a, b) LAW_CAT2(a, b)
#define LAW_IMPL(id, name, rule, q, t, ...)            \
    static void LAW_CAT(law_fn_, id)(::pbt::Case & C); \
    static ::pbt::AddLaw LAW_CAT(law_reg_, id)(name, rule, q, t, LAW_CAT(law_fn_, id), ##__VA_ARGS__); \
    static void LAW_CAT(law_fn_, id)(::pbt::Case & C)
// LAW(name, rule, quick cases, thorough cases [, cpu limit]) { ... uses C ... }
#define LAW(name, rule, q, t, ...) LAW_IMPL(__COUNTER__, name, rule, q, t, ##__VA_ARGS__)
}  // namespace pbt
