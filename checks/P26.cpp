// P26: what is written can be read: output files of runs, stream helpers, configuration files, command lines
//: flags -O1
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "gen.hpp"
#include "sim_impl.hpp"
using pbt::Case;
using ref::R;
using ref::V;
using ref::pos;
using ref::vel;
namespace {
using namespace hub;
// a scratch file of this process, gone when the case is over
struct Scratch {
    std::string dir, path;
    explicit Scratch(char const* name) {
        char t[] = "/tmp/spacehub-p26-XXXXXX";
        dir = mkdtemp(t);
        chmod(dir.c_str(), 0755);
        path = dir + "/" + name;
    }
    ~Scratch() { unlink(path.c_str()); rmdir(dir.c_str()); }
    std::vector<std::string> lines() const {
        std::ifstream f(path);
        std::vector<std::string> r;
        for (std::string l; std::getline(f, l);) r.push_back(l);
        return r;
    }
};
static std::vector<std::string> split(std::string const& l, char d) {
    std::vector<std::string> r(1);
    for (char c : l) if (c == d) r.emplace_back(); else r.back() += c;
    return r;
}
static R number(Case& C, std::string const& f) {
    char* e;
    R v = strtold(f.c_str(), &e);
    REQUIRE(C, f.size() && !*e, "'", f, "' is not a number");
    return v;
}
template <class P, class = void> struct has_bindE : std::false_type {};
template <class P> struct has_bindE<P, std::void_t<decltype(std::declval<P>().bindE())>> : std::true_type {};
struct Shot { R t; std::vector<R> x; };
template <class P> Shot shot(P& p) {
    Shot s{(R)p.time(), {}};
    for (size_t i = 0; i < p.number(); ++i) {
        s.x.push_back((R)p.mass(i));
        for (auto* v : {&p.pos(i), &p.vel(i)}) { s.x.push_back((R)v->x); s.x.push_back((R)v->y); s.x.push_back((R)v->z); }
    }
    return s;
}
// what a 17-digit decimal number keeps of a value
template <class S> bool kept(R file, R value) {
    if (std::is_same_v<S, long double>) return std::fabs(file - value) <= 1e-16L * std::fabs(value);
    return (double)file == (double)value;
}
template <class S> void check_file(Case& C, Scratch const& f, std::vector<Shot> const& shots, size_t n) {
    auto l = f.lines();
    if (shots.empty()) { REQUIRE(C, l.empty(), "nothing was written, but the file has ", l.size(), " lines"); return; }
    REQUIRE(C, l.size() && l[0] == "time,id,mass,px,py,pz,vx,vy,vz", "the header is '", l.empty() ? "" : l[0], "'");
    size_t row = 0;
    for (size_t k = 1; k < l.size(); ++k) {
        if (l[k].empty()) continue;  // blocks are separated by blank lines
        auto fs = split(l[k], ',');
        size_t b = row / n, i = row % n;
        REQUIRE(C, b < shots.size(), "more rows than the ", shots.size(), " states written: ", l[k]);
        REQUIRE(C, fs.size() == 9, "row ", row, " has ", fs.size(), " fields: ", l[k]);
        REQUIRE(C, kept<S>(number(C, fs[0]), shots[b].t), "row ", row, ": time ", fs[0], " instead of ", pbt::str(shots[b].t));
        REQUIRE(C, number(C, fs[1]) == i, "row ", row, ": id ", fs[1], " instead of ", i);
        for (size_t q = 0; q < 7; ++q) REQUIRE(C, kept<S>(number(C, fs[2 + q]), shots[b].x[7 * i + q]), "row ", row, ": field ", q + 2, " is ", fs[2 + q], " instead of ", shots[b].x[7 * i + q]);
        ++row;
    }
    REQUIRE(C, row == n * shots.size(), row, " rows for ", shots.size(), " states of ", n, " particles");
}
template <class M> void files(Case& C, char const* name) {
    using Sc = typename M::Scalar;
    C.label(name);
    auto b = C.boolean() ? gen::two_body(C, 0, 0.7L).b : gen::any_system(C, 2, 5);
    R tau = gen::time_scale(b), t0 = C.boolean() ? 0 : (R)(double)C.sym(1000);
    C.note(name, " ", sim::describe(b), " t0=", t0);
    Scratch out("states.csv"), err("energy.csv");
    std::vector<Shot> shots;
    struct E { R t, T, U, E0, bind, Uc; };  // Uc: the potential, each pair weighted by what a close pair loses of its distance to the rounding of the positions
    std::vector<E> errs;
    std::vector<typename M::Particle> v;
    for (auto& q : b) v.emplace_back((Sc)q.m, (Sc)q.x[0], (Sc)q.x[1], (Sc)q.x[2], (Sc)q.v[0], (Sc)q.v[1], (Sc)q.v[2]);
    {
        callback::DefaultWriter w(out.path);
        callback::EnergyErrWriter we(err.path);
        M s((Sc)t0, v);
        int legs = C.integer(1, 3), every = C.integer(1, 4);
        R t = t0;
        for (int g = 0; g < legs; ++g) {
            typename M::RunArgs a;
            a.rtol = (Sc)1e-9;
            long cap = 60, k = 0;
            bool start = C.boolean(), stop = C.boolean(), steps = C.chance(2, 3), energy = C.chance(2, 3);
            t += tau * C.real(0.1, 6);
            a.add_stop_condition((Sc)t);
            a.add_stop_condition([&](auto&, auto) { return ++k > cap; });
            auto rec = [&](auto& p, auto) { shots.push_back(shot(p)); };
            std::optional<R> E0;
            if (start) { a.add_start_point_operation(w); a.add_start_point_operation(rec); }
            if (steps && every > 1) { a.add_operation(callback::StepSlice(w, every)); a.add_operation(callback::StepSlice(rec, every)); }
            else if (steps) { a.add_operation(w); a.add_operation(rec); }
            if (energy) {
                if (C.boolean()) a.add_operation(we); else a.add_operation([&](auto& p, auto h) { we(p, h); });
                a.add_operation([&](auto& p, auto) {
                    auto q = b;
                    for (size_t i = 0; i < q.size(); ++i) { set_pos(q[i], V((R)p.pos(i).x, (R)p.pos(i).y, (R)p.pos(i).z)); set_vel(q[i], V((R)p.vel(i).x, (R)p.vel(i).y, (R)p.vel(i).z)); }
                    R T = ref::kinetic(q), U = -ref::potential(q), be = 0;
                    if constexpr (has_bindE<std::decay_t<decltype(p)>>::value) be = (R)p.bindE();
                    if (!E0) E0 = T - U;
                    R far = 0, Uc = 0;
                    for (auto& x : q) far = std::max(far, ref::norm(ref::pos(x)));
                    for (size_t i = 0; i < q.size(); ++i) for (size_t j = i + 1; j < q.size(); ++j) {
                        R r = ref::norm(ref::pos(q[i]) - ref::pos(q[j]));
                        Uc += q[i].m * q[j].m / r * (1 + far / r);
                    }
                    errs.push_back({(R)p.time(), T, U, *E0, be, Uc});
                });
            }
            if (stop) { a.add_stop_point_operation(w); a.add_stop_point_operation(rec); }
            s.run(a);
            if (energy && legs > 1) { legs = g + 1; C.label("energy file"); }  // a further leg may or may not share the writer's reference energy
        }
    }
    C.nontrivial(shots.size() > 2);
    check_file<Sc>(C, out, shots, b.size());
    auto l = err.lines();
    REQUIRE(C, l.size() == errs.size(), l.size(), " lines of energy errors for ", errs.size(), " steps");
    R eps = std::is_same_v<Sc, long double> ? 1.1e-19L : 2.3e-16L;
    for (size_t k = 0; k < l.size(); ++k) {
        auto f = split(l[k], ',');
        REQUIRE(C, f.size() == 2, "line ", k, " is '", l[k], "'");
        REQUIRE(C, kept<Sc>(number(C, f[0]), errs[k].t), "line ", k, ": time ", f[0], " instead of ", errs[k].t);
        E const& e = errs[k];
        R got = strtold(f[1].c_str(), nullptr), noise = eps * 64 * b.size() * (e.T + e.Uc) * (1 + (e.T + e.U) / std::fabs(e.E0));
        if constexpr (has_bindE<std::decay_t<decltype(std::declval<M>().particles())>>::value) {
            R want = std::log(std::fabs((e.T + e.bind) / e.U));
            REQUIRE(C, std::fabs(got - want) <= 1e-3L * std::fabs(want) + eps * 64 * b.size() * (e.T + std::fabs(e.bind) + e.Uc) / std::fabs(e.T + e.bind), "line ", k, ": energy error ", got, " instead of ", want);
        } else {
            R want = std::fabs((e.T - e.U - e.E0) / e.E0);
            if (e.E0 != 0) REQUIRE(C, std::fabs(got - want) <= 1e-3L * want + noise / std::fabs(e.E0) * 10, "line ", k, ": energy error ", got, " instead of ", want);
        }
    }
}
// ---- helpers for streams -----------------------------------------------------------------------------------------------
static double value(Case& C) { return C.chance(1, 4) ? (double)C.integer(-9, 9) : C.chance(1, 3) ? C.logreal(1e-300, 1e300) : C.sym(1e3); }
static std::string word(Case& C) {
    std::string s;
    for (int k = C.integer(1, 8); k > 0; --k) s += "abcXYZ019_.-+/"[C.choice(13)];
    return s;
}
static void streams(Case& C) {
    double a = value(C), b = value(C), c = value(C);
    long n = C.integer(-1000000, 1000000);
    std::string w = word(C);
    C.note(a, " ", b, " ", c, " ", n, " ", w);
    C.nontrivial(true);
    std::stringstream s;
    s << std::setprecision(17);
    double x = 0, y = 0, z = 0;
    long m = 0;
    std::string u;
    auto ok = [&](char const* what) {
        REQUIRE(C, x == a && y == b && z == c && m == n && u == w, what, ": '", s.str(), "' read back as ", x, " ", y, " ", z, " ", m, " ", u);
        x = y = z = 0; m = 0; u.clear(); s.clear(); s.str("");
    };
    auto commas = [&](char const* what) {
        auto f = split(s.str(), ',');
        REQUIRE(C, f.size() == 5, what, ": ", f.size(), " fields in '", s.str(), "'");
        x = (double)number(C, f[0]); y = (double)number(C, f[1]); z = (double)number(C, f[2]); m = (long)number(C, f[3]); u = f[4];
        ok(what);
    };
    print_csv(s, a, b, c, n, w); commas("print_csv");
    print_csv(s, Vec3<double>(a, b, c), n, w); commas("print_csv of a vector");
    print(s, a, ',', b, ',', c, ',', n, ',', w); commas("print");
    REQUIRE(C, &print(s, w) == &s && s.str() == w, "print of one argument");
    s.str(""); s.clear();
    print_csv(s, w);
    REQUIRE(C, s.str() == w, "print_csv of one argument gives '", s.str(), "'");
    s.str(""); s.clear();
    display(s, a, b, c, n, w); input(s, x, y, z, m, u); ok("display, input");
    s << std::make_tuple(a, b, c, n, w); input(s, x, y, z, m, u); ok("tuple, input");
    display(s, a, b, c, n, w); s >> std::tie(x, y, z, m, u); ok("display, tie");
    {
        std::array<double, 3> q{a, b, c};
        s << q; print(s, n, ' ', w); input(s, x, y, z, m, u); ok("array, input");
        std::vector<double> p{a, b, c};
        hub::operator<<(s, p); print(s, n, ' ', w); input(s, x, y, z, m, u); ok("vector, input");
        llvm::SmallVector<double, 2> r;
        for (double d : q) r.push_back(d);
        s << r; print(s, n, ' ', w); input(s, x, y, z, m, u); ok("SmallVector, input");
        Vec3<double> v;
        display(s, a, b, c, n, w); input(s, v, m, u); x = v.x; y = v.y; z = v.z; ok("vector from a stream");
        double_k k1(1), k2(2);
        Vec3<double_k> vk;
        print(s, double_k(a), ' ', double_k(b), ' ', double_k(c), ' ', n, ' ', w); input(s, k1, k2, z, m, u); x = (double)k1; y = (double)k2; ok("compensated numbers");
        display(s, a, b, c, n, w); input(s, vk, m, u); x = (double)vk.x; y = (double)vk.y; z = (double)vk.z; ok("compensated vector");
        using P = particles::PointParticle<Vec3<double>>;
        P p1(a, b, c, 1, 2, 3, (double)n), p2(0);
        print(s, p1);
        auto f = split(s.str(), ',');
        REQUIRE(C, f.size() == 7, "a particle is printed as '", s.str(), "'");
        s.str(""); s.clear();
        for (auto& q2 : f) s << q2 << ' ';
        input(s, p2);
        REQUIRE(C, p2.mass == a && p2.pos.x == b && p2.pos.y == c && p2.pos.z == 1 && p2.vel.x == 2 && p2.vel.y == 3 && p2.vel.z == n, "particle read back from '", s.str(), "'");
        s.str(""); s.clear();
        particles::TideParticle<Vec3<double>> t1(a, b, c, 4, 5, 6, 7, 8, 9, (double)n), t2(0, 0, 0, 0);
        print(s, t1);
        f = split(s.str(), ',');
        s.str(""); s.clear();
        for (auto& q2 : f) s << q2 << ' ';
        input(s, t2);
        REQUIRE(C, t2.mass == a && t2.radius == b && t2.tide_apsidal_const == c && t2.tide_lag_time == 4 && t2.pos.x == 5 && t2.pos.z == 7 && t2.vel.x == 8 && t2.vel.z == n, "tidal particle read back from '", s.str(), "'");
        s.str(""); s.clear();
        particles::SizeParticle<Vec3<double>> z1(a, b, 5, 6, 7, 8, 9, (double)n), z2(0, 0);
        print(s, z1);
        f = split(s.str(), ',');
        s.str(""); s.clear();
        for (auto& q2 : f) s << q2 << ' ';
        input(s, z2);
        REQUIRE(C, z2.mass == a && z2.radius == b && z2.pos.x == 5 && z2.pos.z == 7 && z2.vel.x == 8 && z2.vel.z == n, "finite-size particle read back from '", s.str(), "'");
        s.str(""); s.clear();
        particles::DragParticle<Vec3<double>> d1(a, b, c, 5, 6, 7, 8, 9, (double)n), d2(0, 0, 0);
        print(s, d1);
        f = split(s.str(), ',');
        s.str(""); s.clear();
        for (auto& q2 : f) s << q2 << ' ';
        input(s, d2);
        REQUIRE(C, d2.mass == a && d2.sub_sonic_coef == b && d2.local_cs == c && d2.pos.x == 5 && d2.pos.z == 7 && d2.vel.x == 8 && d2.vel.z == n, "drag particle read back from '", s.str(), "'");
    }
    // the helpers for containers
    std::vector<int> v1, v2{7};
    emplace_back(v1, 1, 2, (int)n); push_back(v1, 4);
    REQUIRE(C, (v1 == std::vector<int>{1, 2, (int)n, 4}), "emplace_back, push_back of several values");
    resize_all(3, v1, v2);
    REQUIRE(C, v1.size() == 3 && v2.size() == 3 && v2[0] == 7 && v1[2] == n, "resize_all");
    reserve_all(20, v1, v2);
    REQUIRE(C, v1.capacity() >= 20 && v2.capacity() >= 20 && v1.size() == 3, "reserve_all");
    shrink_to_fit_all(v1, v2); clear_all(v1, v2);
    REQUIRE(C, v1.empty() && v2.empty(), "clear_all");
}
// ---- configuration files -------------------------------------------------------------------------------------------------
static std::string blanks(Case& C) { std::string s; for (int k = C.choice(2); k > 0; --k) s += " \t"[C.choice(1)]; return s; }
static void config(Case& C) {
    char div = "=:|,"[C.choice(3)], com = "#;%"[C.choice(2)];
    struct Val { int kind; std::string text; double d; long i; };
    std::map<std::string, Val> m;
    std::string text;
    int n = C.integer(0, 14), entries = 0;
    bool crlf = C.chance(1, 4), last_newline = C.boolean();
    std::vector<std::string> keys;
    for (int k = 0; k < n; ++k) {
        std::string line;
        switch (C.choice(5)) {
            case 0: line = blanks(C); C.label("blank line"); break;
            case 1: line = pbt::str(blanks(C), com, blanks(C), word(C), div, word(C)); C.label("comment"); break;
            default: {
                std::string key = keys.size() && C.chance(1, 4) ? keys[C.choice(keys.size() - 1)] : word(C);
                if (keys.size() == 0 || C.chance(1, 8)) { char other = "#;%"[C.choice(2)]; if (other != com && key[0] != other && !m.count(key)) { key = other + key; C.label("key with a sign that starts no comment here"); } }
                if (m.count(key)) C.label("repeated key");
                Val v{(int)C.choice(3), "", 0, 0};
                if (v.kind == 0) { v.i = C.integer(-2000000, 2000000); v.text = std::to_string(v.i); }
                if (v.kind == 1) { v.d = value(C); char b[40]; snprintf(b, 40, "%.17g", v.d); v.text = b; }
                if (v.kind == 2) v.text = word(C);
                if (v.kind == 3) { v.text = word(C) + div + word(C); C.label("divider in the value"); }
                line = blanks(C) + key + blanks(C) + div + blanks(C) + v.text + blanks(C);
                if (com == key[0]) C.discard();
                m[key] = v;
                keys.push_back(key);
                ++entries;
            }
        }
        text += line;
        if (k + 1 < n || last_newline) text += crlf ? "\r\n" : "\n";
    }
    C.note(pbt::str("divider ", div, " comment ", com, "\n", text));
    C.nontrivial(m.size() > 1);
    Scratch f("run.cfg");
    { std::ofstream o(f.path, std::ios::binary); o << text; }
    bool read_only = C.boolean();
    if (read_only) { chmod(f.path.c_str(), 0444); C.label("read-only file"); }
    bool dropped = read_only && geteuid() == 0 && seteuid(65534) == 0;
    std::optional<tools::ConfigReader> r;
    if (div == '=' && com == '#' && C.boolean()) { if (C.boolean()) r.emplace(f.path); else r.emplace(f.path.c_str()); }
    else if (C.boolean()) r.emplace(f.path, div, com);
    else r.emplace(f.path.c_str(), div, com);
    if (dropped && seteuid(0)) throw std::runtime_error("cannot regain privileges");
    for (int pass = 0; pass < 2; ++pass)
        for (auto& [k, v] : m) {
            REQUIRE(C, r->get<std::string>(k) == v.text, "key '", k, "' is '", r->get<std::string>(k), "' instead of '", v.text, "'");
            if (v.kind == 0) REQUIRE(C, r->get<long>(k) == v.i && r->get<int>(k) == v.i && r->get<double>(k) == (double)v.i, "integer '", k, "' is ", r->get<long>(k));
            if (v.kind == 1) REQUIRE(C, r->get<double>(k) == v.d && std::fabs(r->get<long double>(k) - v.d) <= 1e-16L * std::fabs(v.d), "number '", k, "' is ", r->get<double>(k), " instead of ", v.d);
        }
}
// ---- command lines ---------------------------------------------------------------------------------------------------------
static void command_line(Case& C) {
    double d = value(C);
    long i = C.integer(-2000000, 2000000);
    unsigned long u = C.integer(0, 1000000);
    bool b = C.boolean();
    std::string w = word(C);
    char num[40];
    snprintf(num, 40, "%.17g", d);
    std::vector<std::string> text{"prog", num, std::to_string(i), w, std::to_string(u), b ? "1" : "0"};
    C.note(num, " ", i, " ", w, " ", u, " ", b);
    C.nontrivial(true);
    std::vector<char*> argv;
    for (auto& t : text) argv.push_back(t.data());
    argv.push_back(nullptr);
    {
        double x = 0; long y = 0; std::string z; unsigned long q = 0; bool p = !b;
        tools::read_command_line(6, argv.data(), x, y, z, q, p);
        REQUIRE(C, x == d && y == i && z == w && q == u && p == b, "read as ", x, " ", y, " ", z, " ", q, " ", p);
    }
    {  // longer command lines
        std::vector<std::string> t{"prog"};
        std::array<double, 12> want, got{};
        for (auto& x : want) { x = value(C); char b[40]; snprintf(b, 40, "%.17g", x); t.push_back(b); }
        std::vector<char*> a;
        for (auto& x : t) a.push_back(x.data());
        a.push_back(nullptr);
        std::apply([&](auto&... x) { tools::read_command_line(13, a.data(), x...); }, got);
        for (size_t k = 0; k < want.size(); ++k) REQUIRE(C, got[k] == want[k], "option ", k + 1, " of 12 is read as ", got[k], " instead of ", want[k]);
    }
    {
        using namespace hub::tools;
        READ_CMD_LINE(6, argv.data(), x, y, z, q, p);
        double xd = x; long double xl = x;
        bool single = d == 0 || (std::fabs(d) < 1e30 && std::fabs(d) > 1e-30);  // others are out of its range
        float xf = single ? (float)x : 0;
        REQUIRE(C, xd == d && (double)xl == d, "floating point option ", xd);
        if (single) REQUIRE(C, std::fabs(xf - d) <= 1e-7 * std::fabs(d), "single precision option ", xf);
        int yi = y; long yl = y; long long yll = y;
        REQUIRE(C, yi == i && yl == i && yll == i, "integer option ", yi, " ", yl, " ", yll);
        unsigned long ql = q; unsigned long long qll = q; bool pb = p;
        REQUIRE(C, ql == u && qll == u && pb == b, "unsigned option ", ql, " ", qll, ", boolean ", pb);
        std::string zs = z; char const* zc = z;
        REQUIRE(C, zs == w && zc == w, "text option ", zs);
        REQUIRE(C, x.as<double>() == d && x.as<long double>() == xl, "as<double>");
        if (single) REQUIRE(C, x.as<float>() == xf, "as<float>");
        REQUIRE(C, y.as<int>() == i && y.as<long>() == i && y.as<long long>() == i, "as<int>, as<long>");
        REQUIRE(C, q.as<unsigned long>() == u && q.as<unsigned long long>() == u, "as<unsigned long>");
        REQUIRE(C, z.as<std::string>() == w, "as<std::string> is ", z.as<std::string>());
#ifndef P26_NO_AS
        REQUIRE(C, p.as<bool>() == b, "as<bool> is ", p.as<bool>(), " for ", b);
        REQUIRE(C, z.as<char const*>() == w, "as<char const*>");
#endif
        std::stringstream s;
        s << z << ' ' << y;
        REQUIRE(C, s.str() == w + " " + std::to_string(i), "options are printed as ", s.str());
    }
    REQUIRE(C, tools::make_name(w, (int)i) == w + std::to_string(i) + ".dat" && tools::make_name(w, 3, ".csv") == w + "3.csv", "make_name gives ", tools::make_name(w, (int)i));
    std::set<std::string> names;
    for (int k = 0; k < 5; ++k) {
        auto nm = tools::auto_name(w);
        REQUIRE(C, nm.compare(0, w.size(), w) == 0 && nm.size() > w.size() + 4 && nm.substr(nm.size() - 4) == ".dat", "auto_name gives ", nm);
        REQUIRE(C, names.insert(nm).second, "auto_name gives ", nm, " twice");
    }
}
}  // namespace
LAW("files of runs", "1-3 legs of runs of 2-5 bodies with state and energy writers at start, at steps, every few steps, at the end; non-trivial: more than 2 states written", 6000, 300000) {
    using namespace hub::methods;
    switch (C.choice(7)) {
        case 0: return files<BS<>>(C, "BS");
        case 1: return files<AR_Chain<>>(C, "AR_Chain");
        case 2: return files<AR_Chain_Plus<>>(C, "AR_Chain_Plus");
        case 3: return files<Chain_Radau<>>(C, "Chain_Radau");
        case 4: return files<Sym6_Plus<>>(C, "Sym6_Plus");
        case 5: return files<BS_Ext<>>(C, "BS_Ext");
        case 6: return files<AR_BS<>>(C, "AR_BS");
        default: return files<Radau_ExtPlus<>>(C, "Radau_ExtPlus");
    }
}
LAW("streams", "numbers, words, vectors, tuples, containers, particles printed and read; all non-trivial", 40000, 2000000) { streams(C); }
LAW("configuration files", "0-14 lines: entries of all types, comments, blanks, repeated keys, CRLF, any divider and comment sign, read-only files; non-trivial: more than one key", 20000, 1000000) { config(C); }
LAW("command lines", "options of every type; all non-trivial", 20000, 1000000) { command_line(C); }
