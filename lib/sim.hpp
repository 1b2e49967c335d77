// Type-erased access to the library's integration methods.
#pragma once
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace sim {
using real = long double;

struct Body {
    real m{0}, x[3]{0, 0, 0}, v[3]{0, 0, 0};
};

struct Snap {
    real t{0};
    std::vector<Body> b;
    std::vector<size_t> idn;
};

// Read-only look at a particle system while (or after) it is integrated.
struct View {
    virtual ~View() = default;
    virtual real time() const = 0;
    virtual size_t size() const = 0;
    virtual Body body(size_t i) const = 0;
    virtual size_t idn(size_t i) const = 0;
    virtual real step_scale() const = 0;
    Snap snap() const {
        Snap s;
        s.t = time();
        for (size_t i = 0; i < size(); ++i) { s.b.push_back(body(i)); s.idn.push_back(idn(i)); }
        return s;
    }
};

struct RunSpec {
    bool has_end{true};
    real t_end{1};
    real step{0};        // 0: the library chooses
    real atol{-1}, rtol{-1}, time_rtol{-1};  // <0: leave the default
    long max_steps{200000};  // guard: recorded as hit_cap
    std::function<void(View const&, real)> on_start, on_op, on_stop;
    std::function<bool(View const&, real)> stop;  // additional stop condition
};
struct RunResult {
    bool hit_cap{false};
    long checks{0};   // stop-condition evaluations
    bool stopped{false};
};

struct Sim {
    virtual ~Sim() = default;
    virtual RunResult run(RunSpec const&) = 0;
    virtual View const& view() const = 0;
    virtual std::unique_ptr<Sim> clone() const = 0;
};

enum Precision { Dbl, DblComp, Ext, ExtComp };
struct Method {
    std::string name, base;    // full name and the name without the precision suffix
    std::string system;        // Simple, Regu, Chain, ARchain
    std::string integ;         // BS, Sym2.., Radau
    bool fixed{false};         // constant step
    Precision prec{Dbl};
    int order{0};              // of the underlying integrator (0: extrapolation)
    std::function<std::unique_ptr<Sim>(real t0, std::vector<Body> const&)> make;
    bool regularised() const { return system == "Regu" || system == "ARchain"; }
    bool chain() const { return system == "Chain" || system == "ARchain"; }
};
std::vector<Method> const& methods();
Method const& method(std::string const& name);
bool add_method(Method m);
inline std::string describe(std::vector<Body> const& b) {
    std::ostringstream o;
    o.precision(17);
    for (auto& p : b) o << "{m=" << (double)p.m << " x=(" << (double)p.x[0] << "," << (double)p.x[1] << "," << (double)p.x[2] << ") v=(" << (double)p.v[0] << "," << (double)p.v[1] << "," << (double)p.v[2] << ")} ";
    return o.str();
}
}  // namespace sim
