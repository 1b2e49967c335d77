#include "sim.hpp"
#include <algorithm>
#include <sstream>
#include <stdexcept>
namespace sim {
static std::vector<Method>& reg() { static std::vector<Method> r; return r; }
bool add_method(Method m) { reg().push_back(std::move(m)); return true; }
std::vector<Method> const& methods() {
    // registration order depends on link order: sort once so that generated choices mean the same method in every build
    static bool sorted = [] { std::sort(reg().begin(), reg().end(), [](auto& a, auto& b) { return a.name < b.name; }); return true; }();
    (void)sorted;
    return reg();
}
Method const& method(std::string const& n) {
    for (auto& m : methods()) if (m.name == n) return m;
    throw std::runtime_error("no method " + n);
}
}  // namespace sim
