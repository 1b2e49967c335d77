#include "P14_forces.hpp"
F_REGISTER(F_FIXED, "trap", p14::Trap)
