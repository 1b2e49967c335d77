#include "P14_forces.hpp"
F_REGISTER(F_ADAPTIVE, "trap", p14::Trap)
