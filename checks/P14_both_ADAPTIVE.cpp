#include "P14_forces.hpp"
F_REGISTER(F_ADAPTIVE, "both", p14::Wind, p14::Trap)
