#include "P14_forces.hpp"
F_REGISTER(F_FIXED, "wind", p14::Wind)
