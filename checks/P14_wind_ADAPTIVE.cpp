#include "P14_forces.hpp"
F_REGISTER(F_ADAPTIVE, "wind", p14::Wind)
