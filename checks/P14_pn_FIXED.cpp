#include "P14_forces.hpp"
F_REGISTER(F_FIXED, "pn", hub::force::PN1, hub::force::PN2, hub::force::PN2p5)
