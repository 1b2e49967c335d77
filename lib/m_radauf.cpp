#include "sim_impl.hpp"
M_FIXED(Radau, "Simple", "Radau", 15)
M_FIXED(AR_Radau, "Regu", "Radau", 15)
M_FIXED(Chain_Radau, "Chain", "Radau", 15)
M_FIXED(AR_Radau_Chain, "ARchain", "Radau", 15)
