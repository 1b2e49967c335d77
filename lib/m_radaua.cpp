#include "sim_impl.hpp"
M_ADAPT(Radau, "Simple", "Radau", 15)
M_ADAPT(AR_Radau, "Regu", "Radau", 15)
M_ADAPT(Chain_Radau, "Chain", "Radau", 15)
M_ADAPT(AR_Radau_Chain, "ARchain", "Radau", 15)
