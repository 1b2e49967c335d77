#include "sim_impl.hpp"
M_FIXED(Sym4, "Simple", "Sym4", 4)
M_FIXED(AR_Sym4, "Regu", "Sym4", 4)
M_FIXED(Chain_Sym4, "Chain", "Sym4", 4)
M_FIXED(AR_Sym4_Chain, "ARchain", "Sym4", 4)
