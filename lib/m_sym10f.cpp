#include "sim_impl.hpp"
M_FIXED(Sym10, "Simple", "Sym10", 10)
M_FIXED(AR_Sym10, "Regu", "Sym10", 10)
M_FIXED(Chain_Sym10, "Chain", "Sym10", 10)
M_FIXED(AR_Sym10_Chain, "ARchain", "Sym10", 10)
