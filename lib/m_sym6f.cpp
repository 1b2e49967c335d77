#include "sim_impl.hpp"
M_FIXED(Sym6, "Simple", "Sym6", 6)
M_FIXED(AR_Sym6, "Regu", "Sym6", 6)
M_FIXED(Chain_Sym6, "Chain", "Sym6", 6)
M_FIXED(AR_Sym6_Chain, "ARchain", "Sym6", 6)
