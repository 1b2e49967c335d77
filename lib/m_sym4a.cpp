#include "sim_impl.hpp"
M_ADAPT(Sym4, "Simple", "Sym4", 4)
M_ADAPT(AR_Sym4, "Regu", "Sym4", 4)
M_ADAPT(Chain_Sym4, "Chain", "Sym4", 4)
M_ADAPT(AR_Sym4_Chain, "ARchain", "Sym4", 4)
