#include "sim_impl.hpp"
M_ADAPT(Sym6, "Simple", "Sym6", 6)
M_ADAPT(AR_Sym6, "Regu", "Sym6", 6)
M_ADAPT(Chain_Sym6, "Chain", "Sym6", 6)
M_ADAPT(AR_Sym6_Chain, "ARchain", "Sym6", 6)
