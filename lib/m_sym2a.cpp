#include "sim_impl.hpp"
M_ADAPT(Sym2, "Simple", "Sym2", 2)
M_ADAPT(AR_Sym2, "Regu", "Sym2", 2)
M_ADAPT(Chain_Sym2, "Chain", "Sym2", 2)
M_ADAPT(AR_Sym2_Chain, "ARchain", "Sym2", 2)
