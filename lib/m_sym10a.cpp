#include "sim_impl.hpp"
M_ADAPT(Sym10, "Simple", "Sym10", 10)
M_ADAPT(AR_Sym10, "Regu", "Sym10", 10)
M_ADAPT(Chain_Sym10, "Chain", "Sym10", 10)
M_ADAPT(AR_Sym10_Chain, "ARchain", "Sym10", 10)
