#include "sim_impl.hpp"
M_ADAPT(Sym8, "Simple", "Sym8", 8)
M_ADAPT(AR_Sym8, "Regu", "Sym8", 8)
M_ADAPT(Chain_Sym8, "Chain", "Sym8", 8)
M_ADAPT(AR_Sym8_Chain, "ARchain", "Sym8", 8)
