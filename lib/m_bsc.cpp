#include "sim_impl.hpp"
M_ADAPT(Chain_BS, "Chain", "BS", 0)
M_ADAPT(AR_Chain, "ARchain", "BS", 0)
