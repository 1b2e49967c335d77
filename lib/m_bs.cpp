#include "sim_impl.hpp"
M_ADAPT(BS, "Simple", "BS", 0)
M_ADAPT(AR_BS, "Regu", "BS", 0)
