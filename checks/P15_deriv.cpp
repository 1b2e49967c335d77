#include "P15_systems.hpp"
LAW("derivative", WHERE "more than 2 bodies", 400000, 16000000) { all<Deriv>(C); }
