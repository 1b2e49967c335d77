#include "P15_systems.hpp"
LAW("drifts and kicks", WHERE "more than 2 bodies", 500000, 20000000) { all<Leap>(C); }
