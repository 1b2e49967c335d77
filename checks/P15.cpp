// P15: the flat state array, kicks, drifts, derivatives and collected increments of every kind of particle system agree
//: flags -O1
//: also P15_leap.cpp P15_incr.cpp P15_deriv.cpp
#include "P15_systems.hpp"
LAW("layout of the state array", WHERE "more than 2 bodies", 500000, 20000000) { all<Layout>(C); }
