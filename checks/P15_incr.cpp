#include "P15_systems.hpp"
LAW("increments", WHERE "more than one operation", 400000, 16000000) { all<Incr>(C); }
