#include "P24_model.hpp"
LAW("numbers", RULE, 100000, 3000000) {
    switch (C.choice(2)) {
        case 0: return history<double, 16>(C);
        case 1: return history<double, 2>(C);
        default: return history<int, 1>(C);
    }
}
