#include "P24_model.hpp"
LAW("vectors and compensated numbers", RULE, 60000, 1500000) {
    switch (C.choice(2)) {
        case 0: return history<hub::Vec3<double>, 5>(C);
        case 1: return history<hub::Kahan<double>, 16>(C);
        default: return history<hub::Kahan<double>, 3>(C);
    }
}
