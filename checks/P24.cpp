//: flags -O1 -fsanitize=address,undefined -fno-sanitize-recover=all
//: harnessflags -O1
//: also P24_numbers.cpp P24_vectors.cpp
// P24: the small-size-optimised vector behaves like std::vector under any history of operations (run under ASan and UBSan)
#include "P24_model.hpp"
#include <cstdlib>
#include <new>
void* operator new(size_t n) { ++Blocks::by_new(); return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --Blocks::by_new(); std::free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
LAW("objects", RULE "; live objects are counted and every use of a dead one is noticed", 100000, 3000000) {
    switch (C.choice(3)) {
        case 0: return history<std::string, 4>(C);
        case 1: return history<Tracked, 4>(C);
        case 2: return history<Tracked, 1>(C);
        default: return history<Tracked, 16>(C);
    }
}
