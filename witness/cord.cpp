#include "common/base/Base.h"
#include "common/base/Cord.h"
#include "common/base/ICord.h"
template class nebula::ICord<1024>;
template class nebula::ICord<8>;
void witnessCord() {
    nebula::Cord plain, sized(64);
    nebula::ICord<1024> inl;
    plain << "x";
}
