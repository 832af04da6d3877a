#include "common/base/Base.h"
#include "common/algorithm/ReservoirSampling.h"
namespace witness {
struct Item { Item(); Item(Item&&); Item& operator=(Item&&); ~Item(); std::string s; };
bool useSampling(nebula::algorithm::ReservoirSampling<Item>& r, Item it) {
    nebula::algorithm::ReservoirSampling<Item> x(5);
    bool b = r.sampling(std::move(it));
    auto v = std::move(r).samples();
    return b && v.empty();
}
}  // namespace witness
