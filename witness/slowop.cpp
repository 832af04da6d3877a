#include "common/base/Base.h"
#include "common/base/SlowOpTracker.h"
namespace witness {
bool use(const std::string &p, const std::string &m) {
    nebula::SlowOpTracker t;
    bool r = t.slow(3);
    t.output(p, m);
    return r;
}
}   // namespace witness
