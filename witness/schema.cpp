#include "common/base/Base.h"
#include "common/meta/NebulaSchemaProvider.h"

namespace witness {

bool use(const nebula::meta::SchemaProviderIf& s) {
    auto it = s.begin();
    ++it;
    it + static_cast<uint16_t>(2);
    return static_cast<bool>(it) && (*it).nullable() && it->nullable() && it == s.end();
}

}   // namespace witness
