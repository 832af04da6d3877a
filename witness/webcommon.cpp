#include "common/base/Base.h"
#include "common/webservice/Common.h"
namespace witness {
std::string text(nebula::HttpStatusCode c) { return nebula::WebServiceUtils::toString(c); }
int32_t number(nebula::HttpStatusCode c) { return nebula::WebServiceUtils::to(c); }
}   // namespace witness
