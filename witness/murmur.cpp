#include "common/base/Base.h"
#include "common/base/MurmurHash2.h"
namespace witness {
size_t useMurmur(const nebula::MurmurHash2& h, const std::string& s, const char* a, const signed char* b, const unsigned char* c, size_t n,
                 std::shared_ptr<int> sp, std::unique_ptr<int> up, std::thread::id id, int* ip, int8_t i8, uint64_t u64, bool bb) {
    const char lit[] = "abc";
    return h(s) + h(a) + h(a, n) + h(b, n) + h(c, n) + h(lit) + h("abcdefghij") + h(sp) + h(up) + h(id) + h(ip) + h(i8) + h(u64) + h(bb);
}
}  // namespace witness
