#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
namespace witness {
// Key and value types whose every copy, move and comparison is a call the analysis sees
struct Key {
    Key(const Key&); Key(Key&&) noexcept; Key& operator=(const Key&); Key& operator=(Key&&) noexcept; ~Key();
    bool operator==(const Key&) const;
    bool operator!=(const Key&) const;
    int x;
};
struct Val {
    Val(); Val(const Val&); Val(Val&&) noexcept; Val& operator=(const Val&); Val& operator=(Val&&) noexcept; ~Val();
    int x;
};
}  // namespace witness
namespace std {
template <> struct hash<witness::Key> { size_t operator()(const witness::Key&) const; };
}  // namespace std
template class nebula::ConcurrentLRUCache<witness::Key, witness::Val>;
template class nebula::LRU<witness::Key, witness::Val>;
