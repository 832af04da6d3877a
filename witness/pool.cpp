#include "common/base/Base.h"
#include "common/base/ObjectPool.h"
#include "common/expression/Expression.h"
namespace witness {
struct One { One(); One(int, const int&); ~One(); int x; };
struct Two { Two(); virtual ~Two(); int x; };
struct Three : Two { Three(); ~Three() override; int y; };
struct Plain { int x; double y; };
struct Hidden { Hidden(int); ~Hidden(); void* operator new(size_t); void operator delete(void*); std::string s; };
void usePool(nebula::ObjectPool& pool, One* a, Two* b, Three* c, Plain* d, nebula::Expression* e, Hidden* h) {
    pool.add(a);
    pool.add(b);
    pool.add(c);
    pool.add(d);
    pool.add(e);
    pool.add(h);
    int i = 0;
    pool.makeAndAdd<One>();
    pool.makeAndAdd<One>(1, i);
    pool.makeAndAdd<Two>();
    pool.makeAndAdd<Three>();
    pool.makeAndAdd<Plain>();
    pool.makeAndAdd<Hidden>(3);
    pool.clear();
    (void)pool.empty();
    nebula::ObjectPool local;
}
}  // namespace witness
