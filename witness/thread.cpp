#include "common/base/Base.h"
#include "common/thread/NamedThread.h"
// uses of the constructor template: a plain function, a callable with state, bound arguments
namespace witness {
void plain();
void two(int a, const std::string &b);
struct Callable { int x; void operator()(int) const; };
void use() {
    nebula::thread::NamedThread a("name", plain);
    std::string s("dyn");
    nebula::thread::NamedThread b(s, two, 1, s);
    nebula::thread::NamedThread c(s, Callable(), 3);
    nebula::thread::NamedThread::Nominator n(s);
}
}   // namespace witness
