#include "common/base/Base.h"
#include "common/thread/GenericThreadPool.h"
// uses of the task templates: tasks with and without result, with and without arguments
namespace witness {
struct Job { void operator()() const; };
struct Calc { int operator()(int) const; };
template <typename T> void all(T &t) {
    (void)t.addTask(Job());
    (void)t.addTask(Calc(), 3);
    (void)t.addDelayTask(10, Job());
    (void)t.addDelayTask(20, Calc(), 4);
    t.addRepeatTask(30, Job());
}
void use(nebula::thread::GenericWorker &w, nebula::thread::GenericThreadPool &p) {
    all(w);
    all(p);
}
}   // namespace witness
