#include "common/base/Base.h"
#include "common/fs/TempDir.h"
#include "common/fs/TempFile.h"
namespace witness {
void use(const char *p, const char *n, bool k) {
    nebula::fs::TempDir a(p);
    nebula::fs::TempDir b(p, n, k);
    nebula::fs::TempFile f(p);
    (void)a.path();
    (void)f.path();
}
}   // namespace witness
