"""C28 and C40: typestate of fallible results and lookup results over the whole program"""
from flow import Flow
from program import rel
from extract import Broken
import kinds

OWN = ('nebula::StatusOr::', 'nebula::EitherOr::', 'nebula::Status::')
WITNESS = ('datatypes.cpp', 'lru.cpp', 'pool.cpp', 'either.cpp', 'schema.cpp', 'sampling.cpp', 'thread.cpp', 'slowop.cpp')
FREE = ('nebula::ok', 'nebula::value', 'nebula::error', 'nebula::hasValue')


def run(c, P, which, accept=None):
    F = Flow(P, [kinds.StatusOr(), kinds.Status(), kinds.Either(), kinds.Try(), kinds.Iter()])
    own = lambda f: f.qs.startswith(OWN) or f.qs in FREE
    fns = [f for f in P.funcs.values() if not f.lambda_ and f.body is not None and not own(f) and '/src/common/' in f.file]
    takes = lambda f: any(F.kind_of(p['t'].p if p['t'].strip_ref().k == 'ptr' else p['t']) is not None for p in f.params)
    for f in [f for f in fns if not takes(f)]:
        F.run(f)
    for f in [f for f in fns if takes(f) and f.key not in F.inlined]:
        F.run(f)
    lams = [f for f in P.funcs.values() if f.lambda_ and f.body is not None and '/src/common/' in f.file]
    late = 0
    for f in lams:
        if f.key not in F.analysed:
            late += 1
            F.run(f)
    n = 0
    for k in sorted(F.uses, key=str):
        q, file, line, what, kind = k
        if kind not in which:
            continue
        ok, msg = F.uses[k]
        if not ok and accept is not None and accept(k):
            continue
        n += 1
        c.ob('use', '%s|%s' % (q, what), ok, 'in %s: %s' % (q, msg), '%s:%d' % (file, line))
    if F.gaveup:
        raise Broken('not analysed: ' + '; '.join('%s (%s)' % x for x in sorted(F.gaveup.items())[:5]))
    for f in fns:
        c.functions.add(f.q)
    c.paths = F.paths
    c.notes.append('%d functions and %d lambda bodies analysed (%d of these on their own), %d helpers analysed at their calls' % (len(fns), len(lams), late, len(F.inlined)))
    return F
