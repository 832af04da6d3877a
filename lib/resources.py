"""C27: operating-system handles as typestate objects (flow.py kind 'res').

A handle value is ('rs', id, sort); the environment keeps ('res', id) -> states
out of H (held), N (obtaining it failed), R (released), G (a guard releases it).
Copies of the handle share the id."""
from flow import Flow, Env, Kind, Frame
from program import strip_targs, rel, walk
from extract import Broken

# sort: failure value, releasing calls, may a failed one be used / released
SORTS = {
    'descriptor': ('neg', ('close',), True),
    'directory stream': ('null', ('closedir',), False),
    'file stream': ('null', ('fclose',), False),
    'process stream': ('null', ('pclose',), False),
    'buffer': ('null', ('free',), False),
    'interface list': ('null', ('freeifaddrs',), False),
    'address list': ('null', ('freeaddrinfo',), False),
    'library': ('null', ('dlclose',), False),
    'event base': ('null', ('event_base_free',), False),
    'event': ('null', ('event_free',), False),
}
ACQ = {
    'open': 'descriptor', 'open64': 'descriptor', 'openat': 'descriptor', 'creat': 'descriptor', 'socket': 'descriptor', 'accept': 'descriptor', 'accept4': 'descriptor', 'dup': 'descriptor',
    'eventfd': 'descriptor', 'epoll_create': 'descriptor', 'epoll_create1': 'descriptor', 'mkstemp': 'descriptor', 'mkostemp': 'descriptor', 'timerfd_create': 'descriptor', 'inotify_init': 'descriptor',
    'signalfd': 'descriptor', 'memfd_create': 'descriptor',
    'opendir': 'directory stream', 'fopen': 'file stream', 'fopen64': 'file stream', 'tmpfile': 'file stream', 'popen': 'process stream',
    'realpath': 'buffer', 'strdup': 'buffer', 'strndup': 'buffer', 'getcwd': 'buffer', 'get_current_dir_name': 'buffer',
    'dlopen': 'library', 'event_base_new': 'event base', 'event_new': 'event',
}
ADOPT = {'fdopen': ('descriptor', 'file stream'), 'fdopendir': ('descriptor', 'directory stream')}
OUTPAR = {'getifaddrs': (0, 'interface list'), 'getaddrinfo': (3, 'address list')}
NULLOK = ('free',)
REL = {}
for _s, (_f, _r, _u) in SORTS.items():
    for _x in _r:
        REL.setdefault(_x, []).append(_s)
BORROW_N = ('free', 'close')


class Res(Kind):
    name = 'res'

    def __init__(self):
        self.cls = None           # class mode: places of this object keep their handles
        self.direct = None
        self.extra = ()

    def state(self, e, rid):
        v = e.get(('res', rid))
        return v[1] if v is not None else None

    def put(self, e, rid, st):
        return e.set(('res', rid), ('rst', frozenset(st)))

    def rs(self, F, e, v):
        w = F.rv(e, v)
        return w if w is not None and w[0] == 'rs' else None

    # -------------------------------------------------------------- obtaining
    def fresh_id(self, F, n, sort):
        return (rel(F.cur.fn.file), n.get('l') or 0, n.get('n') or '', F.cur.ns)

    def got(self, F, e, n, sort):
        rid = self.fresh_id(F, n, sort)
        F.acq[rid] = (n, sort, F.cur.fn)
        old = self.state(e, rid)
        if old is not None and 'H' in old and not self.placed(e, rid):
            self.leak(F, e, rid, 'is obtained again while the previous one is still held')
        F.use(n, self.what(F, rid), True, '', 'res')
        return e, rid

    def placed(self, e, rid):
        return False

    def what(self, F, rid):
        n, sort, fn = F.acq[rid]
        return 'the %s from %s()' % (sort, n.get('n'))

    def leak(self, F, e, rid, how):
        n, sort, fn = F.acq[rid]
        cur = F.cur
        F.cur = Frame(fn, fn.key, None)
        F.use(n, self.what(F, rid), False, '%s %s' % (self.what(F, rid), how), 'res')
        F.cur = cur

    def call(self, F, e, n, q, obj, args):
        if q in ACQ and n.get('obj') is None:
            sort = ACQ[q]
            if q == 'realpath' and not (len(args) > 1 and args[1] is not None and args[1][0] == 'null'):
                return None
            if q == 'getcwd' and not (args and args[0] is not None and args[0][0] == 'null'):
                return None
            outs = F.call(e, n, q, obj, args)
            res = []
            for x, _ in outs:
                x, rid = self.got(F, x, n, sort)
                x = F.kill(x, ('res', rid))
                res.append((self.put(x, rid, 'HN'), ('rs', rid, sort)))
            return res
        if q in OUTPAR:
            i, sort = OUTPAR[q]
            a = args[i] if len(args) > i else None
            place = a[1] if a is not None and a[0] == 'addr' else None
            if place is None:
                return None
            x, rid = self.got(F, e, n, sort)
            x = F.kill(x, place)
            good = F.store(self.put(x, rid, 'H'), place, ('rs', rid, sort))
            bad = x
            return [(good, ('n', 0)), (bad, ('n', -1))]
        if q in ADOPT:
            a = self.rs(F, e, args[0] if args else None)
            frm, sort = ADOPT[q]
            if a is None:
                x, rid = self.got(F, e, n, sort)
                return [(self.put(x, rid, 'HN'), ('rs', rid, sort))]
            self.used(F, e, n, q, a)
            x, rid = self.got(F, e, n, sort)
            good = self.put(self.put(x, rid, 'H'), a[1], 'G')
            bad = self.put(x, rid, 'N')
            return [(good, ('rs', rid, sort)), (bad, ('rs', rid, sort))]
        if q in REL and n.get('obj') is None and args:
            a = self.rs(F, e, args[0])
            if a is None:
                return None
            st = self.state(e, a[1])
            if st is None:
                return None
            w = self.what(F, a[1]) if a[1] in F.acq else 'the %s' % a[2]
            if q not in SORTS[a[2]][1]:
                F.use(n, w, False, '%s is released by %s()' % (w, q), 'res')
            elif 'R' in st or 'G' in st:
                F.use(n, 'release of ' + w, False, '%s may already have been released' % w, 'res')
            elif 'N' in st and q not in NULLOK and not SORTS[a[2]][2]:
                F.use(n, 'release of ' + w, False, '%s is released where obtaining it may have failed' % w, 'res')
            else:
                F.use(n, 'release of ' + w, True, '', 'res')
            return [(self.put(e, a[1], 'R'), None)]
        pt = n.get('pt') or []
        for i, v in enumerate(args):
            a = self.rs(F, e, v)
            if i < len(pt) and pt[i].k in ('ref', 'rref'):
                continue                     # the place is handed over, the value is not used here
            if a is not None and not self.inlines(F, n, e, obj, args):
                self.used(F, e, n, q, a)
        return None

    def inlines(self, F, n, e, obj, args):
        fn = F.P.funcs.get(n.get('fn'))
        return fn is not None and fn.body is not None

    def used(self, F, e, n, q, a):
        st = self.state(e, a[1])
        if st is None:
            return
        w = self.what(F, a[1]) if a[1] in F.acq else 'the %s' % a[2]
        ok, msg = True, ''
        if 'R' in st:
            ok, msg = False, '%s is used (%s) after it may have been released' % (w, q)
        elif 'N' in st and not SORTS[a[2]][2]:
            ok, msg = False, '%s is used (%s) where obtaining it may have failed' % (w, q)
        F.use(n, 'use of ' + w, ok, msg, 'res')

    # -------------------------------------------------------------- tests
    def compare(self, F, e, x, op, y):
        st = self.state(e, x[1])
        if st is None or y is None:
            return None
        fail = SORTS[x[2]][0]
        if fail == 'null' and (y[0] == 'null' or y == ('n', 0)) and op in ('==', '!='):
            t = {'N': op == '==', 'H': op == '!=', 'R': op == '!=', 'G': op == '!='}
        elif fail == 'neg' and y[0] == 'n' and y[1] == -1 and op in ('==', '!=', '>', '<='):
            t = dict.fromkeys('HRG', op in ('!=', '>'))
            t['N'] = not t['H']
        elif fail == 'neg' and y[0] == 'n' and y[1] == 0 and op in ('<', '>='):
            t = dict.fromkeys('HRG', op == '>=')
            t['N'] = not t['H']
        elif fail == 'neg' and y[0] == 'n' and y[1] == 0 and op in ('>', '<='):
            out = []
            for b in (True, False):
                s = st - {'N'} if b == (op == '>') else st
                if s:
                    out.append((self.put(e, x[1], s), ('b', b)))
            return out
        else:
            return None
        out = []
        for b in (True, False):
            s = {k for k in st if t[k] == b}
            if s:
                out.append((self.put(e, x[1], s), ('b', b)))
        return out

    # -------------------------------------------------------------- ownership
    def stored(self, F, e, p, v):
        local = len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'v'
        if local:
            return e
        if self.cls is not None and len(p) == 2 and p[0][0] == 'this' and p[1][0] == '.':
            old = e.get(p)
            if old is not None and old[0] == 'rs' and old[1] != v[1]:
                st = self.state(e, old[1])
                if st is not None and 'H' in st:
                    if old[1] in F.acq:
                        self.leak(F, e, old[1], 'may be overwritten while it is held')
                    else:
                        n = F.acq[v[1]][0] if v[1] in F.acq else {'l': 0}
                        F.use(n, 'what %s held before' % p[1][1], False, 'the %s kept in %s may be overwritten while it is held' % (old[2], p[1][1]), 'res')
                e = e.set(('res', old[1]), None)
            return e
        return e.set(('res', v[1]), None)       # now owned by that object

    def deferred(self, F, env, outs):
        """a callback is made: what it releases is released later"""
        d = dict(env.d)
        for e2, _ in outs:
            for k, v in e2.d.items():
                if k[0] == 'res' and k in d and d[k] != v and 'R' in v[1]:
                    if 'R' in d[k][1] or 'G' in d[k][1]:
                        continue
                    d[k] = ('rst', frozenset('G'))
            for k in list(d):
                if k[0] not in ('res', 'dead') and d[k] != e2.d.get(k) and d[k][0] not in ('rs', 'lam'):
                    d.pop(k)
        return Env(d)

    def into(self, F, e, n, vs):
        c = strip_targs((n.get('t') and n['t'].strip_ref().base) or '')
        if c in ('std::unique_ptr', 'std::shared_ptr'):
            for v in vs:
                a = self.rs(F, e, v)
                if a is not None and self.state(e, a[1]) is not None:
                    e = self.put(e, a[1], (self.state(e, a[1]) - {'H'}) | {'G'})
        return e

    def wants(self, F, fn, e, obj, av):
        if '/src/common/' not in fn.file:
            return False
        if any(self.rs(F, e, v) is not None or (v is not None and v[0] == 'addr' and self.rs(F, e, ('pl', v[1])) is not None) for v in av):
            return True
        if fn.key in self.extra and fn.ret is not None and fn.ret.k in ('int', 'ptr'):
            return True
        if self.cls is not None and fn.cls == self.cls and obj is not None and obj[1:] and obj[1] == F.cur.this and fn.key in self.touch:
            return True
        return False

    def leaving(self, F, e, v, n):
        """a function is left: what is still held and not handed on is lost"""
        a = self.rs(F, e, v) if v is not None else None
        kept = {w[1] for k, w in e.d.items() if w[0] == 'rs' and k[:1] and isinstance(k[0], tuple) and k[0][0] == 'this'} if self.cls is not None else set()
        for k, w in e.d.items():
            if k[0] == 'res' and 'H' in w[1] and (a is None or a[1] != k[1]) and k[1] not in kept and k[1] in F.acq:
                self.leak(F, e, k[1], 'may still be held when %s returns' % F.cur.fn.n if F.cur is not None else 'may be lost')
            elif k[0] == 'res' and 'H' in w[1] and (a is None or a[1] != k[1]) and k[1] not in kept and k[1][0] == 'member' and self.cls is not None and F.cur is not None:
                F.use({'l': F.cur.fn.line}, 'what %s held' % k[1][1], False, 'the handle kept in %s may be dropped while it is held' % k[1][1], 'res')


def strip(n):
    while n is not None and n.get('k') in ('Full', 'Cast', 'Bind', 'Mat') and n.get('e') is not None:
        n = n['e']
    return n


def acq_sort(n):
    n = strip(n)
    if n is not None and n.get('k') == 'Call' and n.get('obj') is None:
        return ACQ.get(strip_targs(n.get('q', '')))
    return None
