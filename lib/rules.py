"""Helpers shared by the rule scripts."""
from absint import *
from program import strip_targs, rel, walk
from extract import Broken

THIS = (('this',),)


def fld(name):
    return THIS + (('.', name),)


def where(ev):
    return '%s:%d' % (rel(ev.file), ev.line)


def fields(P, cls):
    r = P.recs.get(cls)
    if r is None or not r.known:
        raise Broken('class %s not found' % cls)
    return r.fields


def fields_of(P, cls, pred):
    return [f['id'] for f in fields(P, cls) if f['t'] is not None and pred(f['t'])]


def is_rec(*names):
    def f(t):
        return t.k == 'rec' and strip_targs(t.base) in names
    return f


def is_int(t):
    return (t.k == 'int' and t.w and t.w > 8) or (t.k == 'rec' and strip_targs(t.base) == 'std::atomic' and t.targs and getattr(t.targs[0], 'k', '') == 'int')


def is_atomic(t):
    return t.k == 'rec' and strip_targs(t.base).startswith('std::atomic')


MUTEX_T = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'folly::SpinLock', 'folly::RWSpinLock')


def one(xs, what):
    if len(xs) != 1:
        raise Broken('%s: expected one, found %d' % (what, len(xs)))
    return xs[0]


def facts(st):
    return ' && '.join([showlin(c) + '<=0' for c in st.cons[-6:]] + [showlin(c) + '!=0' for c in st.dis[-4:]]
                       + [('' if b else '!') + show(a) for a, b in list(st.bools.items())[-6:]]) or 'any state'


class Access:
    """records reads and writes of this->field together with the locks held"""

    def __init__(self, I, guarded, mutex):
        self.I = I
        self.guarded = set(guarded)
        self.mutex = mutex
        self.count = 0
        self.bad = {}
        self.fn = None
        I.on_read = self.r
        I.on_write = self.w

    def held(self, st, write):
        for mx, shared in st.ghost.get('locks', ()):
            if mx == self.mutex and not (shared and write):
                return True
        return False

    def chk(self, st, loc, node, write):
        if len(loc) >= 2 and loc[0] == ('this',) and loc[1][0] == '.' and loc[1][1] in self.guarded:
            self.count += 1
            if not self.held(st, write):
                self.bad.setdefault((self.fn.q if self.fn else '?', loc[1][1], 'written' if write else 'read'),
                                    '%s:%d' % (rel(self.fn.file), (node or {}).get('l', 0) or self.I.line))

    def r(self, I, st, loc, node):
        self.chk(st, loc, node, False)

    def w(self, I, st, loc, v, node):
        self.chk(st, loc, node, True)


def has_ev(st, name, pred=None):
    return any(e.name == name and (pred is None or pred(e)) for e in st.trace)


def truth(I, st, v):
    """[(state, bool)] splitting a returned value"""
    return I.split(st.copy(), I.boolify(v))


def ret(I, st, v):
    return I.load(st, v[1]) if v and v[0] == 'ref' else v


def vfield(I, st, v, sels):
    """a member of a record value (or of the object a reference names)"""
    return I.load(st, v[1] + sels) if v[0] == 'ref' else I._proj(v, sels, None)
