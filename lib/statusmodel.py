"""Status and StatusOr as values: a Status is ('app', 'status', name) with name
'OK' or the factory that made it; a StatusOr is ('app', 'sor', 'v') with its
value at the selector '$v', or ('app', 'sor', 's') with its status at '$s'."""
from absint import *
from program import strip_targs

T, F = N1, N0
V, S = ('.', '$v'), ('.', '$s')


def is_ok(v):
    """True / False / None for a Status value"""
    if v is not None and v[0] == 'agg':
        v = v[1]
    if v is not None and v[0] == 'app' and v[1] == 'status':
        return v[2] == 'OK'
    return None


class StatusModel:
    def __init__(self, I, P):
        self.I = I
        H = I.hooks
        for f in P.methods_of.get('nebula::Status', []):
            if f.d.get('static') and f.ret.k == 'rec' and f.ret.base == 'nebula::Status':
                H['nebula::Status::' + f.n] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', n['n']))
        H['ctor:nebula::Status'] = self.sctor
        H['dtor:nebula::Status'] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        H['nebula::Status::operator='] = self.sassign
        H['nebula::Status::ok'] = self.sok
        for m in ('toString', 'code'):
            H['nebula::Status::' + m] = lambda I, st, fr, n, loc, av: I.ok(st, I.fresh('text', n.get('t')))
        H['ctor:nebula::StatusOr'] = self.ctor
        H['dtor:nebula::StatusOr'] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        H['nebula::StatusOr::operator='] = self.assign
        H['nebula::StatusOr::ok'] = H['nebula::StatusOr::operator bool'] = self.ok
        H['nebula::StatusOr::value'] = self.value
        H['nebula::StatusOr::status'] = self.status

    def sctor(self, I, st, fr, n, loc, av):
        I.store(st, loc, self.val(st, av[0]) if av else ('app', 'status', 'OK'))
        return [(st, 'v', None)]

    def val(self, st, a):
        return self.I.load(st, a[1]) if a[0] == 'ref' else a

    def sassign(self, I, st, fr, n, loc, av):
        I.store(st, loc, self.val(st, av[0]))
        return I.ok(st, ('ref', loc))

    def sok(self, I, st, fr, n, loc, av):
        r = is_ok(I.load(st, loc))
        if r is None:
            return I.ok(st, ('app', 'isok', I.load(st, loc)))
        return I.ok(st, T if r else F)

    def argt(self, n, i=0):
        t = n['a'][i].get('t')
        t = t.strip_ref() if t is not None else None
        return strip_targs(t.base) if t is not None and t.k == 'rec' else ''

    def ctor(self, I, st, fr, n, loc, av):
        self.fill(st, n, loc, av)
        return [(st, 'v', None)]

    def fill(self, st, n, loc, av):
        I = self.I
        I.drop(st, loc)
        if not av:
            I.store(st, loc, ('app', 'sor', 's'))
            I.store(st, loc + (S,), ('app', 'status', 'none'))
            return
        v = self.val(st, av[0])
        b = self.argt(n)
        if b == 'nebula::StatusOr':
            I.store(st, loc, v)
        elif b == 'nebula::Status':
            I.store(st, loc, ('app', 'sor', 's'))
            I.store(st, loc + (S,), v)
        else:
            I.store(st, loc, ('app', 'sor', 'v'))
            I.store(st, loc + (V,), v)

    def assign(self, I, st, fr, n, loc, av):
        self.fill(st, n, loc, av)
        return I.ok(st, ('ref', loc))

    def tag(self, v):
        if v is not None and v[0] == 'agg':
            v = v[1]
        return v[2] if v is not None and v[0] == 'app' and v[1] == 'sor' else None

    def ok(self, I, st, fr, n, loc, av):
        t = self.tag(I.load(st, loc))
        if t is None:
            return I.ok(st, ('app', 'isok', I.load(st, loc)))
        return I.ok(st, T if t == 'v' else F)

    def value(self, I, st, fr, n, loc, av):
        if self.tag(I.load(st, loc)) == 's':
            return [(st, 'abort', None)]
        return I.ok(st, ('ref', loc + (V,)))

    def status(self, I, st, fr, n, loc, av):
        if self.tag(I.load(st, loc)) == 'v':
            return [(st, 'abort', None)]
        return I.ok(st, ('ref', loc + (S,)))

    def outcome(self, st, v):
        """('v', value-projection function) or ('s', status) of a returned StatusOr"""
        I = self.I
        if v[0] == 'ref':
            v = I.load(st, v[1])
        t = self.tag(v)
        if t == 'v':
            return 'v', lambda *sels: I._proj(v, (V,) + sels, None)
        if t == 's':
            return 's', I._proj(v, (S,), None)
        return None, None
