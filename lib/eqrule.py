"""Field-wise decision of hand-written equality, ordering and reset members."""
from rules import *

UP = ('std::unique_ptr', 'std::shared_ptr')


def ptr_target(t):
    return t.targs[0] if t.targs else None


def eq_hook(self_keys):
    """nested operator== / operator!= are atoms over the compared objects"""
    def h(I, st, fr, n, loc, av):
        if n.get('fn') in self_keys and not fr_is_nested(I):
            return None
        a = ('ref', loc) if loc is not None else av[0]
        b = av[-1]
        t = None
        for pt in (n.get('pt') or []):
            t = pt.strip_ref() if pt is not None else None
        x, y = I.argval(st, a), I.argval(st, b)
        if x[0] == 'n' and y[0] == 'n':
            return None
        c0 = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
        if c0 in UP or (t is not None and t.k in ('ptr', 'nullptr', 'int', 'bool', 'enum')):
            return None
        r = N1 if x == y else ('eqv',) + tuple(sorted((x, y), key=repr))
        return I.ok(st, r if n['n'] == 'operator==' else mk_not(r))
    return h


def fr_is_nested(I):
    return len(I.stack) > 1


def known_equal(I, st, t, la, lb):
    """True / False / None: are the objects of type t at la and lb known equal"""
    if t.k == 'rec':
        cls = strip_targs(t.base)
        if cls in UP:
            a, b = I.load(st, la, t), I.load(st, lb, t)
            d = I.decide(st, cmp_term('==', a, b))
            if d is True:
                return True
            za, zb = I.decide(st, cmp_term('==', a, N0)), I.decide(st, cmp_term('==', b, N0))
            if za is True and zb is True:
                return True
            if (za is True and zb is False) or (za is False and zb is True):
                return False
            if za is False and zb is False:
                return known_equal(I, st, ptr_target(t), I.deref(st, a), I.deref(st, b))
            return None
        a, b = I.load(st, la), I.load(st, lb)
        if a == b:
            return True
        return st.bools.get(('eqv',) + tuple(sorted((a, b), key=repr)))
    a, b = I.load(st, la, t), I.load(st, lb, t)
    if a == b:
        return True
    if t.k == 'float':
        for k, v in st.bools.items():
            if k[0] == 'fcmp' and {k[2], k[3]} == {a, b}:
                if k[1] == '==':
                    return v
                if k[1] == '!=':
                    return not v
        return None
    return I.decide(st, cmp_term('==', a, b))


def all_fields(P, cls):
    out = []
    r = P.recs.get(cls)
    if r is None or not r.known:
        raise Broken('class %s not found' % cls)
    for b in r.bases:
        if b is not None and b.k == 'rec' and b.rec in P.recs and P.recs[b.rec].known:
            out += all_fields(P, b.rec)
    return out + [f for f in r.fields if not f.get('static')]


def check_equality(c, P, fn, rule, cls=None, ignore=(), fieldlist=None):
    """operator== is true iff every field is equal to its counterpart"""
    cls = cls or fn.cls or fn.params[0]['t'].strip_ref().rec
    I = c.interp(P)
    h = eq_hook({fn.key})
    I.hooks['*::operator=='] = h
    I.hooks['*::operator!='] = h
    outs = I.analyse(fn)
    if fn.cls:
        A, B = THIS, (('arg', fn.params[0]['n']),)
    else:
        A, B = (('arg', fn.params[0]['n']),), (('arg', fn.params[1]['n']),)
    fl = fieldlist or [f for f in all_fields(P, cls) if f['id'] not in ignore]
    name = cls.rsplit('::', 1)[-1]
    ne = fn.n == 'operator!='
    t = f = 0
    miss = set()
    for st, k, v in outs:
        if k != 'v':
            c.ob(rule, '%s compares' % name, False, 'comparing two %s objects ends by %s' % (name, k), fn.where())
            continue
        for s, b in truth(I, st, ret(I, st, v)):
            same_obj = I.decide(s, cmp_term('==', I.addr(A), I.addr(B))) if False else None
            if b != ne:
                t += 1
                for x in fl:
                    if known_equal(I, s, x['t'], A + (('.', x['id']),), B + (('.', x['id']),)) is not True:
                        miss.add(x['id'])
            else:
                f += 1
                diff = [x['id'] for x in fl if known_equal(I, s, x['t'], A + (('.', x['id']),), B + (('.', x['id']),)) is False]
                c.ob(rule, '%s: unequal only if a field differs' % name, bool(diff), 'two %s objects can be reported unequal although no field is known to differ (%s)' % (name, facts(s)), fn.where(),
                     key='%s|%s reported unequal without a differing field' % (rule, name))
    for x in fl:
        c.ob(rule, '%s.%s decides equality' % (name, x['id']), x['id'] not in miss, 'two %s objects that differ in "%s" can be reported equal' % (name, x['id']), fn.where())
    c.ob(rule, '%s: both answers possible' % name, t > 0 and f > 0, 'comparison of %s always gives the same answer' % name, fn.where())
    return I


EMPTYING = ('::clear',)


def is_default(I, P, v, want, t):
    if v == want:
        return True
    cls = strip_targs(t.base) if t.k == 'rec' else ''
    if cls in UP:
        return v == N0
    if t.k == 'rec':
        return emptyish(v) and emptyish(want)
    return v[0] == 'n' and want[0] == 'n' and v[1] == want[1]


def emptyish(v):
    if v[0] == 'app':
        nm = v[1]
        if nm.startswith('mut:') and nm.endswith('::clear'):
            return True
        if nm.startswith('mut:') and nm.endswith('::resize') and len(v) == 4 and v[3] == N0:
            return True
        if nm.startswith('mut:') and nm.endswith('::assign') and len(v) == 4 and v[3] == ('str', ''):
            return True
        if nm.startswith('ctor:') and len(v) == 2:
            return True
        if nm.startswith('agginit:') and len(v) == 2:
            return True
        if nm.startswith('mut:') and nm.endswith('::operator=') and len(v) == 4:
            return v[3] == ('str', '') or emptyish(v[3]) or v[3] == ('initlist',)
        return False
    return v == ('str', '') or v[0] == 'zero' or v == ('initlist',)


def default_of(I, P, x):
    """the value a default member initialiser gives to field x"""
    fr = Frame(next(iter(P.funcs.values())), 0, 0, THIS)
    st = State()
    loc = (('t', 'dflt'),)
    if x.get('init') is None:
        if x['t'].k == 'rec':
            return ('app', 'ctor:' + strip_targs(x['t'].base))
        return None
    outs = I.into(st, fr, x['init'], loc)
    return I.load(outs[0][0], loc, x['t'])


def check_reset(c, P, fn, rule, ignore=()):
    cls = fn.cls
    name = cls.rsplit('::', 1)[-1]
    I = c.interp(P)
    outs = I.analyse(fn)
    for x in all_fields(P, cls):
        if x['id'] in ignore:
            continue
        want = default_of(I, P, x)
        for st, k, v in outs:
            if k != 'v':
                c.ob(rule, '%s::%s returns' % (name, fn.n), False, 'clearing ends by %s' % k, fn.where())
                continue
            got = I.load(st, THIS + (('.', x['id']),), x['t'])
            ok = want is not None and is_default(I, P, got, want, x['t'])
            if want is None and x['t'].k != 'rec':
                ok = got[0] == 'n'
            c.ob(rule, '%s::%s resets %s' % (name, fn.n, x['id']), ok, '%s::%s leaves "%s" at %s instead of its default' % (name, fn.n, x['id'], show(got)), fn.where())
