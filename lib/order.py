"""Deciding comparison operators over components taken as points of their own total orders."""
from rules import *

CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


def rank(x):
    """the place of a component value in its own order"""
    return ('app', 'rank', x)


def install(I, own=()):
    """comparisons of component objects become comparisons of their places; own: classes whose operators are followed"""
    def h(I, st, fr, n, loc, av):
        if n.get('n') not in CMP:
            return None
        fn = I.P.funcs.get(n.get('fn'))
        a = ('ref', loc) if loc is not None else av[0]
        b = av[-1]
        x, y = I.argval(st, a), I.argval(st, b)
        if fn is not None:
            c0 = fn.cls or (fn.params[0]['t'].strip_ref().rec if fn.params and fn.params[0]['t'].k in ('ref', 'rref') else None)
            if c0 in own:
                return None
        if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
            return tuple_cmp(I, st, CMP[n['n']], x[1], y[1])
        pt = [p.strip_ref() if p is not None and p.k in ('ref', 'rref') else p for p in (n.get('pt') or [])]
        if pt and pt[-1] is not None and pt[-1].k not in ('rec',):
            if not (pt[0] is not None and pt[0].k == 'rec'):
                return None
        return I.ok(st, cmp_term(CMP[n['n']], place(I, st, x), place(I, st, y)))
    for o in CMP:
        I.hooks['*::' + o] = h

    def conv(I, st, fr, n, loc, av):
        # temporaries made for a comparison are values of their source
        t = n.get('t')
        cls = strip_targs(t.base) if t is not None and t.k == 'rec' else '?'
        pt = [p.strip_ref() if p is not None and p.k in ('ref', 'rref') else p for p in (n.get('pt') or [])]
        if n.get('ck') in ('copy', 'move') and av or (len(av) == 1 and pt and pt[0].k == 'rec'):
            I.store(st, loc, I.argval(st, av[0]))
        else:
            I.store(st, loc, ('app', 'ctor:' + cls) + tuple(I.argval(st, a) for a in av))
        return I.ok(st, VOID)
    I.hooks['ctor:nebula::Value'] = conv
    I.hooks['dtor:*'] = lambda I, st, fr, loc, t: I.ok(st, VOID)

    def tie(I, st, fr, n, loc, av):
        return I.ok(st, ('tup', tuple(av)))
    for q in ('std::tie', 'std::make_tuple', 'std::forward_as_tuple', 'std::make_pair'):
        I.hooks[q] = tie

    def compare(I, st, fr, n, loc, av):
        if len(av) != 1:
            return None
        x, y = rank(I.argval(st, ('ref', loc))), rank(I.argval(st, av[0]))
        outs = []
        for s, lt in I.split(st.copy(), cmp_term('<', x, y)):
            if lt:
                outs.append((s, 'v', num(-1)))
            else:
                for s2, eq in I.split(s, cmp_term('==', x, y)):
                    outs.append((s2, 'v', N0 if eq else N1))
        return outs
    I.hooks['std::basic_string::compare'] = compare
    I.hooks['folly::Range::compare'] = compare

    def size(I, st, fr, n, loc, av):
        if loc is None or av:
            return None
        v = ('app', 'size', I.load(st, loc))
        I.bounds[v] = (0, (1 << 62))
        return I.ok(st, v)
    I.hooks['*::size'] = size


def place(I, st, x):
    return x if x[0] == 'n' else rank(x)


def term(I, st, a):
    v = I.argval(st, a) if a[0] == 'ref' else a
    return v


def tuple_cmp(I, st, op, xs, ys):
    """lexicographic comparison of two tuples as one term"""
    def leaf(a):
        v = term(I, st, a)
        t = I.ref_type.get(a) if hasattr(I, 'ref_type') else None
        return v
    pairs = [(leaf(a), leaf(b)) for a, b in zip(xs, ys)]
    pairs = [(x, y) if is_scalar(I, x) and is_scalar(I, y) else (rank(x), rank(y)) for x, y in pairs]
    outs = []

    def go(st, rest):
        if not rest:
            outs.append((st, 'v', N1 if op in ('==', '<=', '>=') else N0))
            return
        (x, y), rest = rest[0], rest[1:]
        for s, e in I.split(st, cmp_term('==', x, y)):
            if e:
                go(s, rest)
            elif op in ('==', '!='):
                outs.append((s, 'v', N1 if op == '!=' else N0))
            else:
                for s2, b in I.split(s, cmp_term(op[0], x, y)):
                    outs.append((s2, 'v', N1 if b else N0))
    go(st.copy(), pairs)
    return outs


def is_scalar(I, v):
    return v in I.scalars if hasattr(I, 'scalars') else False


def comp(P, I, st, loc, f, kind='auto'):
    """the term of component f (a field record) of the object at loc"""
    l = loc + tuple(f['path']) if 'path' in f else loc + (('.', f['id']),)
    t = f['t']
    v = I.load(st, l, t)
    if kind == 'size':
        v = ('app', 'size', I.load(st, l))
        I.bounds[v] = (0, (1 << 62))
        return v
    if t.k == 'rec':
        return rank(v)
    if not hasattr(I, 'scalars'):
        I.scalars = set()
    I.scalars.add(v)
    if v[0] != 'n':
        if f.get('bits'):
            b = f['bits']
            I.bounds[v] = (0, (1 << b) - 1) if t.u else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        I.typed(v, t)
    return v


def flat_fields(P, cls, pre=()):
    """fields in declaration order; of anonymous unions the first member that is not the whole word"""
    out = []
    r = P.recs.get(cls)
    if r is None or not r.known:
        raise Broken('class %s not found' % cls)
    for x in r.fields:
        if x.get('static'):
            continue
        if x['id'].startswith('anon') or not x.get('n', x['id']):
            sub = P.recs.get(x['t'].rec or x['t'].base)
            if sub is None:
                raise Broken('anonymous member of %s' % cls)
            out += flat_fields(P, x['t'].rec or x['t'].base, pre + (('.', x['id']),))
            if r.union:
                break       # the other members of an anonymous union are views of the same storage
        else:
            out.append(dict(x, path=pre + (('.', x['id']),)))
        if r.union and out:
            break
    return out


def word(I, st, P, cls, loc):
    return ('app', 'word') + tuple(I.load(st, loc + x['path'], x['t']) for x in flat_fields(P, cls))


def view_hook(P, cls):
    """loads of another member of an anonymous union are a function of its fields"""
    fl = flat_fields(P, cls)
    heads = {x['path'][0] for x in fl if len(x['path']) > 1}
    known = {x['path'] for x in fl}
    inner = {x['path'][:i] for x in fl for i in range(1, len(x['path']) + 1)}

    def h(I, st, loc, t):
        i = len(loc) - 2
        if i >= 1 and loc[i] in heads and loc[i - 1] not in heads and loc[i:] not in inner:
            return word(I, st, P, cls, loc[:i])
        return None
    return h


def cases(c, P, fn, rule, label, case_list, own=(), prep=None, words=None):
    """case_list: [(text, [(op, termA(I, st), termB(I, st))], expected bool or None)]"""
    for text, assume, want in case_list:
        I = c.interp(P)
        I.exact_casts = I.exact_arith = True
        install(I, own)
        if prep:
            prep(I)
        st = State()
        ok = True
        for op, a, b in assume:
            x, y = a(I, st), b(I, st)
            ok = I.assume(st, cmp_term(op, x, y)) and ok
            if op == '==' and x[0] == 'app' and x[1] == 'rank' and y[0] == 'app' and y[1] == 'rank':
                sz = [('app', 'size', v[2]) for v in (x, y)]
                for v in sz:
                    I.bounds[v] = (0, 1 << 62)
                I.assume(st, cmp_term('==', *sz))
        if not ok:
            continue
        if words:
            # two views of whole storage are equal iff everything in it is
            a, b = words(I, st)
            I.assume(st, cmp_term('==' if all(o[0] == '==' for o in assume) else '!=', a, b))
        outs = I.analyse(fn, state=st)
        bad = set()
        for s, k, v in outs:
            if k != 'v':
                bad.add('ends by %s' % k)
                continue
            if want is None:
                continue
            for s2, b in truth(I, s, ret(I, s, v)):
                if b != want:
                    bad.add('is %s' % str(b).lower())
        c.ob(rule, '%s: %s' % (label, text), bool(outs) and not bad, '%s %s although %s' % (label, ' and '.join(sorted(bad)) or 'has no outcome', text), fn.where())
