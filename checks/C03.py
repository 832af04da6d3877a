import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from valmodel import Model, tags, put, names, V

RULE = ('Abstract interpretation of the arithmetic operators of dynamic values with both operands integers whose 64-bit contents are unknown: native signed additions, subtractions, negations and multiplications must be proved '
        'to fit (linear arithmetic over the path condition), overflow-tested builtins split into an exact and an overflowed case, native divisions must be proved to have a divisor other than zero and not to be the minimum by -1. '
        'Each outcome must be the exact result, or the overflow error on a path whose condition excludes a result that fits, or the division-by-zero error on a path whose divisor is zero.')
MIN, MAX = -(1 << 63), (1 << 63) - 1
OPS = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator%': '%'}


def exact(op, a, b):
    if op == '+':
        return vadd(a, b)
    if op == '-':
        return vadd(a, b, -1)
    return ('app', op) + (tuple(sorted((a, b), key=repr)) if op == '*' else (a, b))


def can(I, st, *ts):
    """may all of these hold here?"""
    s = st.copy()
    for t in ts:
        if not I.assume(s, t):
            return False
    return not lin.infeasible(s.cons)


def body(c):
    P = c.load(['datatypes/Value.cpp'], witness=['datatypes.cpp'])
    M = Model(c, P)
    TAGS = tags(c, P, M)
    NM = names(P, TAGS)
    MI = one([m for m, t in M.members.items() if t.k == 'int'], 'integer members')
    MF = one([m for m, t in M.members.items() if t.k == 'float'], 'floating members')
    MN = one([m for m in M.members if NM[m].startswith('null')], 'null members')
    en = {n: v for n, v in P.enums['nebula::NullType']['consts']}
    need = {k: [v for n, v in en.items() if k in n.replace('_', '').upper()] for k in ('OVERFLOW', 'DIVBYZERO')}
    OVER, ZERO = (one(need[k], k + ' errors') for k in ('OVERFLOW', 'DIVBYZERO'))
    glob = {}
    for q in P.globals:
        t = P.global_type(q)
        if t is not None and t.k == 'rec' and strip_targs(t.base) == V:
            ks = [n.get('v', n.get('c')) for n in walk(P.global_init(q) or {}) if n.get('dk') == 'enumc' and n.get('q', '').startswith('nebula::NullType')]
            if len(ks) == 1:
                glob[(('g', q),)] = ks[0]

    def nullof(I, st, x):
        if x[0] == 'ref' and x[1] in glob:
            return glob[x[1]]
        if vfield(I, st, x, (('.', M.tag),)) == TAGS[MN]:
            v = vfield(I, st, x, (('.', M.u), ('.', MN)))
            return v[1] if v[0] == 'n' else -1
        return None

    def run(f, op, ms):
        I = c.interp(P)
        I.exact_arith = I.exact_casts = True
        bad = []
        big = {}

        def over(I, st, fr, n, v):
            if not lin.infeasible(st.cons):
                bad.append('the native operation at %s:%d may overflow' % (rel(fr.fn.file), n.get('l', 0) if n else 0))
        I.on_overflow = over

        def div(I, st, fr, n, o, a, b):
            t = n.get('t')
            wh = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
            if t is not None and t.k == 'float':
                return
            if can(I, st, cmp_term('==', b, N0)):
                bad.append('the native %s at %s may have a zero divisor' % (o, wh))
            if can(I, st, cmp_term('==', b, num(-1)), cmp_term('<=', a, num(MIN))):
                bad.append('the native %s at %s may divide the smallest integer by -1' % (o, wh))
        I.div_check = div

        def builtin(o):
            def h(I, st, fr, n, loc, av):
                a, b = I.argval(st, av[0]), I.argval(st, av[1])
                dst = av[2]
                if dst[0] != 'ptr':
                    return None
                if o == '*' and a[0] != 'n' and b[0] != 'n':
                    r = exact('*', a, b)
                    s1, s2 = st.copy(), st
                    s1.ghost = dict(s1.ghost)
                    s1.ghost['over', r] = True
                    I.store(s1, dst[1], ('app', 'wrapped', r))
                    s2.ghost = dict(s2.ghost)
                    s2.ghost['over', r] = False
                    I.typed(r, T64)
                    I.store(s2, dst[1], r)
                    return [(s1, 'v', N1), (s2, 'v', N0)]
                r = vmul(a, b) if o == '*' else exact(o, a, b)
                outs = []
                for s, fits in I.split(st, cmp_term('<=', r, num(MAX))):
                    for s2, f2 in (I.split(s, cmp_term('>=', r, num(MIN))) if fits else [(s, False)]):
                        I.store(s2, dst[1], r if f2 else ('app', 'wrapped', r))
                        outs.append((s2, 'v', N0 if f2 else N1))
                return outs
            return h
        for nm, o in (('add', '+'), ('sub', '-'), ('mul', '*')):
            for suf in ('', 'l', 'll'):
                I.hooks['__builtin_%s%s_overflow' % ('s' if suf else '', nm + suf if not suf else nm + suf)] = builtin(o)

        def vctor(I, st, fr, n, loc, av):
            # copies of values keep what they hold
            if n.get('ck') in ('copy', 'move') and av and av[0][0] == 'ref':
                src = av[0][1]
                if src in glob:
                    put(I, st, M, loc, MN, TAGS[MN], 'copied null', num(glob[src]))
                    return I.ok(st, VOID)
                for m, t in TAGS.items():
                    if I.load(st, src + (('.', M.tag),)) == t:
                        v = None
                        if m is not None:
                            v = I.load(st, src + (('.', M.u), ('.', m)), M.members[m])
                        put(I, st, M, loc, m, t, 'copied', v)
                        return I.ok(st, VOID)
                raise Unsupported('copy of an unknown value')
            return None
        I.hooks['ctor:' + V] = vctor
        I.hooks['dtor:' + V] = lambda I, st, fr, loc, t: I.ok(st, VOID)
        I.bounds_tags = True
        st = State()
        xs, av = [], []
        for i, m in enumerate(ms):
            loc = (('arg', 'v%d' % i),)
            xs.append(put(I, st, M, loc, m, TAGS[m], 'lhs' if i == 0 and len(ms) > 1 else 'rhs'))
            av.append(('ref', loc))
        outs = [o for o in I.analyse(f, av=tuple(av), state=st) if not lin.infeasible(o[0].cons)]
        return I, xs, outs, bad

    T64 = M.members[MI]
    done = 0
    for f in P.funcs.values():
        if f.body is None or f.n not in OPS or f.cls or not f.params or not all(p['t'].k in ('ref', 'rec') and (p['t'].strip_ref().base if p['t'].k == 'ref' else p['t'].base) == V for p in f.params):
            continue
        op = OPS[f.n]
        unary = len(f.params) == 1
        for ms in ([(MI,)] if unary else [(MI, MI), (MF, MI)]):
            if ms[0] == MF and op not in '/%':
                continue
            inst = '%s%s' % (op, ', '.join(NM[m] for m in ms))
            I, xs, outs, bad = run(f, op, ms)
            want = None
            a, b = (N0, xs[0]) if unary else xs
            if ms[0] == MI:
                want = exact(op, a, b)
            probs = []
            for s, k, v in outs:
                if k != 'v':
                    probs.append('ends by %s' % k)
                    continue
                tag = vfield(I, s, v, (('.', M.tag),))
                nul = nullof(I, s, v)
                zero_possible = op in '/%' and can(I, s, cmp_term('==', b, N0))
                if nul is not None:
                    if nul == ZERO:
                        if op not in '/%' or can(I, s, cmp_term('<', b, N0)) or can(I, s, cmp_term('>', b, N0)):
                            probs.append('reports division by zero although %s' % facts(s))
                    elif nul == OVER:
                        if zero_possible:
                            probs.append('does not report division by zero when %s' % facts(s))
                        elif op in '+-':
                            if can(I, s, cmp_term('<=', want, num(MAX)), cmp_term('>=', want, num(MIN))):
                                probs.append('reports overflow although the result may fit: %s' % facts(s))
                        elif op == '*':
                            if s.ghost.get(('over', want)) is not True:
                                A, B = fixed(I, s, a), fixed(I, s, b)
                                r = vmul(A, B)
                                if r[0] not in ('n', 'lin', 'sym') or can(I, s, cmp_term('<=', r, num(MAX)), cmp_term('>=', r, num(MIN))):
                                    probs.append('reports overflow although the result may fit: %s' % facts(s))
                        else:
                            A, B = fixed(I, s, a), fixed(I, s, b)
                            if not (A == num(MIN) and B == num(-1)):
                                probs.append('reports overflow although the result fits: %s' % facts(s))
                    else:
                        probs.append('yields null %s' % nul)
                    continue
                if zero_possible:
                    probs.append('yields a number although the divisor may be zero')
                if want is None:
                    if tag != TAGS[MF]:
                        probs.append('yields %s' % NM.get(next((m for m, t in TAGS.items() if t == tag), None), '?'))
                    continue
                if tag != TAGS[MI]:
                    probs.append('yields %s' % NM.get(next((m for m, t in TAGS.items() if t == tag), None), '?'))
                    continue
                got = vfield(I, s, v, (('.', M.u), ('.', MI)))
                A, B = fixed(I, s, a), fixed(I, s, b)
                same = got == want or equal(I, s, got, want)
                if not same and op == '*' and (A[0] == 'n' or B[0] == 'n'):
                    same = equal(I, s, got, vmul(A, B))
                if not same and op in '/%' and B[0] == 'n' and B[1] != 0:
                    w = I.divmod_(s, op, A, B, T64) if B != num(-1) else (N0 if op == '%' else vadd(N0, A, -1))
                    same = equal(I, s, got, w)
                if not same:
                    probs.append('yields %s instead of %s when %s' % (show(got), show(want), facts(s)))
                elif op == '*' and s.ghost.get(('over', want)) is True and got == want:
                    probs.append('yields the product although it overflows')
            probs = list(dict.fromkeys(bad + probs))
            c.ob('exact-or-error', inst, bool(outs) and not probs, '%s of %s: %s' % (f.n, ' and '.join(NM[m] for m in ms), '; '.join(probs[:4]) or 'no outcome'), f.where())
            done += 1
    c.need('exact-or-error', 8)


def fixed(I, st, x):
    """the constant the path condition pins x to, or x"""
    if x[0] == 'n':
        return x
    for k in (-1, 0, 1, MIN, MAX):
        if I.entails(st, cmp_term('==', x, num(k))):
            return num(k)
    return x


def equal(I, st, x, y):
    try:
        return I.entails(st, cmp_term('==', x, y))
    except Unsupported:
        return False


main('C03', RULE, body, ['operands are read-only during the operation'])
