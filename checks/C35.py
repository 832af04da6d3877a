import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc
import letters
from statusmodel import *
import valmodel
import itertools, math

RULE = ('The constructor of AggFunctionManager is interpreted, which gives the aggregate functions by name. Each one is then interpreted, starting from a new AggData, over every sequence of inputs of at most two of all kinds of values and of three numbers, strings and nulls, '
        'the inputs being tagged Values of unknown content; the operators of Value build terms, comparisons of Values split the state. '
        'fold: what the accumulator gives after every sequence is the value the name of the function promises for the inputs that are neither null nor empty (count, sum, mean, least, greatest, population standard deviation, bitwise and / or / exclusive or, list in order, set; "" is the last input), '
        'compared as a term at several points; no such input leaves null, except 0, an empty list or an empty set where these are promised; an input that is not numeric (not an integer, for the bitwise ones) makes the result BAD_TYPE for good; a path that ends the process or throws is an error. '
        'lookup: get and find give a function exactly for the names in the table, in any case of letters, and its own. '
        'eval: an aggregate expression feeds its function every value of its argument once, or, when distinct, every value that is not yet among the remembered ones, and remembers it.')
F = 'nebula::AggFunctionManager'
D = 'nebula::AggData'
V = 'nebula::Value'
SELF = (('self',),)
POINTS = [{0: 7, 1: 3, 2: 12}, {0: 2, 1: 9, 2: 9}, {0: 5, 1: 5, 2: 1}, {0: 11, 1: 6, 2: 13}, {0: 1, 1: 2, 2: 3}]


def body(c):
    P = c.load(['function/AggFunctionManager.cpp', 'expression/AggregateExpression.cpp', 'datatypes/Value.cpp'])
    M = valmodel.Model(c, P)
    TAGS = valmodel.tags(c, P, M)
    NAMES = valmodel.names(P, TAGS)
    BY = {NAMES[m]: m for m in NAMES}
    KIND = {t[1]: NAMES[m] for m, t in TAGS.items()}
    NULLS = dict(P.enums['nebula::NullType']['consts'])
    EMPTY = NAMES[None]
    whole = lambda v: v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v
    LISTV = one([f['id'] for f in fields(P, 'nebula::List') if f['t'].k == 'rec'], 'elements of a list')
    SETV = one([f['id'] for f in fields(P, 'nebula::Set') if f['t'].k == 'rec'], 'elements of a set')
    ctor = one([f for f in P.methods_of[F] if f.ctor and not f.params], 'constructor of the aggregate functions')
    TABLE = SELF + (('.', one([f['id'] for f in fields(P, F) if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::unordered_map', 'std::map')], 'table of aggregate functions')),)
    own = ('function/', 'datatypes/Value.', 'datatypes/List.h', 'datatypes/Set.h')

    def mk():
        I = c.interp(P, unroll=8)
        I.static_init = lambda fr, v: False
        C = Conc(I)
        I.exact_arith = True
        I.opaque_pred = lambda fn: not any(('common/' + x) in fn.file for x in own) or fn.cls is None and fn.n.startswith('operator')
        H = I.hooks
        cnt = [0]

        def into(st, loc, a):
            # a copy of a value has its kind and its content (C02, C03)
            if a[0] != 'ref':
                I.drop(st, loc)
                I.store(st, loc, a)
                return
            t = whole(I.load(st, a[1] + (('.', M.tag),)))
            if t[0] != 'n':
                raise Unsupported('a copy of a value of unknown kind')
            m = BY[KIND[t[1]]]
            x = None if m is None else I.load(st, a[1] + (('.', M.u), ('.', m)))
            I.drop(st, loc)
            I.store(st, loc + (('.', M.tag),), t)
            if m is not None:
                I.store(st, loc + (('.', M.u), ('.', m)), x)

        def vcopy(I_, st, fr, n, loc, av):
            fn = P.funcs.get(n.get('fn'))
            if fn is None or len(fn.params) != 1 or fn.params[0]['t'].strip_ref().rec != V or not av or av[0][0] != 'ref':
                return None
            into(st, loc, av[0])
            return I.ok(st, None)
        H['ctor:' + V] = vcopy

        def vassign(I_, st, fr, n, loc, av):
            fn = P.funcs.get(n.get('fn'))
            if fn is None or len(fn.params) != 1 or fn.params[0]['t'].strip_ref().rec != V or not av:
                return None
            into(st, loc, av[0])
            return I.ok(st, ('ref', loc))
        H[V + '::operator='] = vassign
        H['dtor:' + V] = lambda I_, st, fr, loc, t: I_.ok(st, VOID)

        def val(st, a):
            """kind and content of an operand"""
            if a[0] == 'ref':
                l = a[1]
            else:
                cnt[0] += 1
                l = (('g', 'operand%d' % cnt[0]),)
                I.store(st, l, a)
            return look(I, st, l)

        def arith(op):
            def f(I_, st, fr, n, loc, av):
                if len(av) != 2:
                    return None
                (ka, a), (kb, b) = val(st, av[0]), val(st, av[1])
                if ka is None or kb is None:
                    raise Unsupported('an operand of %s of unknown kind' % op)
                num_ = ('int', 'float')
                cnt[0] += 1
                l = (('g', 'vop%d' % cnt[0]),)
                if ka in num_ and kb in num_ and (op not in '&|^%' or ka == kb == 'int'):
                    k = 'int' if ka == kb == 'int' else 'float'
                    valmodel.put(I, st, M, l, BY[k], TAGS[BY[k]], 'r', content=('app', 'vop', op if op != '/' or k == 'float' else '//', a, b))
                elif op == '+' and 'nullvalue' not in (ka, kb) and EMPTY not in (ka, kb) and {'string', 'list', 'date'} & {ka, kb}:
                    # texts and lists are extended, dates moved
                    k = 'list' if 'list' in (ka, kb) else 'string' if 'string' in (ka, kb) else 'date'
                    valmodel.put(I, st, M, l, BY[k], TAGS[BY[k]], 'r', content=('app', 'vop', op, a, b))
                else:
                    valmodel.put(I, st, M, l, BY['nullvalue'], TAGS[BY['nullvalue']], 'r', content=num(NULLS['BAD_TYPE']))
                return I.ok(st, I.load(st, l))
            return f
        for op in '+-*/&|^%':
            H['nebula::operator' + op] = arith(op)

        def order(op):
            def f(I_, st, fr, n, loc, av):
                x = [val(st, a) for a in ([('ref', loc)] if loc is not None else []) + list(av)]
                if len(x) != 2:
                    return None
                r = []
                for t in (N1, N0):
                    s = st.copy()
                    if x[0][1] is not None and x[1][1] is not None:     # nothing is known of how an empty value compares
                        s.ghost['cmp'] = s.ghost.get('cmp', ()) + ((op, x[0][1], x[1][1], t == N1),)
                    r.append((s, 'v', t))
                return r
            return f
        for op in ('<', '>', '<=', '>=', '==', '!='):
            H['nebula::operator' + op] = order(op)

        def extreme(op):
            # std::max(a, b) is b if a < b, std::min(a, b) is b if b < a; else a
            def f(I_, st, fr, n, loc, av):
                if len(av) != 2 or any(a[0] != 'ref' for a in av) or any(a.get('t') is None or a['t'].strip_ref().base != V for a in n['a']):
                    return None
                x = [val(st, a) for a in av]
                p = x if op == 'max' else x[::-1]
                r = []
                for t in (1, 0):
                    s = st.copy()
                    s.ghost['cmp'] = s.ghost.get('cmp', ()) + (('<', p[0][1], p[1][1], t == 1),)
                    r.append((s, 'v', av[1] if t else av[0]))
                return r
            return f
        H['std::max'], H['std::min'] = extreme('max'), extreme('min')

        # a set of values
        def sctor(I_, st, fr, n, loc, av):
            I.drop(st, loc)
            I.store(st, loc, I.load(st, av[0][1]) if av and av[0][0] == 'ref' else ('app', 'items', ()))
            return I.ok(st, None)

        def sadd(I_, st, fr, n, loc, av):
            g = whole(I.load(st, loc))
            if g[:2] != ('app', 'items') or not av:
                raise Unsupported('what is put into a set')
            l = av[0][1] if av[0][0] == 'ref' else None
            if l is None:
                cnt[0] += 1
                l = (('g', 'operand%d' % cnt[0]),)
                I.store(st, l, av[0])
            I.store(st, loc, ('app', 'items', g[2] + (look(I, st, l),)))
            return I.ok(st, I.fresh('inserted', None))
        H['ctor:std::unordered_set'] = sctor

        def sfind(I_, st, fr, n, loc, av):
            g = whole(I.load(st, loc))
            if g[:2] != ('app', 'items') or not av or av[0][0] != 'ref':
                raise Unsupported('what is looked for in a set')
            r = []
            for b in (0, 1) if g[2] else (0,):
                s = st.copy()
                if b:
                    # it equals one of the elements
                    s.ghost['dup'] = s.ghost.get('dup', ()) + (look(I, s, av[0][1]),)
                r.append((s, 'v', num(b) if n['n'] != 'find' else ('app', 'place', num(b))))
            return r
        for m in ('find', 'count', 'contains'):
            H['std::unordered_set::' + m] = sfind
        for m in ('end', 'cend'):
            H['std::unordered_set::' + m] = lambda I_, st, fr, n, loc, av: I.ok(st, ('app', 'place', N0))

        def splace(ne, rest):
            def f(I_, st, fr, n, loc, av):
                x = [I_.argval(st, a) for a in ([('ref', loc)] if loc is not None else []) + list(av)]
                if len(x) == 2 and all(a[:2] == ('app', 'place') for a in x):
                    return I_.ok(st, num(int((x[0] == x[1]) != ne)))
                return rest(I_, st, fr, n, loc, av) if rest is not None else None
            return f
        for m in ('operator==', 'operator!='):
            for p in ('*::', 'std::', 'std::__detail::'):
                H[p + m] = splace(m.endswith('!='), H.get(p + m))

        def like(I_, st, fr, n, loc, av):
            if len(av) != 1 or av[0][0] != 'ref' or len(n['a']) != 1 or n['a'][0].get('t') is None or n['a'][0]['t'].strip_ref().base not in ('nebula::List', 'nebula::Set'):
                return None
            v = I.load(st, av[0][1])
            I.drop(st, loc)
            I.store(st, loc, v)
            return I.ok(st, None)
        def unique(I_, st, fr, n, loc, av):
            t = n.get('t')
            at = t.targs[0] if t is not None and t.targs else None
            if at is None or at.k != 'rec' or at.base not in ('nebula::List', 'nebula::Set') or len(av) != 1 or av[0][0] != 'ref' or n['a'][0]['t'].strip_ref().base != at.base:
                return None
            cnt[0] += 1
            h = (('h', 'made%d' % cnt[0], at.base),)
            I.store(st, h, I.load(st, av[0][1]))
            return I.ok(st, ('ptr', h))
        H['std::make_unique'] = unique
        H['ctor:nebula::List'] = H['ctor:nebula::Set'] = like
        H['std::unordered_set::emplace'] = H['std::unordered_set::insert'] = sadd
        H['dtor:std::unordered_set'] = lambda I_, st, fr, loc, t: I_.ok(st, VOID)
        return I, C

    def look(I, st, l):
        t = whole(I.load(st, l + (('.', M.tag),)))
        if t[0] != 'n':
            return None, None
        k = KIND.get(t[1])
        m = BY[k]
        if m is None:
            return k, None
        return k, whole(I.load(st, l + (('.', M.u), ('.', m))))

    I, C = mk()
    st = State()
    C.make(st, TABLE, 'map', [])
    outs = I.analyse(ctor, this=SELF, state=st)
    if len(outs) != 1 or outs[0][1] != 'v':
        raise Broken('the table of aggregate functions is not built in one way')
    base = outs[0][0]
    g = C.get(base, TABLE)
    if g is None or not all(k[0] == 'str' for k in g[1]):
        raise Broken('the table of aggregate functions is not understood')
    FN = {}
    for k in g[1]:
        b = I.load(base, TABLE + (('@', k), ('.', 'second')))
        FN[k[1]] = b[1] if b[0] == 'agg' else b
    where = {}
    for name, f in FN.items():
        fn = P.funcs.get(f[1]) if f[0] == 'fn' else None
        for k in f[1] if f[0] == 'lam' else ():
            fn = P.funcs.get(k) or fn
        if fn is None:
            raise Broken('the implementation of %s is not understood' % name)
        where[name] = fn.where()

    # ---------------------------------------------------------------- what the names promise
    BAD = ('nullvalue', NULLS['BAD_TYPE'])
    NUL = ('nullvalue', NULLS['__NULL__'])

    def promise(name, kinds, pt):
        """kinds: kind of every input; pt: position -> number. The kind and value of the result"""
        if name == '':
            return ('input', len(kinds) - 1) if kinds else NUL
        real = [i for i, k in enumerate(kinds) if k not in ('nullvalue', 'bad', EMPTY)]
        x = [pt[i] for i in real]
        num_ = all(kinds[i] in ('int', 'float') for i in real)
        if name == 'COUNT':
            return 'int', len(real)
        if name in ('SUM', 'AVG', 'STD') and not num_ or name.startswith('BIT_') and any(kinds[i] != 'int' for i in real):
            return BAD
        if name == 'SUM':
            return ('float' if any(kinds[i] == 'float' for i in real) else 'int'), sum(x)
        if name == 'COLLECT':
            return 'list', [('input', i) for i in real]
        if name == 'COLLECT_SET':
            return 'set', [('input', i) for i in real]
        if not real:
            return NUL
        if name == 'AVG':
            return 'float', sum(x) / len(x)
        if name == 'STD':
            m = sum(x) / len(x)
            return 'float', math.sqrt(sum((y - m) ** 2 for y in x) / len(x))
        if name.startswith('BIT_'):
            r = x[0]
            for y in x[1:]:
                r = {'BIT_AND': r & y, 'BIT_OR': r | y, 'BIT_XOR': r ^ y}[name]
            return 'int', r
        if name in ('MAX', 'MIN'):
            b = (max if name == 'MAX' else min)(x)
            return ('one of', [i for i in real if pt[i] == b])
        raise Broken('an aggregate function %s that the rule does not know' % name)
    KNOWN = {'', 'COUNT', 'SUM', 'AVG', 'MAX', 'MIN', 'STD', 'BIT_AND', 'BIT_OR', 'BIT_XOR', 'COLLECT', 'COLLECT_SET'}

    class NoValue(Exception):
        pass

    def ev(t, pt):
        t = whole(t)
        if t[0] == 'n':
            return t[1]
        if t[0] == 'sym' and t[1].startswith('input'):
            return pt[int(t[1][5:])]
        if t[0] == 'ptr' and t[1][0][0] == 'heap' and str(t[1][0][1]).startswith('input'):
            return pt[int(t[1][0][1][5:])]
        if t[0] == 'fm':
            r = float(t[1])
            for a, p in t[2]:
                r *= ev(a, pt) ** p
            return r
        if t[0] == 'lin':
            return t[1] + sum(k * ev(a, pt) for a, k in t[2])
        if t[0] == 'f':
            return float(t[1])
        if t[0] == 'app' and t[1] == 'vop':
            a, b = ev(t[3], pt), ev(t[4], pt)
            o = t[2]
            if o in '&|^':
                a, b = int(a), int(b)
            if o in ('/', '//', '%') and b == 0:
                raise NoValue
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b, '%': lambda: a % b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[o]()
        if t[0] == 'app' and t[1].split(':')[-1] in ('sqrt', 'fabs', 'abs', 'pow'):
            a = [ev(x, pt) for x in t[2:] if x[0] != '#']
            o = t[1].split(':')[-1]
            if o == 'sqrt':
                if a[0] < -1e-9:
                    raise NoValue
                return math.sqrt(max(a[0], 0))
            return abs(a[0]) if o != 'pow' else a[0] ** a[1]
        if t[0] == 'app' and t[1] in ('+', '-', '*', '/', 'cast', 'conv', 'i2f', 'itof', 'tofloat') or t[0] == 'app' and len(t) == 3 and 'cast' in str(t[1]):
            a = [ev(x, pt) for x in t[2:]]
            if len(a) == 1:
                return -a[0] if t[1] == '-' else a[0]
            if t[1] == '/' and a[1] == 0:
                raise NoValue
            return {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1], '/': lambda: a[0] / a[1]}[t[1]]()
        raise Unsupported('the term %s' % show(t)[:120])

    def truth_of(s, pt):
        """does this outcome happen when the inputs have these values"""
        for op, a, b, t in s.ghost.get('cmp', ()):
            a, b = ev(a, pt), ev(b, pt)
            if {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op] != t:
                return False
        return True

    def input_of(kind, content):
        t = whole(content) if content is not None else None
        if t is not None and t[0] == 'sym' and str(t[1]).startswith('input'):
            return int(t[1][5:])
        if t is not None and t[0] == 'ptr' and str(t[1][0][1]).startswith('input'):
            return int(t[1][0][1][5:])
        return None

    AGG = (('g', 'agg'),)
    RES = one([f['id'] for f in fields(P, D) if f['id'].startswith('result')], 'result of an accumulator')
    res = one([f for f in P.methods_of[D] if f.n == 'result' and f.d.get('const')], 'AggData::result')
    dctor = one([f for f in P.methods_of[D] if f.ctor and len(f.params) == 1 and f.params[0]['t'].k == 'ptr'], 'constructor of an accumulator')

    def start(I):
        o = I.analyse(dctor, this=AGG, av=[('n', 0)], state=State())
        o = [x for x in o if not lin.infeasible(x[0].cons)]
        if len(o) != 1 or o[0][1] != 'v':
            raise Broken('a new accumulator is not understood')
        o[0][0].trace = ()
        return o[0][0]

    def give(I, st, i, kind):
        l = (('g', 'in%d' % i),)
        if kind in ('nullvalue', 'bad'):
            m = BY['nullvalue']
            valmodel.put(I, st, M, l, m, TAGS[m], 'input%d' % i, content=num(NULLS['BAD_TYPE' if kind == 'bad' else '__NULL__']))
            return l
        m = BY[kind]
        cont = ('sym', 'input%d' % i, 0)
        valmodel.put(I, st, M, l, m, TAGS[m], 'input%d' % i, content=cont if m is not None else None)
        return l

    def same_num(a, b):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))

    def judge(I, C, name, kinds, ends):
        seq = '%s over (%s)' % (name or "''", ', '.join(kinds))
        for s, k, v in ends:
            if k != 'v':
                return '%s %s' % (seq, 'ends the process' if k == 'abort' else 'throws')
        for pt in POINTS:
            some = False
            for s, k, v in ends:
                if not truth_of(s, pt):
                    continue
                some = True
                o = [x for x in I.analyse(res, this=AGG, state=s.copy())]
                if len(o) != 1 or o[0][1] != 'v' or o[0][2][0] != 'ref':
                    raise Broken('the result of an accumulator is not understood')
                s2, l = o[0][0], o[0][2][1]
                kind, x = look(I, s2, l)
                if kind is None:
                    raise Unsupported('%s: the kind of the result is not known' % seq)
                want = promise(name, kinds, pt)
                said = '%s gives %s' % (seq, kind)
                if want[0] in ('input', 'one of'):
                    ok = [want[1]] if want[0] == 'input' else want[1]
                    i = input_of(kind, x)
                    if want[0] == 'input':
                        # the last input, whatever it is
                        j = want[1]
                        kk = 'nullvalue' if kinds[j] == 'bad' else kinds[j]
                        if kind != kk or kind not in ('nullvalue', EMPTY) and i != j or kind == 'nullvalue' and x != num(NULLS['BAD_TYPE' if kinds[j] == 'bad' else '__NULL__']):
                            return '%s instead of its last input' % said
                    elif i is None or i not in ok:
                        return '%s: %s instead of the %s one' % (seq, 'input %d' % i if i is not None else kind, 'greatest' if name == 'MAX' else 'least')
                    elif kind != kinds[i]:
                        return '%s instead of %s' % (said, kinds[i])
                    continue
                wk, wv = want
                if kind != wk:
                    return '%s instead of %s' % (said, wk if wk != 'nullvalue' else 'null' if wv == NULLS['__NULL__'] else 'BAD_TYPE')
                if kind == 'nullvalue':
                    if x != num(wv):
                        return '%s of another sort than %s' % (said, 'null' if wv == NULLS['__NULL__'] else 'BAD_TYPE')
                elif kind in ('list', 'set'):
                    if x[0] != 'ptr':
                        raise Unsupported('%s: the elements of the result' % seq)
                    if kind == 'list':
                        g = C.get(s2, x[1] + (('.', LISTV),))
                        if g is None:
                            raise Unsupported('%s: the elements of the list' % seq)
                        its = [look(I, s2, e) for e in C.elems(s2, x[1] + (('.', LISTV),))]
                    else:
                        g = whole(I.load(s2, x[1] + (('.', SETV),)))
                        if g[:2] != ('app', 'items'):
                            raise Unsupported('%s: the elements of the set' % seq)
                        its = list(g[2])
                    got = [input_of(*it) for it in its]
                    if kind == 'list' and got != [i for _, i in wv] or set(got) | ({input_of(*d) for d in s2.ghost.get('dup', ())} if kind == 'set' else set()) != {i for _, i in wv}:
                        return '%s with %s elements' % (said, 'other' if len(got) == len(wv) else '%d' % len(got))
                else:
                    try:
                        got = ev(x, pt)
                    except NoValue:
                        return '%s that is not defined' % said
                    if not same_num(got, wv):
                        return '%s of another value: %s for inputs %s instead of %s' % (said, round(got, 6), ', '.join(str(pt[i]) for i in range(len(kinds))), round(wv, 6))
            if not some:
                raise Broken('%s: no path for %s' % (seq, pt))
        return None

    ALL = sorted(BY) + ['bad']
    FEW = ['int', 'float', 'string', 'nullvalue', EMPTY]
    for name in sorted(FN):
        if name not in KNOWN:
            raise Broken('an aggregate function %s that the rule does not know' % name)
        I, C = mk()
        first = [(start(I), 'v', VOID)]

        def grow(kinds, ends, depth):
            if kinds:
                # what is promised for values of kinds that are compared: of one kind only
                if name not in ('MAX', 'MIN') or len({k for k in kinds if k not in ('nullvalue', 'bad', EMPTY)}) <= 1:
                    bad = judge(I, C, name, kinds, ends)
                    k = tuple(sorted({x if x in ('int', 'float', 'nullvalue', 'bad', EMPTY) else 'other' for x in kinds}))
                    c.ob('fold', '%s over %s' % (name or "''", '/'.join(k)), bad is None, bad or '', where[name])
                    if bad is not None:
                        return
            if len(kinds) >= depth:
                return
            for kd in ALL if depth == 2 else FEW:
                new = []
                for s, k, v in ends:
                    if k != 'v':
                        continue
                    s = s.copy()
                    l = give(I, s, len(kinds), kd)
                    r = I.call_value(s, Frame(ctor, 0, -1), {'k': 'Call', 'l': 0, 'a': [], 'n': 'operator()'}, FN[name], (('ptr', AGG), ('ref', l)))
                    new += [x for x in r if not lin.infeasible(x[0].cons)]
                grow(kinds + [kd], new, depth)
        grow([], first, 2)
        grow([], first, 3)

    # ---------------------------------------------------------------- by name
    def finder():
        I = c.interp(P, unroll=20)
        C, SM = Conc(I), StatusModel(I, P)
        H = I.hooks
        H[F + '::instance'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('ref', SELF))
        letters.install(I, whole)
        return I, C, SM
    gets = {m: one([f for f in P.methods_of[F] if f.n == m and f.body], 'aggregate function manager ' + m) for m in ('get', 'find')}
    same = lambda x, y: whole(x) == whole(y) or whole(x)[0] == whole(y)[0] == 'lam' and whole(x)[1] == whole(y)[1]
    for name in sorted(FN) + ['NO SUCH FUNCTION']:
        for m in sorted(gets):
            for spell in sorted({name, name.lower(), name.capitalize()}):
                I, C, SM = finder()
                s0 = base.copy()
                s0.trace = ()
                I.store(s0, (('g', 'name'),), ('str', spell))
                for s, k, v in I.analyse(gets[m], av=[('ref', (('g', 'name'),))], state=s0):
                    if lin.infeasible(s.cons):
                        continue
                    ok, x = None, None
                    if k == 'v' and m == 'find':
                        ok = is_ok(v if v[0] != 'ref' else I.load(s, v[1]))
                    elif k == 'v':
                        o, x = SM.outcome(s, v)
                        ok = None if o is None else o == 'v'
                    if k == 'v' and ok is None:
                        raise Broken('what %s answers for %s is not understood' % (m, spell))
                    c.ob('lookup', "'%s': %s" % (name, m), k == 'v' and ok == (name in FN), "%s('%s') %s" % (m, spell, 'finds something' if ok else 'refuses' if k == 'v' else 'ends the process'), gets[m].where())
                    if ok and m == 'get' and name in FN:
                        c.ob('lookup', "'%s': implementation" % name, same(x(), FN[name]), "get('%s') gives something else than the implementation" % spell, gets[m].where())

    # ---------------------------------------------------------------- within an expression
    E = 'nebula::AggregateExpression'
    fe = fields(P, E)
    DIST = one([f['id'] for f in fe if f['t'].k == 'bool'], 'distinctness of an aggregate expression')
    DATA = one([f['id'] for f in fe if f['t'].k == 'ptr' and f['t'].p.base == D], 'accumulator of an aggregate expression')
    FUNC = one([f['id'] for f in fe if f['t'].k == 'rec' and (f['t'].base.startswith('std::function') or strip_targs(f['t'].base) == 'std::function')], 'function of an aggregate expression')
    ev_ = one([f for f in P.methods_of[E] if f.n == 'eval' and f.body], 'AggregateExpression::eval')
    for distinct, seen in ((0, 0), (0, 1), (1, 0), (1, 1)):
        I = c.interp(P)
        I.opaque_pred = lambda fn: not any(('common/' + x) in fn.file for x in ('expression/AggregateExpression', 'function/', 'datatypes/Set.h'))
        H = I.hooks
        VAL = (('g', 'evaluated'),)
        asked, added = [], []

        def copy(I_, st, fr, n, loc, av):
            if len(av) != 1:
                return None
            I.store(st, loc, I.load(st, av[0][1]) if av[0][0] == 'ref' else av[0])
            return I.ok(st, None)

        def evald(I_, st, fr, n, loc, av):
            st.ghost['evals'] = st.ghost.get('evals', 0) + 1
            I.store(st, VAL, ('sym', 'evaluated', st.ghost['evals']))
            return I.ok(st, ('ref', VAL))
        is_val = lambda st, a: (I.load(st, a[1]) if a[0] == 'ref' else a) == ('sym', 'evaluated', 1)

        def member(I_, st, fr, n, loc, av):
            if not is_val(st, av[0]):
                raise Unsupported('what is looked for among the remembered values')
            there = seen or st.ghost.get('added', 0)
            return I.ok(st, num(int(bool(there))) if n['n'] != 'find' else ('app', 'place', num(int(bool(there)))))

        def add(I_, st, fr, n, loc, av):
            if not is_val(st, av[0]):
                raise Unsupported('what is put among the remembered values')
            there = seen or st.ghost.get('added', 0)
            st.ghost['added'] = st.ghost.get('added', 0) + 1
            I.counter += 1
            l = (('g', 'pair%d' % I.counter),)
            I.store(st, l + (('.', 'second'),), num(int(not there)))
            return I.ok(st, I.load(st, l))
        Q = 'std::unordered_set::'
        H['nebula::Expression::eval'] = evald
        H['ctor:' + V] = copy
        H['dtor:' + V] = lambda I_, st, fr, loc, t: I_.ok(st, VOID)
        for m in ('count', 'contains', 'find'):
            H[Q + m] = member
        for m in ('end', 'cend'):
            H[Q + m] = lambda I_, st, fr, n, loc, av: I_.ok(st, ('app', 'place', N0))
        for m in ('operator==', 'operator!='):
            def place(I_, st, fr, n, loc, av, ne=m.endswith('!=')):
                x = [I_.argval(st, a) for a in ([('ref', loc)] if loc is not None else []) + list(av)]
                if len(x) != 2 or any(a[:2] != ('app', 'place') for a in x):
                    return None
                return I_.ok(st, num(int((x[0] == x[1]) != ne)))
            H['*::' + m] = H['std::' + m] = H['std::__detail::' + m] = place
        for m in ('emplace', 'insert'):
            H[Q + m] = add
        def called(I_, st, e):
            if e.name == 'callback':
                ok = e.recv == SELF + (('.', FUNC),) and len(e.args) == 3 and e.args[1] == ('init', SELF + (('.', DATA),)) and is_val(st, e.args[2])
                st.ghost['calls'] = st.ghost.get('calls', ()) + (ok,)
        I.on_event = called
        s0 = State()
        I.store(s0, SELF + (('.', DIST),), num(distinct))
        n = 0
        what = 'a %s aggregate over a value%s' % ('distinct' if distinct else 'plain', ' it has seen' if seen else '')
        for s, k, v in I.analyse(ev_, this=SELF, state=s0):
            if lin.infeasible(s.cons) or k == 'abort' and not s.ghost.get('calls'):
                continue        # without a function or an accumulator there is nothing to give
            n += 1
            calls = s.ghost.get('calls', ())
            want = 0 if distinct and seen else 1
            good = all(calls)
            c.ob('eval', what, k == 'v' and len(calls) == want and good and s.ghost.get('evals', 0) == 1, '%s %s' % (what, 'gives its function something else' if len(calls) == want and not good else 'evaluates its argument %d times' % s.ghost.get('evals', 0) if s.ghost.get('evals', 0) != 1 else 'gives it to its function %d times' % len(calls)), ev_.where())
            c.ob('eval', what + ': remembered', not distinct or bool(seen) or s.ghost.get('added', 0) > 0, '%s does not remember it' % what, ev_.where())
        if not n:
            raise Broken('evaluation of an aggregate expression never comes to an end')
    c.need('eval', 8)
    c.need('fold', 60)
    c.need('lookup', 30)


main('C35', RULE, body)
