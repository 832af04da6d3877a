import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc
import letters
from statusmodel import *
import valmodel
import itertools

RULE = ('The constructor of FunctionManager is interpreted, which gives the table of built-in functions: least and greatest number of arguments, purity, implementation. '
        'total/bounds: every implementation is interpreted with every list of argument kinds (all 15 kinds for one and two arguments, lists, paths and data sets with no and with two elements, the kinds that occur in functions for three and more; then small and extreme integers and short strings), '
        'each argument a tagged Value whose content is unknown; no path may read an argument that was not given, read an argument as a kind it does not have (Value::getX ends the process), throw, read an element of a sequence, or a piece of a string, that is not proven to be there, or run a loop that does not end. '
        'pure: no path of a function declared pure calls a clock or a source of random numbers. '
        'signature: each declared signature names a defined function, has a length it takes, and with arguments of these kinds only the declared kind (or null) results. '
        'lookup: get, find and getIsPure, given each name in both cases of letters and numbers of arguments around both ends, find exactly what the table admits and answer what it says; '
        'promise: getReturnType answers the declared kind for declared argument kinds, the first null or empty kind otherwise, an error else.')
F = 'nebula::FunctionManager'
V = 'nebula::Value'
SELF = (('self',),)


def body(c):
    P = c.load(['function/FunctionManager.cpp', 'datatypes/Value.cpp'])
    M = valmodel.Model(c, P)
    TAGS = valmodel.tags(c, P, M)
    NAMES = valmodel.names(P, TAGS)
    BY = {NAMES[m]: m for m in NAMES}
    ctor = one([f for f in P.methods_of[F] if f.ctor and not f.params], 'constructor of the function manager')
    fs = fields(P, F)
    TABLE = SELF + (('.', one([f['id'] for f in fs if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::unordered_map', 'std::map')], 'table of functions')),)
    I = c.interp(P)
    C = Conc(I)
    st = State()
    C.make(st, TABLE, 'map', [])
    outs = [o for o in I.analyse(ctor, this=SELF, state=st)]
    if len(outs) != 1 or outs[0][1] != 'v':
        raise Broken('the table of functions is not built in one way')
    st = outs[0][0]
    g = C.get(st, TABLE)
    if g is None:
        raise Broken('the table of functions is not understood')
    A = one([q for q in P.recs if q.startswith(F + '::') and P.recs[q].known and q.endswith('Attributes')], 'attributes')
    fa = fields(P, A)
    BODY = one([f['id'] for f in fa if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::function'], 'implementation of a function')
    PURE = one([f['id'] for f in fa if f['t'].k == 'bool'], 'purity of a function')
    ar = [f['id'] for f in fa if f['t'].k == 'int']
    if len(ar) != 2:
        raise Broken('a function has %d numbers' % len(ar))
    FN = {}
    for k in g[1]:
        e = TABLE + (('@', k), ('.', 'second'))
        x = [I.load(st, e + (('.', a),)) for a in ar]
        b = I.load(st, e + (('.', BODY),))
        b = b[1] if b[0] == 'agg' else b
        pu = I.load(st, e + (('.', PURE),))
        if k[0] != 'str' or x[0][0] != 'n' or x[1][0] != 'n' or pu[0] != 'n':
            raise Broken('the attributes of %s are not constants' % show(k))
        FN[k[1]] = (x[0][1], x[1][1], pu == N1, b)
    # which of the two numbers is the smaller arity
    if all(a >= b for a, b, _, _ in FN.values()):
        FN = {k: (b, a, p, f) for k, (a, b, p, f) in FN.items()}
    LISTF = [f['id'] for f in fields(P, 'nebula::List')]
    whole = lambda v: v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v
    own = ('function/', 'datatypes/Value.', 'datatypes/DataSet.h', 'datatypes/List.h')

    def mk():
        I = c.interp(P, unroll=24)
        I.static_init = lambda fr, v: False
        C = Conc(I)
        I.exact_arith = I.exact_casts = True
        I.opaque_pred = lambda fn: not any(('common/' + x) in fn.file for x in own) or fn.cls is None and fn.n.startswith('operator') and fn.n[8:] not in ('&', '|', '^', '*', '/') or fn.cls == V and fn.n in ('toString', 'operator==', 'operator<', 'lessThan', 'equal')
        I.faults = []
        H = I.hooks

        def rget(I_, st, fr, n, loc, av):
            i = loc[-1][1] if loc[-1][0] == '[' else None
            if i is None or i[0] != 'n':
                raise Unsupported('argument %s' % show(i) if i else 'argument')
            return I.ok(st, ('ref', (('g', 'arg%d' % i[1]),)))
        H['std::reference_wrapper::get'] = rget
        for m in ('operator const nebula::Value &', 'operator type &', 'operator const type &'):
            H['std::reference_wrapper::' + m] = rget
        fault = lambda what, n: I.faults.append((what, n.get('l', 0)))
        # containers of unknown or known content
        for q in ('std::vector', 'std::deque'):
            for m in ('operator[]', 'front', 'back'):
                h = H.get(q + '::' + m)

                def wrap(I_, st, fr, n, loc, av, h=h, m=m):
                    g = C.get(st, loc) if loc is not None else None
                    if g is None:
                        return None
                    if m != 'operator[]':
                        if g[1] == 0:
                            fault('%s of an empty sequence' % m, n)
                            return I.ok(st, ('ref', loc + (('[', N0),)))
                        return h(I_, st, fr, n, loc, av)
                    i = I.argval(st, av[0])
                    if i[0] == 'n':
                        if not 0 <= i[1] < g[1]:
                            fault('element %d of %d' % (i[1], g[1]), n)
                        return I.ok(st, ('ref', loc + (('[', i),)))
                    if not (I.entails(st, cmp_term('<', i, num(g[1]))) and I.entails(st, cmp_term('>=', i, N0))):
                        fault('element %s of %d' % (show(i)[:40], g[1]), n)
                    return I.ok(st, ('ref', loc + (('[', i),)))
                H[q + '::' + m] = wrap
        # a container that is given content that is not known is not known any more
        for q in ('std::set', 'std::unordered_set', 'std::map', 'std::unordered_map', 'std::vector', 'std::deque'):
            for m in ('emplace', 'insert', 'emplace_back', 'push_back', 'assign', 'erase', 'operator[]', 'count', 'find', 'at'):
                h = H.get(q + '::' + m)
                if h is None:
                    continue

                def lenient(I_, st, fr, n, loc, av, h=h):
                    try:
                        return h(I_, st, fr, n, loc, av)
                    except Unsupported:
                        I.store(st, loc, I.fresh('content', None))
                        return None
                H[q + '::' + m] = lenient
        # strings
        def slen(st, loc):
            v = whole(I.load(st, loc))
            if v[0] == 'str':
                return v, num(len(v[1].encode()))
            t = ('app', 'strlen', v)
            I.bounds[t] = (0, 1 << 40)
            return v, t

        def size(I_, st, fr, n, loc, av):
            return I.ok(st, slen(st, loc)[1]) if loc is not None else None
        B = 'std::basic_string::'
        H[B + 'size'] = H[B + 'length'] = size
        H[B + 'empty'] = lambda I_, st, fr, n, loc, av: I.ok(st, cmp_term('==', slen(st, loc)[1], N0))

        def substr(I_, st, fr, n, loc, av):
            v, l = slen(st, loc)
            a = [I.argval(st, x) for x in av]
            if a and not I.entails(st, cmp_term('<=', I.numify(a[0], st), l)):
                fault('substr from %s of a string that may be shorter' % show(a[0])[:40], n)
            if v[0] == 'str' and all(x[0] == 'n' for x in a):
                return I.ok(st, ('str', v[1][a[0][1]:a[0][1] + (a[1][1] if len(a) > 1 and a[1][1] >= 0 else len(v[1]))]))
            return I.ok(st, I.fresh('substr', None))
        H[B + 'substr'] = substr

        def sat(I_, st, fr, n, loc, av):
            v, l = slen(st, loc)
            i = I.argval(st, av[0]) if av else N0
            if not I.entails(st, cmp_term('<', i, l)):
                fault('a character of a string that may be shorter', n)
            return I.ok(st, ('ref', loc + (('[', i),)))
        for m in ('operator[]', 'at', 'front', 'back'):
            H[B + m] = sat
        def vcopy(I_, st, fr, n, loc, av):
            fn = P.funcs.get(n.get('fn'))
            if fn is None or len(fn.params) != 1 or fn.params[0]['t'].strip_ref().rec != V or not av or av[0][0] != 'ref':
                return None
            if I.load(st, av[0][1] + (('.', M.tag),))[0] == 'n':
                return None
            I.store(st, loc, I.load(st, av[0][1]))
            return I.ok(st, None)
        H['ctor:' + V] = vcopy

        def vassign(I_, st, fr, n, loc, av):
            fn = P.funcs.get(n.get('fn'))
            if fn is None or len(fn.params) != 1 or fn.params[0]['t'].strip_ref().rec != V or not av or av[0][0] != 'ref':
                return None
            I.store(st, loc, I.load(st, av[0][1]))
            return I.ok(st, ('ref', loc))
        H[V + '::operator='] = vassign
        def hashed(I_, st, fr, n, loc, av):
            if len(av) != 1 or av[0][0] != 'ref' or n.get('fn') != HASHV.key:
                return None
            if I.load(st, av[0][1] + (('.', M.tag),))[0] == 'n':
                return None
            if NOHASH:
                I.unhashed.append(n.get('l', 0))
            return I.ok(st, ('app', 'hash', I.load(st, av[0][1])))
        H['std::hash::operator()'] = hashed
        I.unhashed = []
        H['dtor:' + V] = lambda I_, st, fr, loc, t: I_.ok(st, VOID)
        I.on_long_loop = lambda I_, s, fr, n: fault('a loop that has not ended after %d rounds' % I.unroll, n)
        # a position in what holds unknown elements
        for q in ('std::find', 'std::count', 'std::lower_bound', 'std::find_if', 'std::any_of'):
            h = H.get(q)

            def afind(I_, st, fr, n, loc, av, h=h):
                try:
                    return h(I_, st, fr, n, loc, av) if h is not None else None
                except Unsupported:
                    return I_.ok(st, I_.fresh('position', None))
            H[q] = afind
        hd = H.get('std::distance')

        def dist(I_, st, fr, n, loc, av):
            try:
                r = hd(I_, st, fr, n, loc, av) if hd is not None else None
            except Unsupported:
                r = None
            if r is not None:
                return r
            v = I_.fresh('distance', None)
            I_.bounds[v] = (0, 1 << 40)
            return I_.ok(st, v)
        H['std::distance'] = dist

        def addo(I_, st, fr, n, loc, av):
            a, b = [I_.numify(I_.argval(st, x), st) for x in av[:2]]
            if a[0] != 'n' or b[0] != 'n' or av[2][0] not in ('ptr', 'ref'):
                return None
            r = {'a': a[1] + b[1], 's': a[1] - b[1], 'm': a[1] * b[1]}[n['n'].split('builtin_')[1].lstrip('su')[0]]
            w = (r + (1 << 63)) % (1 << 64) - (1 << 63)
            I_.store(st, av[2][1], num(w))
            return I_.ok(st, N1 if w != r else N0)
        for o in ('add', 'sub', 'mul'):
            for t in ('', 's', 'u'):
                for l in ('', 'l', 'll'):
                    if t or not l:
                        H['__builtin_%s%s%s_overflow' % (t, o, l)] = addo
        return I, C

    # a value is hashed: the kinds for which the process ends
    HASHV = one([f for f in P.funcs.values() if f.n == 'operator()' and f.cls and strip_targs(f.cls) == 'std::hash' and len(f.params) == 1 and f.params[0]['t'].strip_ref().rec == V], 'hash of a value')
    NOHASH = []
    for m in TAGS:
        I = c.interp(P, unroll=2)
        I.opaque_pred = lambda fn: fn.key != HASHV.key and 'datatypes/Value.' not in fn.file
        s0, l = State(), (('g', 'hashed'),)
        I.store(s0, l + (('.', M.tag),), TAGS[m])
        valmodel.put(I, s0, M, l, m, TAGS[m], 'h', content=('sym', 'h', 0) if m is not None and M.owning(m) else None)
        if any(k == 'abort' for s, k, v in I.analyse(HASHV, av=[('ref', l)], state=s0) if not lin.infeasible(s.cons)):
            NOHASH.append(NAMES[m])

    LISTV = one([f['id'] for f in fields(P, 'nebula::List') if f['t'].k == 'rec'], 'elements of a list')
    STEPS = one([f['id'] for f in fields(P, 'nebula::Path') if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::vector'], 'steps of a path')
    DSF = {strip_targs(f['t'].targs[0].base): f['id'] for f in fields(P, 'nebula::DataSet') if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::vector'}

    def place(I, C, st, loc, arg, who):
        """an argument: its kind and, for what has elements, how many, or its value"""
        kind, x = arg
        m = BY[kind]
        own_ = m is not None and M.owning(m)
        I.store(st, loc + (('.', M.tag),), TAGS[m])
        cont = ('sym', who, 0) if own_ or kind == 'string' else None
        if x is not None and kind in ('int', 'string'):
            cont = num(x) if kind == 'int' else ('str', x)
        valmodel.put(I, st, M, loc, m, TAGS[m], who, content=cont)
        h = (('heap', who),)
        if x is None or kind in ('int', 'string'):
            return
        if kind == 'list':
            C.make(st, h + (('.', LISTV),), 'vec', [('sym', who + ' element', i) for i in range(x)])
        elif kind == 'path':
            C.make(st, h + (('.', STEPS),), 'vec', [('sym', who + ' step', i) for i in range(x)])
        elif kind == 'dataset':
            for f in DSF.values():
                C.make(st, h + (('.', f),), 'vec', [('sym', who + ' ' + f, i) for i in range(x)])

    def show_args(combo):
        return '(' + ', '.join(('%s' if x is None else '%s of %s' if isinstance(x, int) and k not in ('int',) else '%s %r') % ((k,) if x is None else (k, x)) for k, x in combo) + ')'

    def run(name, combo):
        """[(kind of the result or None, state, how it ended, value)], faults"""
        I, C = mk()
        st = State()
        AV = (('g', 'args'),)
        C.make(st, AV, 'vec', [VOID] * len(combo))
        for i, a in enumerate(combo):
            place(I, C, st, (('g', 'arg%d' % i),), a, 'a%d' % i)
        out = []
        for s, k, v in I.call_value(st, Frame(ctor, 0, -1), {'k': 'Call', 'l': 0, 'a': [], 'n': 'operator()'}, FN[name][3], (('ref', AV),)):
            if lin.infeasible(s.cons):
                continue
            t = None
            if k == 'v':
                l = (('g', 'result'),)
                if v[0] == 'ref':
                    l = v[1]
                else:
                    I.store(s, l, v)
                t = I.load(s, l + (('.', M.tag),))
                t = RES.get(t[1]) if t[0] == 'n' else None
            out.append((t, s, k, v))
        return I, out
    RES = {t[1]: NAMES[m] for m, t in TAGS.items()}
    where, HASHES = {}, set()
    for name, (lo, hi, pure, f) in FN.items():
        fn = P.funcs.get(f[1][-1]) if f[0] == 'lam' else P.funcs.get(f[1]) if f[0] == 'fn' else None
        for k in f[1] if f[0] == 'lam' else ():
            fn = P.funcs.get(k) or fn
        if fn is None:
            raise Broken('the implementation of %s is not understood: %s' % (name, show(f)[:60]))
        where[name] = fn.where()

    def judge(name, combo):
        lo, hi, pure, f = FN[name]
        I, outs = run(name, combo)
        a = show_args(combo)
        ends = sorted({k for t, s, k, v in outs if k != 'v'})
        c.ob('total', name + ': ends with a value', not ends, '%s%s %s' % (name, a, 'ends the process' if 'abort' in ends else 'throws %s' % [v for t, s, k, v in outs if k == 'throw'][0][1] if 'throw' in ends else ends), where[name])
        bad = [x for x in I.faults] + [('element %s of what has fewer' % show(e.args[0]) if e.args else 'an element that is not there', e.line) for t, s, k, v in outs for e in s.trace if e.name == 'out of range']
        c.ob('bounds', name + ': reads what is there', not bad, '%s%s reads %s' % (name, a, bad[0][0]) if bad and not bad[0][0].startswith('a loop') else '%s%s has %s' % (name, a, bad[0][0]) if bad else '', where[name] if not bad else '%s:%d' % (where[name].split(':')[0], bad[0][1]))
        if name in HASHES or I.unhashed:
            HASHES.add(name)
            c.ob('total', name + ': elements', not I.unhashed, '%s%s hashes an element of any kind, and to hash one of %s ends the process' % (name, a, ', '.join(sorted(NOHASH))), where[name])
        if pure:
            src = sorted({e.name for t, s, k, v in outs for e in s.trace if chance(e.name)})
            c.ob('pure', name + ': pure', not src, '%s is declared pure and calls %s' % (name, ', '.join(src)), where[name])
        return outs

    def chance(q):
        return any(x in q for x in ('folly::Random', 'WallClock', '::now', 'std::random', 'mersenne', 'clock_gettime', 'gettimeofday', 'TimeUtils::utc', 'TimeUtils::getUTC', 'tsc', 'Tsc')) or q.rsplit('::', 1)[-1] in ('rand', 'time', 'random', 'drand48', 'rand_r', 'localtime', 'gmtime')
    kinds = [(k, None) for k in sorted(BY) if k not in ('list', 'path', 'dataset')] + [(k, n) for k in ('list', 'path', 'dataset') for n in (0, 2)]
    few = [(k, None) for k in sorted(BY) if any(x in k for x in ('null', 'empty', 'int', 'float', 'string'))] + [('list', 2), ('dataset', 0), ('dataset', 2)]
    INTS, STRS = (-1, 0, 1, 3), ('', 'ab')
    for name in sorted(FN):
        lo, hi, pure, f = FN[name]
        c.ob('arity', name + ': arity', lo <= hi, '%s takes at least %d and at most %d arguments' % (name, lo, hi), where[name])
        top = hi if hi < lo + 8 else lo + 2
        for n in range(lo, top + 1):
            if n > 4:
                continue
            ks = kinds if n <= 2 else few if n == 3 else [k for k in few if k[0] in ('int', 'string', 'float') or 'null' in k[0]]
            for combo in itertools.product(ks, repeat=n):
                outs = judge(name, combo)
                # again with small values, where loops must come to an end
                if 0 < n <= 3 and all(k in ('int', 'string') for k, _ in combo) and any(t is not None and 'null' not in t for t, s, k, v in outs):
                    for vals in itertools.product(*[INTS if k == 'int' else STRS for k, _ in combo]):
                        judge(name, tuple((k, v) for (k, _), v in zip(combo, vals)))
    # numbers next to the ends of their range
    MX, MN = (1 << 63) - 1, -(1 << 63)
    for name in sorted(FN):
        lo, hi, pure, f = FN[name]
        for vals in ((MX - 1, MX), (MX - 1, MX, 3), (MN + 1, MN, -1), (MN + 1, MN, -5), (MX, MX), (MN, MN, -1)):
            if lo <= len(vals) <= hi:
                judge(name, tuple(('int', v) for v in vals))

    # what the table of signatures declares
    SIGS, cur = [], [None]

    def consts(n):
        if isinstance(n, dict):
            if n.get('dk') == 'enumc' and n.get('c') is not None:
                yield n['c'] if isinstance(n['c'], int) else int(n['c']['big'])
            else:
                for k in sorted(n):
                    yield from consts(n[k])
        elif isinstance(n, list):
            for x in n:
                yield from consts(x)

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') == 'Construct' and strip_targs(n.get('q', '')).endswith('TypeSignature::TypeSignature') and len(n['a']) == 2:
                r = list(consts(n['a'][1]))
                if cur[0] is None or len(r) != 1:
                    raise Broken('a signature that is not understood at line %s' % n.get('l'))
                SIGS.append((cur[0], tuple(KIND.get(x) for x in consts(n['a'][0])), KIND.get(r[0]), n.get('l', 0)))
            elif n.get('k') == 'Str':
                cur[0] = n['v']
            else:
                for k in sorted(n):
                    walk(n[k])
        elif isinstance(n, list):
            for x in n:
                walk(x)
    KIND = {t[1]: NAMES[m] for m, t in TAGS.items()}
    g = P.global_init(F + '::typeSignature_')
    if g is None:
        raise Broken('no table of signatures')
    walk(g)
    ANY = KIND[TAGS[None][1]]
    SPECIAL = {'nullvalue', ANY}
    for name, ks, r, line in SIGS:
        at = 'src/common/function/FunctionManager.cpp:%d' % line
        inst = '%s(%s)' % (name, ', '.join(map(str, ks)))
        if name not in FN:
            c.ob('signature', inst + ': defined', False, 'a signature is declared for %s, which is not defined' % name, at)
            continue
        lo, hi, pure, f = FN[name]
        c.ob('signature', inst + ': length', lo <= len(ks) <= hi, 'the signature %s has %d arguments, the function takes %d to %d' % (inst, len(ks), lo, hi), at)
        if not lo <= len(ks) <= hi or None in ks or r is None:
            continue
        outs = judge(name, tuple((k, None) for k in ks))
        got = {t for t, s, k, v in outs if k == 'v'}
        if None in got:
            c.notes.append('%s: a result of a kind that is not known statically' % inst)
        rs = {y for n2, x, y, _ in SIGS if (n2, x) == (name, ks)}
        wrong = sorted(t for t in got if t is not None and t not in SPECIAL and t not in rs)
        c.ob('signature', inst + ': kind', ANY in rs or not wrong, '%s is declared to give %s and gives %s' % (inst, r, ', '.join(wrong)), at)

    # how a function is found: by name, in any case of its letters, and by the number of its arguments
    SIG = SELF[:0] + (('g', F + '::typeSignature_'),)
    fsig = fields(P, 'nebula::TypeSignature')
    SA = one([f['id'] for f in fsig if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::vector'], 'argument types of a signature')
    SR = one([f['id'] for f in fsig if f['t'].k == 'enum'], 'result type of a signature')

    def finder():
        I = c.interp(P, unroll=20)
        C, SM = Conc(I), StatusModel(I, P)
        H = I.hooks
        I.exact_arith = True
        H[F + '::instance'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('ref', SELF))
        text = lambda st, loc: whole(I.load(st, loc))
        letters.install(I, whole)

        def inplace(I_, st, fr, n, loc, av):
            if not av or av[0][0] != 'ref' or text(st, av[0][1])[0] != 'str':
                return None
            I.store(st, av[0][1], ('str', text(st, av[0][1])[1].lower()))
            return I.ok(st, VOID)
        H['folly::toLowerAscii'] = H['boost::algorithm::to_lower'] = H['boost::to_lower'] = inplace
        H['boost::algorithm::to_lower_copy'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('str', text(st, av[0][1])[1].lower())) if av and av[0][0] == 'ref' and text(st, av[0][1])[0] == 'str' else None
        for q in ('std::operator==', 'std::operator!='):
            h = H[q]

            def eq(I_, st, fr, n, loc, av, h=h, neg='!=' in q):
                if len(av) == 2 and all(x[0] == 'ref' and C.get(st, x[1]) is not None for x in av):
                    a, b = [[I.load(st, e) for e in C.elems(st, x[1])] for x in av]
                    if all(x[0] == 'n' for x in a + b):
                        return I.ok(st, num(int((a == b) != neg)))
                return h(I_, st, fr, n, loc, av)
            H[q] = eq
        return I, C, SM

    def same(x, y):
        x, y = whole(x), whole(y)
        return x == y or x[0] == y[0] == 'lam' and x[1] == y[1]
    gets = {m: one([f for f in P.methods_of[F] if f.n == m and f.body], 'function manager ' + m) for m in ('get', 'find', 'getIsPure', 'getReturnType')}
    base = st
    for name in sorted(FN) + ['no such function']:
        lo, hi, pure, f = FN.get(name, (0, 0, False, None))
        for m in ('get', 'find', 'getIsPure'):
            for spell in (name, name.upper()):
                for n in sorted({0, max(lo - 1, 0), lo, hi, hi + 1 if hi < 1 << 62 else hi}):
                    I, C, SM = finder()
                    s0 = base.copy()
                    s0.trace = ()
                    I.store(s0, (('g', 'name'),), ('str', spell))
                    good = name in FN and lo <= n <= hi
                    for s, k, v in I.analyse(gets[m], av=[('ref', (('g', 'name'),)), num(n)], state=s0):
                        if lin.infeasible(s.cons):
                            continue
                        okv, val = None, None
                        if k == 'v' and m == 'find':
                            okv = is_ok(v if v[0] != 'ref' else I.load(s, v[1]))
                        elif k == 'v':
                            o, x = SM.outcome(s, v)
                            okv = None if o is None else o == 'v'
                            if okv:
                                val = whole(x())
                        if k == 'v' and okv is None:
                            raise Broken('what %s answers for %s is not understood' % (m, spell))
                        c.ob('lookup', '%s: %s' % (name, m), k == 'v' and okv == good, '%s(%s, %d) %s although %s' % (m, spell, n, 'finds it' if okv else 'refuses', 'there is no such function' if name not in FN else 'it takes %d to %d arguments' % (lo, hi)), gets[m].where())
                        if okv and good and m == 'getIsPure':
                            c.ob('lookup', '%s: purity' % name, val == num(int(pure)), 'getIsPure(%s, %d) does not answer what the function declares' % (spell, n), gets[m].where())
                        if okv and good and m == 'get':
                            c.ob('lookup', '%s: implementation' % name, same(val, f), 'get(%s, %d) gives something else than the implementation of %s' % (spell, n, name), gets[m].where())
    # what kind of result is promised for kinds of arguments
    I, C, SM = finder()
    sg = State()
    byname = {}
    for name, ks, r, line in SIGS:
        byname.setdefault(name, []).append((ks, r))
    NUM = {v: k for k, v in KIND.items()}
    C.make(sg, SIG, 'map', [(('str', k), VOID) for k in byname])
    for name, l in byname.items():
        e = SIG + (('@', ('str', name)), ('.', 'second'))
        C.make(sg, e, 'vec', [VOID] * len(l))
        for x, (ks, r) in zip(C.elems(sg, e), l):
            C.make(sg, x + (('.', SA),), 'vec', [num(NUM[k]) for k in ks])
            I.store(sg, x + (('.', SR),), num(NUM[r]))
    for name, l in sorted(byname.items()):
        asks = [(ks, {r for k2, r in l if k2 == ks}) for ks, r in l]
        for ks, r in l:
            for odd in ('nullvalue', ANY, 'map'):
                if ks:
                    k2 = (odd,) + ks[1:]
                    if k2 not in [k for k, _ in l]:
                        asks.append((k2, {x for x in [y for y in k2 if y in SPECIAL][:1]}))
            k2 = ks + (ks[:1] or ('map',))
            if k2 not in [k for k, _ in l]:
                asks.append((k2, {x for x in [y for y in k2 if y in SPECIAL][:1]}))
        for ks, want in asks:
            I, C, SM = finder()
            s0 = sg.copy()
            I.store(s0, (('g', 'name'),), ('str', name.upper()))
            C.make(s0, (('g', 'types'),), 'vec', [num(NUM[k]) for k in ks])
            for s, k, v in I.analyse(gets['getReturnType'], av=[('ref', (('g', 'name'),)), ('ref', (('g', 'types'),))], state=s0):
                if lin.infeasible(s.cons):
                    continue
                o, x = SM.outcome(s, v) if k == 'v' else (k, None)
                if o is None:
                    raise Broken('what getReturnType answers is not understood')
                got = KIND.get(whole(x())[1]) if o == 'v' else None
                c.ob('promise', name + ': promised result', got in want if want else o == 's', 'getReturnType(%s, (%s)) answers %s instead of %s' % (name, ', '.join(ks), got or 'an error', ' or '.join(sorted(want)) or 'an error'), gets['getReturnType'].where())
    c.need('total', 60)
    c.need('bounds', 60)
    c.need('pure', 40)
    c.need('arity', 60)
    c.need('signature', 100)
    c.need('lookup', 200)
    c.need('promise', 60)


main('C08', RULE, body)
