import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from statusmodel import *
from conc import Conc

RULE = ('Abstract interpretation of every operation of the metrics registry from an arbitrary registry: sizes, the index of an id, values, times and readings are symbols. '
        'A registration under a new name appends one metric with a lock of its own and returns the id that leads to it, under a known name it returns the id of that name and appends nothing; '
        'an update or reading with a registered id touches the metric of that id only, in bounds, with its lock held, once, at the current second, and the reading is the one of that range and method; '
        'reading by name uses the id stored under that name; for every method, percentile and range text the reading is the one of the registered range of that many seconds, and readAllValue reports exactly the selected readings under these texts; '
        'the name table is read under its lock and written under the exclusive lock (readAllValue excepted); an id is assigned once and never from an invalid one.')
NOTE = 'Registration is documented not to run concurrently with updates and readings; locks of the two metric lists themselves are therefore not demanded. folly time series are taken to work as documented.'
NS = 'nebula::stats::'
Q = NS + 'StatsManager'
SELF = (('self',),)
IDT = NS + 'CounterId'
METHODS = ('SUM', 'COUNT', 'AVG', 'RATE')
RANGES = (5, 60, 600, 3600)


def body(c):
    P = c.load(['stats/StatsManager.cpp'])
    r = P.recs.get(Q)
    if r is None:
        raise Broken('class StatsManager not found')

    def has(t, name):
        return t.k == 'rec' and name in repr(t)
    vecs = [f for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::vector', 'std::deque')]
    SF = one([f['id'] for f in vecs if has(f['t'], 'MultiLevelTimeSeries') and not has(f['t'], 'TimeseriesHistogram')], 'list of stats')
    HF = one([f['id'] for f in vecs if has(f['t'], 'TimeseriesHistogram')], 'list of histograms')
    MF = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::unordered_map', 'std::map') and has(f['t'], 'CounterInfo')], 'table of names')
    LF = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in MUTEX_T], 'lock of the table of names')
    STATS, HISTOS, NAMES, NLOCK = (SELF + (('.', x),) for x in (SF, HF, MF, LF))
    VECS = {STATS: ('sym', 'nstats', 0), HISTOS: ('sym', 'nhistos', 0)}
    info = P.recs.get(Q + '::CounterInfo')
    if info is None:
        raise Broken('CounterInfo not found')
    INDEX = one([f['id'] for f in fields(P, IDT) if f['t'].k == 'int'], 'index of CounterId')
    I_ID = one([f['id'] for f in info.fields if has(f['t'], 'CounterId')], 'id of a name')
    I_M = one([f['id'] for f in info.fields if has(f['t'], 'StatsMethod')], 'methods of a name')
    I_P = one([f['id'] for f in info.fields if has(f['t'], 'pair')], 'percentiles of a name')
    ME, RE = P.enums.get(Q + '::StatsMethod'), P.enums.get(Q + '::TimeRange')
    if ME is None or RE is None:
        raise Broken('enumerations of methods and ranges not found')
    mval = dict(ME['consts'])
    rvals = [v for _, v in RE['consts']]
    if sorted(mval) != sorted(METHODS) or len(rvals) != len(RANGES):
        raise Broken('methods %s, %d ranges' % (sorted(mval), len(rvals)))
    getter = one([f for f in P.methods_of[Q] if f.static and f.ret.k in ('ref', 'ptr') and f.ret.p.k == 'rec' and f.ret.p.base == Q], 'accessor of the registry')
    ID = (('arg', 'id'),)
    IDX = ('sym', 'index', 0)
    NOW = ('sym', 'now', 0)

    def pair_sel(i):
        return ('.', 'first' if i == 0 else 'second')

    def mk(unroll=16):
        I = c.interp(P, unroll=unroll)
        H = I.hooks
        C, SM = Conc(I), StatusModel(I, P)
        I.static_init = lambda fr, v: v['t'] is not None and (v['t'].k == 'array' or v['t'].k == 'rec' and strip_targs(v['t'].base) in ('std::map', 'std::unordered_map', 'std::vector', 'std::array', 'std::set', 'std::unordered_set'))
        H[getter.q] = lambda I, st, fr, n, loc, av: I.ok(st, ('ref', SELF) if getter.ret.k == 'ref' else ('ptr', SELF))
        for w in ('fast', 'slow'):
            for u in ('Sec', 'MilliSec', 'MicroSec'):
                H['nebula::time::WallClock::%sNowIn%s' % (w, u)] = lambda I, st, fr, n, loc, av, u=u: I.ok(st, NOW if u == 'Sec' else ('sym', 'nowIn' + u, 0))

        # std::chrono: whole counts with their unit
        def unit(t):
            t = t.strip_ref() if t is not None else None
            if t is None or t.k != 'rec' or strip_targs(t.base) not in ('std::chrono::duration', 'std::chrono::time_point'):
                return None
            return repr(t.targs[1]) if len(t.targs) > 1 else None
        def dctor(I, st, fr, n, loc, av):
            v = SM.val(st, av[0]) if av else N0
            v = v[1] if v[0] == 'agg' else v
            if v[:2] != ('app', 'dur'):
                u = unit(n.get('t')) or ''
                v = ('app', 'dur', v, ('str', 'sec' if 'ratio<1, 1>' in u or 'ratio<1>' in u or 'ratio<1l, 1l>' in u else u))
            I.store(st, loc, v)
            return [(st, 'v', None)]
        H['ctor:std::chrono::duration'] = dctor
        H['ctor:std::chrono::time_point'] = dctor

        # the two lists of metrics: their sizes are symbols
        def pushes(st, loc):
            return st.ghost.get(('pushes', loc), 0)

        def vsize(st, loc):
            return vadd(VECS[loc], num(pushes(st, loc)))

        def on_vec(h, other):
            def f(I, st, fr, n, loc, av):
                if loc in VECS:
                    return h(I, st, fr, n, loc, av)
                return other(I, st, fr, n, loc, av)
            return f

        def push(I, st, fr, n, loc, av):
            at = loc + (('[', vsize(st, loc)),)
            I.drop(st, at)
            if len(av) == 2:
                for i in (0, 1):
                    I.store(st, at + (pair_sel(i),), SM.val(st, av[i]))
            elif len(av) == 1:
                I.store(st, at, SM.val(st, av[0]))
            else:
                raise Broken('a metric is appended with %d arguments' % len(av))
            if n['n'] not in ('push_back', 'emplace_back'):
                raise Broken('a metric is appended by %s' % n['n'])
            st.ghost[('pushes', loc)] = pushes(st, loc) + 1
            return I.ok(st, ('ref', at))

        def index(I, st, fr, n, loc, av):
            i = SM.val(st, av[0])
            inb = I.entails(st, cmp_term('<=', N0, i)) and I.entails(st, cmp_term('<', i, vsize(st, loc)))
            I.event(st, fr, n, 'element', loc, (i, N1 if inb else N0), None)
            if n['n'] == 'at' and not inb:
                return [(st, 'throw', ('exc', 'std::out_of_range'))]
            return I.ok(st, ('ref', loc + (('[', i),)))
        for m, h, o in (('size', lambda I, st, fr, n, loc, av: I.ok(st, vsize(st, loc)), C.size),
                        ('empty', lambda I, st, fr, n, loc, av: I.ok(st, cmp_term('==', vsize(st, loc), N0)), C.empty),
                        ('push_back', push, C.push), ('emplace_back', push, C.push),
                        ('operator[]', index, C.index), ('at', index, C.at),
                        ('back', lambda I, st, fr, n, loc, av: I.ok(st, ('ref', loc + (('[', vadd(vsize(st, loc), num(-1))),))), C.back)):
            H['std::vector::' + m] = on_vec(h, o)

        # the series themselves
        def series(I, st, fr, n, loc, av):
            v = [SM.val(st, a) for a in av]
            if len(v) == 1 and v[0][0] in ('app', 'agg'):
                v = v[0][1] if v[0][0] == 'agg' else v[0]
                I.store(st, loc, v)
                return [(st, 'v', None)]
            if len(v) != 2:
                raise Broken('a time series is built from %d arguments' % len(v))
            I.store(st, loc, ('app', 'series', v[0], ('tup',) + tuple(whole(I.load(st, e) if e and isinstance(e[0], tuple) else e) for e in levels(st, av[1]))))
            return [(st, 'v', None)]

        def levels(st, a):
            es = C.elems(st, a[1] if a[0] == 'ref' else a)  if a[0] in ('ref',) else None
            if es is None:
                v = SM.val(st, a)
                es = C.array_elems(st, v) or C.std_init(st, {}, v)
            return es
        I.levels = levels
        H['ctor:folly::MultiLevelTimeSeries'] = series
        H['dtor:folly::MultiLevelTimeSeries'] = H['dtor:folly::TimeseriesHistogram'] = lambda I, st, fr, loc, t: [(st, 'v', None)]

        def histo(I, st, fr, n, loc, av):
            I.store(st, loc, ('app', 'histo') + tuple(whole(SM.val(st, a)) for a in av))
            return [(st, 'v', None)]
        H['ctor:folly::TimeseriesHistogram'] = histo

        # operations of a series: (list, index, lock held) and what is done
        def element(st, loc):
            if len(loc) == 1 and loc[0][0] == 'deref' and loc[0][1][0] == 'init':
                l = loc[0][1][1]
                if len(l) > 2 and l[:-2] in VECS and l[-2][0] == '[' and l[-1] == pair_sel(1):
                    return l[:-2], l[-2][1]
            return None, None

        def locked(st, vec, i):
            for mx, shared in st.ghost.get('locks', ()):
                if len(mx) == 1 and mx[0][0] == 'deref' and mx[0][1][0] == 'init' and not shared:
                    l = mx[0][1][1]
                    if len(l) > 2 and l[:-2] == vec and l[-2][0] == '[' and l[-1] == pair_sel(0) and I.entails(st, cmp_term('==', l[-2][1], i)):
                        return True
            return False

        def use(I, st, fr, n, loc, av):
            vec, i = element(st, loc)
            if vec is None:
                raise Broken('a series outside of the registry is used: %s' % showloc(loc)[:80])
            a = tuple(whole(SM.val(st, x)) for x in av)
            m = n['n']
            r = ('app', 'reading', ('str', m), ('str', vec[-1][1]), i) + a
            I.event(st, fr, n, 'use', vec, (('str', m), i, N1 if locked(st, vec, i) else N0) + a, r)
            return I.ok(st, VOID if m in ('addValue', 'update', 'flush', 'clear') else r)
        for q in ('folly::MultiLevelTimeSeries', 'folly::TimeseriesHistogram'):
            for f in P.methods_of.get(q, []):
                H[q + '::' + f.n] = use
            for m in ('addValue', 'update', 'sum', 'count', 'avg', 'rate', 'getPercentileEstimate', 'addRepeatedValue', 'addValues', 'addValueAggregated', 'countRate', 'flush', 'clear', 'getPercentileBucketMin', 'getLevel'):
                H[q + '::' + m] = use

        # accesses of the table of names: (name, field, written, exclusively or shared locked)
        def access(write):
            def f(I, st, loc, *rest):
                if loc[:len(NAMES)] == NAMES and len(loc) > len(NAMES) + 1:
                    held = [sh for mx, sh in st.ghost.get('locks', ()) if mx == NLOCK]
                    field = loc[len(NAMES) + 2][1] if len(loc) > len(NAMES) + 2 else ''
                    acc.append((write, field, bool(held) and not (write and held[0])))
            return f
        acc = I.accesses = []
        I.on_read, I.on_write = access(False), access(True)

        # what is built in place
        def mku(I, st, fr, n, loc, av):
            t = n.get('t')
            at = t.targs[0] if t is not None and t.targs else None
            b = strip_targs(at.base) if at is not None and getattr(at, 'k', '') == 'rec' else ''
            if 'ctor:' + b not in H:
                return None
            I.counter += 1
            l = (('h', I.counter, at.s),)
            H['ctor:' + b](I, st, fr, n, l, av)
            return I.ok(st, ('ptr', l))
        H['std::make_unique'] = H['std::make_shared'] = mku

        def mkpair(I, st, fr, n, loc, av):
            l = I.new_temp()
            for i in (0, 1):
                I.store(st, l + (pair_sel(i),), SM.val(st, av[i]))
            return I.ok(st, I.load(st, l))
        H['std::make_pair'] = mkpair
        H['std::forward_as_tuple'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'fwd') + tuple(av))

        def emplace(I, st, fr, n, loc, av):
            if loc != NAMES:
                return C.insert(I, st, fr, n, loc, av)
            access(True)(I, st, NAMES + (('@', 0), ('.', 'second')))

            def items(a):
                v = whole(SM.val(st, a))
                return list(v[2:]) if v[:2] == ('app', 'fwd') else None
            if len(av) == 3 and items(av[1]) is not None:
                key, parts = items(av[1]), items(av[2])
            elif n['n'] == 'try_emplace':
                key, parts = av[:1], list(av[1:])
            elif len(av) == 2:
                key, parts = av[:1], None
            else:
                return C.insert(I, st, fr, n, loc, av)
            kv = C.keyof(st, key[0])
            g = C.get(st, NAMES)
            if kv in g[1]:
                return I.ok(st, ('app', 'placed'))
            at = NAMES + (('@', kv), ('.', 'second'))
            if parts is None:
                outs = [(st, 'v', None)]
                I.store(st, at, SM.val(st, av[1]))
            else:
                cs = [f for f in P.methods_of.get(Q + '::CounterInfo', []) if f.ctor and len(f.params) == len(parts) and (f.body is not None or f.inits)]
                outs = I.run_ctor(st, fr, n, one(cs, 'constructor of an entry'), at, parts)
            res = []
            for s, k, v in outs:
                if k == 'v':
                    I.store(s, NAMES + (('@', kv), ('.', 'first')), kv)
                    C.put(s, NAMES, 'map', C.get(s, NAMES)[1] + (kv,))
                    v = ('app', 'placed')
                res.append((s, k, v))
            return res
        for m in ('emplace', 'try_emplace', 'insert'):
            for q in ('std::unordered_map::', 'std::map::'):
                H[q + m] = emplace

        def names(h):
            def f(I, st, fr, n, loc, av):
                if loc == NAMES:
                    access(False)(I, st, NAMES + (('@', 0), ('.', 'second')))
                return h(I, st, fr, n, loc, av)
            return f
        for m in ('find', 'end', 'begin', 'cend', 'cbegin', 'count', 'at', 'size', 'empty'):
            for q in ('std::unordered_map::', 'std::map::'):
                if q + m in H:
                    H[q + m] = names(H[q + m])

        # texts
        def text(st, a):
            v = whole(SM.val(st, a))
            if v[0] == 'ref' or v[0] == 'ptr' and v[1] and v[1][0][0] == 'lit':
                v = C.norm(('init', v[1]))
            v = C.norm(v)
            if v[0] != 'str':
                raise Unsupported('text %s' % show(v)[:60])
            return v[1]

        def spctor(I, st, fr, n, loc, av):
            if not av:
                v = ('str', '')
            elif len(av) == 1:
                v = SM.val(st, av[0])
                v = C.norm(whole(v)) if whole(v)[0] in ('str', 'lit', 'init') else ('str', text(st, v)) if v[0] in ('ref', 'ptr') else v
            else:
                p, l = SM.val(st, av[0]), SM.val(st, av[1])
                if p[0] == 'ptr' and p[1][-1][0] == '[' and p[1][-1][1][0] == 'n' and l[0] == 'n':
                    k, t = p[1][-1][1][1], text(st, ('ref', p[1][:-1]))
                elif p[0] in ('str', 'ptr') and l[0] == 'n':
                    k, t = 0, text(st, p)
                else:
                    raise Unsupported('piece of %s' % show(p)[:60])
                if k + l[1] > len(t):
                    raise Broken('a piece reaches past the end of its text')
                v = ('str', t[k:k + l[1]])
            I.store(st, loc, v)
            return [(st, 'v', None)]
        for q in ('folly::StringPiece', 'folly::Range'):
            H['ctor:' + q] = spctor
            for m in ('toString', 'str', 'data', 'fbstr'):
                H[q + '::' + m] = lambda I, st, fr, n, loc, av: I.ok(st, ('str', text(st, ('ref', loc))))
            H[q + '::size'] = lambda I, st, fr, n, loc, av: I.ok(st, num(len(text(st, ('ref', loc)))))
            H[q + '::empty'] = lambda I, st, fr, n, loc, av: I.ok(st, num(int(not text(st, ('ref', loc)))))

            def spat(I, st, fr, n, loc, av):
                i, t = SM.val(st, av[0]), text(st, ('ref', loc))
                if i[0] != 'n' or i[1] > len(t):
                    raise Broken('character %s of a text' % show(i))
                I.store(st, loc + (('[', i),), num(ord((t + chr(0))[i[1]])))
                return I.ok(st, ('ref', loc + (('[', i),)))
            H[q + '::operator[]'] = spat

            def sub(I, st, fr, n, loc, av):
                t, a = text(st, ('ref', loc)), [SM.val(st, x) for x in av]
                if any(x[0] != 'n' for x in a[:2]) or a[0][1] > len(t):
                    return [(st, 'throw', ('exc', 'std::out_of_range'))]
                return I.ok(st, ('str', t[a[0][1]:][:a[1][1]] if len(a) > 1 else t[a[0][1]:]))
            H[q + '::subpiece'] = sub

        def split(I, st, fr, n, loc, av):
            d, t = text(st, av[0]), text(st, av[1])
            ign = len(av) > 3 and SM.val(st, av[3]) != N0
            ps = [x for x in t.split(d) if x or not ign] if t or not ign else []
            tgt = av[2][1]
            g = C.get(st, tgt)
            old = [I.load(st, e) for e in C.elems(st, tgt)] if g is not None else []
            C.make(st, tgt, 'vec', old + [('str', x) for x in ps])
            return I.ok(st, VOID)
        H['folly::split'] = split
        H['folly::trimWhitespace'] = lambda I, st, fr, n, loc, av: I.ok(st, ('str', text(st, av[0]).strip(' \t\n\r')))

        def lower(I, st, fr, n, loc, av):
            I.store(st, av[0][1], ('str', text(st, av[0]).lower()))
            return I.ok(st, VOID)
        H['folly::toLowerAscii'] = lower

        def to(I, st, fr, n, loc, av):
            t = n.get('t')
            if t is not None and t.k == 'rec' and strip_targs(t.base) == 'std::basic_string':
                vs = [C.norm(whole(SM.val(st, a))) for a in av]
                vs = [('str', str(v[1])) if v[0] == 'n' else ('str', text(st, v)) if v[0] in ('ref', 'ptr') else v for v in vs]
                return I.ok(st, ('str', ''.join(v[1] for v in vs)) if all(v[0] == 'str' for v in vs) else I.fresh('text', t))
            if t is None or t.k != 'float' or len(av) != 1:
                return None
            x = text(st, av[0]).strip()
            if not x.isdigit():
                return [(st, 'throw', ('exc', 'std::range_error'))]
            return I.ok(st, ('app', 'number', ('str', x)))
        H['folly::to'] = to

        def printf(I, st, fr, n, loc, av):
            vs = [C.norm(whole(SM.val(st, a))) for a in av]
            vs = [('str', text(st, v)) if v[0] in ('ref', 'ptr') else v for v in vs]
            ps = re.split(r'%(?:s|d|ld|lu|i|u)', vs[0][1]) if vs[0][0] == 'str' else []
            if len(ps) != len(vs) or any('%' in p for p in ps) or any(v[0] not in ('str', 'n') for v in vs):
                return I.ok(st, I.fresh('text', n.get('t')))
            return I.ok(st, ('str', ps[0] + ''.join(str(v[1]) + p for v, p in zip(vs[1:], ps[1:]))))
        H['folly::stringPrintf'] = printf

        def plus(I, st, fr, n, loc, av):
            a, b = [av[0], av[1]] if len(av) == 2 else [('ref', loc), av[0]]
            return I.ok(st, ('str', text(st, a) + text(st, b)))
        H['std::operator+'] = plus

        def pluseq(I, st, fr, n, loc, av):
            I.store(st, loc, ('str', text(st, ('ref', loc)) + text(st, av[0])))
            return I.ok(st, ('ref', loc))
        H['std::basic_string::operator+='] = H['std::basic_string::append'] = pluseq
        return I, C, SM, vsize

    def whole(v):
        return v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v

    from fractions import Fraction

    def pctval(v):
        """the number a percentile expression stands for"""
        v = whole(v)
        if v is None:
            return None
        if v[0] == 'n':
            return Fraction(v[1])
        if v[0] == 'f':
            return Fraction(v[1])
        if v[0] == 'app' and v[1] == 'number':
            return Fraction(v[2][1])
        if v[0] == 'fm':
            r = Fraction(v[1])
            for a, k in v[2]:
                a = pctval(a)
                if a is None or (a == 0 and k < 0):
                    return None
                r *= a ** k
            return r
        if v[0] == 'app' and len(v) == 4 and v[1] in ('/', '*', '-', '+', 'f/', 'f*', 'f-', 'f+'):
            a, b = pctval(v[2]), pctval(v[3])
            if a is None or b is None or (v[1][-1] == '/' and b == 0):
                return None
            return {'/': lambda: a / b, '*': lambda: a * b, '-': lambda: a - b, '+': lambda: a + b}[v[1][-1]]()
        if v[0] == 'app' and len(v) == 3 and ('cast' in v[1] or v[1].startswith('to')):
            return pctval(v[2])
        return None

    def methods(s, I, C, at):
        g = C.get(s, at)
        return None if g is None or g[0] != 'vec' else [I.load(s, e) for e in C.elems(s, at)]

    def percents(s, I, C, at):
        g = C.get(s, at)
        if g is None or g[0] != 'vec':
            return None
        return [(whole(I.load(s, e + (pair_sel(0),))), pctval(I.load(s, e + (pair_sel(1),)))) for e in C.elems(s, at)]

    def table_locks(what, I, fn, unlocked=()):
        bad = sorted({(w, f) for w, f, ok in I.accesses if not ok and f not in unlocked})
        c.ob('locks', '%s: table of names' % what, not bad, '%s %s the table of names%s without holding its lock%s' % (
            what, 'writes' if bad and bad[-1][0] else 'reads', ' (%s)' % bad[-1][1] if bad and bad[-1][1] else '', ' exclusively' if bad and bad[-1][0] else ''), fn.where())

    # ---------------------------------------------------------- registration
    SECONDS = {}
    ENTRY = NAMES + (('@', ('str', 'k')), ('.', 'second'))
    for nm, na, mine, other in (('registerStats', 2, STATS, HISTOS), ('registerHisto', 5, HISTOS, STATS)):
        fn = c.fn(P, Q + '::' + nm, na)
        for known in (False, True):
            I, C, SM, vsize = mk()
            I.bounds[IDX] = (1, (1 << 30)) if mine == STATS else (-(1 << 30), -1)
            for z in VECS.values():
                I.bounds[z] = (0, 1 << 30)
            av = [('str', 'k') if p is fn.params[0] else ('str', 'avg, P99 ,rate') if p is fn.params[-1] else ('argv', p['n']) for p in fn.params]

            def su(I, st, fr):
                C.make(st, NAMES, 'map', [(('str', 'a'), ('sym', 'entry', 0))] + ([(('str', 'k'), ('sym', 'entry', 1))] if known else []) + [(('str', 'z'), ('sym', 'entry', 2))])
                if known:
                    I.store(st, ENTRY + (('.', I_ID), ('.', INDEX)), IDX)
                    C.make(st, ENTRY + (('.', I_M),), 'vec', [num(mval['SUM'])])
                    C.make(st, ENTRY + (('.', I_P),), 'vec', [])
                I.accesses.clear()
            for s, k, v in I.analyse(fn, av=av, setup=su):
                what = '%s of a %s name' % (nm, 'known' if known else 'new')
                c.ob('register', what + ' returns', k == 'v', '%s ends by %s' % (what, k), fn.where())
                if k != 'v':
                    continue
                idx = vfield(I, s, v, (('.', INDEX),))
                order = C.get(s, NAMES)[1]
                c.ob('register', what + ': names', sorted(order) == [('str', x) for x in 'akz'] and [whole(I.load(s, NAMES + (('@', ('str', x)), ('.', 'second')))) for x in 'az'] == [('sym', 'entry', 0), ('sym', 'entry', 2)],
                     '%s changes other names' % what, fn.where())
                if ('str', 'k') not in order:
                    c.ob('register', what + ': entered', False, '%s does not enter the name' % what, fn.where())
                    continue
                stored = I.load(s, ENTRY + (('.', I_ID), ('.', INDEX)))
                c.ob('register', what + ': id of the name', I.entails(s, cmp_term('==', stored, idx)), '%s returns the id %s, the name has %s' % (what, show(idx), show(stored)), fn.where())
                c.ob('register', what + ': methods', methods(s, I, C, ENTRY + (('.', I_M),)) == [num(mval['AVG']), num(mval['RATE'])], '%s keeps the methods %s of "avg, P99 ,rate"' % (
                    what, [show(x) for x in methods(s, I, C, ENTRY + (('.', I_M),)) or []]), fn.where())
                want = [] if mine == STATS else [(('str', 'p99'), 99)]
                got = percents(s, I, C, ENTRY + (('.', I_P),))
                c.ob('register', what + ': percentiles', got == want, '%s keeps the percentiles %s of "avg, P99 ,rate"' % (what, got), fn.where())
                n1, n2 = s.ghost.get(('pushes', mine), 0), s.ghost.get(('pushes', other), 0)
                c.ob('register', what + ': metrics appended', (n1, n2) == ((0, 0) if known else (1, 0)), '%s appends %d metrics to its own list and %d to the other' % (what, n1, n2), fn.where())
                if known:
                    c.ob('register', what + ': same id', I.entails(s, cmp_term('==', idx, IDX)), '%s returns %s instead of its id' % (what, show(idx)), fn.where())
                    continue
                if (n1, n2) != (1, 0):
                    continue
                at = vadd(idx, num(-1)) if mine == STATS else vadd(num(-1), idx, -1)
                c.ob('register', what + ': id leads to it', I.entails(s, cmp_term('==', at, VECS[mine])), '%s returns the id %s for element %s of %d more' % (what, show(idx), show(VECS[mine]), n1), fn.where())
                el = mine + (('[', VECS[mine]),)
                mx, ser = I.load(s, el + (pair_sel(0),)), I.load(s, el + (pair_sel(1),))
                c.ob('register', what + ': own lock', mx[0] == 'ptr' and mx[1][0][0] == 'h' and 'mutex' in str(mx[1][0][2]), '%s appends a metric without a lock of its own (%s)' % (what, show(mx)[:60]), fn.where())
                sv = whole(I.load(s, ser[1])) if ser[0] == 'ptr' and ser[1][0][0] == 'h' else None
                if mine == HISTOS:
                    ok = sv is not None and sv[:2] == ('app', 'histo') and len(sv) == 6
                    names3 = [('argv', p['n']) for p in fn.params[1:4]]
                    c.ob('register', what + ': buckets', ok and list(sv[2:5]) == names3, '%s builds its buckets from %s' % (what, [show(x)[:40] for x in sv[2:5]] if sv else None), fn.where())
                    sv = sv[5] if ok else None
                ok = sv is not None and sv[:2] == ('app', 'series')
                secs = [x[2][1] if x[:2] == ('app', 'dur') and x[2][0] == 'n' and x[3] == ('str', 'sec') else None for x in sv[3][1:]] if ok else []
                c.ob('register', what + ': ranges', sorted(secs, key=str) == sorted(RANGES, key=str), '%s registers the ranges %s seconds' % (what, secs), fn.where())
                SECONDS.setdefault(mine, secs)
                c.ob('register', what + ': same ranges', SECONDS[mine] == secs, '%s registers other ranges on another path' % what, fn.where())
            table_locks('%s of a %s name' % (nm, 'known' if known else 'new'), I, fn)
    c.need('register', 40)
    # ---------------------------------------------------------- updates and readings by id
    rname = {'FIVE_SECONDS': 5, 'ONE_MINUTE': 60, 'TEN_MINUTES': 600, 'ONE_HOUR': 3600}
    if sorted(rname) != sorted(n for n, _ in RE['consts']):
        raise Broken('ranges %s' % sorted(n for n, _ in RE['consts']))
    rsec = {v: rname[n] for n, v in RE['consts']}
    NS_, NH = VECS[STATS], VECS[HISTOS]
    READING = {'SUM': 'sum', 'COUNT': 'count', 'AVG': 'avg', 'RATE': 'rate'}

    def state(I, cls):
        for z in VECS.values():
            I.bounds[z] = (0, 1 << 30)
        I.bounds[IDX] = (-(1 << 31), (1 << 31) - 1)

    def suppose(I, st, cls):
        """assumes that the id belongs to that class"""
        for z in {'stats': [cmp_term('<=', N1, IDX), cmp_term('<=', IDX, NS_)], 'histogram': [cmp_term('<=', IDX, num(-1)), cmp_term('<=', vadd(N0, NH, -1), IDX)],
                  'no': [cmp_term('==', IDX, N0)], 'foreign': [cmp_term('<', IDX, vadd(N0, NH, -1))]}[cls]:
            r = I.assume(st, z)
            if isinstance(r, State):
                st = r

    def used(I, s):
        return [e for e in s.trace if e.name == 'use']

    def judge(rule, what, I, s, k, v, SM, cls, op, arg, fn, want_range=None, index=IDX):
        """the uses of the registry on one path, for an id of that class"""
        us = used(I, s)
        vec = STATS if cls == 'stats' else HISTOS
        at = vadd(index, num(-1)) if cls == 'stats' else vadd(num(-1), index, -1)
        if k != 'v':
            c.ob(rule, what + ' returns', False, '%s ends by %s' % (what, k), fn.where())
            return
        c.ob(rule, what + ' returns', True)
        oob = [e for e in s.trace if e.name == 'element' and e.args[1] == N0]
        c.ob(rule, what + ': in bounds', not oob, '%s reads element %s of %s, which may not exist' % (what, show(oob[0].args[0]) if oob else '', oob[0].recv[-1][1] if oob else ''), fn.where())
        bad = [e for e in us if e.recv != vec or not I.entails(s, cmp_term('==', e.args[1], at))]
        c.ob(rule, what + ': its own metric', not bad, '%s uses element %s of %s' % (what, show(bad[0].args[1]) if bad else '', bad[0].recv[-1][1] if bad else ''), fn.where())
        un = [e for e in us if e.args[2] != N1]
        c.ob(rule, what + ': locked', not un, '%s calls %s without the lock of that metric' % (what, un[0].args[0][1] if un else ''), fn.where())
        if bad:
            return
        ups = [e for e in us if e.args[0][1] in ('update', 'addValue')]
        times = [e.args[3] for e in ups if len(e.args) > 3]
        c.ob(rule, what + ': current second', all(t[:2] == ('app', 'dur') and t[2] == NOW and t[3] == ('str', 'sec') for t in times), '%s hands the time %s to the series' % (what, [show(t)[:60] for t in times]), fn.where())
        if op == 'addValue':
            c.ob(rule, what + ': once', [e.args[0][1] for e in us].count('addValue') == 1 and all(e.args[0][1] in ('addValue', 'update') for e in us), '%s calls %s' % (what, [e.args[0][1] for e in us]), fn.where())
            vs = [e.args[4] for e in us if e.args[0][1] == 'addValue' and len(e.args) > 4]
            c.ob(rule, what + ': value', vs == [arg], '%s adds %s' % (what, [show(x)[:40] for x in vs]), fn.where())
            return
        reads = [i for i, e in enumerate(us) if e.args[0][1] not in ('update', 'addValue')]
        c.ob(rule, what + ': nothing added', all(e.args[0][1] != 'addValue' for e in us), '%s adds a value' % what, fn.where())
        c.ob(rule, what + ': brought up to date', all(any(us[j].args[0][1] == 'update' for j in range(i)) for i in reads), '%s reads before bringing the series up to date' % what, fn.where())
        kind, val = SM.outcome(s, v)
        if kind != 'v':
            c.ob(rule, what + ': succeeds', False, '%s fails' % what, fn.where())
            return
        got = reading(val())
        c.ob(rule, what + ': succeeds', True)
        if op == 'pct':
            ok = got is not None and got[2] == ('str', 'getPercentileEstimate') and len(got) == 7
            p, lev = (got[5], got[6]) if ok else (None, None)
            ok = ok and (p == arg or not isinstance(arg, tuple) and pctval(p) == arg)
        else:
            ok = got is not None and got[2] == ('str', READING[op]) and len(got) == 6
            lev = got[5] if ok else None
        c.ob(rule, what + ': the reading asked for', ok, '%s returns %s' % (what, show(got)[:90] if got is not None else show(val())[:60]), fn.where())
        if ok:
            sec = SECONDS.get(vec, [])
            c.ob(rule, what + ': range', lev[0] == 'n' and 0 <= lev[1] < len(sec) and sec[lev[1]] == want_range, '%s reads level %s, registered for %s seconds' % (
                what, show(lev), sec[lev[1]] if lev[0] == 'n' and 0 <= lev[1] < len(sec) else 'no'), fn.where())

    def reading(v):
        v = whole(v)
        while v is not None and v[0] == 'app' and v[1] != 'reading' and len(v) >= 3 and ('cast' in v[1] or v[1].startswith('to')):
            v = whole(v[2])
        return v if v is not None and v[:2] == ('app', 'reading') else None

    def failed(rule, what, I, s, k, v, SM, fn):
        kind = SM.outcome(s, v)[0] if k == 'v' else k
        oob = [e for e in s.trace if e.name == 'element' and e.args[1] == N0]
        c.ob(rule, what + ' fails', kind == 's' and not used(I, s) and not oob, '%s %s' % (what, 'returns a value' if kind == 'v' else 'touches a metric' if kind == 's' else 'ends by %s' % k), fn.where())

    def params(fn, ids, rv=None, mv=None, name=None):
        av = []
        for p in fn.params:
            t = p['t'].strip_ref()
            if t.k == 'rec' and t.base == IDT:
                av.append(('ref', ids) if p['t'].k == 'ref' else ('init', ids))
            elif t.k == 'rec':
                l = (('arg', p['n']),)
                av.append(('ref', l) if p['t'].k in ('ref', 'rref') else name)
            elif t.k == 'enum':
                av.append(num(mv) if 'StatsMethod' in repr(t) else num(rv))
            else:
                av.append(('argv', p['n']))
        return av

    def byid(fn):
        return any(p['t'].strip_ref().k == 'rec' and p['t'].strip_ref().base == IDT for p in fn.params)

    def entry(I, st, idx, key='k', ms=(), ps=None, C=None):
        at = NAMES + (('@', ('str', key)), ('.', 'second'))
        I.store(st, at + (('.', I_ID), ('.', INDEX)), idx)
        C.make(st, at + (('.', I_M),), 'vec', [num(m) for m in ms])
        C.make(st, at + (('.', I_P),), 'vec', [])
        for i, (n, p) in enumerate(ps or ()):
            e = at + (('.', I_P), ('[', num(i)))
            I.store(st, e + (pair_sel(0),), ('str', n))
            I.store(st, e + (pair_sel(1),), p)
        if ps:
            C.put(st, at + (('.', I_P),), 'vec', len(ps))

    fns = {n: [f for f in P.methods_of[Q] if f.n == n and f.static and f.body is not None] for n in ('addValue', 'readStats', 'readHisto')}
    for n in fns:
        for fn in fns[n]:
            if not fn.where().split(':')[0].endswith('.cpp') and n == 'readValue':
                continue
            ids = byid(fn)
            for cls in ('stats', 'histogram', 'no', 'foreign') if ids else ('stats', 'histogram', 'unknown'):
                combos = [(rv, mv) for rv in rsec for mv in METHODS] if n == 'readStats' else [(rv, None) for rv in rsec] if n == 'readHisto' else [(None, None)]
                if cls in ('no', 'foreign', 'unknown'):
                    if cls == 'foreign' and n != 'readHisto' or cls == 'no' and n == 'addValue':
                        continue
                    combos = combos[:1]
                for rv, mv in combos:
                    I, C, SM, vsize = mk()
                    state(I, cls)

                    def su(I, st, fr):
                        I.store(st, ID + (('.', INDEX),), IDX)
                        C.make(st, NAMES, 'map', [(('str', x), ('sym', 'entry', 0)) for x in ('az' if cls == 'unknown' else 'akz')])
                        if cls != 'unknown':
                            suppose(I, st, cls)
                            entry(I, st, IDX, C=C)
                        for p in fn.params:
                            if 'basic_string' in repr(p['t']):
                                I.store(st, (('arg', p['n']),), ('str', 'k'))
                        I.accesses.clear()
                    what = '%s(%s%s%s)' % (n, 'id' if ids else 'name', ', %d s' % rsec[rv] if rv is not None else '', ', ' + mv if mv else '') + ' of %s' % {'stats': 'a counter', 'histogram': 'a histogram', 'no': 'an invalid id', 'foreign': 'an id out of range', 'unknown': 'an unknown name'}[cls]
                    outs = I.analyse(fn, av=params(fn, ID, rv, mval.get(mv), ('str', 'k')), setup=su)
                    for s, k, v in outs:
                        if cls in ('no', 'foreign', 'unknown') or (n == 'readHisto' and cls == 'stats'):
                            failed('by id' if ids else 'by name', what, I, s, k, v, SM, fn)
                        else:
                            arg = [('argv', p['n']) for p in fn.params if p['t'].k in ('int', 'float')]
                            judge('by id' if ids else 'by name', what, I, s, k, v, SM, cls, {'addValue': 'addValue', 'readHisto': 'pct'}.get(n, mv), arg[0] if arg else None, fn, rsec.get(rv))
                        c.ob('by id' if ids else 'by name', what + ': names', C.get(s, NAMES)[1] == tuple(('str', x) for x in ('az' if cls == 'unknown' else 'akz')) and all(not s.ghost.get(('pushes', z)) for z in VECS), '%s changes the registry' % what, fn.where())
                    c.ob('by id' if ids else 'by name', what + ' analysed', bool(outs))
                    if not ids:
                        table_locks('%s by name' % n, I, fn, (I_ID,))
    c.need('by id', 200)
    c.need('by name', 100)


    # ---------------------------------------------------------- readings by text
    def pct_of(t):
        """the percentile a text names: two digits before the point"""
        d = t[1:]
        if t[:1] != 'p' or not d.isdigit() or len(d) > 6:
            return None
        return Fraction(int(d), 10 ** max(0, len(d) - 2))
    fn = one([f for f in P.methods_of[Q] if f.n == 'readValue' and len(f.params) == 1 and f.body is not None], 'readValue of a text')
    WORDS = [m.lower() for m in METHODS] + ['SUM', 'Rate', 'p5', 'p99', 'P95', 'p999', 'p9999', 'p99999', 'p999999', 'p05', 'p', 'p1234567', 'px9', 'max', 'sums', '99', 'average']
    TEXTS = [('k.%s.%s' % (w, x), w, x) for w in WORDS for x in ([str(y) for y in RANGES] if w in ('sum', 'count', 'avg', 'rate', 'p99') else ['60'])]
    TEXTS += [('k.sum.' + x, 'sum', x) for x in ('6', '61', '3601', '060')] + [('k.sum', None, None), ('k', None, None), ('', None, None), ('k.x.sum.60', None, None), ('x.sum.60', 'unknown', None)]
    for text, w, x in TEXTS:
        for cls in ('stats', 'histogram'):
            I, C, SM, vsize = mk()
            state(I, cls)

            def su(I, st, fr):
                C.make(st, NAMES, 'map', [(('str', y), ('sym', 'entry', 0)) for y in 'akz'])
                suppose(I, st, cls)
                entry(I, st, IDX, C=C)
                I.accesses.clear()
            p0 = fn.params[0]['t']
            outs = I.analyse(fn, av=[('str', text)] if p0.k == 'rec' else [('ref', (('arg', fn.params[0]['n']),))],
                             setup=lambda I, st, fr: (su(I, st, fr), I.store(st, (('arg', fn.params[0]['n']),), ('str', text)) if p0.k != 'rec' else None))
            m = (w or '').upper()
            pc = pct_of((w or '').lower())
            good = x in [str(y) for y in RANGES] and (m in METHODS or pc is not None and cls == 'histogram')
            what = 'readValue("%s") of a %s' % (text, 'counter' if cls == 'stats' else cls)
            for s, k, v in outs:
                if good:
                    judge('by text', what, I, s, k, v, SM, cls, m if m in METHODS else 'pct', pc, fn, int(x))
                else:
                    failed('by text', what, I, s, k, v, SM, fn)
            c.ob('by text', what + ' analysed', bool(outs))
            table_locks('readValue', I, fn, (I_ID,))
    c.need('by text', 300)

    # ---------------------------------------------------------- selection of readings
    fn = one([f for f in P.methods_of[Q] if f.n == 'parseStats' and len(f.params) == 3], 'parser of selections')
    outm, outp = (('arg', fn.params[1]['n']),), (('arg', fn.params[2]['n']),)
    for text in WORDS + ['', 'sum,count,avg,rate', ' rate , SUM,p99,p9999 ', 'p95,max,avg', 'px,p99', ',,sum', 'sum,sum']:
        I, C, SM, vsize = mk()
        ws = [y.strip().lower() for y in text.split(',') if y]
        wm = [num(mval[y.upper()]) for y in ws if y.upper() in METHODS]
        wp = [(('str', y), pct_of(y)) for y in ws if pct_of(y) is not None]
        outs = I.analyse(fn, av=[('str', text), ('ref', outm), ('ref', outp)], setup=lambda I, st, fr: (C.make(st, outm, 'vec', []), C.make(st, outp, 'vec', [])))
        for s, k, v in outs:
            c.ob('selection', '"%s" returns' % text, k == 'v', 'parsing the selection "%s" ends by %s' % (text, k), fn.where())
            if k == 'v':
                gm, gp = methods(s, I, C, outm), percents(s, I, C, outp)
                c.ob('selection', '"%s" methods' % text, gm == wm, 'the selection "%s" selects the methods %s' % (text, [show(y) for y in gm or []]), fn.where())
                c.ob('selection', '"%s" percentiles' % text, gp == wp, 'the selection "%s" selects the percentiles %s' % (text, gp), fn.where())
        c.ob('selection', '"%s" analysed' % text, bool(outs))
    c.need('selection', 60)

    # ---------------------------------------------------------- all readings
    fn = one([f for f in P.methods_of[Q] if f.n == 'readAllValue'], 'readAllValue')
    OUT = (('arg', fn.params[0]['n']),)
    IX = [('sym', 'index', 1 + i) for i in range(3)]
    PS = [('p95', num(95)), ('p999', ('app', 'number', ('str', '99')))]
    for ents in ([], [('s', 'stats', METHODS, ())], [('h', 'histogram', ('AVG',), PS)], [('s', 'stats', ('RATE', 'SUM'), ()), ('h', 'histogram', (), PS), ('n', 'stats', (), ())]):
        I, C, SM, vsize = mk(40)
        state(I, None)
        H = I.hooks

        def obj(I, st, fr, n, loc, av):
            a = [whole(SM.val(st, x)) for x in av]
            return I.ok(st, ('app', 'objectmaker') + tuple(a))
        H['folly::dynamic::object'] = obj
        H['folly::dynamic::ObjectMaker::operator()'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'objectmaker') + tuple(whole(I.load(st, loc))[2:]) + tuple(whole(SM.val(st, x)) for x in av))

        def dctor(I, st, fr, n, loc, av):
            I.store(st, loc, whole(SM.val(st, av[0])) if av else N0)
            return [(st, 'v', None)]
        H['ctor:folly::dynamic'] = dctor
        H['dtor:folly::dynamic'] = lambda I, st, fr, loc, t: [(st, 'v', None)]

        def report(I, st, fr, n, loc, av):
            I.event(st, fr, n, 'report', loc, tuple(whole(SM.val(st, x)) for x in av), None)
            return I.ok(st, VOID)
        for m in ('push_back', 'emplace_back', 'insert'):
            H['folly::dynamic::' + m] = report

        def su(I, st, fr):
            C.make(st, NAMES, 'map', [(('str', e[0]), ('sym', 'entry', 0)) for e in ents])
            for j, (nm, cls, ms, ps) in enumerate(ents):
                for z in ([cmp_term('<=', N1, IX[j]), cmp_term('<=', IX[j], NS_)] if cls == 'stats' else [cmp_term('<=', IX[j], num(-1)), cmp_term('<=', vadd(N0, NH, -1), IX[j])]):
                    r = I.assume(st, z)
                    st = r if isinstance(r, State) else st
                entry(I, st, IX[j], nm, [mval[m] for m in ms], ps, C)
        want = {}
        for j, (nm, cls, ms, ps) in enumerate(ents):
            for x in RANGES:
                for m in ms:
                    want['%s.%s.%d' % (nm, m.lower(), x)] = (j, cls, READING[m], None, x)
                for t, p in ps:
                    want['%s.%s.%d' % (nm, t, x)] = (j, cls, 'getPercentileEstimate', p, x)
        what = 'readAllValue of %d metrics' % len(ents)
        outs = I.analyse(fn, av=[('ref', OUT)], setup=su)
        for s, k, v in outs:
            c.ob('all', what + ' returns', k == 'v', '%s ends by %s' % (what, k), fn.where())
            if k != 'v':
                continue
            reps = [e.args[0] if e.args[0][:2] == ('app', 'objectmaker') else ('app', 'objectmaker') + e.args for e in s.trace if e.name == 'report' and e.recv == OUT]
            names = [r_[2][1] if len(r_) == 4 and r_[2][0] == 'str' else None for r_ in reps]
            if None in names:
                raise Broken('readAllValue reports a reading under a name that is not understood')
            c.ob('all', what + ': names', sorted(names) == sorted(want), '%s reports %s' % (what, 'twice or unasked ' + str([x for x in names if x not in want or names.count(x) > 1][:3]) if len(names) >= len(want) else 'no ' + str([x for x in want if x not in names][:3])), fn.where())
            for r_, nm in zip(reps, names):
                if nm not in want:
                    continue
                j, cls, m, p, x = want[nm]
                got = reading(r_[3])
                vec = STATS if cls == 'stats' else HISTOS
                at = vadd(IX[j], num(-1)) if cls == 'stats' else vadd(num(-1), IX[j], -1)
                ok = got is not None and got[2] == ('str', m) and got[3] == ('str', vec[-1][1]) and I.entails(s, cmp_term('==', got[4], at)) and (p is None or got[5] == p)
                lev = got[-1] if ok else None
                ok = ok and lev[0] == 'n' and 0 <= lev[1] < len(SECONDS.get(vec, [])) and SECONDS[vec][lev[1]] == x
                c.ob('all', '%s: %s' % (what, nm), ok, '%s reports %s as %s' % (what, show(got)[:80] if got is not None else show(r_[3])[:60], nm), fn.where())
            un = [e for e in used(I, s) if e.args[2] != N1]
            c.ob('all', what + ': locked', not un, '%s calls %s without the lock of that metric' % (what, un[0].args[0][1] if un else ''), fn.where())
        c.ob('all', what + ' analysed', bool(outs))
    c.need('all', 40)

    # ---------------------------------------------------------- ids
    A, B = ('sym', 'mine', 0), ('sym', 'given', 0)
    for fn in [f for f in P.methods_of[IDT] if f.n == 'operator=' and f.body is not None]:
        I, C, SM, vsize = mk()
        me, ot = (('this',),), (('arg', fn.params[0]['n']),)
        byref = fn.params[0]['t'].k in ('ref', 'rref')
        for s, k, v in I.analyse(fn, this=me, av=[('ref', ot) if byref else B], setup=lambda I, st, fr: (I.store(st, me + (('.', INDEX),), A), I.store(st, ot + (('.', INDEX),), B))):
            for s2, b in I.split(s.copy(), cmp_term('==', A, N0)):
                for s3, z in I.split(s2, cmp_term('==', B, N0)):
                    good = b and not z
                    c.ob('ids', 'assignment of an id', (k == 'v') == good and (not good or I.load(s3, me + (('.', INDEX),)) == B), 'assigning %s id to %s id %s' % (
                        'an invalid' if z else 'a valid', 'a fresh' if b else 'an assigned', 'ends by ' + k if k != 'v' else 'is accepted and gives ' + show(I.load(s3, me + (('.', INDEX),)))), fn.where())
    for fn in [f for f in P.methods_of[IDT] if f.n == 'valid' and f.body is not None]:
        I, C, SM, vsize = mk()
        for s, k, v in I.analyse(fn, this=(('this',),), setup=lambda I, st, fr: I.store(st, (('this',), ('.', INDEX)), A)):
            for s2, b in truth(I, s, v):
                c.ob('ids', 'validity', k == 'v' and I.decide(s2, cmp_term('==', A, N0)) is (not b), 'valid() is %s for the index %s' % (b, 'zero' if b else 'other than zero'), fn.where())
    c.need('ids', 6)


main('C22', RULE, body)
