import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Path-complete abstract interpretation of the sampler, with the reservoir as a vector of known length and unknown content, the random draw as an unknown value of the range asked for, and arithmetic that is checked not to wrap. '
        'While fewer items than the capacity were seen, every path appends the item and nothing else; afterwards every path draws one index from zero up to and including the number of items seen before, '
        'overwrites exactly the slot drawn when it exists, and changes nothing otherwise. Every path counts the item once and reports whether it was kept. The constructor starts empty with the capacity given, and samples() hands out the reservoir itself.')
C = 'nebula::algorithm::ReservoirSampling'
VEC = 'std::vector'


def body(c):
    P = c.load([], witness=['sampling.cpp'])
    full = C + '<witness::Item>'
    r = P.recs.get(full)
    if r is None:
        raise Broken('ReservoirSampling<Item> not found')
    ints = [f['id'] for f in r.fields if is_int(f['t'])]
    vec = fld(one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) == VEC], 'reservoirs'))
    fns = {}
    for f in P.methods_of.get(full, []):
        if not f.d.get('implicit'):
            fns.setdefault('ctor' if f.d.get('ctor') else f.n, []).append(f)
    ctor = one([f for f in fns.get('ctor', []) if len(f.params) == 1], 'constructors')
    size = ('sym', 'length of the reservoir', 0)

    def interp(log, base):
        """log: operations on the reservoir; base: its length on entry"""
        I = c.interp(P)
        I.exact_arith = I.exact_casts = True

        def note(st, *x):
            st.ghost['log'] = st.ghost.get('log', ()) + (x,)

        def n_of(st):
            return vadd(base, num(sum(1 for x in st.ghost.get('log', ()) if x[0] == 'append')))

        def append(I, st, fr, n, loc, av):
            if loc != vec:
                raise Unsupported('append to another vector')
            a = av[0] if av else N0
            note(st, 'append', I.argval(st, a))
            if a[0] == 'ref' and n.get('pt') and n['pt'][0] is not None and n['pt'][0].k == 'rref':
                I.store(st, a[1], ('moved', I.argval(st, a)))
            return I.ok(st, ('ref', vec + (('back',),)))

        def at(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            return I.ok(st, ('ref', vec + (('[', I.argval(st, av[0])),)))

        def sz(I, st, fr, n, loc, av):
            return I.ok(st, n_of(st) if n['n'] == 'size' else cmp_term('==', n_of(st), N0)) if loc == vec else None

        def other(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            if n['n'] == 'reserve':
                return I.ok(st, VOID)
            if n['n'] == 'capacity':
                v = ('sym', 'room of the reservoir', 0)
                return I.ok(st, v)
            if n['n'] in ('begin', 'data'):
                return I.ok(st, ('ptr', vec + (('[', N0),)))
            if n['n'] == 'end':
                return I.ok(st, ('ptr', vec + (('[', n_of(st)),)))
            note(st, 'other', n['n'])
            return I.ok(st, ('app', 'vector', n['n']))
        H = I.hooks
        for m in ('emplace_back', 'push_back'):
            H[VEC + '::' + m] = append
        for m in ('operator[]', 'at'):
            H[VEC + '::' + m] = at
        for m in ('size', 'empty'):
            H[VEC + '::' + m] = sz
        for m in ('reserve', 'capacity', 'clear', 'pop_back', 'insert', 'erase', 'resize', 'assign', 'swap', 'begin', 'end', 'data', 'back', 'front', 'shrink_to_fit', 'operator='):
            H[VEC + '::' + m] = other

        def draw(I, st, fr, n, loc, av):
            av = [I.argval(st, a) for a in av]
            k = len([x for x in st.ghost.get('log', ()) if x[0] == 'draw'])
            v = ('sym', 'draw', k)
            lo, hi = (N0, av[0]) if len(av) == 1 else av if len(av) == 2 else (N0, None)
            note(st, 'draw', v, lo, hi)
            I.bounds[v] = (0, (1 << 64) - 1)
            if hi is not None:
                # [lo, hi), and zero when that is empty
                outs = []
                for s2, b in I.split(st, cmp_term('<', lo, hi)):
                    if all(I.assume(s2, cond) for cond in ([cmp_term('<=', lo, v), cmp_term('<', v, hi)] if b else [cmp_term('==', v, N0)])):
                        outs += I.ok(s2, v)
                return outs
            return I.ok(st, v)
        for m in ('rand64', 'rand32'):
            H['folly::Random::' + m] = draw

        def assign(I, st, fr, n, loc, av):
            if loc is not None and loc[:len(vec)] == vec:
                note(st, 'put', loc[len(vec):], I.argval(st, av[0]))
                return I.ok(st, ('ref', loc))
            I.store(st, loc, I.argval(st, av[0]))
            return I.ok(st, ('ref', loc))
        H['witness::Item::operator='] = assign
        H['dtor:witness::Item'] = lambda I, st, fr, loc, t: I.ok(st, VOID)
        H['ctor:witness::Item'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, I.argval(st, av[0]) if av else ('app', 'Item')), I.ok(st, VOID))[1]
        H['std::swap'] = lambda I, st, fr, n, loc, av: swap(I, st, av)

        def swap(I, st, av):
            for a, b in ((av[0], av[1]), (av[1], av[0])):
                if a[0] == 'ref' and a[1][:len(vec)] == vec:
                    note(st, 'put', a[1][len(vec):], I.argval(st, b))
                    return I.ok(st, VOID)
            return None

        def over(I, st, fr, n, v):
            c.ob('count', 'no overflow', False, 'the number of items can overflow (line %d)' % n.get('l', 0))
        return I

    # ------------------------------------------------------------------ construction gives the roles of the integers
    arg = ('argv', ctor.params[0]['n'])
    I = interp(None, N0)
    outs = [o for o in I.analyse(ctor) if o[1] == 'v']
    c.ob('construct', 'completes', bool(outs), 'a sampler cannot be built', ctor.where())
    start = {f: {I.load(st, fld(f)) for st, k, v in outs} for f in ints}
    caps = [f for f in ints if start[f] == {arg}]
    zero = [f for f in ints if start[f] == {N0}]
    c.ob('construct', 'capacity', len(caps) == 1, 'no member holds the capacity asked for: %s' % {f: [show(x) for x in v] for f, v in start.items()}, ctor.where())
    c.ob('construct', 'nothing seen', len(zero) == 1, 'no member counts the items from zero: %s' % {f: [show(x) for x in v] for f, v in start.items()}, ctor.where())
    for st, k, v in outs:
        c.ob('construct', 'empty', not [x for x in st.ghost.get('log', ()) if x[0] != 'draw'], 'the reservoir does not start empty: %s' % (st.ghost.get('log', ()),), ctor.where())
    if len(caps) != 1 or len(zero) != 1:
        return
    CAP, CNT = fld(caps[0]), fld(zero[0])
    cap, cnt = ('init', CAP), ('init', CNT)

    # ------------------------------------------------------------------ one item
    fn = one([f for f in fns.get('sampling', []) if len(f.params) == 1], 'sampling(item)')
    item = ('init', (('arg', fn.params[0]['n']),))
    for case in ('filling', 'full'):
        I = interp(None, cnt if case == 'filling' else cap)
        I.bounds[cnt] = (0, 1 << 62)
        I.bounds[cap] = (0, 1 << 62)
        st0 = State()
        I.assume(st0, cmp_term('<' if case == 'filling' else '>=', cnt, cap))
        outs = I.analyse(fn, state=st0)
        n = kept = 0
        for st, k, v in outs:
            c.ob(case, 'completes', k == 'v', 'sampling ends by %s when %s' % (k, facts(st)), fn.where())
            if k != 'v':
                continue
            n += 1
            log = st.ghost.get('log', ())
            draws = [x for x in log if x[0] == 'draw']
            apps = [x for x in log if x[0] == 'append']
            puts = [x for x in log if x[0] == 'put']
            rest = [x for x in log if x[0] == 'other']
            c.ob('count', case, I.entails(st, cmp_term('==', I.load(st, CNT), vadd(cnt, N1))), 'an item changes the count of items from n to %s (%s)' % (show(I.load(st, CNT)), facts(st)), fn.where())
            c.ob('count', case + ' keeps the capacity', I.entails(st, cmp_term('==', I.load(st, CAP), cap)), 'the capacity changes to %s' % show(I.load(st, CAP)), fn.where())
            c.ob(case, 'no other change', not rest, 'the reservoir is changed by %s' % ', '.join(str(x[1]) for x in rest), fn.where())
            if case == 'filling':
                c.ob(case, 'keeps the item', len(apps) == 1 and not puts and apps[0][1] == item, 'one of the first items is not simply appended: %s' % says(log), fn.where())
                c.ob(case, 'says it was kept', I.decide(st, v) is True, 'a kept item is reported as %s' % show(v), fn.where())
                continue
            c.ob(case, 'never grows', not apps, 'the reservoir grows beyond its capacity', fn.where())
            c.ob(case, 'one slot at most', len(puts) <= 1, 'one item replaces %d slots' % len(puts), fn.where())
            one_draw = len(draws) == 1
            c.ob(case, 'one draw', one_draw, '%d random draws for one item' % len(draws), fn.where())
            if not one_draw:
                continue
            _, d, lo, hi = draws[0]
            c.ob(case, 'draws over all items', hi is not None and lo == N0 and I.entails(st, cmp_term('==', hi, vadd(cnt, N1))),
                 'the index is drawn from [%s, %s), not from all items including this one: items are not kept with equal probability' % (show(lo), show(hi) if hi is not None else 'max'), fn.where())
            if puts:
                kept += 1
                sel = puts[0][1]
                ix = sel[0][1] if len(sel) == 1 and sel[0][0] == '[' else None
                c.ob(case, 'the slot drawn', ix is not None and I.entails(st, cmp_term('==', ix, d)), 'the slot replaced is not the one drawn', fn.where())
                c.ob(case, 'an existing slot', ix is not None and I.entails(st, cmp_term('<', ix, cap)), 'slot %s may lie outside the reservoir (%s)' % (show(ix) if ix is not None else '?', facts(st)), fn.where())
                c.ob(case, 'the item itself', puts[0][2] == item, 'the slot receives %s' % show(puts[0][2]), fn.where())
                c.ob(case, 'says it was kept', I.decide(st, v) is True, 'a kept item is reported as %s' % show(v), fn.where())
            else:
                c.ob(case, 'drops only items not drawn', I.entails(st, cmp_term('>=', d, cap)), 'an item whose draw is an existing slot can be dropped (%s)' % facts(st), fn.where())
                c.ob(case, 'says it was dropped', I.decide(st, v) is False, 'a dropped item is reported as %s' % show(v), fn.where())
        c.ob(case, 'has a path', n > 0, 'no path for a %s reservoir' % case, fn.where())
        if case == 'full':
            c.ob(case, 'can keep an item', kept > 0, 'no item is ever kept once the reservoir is full', fn.where())

    # ------------------------------------------------------------------ the result
    for fn in fns.get('samples', []):
        I = interp(None, size)
        for st, k, v in I.analyse(fn):
            ok = k == 'v' and (v == ('ref', vec) or v[0] in ('init', 'snap') and v[1] == vec) and not st.ghost.get('log')
            c.ob('samples', 'the reservoir', ok, 'samples() returns %s' % (show(v) if v else k), fn.where())
    c.need('samples', 1)
    public = [n for n, fs in fns.items() if n not in ('ctor', 'sampling', 'samples', '~ReservoirSampling') and any(f.d.get('acc') == 0 for f in fs)]
    for m in public:
        for f in fns[m]:
            I = interp(None, size)
            for st, k, v in I.analyse(f):
                c.ob('other', m, k != 'v' or not [x for x in st.ghost.get('log', ()) if x[0] != 'draw'] and I.load(st, CNT) == cnt and I.load(st, CAP) == cap, '%s changes the sampler' % m, f.where())


def says(log):
    return ', '.join('%s %s' % (x[0], show(x[1]) if isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str) else x[1]) for x in log) or 'nothing'


main('C34', RULE, body, ['folly::Random::rand64(max) and rand64(min, max) return every value of [min, max) with equal probability, and zero when that is empty', 'fewer than 2^62 items'])
