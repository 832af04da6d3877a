import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Value numbering over every path of the clock functions: the slow clock returns the real-time clock, read once, truncated to the unit of each accessor; '
        'the fast clock converts the current tick to the time point of its own unit; a time point is the start time truncated to that unit plus the ticks since the first '
        'reading converted to that unit; the conversion factors of the three units come from one calibration and stand in the ratio 1 : 1000 : 1000000; '
        'the start time, the monotone start and the first tick are all captured, and the factors computed, before the clock is first used.')
NOTE = 'Closeness of the fast clock to the real-time clock depends on the hardware counter and is not decided.'
T = 'nebula::time::TscHelper'
W = 'nebula::time::WallClock::'
UNITS = (('Sec', 'Sec', 1), ('MSec', 'MilliSec', 1000), ('USec', 'MicroSec', 1000000))
CLOCK_REALTIME = 0


def body(c):
    P = c.load(['time/WallClock.cpp', 'time/detail/TscHelper.cpp'])

    # ------------------------------------------------------ slow clock
    def gettime(I, st, fr, n, loc, av):
        k = len([e for e in st.trace if e.name == 'clock_gettime'])
        sec, ns = ('sym', 'real.sec', k), ('sym', 'real.nsec', k)
        I.bounds[sec] = (0, 1 << 40)
        I.bounds[ns] = (0, 999999999)
        dst = I.deref(st, av[1]) if av[1][0] != 'ref' else av[1][1]
        I.event(st, fr, n, 'clock_gettime', dst, (av[0],), N0)
        I.store(st, dst, ('agg', None, (((('.', 'tv_sec'),), sec), ((('.', 'tv_nsec'),), ns))))
        return I.ok(st, N0)

    for u, nm, k in UNITS:
        fn = c.fn(P, W + 'slowNowIn' + nm, 0)
        I = c.interp(P)
        I.exact_casts = True
        I.hooks['clock_gettime'] = gettime
        for s, o, v in I.analyse(fn):
            ev = [e for e in s.trace if e.name == 'clock_gettime']
            c.ob('slow', nm + ' clock', o == 'v' and len(ev) == 1 and ev[0].args[0] == num(CLOCK_REALTIME), 'slowNowIn%s does not read the real-time clock exactly once' % nm, fn.where())
            if o != 'v' or not ev:
                continue
            sec, ns = ('sym', 'real.sec', 0), ('sym', 'real.nsec', 0)
            want = vadd(vmul(num(k), sec), I.floordiv(s, ns, 1000000000 // k) if k > 1 else N0)
            c.ob('slow', nm + ' value', I.prove(s, cmp_term('==', v, want)), 'slowNowIn%s returns %s instead of %s' % (nm, show(v), show(want)), fn.where())

    # ------------------------------------------------------ fast clock
    if P.find(T + '::readTsc'):
        for u, nm, k in UNITS:
            fn = c.fn(P, W + 'fastNowIn' + nm, 0)
            I = c.interp(P)
            I.hooks[T + '::readTsc'] = lambda I, st, fr, n, loc, av: I.ok(st, ('sym', 'tick', len(st.trace)))
            for u2, _, _ in UNITS:
                I.hooks[T + '::tickToTimePointIn' + u2] = lambda I, st, fr, n, loc, av, u2=u2: I.ok(st, ('app', 'point.' + u2, av[0]))
            for s, o, v in I.analyse(fn):
                c.ob('fast', nm, o == 'v' and v == ('app', 'point.' + u, ('sym', 'tick', 0)), 'fastNowIn%s returns %s, not the present tick as a time point of its unit' % (nm, show(v) if v else o), fn.where())

    # ------------------------------------------------------ time points
    F = {f['n']: f for f in fields(P, T)}
    real = one(fields_of(P, T, lambda t: t.k == 'rec' and 'timespec' in t.base), 'real start time of TscHelper')
    mono = one(fields_of(P, T, lambda t: t.k == 'rec' and strip_targs(t.base).endswith('time_point')), 'monotone start time of TscHelper')
    first = one(fields_of(P, T, lambda t: t.k == 'int'), 'first tick of TscHelper')
    factors = fields_of(P, T, lambda t: t.k == 'rec' and strip_targs(t.base) == 'std::atomic' or t.k in ('float', 'double', 'flt'))

    # the single instance
    get = c.fn(P, T + '::get', 0)
    I = c.interp(P)
    outs = I.analyse(get)
    base = outs[0][2][1] if len(outs) == 1 and outs[0][2] and outs[0][2][0] == 'ref' else None
    if base is None or base[0][0] != 'g':
        raise Broken('TscHelper::get does not return one static instance')

    def at(f):
        return ('init', base + (('.', f),))

    for u, nm, k in UNITS:
        fn = c.fn(P, T + '::tickToTimePointIn' + u, 1)
        I = c.interp(P)
        I.static_init = lambda fr, v: v['t'] is not None and v['t'].k in ('int', 'flt', 'float')
        for u2, _, _ in UNITS:
            def h(I, st, fr, n, loc, av, u2=u2):
                r = ('app', 'dur.' + u2, av[0])
                return I.ok(st, r)
            I.hooks[T + '::ticksToDurationIn' + u2] = h
        sec, ns = ('init', base + (('.', real), ('.', 'tv_sec'))), ('init', base + (('.', real), ('.', 'tv_nsec')))
        I.bounds[sec] = (0, 1 << 40)
        I.bounds[ns] = (0, 999999999)
        for s, o, v in I.analyse(fn):
            if o != 'v':
                c.ob('point', u + ' returns', False, 'tickToTimePointIn%s ends by %s' % (u, o), fn.where())
                continue
            ap = [a for a, _ in to_lin(v)[1] if a[0] == 'app' and a[1].startswith('dur.')]
            c.ob('point', u + ' unit', len(ap) == 1 and ap[0][1] == 'dur.' + u, 'tickToTimePointIn%s does not add a duration of its own unit' % u, fn.where())
            if len(ap) != 1:
                continue
            c.ob('point', u + ' reference tick', I.prove(s, cmp_term('==', ap[0][2], vadd(('argv', fn.params[0]['n']), at(first), -1))),
                 'tickToTimePointIn%s converts %s, not the ticks since the first reading' % (u, show(ap[0][2])), fn.where())
            start = vadd(v, ap[0], -1)
            want = vadd(vmul(num(k), sec), I.floordiv(s, ns, 1000000000 // k) if k > 1 else N0)
            c.ob('point', u + ' start', I.prove(s, cmp_term('==', start, want)), 'tickToTimePointIn%s starts from %s instead of the start time %s' % (u, show(start), show(want)), fn.where())

    # ------------------------------------------------------ calibration
    def hooks(I):
        I.hooks['std::chrono::duration_cast'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'dur', n['t'].s, ret(I, st, av[0])))
        I.hooks['std::chrono::duration::count'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'count', I.load(st, loc)))
        I.hooks[T + '::readTscImpl'] = lambda I, st, fr, n, loc, av: I.ok(st, ('sym', 'tick', len(st.trace)))
        I.hooks['clock_gettime'] = gettime
    cal = c.fn(P, T + '::calibrate', 0)
    I = c.interp(P)
    hooks(I)
    ctor = c.fn(P, T + '::TscHelper', 0)
    for s, o, v in I.analyse(cal):
        if o != 'v':
            c.ob('calibrate', 'returns', False, 'calibrate ends by %s' % o, cal.where())
            continue
        ref = None
        for u, nm, k in UNITS:
            fn = c.fn(P, T + '::ticksToDurationIn' + u, 1)
            I2 = c.interp(P)
            ticks = ('argv', fn.params[0]['n'])
            for s2, o2, v2 in I2.analyse(fn):
                x = v2
                if o2 != 'v' or x[0] != 'app' or x[1] != 'f2i':
                    c.ob('factor', u + ' shape', False, 'ticksToDurationIn%s does not return a scaled tick count (%s)' % (u, show(v2) if v2 else o2), fn.where())
                    continue
                x = x[2]
                if x[0] == 'app' and x[1] == 'f+' and len(x) == 4:
                    a, b = x[2], x[3]
                    if a[0] == 'fm' and not a[2]:
                        a, b = b, a
                    c.ob('factor', u + ' rounding', b[0] == 'fm' and not b[2] and 0 <= b[1] < 1, 'ticksToDurationIn%s adds %s' % (u, show(b)), fn.where())
                    x = a
                if x[0] != 'fm':
                    x = to_fm(x)
                # replace the factor fields by what calibrate stored
                acc = ('fm', x[1], ())
                for atom, e in x[2]:
                    fv = None
                    if atom[0] == 'init' and len(atom[1]) == len(base) + 1 and atom[1][:len(base)] == base:
                        fv = I.load(s, THIS + atom[1][len(base):])
                    fv = atom if fv is None else fv
                    for _ in range(abs(e)):
                        acc = fmulv(acc, fv, 1 if e > 0 else -1)
                rest = dict(acc[2])
                one_ = rest.pop(ticks, 0) == 1
                c.ob('factor', u + ' proportional', one_, 'ticksToDurationIn%s is not proportional to the ticks' % u, fn.where())
                rest = tuple(sorted(rest.items(), key=repr))
                if ref is None:
                    ref = (rest, acc[1] / k)
                c.ob('factor', u + ' ratio', rest == ref[0] and acc[1] == ref[1] * k,
                     'the conversion factors of the units are not in the ratio 1 : 1000 : 1000000 (%s: %s)' % (u, show(acc)), fn.where())
        if ref is not None:
            # seconds per tick = microseconds elapsed / ticks elapsed / 10^6
            want_t = None
            ok = False
            for atom, e in ref[0]:
                if atom[0] == 'app' and atom[1] == '/' and e == -1 and len(ref[0]) == 1:
                    num_, den = atom[2], atom[3]
                    ok = tickdiff(num_, first) and elapsed(den, mono) and ref[1] == Fraction(1, unit(den))
            if not ok and len(ref[0]) == 2:
                d = dict((e, a) for a, e in ref[0])
                ok = 1 in d and -1 in d and tickdiff(d[-1], first) and elapsed(d[1], mono) and ref[1] == Fraction(1, unit(d[1]))
            c.ob('calibrate', 'ticks per time unit', ok, 'the calibrated factor is not elapsed monotone time over elapsed ticks, in one unit (%s * %s)' % (ref[1], [show(a) for a, _ in ref[0]]), cal.where())

    # ------------------------------------------------------ construction
    I = c.interp(P)
    hooks(I)
    cals = []
    I.hooks[T + '::calibrate'] = lambda I, st, fr, n, loc, av: (I.event(st, fr, n, 'calibrate', loc, ()), I.ok(st, VOID))[1]
    I.snap = lambda I, st: tuple(I.load(st, fld(f)) for f in (first, mono))
    for s, o, v in I.analyse(ctor):
        if o != 'v':
            continue
        ev = [e for e in s.trace if e.name == 'calibrate']
        rt = [e for e in s.trace if e.name == 'clock_gettime']
        c.ob('construct', 'real start', len(rt) == 1 and rt[0].args[0] == num(CLOCK_REALTIME) and rt[0].recv == fld(real), 'the real start time is not captured at construction', ctor.where())
        c.ob('construct', 'first tick', I.load(s, fld(first))[0] == 'sym', 'the first tick is not captured at construction', ctor.where())
        m = I.load(s, fld(mono))
        c.ob('construct', 'monotone start', m[0] == 'app' and 'steady_clock::now' in m[1], 'the monotone start time is not captured at construction', ctor.where())
        c.ob('construct', 'calibrated before use', bool(ev) and all(e.snap == (I.load(s, fld(first)), m) for e in ev), 'the factors are not computed from the captured start before the clock is used', ctor.where())

    # ------------------------------------------------------ tick counter
    fn = c.fn(P, T + '::readTscImpl', 0)
    I = c.interp(P)
    for s, o, v in I.analyse(fn):
        f = to_lin(v) if o == 'v' else (0, ())
        d = {a[1].rsplit(':', 1)[-1]: k for a, k in f[1] if a[0] == 'sym' and a[1].startswith('asm:rdtsc')}
        c.ob('tick', 'both halves', f[0] == 0 and len(f[1]) == 2 and d in ({'a': 1, 'd': 1 << 32}, {'{ax}': 1, '{dx}': 1 << 32}), 'the tick is not the upper half of the counter shifted over the lower half (%s)' % (show(v) if v else o), fn.where())
    c.need('slow', 6)
    c.need('point', 9)
    c.need('factor', 6)


def tickdiff(t, first):
    f = to_lin(t)
    if len(f[1]) == 1 and f[1][0][0][0] == 'app' and f[1][0][0][1] in ('i2f',):
        f = to_lin(f[1][0][0][2])
    d = dict(f[1])
    return f[0] == 0 and len(d) == 2 and d.get(('init', fld(first))) == -1 and any(a[0] == 'sym' and a[1] == 'tick' and k == 1 for a, k in d.items())


def elapsed(t, mono):
    return t[0] == 'app' and t[1] == 'count' and mentions(t, lambda v: v[0] == 'app' and v[1] == 'call:std::chrono::operator-' and 'steady_clock::now' in repr(v[2]) and v[3] == ('init', fld(mono)))


def unit(t):
    """ticks of the duration's unit per second"""
    import re
    m = re.search(r'std::ratio<(\d+), (\d+)>', repr(t))
    return Fraction(int(m.group(2)), int(m.group(1))) if m else (1 if 'duration' in repr(t) else 0)


main('C19', RULE, body, ['the nanosecond part of a system time is 0..999999999', 'the monotone clock advances between construction and calibration'])
