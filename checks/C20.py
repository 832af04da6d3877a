import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
import lin

RULE = ('Abstract interpretation with exact linear arithmetic over floor divisions (every path, every loop by an inductive invariant found and checked on the spot): '
        'second counts are converted to fields whose serial day number and seconds give back exactly that count in the proleptic Gregorian calendar, with month 1-12, '
        'day within the month, hour 0-23, minute and second 0-59 and table indices in range; the difference of two date-times is the difference of their serial seconds; '
        'shifts add the offset and keep the microseconds; the leap-year predicate is the Gregorian one.')
NOTE = 'Integer fields are assumed to stay in their declared ranges (year within 16 bits); results outside the year range are excluded.'
T = 'nebula::time::TimeConversion::'
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
LCUM = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
F = ('year', 'month', 'day', 'hour', 'minute', 'sec', 'microsec')


def lcomb(*ts):
    """sum of (term, coefficient)"""
    r = (0, ())
    for t, k in ts:
        r = lin.add(r, lin.scale(to_lin(t), k))
    return r


def fdiv(I, st, a, k):
    return num(a[1] // k) if a[0] == 'n' else I.floordiv(st, a, k)


def leaps(I, st, y):
    """number of leap years before year y (up to a constant)"""
    y1 = vadd(y, N1, -1)
    return lcomb((fdiv(I, st, y1, 4), 1), (fdiv(I, st, y1, 100), -1), (fdiv(I, st, y1, 400), 1))


def leapcases(I, st, y):
    """split on the Gregorian rule"""
    out = []
    for k in (4, 100, 400):
        q = fdiv(I, st, y, k)
    r = lambda k: from_lin(lcomb((y, 1), (fdiv(I, st, y, k), -k)))
    for s, b4 in I.split(st.copy(), cmp_term('==', r(4), N0)):
        if not b4:
            out.append((s, False))
            continue
        for s2, b100 in I.split(s, cmp_term('==', r(100), N0)):
            if not b100:
                out.append((s2, True))
                continue
            for s3, b400 in I.split(s2, cmp_term('==', r(400), N0)):
                out.append((s3, b400))
    # divisibility by 100 or 400 implies divisibility by 4
    return [o for o in out if not lin.infeasible(list(o[0].cons)[-40:])] or out


def serial(I, st, v, leap, month):
    """seconds since year 0 of the fields v (month a constant)"""
    y = v['year']
    days = lin.add(lcomb((y, 365), (v['day'], 1)), leaps(I, st, y))
    days = lin.add(days, ((LCUM if leap else CUM)[month - 1] - 1, ()))
    sec = lin.scale(days, 86400)
    return lin.add(sec, lcomb((v['hour'], 3600), (v['minute'], 60), (v['sec'], 1)))


def body(c):
    P = c.load(['time/TimeConversion.cpp', 'datatypes/Date.cpp'])
    R = {f.n: f for f in P.methods_of.get('nebula::time::TimeConversion', [])}

    paths = {}

    def path(loc, f):
        """member path of a DateTime field (inside its anonymous members)"""
        if not paths:
            def rec(cls, pre):
                r = P.recs.get(cls)
                for x in r.fields:
                    t = x['t']
                    if t.k == 'rec' and P.recs.get(t.base) is not None and (x['id'].startswith('anon') or not x.get('n')):
                        rec(t.base, pre + (('.', x['id']),))
                    else:
                        paths.setdefault(x['id'], pre + (('.', x['id']),))
            rec('nebula::DateTime', ())
        if f not in paths:
            raise Broken('DateTime has no field %s' % f)
        return loc + paths[f]

    RNG = {'year': (-32768, 32767), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'sec': (0, 59), 'microsec': (0, 999999)}

    def mk(I, st, loc, cls, fixed=()):
        """symbolic fields within their domains stored at loc"""
        d = {}
        fs = {'DateTime': F, 'Date': F[:3], 'Time': F[3:]}[cls]
        for f in fs:
            v = dict(fixed).get(f)
            if v is None:
                v = ('sym', 'in.' + f + repr(loc[0])[:20], 0)
                I.bounds[v] = RNG[f]
            d[f] = v
            I.store(st, path(loc, f) if cls == 'DateTime' else loc + (('.', f),), v)
        return d

    def arg(name):
        return (('arg', name),)

    # ------------------------------------------------------ difference
    diff = c.fn(P, T + 'dateTimeDiffSeconds', 2)
    EP = {'year': num(1970), 'month': N1, 'day': N1, 'hour': N0, 'minute': N0, 'sec': N0, 'microsec': N0}
    E_SEC = 86400 * (365 * 1970 + 1969 // 4 - 1969 // 100 + 1969 // 400)

    def isleap(y):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

    def year_classes(full):
        """every year as 400*q + r with r constant and the sign of q known: all divisions become exact"""
        for r in range(400) if full else (0, 1, 4, 100):
            for lo, hi in ((0, (32767 - r) // 400), (-((32768 + r) // 400), -1)):
                yield r, ('sym', 'cycle', lo), lo, hi

    def serial_c(v, q, r):
        """serial seconds of fields v whose year is 400q+r"""
        d = lin.add(lcomb((q, 146097), (v['day'], 1)), (365 * r + (r - 1) // 4 - (r - 1) // 100 + (r - 1) // 400 + (LCUM if isleap(r) else CUM)[v['month'][1] - 1] - 1, ()))
        return lin.add(lin.scale(d, 86400), lcomb((v['hour'], 3600), (v['minute'], 60), (v['sec'], 1)))

    def run_diff(which, month, full):
        n = [p['n'] for p in diff.params]
        for r, q, lo, hi in year_classes(full):
            I = c.interp(P)
            I.exact_casts = True
            I.bounds[q] = (lo, hi)
            st = State()
            y = from_lin((r, ((q, 400),)))
            v = mk(I, st, arg(n[which]), 'DateTime', [('year', y), ('month', num(month))])
            mk(I, st, arg(n[1 - which]), 'DateTime', list(EP.items()))
            want = lin.add(serial_c(v, q, r), (-E_SEC, ()))
            if which:
                want = lin.scale(want, -1)
            lb = '%s argument, month %d, %s years' % ('second' if which else 'first', month, 'leap' if isleap(r) else 'common')
            for s, k, w in I.analyse(diff, state=st):
                ok = k == 'v' and I.prove(s, cmp_term('==', ret(I, s, w), from_lin(want)))
                c.ob('difference', lb, ok, 'dateTimeDiffSeconds is not the difference of the serial seconds (%s, years %d + 400*k, k%s0)' % (lb, r, '>=' if lo >= 0 else '<'), diff.where())
    for m in range(1, 13):
        for w in (0, 1):
            run_diff(w, m, m == 3)
    c.need('difference', 48)


    # ------------------------------------------------------ seconds to fields
    conv = c.fn(P, T + 'unixSecondsToDateTime', 1)
    I = c.interp(P)
    I.fork_unroll = True
    stuck = []
    I.on_stuck = lambda I, st, fr, n: stuck.append(n.get('l', 0))

    def conserved(I, st, vals):
        q = {}
        ks = [k for k, v in vals.items() if v[0] not in ('ptr', 'ref', 'agg', 'lam', 'guard', 'str', 'fn', 'void', 'log')]
        for a in ks:
            for b in ks:
                if a != b:
                    q[(a, b)] = lin.add(lcomb((vals[a], 1), (vals[b], 365)), leaps(I, st, vals[b]))
                    q[(a, b, 86400)] = lin.add(lcomb((vals[a], 1), (vals[b], 86400)), lin.ZERO)
        return q
    I.conserved = conserved
    sec = ('sym', 'in.seconds', 0)
    I.bounds[sec] = (-(1 << 63), (1 << 63) - 1)
    outs = I.analyse(conv, av=[sec])
    c.ob('fields', 'every iteration makes progress', not stuck, 'a loop iteration can leave the state unchanged, so the conversion may not end', 'src/common/time/TimeConversion.cpp:%s' % (stuck or [0])[0])
    for st, k, v in outs:
        c.ob('fields', 'returns', k == 'v', 'conversion ends by %s' % k, conv.where())
        if k != 'v':
            continue
        d = {f: vfield(I, st, v, path((), f)) for f in F}
        for f in ('hour', 'minute', 'sec'):
            ok = I.prove(st, cmp_term('<=', N0, d[f])) and I.prove(st, cmp_term('<=', d[f], num(RNG[f][1])))
            c.ob('fields', f + ' in range', ok, 'the %s can leave its range' % f, conv.where())
        c.ob('fields', 'microsec zero', I.prove(st, cmp_term('==', d['microsec'], N0)), 'microseconds are made up', conv.where())
        m = d['month']
        if m[0] != 'n':
            c.ob('fields', 'month determined', False, 'the month found is not determined by the day tables', conv.where())
            continue
        c.ob('fields', 'month in range', 1 <= m[1] <= 12, 'month %d' % m[1], conv.where())
        for s, leap in leapcases(I, st, d['year']):
            t = LCUM if leap else CUM
            lb = 'month %d %s year' % (m[1], 'leap' if leap else 'common')
            ok = I.prove(s, cmp_term('<=', N1, d['day'])) and I.prove(s, cmp_term('<=', d['day'], num(t[m[1]] - t[m[1] - 1])))
            c.ob('fields', 'day ' + lb, ok, 'the day can leave %s' % lb, conv.where())
            want = serial(I, s, d, leap, m[1])
            c.ob('fields', 'serial ' + lb, I.prove(s, cmp_term('==', from_lin(lin.add(want, (-E_SEC, ()))), sec)),
                 'the fields do not denote the given second (%s)' % lb, conv.where())
    c.need('fields', 40)

    # ------------------------------------------------------ leap years
    leap = c.fn(P, T + 'isLeapYear', 1)
    I = c.interp(P)
    y = ('sym', 'in.year', 0)
    I.bounds[y] = RNG['year']
    for st, k, v in I.analyse(leap, av=[y]):
        for s, b in truth(I, st, ret(I, st, v)):
            for s2, want in leapcases(I, s, y):
                if not lin.infeasible(I._cons_for(s2, [y])):
                    c.ob('leap', 'Gregorian rule', b == want or I.prove(s2, N0), 'isLeapYear answers %s for a %s year (%s)' % (b, 'leap' if want else 'common', facts(s2)), leap.where())

    # ------------------------------------------------------ the other conversions, over the two above
    def ser(d):
        vs = tuple(d[f] for f in F[:6])
        if vs == (num(1970), N1, N1, N0, N0, N0):
            return N0
        src = {v[2] for v in vs if v[0] == 'app' and v[1].startswith('utc.')}
        if len(src) == 1 and all(v[0] == 'app' and v[1] == 'utc.' + f for v, f in zip(vs, F)):
            return src.pop()
        return ('app', 'serial') + vs

    def dtval(I, st, a):
        if a[0] == 'ref':
            return {f: I.load(st, path(a[1], f)) for f in F}
        return {f: I._proj(a, path((), f), None) for f in F}

    def h_diff(I, st, fr, n, loc, av):
        return I.ok(st, vadd(ser(dtval(I, st, av[0])), ser(dtval(I, st, av[1])), -1))

    def h_conv(I, st, fr, n, loc, av):
        s = I.load(st, av[0][1]) if av[0][0] == 'ref' else av[0]
        return I.ok(st, ('agg', None, tuple((path((), f), ('app', 'utc.' + f, s) if f != 'microsec' else N0) for f in F)))

    def derived(name, cls, params, spec, np):
        fn = c.fn(P, T + name, np)
        I = c.interp(P)
        I.hooks[T + 'dateTimeDiffSeconds'] = h_diff
        I.hooks[T + 'unixSecondsToDateTime'] = h_conv
        st = State()
        ins = []
        av = []
        for i, p in enumerate(fn.params):
            if params[i] == 'int':
                v = ('sym', 'in.n', i)
                I.bounds[v] = (-(1 << 62), 1 << 62)
                ins.append(v)
                av.append(v)
            else:
                ins.append(mk(I, st, arg(p['n']), params[i]))
                av.append(('ref', arg(p['n'])))
        for s, k, v in I.analyse(fn, av=av, state=st):
            c.ob('derived', name + ' returns', k == 'v', '%s ends by %s' % (name, k), fn.where())
            if k != 'v':
                continue
            for want_f, (got, want) in spec(I, s, v, ins).items():
                c.ob('derived', '%s %s' % (name, want_f), I.prove(s, cmp_term('==', got, want)) or got == want,
                     '%s yields %s = %s instead of %s' % (name, want_f, show(got), show(want)), fn.where())

    def date_ser(d):
        return ser(dict(d, hour=N0, minute=N0, sec=N0))

    def tsec(d):
        return from_lin(lcomb((d['hour'], 3600), (d['minute'], 60), (d['sec'], 1)))

    def shifted(I, s, v, d, off, base, fs, pth):
        r = {}
        same = I.entails(s, cmp_term('==', off, N0))
        for f in fs:
            got = vfield(I, s, v, pth(f))
            if f == 'microsec' or (same and got == d[f]):
                r[f] = (got, d[f])
            else:
                r[f] = (got, ('app', 'utc.' + f, vadd(base, off)))
        return r
    pl = lambda f: (('.', f),)
    pd = lambda f: path((), f)
    derived('dateTimeToUnixSeconds', None, ['DateTime'], lambda I, s, v, a: {'seconds': (ret(I, s, v), ser(a[0]))}, 1)
    derived('dateToUnixSeconds', None, ['Date'], lambda I, s, v, a: {'seconds': (ret(I, s, v), date_ser(a[0]))}, 1)
    derived('timeToSeconds', None, ['Time'], lambda I, s, v, a: {'seconds': (ret(I, s, v), tsec(a[0]))}, 1)
    derived('unixSecondsToDate', None, ['int'], lambda I, s, v, a: {f: (vfield(I, s, v, pl(f)), ('app', 'utc.' + f, a[0])) for f in F[:3]}, 1)
    derived('unixSecondsToTime', None, ['int'], lambda I, s, v, a: {f: (vfield(I, s, v, pl(f)), ('app', 'utc.' + f, a[0]) if f != 'microsec' else N0) for f in F[3:]}, 1)
    derived('dateTimeShift', None, ['DateTime', 'int'], lambda I, s, v, a: shifted(I, s, v, a[0], a[1], ser(a[0]), F, pd), 2)
    derived('dateShift', None, ['Date', 'int'], lambda I, s, v, a: shifted(I, s, v, a[0], a[1], date_ser(a[0]), F[:3], pl), 2)
    derived('timeShift', None, ['Time', 'int'], lambda I, s, v, a: shifted(I, s, v, a[0], a[1], tsec(a[0]), F[3:], pl), 2)
    c.need('derived', 30)
    c.need('leap', 3)


main('C20', RULE, body)
