import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from statusmodel import *
from conc import Conc

RULE = ('Abstract interpretation with every time component, map entry, text field and the configured offset as symbols. Shifts: on every path the result is the civil time of (seconds of the input -/+ the offset), sub-second part kept, '
        'so the two directions are inverse; the local clock readings are the UTC ones shifted the same way. Building from a map, for every documented name, every ordered pair and for foreign names: success exactly when the entries are integers in the documented range and the day exists '
        'in that month of that year, each component from the entry of its name, the others default. Parsing: every component comes from the text (a conversion that named it and succeeded), is in range and the date exists. Component access returns the component named. '
        'Calendar: the seconds of a civil time for every residue of the year modulo 400 (the multiple, day, hour, minute and second being symbols) and every month, as either operand; the civil time of a second in one cell per year, day, hour, minute and second of it being symbols (quick: 400 consecutive years and every 101st; thorough: 8000 and every 7th); leap years for every residue.')
U = 'nebula::time::TimeUtils::'
CV = 'nebula::time::TimeConversion::'
OFF = ('sym', 'offset', 0)
COMP = {'Date': ('year', 'month', 'day'), 'Time': ('hour', 'minute', 'sec', 'microsec'), 'DateTime': ('year', 'month', 'day', 'hour', 'minute', 'sec', 'microsec')}
RANGE = {'year': (-32768, 32767), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'sec': (0, 59), 'microsec': (0, 999999)}
KEY = {'year': 'year', 'month': 'month', 'day': 'day', 'hour': 'hour', 'minute': 'minute', 'second': 'sec', 'microsecond': 'microsec'}
DEF = {'year': 0, 'month': 1, 'day': 1, 'hour': 0, 'minute': 0, 'sec': 0, 'microsec': 0}
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
TM = {'year': ('tm_year', 1900, 'Y', (-1900, 8099)), 'month': ('tm_mon', 1, 'm', (0, 11)), 'day': ('tm_mday', 0, 'd', (1, 31)), 'hour': ('tm_hour', 0, 'H', (0, 23)), 'minute': ('tm_min', 0, 'M', (0, 59)), 'sec': ('tm_sec', 0, 'S', (0, 60))}


def body(c):
    P = c.load(['time/TimeUtils.cpp', 'time/TimeConversion.cpp', 'datatypes/Date.cpp'])

    def paths(rec, pre=()):   # components by name, through anonymous members
        out = {}
        for f in rec.fields:
            t = f['t'].strip_ref()
            if f['n'] in RANGE:
                out[f['n']] = pre + (('.', f['id']),)
            elif t.k == 'rec' and P.recs.get(t.base) is not None and (not f['n'] or 'anon' in f['n'] or 'anon' in t.base):
                out.update(paths(P.recs[t.base], pre + (('.', f['id']),)))
        return out
    PATH = {k: paths(P.recs['nebula::' + k]) for k in COMP}
    for k in COMP:
        if set(PATH[k]) != set(COMP[k]):
            raise Broken('the components of %s are not found: %s' % (k, sorted(PATH[k])))

    def mk():
        I = c.interp(P, unroll=40)
        I.exact_casts = True
        H = I.hooks
        C, SM = Conc(I), StatusModel(I, P)
        I.bounds[OFF] = (-86400, 86400)
        # ---- time zone and clocks
        H['nebula::time::Timezone::utcOffsetSecs'] = lambda I, st, fr, n, loc, av: I.ok(st, OFF)
        H['nebula::time::Timezone::getGlobalTimezone'] = lambda I, st, fr, n, loc, av: I.ok(st, ('ref', (('g', 'tz'),)))

        def clock(unit):
            def h(I, st, fr, n, loc, av):
                v = ('sym', 'now' + unit, len([e for e in st.trace if e.name == 'clock']))
                I.bounds[v] = (0, 1 << 60)
                I.event(st, fr, n, 'clock', None, (unit,), v)
                return I.ok(st, v)
            return h
        for sp in ('fast', 'slow'):
            for u, x in (('Sec', 's'), ('MilliSec', 'ms'), ('MicroSec', 'us')):
                H['nebula::time::WallClock::%sNowIn%s' % (sp, u)] = clock(x)

        def ctime(I, st, fr, n, loc, av):
            good, bad = st, st.copy()
            return clock('s')(I, good, fr, n, loc, av) + I.ok(bad, num(-1))
        H['time'] = H['std::time'] = ctime
        # ---- leap years: a truth value per year
        H[CV + 'isLeapYear'] = lambda I, st, fr, n, loc, av: I.ok(st, cmp_term('!=', leap(I, av[0]), N0))
        # ---- values
        for m in ('isInt', 'getInt', 'type', 'isStr', 'getStr', 'isNull', 'isFloat', 'isBool', 'isNumeric'):
            H['nebula::Value::' + m] = vacc

        def fresh_value(I, st, fr, n, loc, av):
            I.drop(st, loc)
            v = SM.val(st, av[0]) if av else ('app', 'value', 'empty')
            if n.get('ck') in ('copy', 'move') or v[:2] == ('app', 'value'):
                I.store(st, loc, v)
            else:
                I.store(st, loc, ('app', 'value', v))
            return [(st, 'v', None)]
        H['ctor:nebula::Value'] = fresh_value
        H['dtor:nebula::Value'] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        H['nebula::Value::toString'] = lambda I, st, fr, n, loc, av: I.ok(st, I.fresh('text', n.get('t')))
        # ---- text
        H['ctor:std::basic_istringstream'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, ('app', 'stream', SM.val(st, av[0]) if av else N0)), [(st, 'v', None)])[1]
        H['dtor:std::basic_istringstream'] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        H['std::get_time'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'get_time', av[0], av[1]))
        H['std::operator>>'] = extract
        for m in ('fail', 'operator!'):
            H['std::basic_ios::' + m] = lambda I, st, fr, n, loc, av: I.ok(st, state(I, st, loc, True))
        for m in ('operator bool', 'good'):
            H['std::basic_ios::' + m] = lambda I, st, fr, n, loc, av: I.ok(st, state(I, st, loc, False))
        H['boost::algorithm::to_lower_copy'] = lambda I, st, fr, n, loc, av: I.ok(st, lowered(SM.val(st, av[0])))
        for q in ('boost::algorithm::to_lower',):
            H[q] = lambda I, st, fr, n, loc, av: (I.store(st, av[0][1], lowered(SM.val(st, av[0]))), I.ok(st, VOID))[1]
        return I, C, SM

    def lowered(v):
        return ('str', v[1].lower()) if v[0] == 'str' and isinstance(v[1], str) else ('app', 'lower', v)

    def leap(I, y):
        if y[0] == 'n':
            return num(int(greg(y[1])))
        v = ('app', 'leap', y)
        I.bounds[v] = (0, 1)
        return v

    def vacc(I, st, fr, n, loc, av):
        m = n['n']
        tag = ('app', 'type', loc)
        if m == 'getInt':
            l = loc + (('.', '$int'),)
            I.bounds[('init', l)] = (-(1 << 63), (1 << 63) - 1)
            return I.ok(st, ('ref', l))
        if m == 'getStr':
            return I.ok(st, ('ref', loc + (('.', '$str'),)))
        if m == 'type':
            return I.ok(st, tag)
        want = {'isInt': 'INT', 'isStr': 'STRING', 'isFloat': 'FLOAT', 'isBool': 'BOOL', 'isNull': 'NULLVALUE'}.get(m)
        k = TYPES.get(want)
        if k is None:
            return I.ok(st, ('app', m, loc))
        return I.ok(st, cmp_term('==', tag, num(k)))

    def state(I, st, loc, fail):
        b = st.ghost.get('stream', {}).get(tuple(x for x in loc if x[0] != 'base' and not (x[0] == '.' and str(x[1]).startswith('<'))), None)
        for k, w in st.ghost.get('stream', {}).items():
            if loc[:len(k)] == k:
                b = w
        if b is None:
            b = True
        return num(int(b != fail))

    def extract(I, st, fr, n, loc, av):
        g = av[1] if len(av) > 1 else None
        if g is not None and g[0] == 'ref':
            g = I.load(st, g[1])
        if g is None or g[:2] != ('app', 'get_time') or av[0][0] != 'ref':
            raise Broken('extraction that is not understood in %s' % fr.fn.q)
        tm, fmt = g[2], g[3]
        if tm[0] != 'ptr' or fmt[0] != 'str':
            raise Broken('get_time with an unknown structure or format in %s' % fr.fn.q)
        no = st.ghost.get('gets', 0) + 1
        outs = []
        for good in (True, False):
            s = st.copy()
            s.ghost = dict(s.ghost)
            s.ghost['gets'] = no
            d = dict(s.ghost.get('stream', {}))
            was = d.get(av[0][1], True)
            d[av[0][1]] = good and was
            s.ghost['stream'] = d
            for f, (m, _, spec, rg) in TM.items():
                v = ('sym', ('tm' if good and was else 'junk') + f, no)
                if '%' + spec in fmt[1]:
                    if good and was:
                        I.bounds[v] = rg
                    I.store(s, tm[1] + (('.', m),), v)
            s.ghost['fmt%d' % no] = fmt[1]
            outs.append((s, 'v', av[0]))
        return outs

    TYPES = {n: v for n, v, *_ in enum_of(P, 'nebula::Value::Type')}

    # ------------------------------------------------------------- the date that must exist
    def exists(I, s, comp, want):
        """prove that the day exists (or not) in that month of that year; by cases on month and leap year"""
        y, m, d = (comp[k] for k in ('year', 'month', 'day'))
        lp = leap(I, y) if y[0] != 'n' else num(int(greg(y[1])))
        bad = None
        for lv in (0, 1):
            if lp[0] == 'n':
                if lp[1] != lv:
                    continue
                s1 = [s.copy()]
            else:
                s1 = [x for x, b in I.split(s.copy(), cmp_term('==', lp, num(lv))) if b]
            for x in s1:
                for mm in range(1, 13):
                    for x2, b in (I.split(x.copy(), cmp_term('==', m, num(mm))) if m[0] != 'n' else [(x, m[1] == mm)]):
                        if not b:
                            continue
                        # tables are looked up under this month
                        if not feasible(I, x2, m, mm):
                            continue
                        lim = MDAYS[mm - 1] + (1 if mm == 2 and lv else 0)
                        t = cmp_term('<=', d, num(lim))
                        if not want:
                            t = mk_not(t)
                        if not prove_at(I, x2, m, mm, t):
                            bad = 'month %d of a %s year' % (mm, 'leap' if lv else 'common')
        return bad

    def feasible(I, s, m, mm):
        return fix_tables(I, s, m, mm) is not None

    def prove_at(I, s, m, mm, t):
        s2 = fix_tables(I, s, m, mm)
        return s2 is None or I.prove(s2, t)

    def fix_tables(I, s, m, mm):
        """the state with table look-ups at the month replaced by their constant; None when contradictory"""
        s = s.copy()
        env = {m: mm} if m[0] != 'n' and m[0] != 'lin' else {}
        if m[0] == 'lin':
            (k0, ((a, k),)) = to_lin(m)
            env = {a: (mm - k0) // k}
        for con in s.cons:
            g = lookup(con, env)
            if g != con:
                if not I.assume(s, ('le', g)):
                    return None
        return s

    def lookup(f, env):
        r = (f[0], ())
        for a, k in f[1]:
            r = lin.add(r, lin.scale(to_lin(at(a, env)), k))
        return r

    def at(a, env):
        if a in env:
            return num(env[a])
        if a[0] == 'lin':
            return from_lin(lookup(to_lin(a), env))
        if a[0] == 'tab':
            i = at(a[2], env)
            if i[0] == 'n' and 0 <= i[1] < len(a[1]):
                return num(a[1][i[1]])
        return a

    def canon(v):
        return ('init', v[1][1] + v[2:]) if v is not None and v[0] == 'fld' and v[1][0] == 'init' else v

    def greg(y):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

    # ------------------------------------------------------------- from a map
    def from_map(fn, cls):
        comps = COMP[cls]
        names = [k for k, f in KEY.items() if f in comps]
        foreign = ['Year', '', 'week', 'timezone', 'days'] + [k for k in KEY if k not in names]
        cases = [()] + [(k,) for k in names + foreign] + [(a, b) for a in names for b in names if a != b] + [(names[0], foreign[0]), (foreign[2], names[1])]
        if 'day' in comps:
            cases += [('year', 'month', 'day'), ('day', 'month', 'year')]
        for ks in cases:
            I, C, SM = mk()
            loc = (('arg', fn.params[0]['n']), ('.', 'kvs'))
            vloc = {k: loc + (('@', ('str', k)), ('.', 'second')) for k in ks}

            def setup(I_, st, fr):
                C.make(st, loc, 'map', [(('str', k), ('sym', 'entry', i)) for i, k in enumerate(ks)])
            val = {k: ('init', l + (('.', '$int'),)) for k, l in vloc.items()}
            for s, kind, v in I.analyse(fn, setup=setup):
                o, x = SM.outcome(s, v) if kind == 'v' else (None, None)
                what = '%s {%s}' % (cls, ', '.join(ks))
                if o is None:
                    c.ob('map', what, False, 'building a %s from a map with %s ends by %s' % (cls, ks or 'no entry', kind), fn.where())
                    continue
                val = {k: I.load(s, l + (('.', '$int'),)) for k, l in vloc.items()}
                conds = []
                for k in ks:
                    conds.append((cmp_term('==', ('app', 'type', vloc[k]), num(TYPES['INT'])), 'the entry %s is not an integer' % k))
                    if k in names:
                        lo, hi = RANGE[KEY[k]]
                        conds.append((cmp_term('>=', val[k], num(lo)), 'the %s is below %d' % (k, lo)))
                        conds.append((cmp_term('<=', val[k], num(hi)), 'the %s is above %d' % (k, hi)))
                    else:
                        conds.append((N0, 'there is no component "%s"' % k))
                comp = {f: num(DEF[f]) for f in comps}
                for k in ks:
                    if k in names:
                        comp[KEY[k]] = val[k]
                if o == 'v':
                    for t, why in conds:
                        c.ob('map', what + ' accepted', t != N0 and I.prove(s, t), 'a %s is built although %s may be so: %s' % (cls, ', '.join(ks), why), fn.where())
                    for f in comps:
                        c.ob('map', what + ' ' + f, I.entails(s, cmp_term('==', x(*PATH[cls][f]), comp[f])), 'the %s of a %s built from {%s} is %s' % (f, cls, ', '.join(ks), show(x(*PATH[cls][f]))[:60]), fn.where())
                    if 'day' in comps:
                        bad = exists(I, s, comp, True)
                        c.ob('map', what + ' exists', bad is None, 'a %s built from {%s} may name a day that does not exist (%s)' % (cls, ', '.join(ks), bad), fn.where())
                else:
                    # refused: some condition must fail
                    ss = [s]
                    for t, why in conds:
                        ss = [y for z in ss for y, b in (I.split(z.copy(), t) if t not in (N0, N1) else [(z, t == N1)]) if b]
                    bad = None
                    for y in ss:
                        if 'day' not in comps:
                            bad = 'every entry is good'
                        else:
                            bad = exists(I, y, comp, False) or bad
                    c.ob('map', what + ' refused', bad is None, 'a %s is refused for {%s} although it is valid (%s; %s)' % (cls, ', '.join(ks), bad, facts(s)[:80]), fn.where())

    for cls, q in (('Date', 'dateFromMap'), ('Time', 'timeFromMap'), ('DateTime', 'dateTimeFromMap')):
        from_map(c.fn(P, U + q, 1), cls)
    c.need('map', 300)

    # ------------------------------------------------------------- from a text
    for cls, q in (('Date', 'parseDate'), ('Time', 'parseTime'), ('DateTime', 'parseDateTime')):
        fn = c.fn(P, U + q, 1)
        comps = COMP[cls]
        I, C, SM = mk()
        good = 0
        for s, kind, v in I.analyse(fn):
            o, x = SM.outcome(s, v) if kind == 'v' else (None, None)
            if o is None:
                c.ob('text', q, False, '%s ends by %s' % (q, kind), fn.where())
                continue
            gets = s.ghost.get('gets', 0)
            okg = [i for i in range(1, gets + 1) if any(a[0] == 'sym' and a[1].startswith('tm') and a[2] == i for l, a in s.mem.items() if isinstance(a, tuple) and len(a) == 3)]
            if o == 'v':
                good += 1
                comp = {}
                for f in comps:
                    w = x(*PATH[cls][f])
                    comp[f] = w
                    if f == 'microsec':
                        c.ob('text', '%s %s' % (cls, f), w == N0, 'the %s of a parsed %s is %s' % (f, cls, show(w)[:60]), fn.where())
                        continue
                    i = next((a[2] for a, _ in to_lin(w)[1] if a[0] == 'sym'), 0)
                    want = from_lin(lin.add((TM[f][1], ()), to_lin(('sym', 'tm' + f, i))))
                    c.ob('text', '%s %s' % (cls, f), w == want, 'the %s of a parsed %s is %s, not the one in the text' % (f, cls, show(w)[:60]), fn.where())
                    lo, hi = RANGE[f]
                    c.ob('text', '%s %s in range' % (cls, f), w != want or I.prove(s, cmp_term('<=', w, num(hi))) and I.prove(s, cmp_term('>=', w, num(lo))), 'the %s of a parsed %s can be outside %d..%d' % (f, cls, lo, hi), fn.where())
                if 'day' in comps:
                    bad = exists(I, s, comp, True)
                    c.ob('text', cls + ' exists', bad is None, 'a parsed %s may name a day that does not exist (%s)' % (cls, bad), fn.where())
            elif okg:
                # the text was understood: refused only for a value that is out of range
                comp = {f: from_lin(lin.add((TM[f][1], ()), to_lin(('sym', 'tm' + f, okg[-1])))) for f in comps if f != 'microsec'}
                ss = [s]
                for f, w in comp.items():
                    lo, hi = RANGE[f]
                    for t in (cmp_term('>=', w, num(lo)), cmp_term('<=', w, num(hi))):
                        ss = [y for z in ss for y, b in I.split(z.copy(), t) if b]
                bad = None
                for y in ss:
                    bad = (exists(I, y, comp, False) if 'day' in comps else 'all components are in range') or bad
                c.ob('text', cls + ' refused', bad is None, 'a valid %s text is refused (%s)' % (cls, bad), fn.where())
        c.ob('text', cls + ' accepted', good > 0, '%s accepts nothing' % q, fn.where())
    c.need('text', 20)

    # ------------------------------------------------------------- shifts
    def civil(I):
        """seconds <-> civil time as uninterpreted inverse operations"""
        H = I.hooks

        def to(I, st, fr, n, loc, av):
            t = (('tmp', 'civil', len(st.trace), n.get('l') or 0),)
            I.drop(st, t)
            s = av[0]
            for f in COMP['DateTime']:
                v = ('app', 'civil', f, s) if f != 'microsec' else N0
                if f != 'microsec':
                    I.bounds[v] = RANGE[f]
                I.store(st, t + PATH['DateTime'][f], v)
            return I.ok(st, I.load(st, t))

        def comps(I, st, a):
            return tuple(I.load(st, a[1] + PATH['DateTime'][f]) if a[0] == 'ref' else I._proj(a, PATH['DateTime'][f], None) for f in COMP['DateTime'][:6])

        def diff(I, st, fr, n, loc, av):
            b = comps(I, st, av[1])
            if b != tuple(num(x) for x in (1970, 1, 1, 0, 0, 0)) and not (av[1][0] == 'ref' and av[1][1][0][0] == 'g' and 'kEpoch' in str(av[1][1][0])):
                return I.ok(st, ('app', 'diff') + comps(I, st, av[0]) + b)
            return I.ok(st, secs(I, comps(I, st, av[0])))
        H[CV + 'unixSecondsToDateTime'] = to
        H[CV + 'dateTimeDiffSeconds'] = diff

    def secs(I, cs):
        if all(x[0] == 'app' and x[1] == 'civil' and x[2] == f and x[3] == cs[0][3] for f, x in zip(COMP['DateTime'], cs) if True) and cs[0][0] == 'app':
            return cs[0][3]
        v = ('app', 'unix') + cs
        I.bounds[v] = (-(1 << 50), 1 << 50)
        return v

    def arg_comps(fn, cls):
        p = fn.params[0]['n']
        return {f: ('init', (('arg', p),) + PATH[cls][f]) for f in COMP[cls]}

    def shift(q, cls, sign):
        fn = c.fn(P, U + q, 1)
        I, C, SM = mk()
        civil(I)
        a = arg_comps(fn, cls)
        for f in COMP[cls]:
            I.bounds[a[f]] = RANGE[f]
        if cls == 'DateTime':
            base = ('app', 'unix') + tuple(a[f] for f in COMP[cls][:6])
            I.bounds[base] = (-(1 << 50), 1 << 50)
        else:
            base = vadd(vadd(vmul(a['hour'], num(3600)), vmul(a['minute'], num(60))), a['sec'])
        for s, kind, v in I.analyse(fn):
            if kind != 'v':
                c.ob('shift', q, False, '%s ends by %s' % (q, kind), fn.where())
                continue
            zero = I.entails(s, cmp_term('==', OFF, N0))
            want = vadd(base, OFF, sign)
            for f in COMP[cls]:
                got = canon(vfield(I, s, v, PATH[cls][f]))
                if f == 'microsec':
                    okk = got == a[f]
                else:
                    okk = got == ('app', 'civil', f, want) or zero and (got == a[f] or got == ('app', 'civil', f, base))
                c.ob('shift', '%s %s%s' % (q, f, ' without offset' if zero else ''), okk, '%s: the %s of the result is %s instead of the one %d seconds x offset away' % (q, f, show(got)[:70], sign), fn.where())

    shift('dateTimeToUTC', 'DateTime', -1)
    shift('utcToDateTime', 'DateTime', 1)
    shift('timeToUTC', 'Time', -1)
    shift('utcToTime', 'Time', 1)

    # ------------------------------------------------------------- clock readings
    for q, cls, sign in (('localDateTime', 'DateTime', 1), ('utcDateTime', 'DateTime', 0), ('localDate', 'Date', 1), ('utcDate', 'Date', 0), ('localTime', 'Time', 1), ('utcTime', 'Time', 0)):
        fn = c.fn(P, U + q, 0)
        I, C, SM = mk()
        civil(I)
        for s, kind, v in I.analyse(fn):
            if kind != 'v':
                c.ob('now', q, False, '%s ends by %s' % (q, kind), fn.where())
                continue
            x = None
            if 'StatusOr' in fn.ret.base:
                o, x = SM.outcome(s, v)
                if o == 's':
                    c.ob('now', q + ' refused', not any(e.name == 'clock' for e in s.trace), '%s fails although the clock was read' % q, fn.where())
                    continue
            evs = [e for e in s.trace if e.name == 'clock']
            c.ob('now', q + ' one reading', len(evs) == 1, '%s reads the clock %d times' % (q, len(evs)), fn.where())
            if len(evs) != 1:
                continue
            t, unit = evs[0].ret, evs[0].args[0]
            per = {'s': 1, 'ms': 1000, 'us': 1000000}[unit]
            sec = I.divmod_(s, '/', t, num(per), None)
            want = vadd(sec, OFF, 1) if sign else sec
            for f in COMP[cls]:
                got = x(*PATH[cls][f]) if x else vfield(I, s, v, PATH[cls][f])
                if f == 'microsec':
                    w = vmul(I.divmod_(s, '%', t, num(per), None), num(1000000 // per)) if per > 1 else N0
                    okk = I.entails(s, cmp_term('==', got, w))
                else:
                    okk = got[:3] == ('app', 'civil', f) and I.entails(s, cmp_term('==', got[3], want))
                c.ob('now', '%s %s' % (q, f), okk, '%s: the %s is %s instead of that of the %s' % (q, f, show(got)[:70], 'clock plus the offset' if sign else 'clock'), fn.where())
    c.need('now', 20)

    # ------------------------------------------------------------- component access
    for q, cls in (('getDateAttr', 'Date'), ('getTimeAttr', 'Time'), ('getDateTimeAttr', 'DateTime')):
        fn = c.fn(P, U + q, 2)
        a = arg_comps(fn, cls)
        for k in list(KEY) + ['Year', 'MONTH', 'Second', '', 'week', 'sec', 'years']:
            I, C, SM = mk()
            for f in COMP[cls]:
                I.bounds[a[f]] = RANGE[f]

            def setup(I_, st, fr):
                I_.store(st, (('arg', fn.params[1]['n']),), ('str', k))
            f = KEY.get(k.lower())
            for s, kind, v in I.analyse(fn, setup=setup):
                if v is not None and v[0] == 'ref':
                    v = I.load(s, v[1])
                if f in COMP[cls]:
                    okk = kind == 'v' and v == ('app', 'value', a[f])
                else:
                    okk = kind == 'v' and 'kNullUnknownProp' in repr(v)
                c.ob('component', '%s %s' % (q, k), okk, '%s of "%s" answers %s' % (q, k, show(v)[:70] if v else kind), fn.where())
    c.need('component', 30)

    # ------------------------------------------------------------- timestamps
    fn = c.fn(P, U + 'toTimestamp', 1)
    I, C, SM = mk()
    civil(I)
    PD = {}

    def pdt(I, st, fr, n, loc, av):
        outs = []
        for good in (True, False):
            s = st.copy()
            I.event(s, fr, n, 'parse', None, (av[0],), num(int(good)))
            t = (('tmp', 'parsed', n.get('l') or 0, int(good)),)
            I.store(s, t, ('app', 'sor', 'v' if good else 's'))
            if good:
                for f in COMP['DateTime']:
                    v = ('sym', 'parsed-' + f, 0)
                    I.bounds[v] = RANGE[f]
                    I.store(s, t + (V,) + PATH['DateTime'][f], v)
            else:
                I.store(s, t + (S,), ('app', 'status', 'Error'))
            outs += I.ok(s, I.load(s, t))
        return outs
    I.hooks[U + 'parseDateTime'] = pdt
    aloc = (('arg', fn.params[0]['n']),)
    tag = ('app', 'type', aloc)
    cs = tuple(('sym', 'parsed-' + f, 0) for f in COMP['DateTime'])
    for s, kind, v in I.analyse(fn):
        o, x = SM.outcome(s, v) if kind == 'v' else (None, None)
        if o is None:
            c.ob('timestamp', 'returns', False, 'toTimestamp ends by %s' % kind, fn.where())
            continue
        ps = [e for e in s.trace if e.name == 'parse']
        for s1, isint in I.split(s.copy(), cmp_term('==', tag, num(TYPES['INT']))):
            for s2, isstr in (I.split(s1.copy(), cmp_term('==', tag, num(TYPES['STRING']))) if not isint else [(s1, False)]):
                hi = (1 << 63) // 1000000000
                if isint:
                    w = I.load(s2, aloc + (('.', '$int'),))
                    if w[0] == 'init':
                        I.bounds[w] = (-(1 << 63), (1 << 63) - 1)
                elif isstr:
                    if not ps:
                        c.ob('timestamp', 'text', o == 's', 'a text becomes a timestamp without being parsed', fn.where())
                        continue
                    if ps[-1].ret == N0:
                        c.ob('timestamp', 'unparsable text', o == 's', 'a text that is no time becomes a timestamp', fn.where())
                        continue
                    w = ('app', 'unix') + cs[:6]
                    I.bounds[w] = (-(1 << 50), 1 << 50)
                else:
                    c.ob('timestamp', 'other types', o == 's', 'a value that is neither a text nor an integer becomes a timestamp', fn.where())
                    continue
                good = [cmp_term('>=', w, N0), cmp_term('<=', w, num(hi))] + ([cmp_term('==', cs[6], N0)] if isstr else [])
                if o == 'v':
                    r = x()
                    c.ob('timestamp', 'value', r in (w, ('app', 'value', w)), 'the timestamp of %s is %s' % ('an integer' if isint else 'a text', show(r)[:70]), fn.where())
                    for t in good:
                        c.ob('timestamp', 'range', I.prove(s2, t), 'a timestamp outside 0..%d is accepted' % hi, fn.where())
                else:
                    ss = [s2]
                    for t in good:
                        ss = [y for z in ss for y, b in I.split(z.copy(), t) if b]
                    c.ob('timestamp', 'refused', not ss, 'a valid timestamp is refused (%s)' % facts(s)[:90], fn.where())
    c.need('timestamp', 6)

    # ------------------------------------------------------------- calendar
    fn = c.fn(P, CV + 'isLeapYear', 1)
    q = ('sym', 'q', 0)
    par = fn.params[0]['n']
    bad = []
    for r in range(400):
        I = c.interp(P)
        I.exact_casts = True
        I.bounds[q] = (-82, 81)
        y = from_lin((r, ((q, 400),)))
        for s, kind, v in I.analyse(fn, av=[y]):
            for s2, b in truth(I, s, v):
                if b != greg(r):
                    bad.append(r)
    c.ob('calendar', 'leap years', not bad, 'years 400 k + %s are%s taken for leap years' % (bad[:1], '' if bad and not greg(bad[0]) else ' not'), fn.where())

    # seconds -> civil time, one year at a time: any day, hour, minute and second of it
    to = c.fn(P, CV + 'unixSecondsToDateTime', 1)
    X, HH, MM, SS = (('sym', n, 0) for n in ('day', 'hour', 'minute', 'second'))

    def years(ys):
        bad, n0 = [], 0
        I = c.interp(P, unroll=16)
        I.exact_casts = True
        I.split_div = 3
        I.fork_unroll = 'all'
        I.bounds.update({HH: (0, 23), MM: (0, 59), SS: (0, 59)})
        for y in ys:
            if bad:
                break
            n = 365 + greg(y)
            I.bounds[X] = (0, n - 1)
            sec = from_lin((86400 * (before(y) - before(1970)), ((X, 86400), (HH, 3600), (MM, 60), (SS, 1))))
            for s, kind, v in I.analyse(to, av=[sec]):
                n0 += 1
                g = {f: vfield(I, s, v, PATH['DateTime'][f]) for f in COMP['DateTime']} if kind == 'v' else {}
                if kind != 'v' or not all(I.prove(s, cmp_term('==', g[f], w)) for f, w in (('year', num(y)), ('hour', HH), ('minute', MM), ('sec', SS))):
                    bad.append((y, kind, [show(x) for x in g.values()]))
                    continue
                k = 0
                for m in range(12):
                    d = MDAYS[m] + (m == 1 and greg(y))
                    ss = [s.copy()]
                    for t in (cmp_term('>=', X, num(k)), cmp_term('<', X, num(k + d))):
                        ss = [q for z in ss for q, w in I.split(z.copy(), t) if w]
                    for z in ss:
                        if not (I.prove(z, cmp_term('==', g['month'], num(m + 1))) and I.prove(z, cmp_term('==', g['day'], vadd(X, num(1 - k))))):
                            bad.append((y, m, show(g['month']), show(g['day'])))
                    k += d
        return bad, n0

    # civil time -> seconds, for every residue of the year modulo 400 and every month, as either operand
    ds = c.fn(P, CV + 'dateTimeDiffSeconds', 2)
    D = ('sym', 'mday', 0)
    REF = (2004, 3, 9, 7, 11, 13)
    refs = 86400 * (before(2004) + 31 + 29 + 8) + 7 * 3600 + 11 * 60 + 13

    def residues(rs):
        bad, cnt = [], 0
        I = c.interp(P, unroll=16)
        I.exact_casts = True
        I.split_div = 3
        I.fork_unroll = 'all'
        I.bounds.update({HH: (0, 23), MM: (0, 59), SS: (0, 59)})
        for r in rs:
            if bad:
                break
            I.bounds[q] = (-((32768 + r) // 400), (32767 - r) // 400)
            y = from_lin((r, ((q, 400),)))
            k = 0
            for m in range(12):
                d = MDAYS[m] + (m == 1 and greg(r))
                I.bounds[D] = (1, d)
                for arg in ((0, 1) if r % 100 < 5 or m == 2 else (0,)):
                    want = from_lin((86400 * (before(r) + k - 1) - refs, ((q, 86400 * 146097), (D, 86400), (HH, 3600), (MM, 60), (SS, 1))))
                    want = vmul(want, num(-1)) if arg else want

                    def setup(I_, st, fr):
                        for i, cs in ((arg, (y, num(m + 1), D, HH, MM, SS, ('sym', 'us', 0))), (1 - arg, tuple(map(num, REF)) + (('sym', 'us', 1),))):
                            for f, v in zip(COMP['DateTime'], cs):
                                I_.store(st, (('arg', ds.params[i]['n']),) + PATH['DateTime'][f], v)
                    for s, kind, v in I.analyse(ds, setup=setup):
                        cnt += 1
                        if kind != 'v' or not I.prove(s, cmp_term('==', v, want)):
                            bad.append((r, m + 1, kind, show(v)[:200] if v else ''))
                k += d
        return bad, cnt

    ys = sorted(set(list(range(1770, 2170)) + list(range(-32768, 32768, 101)) + [-1, 0, 1, -400, 400, -32768, 32767]) if c.tier == 'quick' else set(list(range(-2000, 6000)) + list(range(-32768, 32768, 7))))
    nj = os.cpu_count() or 4
    jobs = [('y', ys[i::4 * nj]) for i in range(4 * nj)] + [('r', list(range(i, 400, 2 * nj))) for i in range(2 * nj)]
    import multiprocessing as mp
    res = []
    with mp.get_context('fork').Pool(nj, initializer=init_pool, initargs=({'y': years, 'r': residues},)) as pool:
        for r in pool.imap(run_job, jobs, chunksize=1):
            res.append(r)
            if sum(bool(b) for b, _ in res) > 3:
                break
    by = [x for (k, _), (b, n) in zip(jobs, res) for x in b if k == 'y']
    br = [x for (k, _), (b, n) in zip(jobs, res) for x in b if k == 'r']
    n = sum(n for _, n in res)
    c.paths += n
    c.notes.append('calendar: seconds to civil time in %d years, civil time to seconds for the 400 residues of the year, %d paths' % (len(ys), n))
    c.ob('calendar', 'seconds to civil time', not by, 'the civil time of a second in year %s is wrong: %s' % (by[0][0], str(by[0][1:])[:160]) if by else '', to.where())
    c.ob('calendar', 'civil time to seconds', not br, 'the seconds of a time in month %s of a year 400 k + %s are wrong: %s' % (br[0][1], br[0][0], str(br[0][2:])[:160]) if br else '', ds.where())
    c.need('calendar', 3)


JOBS = {}


def init_pool(d):
    JOBS.update(d)


def run_job(j):
    return JOBS[j[0]](j[1])


def before(y):
    """days before the first of January of the year, from year 1"""
    y -= 1
    return 365 * y + y // 4 - y // 100 + y // 400


def enum_of(P, q):
    en = P.enums.get(q)
    if en is None:
        raise Broken('enum %s not found' % q)
    return [(n, int(v['big']) if isinstance(v, dict) else v) for n, v in en['consts']]


main('C36', RULE, body)
