import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation of every operation of the stopwatch from an arbitrary state, with the clock reading as a symbol: the reading is '
        'accumulated + (running ? now - start : 0); reset makes it zero at the moment of the call in either mode, pausing freezes it, resuming continues from it, '
        'repeated pauses and resumes change nothing, and each unit accessor converts exactly this reading with the conversion of its own unit.')
NOTE = 'The three state variables are identified by type and use; the tick counter is taken to be a free-running monotone counter.'
C = 'nebula::time::Duration'
H = 'nebula::time::TscHelper::'


def body(c):
    P = c.load(['time/Duration.cpp', 'time/detail/TscHelper.cpp'])
    flag = one(fields_of(P, C, lambda t: t.k == 'bool'), 'paused flag of Duration')
    ints = fields_of(P, C, is_int)
    if len(ints) != 2:
        raise Broken('Duration has %d counters, expected accumulated and start' % len(ints))
    FL = fld(flag)

    def interp():
        I = c.interp(P)
        nows = []

        def now(I, st, fr, n, loc, av):
            v = ('sym', 'now', len([e for e in st.trace if e.name == 'now']))
            I.bounds[v] = (0, (1 << 63) - 1)
            I.event(st, fr, n, 'now', None, (), v)
            return I.ok(st, v)
        I.hooks[H + 'readTsc'] = now
        for u in ('Sec', 'MSec', 'USec'):
            I.hooks[H + 'ticksToDurationIn' + u] = lambda I, st, fr, n, loc, av, u=u: I.ok(st, ('app', 'ticksIn' + u, av[0]))
        return I

    # which counter is the start: pause from running stores acc + now - start into the accumulator
    def start_role(a, b):
        """(acc, start) when the seconds accessor reads acc + now - start while running"""
        fn = c.fn(P, C + '::elapsedInUSec', 0)
        I = interp()
        for s, k, v in I.analyse(fn):
            if k == 'v' and v[0] == 'app' and I.decide(s, cmp_term('!=', ('init', FL), N0)) is False:
                f = dict(to_lin(v[2])[1])
                if f.get(('init', fld(a))) == 1 and f.get(('init', fld(b))) == -1:
                    return a, b
                if f.get(('init', fld(b))) == 1 and f.get(('init', fld(a))) == -1:
                    return b, a
        return None
    r = start_role(*ints)
    if r is None:
        c.ob('reading', 'running', False, 'while running, the reading is not the accumulated ticks plus the ticks since the start of the running period', c.fn(P, C + '::elapsedInUSec', 0).where())
        return
    A, S = fld(r[0]), fld(r[1])
    P0, A0, S0 = ('init', FL), ('init', A), ('init', S)

    def val(I, st, l):
        return I.load(st, l)

    def clock(st):
        return [e.ret for e in st.trace if e.name == 'now']

    def reading(I, st, t, at0=False):
        """reading at tick t in the state (None when the mode is undecided)"""
        m = I.decide(st, cmp_term('!=', P0 if at0 else val(I, st, FL), N0))
        if m is None:
            return None
        a, s = (A0, S0) if at0 else (val(I, st, A), val(I, st, S))
        return a if m else vadd(vadd(a, t), s, -1)

    # ------------------------------------------------------------ readings
    for u in ('Sec', 'MSec', 'USec'):
        fn = c.fn(P, C + '::elapsedIn' + u, 0)
        I = interp()
        seen = set()
        for s, k, v in I.analyse(fn):
            m = I.decide(s, cmp_term('!=', P0, N0))
            c.ob('reading', u + ' returns', k == 'v' and m is not None, 'elapsedIn%s ends by %s, or does not depend on whether the watch is paused' % (u, k), fn.where())
            if k != 'v' or m is None:
                continue
            seen.add(m)
            ts = clock(s)
            c.ob('reading', u + ' one clock reading', m or len(ts) == 1, 'elapsedIn%s reads the clock %d times while running' % (u, len(ts)), fn.where())
            t = ts[0] if ts else N0
            conv = v[0] == 'app' and v[1].startswith('ticksIn')
            c.ob('reading', u + ' unit', conv and v[1] == 'ticksIn' + u, 'elapsedIn%s does not return the reading in its own unit (returns %s)' % (u, show(v)), fn.where())
            if conv:
                want = reading(I, s, t, True)
                c.ob('reading', '%s %s' % (u, 'paused' if m else 'running'), I.entails(s, cmp_term('==', v[2], want)),
                     'elapsedIn%s converts %s instead of %s while %s' % (u, show(v[2]), show(want), 'paused' if m else 'running'), fn.where())
        c.ob('reading', u + ' both modes', seen == {True, False}, 'elapsedIn%s treats both modes alike' % u, fn.where())

    # ------------------------------------------------------------ flag
    fn = c.fn(P, C + '::isPaused', 0)
    I = interp()
    for s, k, v in I.analyse(fn):
        for s2, b in truth(I, s, ret(I, s, v)):
            c.ob('flag', 'isPaused', I.decide(s2, cmp_term('!=', P0, N0)) is b, 'isPaused does not report the mode', fn.where())

    # ------------------------------------------------------------ operations
    def op(name, fn, av=None):
        I = interp()
        n = 0
        for s, k, v in I.analyse(fn):
            n += 1
            if k != 'v':
                c.ob(name, 'returns', False, '%s ends by %s' % (name, k), fn.where())
                continue
            yield I, s
        c.ob(name, 'analysed', n > 0)

    for name, fn in [('reset', c.fn(P, C + '::reset', 1)), ('construct', c.fn(P, C + '::Duration', 1))]:
        arg = ('argv', fn.params[0]['n'])
        for I, s in op(name, fn):
            ts = clock(s)
            for s2, b in truth(I, s, arg):
                m = I.decide(s2, cmp_term('!=', val(I, s2, FL), N0))
                c.ob(name, 'mode', m is b, '%s leaves the watch in another mode than asked for' % name, fn.where())
                if m is not b:
                    continue
                c.ob(name, 'zero (%s)' % ('paused' if b else 'running'),
                     (b or len(ts) >= 1) and I.entails(s2, cmp_term('==', reading(I, s2, ts[-1] if ts else N0), N0)),
                     '%s leaves a reading other than zero (%s)' % (name, show(reading(I, s2, ts[-1] if ts else N0))), fn.where())

    for name, want in (('pause', True), ('resume', False)):
        fn = c.fn(P, C + '::' + name, 0)
        modes = set()
        for I, s in op(name, fn):
            m0 = I.decide(s, cmp_term('!=', P0, N0))
            if m0 is None:
                c.ob(name, 'depends on the mode', False, '%s does the same in both modes' % name, fn.where())
                continue
            modes.add(m0)
            m1 = I.decide(s, cmp_term('!=', val(I, s, FL), N0))
            c.ob(name, 'mode', m1 is want, '%s leaves the watch %s' % (name, 'running' if want else 'paused'), fn.where())
            if m1 is not want:
                continue
            ts = clock(s)
            if m0 is want:
                r0, r1 = reading(I, s, N0, True), reading(I, s, N0)
                c.ob(name, 'repeated', I.entails(s, cmp_term('==', r0, r1)), 'a second %s changes the reading' % name, fn.where())
            else:
                c.ob(name, 'one clock reading', len(ts) == 1, '%s reads the clock %d times' % (name, len(ts)), fn.where())
                if len(ts) == 1:
                    r0, r1 = reading(I, s, ts[0], True), reading(I, s, ts[0])
                    c.ob(name, 'keeps the reading', I.entails(s, cmp_term('==', r0, r1)), '%s changes the reading from %s to %s' % (name, show(r0), show(r1)), fn.where())
        c.ob(name, 'both modes', modes == {True, False}, '%s does the same in both modes' % name, fn.where())
    c.need('reading', 12)


main('C18', RULE, body, ['the tick counter never runs backwards between two readings'])
