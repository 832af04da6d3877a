import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation with the millisecond clock as a symbol: construction stores the present time; on every path the verdict is true exactly when '
        'max(0, now - start) exceeds the threshold in force (the argument when positive, else the configured flag), that elapsed time is what is kept, and the report '
        'inserts the prefix, then this elapsed time, then the message into the log.')
C = 'nebula::SlowOpTracker'
NOW = 'nebula::time::WallClock::fastNowInMilliSec'


def body(c):
    P = c.load(['base/SlowOpTracker.cpp'], ['slowop.cpp'])
    ints = fields_of(P, C, is_int)

    def mk():
        I = c.interp(P)
        I.exact_casts = True

        def now(I, st, fr, n, loc, av):
            v = ('sym', 'nowMs', len([e for e in st.trace if e.name == 'now']))
            I.bounds[v] = (0, 1 << 60)
            I.event(st, fr, n, 'now', None, (), v)
            return I.ok(st, v)
        for u in ('fastNowIn', 'slowNowIn'):
            I.hooks['nebula::time::WallClock::%sMilliSec' % u] = now
        return I

    # ------------------------------------------------------ construction
    fn = c.fn(P, C + '::SlowOpTracker', 0)
    I = mk()
    start = None
    for s, k, v in I.analyse(fn):
        hit = [f for f in ints if I.load(s, fld(f)) == ('sym', 'nowMs', 0)]
        c.ob('start', 'captured at construction', k == 'v' and len(hit) == 1, 'construction does not record the present time in milliseconds', fn.where())
        start = hit[0] if hit else None
    if start is None:
        return

    # ------------------------------------------------------ verdict
    fn = c.fn(P, C + '::slow', 1)
    I = mk()
    S0 = ('init', fld(start))
    I.bounds[S0] = (0, 1 << 60)
    arg = ('argv', fn.params[0]['n'])
    dur = None
    for s, k, v in I.analyse(fn):
        if k != 'v':
            c.ob('verdict', 'returns', False, 'slow ends by %s' % k, fn.where())
            continue
        nows = [e.ret for e in s.trace if e.name == 'now']
        c.ob('verdict', 'one clock reading', len(nows) == 1, 'slow reads the clock %d times' % len(nows), fn.where())
        if not nows:
            continue
        el = vadd(nows[0], S0, -1)
        for s1, neg in I.split(s.copy(), cmp_term('<', el, N0)):
            want = N0 if neg else el
            for s2, given in I.split(s1, cmp_term('>', arg, N0)):
                flag = [a for f in s2.cons + tuple(x[1] for x in [v] if x[0] == 'le') for a, _ in f[1] if a[0] == 'init' and a[1][0][0] == 'g' and 'slow_op' in a[1][0][1]]
                for s3, b in truth(I, s2, v):
                    if not given:
                        flag = [a for f in s3.cons for a, _ in f[1] if a[0] == 'init' and a[1][0][0] == 'g']
                    th = arg if given else (flag[0] if flag else None)
                    if th is None:
                        c.ob('verdict', 'uses the configured threshold', False, 'without a threshold argument, the verdict does not depend on the configured one (%s)' % facts(s3), fn.where())
                        continue
                    t = cmp_term('>', want, th)
                    c.ob('verdict', '%s threshold, %s' % ('given' if given else 'configured', 'slow' if b else 'not slow'), I.prove(s3, t if b else mk_not(t)),
                         'the verdict is %s although elapsed time %s the %s threshold (%s)' % ('slow' if b else 'not slow', 'does not exceed' if b else 'can exceed', 'given' if given else 'configured', facts(s3)), fn.where())
                    kept = [f for f in ints if f != start and I.entails(s3, cmp_term('==', I.load(s3, fld(f)), want))]
                    c.ob('verdict', 'keeps the elapsed time', bool(kept), 'the elapsed time that was judged is not kept for the report', fn.where())
                    if kept and len(kept) == 1:
                        dur = kept[0]
        c.ob('verdict', 'start unchanged', I.load(s, fld(start)) == S0, 'judging an operation moves its start', fn.where())
    c.need('verdict', 12)

    # ------------------------------------------------------ report
    fn = c.fn(P, C + '::output', 2)
    I = mk()
    I.stream_items = True
    n = 0
    for s, k, v in I.analyse(fn):
        items = [e.args[0] for e in s.trace if e.name == 'stream.item' and e.args]
        if not items:
            continue        # logging of this severity is off
        n += 1
        want = [('init', (('arg', fn.params[0]['n']),)), ('init', fld(dur)) if dur else None, ('init', (('arg', fn.params[1]['n']),))]
        got = [i for i in items if i in want]
        c.ob('report', 'prefix, elapsed time, message', got == want, 'the report carries %s' % [show(i) for i in items], fn.where())
    c.ob('report', 'is written', n > 0, 'nothing is reported', fn.where())


main('C21', RULE, body)
