import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation (linear facts + lockset + event trace) of every method of the count-down latch over all paths: '
        'construction stores the requested count or throws; each count-down removes exactly one or throws when already zero, and wakes ALL waiters '
        'whenever it may have reached zero; a waiter goes to sleep only while the count is non-zero, on the same mutex/condition variable, and '
        'returns only with the count known to be zero; readiness is equivalent to zero; every access to the count is under the latch mutex.')
C = 'nebula::concurrent::Latch'


def body(c):
    P = c.load(['concurrent/Latch.cpp'])
    cnt = one(fields_of(P, C, is_int), 'integral state of Latch')
    mx = one(fields_of(P, C, is_rec(*MUTEX_T)), 'mutex of Latch')
    cv = one(fields_of(P, C, is_rec('std::condition_variable', 'std::condition_variable_any')), 'condition variable of Latch')
    atomic = is_atomic([f for f in fields(P, C) if f['id'] == cnt][0]['t'])
    CNT, MX, CV = fld(cnt), fld(mx), fld(cv)
    c0 = ('init', CNT)

    def run(fn):
        I = c.interp(P)
        I.bounds[c0] = (0, (1 << 64) - 1)
        I.snap = lambda I, st: I.load(st, CNT)
        acc = Access(I, [cnt], MX)
        acc.fn = fn

        def at(I, st, x):
            if x.name == 'cv.sleep' or (x.name == 'cv.wait' and len(x.args) == 1):
                c.ob(fn.n, 'sleeps only while non-zero', I.entails(st, cmp_term('!=', x.snap, N0)), 'a thread can go to sleep with the count at %s' % show(x.snap), where(x))
                c.ob(fn.n, 'waits on the latch condition', x.recv == CV, 'waits on another condition variable', where(x))
                c.ob(fn.n, 'waits with the latch mutex', MX in [m for m, _ in x.locks], 'waits without the latch mutex', where(x))
        I.on_event = at
        outs = I.analyse(fn)
        if not fn.ctor and not atomic:
            for (q, f, how), w in acc.bad.items():
                c.ob('lock', '%s %s' % (fn.n, how), False, 'the count is %s by %s without holding the latch mutex' % (how, q), w)
            c.ob('lock-scan', fn.n, True)
        return I, outs

    # construction
    fn = c.fn(P, C + '::Latch', 1, ctor='other')
    I, outs = run(fn)
    arg = [v for v in [('argv', fn.params[0]['n'])]][0]
    I.bounds[arg] = (0, (1 << 64) - 1)
    nrm = thr = 0
    for st, k, v in outs:
        if k == 'throw':
            thr += 1
            c.ob('construct', 'throws only for zero', I.entails(st, cmp_term('==', arg, N0)) and 'invalid_argument' in v[1],
                 'constructor throws %s when %s' % (v[1], facts(st)), fn.where())
        elif k == 'v':
            nrm += 1
            c.ob('construct', 'non-zero accepted', I.entails(st, cmp_term('!=', arg, N0)), 'a zero count is accepted', fn.where())
            c.ob('construct', 'count stored', I.entails(st, cmp_term('==', I.load(st, CNT), arg)), 'the latch starts at %s instead of the requested count' % show(I.load(st, CNT)), fn.where())
        else:
            c.ob('construct', 'no abort', False, 'constructor aborts', fn.where())
    c.ob('construct', 'zero rejected', thr > 0 and nrm > 0, 'no path rejects a zero count', fn.where())

    def released(st):
        """the count when the mutex is first given up (sleep or unlock)"""
        for e in st.trace:
            if e.name in ('cv.sleep', 'unlock') or (e.name == 'cv.wait' and len(e.args) == 1):
                return e
        return None

    def counting(name, waits):
        fn = c.fn(P, C + '::' + name, 0)
        I, outs = run(fn)
        seen = 0
        for st, k, v in outs:
            if k == 'throw':
                ok = I.entails(st, cmp_term('==', c0, N0)) and 'runtime_error' in v[1]
                c.ob(name, 'throws only at zero', ok, '%s throws %s when %s' % (name, v[1], facts(st)), fn.where())
                c.ob(name, 'throw leaves the count', I.load(st, CNT) == c0, 'the count changes although the call throws', fn.where())
                c.ob(name, 'unlocked on throw', not st.ghost.get('locks'), 'mutex still held on throw', fn.where())
                continue
            if k != 'v':
                c.ob(name, 'no abort', False, '%s aborts when %s' % (name, facts(st)), fn.where())
                continue
            seen += 1
            c.ob(name, 'zero rejected', I.entails(st, cmp_term('!=', c0, N0)), 'a count-down at zero is accepted (%s)' % facts(st), fn.where())
            c.ob(name, 'unlocked', not st.ghost.get('locks'), 'mutex still held on return', fn.where())
            e = released(st)
            d = e.snap if e is not None else I.load(st, CNT)
            c.ob(name, 'removes exactly one', I.entails(st, cmp_term('==', d, vadd(c0, N1, -1))), 'the count goes from c to %s' % show(d), fn.where())
            note = [x for x in st.trace if x.name.endswith('::notify_all') and x.recv == CV and I.entails(st, cmp_term('==', x.snap, vadd(c0, N1, -1)))]
            maybe0 = not I.entails(st, cmp_term('!=', vadd(c0, N1, -1), N0))
            c.ob(name, 'wakes every waiter at zero', note or not maybe0, 'a path that can bring the count to zero (%s) does not wake all waiters' % facts(st), fn.where())
            sl = [x for x in st.trace if x.name in ('cv.sleep', 'cv.wait', 'cv.woken') and x.name != 'cv.wait' or (x.name == 'cv.wait' and len(x.args) == 1)]
            if not waits:
                c.ob(name, 'does not block', not sl, '%s blocks' % name, fn.where())
            else:
                blocking(I, fn, name, st)
        c.ob(name, 'can succeed', seen > 0, 'no normal path', fn.where())

    def blocking(I, fn, name, st):
        c.ob(name, 'returns only at zero', I.entails(st, cmp_term('==', I.load(st, CNT), N0)), '%s can return while the count is %s (%s)' % (name, show(I.load(st, CNT)), facts(st)), fn.where())

    counting('down', False)
    counting('downWait', True)
    fn = c.fn(P, C + '::wait', 0)
    I, outs = run(fn)
    n = 0
    for st, k, v in outs:
        c.ob('wait', 'returns normally', k == 'v', 'wait ends by %s' % k, fn.where())
        if k != 'v':
            continue
        n += 1
        blocking(I, fn, 'wait', st)
        ch = [e for e in st.trace if e.name in ('cv.sleep', 'cv.wait', 'unlock')][:1]
        c.ob('wait', 'does not count', all(e.snap == c0 for e in ch), 'wait changes the count', fn.where())
        c.ob('wait', 'unlocked', not st.ghost.get('locks'), 'mutex still held on return', fn.where())
    c.ob('wait', 'blocks', any(e.name in ('cv.sleep', 'cv.wait') for st, k, v in outs for e in st.trace), 'wait never blocks', fn.where())
    fn = c.fn(P, C + '::isReady', 0)
    I, outs = run(fn)
    for st, k, v in outs:
        c.ob('isReady', 'returns', k == 'v', 'ends by %s' % k, fn.where())
        if k == 'v':
            for s, b in truth(I, st, ret(I, st, v)):
                c.ob('isReady', 'ready iff zero', I.entails(s, cmp_term('==' if b else '!=', c0, N0)), 'isReady returns %s when %s' % (b, facts(s)), fn.where())
            c.ob('isReady', 'does not count', I.load(st, CNT) == c0, 'isReady changes the count', fn.where())
    # nobody else touches the count
    for f in P.methods_of.get(C, []):
        if f.ctor or f.dtor or f.n in ('down', 'downWait', 'wait', 'isReady') or (f.body is None) or f.d.get('access') == 'private':
            continue
        if f.lambda_:
            continue
        I, outs = run(f)
        for st, k, v in outs:
            c.ob('others', f.n, I.load(st, CNT) == c0 or st.trace and any(e.name == 'cv.woken' for e in st.trace), '%s changes the count' % f.q, f.where())
    c.need('down', 5)


main('C10', RULE, body)
