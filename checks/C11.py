import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation of the barrier over all paths: an arrival is counted once under the mutex; the last arrival re-arms the count, starts a new '
        'round, runs the completion callback (when one is set) before any waiter can proceed, and wakes all waiters; every other arrival sleeps only while '
        'its own round is open and returns only when the round has changed; all state is accessed under the barrier mutex.')
C = 'nebula::concurrent::Barrier'


def body(c):
    P = c.load(['concurrent/Barrier.cpp'])
    ints = fields_of(P, C, is_int)
    mx = one(fields_of(P, C, is_rec(*MUTEX_T)), 'mutex of Barrier')
    cv = one(fields_of(P, C, is_rec('std::condition_variable', 'std::condition_variable_any')), 'condition variable of Barrier')
    cb = one(fields_of(P, C, is_rec('std::function')), 'completion callback of Barrier')
    MX, CV, CB = fld(mx), fld(cv), fld(cb)

    # construction
    fn = c.fn(P, C + '::Barrier', 2, ctor='other')
    I = c.interp(P)
    arg, carg = [('argv', p['n']) for p in fn.params]
    outs = I.analyse(fn)
    thr = nrm = 0
    inited = {}
    for st, k, v in outs:
        if k == 'throw':
            thr += 1
            c.ob('construct', 'throws only for zero', I.entails(st, cmp_term('==', arg, N0)) and 'invalid_argument' in v[1], 'constructor throws %s when %s' % (v[1], facts(st)), fn.where())
        elif k == 'v':
            nrm += 1
            c.ob('construct', 'non-zero accepted', I.entails(st, cmp_term('!=', arg, N0)), 'a zero party count is accepted', fn.where())
            c.ob('construct', 'callback kept', I.load(st, CB) == carg or I.load(st, CB) == ('init', (('arg', fn.params[1]['n']),)), 'the completion callback is not stored', fn.where())
            for f in ints:
                inited.setdefault(f, set()).add(I.load(st, fld(f)))
        else:
            c.ob('construct', 'no abort', False, 'constructor aborts', fn.where())
    c.ob('construct', 'zero rejected', thr > 0 and nrm > 0, 'no path rejects zero', fn.where())

    fn = c.fn(P, C + '::wait', 0)
    wrote = set()
    I = c.interp(P)
    I.on_write = lambda I_, st, loc, v, node: wrote.add(loc[1][1]) if len(loc) > 1 and loc[0] == ('this',) else None
    I.analyse(fn)
    written = [f for f in ints if f in wrote]
    total = [f for f in ints if f not in wrote]
    if len(total) == 2 and len(written) == 1:
        # a round number that never changes: nothing tells a waiter that its round is over
        cst = [f for f in total if all(v[0] == 'n' for v in inited.get(f, ()))]
        if len(cst) == 1:
            c.ob('last', 'starts a new round', False, 'no path of wait changes the round number, so waiters never learn that their round is over', fn.where())
            return
    T = one(total, 'party count of Barrier (integral state that wait leaves alone)')
    # the remaining count is the written field compared against on arrival: it is the one re-armed to the total
    rem = [f for f in written if any(v == arg for v in inited.get(f, ()))]
    gen = [f for f in written if f not in rem]
    if len(written) != 2:
        raise Broken('Barrier::wait writes %s, expected the remaining count and the round' % written)
    if len(rem) != 1:
        # the initial remaining count is wrong: decide roles from wait itself
        dec = set()
        for st, k, v in c.interp(P).analyse(fn):
            for f in written:
                if I.load(st, fld(f)) == ('init', fld(T)):
                    dec.add(f)
        rem = list(dec)
        gen = [f for f in written if f not in rem]
    R, G = fld(one(rem, 'remaining count of Barrier')), fld(one(gen, 'round number of Barrier'))
    TT = fld(T)
    for nm, want in ((T, 'party count'), (rem[0], 'remaining count')):
        c.ob('construct', want, inited.get(nm) == {arg}, 'the %s starts at %s instead of the requested count' % (want, [show(x) for x in inited.get(nm, ())]), fn.where())

    I = c.interp(P)
    t0, r0, g0, cb0 = [('init', l) for l in (TT, R, G, CB)]
    M = (1 << 64) - 1
    I.bounds[t0] = (1, M)
    I.bounds[r0] = (1, M)
    I.bounds[g0] = (0, M)
    I.snap = lambda I, st: (I.load(st, R), I.load(st, G), I.load(st, TT))
    acc = Access(I, ints + [cb], MX)
    acc.fn = fn

    def at(I, st, x):
        if x.name == 'cv.sleep' or (x.name == 'cv.wait' and len(x.args) == 1):
            c.ob('early', 'sleeps only while the round is open', x.recv == CV and MX in [m for m, _ in x.locks] and I.entails(st, cmp_term('==', x.snap[1], g0)),
                 'an early arrival can sleep although its round is over, or on something else', where(x))
    I.on_event = at
    outs = I.analyse(fn)
    for (q, f, how), w in acc.bad.items():
        c.ob('lock', '%s %s' % (f, how), False, 'barrier state is %s in wait without holding the mutex' % how, w)
    c.ob('lock', 'all accesses', not acc.bad and acc.count > 0)
    last = other = 0
    for st, k, v in outs:
        if k != 'v':
            c.ob('wait', 'returns normally', False, 'wait ends by %s when %s' % (k, facts(st)), fn.where())
            continue
        c.ob('wait', 'unlocked on return', not st.ghost.get('locks'), 'mutex still held on return', fn.where())
        slept = [e for e in st.trace if e.name == 'cv.sleep' or (e.name == 'cv.wait' and len(e.args) == 1)]
        isl = I.decide(st, cmp_term('==', r0, N1))
        if isl is None:
            c.ob('wait', 'distinguishes the last arrival', False, 'a path does not depend on whether the arrival is the last one (%s)' % facts(st), fn.where())
            continue
        rel_ = [e for e in st.trace if e.name == 'unlock' or e in slept]
        e0 = rel_[0] if rel_ else None
        r1, g1, t1 = e0.snap if e0 is not None else (I.load(st, R), I.load(st, G), I.load(st, TT))
        if isl:
            last += 1
            c.ob('last', 'does not sleep', not slept, 'the last arrival can block', fn.where())
            c.ob('last', 're-arms the count', I.entails(st, cmp_term('==', r1, t0)), 'the last arrival leaves the remaining count at %s when it lets go of the mutex' % show(r1), fn.where())
            c.ob('last', 'starts a new round', I.entails(st, cmp_term('!=', r1 if False else g1, g0)), 'the last arrival does not start a new round before letting go of the mutex', fn.where())
            note = [e for e in st.trace if e.name.endswith('::notify_all') and e.recv == CV]
            c.ob('last', 'wakes every waiter', bool(note) and all(not I.entails(st, cmp_term('==', e.snap[1], g0)) for e in note[-1:]), 'the last arrival does not wake all waiters (of the finished round)', fn.where())
            calls = [e for e in st.trace if e.name == 'callback' and e.args and e.args[0] == cb0]
            has = I.decide(st, cmp_term('!=', cb0, N0))
            if has is not False:
                c.ob('last', 'runs the completion exactly once', has is True and len(calls) == 1, 'completion callback runs %d times on the last arrival (%s)' % (len(calls), facts(st)), fn.where())
                for e in calls:
                    c.ob('last', 'completion before release', any(m == MX for m, _ in e.locks) and st.trace.index(e) < (st.trace.index(e0) if e0 is not None else 1 << 30),
                         'waiters can proceed before the completion callback has run', where(e))
            else:
                c.ob('last', 'no completion set', not calls, 'an empty callback is invoked', fn.where())
        else:
            other += 1
            c.ob('early', 'counts once', I.entails(st, cmp_term('==', r1, vadd(r0, N1, -1))), 'an arrival changes the remaining count from r to %s' % show(r1), fn.where())
            c.ob('early', 'keeps the round', I.entails(st, cmp_term('==', g1, g0)), 'an early arrival changes the round', fn.where())
            c.ob('early', 'no completion', not any(e.name == 'callback' for e in st.trace), 'an early arrival runs the completion', fn.where())
            c.ob('early', 'sleeps', bool(slept), 'an arrival that is not the last returns without waiting', fn.where())
            c.ob('early', 'returns only in a later round', I.entails(st, cmp_term('!=', I.load(st, G), g0)), 'an early arrival can return while its round is still open (%s)' % facts(st), fn.where())
    c.ob('wait', 'both roles exist', last > 0 and other > 0, 'no path for the %s arrival' % ('last' if not last else 'early'), fn.where())


main('C11', RULE, body, ['the completion callback returns normally', 'remaining count is between 1 and the party count on entry (established by construction and preserved by every path)'])
