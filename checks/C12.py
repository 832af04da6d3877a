import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc

RULE = ('Abstract interpretation of every operation of the background worker and the pool, the event library, clock and thread being models. The queues hold 0 to 2 tasks, timers and purges, and at every moment at which the worker does not hold its lock '
        'another thread may add a task, add a timer and purge it. Every task waiting when the worker is woken runs once, in order, without the lock; none is lost or kept for a second run; a timer is armed with its delay, and one that was purged is disarmed or its purge still waits; '
        'a one-shot timer disarms itself after its one run and nothing of it is used after it is freed; queues and the id counter are only accessed under the lock; '
        'a wake-up follows every addition; each future belongs to a promise fulfilled once when the task returns or throws; stopping sets the flag before the wake-up, waiting joins the thread once, destruction joins it before it frees timers, event, base and descriptor, each once and in that order; '
        'the pool hands each task to one existing worker and a purge to the worker that made the id.')
NOTE = 'One adversary step (a task, a timer and its purge) at each unlocked moment; libevent and NamedThread are taken to work as documented; start must have succeeded before tasks are added, as documented.'
Q = 'nebula::thread::GenericWorker'
PQ = 'nebula::thread::GenericThreadPool'
SELF = (('self',),)
FN = 'std::function'


def body(c):
    P = c.load(['thread/GenericWorker.cpp', 'thread/GenericThreadPool.cpp'], witness=['worker.cpp'])
    fs = fields(P, Q)

    def field(pred, what):
        return SELF + (('.', one([f['id'] for f in fs if f['t'] is not None and pred(f['t'])], what)),)

    def base(t):
        return strip_targs(t.base) if t.k == 'rec' else ''

    def arg0(t):
        return t.targs[0] if t.k == 'rec' and t.targs and hasattr(t.targs[0], 'k') else None
    TASKS = field(lambda t: base(t) in ('std::vector', 'std::deque') and base(arg0(t)) == FN, 'queue of tasks')
    TIMERS = field(lambda t: base(t) in ('std::vector', 'std::deque') and base(arg0(t)) in ('std::unique_ptr', 'std::shared_ptr'), 'queue of timers')
    PURGES = field(lambda t: base(t) in ('std::vector', 'std::deque') and arg0(t).k == 'int', 'queue of purges')
    ACTIVE = field(lambda t: base(t) in ('std::unordered_map', 'std::map'), 'armed timers')
    LOCK = field(lambda t: base(t) in MUTEX_T, 'lock')
    STOP = field(lambda t: base(t) == 'std::atomic' and t.targs[0].k == 'bool', 'stop flag')
    BASE = field(lambda t: t.k == 'ptr' and 'event_base' in repr(t.p), 'event base')
    EV = field(lambda t: t.k == 'ptr' and 'event' in repr(t.p) and 'event_base' not in repr(t.p), 'event')
    FD = field(lambda t: t.k == 'int' and t.size == 4, 'descriptor')
    NEXT = field(lambda t: t.k == 'int' and t.size == 8 or base(t) == 'std::atomic' and t.targs[0].k == 'int', 'id counter')
    THREAD = field(lambda t: base(t) in ('std::unique_ptr', 'std::shared_ptr'), 'thread')
    TQ = one([q for q in P.recs if q.startswith(Q + '::') and P.recs[q].known and any(base(f['t']) == FN for f in P.recs[q].fields)], 'class of a timer')
    tf = fields(P, TQ)
    CB = one([f['id'] for f in tf if base(f['t']) == FN], 'callback of a timer')
    TEV = one([f['id'] for f in tf if f['t'].k == 'ptr' and 'event' in repr(f['t'].p) and 'GenericWorker' not in repr(f['t'].p)], 'event of a timer')
    OWN = one([f['id'] for f in tf if f['t'].k == 'ptr' and f['t'].p.k == 'rec' and f['t'].p.base == Q], 'owner of a timer')
    BASEP, EVP, FDV, THP = ('ptr', (('g', 'base'),)), ('ptr', (('g', 'notifier'),)), num(7), ('ptr', (('h', 0, 'thread'),))
    GUARDED = {TASKS: 'tasks', TIMERS: 'timers', PURGES: 'purges', NEXT: 'id counter'}

    def whole(v):
        return v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v

    def handler(v):
        v = whole(v)
        while v[0] == 'app' and '::operator' in v[1] and len(v) == 3:
            v = whole(v[2])
        return v

    def mk(schedule=None, throws=False, unroll=12):
        I = c.interp(P, unroll=unroll)
        H = I.hooks
        C = Conc(I)
        I.static_init = lambda fr, v: False

        def val(st, a):
            return whole(I.argval(st, a))
        I.val = val

        # the other thread
        def point(st):
            k = st.ghost.get('point', 0)
            st.ghost['point'] = k + 1
            I.points = max(I.points, k + 1)
            if schedule is not None and k == schedule and not any(mx == LOCK for mx, _ in st.ghost.get('locks', ())):
                rd, wr, I.on_read, I.on_write = I.on_read, I.on_write, None, None
                for q, v in ((TASKS, ('sym', 'late task', 0)), (TIMERS, ('ptr', (('h', 0, 'late'),))), (PURGES, num(77))):
                    g = C.get(st, q)
                    if g is None:
                        raise Broken('the queue %s is not understood any more' % q[-1][1])
                    I.store(st, q + (('[', num(g[1])),), v)
                    C.put(st, q, 'vec', g[1] + 1)
                st.ghost['late'] = True
                I.on_read, I.on_write = rd, wr
        I.points = 0
        acq, rel_ = I.acquire, I.release

        def acquire(st, fr, n, mx, shared=False):
            if mx == LOCK:
                point(st)
                if any(m == LOCK for m, _ in st.ghost.get('locks', ())):
                    I.event(st, fr, n, 'deadlock', None, (), None)
            acq(st, fr, n, mx, shared)

        def release(st, fr, n, mx):
            rel_(st, fr, n, mx)
            if mx == LOCK:
                point(st)
        I.acquire, I.release = acquire, release

        def locked(st):
            return any(mx == LOCK for mx, _ in st.ghost.get('locks', ()))

        # accesses of what the lock guards; a freed timer
        I.bad = {}

        def acc(write):
            def f(I_, st, loc, *rest):
                for q, nm in GUARDED.items():
                    if loc[:len(q)] == q and not locked(st) and not st.ghost.get('setup'):
                        I.bad.setdefault(nm, write)
                if loc and loc[0][0] == 'h' and loc[0] in st.ghost.get('freed', ()) and not st.ghost.get('setup'):
                    I.bad.setdefault('freed timer', write)
            return f
        I.on_read, I.on_write = acc(False), acc(True)
        for q in ('std::vector', 'std::deque', 'std::unordered_map', 'std::map'):
            for m in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'at', 'operator[]', 'clear', 'emplace', 'insert', 'erase', 'push_back', 'emplace_back', 'front', 'back', 'swap', 'operator=', 'reserve', 'resize'):
                h = H.get(q + '::' + m)

                def wrap(I_, st, fr, n, loc, av, h=h, m=m):
                    acc(m not in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'at', 'front', 'back'))(I_, st, loc)
                    for a in av[:1]:
                        if a[0] == 'ref' and m in ('swap', 'operator='):
                            acc(True)(I_, st, a[1])
                    if loc == ACTIVE and m in ('erase', 'clear'):
                        drop(I_, st, fr, n, av if m == 'erase' else None)
                    if loc == ACTIVE and m == 'erase' and av and val(st, av[0])[0] == 'cit':
                        g, it = C.get(st, ACTIVE), val(st, av[0])
                        if it[2] >= len(g[1]):
                            raise Broken('the end of the armed timers is erased')
                        k = g[1][it[2]]
                        I.drop(st, ACTIVE + (('@', k),))
                        C.put(st, ACTIVE, 'map', tuple(x for x in g[1] if x != k))
                        return I.ok(st, ('cit', ACTIVE, it[2]))
                    return h(I_, st, fr, n, loc, av) if h is not None else None
                H[q + '::' + m] = wrap

        def drop(I_, st, fr, n, av):
            """timers that are freed with their entry"""
            g = C.get(st, ACTIVE)
            ks = g[1]
            if av is not None:
                v = val(st, av[0])
                ks = [g[1][v[2]]] if v[0] == 'cit' and v[2] < len(g[1]) else [k for k in g[1] if k == v]
            for k in ks:
                t = I.load(st, ACTIVE + (('@', k), ('.', 'second')))
                if t[0] == 'ptr':
                    I.event(st, fr, n, 'timer freed', t[1], (I.load(st, t[1] + (('.', TEV),)),), None)
                    st.ghost['freed'] = st.ghost.get('freed', ()) + (t[1][0],)

        # tasks
        def run_task(I_, st, fr, n, loc, av):
            return run_val(st, fr, n, I.load(st, loc) if loc is not None else VOID, loc)

        def run_val(st, fr, n, v, loc=None):
            v = whole(v)
            more = ()
            while v[0] == 'app' and v[1] in ('bound',) or v[0] == 'app' and v[1].startswith('make:std::function'):
                if v[1] == 'bound':
                    more = v[3:] + more
                v = whole(v[2])
            if v[0] == 'lam':
                return I.call_value(st, fr, n, v, ())
            I.event(st, fr, n, 'run', loc, (v, N1 if locked(st) else N0) + tuple(more), None)
            point(st)
            outs = I.ok(st, I.fresh('result', n.get('t')))
            if throws:
                bad = st.copy()
                I.event(bad, fr, n, 'threw', None, (), None)
                outs.append((bad, 'throw', ('exc', 'std::runtime_error')))
            return outs
        H[FN + '::operator()'] = run_task
        H['std::_Bind::operator()'] = run_task
        H['std::bind'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('app', 'bound') + tuple(val(st, a) for a in av))

        # promises
        def fulfil(I_, st, fr, n, loc, av):
            m = n['n']
            if m == 'setWith':
                outs = []
                for s, k, v in run_val(st, fr, n, I.argval(st, av[0])):
                    I.event(s, fr, n, 'fulfil', loc, (('str', 'setValue' if k == 'v' else 'setException'),), None)
                    outs += I.ok(s, VOID)
                return outs
            I.event(st, fr, n, 'fulfil', loc, (('str', m),), None)
            return I.ok(st, VOID)
        for m in ('setValue', 'setException', 'setWith', 'setTry'):
            H['folly::Promise::' + m] = fulfil
        for m in ('getSemiFuture', 'getFuture'):
            H['folly::Promise::' + m] = lambda I_, st, fr, n, loc, av: I.ok(st, ('app', 'future', I.addr(loc)))

        # events
        def lib(name, ret=None):
            def h(I_, st, fr, n, loc, av):
                a = tuple(val(st, x) for x in av)
                if name in ('event_add',) and len(a) > 1 and a[1][0] == 'ptr':
                    a += (I.load(st, a[1][1] + (('.', 'tv_sec'),)), I.load(st, a[1][1] + (('.', 'tv_usec'),)))
                if name == 'event_free' and a[0][0] == 'ptr':
                    if a[0] in st.ghost.get('evfreed', ()):
                        I.event(st, fr, n, 'freed twice', None, a, None)
                    st.ghost['evfreed'] = st.ghost.get('evfreed', ()) + (a[0],)
                r = ret(I, st, a) if ret is not None else N0
                if name == 'write' and a[1][0] == 'ptr':
                    rd, I.on_read = I.on_read, None
                    x = I.load(st, a[1][1])
                    a += (x, num(sum((C.get(st, q) or ('', 0))[1] for q in (TASKS, TIMERS, PURGES))))
                    I.on_read = rd
                I.event(st, fr, n, name, None, a, r)
                if name in ('event_new',):
                    point(st)
                return I.ok(st, r)
            return h

        def newev(I_, st, a):
            k = len([e for e in st.trace if e.name == 'event_new'])
            return ('ptr', (('g', 'event%d' % k),))
        for f, r in (('event_new', newev), ('event_add', None), ('event_del', None), ('event_free', lambda I_, st, a: VOID), ('event_base_free', lambda I_, st, a: VOID), ('event_base_loopexit', None), ('event_base_loopbreak', None),
                     ('event_base_dispatch', None), ('event_base_loop', None), ('write', lambda I_, st, a: a[2] if len(a) > 2 else N0), ('read', lambda I_, st, a: a[2] if len(a) > 2 else N0), ('close', None)):
            H[f] = lib(f, r)

        def may_fail(name, good):
            def h(I_, st, fr, n, loc, av):
                b = st.copy()
                I.event(b, fr, n, name, None, tuple(val(b, x) for x in av), N0)
                g = good(st)
                I.event(st, fr, n, name, None, tuple(val(st, x) for x in av), g)
                return I.ok(st, g) + I.ok(b, num(-1) if name == 'eventfd' else N0)
            return h
        H['event_base_new'] = may_fail('event_base_new', lambda st: BASEP)
        H['eventfd'] = may_fail('eventfd', lambda st: FDV)
        if not schedule and schedule != 0:
            H['event_new'] = may_fail('event_new', lambda st: newev(I, st, ())) if schedule is None else H['event_new']
        # the thread
        H['nebula::thread::NamedThread::join'] = H['std::thread::join'] = lambda I_, st, fr, n, loc, av: (I.event(st, fr, n, 'join', loc, (N1 if locked(st) else N0,), None), I.ok(st, VOID))[1]
        H['ctor:nebula::thread::NamedThread'] = None
        del H['ctor:nebula::thread::NamedThread']

        def mku(I_, st, fr, n, loc, av):
            t = n.get('t')
            at = t.targs[0] if t is not None and t.targs else None
            if at is None or base(at) != 'nebula::thread::NamedThread':
                return None
            I.counter += 1
            I.event(st, fr, n, 'thread', None, tuple(I.argval(st, a) for a in av), None)
            return I.ok(st, ('ptr', (('h', I.counter, 'thread'),)))
        H['std::make_unique'] = H['std::make_shared'] = mku
        return I, C

    CALL = {'k': 'Call', 'l': 0, 'a': [], 'n': 'operator()'}

    def setup(I, C, st, started=True, stopped=False, tasks=0, timers=(), purges=(), active=(), thread=True):
        st.ghost['setup'] = True
        I.store(st, STOP, num(int(stopped)))
        I.store(st, BASE, BASEP if started else N0)
        I.store(st, EV, EVP if started else N0)
        I.store(st, FD, FDV if started else num(-1))
        I.store(st, THREAD, THP if started and thread else N0)
        C.make(st, TASKS, 'vec', [('sym', 'task', i) for i in range(tasks)])
        C.make(st, TIMERS, 'vec', [('ptr', (('h', 0, 'timer%d' % k),)) for k, _ in timers])
        C.make(st, PURGES, 'vec', [num(k) for k in purges])
        C.make(st, ACTIVE, 'map', [(num(k), ('ptr', (('h', 0, 'timer%d' % k),))) for k, _ in active])
        for k, iv in list(timers) + list(active) + [(77, N1)]:
            l = (('h', 0, 'timer%d' % k if k != 77 else 'late'),)
            I.store(st, l + (('.', ID),), num(k))
            I.store(st, l + (('.', DELAY),), ('sym', 'delay', k))
            I.bounds[('sym', 'delay', k)] = (0, 1 << 40)
            I.store(st, l + (('.', INTERVAL),), iv)
            I.store(st, l + (('.', CB),), ('sym', 'callback', k))
            I.store(st, l + (('.', OWN),), ('ptr', SELF))
            I.store(st, l + (('.', TEV),), ('ptr', (('g', 'armed%d' % k),)) if (k, iv) in active else N0)
        st.ghost['setup'] = False
        st.ghost['evfreed'] = ()

    def report(rule, what, I, fn, s=None):
        names = {'tasks': 'the queue of tasks', 'timers': 'the queue of timers', 'purges': 'the queue of purges', 'id counter': 'the id counter', 'freed timer': 'a timer after it was freed'}
        for nm in sorted(I.bad):
            c.ob('lock' if nm != 'freed timer' else 'freed', '%s: %s' % (what, nm), False, '%s %s %s%s' % (what, 'writes' if I.bad[nm] else 'reads', names[nm], '' if nm == 'freed timer' else ' without the lock'), fn.where())
        c.ob('lock', what + ': accesses', True)

    # ------------------------------------------------------------ the fields of a timer
    ID = DELAY = INTERVAL = None
    adds = [f for f in P.methods_of[Q] if f.n == 'addTimerTask' and f.body is not None]
    if not adds:
        raise Broken('addTimerTask is not instantiated')
    fn = adds[0]
    I, C = mk()
    D, V = ('argv', fn.params[0]['n']), ('argv', fn.params[1]['n'])
    for s, k, v in I.analyse(fn, this=SELF, av=[D, V] + [('ref', (('arg', p['n']),)) for p in fn.params[2:]], setup=lambda I, st, fr: (I.store(st, STOP, N0), C.make(st, TIMERS, 'vec', []), I.store(st, EV, EVP), I.store(st, FD, FDV))):
        g = C.get(s, TIMERS)
        p = I.load(s, TIMERS + (('[', N0),)) if k == 'v' and g and g[1] == 1 else None
        if p is None or p[0] != 'ptr':
            continue
        for f in tf:
            if f['t'].k == 'int':
                x = I.load(s, p[1] + (('.', f['id']),))
                if x == D:
                    DELAY = f['id']
                elif x == V:
                    INTERVAL = f['id']
                elif I.entails(s, cmp_term('==', x, v)):
                    ID = f['id']
    c.ob('timer', 'fields', None not in (ID, DELAY, INTERVAL), 'a timer made for a delay and an interval does not keep %s' % ('the id returned' if ID is None else 'its delay' if DELAY is None else 'its interval'), fn.where())
    if None in (ID, DELAY, INTERVAL):
        return

    # ------------------------------------------------------------ start
    fn = c.fn(P, Q + '::start', 1)
    WAKE = []
    for was in (False, True):
        I, C = mk()
        for s, k, v in I.analyse(fn, this=SELF, av=[('argv', fn.params[0]['n'])], setup=lambda I, st, fr: setup(I, C, st, started=was, stopped=not was)):
            c.ob('start', 'returns', k == 'v', 'start ends by %s' % k, fn.where())
            if k != 'v':
                continue
            for s2, b in truth(I, s, v):
                ev = [e.name for e in s2.trace]
                th = [e for e in s2.trace if e.name == 'thread']
                if was:
                    c.ob('start', 'of a started worker', not b and not th and 'event_base_free' not in ev and 'event_free' not in ev and I.load(s2, STOP) == N0 and I.load(s2, THREAD) == THP, 'start of a started worker %s' % ('succeeds' if b else 'changes it'), fn.where())
                    continue
                c.ob('start', 'flag', I.load(s2, STOP) == num(int(not b)), 'start %s and leaves the worker marked as %s' % ('succeeds' if b else 'fails', 'stopped' if b else 'started'), fn.where())
                c.ob('start', 'thread', len(th) == int(b), 'start %s and makes %d threads' % ('succeeds' if b else 'fails', len(th)), fn.where())
                if not b:
                    c.ob('start', 'failure kept', I.load(s2, THREAD) == N0, 'start fails and keeps a thread', fn.where())
                    continue
                news = [e for e in s2.trace if e.name == 'event_new' and e.ret != N0]
                ok = len(news) == 1 and news[0].args[0] == BASEP and news[0].args[1] == FDV and I.load(s2, EV) == news[0].ret and I.load(s2, BASE) == BASEP and I.load(s2, FD) == FDV
                c.ob('start', 'created', ok, 'start succeeds without an event base, a descriptor and an event of its own', fn.where())
                if not ok:
                    continue
                fl = news[0].args[2]
                c.ob('start', 'event', fl[0] == 'n' and fl[1] & 0x12 == 0x12 and news[0].args[4] == ('ptr', SELF), 'the event of a worker is not a persistent read event for that worker', fn.where())
                addd = [i for i, e in enumerate(s2.trace) if e.name == 'event_add' and e.args[0] == news[0].ret]
                c.ob('start', 'event added before the thread', len(addd) == 1 and th and addd[0] < s2.trace.index(th[0]), 'the thread is started before its event is added', fn.where())
                c.ob('start', 'thread kept', I.load(s2, THREAD)[0] == 'ptr', 'start succeeds and does not keep its thread', fn.where())
                WAKE.append(handler(news[0].args[3]))
                # what the thread does
                f = th[0].args[1] if len(th[0].args) > 1 else VOID
                tgt = [x for x in P.methods_of[Q] if f[0] == 'fn' and x.key == f[1]] or [x for x in P.methods_of[Q] if show(f).endswith('::' + x.n)]
                if f[0] == 'lam':
                    outs = None
                    c.notes.append('the thread runs a lambda; its loop was not looked at')
                elif not tgt:
                    raise Broken('the function of the thread is not understood: %s' % show(f)[:60])
                else:
                    I2, C2 = mk()
                    for s3, k3, v3 in I2.analyse(tgt[0], this=SELF, setup=lambda I, st, fr: setup(I2, C2, st)):
                        d = [e for e in s3.trace if e.name in ('event_base_dispatch', 'event_base_loop')]
                        c.ob('start', 'loop', k3 == 'v' and len(d) == 1 and d[0].args[0] == BASEP, 'the thread does not run the event loop of the worker once', tgt[0].where())
        report('start', 'start', I, fn)
    c.ob('start', 'wake-up', bool(WAKE) and all(w == WAKE[0] for w in WAKE), 'start never succeeds', fn.where())
    if not WAKE:
        return
    wake = WAKE[0]
    FR = Frame(fn, 0, -1)

    # ------------------------------------------------------------ adding work
    def woke(s):
        """the last wake-up comes after the addition, outside the lock, and is one the event sees"""
        w = [e for e in s.trace if e.name == 'write']
        return bool(w) and w[-1].args[0] == FDV and w[-1].args[2] == num(8) and w[-1].args[3][0] == 'n' and w[-1].args[3][1] not in (0, (1 << 64) - 1) and w[-1].args[4] == N1
    byval = lambda p: p['t'].k in ('int', 'bool')

    def avs(f):
        return [('argv', p['n']) if byval(p) else ('ref', (('arg', p['n']),)) for p in f.params]
    for nm in ('addTask', 'addDelayTask', 'addRepeatTask', 'addTimerTask'):
        fs_ = [f for f in P.methods_of[Q] if f.n == nm and f.body is not None]
        c.ob('add', nm + ' instances', bool(fs_), '%s is not instantiated' % nm, '')
        for fn in fs_:
            times = [('argv', p['n']) for p in fn.params if byval(p)]
            what = nm + (' of a task with a result' if fn.ret is not None and 'Unit' not in repr(fn.ret) and nm in ('addTask', 'addDelayTask') else '')
            I, C = mk(-1)
            work = []
            for s, k, v in I.analyse(fn, this=SELF, av=avs(fn), setup=lambda I, st, fr: (setup(I, C, st), work.extend(I.val(st, ('ref', (('arg', p['n']),))) for p in fn.params if not byval(p)))):
                c.ob('add', what + ' returns', k == 'v', '%s ends by %s' % (what, k), fn.where())
                if k != 'v':
                    continue
                q, o = (TASKS, TIMERS) if nm == 'addTask' else (TIMERS, TASKS)
                els = [I.load(s, e) for e in C.elems(s, q)]
                c.ob('add', what + ' adds', len(els) == 1 and not C.elems(s, o), '%s leaves %d entries for one task' % (what, len(els) + len(C.elems(s, o))), fn.where())
                c.ob('add', what + ' wakes', woke(s) and not s.ghost.get('locks'), '%s does not wake the worker after it added' % what, fn.where())
                c.ob('add', what + ' runs nothing', not [e for e in s.trace if e.name in ('run', 'fulfil')], '%s runs the task itself' % what, fn.where())
                if len(els) != 1:
                    continue
                job = els[0]
                if q is TIMERS:
                    l = job[1] if job[0] == 'ptr' else None
                    if l is None:
                        raise Broken('the timer made by %s is not understood' % nm)
                    want = (times[0], N0 if nm == 'addDelayTask' else times[-1])
                    got = I.load(s, l + (('.', DELAY),)), I.load(s, l + (('.', INTERVAL),))
                    c.ob('add', what + ' delay', got == want, '%s makes a timer with delay %s and interval %s' % (what, show(got[0])[:40], show(got[1])[:40]), fn.where())
                    c.ob('add', what + ' owner', I.load(s, l + (('.', OWN),)) == ('ptr', SELF) and I.load(s, l + (('.', TEV),)) == N0, '%s makes a timer without its worker' % what, fn.where())
                    if nm in ('addRepeatTask', 'addTimerTask'):
                        c.ob('add', what + ' id', I.entails(s, cmp_term('==', v, I.load(s, l + (('.', ID),)))), '%s returns another id than its timer has' % what, fn.where())
                    job = I.load(s, l + (('.', CB),))
                fut = None
                if nm in ('addTask', 'addDelayTask'):
                    fut = whole(v)
                    if fut[0] != 'app' or fut[1] != 'future':
                        c.ob('add', what + ' future', False, '%s returns a future of no promise of its own' % what, fn.where())
                        continue
                # run what was stored
                if I.bad:
                    report('add', what, I, fn)
                I2, C2 = mk(-1, throws=True)
                s.trace = ()
                s.ghost['setup'] = True
                sl = (('g', 'stored'),)
                I2.store(s, sl, job)
                outs = I2.hooks[FN + '::operator()'](I2, s, Frame(fn, 0, -1), dict({'k': 'Call', 'l': 0, 'a': []}, n='operator()'), sl, ())
                c.ob('add', what + ' can run', len(outs) >= 2, 'the task of %s cannot be run' % what, fn.where())
                for s2, k2, v2 in outs:
                    runs = [e for e in s2.trace if e.name == 'run']
                    threw = any(e.name == 'threw' for e in s2.trace)
                    got = [whole(x) for x in (runs[0].args[:1] + runs[0].args[2:])] if runs else []
                    c.ob('add', what + ' task', len(runs) == 1 and got == work, 'what %s stores runs %s' % (what, 'the task %d times' % len(runs) if len(runs) != 1 else 'another task or passes it other arguments'), fn.where())
                    if fut is None:
                        continue
                    ful = [(i, e) for i, e in enumerate(s2.trace) if e.name == 'fulfil']
                    ok = k2 == 'v' and len(ful) == 1 and ('ptr', ful[0][1].recv) == fut[2] and ful[0][1].args[0][1] in (('setException', 'setTry') if threw else ('setValue', 'setTry')) and runs and s2.trace.index(runs[0]) < ful[0][0]
                    c.ob('add', what + ' future', ok, 'the future of %s is %s when its task %s' % (what, 'given a result %d times' % len(ful) if len(ful) != 1 else 'not given the result of the task', 'throws' if threw else 'returns'), fn.where())
            report('add', what, I, fn)
    # ids
    fn = adds[0]
    for first, taken in [(x, y) for x in (0, 5, (1 << 48) - 1, 1 << 48, (1 << 64) - 1) for y in (False, True)]:
        I, C = mk(-1)
        I.exact_casts = True
        st0, ids = None, []
        for turn in range(2):
            outs = I.analyse(fn, this=SELF, av=avs(fn), setup=lambda I, st, fr: (setup(I, C, st), I.store(st, NEXT, num(first))) if turn == 0 else None, **({'state': st0} if turn else {}))
            outs = [(s, v) for s, k, v in outs if k == 'v']
            if len(outs) != 1:
                raise Broken('addTimerTask has %d ways to end' % len(outs))
            st0 = outs[0][0]
            ids.append(outs[0][1])
            if taken:
                st0.ghost['setup'] = True
                C.make(st0, TIMERS, 'vec', [])
        c.ob('add', 'ids', all(x[0] == 'n' and 0 <= x[1] < 1 << 48 for x in ids) and ids[0] != ids[1], 'two timers in a row get the ids %s and %s' % tuple(show(x) for x in ids), fn.where())
    fn = c.fn(P, Q + '::purgeTimerTask', 1)
    I, C = mk(-1)
    for s, k, v in I.analyse(fn, this=SELF, av=[num(5)], setup=lambda I, st, fr: setup(I, C, st, active=((5, num(50)),))):
        els = [I.load(s, e) for e in C.elems(s, PURGES)]
        c.ob('add', 'purge', k == 'v' and els == [num(5)] and woke(s), 'purgeTimerTask of a running worker %s' % ('keeps %s for the worker' % [show(x) for x in els] if els != [num(5)] else 'does not wake it'), fn.where())
        c.ob('add', 'purge leaves the armed timers to the worker', [x[1] for x in C.get(s, ACTIVE)[1]] == [5] and not [e for e in s.trace if e.name.startswith('event_')], 'purgeTimerTask touches the armed timers, which belong to the thread of the worker', fn.where())
    report('add', 'purgeTimerTask', I, fn)
    c.need('add', 60)

    # ------------------------------------------------------------ the pool
    pf = fields(P, PQ)
    POOL = SELF + (('.', one([f['id'] for f in pf if base(f['t']) in ('std::vector', 'std::deque')], 'workers of the pool')),)
    SIZES = [SELF + (('.', f['id']),) for f in pf if f['t'].k == 'int']
    TURN = [SELF + (('.', f['id']),) for f in pf if base(f['t']) == 'std::atomic']
    W = [('ptr', (('h', 0, 'worker%d' % i),)) for i in range(6)]

    def mkp(results=None, ids=None):
        I = c.interp(P, unroll=12)
        C = Conc(I)
        I.static_init = lambda fr, v: False
        I.exact_casts = True

        def worker(m):
            def h(I_, st, fr, n, loc, av):
                a = tuple(I.val(st, x) for x in av)
                if m in ('start', 'stop', 'wait'):
                    b = st.copy()
                    I.event(b, fr, n, m, loc, a, N0)
                    I.event(st, fr, n, m, loc, a, N1)
                    return I.ok(st, N1) + I.ok(b, N0)
                r = num(ids) if m in ('addRepeatTask', 'addTimerTask') and ids is not None else ('app', 'of', I.addr(loc), ('str', m)) if m != 'purgeTimerTask' else VOID
                I.event(st, fr, n, m, loc, a, r)
                return I.ok(st, r)
            return h
        I.val = lambda st, a: whole(I.argval(st, a))
        for m in ('start', 'stop', 'wait', 'addTask', 'addDelayTask', 'addRepeatTask', 'addTimerTask', 'purgeTimerTask'):
            I.hooks[Q + '::' + m] = worker(m)

        def made(I_, st, fr, n, loc, av):
            if n.get('t') is None or not n['t'].targs or base(n['t'].targs[0]) != Q:
                return None
            I.counter += 1
            return I.ok(st, ('ptr', (('h', I.counter, 'worker'),)))
        I.hooks['std::make_unique'] = I.hooks['std::make_shared'] = made
        return I, C

    def psetup(I, C, st, n, turn=0):
        C.make(st, POOL, 'vec', W[:n])
        for q in SIZES:
            I.store(st, q, num(n))
        for q in TURN:
            I.store(st, q, num(turn))
    purge = c.fn(P, PQ + '::purgeTimerTask', 1)
    for nm in ('addTask', 'addDelayTask', 'addRepeatTask'):
        fs_ = [f for f in P.methods_of[PQ] if f.n == nm and f.body is not None]
        c.ob('pool', nm + ' instances', bool(fs_), '%s of the pool is not instantiated' % nm, '')
        for fn in fs_:
            for n in (1, 3, 6):
                for turn in (0, 1, 5, (1 << 31) + 1, (1 << 64) - 1):
                    for id_ in (0, 1, (1 << 48) - 1) if nm == 'addRepeatTask' else (None,):
                        I, C = mkp(ids=id_)
                        want = []
                        for s, k, v in I.analyse(fn, this=SELF, av=avs(fn), setup=lambda I, st, fr: (psetup(I, C, st, n, turn), want.extend(('argv', p['n']) if byval(p) else I.val(st, ('ref', (('arg', p['n']),))) for p in fn.params))):
                            calls = [e for e in s.trace if e.name in ('addTask', 'addDelayTask', 'addRepeatTask', 'addTimerTask')]
                            who = ('ptr', calls[0].recv) if len(calls) == 1 else None
                            c.ob('pool', nm + ' hands on', k == 'v' and who in W[:n], '%s of a pool of %d workers whose counter is %d gives the task to %s' % (nm, n, turn, '%d workers' % len(calls) if len(calls) != 1 else 'no worker of its own'), fn.where())
                            if k != 'v' or who not in W[:n]:
                                continue
                            e = calls[0]
                            c.ob('pool', nm + ' passes on', e.name == nm and list(e.args) == want, '%s of the pool passes other arguments on' % nm, fn.where())
                            if nm != 'addRepeatTask':
                                c.ob('pool', nm + ' returns', whole(v) == e.ret, '%s of the pool returns another future than its worker' % nm, fn.where())
                                continue
                            for s2, k2, v2 in I.analyse(purge, this=SELF, av=[v], state=s):
                                ps = [x for x in s2.trace if x.name == 'purgeTimerTask']
                                c.ob('pool', 'purge of an id', k2 == 'v' and len(ps) == 1 and ('ptr', ps[0].recv) == who and ps[0].args == (num(id_),), 'timer %d of worker %d of %d gets the id %s, whose purge goes to %s' % (id_, W.index(who), n, show(v), 'no worker' if len(ps) != 1 else 'another worker' if ('ptr', ps[0].recv) != who else 'timer ' + show(ps[0].args[0])), purge.where())
    fn = c.fn(P, PQ + '::start', 2)
    for was in (0, 2):
        I, C = mkp()
        for s, k, v in I.analyse(fn, this=SELF, av=[num(3), ('ref', (('arg', 'name'),))], setup=lambda I, st, fr: psetup(I, C, st, was)):
            for s2, b in truth(I, s, v) if k == 'v' else [(s, None)]:
                sts = [e for e in s2.trace if e.name == 'start']
                good = len([e for e in sts if e.ret == N1])
                if was:
                    c.ob('pool', 'start of a started pool', b is False and not sts and [I.load(s2, e) for e in C.elems(s2, POOL)] == W[:was], 'start of a started pool %s' % ('succeeds' if b else 'changes it'), fn.where())
                    continue
                c.ob('pool', 'start', b == (good == 3 and len(sts) == 3), 'start of 3 workers %s with %d started' % ('ends by ' + k if b is None else 'succeeds' if b else 'fails', good), fn.where())
                own = [I.load(s2, e) for e in C.elems(s2, POOL)]
                c.ob('pool', 'start keeps its workers', all(('ptr', e.recv) in own for e in sts) and len({e.recv for e in sts}) == len(sts) and (not b or len(own) == 3), 'start %s and keeps %d workers' % ('succeeds' if b else 'fails', len(own)), fn.where())
                if b and SIZES:
                    c.ob('pool', 'start sets its size', all(I.load(s2, q) == num(3) for q in SIZES), 'start of 3 workers notes %s' % show(I.load(s2, SIZES[0])), fn.where())
    for nm in ('stop', 'wait'):
        fn = c.fn(P, PQ + '::' + nm, 0)
        I, C = mkp()
        for s, k, v in I.analyse(fn, this=SELF, setup=lambda I, st, fr: psetup(I, C, st, 3)):
            for s2, b in truth(I, s, v) if k == 'v' else [(s, None)]:
                ev = [e for e in s2.trace if e.name == nm]
                c.ob('pool', nm, sorted(repr(('ptr', e.recv)) for e in ev) == sorted(repr(w) for w in W[:3]) and b == all(e.ret == N1 for e in ev), '%s of a pool of 3 workers %s' % (nm, 'ends by ' + k if b is None else 'is passed on to %d and returns %s' % (len(ev), b)), fn.where())
                if nm == 'wait':
                    again = c.fn(P, PQ + '::start', 2)
                    s2.trace = ()
                    outs = I.analyse(again, this=SELF, av=[N1, ('ref', (('arg', 'name'),))], state=s2)
                    c.ob('pool', 'start after wait', any(k3 == 'v' and any(b3 for _, b3 in truth(I, s3, v3)) for s3, k3, v3 in outs) and all(len(C.elems(s3, POOL)) == 1 for s3, k3, v3 in outs), 'after wait the pool keeps its workers or cannot be started', fn.where())
    c.need('pool', 60)

    # ------------------------------------------------------------ being woken
    fn = c.fn(P, Q + '::start', 1)
    def woken(schedule, stopped, tasks, timers, purges, active):
        I, C = mk(schedule)
        st = State()
        setup(I, C, st, True, stopped, tasks, timers, purges, active)
        return I, C, I.call_value(st, FR, CALL, wake, (FDV, num(2), ('ptr', SELF)))
    T1, T2 = (1, N0), (2, num(50))
    A5 = (5, num(50))
    for cfg in ((False, 0, (), (), ()), (False, 2, (), (), ()), (False, 1, (T1, T2), (), (A5,)), (False, 0, (T1,), (5,), (A5,)), (False, 1, (T2,), (2, 99), (A5,)), (True, 2, (T1,), (5,), (A5,)), (True, 0, (), (), ())):
        stopped, tasks, timers, purges, active = cfg
        what = 'a wake-up with %d tasks, %d timers, %d purges%s' % (tasks, len(timers), len(purges), ', stopped' if stopped else '')
        I, C, outs = woken(-1, *cfg)
        n = I.points
        for sch in range(-1, n):
            I, C, outs = woken(sch, *cfg)
            late = 'another thread adds a task, adds a timer and purges it'
            w2 = what + (' while ' + late if sch >= 0 else '')
            for s, k, v in outs:
                c.ob('wake', what + ' returns', k == 'v', '%s ends by %s' % (w2, k), fn.where())
                if k != 'v':
                    continue
                runs = [e for e in s.trace if e.name == 'run']
                c.ob('wake', what + ': outside the lock', all(e.args[1] == N0 for e in runs), '%s runs a task with the lock held' % w2, fn.where())
                c.ob('wake', what + ': no deadlock', not any(e.name == 'deadlock' for e in s.trace) and not s.ghost.get('locks'), '%s takes the lock twice or keeps it' % w2, fn.where())
                order = [e.args[0] for e in runs if e.args[0][0] == 'sym' and e.args[0][1] == 'task']
                left = [whole(I.load(s, e)) for e in C.elems(s, TASKS)]
                c.ob('wake', what + ': tasks', order == [('sym', 'task', i) for i in range(tasks)] and not any(x[1] == 'task' for x in left), '%s runs the tasks %s and keeps %s' % (w2, [x[2] for x in order], [show(x) for x in left]), fn.where())
                was = bool(s.ghost.get('late'))
                lr = len([e for e in runs if e.args[0] == ('sym', 'late task', 0)])
                c.ob('wake', what + ': late task', lr + left.count(('sym', 'late task', 0)) == int(was), '%s runs the new task %d times and keeps it %d times' % (w2, lr, left.count(('sym', 'late task', 0))), fn.where())
                ex = [e for e in s.trace if e.name in ('event_base_loopexit', 'event_base_loopbreak')]
                c.ob('wake', what + ': leaves the loop', (len(ex) > 0) == stopped and all(e.args[0] == BASEP and e.name == 'event_base_loopexit' for e in ex), '%s %s the event loop' % (w2, 'leaves' if ex else 'does not leave'), fn.where())
                # timers
                waiting = [I.load(s, e) for e in C.elems(s, TIMERS)]
                pend = [I.load(s, e) for e in C.elems(s, PURGES)]
                armed = {k[1]: I.load(s, ACTIVE + (('@', k), ('.', 'second'))) for k in C.get(s, ACTIVE)[1]}
                freed = s.ghost.get('freed', ())
                for k_, iv in tuple(timers) + tuple(active):
                    l = (('h', 0, 'timer%d' % k_),)
                    mine = ('ptr', l)
                    new = (k_, iv) in timers
                    if k_ in purges:
                        c.ob('wake', what + ': purged timer', k_ not in armed and mine not in waiting, '%s leaves a purged timer armed' % w2, fn.where())
                        continue
                    c.ob('wake', what + ': timer kept', armed.get(k_) == mine and mine not in waiting and l[0] not in freed, '%s loses timer %d or keeps it waiting' % (w2, k_), fn.where())
                    if new and armed.get(k_) == mine:
                        e = I.load(s, l + (('.', TEV),))
                        nw = [x for x in s.trace if x.name == 'event_new' and x.ret == e]
                        ok = len(nw) == 1 and nw[0].args[0] == BASEP and nw[0].args[4] == mine and nw[0].args[2][0] == 'n' and (nw[0].args[2][1] & 0x10 or iv == N0)
                        c.ob('wake', what + ': timer event', ok, '%s arms timer %d with an event that is not a persistent one of this timer' % (w2, k_), fn.where())
                        ad = [x for x in s.trace if x.name == 'event_add' and x.args[0] == e]
                        ok = len(ad) == 1 and len(ad[0].args) == 4
                        d = ('sym', 'delay', k_)
                        ok = ok and I.entails(s, cmp_term('==', vadd(vmul(num(1000000), ad[0].args[2]), ad[0].args[3]), vmul(num(1000), d))) and I.entails(s, cmp_term('<', ad[0].args[3], num(1000000)))
                        c.ob('wake', what + ': delay', ok, '%s arms timer %d for %s s and %s us' % (w2, k_, show(ad[0].args[2])[:50] if len(ad) == 1 and len(ad[0].args) == 4 else '?', show(ad[0].args[3])[:60] if len(ad) == 1 and len(ad[0].args) == 4 else '?'), fn.where())
                if was:
                    lt = ('ptr', (('h', 0, 'late'),))
                    alive = lt in waiting or armed.get(77) == lt
                    c.ob('wake', 'a timer purged while the worker is busy', not alive or num(77) in pend, '%s: the purge is dropped and the timer stays %s' % (w2, 'waiting' if lt in waiting else 'armed'), fn.where())
                for e in [x for x in s.trace if x.name == 'freed twice']:
                    c.ob('freed', what, False, '%s frees an event twice' % w2, fn.where())
            report('wake', 'a wake-up', I, fn)
    c.need('wake', 200)

    # ------------------------------------------------------------ a timer fires
    I, C, outs = woken(-1, False, 0, (T1,), (), ())
    cbs = [handler(e.args[3]) for s, k, v in outs for e in s.trace if e.name == 'event_new']
    for (k_, iv) in (T1, T2):
        for others in ((), (A5,)):
            I, C = mk(-1)
            st = State()
            setup(I, C, st, active=((k_, iv),) + others)
            what = 'a %s timer' % ('one-shot' if iv == N0 else 'repeated')
            for s, k, v in I.call_value(st, FR, CALL, one(cbs, 'handler of timers'), (num(-1), num(1), ('ptr', (('h', 0, 'timer%d' % k_),)))):
                runs = [e for e in s.trace if e.name == 'run']
                c.ob('fire', what + ' returns', k == 'v', '%s ends by %s' % (what, k), fn.where())
                if k != 'v':
                    continue
                c.ob('fire', what + ' runs', [e.args for e in runs] == [(('sym', 'callback', k_), N0)], '%s that fires runs its callback %d times%s' % (what, len(runs), ', with the lock held' if any(e.args[1] == N1 for e in runs) else ''), fn.where())
                armed = [k2[1] for k2 in C.get(s, ACTIVE)[1]]
                pend = [I.load(s, e) for e in C.elems(s, PURGES)]
                c.ob('fire', what + ' afterwards', (k_ in armed and num(k_) not in pend) == (iv != N0) and all(k2 in armed for k2, _ in others), '%s that fired is %s' % (what, 'still armed' if k_ in armed else 'gone, or another one is'), fn.where())
                fre = [i for i, e in enumerate(s.trace) if e.name == 'timer freed']
                c.ob('fire', what + ' after its run', not fre or not runs or s.trace.index(runs[0]) < fre[0], '%s is freed before its callback has run' % what, fn.where())
            report('fire', what, I, fn)
    # a timer that goes away frees its event
    d = [f for f in P.methods_of[TQ] if f.n.startswith('~') and f.body is not None]
    for has in (True, False):
        I, C = mk(-1)
        E_ = ('ptr', (('g', 'armed1'),))
        for s, k, v in I.analyse(one(d, 'destructor of a timer'), this=SELF, setup=lambda I, st, fr: I.store(st, SELF + (('.', TEV),), E_ if has else N0)):
            fr_ = [e.args[0] for e in s.trace if e.name == 'event_free']
            c.ob('fire', 'event of a freed timer', k == 'v' and fr_ == ([E_] if has else []), 'a timer %s event that goes away frees %d events' % ('with an' if has else 'without', len(fr_)), d[0].where())
    c.need('fire', 10)

    # ------------------------------------------------------------ stop, wait, destruction
    fn = c.fn(P, Q + '::stop', 0)
    for stopped in (False, True):
        I, C = mk(-1)
        for s, k, v in I.analyse(fn, this=SELF, setup=lambda I, st, fr: setup(I, C, st, True, stopped)):
            for s2, b in truth(I, s, v) if k == 'v' else [(s, None)]:
                w = [e for e in s2.trace if e.name == 'write']
                c.ob('stop', 'stop of a %s worker' % ('stopped' if stopped else 'running'), b == (not stopped) and I.load(s2, STOP) == N1 and (stopped or len(w) >= 1 and w[-1].args[0] == FDV), 'stop of a %s worker %s' % (
                    'stopped' if stopped else 'running', 'ends by ' + k if k != 'v' else 'returns %s%s' % (b, '' if w or stopped else ' and does not wake it')), fn.where())
        # the flag is set when the thread is woken
        if not stopped:
            I, C = mk(-1)
            seen = []
            h = I.hooks['write']
            I.hooks['write'] = lambda I_, st, fr, n, loc, av: (seen.append(I.load(st, STOP)), h(I_, st, fr, n, loc, av))[1]
            I.analyse(fn, this=SELF, setup=lambda I, st, fr: setup(I, C, st, True, False))
            c.ob('stop', 'flag before the wake-up', bool(seen) and all(x == N1 for x in seen), 'stop wakes the thread before it sets the flag', fn.where())
        report('stop', 'stop', I, fn)
    fn = c.fn(P, Q + '::wait', 0)
    for thread in (True, False):
        I, C = mk(-1)
        for s, k, v in I.analyse(fn, this=SELF, setup=lambda I, st, fr: setup(I, C, st, True, True, thread=thread)):
            for s2, b in truth(I, s, v) if k == 'v' else [(s, None)]:
                j = [e for e in s2.trace if e.name == 'join']
                c.ob('stop', 'wait %s thread' % ('for a' if thread else 'without'), b == thread and len(j) == int(thread) and all(e.args[0] == N0 and e.recv == THP[1] for e in j) and I.load(s2, THREAD) == N0, 'wait %s thread %s' % (
                    'for a' if thread else 'without', 'ends by ' + k if k != 'v' else 'joins %d times, returns %s and %s its thread' % (len(j), b, 'forgets' if I.load(s2, THREAD) == N0 else 'keeps')), fn.where())
        report('stop', 'wait', I, fn)
    dt = one([f for f in P.methods_of[Q] if f.n.startswith('~')], 'destructor of the worker')
    for nm, kw in (('running', dict(active=(A5, (6, N0)), timers=(T1,), tasks=1)), ('stopped', dict(stopped=True, active=(A5,))), ('joined', dict(stopped=True, thread=False, active=(A5,))), ('fresh', dict(started=False, stopped=True))):
        I, C = mk(-1)
        what = 'destruction of a %s worker' % nm
        for s, k, v in I.analyse(dt, this=SELF, setup=lambda I, st, fr: setup(I, C, st, **kw)):
            c.ob('destroy', what + ' returns', k == 'v', '%s ends by %s' % (what, k), dt.where())
            if k != 'v':
                continue
            tr = s.trace
            ix = {}
            for i, e in enumerate(tr):
                key = 'notifier' if e.name == 'event_free' and e.args[0] == EVP else 'base' if e.name == 'event_base_free' and e.args[0] == BASEP else 'fd' if e.name == 'close' and e.args[0] == FDV else e.name if e.name in ('join', 'timer freed') else None
                if key:
                    ix.setdefault(key, []).append(i)
            live = kw.get('started', True)
            for key in ('notifier', 'base', 'fd'):
                c.ob('destroy', '%s: %s freed once' % (what, key), len(ix.get(key, [])) == int(live), '%s frees the %s %d times' % (what, {'notifier': 'event', 'base': 'event base', 'fd': 'descriptor'}[key], len(ix.get(key, []))), dt.where())
            runs = live and kw.get('thread', True)
            c.ob('destroy', what + ': joined', len(ix.get('join', [])) == int(runs), '%s joins %d times' % (what, len(ix.get('join', []))), dt.where())
            if nm == 'running':
                w = [i for i, e in enumerate(tr) if e.name == 'write']
                c.ob('destroy', what + ': stopped', w and ix.get('join') and w[0] < ix['join'][0] and I.load(s, STOP) == N1, '%s does not stop the thread before it joins it' % what, dt.where())
            frees = [i for key in ('notifier', 'base', 'fd', 'timer freed') for i in ix.get(key, [])]
            c.ob('destroy', what + ': after the join', not ix.get('join') or not frees or ix['join'][0] < min(frees), '%s frees what the thread uses before it has joined it' % what, dt.where())
            if ix.get('base'):
                n_act = len(kw.get('active', ()))
                tfree = [i for i in ix.get('timer freed', []) if i < ix['base'][0]]
                c.ob('destroy', what + ': events before their base', len(tfree) == n_act and all(i < ix['base'][0] for i in ix.get('notifier', [])), '%s frees the event base while %s' % (what, 'timers hold events of it' if len(tfree) != n_act else 'its event is alive'), dt.where())
                c.ob('destroy', what + ': descriptor last', not ix.get('fd') or not ix.get('notifier') or ix['notifier'][0] < ix['fd'][0], '%s closes the descriptor while its event is alive' % what, dt.where())
            c.ob('destroy', what + ': not twice', not any(e.name == 'freed twice' for e in tr), '%s frees an event twice' % what, dt.where())
    c.need('destroy', 20)
    c.need('stop', 5)


main('C12', RULE, body)
