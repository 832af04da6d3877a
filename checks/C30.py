import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc

RULE = ('install() is evaluated for every signal number from -2 to 67 and the extreme ones, before and after the first installation, with the system calls as recording models; the function it registers with the system is then evaluated for every signal. '
        'At the moment a signal is registered, and when installation reports success, the place that the registered function calls through for this signal must hold the given handler; installing writes to no other place; '
        'each delivery makes exactly one call, of that handler, with an object whose number, sender and user are those of the delivery; only fatal signals restore the default action and raise the signal again, after the call. '
        'SIGPIPE and SIGHUP are ignored before the first registration and never touched by later ones.')
C = 'nebula::SignalHandler'
FATAL = {4: 'SIGILL', 6: 'SIGABRT', 7: 'SIGBUS', 8: 'SIGFPE', 11: 'SIGSEGV'}
SA_SIGINFO, SA_RESETHAND = 4, 0x80000000


def body(c):
    P = c.load(['base/SignalHandler.cpp'])
    H = ('sym', 'the handler', 0)

    def interp(log, hook_sig=None, act=None):
        I = c.interp(P, unroll=70)
        Conc(I)

        def static_init(fr, v):
            t = v['t']
            if t is not None and (t.k in ('int', 'bool') or t.k == 'rec' and strip_targs(t.base) in ('nebula::Status', 'std::once_flag', 'std::atomic')):
                once.add(('g', v['q']))
                return True
            return False
        I.static_init = static_init

        def call_once(I, st, fr, n, loc, av):
            l = av[0][1]
            once.add(l[0])
            if st.mem.get(l) == N1:
                return I.ok(st, VOID)
            outs = []
            for s, k, v in I.call_value(st, fr, {'k': 'Call', 'l': n.get('l', 0), 'a': []}, I.argval(st, av[1]), ()):
                if k == 'v':
                    s.mem[l] = N1
                outs.append((s, k, VOID if k == 'v' else v))
            return outs
        I.hooks['std::call_once'] = call_once
        I.hooks['ctor:std::once_flag'] = lambda I, st, fr, n, loc, av: (st.mem.__setitem__(loc, N0), I.ok(st, VOID))[1]

        def note(st, *x):
            st.ghost['log'] = st.ghost.get('log', ()) + (x,)

        # ---- Status
        def sctor(I, st, fr, n, loc, av):
            st.mem[loc] = I.argval(st, av[0]) if av and n.get('ck') in ('copy', 'move') else ('app', 'status', 'OK' if not av else 'Error')
            return I.ok(st, VOID)
        I.hooks['ctor:nebula::Status'] = sctor
        I.hooks['dtor:nebula::Status'] = lambda I, st, fr, loc, t: I.ok(st, VOID)

        def sassign(I, st, fr, n, loc, av):
            I.drop(st, loc)
            st.mem[loc] = I.argval(st, av[0])
            return I.ok(st, ('ref', loc))
        I.hooks['nebula::Status::operator='] = sassign
        for f in P.methods_of.get('nebula::Status', []):
            if f.d.get('static') and f.ret.k == 'rec' and f.ret.base == 'nebula::Status':
                I.hooks['nebula::Status::' + f.n] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', n['n']))
        I.hooks['nebula::Status::ok'] = lambda I, st, fr, n, loc, av: I.ok(st, num(int(is_ok(I.load(st, loc)))))
        I.hooks['nebula::Status::Error'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', 'Error'))

        # ---- std::function
        def fassign(I, st, fr, n, loc, av):
            v = I.argval(st, av[0])
            st.mem[loc] = v
            if av[0][0] == 'ref' and n.get('pt') and n['pt'][0].k == 'rref' and av[0][1] != loc:
                st.mem[av[0][1]] = N0
            return I.ok(st, ('ref', loc))
        I.hooks['std::function::operator='] = fassign

        def fctor(I, st, fr, n, loc, av):
            st.mem[loc] = I.argval(st, av[0]) if av else N0
            if av and av[0][0] == 'ref' and n.get('ck') == 'move':
                st.mem[av[0][1]] = N0
            return I.ok(st, VOID)
        I.hooks['ctor:std::function'] = fctor
        I.hooks['dtor:std::function'] = lambda I, st, fr, loc, t: I.ok(st, VOID)

        def fswap(I, st, fr, n, loc, av):
            o = av[0][1]
            a, b = I.load(st, loc), I.load(st, o)
            st.mem[loc], st.mem[o] = b, a
            return I.ok(st, VOID)
        I.hooks['std::function::swap'] = fswap

        # ---- system
        def memset(I, st, fr, n, loc, av):
            p = I.deref(st, av[0])
            if I.argval(st, av[1]) != N0 or p is None:
                return None
            if p[-1] == ('[', N0):
                p = p[:-1]
            I.drop(st, p)
            st.mem[p] = ('zero',)
            return I.ok(st, av[0])
        I.hooks['memset'] = I.hooks['std::memset'] = memset
        I.hooks['bzero'] = None

        def sigaction(I, st, fr, n, loc, av):
            sig, a = I.argval(st, av[0]), I.argval(st, av[1])
            old = I.argval(st, av[2])
            if a == N0:
                return I.ok(st, ('sym', 'result of a query', I.fresh('q')))
            if old != N0:
                raise Unsupported('sigaction that also asks for the old action')
            if sig[0] != 'n':
                raise Unsupported('sigaction on %s' % show(sig))
            p = I.deref(st, a)
            un = p + (('.', '__sigaction_handler'),)
            vals = {}
            for f in ('sa_handler', 'sa_sigaction'):
                l = un + (('.', f),)
                if l in st.mem:
                    vals[f] = st.mem[l]
            flags = I.load(st, p + (('.', 'sa_flags'),))
            if flags[0] == 'fld' and flags[1] == N0:
                flags = N0
            h = list(vals.values())
            if len(h) != 1:
                raise Unsupported('sigaction with %d handlers set' % len(h))
            h = h[0]
            if act is not None:
                act(st, sig[1], h, flags, n, fr)
            r = I.fresh('sigaction')
            outs = []
            for ok in (1, 0):
                s = st.copy()
                s.ghost['log'] = s.ghost.get('log', ()) + (('sigaction', sig[1], h, flags, ok),)
                outs += I.ok(s, num(0 if ok else -1))
            return outs
        I.hooks['sigaction'] = sigaction
        I.hooks['signal'] = lambda I, st, fr, n, loc, av: (note(st, 'sigaction', I.argval(st, av[0])[1], I.argval(st, av[1]), N0, 1), I.ok(st, N0))[1]
        I.hooks['raise'] = lambda I, st, fr, n, loc, av: (note(st, 'raise', I.argval(st, av[0])), I.ok(st, N0))[1]
        I.hooks['std::signal'], I.hooks['std::raise'] = I.hooks['signal'], I.hooks['raise']
        I.hooks['__errno_location'] = lambda I, st, fr, n, loc, av: I.ok(st, ('ptr', (('g', 'errno'),)))

        def call(I, st, fr, n, loc, av):
            note(st, 'call', I.load(st, loc))
            if hook_sig is not None:
                log(I, st, fr, n, av)
            return I.ok(st, VOID)
        I.hooks['std::function::operator()'] = call
        return I

    def is_ok(v):
        while v[0] == 'agg':
            v = v[1]
        if v[:2] != ('app', 'status'):
            raise Unsupported('status %s' % show(v)[:100])
        return v[2] == 'OK'

    inst = one([f for f in c.fns(P, C + '::install') if f.params[0]['t'].k == 'int'], 'install(int, Handler)')
    many = one([f for f in c.fns(P, C + '::install') if f.params[0]['t'].k != 'int'], 'install(list, Handler)')
    reg = {}                                  # signal -> functions registered with the system
    once = set()

    def is_fun(v):
        return v[0] in ('fn', 'ptr') and not (v[0] == 'n')

    def run(fn, av, first):
        snaps = []

        def act(st, sig, h, fl, n, fr):
            snaps.append((sig, h, fl, dict(st.mem), tuple(st.ghost.get('log', ()))))
        I = interp(None, act=act)
        st = State()
        if not first:
            st.mem.update(later)
        before = dict(st.mem)
        return I.analyse(fn, av=av, state=st), snaps, before

    def glob(mem):
        return {k: v for k, v in mem.items() if k[0][0] == 'g' and k[0] != ('g', 'errno')}

    def simple(l):
        """a static that only remembers whether something was done"""
        return l[0] in once

    # the state that a first installation leaves
    later = {}
    outs, snaps, _ = run(inst, (num(15), ('sym', 'the first handler', 0)), True)
    good = [st for st, k, v in outs if k == 'v' and is_ok(v)]
    if not good:
        raise Broken('no handler can be installed')
    later.update(glob(good[0].mem))
    slot = {}
    IGN = {13, 1}
    sigs = list(range(-2, 68)) + [-2 ** 31, 2 ** 31 - 1, 128, 255, 256, 1 + 2 ** 16]
    for sig in sigs:
        valid = 1 <= sig <= 64 and sig not in (9, 19)
        for first in (True, False):
            outs, snaps, before = run(inst, (num(sig), H), first)
            tag = 'signal %d%s' % (sig, ', first installation' if first else '')
            for st, k, v in outs:
                log = st.ghost.get('log', ())
                regs = [e for e in log if e[0] == 'sigaction']
                own = [e for e in regs if is_fun(e[2])]
                good = k == 'v' and is_ok(v)
                if not valid:
                    c.ob('refused', tag, not good and not [e for e in own], 'signal %d is accepted' % sig, inst.where())
                    w = {l for l, x in glob(st.mem).items() if before.get(l) != x and not simple(l)}
                    c.ob('refused', tag + ' table', not w, 'signal %d is outside of the range but something is stored for it' % sig, inst.where())
                    continue
                if k != 'v':
                    c.ob('installed', tag, False, 'installing a handler for signal %d ends by %s' % (sig, k), inst.where())
                    continue
                c.ob('status', tag, good == all(e[4] for e in regs), 'installing reports %s although the system %s' % ('success' if good else 'an error', 'refused' if good else 'accepted'), inst.where())
                ig = [e for e in regs if e[2] == N1]
                c.ob('ignored', tag, not first or not own or {e[1] for e in ig} >= IGN and all(log.index(e) < log.index(own[0]) for e in ig), 'a handler for signal %d is registered before SIGPIPE and SIGHUP are ignored' % sig, inst.where())
                c.ob('ignored', tag + ' only', {e[1] for e in ig} <= IGN and (first or not ig), 'installing a handler for signal %d changes the action of %s' % (sig, sorted(e[1] for e in ig)), inst.where())
                c.ob('registered', tag, all(e[1] == sig for e in own) and (not good or len(own) == 1), 'installing a handler for signal %d registers %s' % (sig, [e[1] for e in own]), inst.where())
                c.ob('registered', tag + ' other', all(e[2] == N1 or is_fun(e[2]) for e in regs), 'installing a handler for signal %d sets another action' % sig, inst.where())
                for e in own:
                    c.ob('registered', tag + ' flags', e[3][0] == 'n' and e[3][1] & SA_SIGINFO and not e[3][1] & SA_RESETHAND, 'signal %d is registered with flags %s' % (sig, show(e[3])), inst.where())
                    reg.setdefault(sig, set()).add(e[2])
                g = {l: x for l, x in glob(st.mem).items() if before.get(l) != x and not simple(l)}
                mine = [l for l, x in g.items() if x == H]
                if good:
                    c.ob('stored', tag, len(mine) == 1, 'the handler for signal %d is stored %d times' % (sig, len(mine)), inst.where())
                    if len(mine) == 1:
                        slot.setdefault(sig, set()).add(mine[0])
                c.ob('alone', tag, set(g) <= set(mine), 'installing a handler for signal %d changes %s' % (sig, ', '.join(sorted(showloc(l) for l in set(g) - set(mine)))), inst.where())
            for sg, h, fl, mem, log in snaps:
                if is_fun(h) and sg == sig and valid:
                    c.ob('ready', tag, any(x == H and l[0][0] == 'g' for l, x in mem.items()), 'signal %d is registered with the system before its handler is stored: a signal that arrives in between finds none' % sig, inst.where())
    for sig in sigs:
        if sig in slot:
            c.ob('alone', 'slot of %d' % sig, len(slot[sig]) == 1 and not any(slot[sig] & slot[o] for o in slot if o != sig), 'signal %d shares its place with another one' % sig, inst.where())

    # ---- several signals at once
    for lst in ((10, 12, 15), (15,), ()):
        L = (('arglist',),)
        for first in (True, False):
            snaps = []
            I = interp(None, act=lambda st, sig, h, fl, n, fr: snaps.append((sig, h, dict(st.mem))))
            st = State()
            if not first:
                st.mem.update(later)
            st.mem[L] = ('conc', 'vec', len(lst))
            for i, s in enumerate(lst):
                st.mem[L + (('[', num(i)),)] = num(s)
            pt = many.params[0]['t']
            a0 = ('ref', L) if pt.k in ('ref', 'rref') else I.snapshot(st, L)
            for s, k, v in I.analyse(many, av=(a0, H), state=st):
                good = k == 'v' and is_ok(v)
                tag = 'signals %s%s' % (list(lst), ', first installation' if first else '')
                c.ob('list', tag + ' ends', k == 'v', 'installing several handlers ends by %s' % k, many.where())
                regs = [e for e in s.ghost.get('log', ()) if e[0] == 'sigaction']
                c.ob('list', tag + ' status', good == all(e[4] for e in regs), 'installing several handlers reports %s' % ('success' if good else 'an error'), many.where())
                for x in lst:
                    done = [e for e in regs if e[1] == x and is_fun(e[2]) and e[4]]
                    if good:
                        c.ob('list', '%s %d' % (tag, x), done and len(slot.get(x, ())) == 1 and s.mem.get(next(iter(slot[x]))) == H, 'after a handler was installed for %s, signal %d does not have it' % (list(lst), x), many.where())
            for sg, h, mem in snaps:
                if is_fun(h):
                    c.ob('list', '%s ready %d' % (lst, sg), len(slot.get(sg, ())) == 1 and mem.get(next(iter(slot[sg]))) == H, 'signal %d is registered with the system before its handler is stored' % sg, many.where())

    # ---- delivery
    fns = set().union(*reg.values()) if reg else set()
    for sig in sorted(reg):
        c.ob('registered', 'function of %d' % sig, len(reg[sig]) == 1, 'signal %d is registered with different functions' % sig, inst.where())
    INFO = (('info',),)

    def target(v):
        if v[0] == 'fn':
            return P.funcs.get(v[1])
        if v[0] == 'ptr' and v[1][0][0] in ('g', 'fn'):
            r = [f for f in P.find(v[1][0][1]) if f.body is not None]
            return r[0] if len(r) == 1 else None
    acc = {}
    for nm in ('sig', 'pid', 'uid'):
        acc[nm] = c.fn(P, C + '::GeneralSignalInfo::' + nm)
    from_info = lambda v, names: v[0] == 'init' and v[1][0] == INFO[0] and v[1][-1] in [('.', x) for x in names]
    for sig in sorted(slot):
        if len(slot[sig]) != 1 or len(reg.get(sig, ())) != 1:
            continue
        hook = target(next(iter(reg[sig])))
        if hook is None:
            raise Unsupported('the registered function is %s' % show(next(iter(reg[sig]))))
        calls = []

        def got(I, st, fr, n, av):
            p = I.deref(st, av[0])
            r = {}
            for nm, f in acc.items():
                outs = I.run_fn(st.copy(), fr, f, p, (), n)
                r[nm] = outs[0][2] if len(outs) == 1 else None
            if os.environ.get('DBG'):
                print(r)
            calls.append(r)
        I = interp(got, hook_sig=sig)
        st = State()
        st.mem[next(iter(slot[sig]))] = H
        I.assume(st, cmp_term('!=', H, N0))
        outs = I.analyse(hook, av=(num(sig), ('ptr', INFO), ('sym', 'context', 0)), state=st)
        for s, k, v in outs:
            log = s.ghost.get('log', ())
            cl = [e for e in log if e[0] == 'call']
            fatal = sig in FATAL
            c.ob('delivered', 'signal %d' % sig, len(cl) == 1 and k == 'v', 'a delivery of signal %d makes %d calls' % (sig, len(cl)), hook.where())
            c.ob('delivered', 'signal %d handler' % sig, all(e[1] == H for e in cl), 'a delivery of signal %d calls %s instead of its handler' % (sig, ', '.join(show(e[1]) for e in cl if e[1] != H)), hook.where())
            rest = [e for e in log if e[0] != 'call']
            if fatal:
                want = [('sigaction', sig, N0, N0, 1), ('raise', num(sig))]
                c.ob('fatal', 'signal %d' % sig, [e for e in rest] == want and (not cl or log.index(cl[0]) == 0), 'after its handler ran, the fatal signal %d is not raised again with the default action' % sig, hook.where())
            else:
                c.ob('general', 'signal %d' % sig, not rest, 'the delivery of signal %d is treated as fatal' % sig, hook.where())
        for r in calls:
            for nm, names in (('sig', ('si_signo',)), ('pid', ('si_pid',)), ('uid', ('si_uid',))):
                ok = r[nm] is not None and (from_info(r[nm], names) or nm == 'sig' and r[nm] == num(sig))
                c.ob('information', 'signal %d %s' % (sig, nm), ok, 'the handler of signal %d is told %s as its %s' % (sig, show(r[nm]) if r[nm] else 'nothing', nm), acc[nm].where())
    c.need('delivered', 2)
    if not slot or not calls:
        raise Broken('no delivery was examined')

    # ---- the text
    for cls in ('GeneralSignalInfo', 'FatalSignalInfo'):
        fn = c.fn(P, C + '::%s::toString' % cls, 0)
        I = interp(None)
        texts = []

        def snprintf(I, st, fr, n, loc, av):
            p = I.deref(st, av[0])
            texts.append((n, p, I.argval(st, av[1]), I.argval(st, av[2]), [I.argval(st, a) for a in av[3:]]))
            return I.ok(st, ('sym', 'written', 0))
        I.hooks['snprintf'] = I.hooks['std::snprintf'] = snprintf
        for s, k, v in I.analyse(fn):
            c.ob('text', cls, k == 'v' and len(texts) > 0, 'no text is made', fn.where())
            if k == 'v' and texts:
                n, p, size, fmt, args = texts[-1]
                c.ob('text', cls + ' returned', v == ('ptr', p) or v[0] == 'ptr' and v[1] == p, 'another text is returned than was made', fn.where())
                want = {'sig': 0, 'pid': 0, 'uid': 0}
                for a in args:
                    for nm, f in acc.items():
                        o = I.run_fn(s.copy(), I.new_frame(fn, None, THIS), f, THIS, (), n)
                        if len(o) == 1 and o[0][2] == a:
                            want[nm] += 1
                c.ob('text', cls + ' parts', all(want.values()), 'the text lacks %s' % ', '.join(x for x in want if not want[x]), fn.where())


main('C30', RULE, body, ['installations do not run concurrently with each other', 'a signal is not delivered while its own handler is being replaced by a second installation'])
