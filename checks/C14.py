import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Path-complete abstract interpretation of every public operation of the pool, with the list of owners modelled as "everything added before" plus the owners this operation appended. '
        'add and makeAndAdd: exactly one owner of exactly the object given (or just created from the arguments) is appended, nothing is destroyed or removed, and the object is returned; ending the life of that owner '
        'destroys the object exactly once, as its own static type, and of nothing else. clear and the destructor end the life of every owner exactly once and leave none behind. '
        'Every access to the pool\'s state outside construction and destruction happens with the lock of the pool held, and the lock is free afterwards. Decided for plain, constructor-taking, virtual and derived object types and for Expression.')
C = 'nebula::ObjectPool'
CONT = ('std::list', 'std::vector', 'std::deque', 'std::forward_list')
ADD = {'emplace_back': 1, 'push_back': 0, 'emplace_front': 1, 'push_front': 0}


def body(c):
    P = c.load([], witness=['pool.cpp'])
    r = P.recs.get(C)
    if r is None or not r.known:
        raise Broken('class ObjectPool not found')
    OBJ = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in CONT], 'owner lists of ObjectPool')
    MX = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in MUTEX_T], 'locks of ObjectPool')
    HT = [f['t'] for f in r.fields if f['id'] == OBJ][0].targs[0]
    state = [f['id'] for f in r.fields if f['id'] != MX]
    LIST = fld(OBJ)

    def setup(fn, lifetime=False):
        """an interpreter with the list model; the checks on accesses are off while the pool is built or torn down"""
        I = c.interp(P)
        bad = []

        def held(st, loc):
            mine = loc[:1] == THIS and len(loc) > 1 and loc[1][0] == '.' and loc[1][1] in state
            if not mine and loc[0][0] == 't':
                # an owner that is in the pool
                mine = any(loc[:len(x)] == x for x in st.ghost.get(('own', LIST), ()) if x != 'old')
            if mine and not lifetime and not st.ghost.get('over'):
                if (fld(MX), False) not in [tuple(x) for x in st.ghost.get('locks', ())]:
                    bad.append('%s is accessed without the lock of the pool (line %d)' % (loc[1][1] if loc[:1] == THIS else 'an owner in the pool', I.line))
        I.on_read = lambda I, st, loc, n: held(st, loc)
        I.on_write = lambda I, st, loc, v, n: held(st, loc)

        def S(st, loc):
            g = st.ghost.get(('own', loc))
            if g is None:
                g = ('old',) if loc == LIST else ()
            return g

        def setS(st, loc, g):
            st.ghost[('own', loc)] = g

        def end(I, st, fr, items):
            """the life of these owners ends"""
            outs = I.ok(st, VOID)
            for x in items:
                if x == 'old':
                    outs = I.bind(outs, lambda s, _: (s.ghost.__setitem__('old ended', s.ghost.get('old ended', 0) + 1), I.ok(s, VOID))[1])
                else:
                    outs = I.bind(outs, lambda s, _, x=x: I.destroy(s, fr, x, HT))
            return outs

        def add(I, st, fr, n, loc, av):
            held(st, loc)
            h = I.new_temp()

            def done(s):
                g = S(s, loc)
                setS(s, loc, g + (h,) if n['n'].endswith('back') else (h,) + g)
                return I.ok(s, ('ref', h))
            at = [a.get('t') for a in n.get('a', [])]
            at = [t.strip_ref() if t is not None else None for t in at]
            if n['n'].startswith('emplace') and not (len(at) == 1 and at[0] is not None and at[0].k == 'rec' and at[0].base == HT.base):
                if HT.base.startswith('std::'):
                    raise Unsupported('owners are %s' % HT.base)
                cands = [f for f in P.methods_of.get(HT.rec or HT.base, []) if f.d.get('ctor') and len(f.params) == len(av) and
                         all(a is not None and p['t'].strip_ref().s == a.s for p, a in zip(f.params, at))]
                if len(cands) != 1:
                    raise Unsupported('%d constructors of an owner take (%s)' % (len(cands), ', '.join(a.s if a is not None else '?' for a in at)))
                return I.bind(I.run_ctor(st, fr, n, cands[0], h, av), lambda s, _: done(s))
            if len(av) == 1:
                # an existing owner is copied (a class with a destructor and no move constructor is copied even from a temporary)
                src = av[0]
                I.store(st, h, I.argval(st, src))
                return done(st)
            raise Unsupported('owner appended by %s with %d arguments' % (n['n'], len(av)))

        def clear(I, st, fr, n, loc, av):
            held(st, loc)
            items = S(st, loc)
            setS(st, loc, ())
            return end(I, st, fr, items)

        def pop(front):
            def f(I, st, fr, n, loc, av):
                held(st, loc)
                raise Unsupported('single owners are removed')
            return f

        def swap(I, st, fr, n, loc, av):
            a, b = (loc, av[0][1]) if loc is not None else (av[0][1], av[1][1])
            held(st, a)
            held(st, b)
            x, y = S(st, a), S(st, b)
            setS(st, a, y)
            setS(st, b, x)
            return I.ok(st, VOID)

        def splice(I, st, fr, n, loc, av):
            if len(av) != 2 or av[1][0] != 'ref':
                raise Unsupported('part of the list is spliced')
            held(st, loc)
            held(st, av[1][1])
            setS(st, loc, S(st, av[1][1]) + S(st, loc))
            setS(st, av[1][1], ())
            return I.ok(st, VOID)

        def empty(I, st, fr, n, loc, av):
            held(st, loc)
            g = S(st, loc)
            if 'old' not in g:
                return I.ok(st, num(int(not g)) if n['n'] == 'empty' else num(len(g)))
            cnt = ('sym', 'owners', 0)
            I.bounds[cnt] = (0, 1 << 60)
            return I.ok(st, cmp_term('==', vadd(cnt, num(len(g) - 1)), N0) if n['n'] == 'empty' else vadd(cnt, num(len(g) - 1)))

        def ctor(I, st, fr, n, loc, av):
            I.store(st, loc, ('app', 'owners'))
            if not av:
                setS(st, loc, ())
                return I.ok(st, VOID)
            if len(av) == 1 and av[0][0] == 'ref':
                src = av[0][1]
                held(st, src)
                setS(st, loc, S(st, src))
                if n.get('ck') == 'move':
                    setS(st, src, ())
                    return I.ok(st, VOID)
            raise Unsupported('list built from %d arguments' % len(av))

        def assign(I, st, fr, n, loc, av):
            held(st, loc)
            src = av[0]
            if src[0] != 'ref':
                raise Unsupported('list assigned')
            held(st, src[1])
            items = S(st, loc)
            setS(st, loc, S(st, src[1]))
            setS(st, src[1], ())
            return end(I, st, fr, items)

        def dtor(I, st, fr, loc, t):
            items = S(st, loc)
            setS(st, loc, ())
            return end(I, st, fr, items)
        for q in CONT:
            for m in ADD:
                I.hooks[q + '::' + m] = add
            I.hooks['ctor:' + q] = ctor
            I.hooks['dtor:' + q] = dtor
            for m, h in (('clear', clear), ('swap', swap), ('empty', empty), ('size', empty), ('operator=', assign),
                         ('pop_back', pop(False)), ('pop_front', pop(True)), ('erase', pop(True)), ('remove_if', pop(True)), ('resize', pop(True)), ('remove', pop(True)), ('splice', splice)):
                I.hooks[q + '::' + m] = h
        I.hooks['std::swap'] = lambda I, st, fr, n, loc, av: swap(I, st, fr, n, None, av)

        def make(I, st, fr, n, loc, av):
            t = n['t'].targs[0]
            I.counter += 1
            ob = (('h', I.counter, t.s),)
            I.event(st, fr, n, 'operator new', None, (), ('ptr', ob))
            if av:
                I.event(st, fr, n, 'ctor:' + t.base, ob, av)
            I.store(st, ob, ('app', 'made'))
            return I.ok(st, ('ptr', ob))

        def release(I, st, fr, loc, t):
            v = I.load(st, loc)
            I.drop(st, loc)
            if v == N0 or v[0] != 'ptr':
                return I.ok(st, VOID)
            I.event(st, fr, None, 'operator delete', None, (v,))
            return I.destroy(st, fr, v[1], t.targs[0])
        I.hooks['std::make_unique'] = make
        I.hooks['dtor:std::unique_ptr'] = release

        def anyd(I, st, fr, loc, t):
            if strip_targs(t.base) == strip_targs(HT.base) or t.base.startswith(('std::', 'folly::', 'google::')):
                return None
            if t.base == C:
                return None
            I.event(st, fr, None, 'destroyed', loc, (t.s,))
            return I.ok(st, VOID)
        I.hooks['dtor:*'] = anyd
        return I, bad, S, end

    def finish(st, I, bad, fn, who):
        c.ob('lock', who, not bad, bad[0] if bad else '', fn.where())
        c.ob('lock', who + ' releases', not st.ghost.get('locks'), 'the lock of the pool is still held when %s returns' % fn.n, fn.where())

    # ------------------------------------------------------------------ adding
    adds = c.fns(P, C + '::add', least=4)
    makes = c.fns(P, C + '::makeAndAdd', least=4)
    for fn in adds + makes:
        make = fn.n == 'makeAndAdd'
        T = fn.ret.p
        who = '%s<%s>%s' % (fn.n, T.s.replace('nebula::', '').replace('witness::', ''), '(%d args)' % len(fn.params) if make else '')
        I, bad, S, end = setup(fn)
        outs = I.analyse(fn)
        n = 0
        for st, k, v in outs:
            if k == 'abort':
                c.ob('add', who + ' completes', False, '%s aborts (%s)' % (who, facts(st)), fn.where())
                continue
            if k != 'v':
                continue
            n += 1
            finish(st, I, bad, fn, who)
            new = [e for e in st.trace if e.name == 'operator new']
            if make:
                c.ob('make', who + ' creates one object', len(new) == 1, '%d objects are created by one call of %s' % (len(new), who), fn.where())
                c.ob('make', who + ' returns the object', v[0] == 'ptr' and v[1][0][0] not in ('arg', 'this'), 'the pointer returned is %s' % show(v), fn.where())
                ob = v
                ct = [e for e in st.trace if e.name == 'ctor:' + T.base and e.recv == (v[1] if v[0] == 'ptr' else None)]
                if fn.params:
                    want = tuple(('init', (('arg', p['n']),)) if False else None for p in fn.params)
                    c.ob('make', who + ' passes the arguments', len(ct) == 1 and len(ct[0].args) == len(fn.params), 'the object is not constructed from the arguments given', fn.where())
            else:
                c.ob('add', who + ' creates nothing', not new, 'adding an object creates another one', fn.where())
                ob = ('argv', fn.params[0]['n'])
                c.ob('add', who + ' returns the object', I.entails(st, cmp_term('==', v, ob)) or v == ob, 'the pointer returned is %s, not the object added' % show(v), fn.where())
            gone = [e for e in st.trace if e.name in ('operator delete', 'destroyed')]
            c.ob('alive', who, not gone and not st.ghost.get('old ended'), 'an object is destroyed while it is being added (or others are)', fn.where())
            g = S(st, LIST)
            fresh = [x for x in g if x != 'old']
            if I.decide(st, cmp_term('==', ob, N0)) and not fresh and g == ('old',):
                continue        # there is nothing to own
            c.ob('owner', who + ' appends one owner', g.count('old') == 1 and len(fresh) == 1, 'after %s the pool has %d new owners%s' % (who, len(fresh), '' if g.count('old') == 1 else ' and has lost the earlier ones'), fn.where())
            for h in fresh[:1]:
                mark = len(st.trace)
                s0 = st.copy()
                s0.ghost['over'] = 1
                for s2, k2, _ in end(I, s0, frame(I, fn), [h]):
                    ev = s2.trace[mark:]
                    dl = [e for e in ev if e.name == 'operator delete']
                    ds = [e for e in ev if e.name == 'destroyed']
                    loc = I.deref(s2, ob)
                    if I.decide(s2, cmp_term('==', ob, N0)) and not ds:
                        continue
                    c.ob('destroy', who + ' exactly once', k2 == 'v' and len(dl) == 1 and len(ds) == (not T.trivdtor), 'an owner that goes away destroys %d objects and frees %d' % (len(ds), len(dl)), fn.where())
                    for e in dl[:1]:
                        c.ob('destroy', who + ' the object', e.args[0] == ob or I.entails(s2, cmp_term('==', e.args[0], ob)), 'the owner frees %s instead of the object it was given' % show(e.args[0]), fn.where())
                    for e in ds[:1]:
                        c.ob('destroy', who + ' as its own type', e.args[0] == T.s and e.recv == loc, 'the owner destroys the %s as a %s' % (T.s, e.args[0]), fn.where())
        c.ob('add', who + ' has a normal path', n > 0, '%s never returns' % who, fn.where())

    # ------------------------------------------------------------------ clearing and destruction
    fn = c.fn(P, C + '::clear', 0)
    I, bad, S, end = setup(fn)
    for st, k, v in I.analyse(fn):
        c.ob('clear', 'completes', k == 'v', 'clear ends by %s' % k, fn.where())
        if k != 'v':
            continue
        finish(st, I, bad, fn, 'clear')
        c.ob('clear', 'destroys every object once', st.ghost.get('old ended') == 1, 'clear ends the life of the objects in the pool %d times' % st.ghost.get('old ended', 0), fn.where())
        c.ob('clear', 'forgets every object', S(st, LIST) == (), 'clear keeps pointers to destroyed objects', fn.where())

    ds = [f for f in P.methods_of.get(C, []) if f.d.get('dtor')]
    fn = one(ds, 'destructors of ObjectPool')
    I, bad, S, end = setup(fn, lifetime=True)
    members = [f for f in P.recs[C].fields]
    outs = I.analyse(fn) if fn.body is not None else [(fresh_state(I), 'v', VOID)]
    for st, k, v in outs:
        c.ob('destructor', 'completes', k == 'v', 'the destructor ends by %s' % k, fn.where())
        if k != 'v':
            continue
        o2 = [(st, 'v', VOID)]
        for f in reversed(members):
            if f['t'].k == 'rec':
                o2 = I.bind(o2, lambda s, _, f=f: I.destroy(s, frame(I, fn), fld(f['id']), f['t']))
        for s2, k2, _ in o2:
            c.ob('destructor', 'destroys every object once', k2 == 'v' and s2.ghost.get('old ended') == 1, 'destroying the pool ends the life of its objects %d times' % s2.ghost.get('old ended', 0), fn.where())

    # every other operation (reads the state, keeps the objects)
    for fn in P.methods_of.get(C, []):
        if fn.d.get('ctor') or fn.d.get('dtor') or fn.d.get('acc') == 2 or fn.n in ('add', 'makeAndAdd', 'clear') or fn.body is None:
            continue
        I, bad, S, end = setup(fn)
        for st, k, v in I.analyse(fn):
            if k != 'v':
                continue
            finish(st, I, bad, fn, fn.n)
            c.ob('alive', fn.n, not st.ghost.get('old ended') and S(st, LIST) == ('old',), '%s changes the objects the pool owns' % fn.n, fn.where())
            if fn.n == 'empty':
                cnt = ('sym', 'owners', 0)
                for s2, b in truth(I, st, v):
                    c.ob('empty', 'tells whether there are objects', I.entails(s2, cmp_term('==' if b else '!=', cnt, N0)), 'empty returns %s when there are %s objects' % (b, 'some' if b else 'no'), fn.where())

    # a fresh pool owns nothing
    for fn in [f for f in P.methods_of.get(C, []) if f.d.get('ctor') and not f.params]:
        I, bad, S, end = setup(fn, lifetime=True)
        for st, k, v in I.analyse(fn):
            c.ob('construct', 'empty', k == 'v' and not st.ghost.get('old ended'), 'constructing a pool ends by %s' % k, fn.where())
    # copies would own the same objects twice
    for fn in P.methods_of.get(C, []):
        if fn.d.get('ctor') and fn.d.get('ck') in ('copy', 'move') or fn.n == 'operator=':
            c.ob('copy', fn.n, False, 'a pool can be copied or moved, so an object could be owned twice', fn.where())


def frame(I, fn):
    return I.new_frame(fn, None, THIS)


def fresh_state(I):
    return State()


main('C14', RULE, body, ['std::list and std::function implement their documented semantics (containers as sequences of owners, a stored callable is invoked as given)', 'an object added is not already owned by a pool'])
