import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from flow import Flow, Env, Frame
from program import walk, strip_targs, rel
import resources
from resources import Res, ACQ, OUTPAR, ADOPT, REL, SORTS, acq_sort

RULE = ('Typestate over every function that obtains, keeps or releases an operating-system handle (descriptors, directory, file and process streams, buffers of the C library, address lists, libraries, libevent objects), found by the calls that produce them; helpers are analysed at their calls. '
        'A handle is held, failed, released or owned by a guard; tests against the failure value refine this on each path, through copies, flags, early exits and loops (to a fixpoint). Obligations: on every path out of the function the handle has been released once, by the call that '
        'belongs to it, or is returned or kept in an object; nothing is done to it after its release, nor, for pointers, where obtaining it failed. For a class that keeps handles: over every sequence of public calls after construction no handle is overwritten while held, the destructor '
        'releases each one that can be held exactly once and is not handed one that has been released, and the class cannot be copied by the default copy operations.')


def names(n):
    return strip_targs(n.get('q', ''))


def body(c):
    P = c.load(['*'], witness=['lru.cpp', 'tempdir.cpp'], cflags=['-DNDEBUG'])
    keys = set(ACQ) | set(OUTPAR) | set(ADOPT) | set(REL)
    own = [f for f in P.funcs.values() if '/src/common/' in f.file and f.body is not None]
    # functions (and lambdas inside them) that touch handles
    direct = set()
    fields = {}
    for f in own:
        for n in walk(f.body):
            if n.get('k') == 'Call' and n.get('obj') is None and names(n) in keys:
                direct.add(f.key)
            if n.get('k') == 'Asg' and n['op'] == '=' and n['a'].get('k') == 'Mem' and acq_sort(n['b']):
                fields.setdefault((strip_targs(n['a']['cls']), n['a']['n']), acq_sort(n['b']))
        for i in f.inits or []:
            if i.get('f') and i.get('e') is not None and acq_sort(i['e']):
                fields.setdefault((f.cls, i['f']), acq_sort(i['e']))
    calls = {}
    for f in own:
        for n in walk(f.body):
            if n.get('k') == 'Call' and n.get('fn'):
                calls.setdefault(n['fn'], set()).add(f.key)
    K = Res()
    F = Flow(P, [K])
    F.acq = {}
    makers = set()
    for f in own:
        if f.key in direct and any(n.get('k') == 'Call' and (names(n) in ACQ or names(n) in ADOPT) for n in walk(f.body)):
            makers.add(f.key)
    for _ in range(3):
        for k in list(makers):
            fn = P.funcs[k]
            if fn.ret is not None and fn.ret.k in ('int', 'ptr'):
                makers |= calls.get(k, set())
    K.extra = makers
    # handles that end up in a member through a local or a helper
    stored = K.stored

    def note(F, e, p, v):
        if len(p) == 2 and p[0][0] == 'this' and p[1][0] == '.' and F.cur.fn.cls:
            fields.setdefault((strip_targs(F.cur.fn.cls), p[1][1]), v[2])
        return stored(F, e, p, v)
    K.stored = note
    handlers = {cl for cl, _ in fields}

    def leave(e, v):
        K.leaving(F, e, v, None)

    todo = [f for f in own if not f.lambda_ and (f.key in makers or f.key in direct)]
    for f in todo:
        if strip_targs(f.cls or '') in handlers and not f.d.get('static'):
            continue
        F.run(f, at_exit=leave)
        c.functions.add(f.q)
    for f in own:
        if f.lambda_ and f.key in direct and f.key not in F.analysed:
            F.run(f, at_exit=leave)
            c.functions.add(f.q)
    # ------------------------------------------------------------- classes that keep handles
    K.stored = stored
    for cls in sorted({cl for cl, _ in fields}):
        ms = {m: s for (cl, m), s in fields.items() if cl == cls}
        rec = P.recs.get(cls)
        if rec is None:
            raise Broken('class %s not found' % cls)
        meth = [f for f in own if strip_targs(f.cls or '') == cls and not f.lambda_]
        if not meth:
            continue
        touch = set()
        for f in meth:
            if any(n.get('k') == 'Mem' and n.get('n') in ms for n in walk(f.body)) or any(i.get('f') in ms for i in f.inits or []):
                touch.add(f.key)
        for _ in range(4):
            for f in meth:
                if any(n.get('k') == 'Call' and n.get('fn') in touch for n in walk(f.body)):
                    touch.add(f.key)
        K.cls, K.touch = cls, touch
        copies = [(f, n) for f in own for n in walk(f.body) if (n.get('k') == 'Construct' and strip_targs(n.get('cls', '')) == cls and n.get('ck') in ('copy', 'move') and not n.get('elid'))
                  or (n.get('k') == 'Call' and names(n) == cls + '::operator=')]
        for what in ('copyctor', 'copyassign'):
            c.ob('class', '%s|%s' % (cls, what), rec.d.get(what) in ('deleted', 'user', None) or not copies, '%s keeps %s but its default copy operations copy the handle, so it is released twice' % (cls, ', '.join(sorted(ms))), '%s:%d' % (rel(rec.file), rec.line))

        def project(e):
            d = {}
            for m in ms:
                p = (('this', 'obj'), ('.', m))
                v = e.get(p)
                d[m] = None
                if v is None:
                    continue
                if v[0] == 'rs':
                    d[m] = ('rs', ''.join(sorted((K.state(e, v[1]) or '?'))))
                elif v[0] in ('null', 'n'):
                    d[m] = v
            return tuple(sorted(d.items(), key=lambda x: x[0]))

        def build(pr, key):
            e = Env()
            for m, v in pr:
                p = (('this', key), ('.', m))
                if v is None:
                    continue
                if v[0] == 'rs':
                    if '?' in v[1]:
                        continue
                    e = e.set(p, ('rs', ('member', m), ms[m])).set(('res', ('member', m)), ('rst', frozenset(v[1])))
                else:
                    e = e.set(p, v)
            return e

        def after(f, acc):
            def g(e, v):
                d = {}
                for k, w in e.d.items():
                    if len(k) == 2 and k[0] == ('this', f.key) and k[1][0] == '.' and k[1][1] in ms:
                        d[(('this', 'obj'), k[1])] = w
                    elif k[0] == 'res':
                        d[k] = w
                acc.add(project(Env(d)))
                K.leaving(F, e, v, None)
            return g
        states = set()
        cts = [f for f in P.funcs.values() if strip_targs(f.cls or '') == cls and f.ctor and f.ctor not in ('copy', 'move') and (f.body is not None or f.inits)]
        for f in cts:
            F.run(f, at_exit=after(f, states))
            c.functions.add(f.q)
        if not cts or not states:
            states = {tuple(sorted((m, ('rs', 'HN')) for m in ms))}
        pubs = [f for f in meth if f.acc == 0 and f.key in touch and not f.ctor and not f.dtor and not f.d.get('static')] if hasattr(meth[0], 'acc') else \
            [f for f in meth if f.d.get('acc') == 0 and f.key in touch and not f.d.get('ctor') and not f.d.get('dtor') and not f.d.get('static')]
        work = list(states)
        # members that other code assigns can be in any state
        outside = {m for f in own if strip_targs(f.cls or '') != cls for n in walk(f.body) if n.get('k') == 'Asg' and n['a'].get('k') == 'Mem' and strip_targs(n['a'].get('cls') or '') == cls and n['a']['n'] in ms for m in [n['a']['n']]}
        if outside:
            work = [tuple((m, ('rs', 'HN') if m in outside else v) for m, v in s) for s in work] + work
            states |= set(work)
        while work:
            s = work.pop()
            for f in pubs:
                acc = set()
                F.run(f, start=build(s, f.key), at_exit=after(f, acc))
                c.functions.add(f.q)
                for x in acc - states:
                    states.add(x)
                    work.append(x)
                if len(states) > 200:
                    raise Broken('%s: too many handle states' % cls)
        dt = [f for f in meth if f.d.get('dtor')]
        for m, sort in sorted(ms.items()):
            bad = []
            for s in states:
                if not dt:
                    left = {m: dict(s)[m]}
                    if left[m] and left[m][0] == 'rs' and 'H' in left[m][1]:
                        bad.append(s)
                    continue
                acc = []

                def g(e, v):
                    acc.append(e)
                F.run(dt[0], start=build(s, dt[0].key), at_exit=g)
                c.functions.add(dt[0].q)
                if any('H' in (K.state(e, ('member', m)) or '') for e in acc):
                    bad.append(s)
            w = dt[0].where() if dt else '%s:%d' % (rel(rec.file), rec.line)
            c.ob('class', '%s|%s released' % (cls, m), not bad, 'the %s kept in %s of %s is not released when the object is destroyed' % (sort, m, cls), w)
        K.cls = None
    if F.gaveup:
        raise Broken('not analysed: ' + '; '.join('%s (%s)' % x for x in sorted(F.gaveup.items())[:5]))
    for k in sorted(F.uses, key=str):
        q, file, line, what, kind = k
        ok, msg = F.uses[k]
        c.ob('handle', '%s|%s' % (q, what), ok, 'in %s: %s' % (q, msg), '%s:%d' % (file, line))
    c.paths = F.paths
    c.need('handle', 15)
    c.notes.append('classes that keep handles: ' + ', '.join('%s.%s (%s)' % (a, b, s) for (a, b), s in sorted(fields.items())))


main('C27', RULE, body, ['calls of code outside the repository other than the listed ones neither release nor keep a handle passed to them', 'exceptions thrown by library calls (allocation, regex) between obtaining and releasing are not considered; explicit throws are',
                         'fatal log messages and CHECK terminate the process'])
