import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation with the kernel name of the calling thread as ghost state: the thread entry given to std::thread is analysed with exactly the arguments it is '
        'given, and on every path it runs the bound work once, with the given function and arguments in order, under the given name (when not empty) and never restores another; '
        'a temporary name is set after the previous one was saved and the destructor puts exactly that one back; names are read into buffers that hold the kernel\'s maximum; '
        'the thread id is obtained by the calling thread through the thread-id system call and kept per thread only.')
T = 'nebula::thread::'
PR_SET, PR_GET, SYS_GETTID, NAME_MAX = 15, 16, 186, 16


def body(c):
    P = c.load(['thread/NamedThread.cpp'], ['thread.cpp'])
    OLD = ('sym', 'creator or previous name', 0)

    def strval(I, st, v):
        """the text a char pointer or string stands for"""
        if v[0] == 'ref':
            v = I.load(st, v[1])
        if v[0] == 'app' and v[1] == 'text':
            return v[2]
        if v[0] == 'ptr':
            l = v[1][:-1] if v[1] and v[1][-1] == ('[', N0) else v[1]
            return st.ghost.get('buf:' + repr(l), ('text of', l))
        return v

    def mk():
        I = c.interp(P)

        def prctl(I, st, fr, n, loc, av):
            o = av[0]
            if o == num(PR_SET):
                st.ghost['kname'] = strval(I, st, av[1])
                I.event(st, fr, n, 'setname', None, (strval(I, st, av[1]),))
            elif o == num(PR_GET):
                p = av[1]
                l = p[1][:-1] if p[0] == 'ptr' and p[1] and p[1][-1] == ('[', N0) else (p[1] if p[0] == 'ptr' else None)
                size = None
                if l is not None and l[0][0] == 'v' and len(l) == 1:
                    for x in walk(fr.fn.body):
                        if x.get('k') == 'Decl':
                            for v in x['v']:
                                if v['d'] == l[0][2] and v['n'] == l[0][3]:
                                    m = re.match(r'.*\[(\d+)\]$', v['t'].s)
                                    size = int(m.group(1)) if m else None
                c.ob('buffer', '%s line' % fr.fn.n, size is not None and size >= NAME_MAX, 'the thread name is read into a buffer of %s bytes' % size, '%s:%d' % (rel(fr.fn.file), n['l']))
                if l is not None:
                    st.ghost['buf:' + repr(l)] = st.ghost.get('kname', OLD)
                I.event(st, fr, n, 'getname', None, ())
            else:
                I.event(st, fr, n, 'prctl', None, tuple(av))
            return I.ok(st, N0)
        I.hooks['prctl'] = prctl

        def c_str(I, st, fr, n, loc, av):
            return I.ok(st, ('app', 'text', strval(I, st, ('ref', loc))))
        for q in ('c_str', 'data'):
            I.hooks['std::basic_string::' + q] = c_str

        def sassign(I, st, fr, n, loc, av):
            I.store(st, loc, strval(I, st, av[0]), n)
            return I.ok(st, ('ref', loc))
        I.hooks['std::basic_string::operator='] = sassign
        I.hooks['std::basic_string::assign'] = sassign
        I.hooks['ctor:std::basic_string'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, strval(I, st, av[0]) if av else ('str', '')), I.ok(st, VOID))[1]
        I.hooks['std::basic_string::empty'] = lambda I, st, fr, n, loc, av: I.ok(st, ('pred', 'empty', I.load(st, loc)))
        I.hooks['std::basic_string::size'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'len', I.load(st, loc)))
        I.hooks['std::basic_string::length'] = I.hooks['std::basic_string::size']
        return I

    # ------------------------------------------------------ thread entry
    ctors = c.fns(P, T + 'NamedThread::NamedThread', 3, pick=lambda f: len(f.params) >= 2)
    for fn in ctors:
        lb = 'thread with %d bound arguments' % (len(fn.params) - 2)
        I = mk()
        runs = []

        def owned(n, av, fr):
            """nothing the new thread receives refers to objects of its creator"""
            for x, a in zip(n.get('a', ()), av):
                ty = x.get('t')
                bad = None
                if ty is not None and ty.k == 'rec' and strip_targs(ty.base) == 'std::reference_wrapper':
                    bad = 'a reference wrapper'
                elif a[0] in ('ptr', 'app') and ty is not None and ty.k == 'ptr':
                    bad = 'a pointer'
                elif a[0] == 'lam' and any(cap[0] in ('ref', 'this') for cap in a[2]):
                    bad = 'a closure that captures by reference'
                c.ob('copies', lb + ' owns what it is given', bad is None, 'the new thread is given %s into objects of its creator, which may change or die before it runs' % bad, '%s:%d' % (rel(fr.fn.file), n['l']))

        def bind_(I, st, fr, n, loc, av):
            owned(n, av, fr)
            return I.ok(st, ('app', 'bound') + tuple(ret(I, st, a) for a in av))

        def thread(I, st, fr, n, loc, av):
            I.event(st, fr, n, 'thread', loc, tuple(av))
            owned(n, av, fr)
            # what the new thread does: the entry with these arguments (copied)
            s2 = st.copy()
            s2.trace = ()
            s2.ghost = dict(s2.ghost, kname=OLD)
            vals = [a[1][0] if a[0] == 'ref' and a[1][0][0] == 'fn' else ret(I, s2, a) for a in av]
            n2 = dict(n, k='Call', fn=None)
            for s3, k, v in I.call_value(s2, fr, n2, vals[0], tuple(vals[1:])):
                runs.append((s3, k, v))
            return I.ok(st, VOID)
        I.hooks['std::bind'] = bind_
        I.hooks['ctor:std::thread'] = thread
        I.on_event = lambda I, st, e: st.ghost.__setitem__('at:%d' % len(st.trace), st.ghost.get('kname')) if e.name == 'callback' or e.name.startswith('witness::') else None
        outs = I.analyse(fn)
        c.ob('entry', lb + ' starts one thread', all(k == 'v' and sum(e.name == 'thread' for e in s.trace) == 1 for s, k, v in outs), 'constructing a named thread does not start exactly one thread', fn.where())
        c.ob('entry', lb + ' leaves the creator alone', all('kname' not in s.ghost for s, k, v in outs), 'constructing a named thread renames its creator', fn.where())
        names = [p['n'] for p in fn.params]
        want = []
        seen = set()
        for p in names[1:]:
            while p in seen:
                p += "'"
            seen.add(p)
            want.append(('init', (('arg', p),)))
        NAME = ('init', (('arg', names[0]),))
        for s, k, v in runs:
            c.ob('entry', lb + ' returns', k == 'v', 'the thread entry ends by %s' % k, fn.where())
            if k != 'v':
                continue
            calls = [(i, e) for i, e in enumerate(s.trace) if e.name == 'callback' or e.name.startswith('witness::') or e.name == 'indirect' or e.name.endswith('::operator()')]
            c.ob('entry', lb + ' runs once', len(calls) == 1, 'the given work runs %d times' % len(calls), fn.where())
            if len(calls) != 1:
                continue
            i, e = calls[0]
            if e.name in ('callback', 'indirect') and e.args and e.args[0][0] == 'app' and e.args[0][1] == 'bound':
                got = list(e.args[0][2:])
            elif e.name.startswith('witness::'):
                got = want[:1] + [ret(I, s, a) for a in e.args]
            else:
                got = [ret(I, s, a) for a in e.args]
            c.ob('entry', lb + ' arguments', [strip_moved(x) for x in got] == want, 'the thread runs %s instead of %s' % ([show(x) for x in got], [show(x) for x in want]), fn.where())
            before = [x for x in s.trace[:i] if x.name == 'setname']
            after = [x for x in s.trace[i:] if x.name == 'setname']
            c.ob('entry', lb + ' keeps the name', not after, 'the thread is renamed after its work', fn.where())
            e_ = I.decide(s, ('pred', 'empty', NAME))
            if e_ is None:
                l = I.decide(s, cmp_term('==', ('app', 'len', NAME), N0))
                e_ = l
            if e_ is True:
                nm = before[-1].args[0] if before else OLD
                c.ob('entry', lb + ' empty name', nm in (OLD, NAME), 'a thread without a name is named %s' % show(nm), fn.where())
            else:
                c.ob('entry', lb + ' name', bool(before) and before[-1].args[0] == NAME, 'the work runs under the name %s instead of the given one' % (show(before[-1].args[0]) if before else 'inherited from the creator'), fn.where())
        c.ob('entry', lb + ' analysed', bool(runs), 'the entry of the thread was not found', fn.where())

    # ------------------------------------------------------ temporary names
    N = T + 'NamedThread::Nominator'
    fn = c.fn(P, N + '::Nominator', 1)
    prev = one(fields_of(P, N, is_rec('std::basic_string', 'std::string')), 'saved name of Nominator')
    I = mk()
    for s, k, v in I.analyse(fn):
        nm = ('init', (('arg', fn.params[0]['n']),))
        c.ob('scope', 'saves the previous name', k == 'v' and I.load(s, fld(prev)) == OLD, 'a temporary name saves %s instead of the name in force before' % show(I.load(s, fld(prev))), fn.where())
        c.ob('scope', 'sets the name', s.ghost.get('kname') == nm, 'a temporary name sets %s' % show(s.ghost.get('kname') or VOID), fn.where())
    fn = c.fn(P, N + '::~Nominator', 0)
    I = mk()
    for s, k, v in I.analyse(fn):
        c.ob('scope', 'restores', k == 'v' and s.ghost.get('kname') == ('init', fld(prev)), 'the end of a temporary name sets %s instead of the saved name' % show(s.ghost.get('kname') or VOID), fn.where())

    # ------------------------------------------------------ thread id
    fn = c.fn(P, T + 'gettid', 0)
    I = c.interp(P)
    I.static_init = lambda fr, v: bool(v.get('tls'))
    I.hooks['syscall'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'syscall') + tuple(av))
    I.hooks['gettid'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'syscall', num(SYS_GETTID)))
    for s, k, v in I.analyse(fn):
        v = ret(I, s, v) if k == 'v' else None
        if v is not None and v[0] == 'app' and v[1] == 'trunc':
            v = v[-1]
        c.ob('tid', 'own kernel id', v == ('app', 'syscall', num(SYS_GETTID)),
             'the thread id is %s, not the kernel id obtained by the calling thread' % (show(v) if v else k), fn.where())
    c.need('entry', 20)
    c.need('copies', 3)
    c.need('buffer', 1)


def strip_moved(x):
    return x[2] if x[0] == 'app' and x[1] == 'moved' and len(x) == 3 else x


main('C17', RULE, body, ['std::thread and std::bind invoke what they are given with copies of the arguments', 'x86-64 Linux numbers for prctl options and system calls'])
