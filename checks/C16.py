import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation of construction and destruction over every outcome of the system calls: the unique-name call gets a writable private copy of the whole pattern '
        '(large enough, terminated); on success exactly that buffer becomes the path and the descriptor is closed once, on failure an exception leaves the file constructor and no '
        'path is kept by the directory constructor; the destructor removes exactly the stored path when removal was asked for and a path exists, directories with their content, and nothing otherwise.')
NOTE = 'The recursive removal of a directory tree by FileUtils::remove is taken as given here.'
F, D = 'nebula::fs::TempFile', 'nebula::fs::TempDir'
CREATE = {'mkstemp', 'mkostemp', 'mkstemps', 'mkdtemp'}


def body(c):
    P = c.load(['fs/TempFile.cpp', 'fs/TempDir.cpp'], ['tempdir.cpp'])

    def mk(calls):
        I = c.interp(P)
        I.opaque.add('nebula::fs::FileUtils::joinPath')
        I.opaque.add('nebula::fs::FileUtils::remove')

        def create(I, st, fr, n, loc, av):
            # both outcomes
            outs = []
            fd = ('sym', 'fd', 0)
            for okay in (True, False):
                s = st.copy()
                if n['n'] == 'mkdtemp':
                    r = av[0] if okay else N0
                else:
                    I.bounds[fd] = (0, 1 << 30)
                    r = fd if okay else num(-1)
                s.ghost['created'] = okay
                I.event(s, fr, n, 'create', None, tuple(av), r)
                outs += I.ok(s, r)
            return outs
        for q in CREATE:
            I.hooks[q] = create

        def copy(I, st, fr, n, loc, av):
            if av[0][0] == 'ptr':
                st.ghost['content:' + repr(av[0][1])] = (av[1], av[2] if len(av) > 2 else None, n['n'])
            I.event(st, fr, n, n['n'], None, tuple(av))
            return I.ok(st, av[0])
        for q in ('strcpy', 'strncpy', 'memcpy', 'memmove', 'stpcpy'):
            I.hooks[q] = copy
        I.hooks['strlen'] = lambda I, st, fr, n, loc, av: I.ok(st, strlen(I, av[0]))

        def size(I, st, e):
            if e.name == 'std::make_unique' or e.name.startswith('operator new'):
                st.ghost['size'] = st.ghost.get('size', ()) + (e.args[0] if e.args else N1,)
        I.on_event = size
        return I

    def strlen(I, v):
        if v[0] == 'ref':
            v = ('init', v[1])
        a = ('app', 'strlen', v)
        I.bounds[a] = (0, (1 << 32) - 1)
        return a

    def pathval(I, s, l):
        v = I.load(s, l)
        return v

    def cls(C, what):
        flag = one(fields_of(P, C, lambda t: t.k == 'bool'), 'removal flag of ' + C)
        path = one(fields_of(P, C, lambda t: t.k == 'rec' and strip_targs(t.base) in ('std::unique_ptr', 'std::basic_string', 'std::shared_ptr') or t.k == 'ptr'), 'path of ' + C)
        # -------------------------------------------------- construction
        full = None
        for fn in c.fns(P, C + '::' + C.rsplit('::', 1)[-1]):
            if fn.ctor in ('copy', 'move'):
                continue
            I = mk(None)
            last = ('argv', fn.params[-1]['n'])
            pat = ('argv', fn.params[0]['n'])
            joined = len(fn.params) == 3
            outs = I.analyse(fn)
            lb = '%s(%d)' % (what, len(fn.params))
            seen = set()
            for s, k, v in outs:
                ev = [e for e in s.trace if e.name == 'create']
                c.ob('create', lb + ' once', len(ev) == 1, 'the %s is created by %d unique-name calls' % (what, len(ev)), fn.where())
                if len(ev) != 1:
                    continue
                e = ev[0]
                good = s.ghost.get('created')
                seen.add(good)
                buf = e.args[0]
                src = s.ghost.get('content:' + repr(buf[1])) if buf[0] == 'ptr' else None
                strc = I.load(s, buf[1][:-1]) if buf[0] == 'ptr' and src is None and buf[1][-1][0] == '[' else None
                private = buf[0] == 'ptr' and buf[1][0][0] in ('h', 'this') or strc is not None
                c.ob('pattern', lb + ' private', private and (src is not None or strc is not None), 'the unique-name call works on %s, not on a private copy of the pattern' % show(buf), where(e))
                if src is not None:
                    sv, cnt, how = src
                    c.ob('pattern', lb + ' from the argument', joined or sv == pat, 'the pattern copied is %s' % show(sv), where(e))
                    need = vadd(strlen(I, sv), N1)
                    sz = s.ghost.get('size', (N0,))
                    c.ob('pattern', lb + ' fits', any(I.entails(s, cmp_term('<=', need, x)) for x in sz), 'the buffer of %s bytes does not hold the pattern and its terminator' % [show(x) for x in sz], where(e))
                    if cnt is not None:
                        c.ob('pattern', lb + ' whole', I.entails(s, cmp_term('<=', need, cnt)), 'only %s bytes of the pattern are copied' % show(cnt), where(e))
                    if joined:
                        c.ob('pattern', lb + ' below the parent', mentions(sv, lambda x: x[0] == 'app' and x[1].endswith('::joinPath')
                                                                           and all(mentions(x, lambda y, p=p: y == ('argv', p['n']) or y == ('init', (('arg', p['n']),))) for p in fn.params[:2])),
                             'the pattern is not parent and name joined', where(e))
                cl = [x for x in s.trace if x.name == 'close']
                if what == 'file':
                    if good:
                        c.ob('create', lb + ' succeeds', k == 'v', 'construction fails although the file was created (it stays behind)', fn.where())
                        c.ob('descriptor', lb + ' closed once', len(cl) == 1 and cl[0].args[0] == e.ret, 'the descriptor of the created file is closed %d times' % len(cl), fn.where())
                    else:
                        c.ob('create', lb + ' reports failure', k == 'throw', 'construction does not fail although no file could be created', fn.where())
                        c.ob('descriptor', lb + ' none to close', not cl, 'a descriptor that was never obtained is closed', fn.where())
                else:
                    c.ob('create', lb + ' returns', k == 'v', 'construction of a directory object ends by %s' % k, fn.where())
                if k != 'v':
                    continue
                p = pathval(I, s, fld(path))
                if good:
                    own = p == buf or (strc is not None and buf[1][:-1] == fld(path))
                    c.ob('path', lb + ' is the created name', own, 'the path kept is %s, not the name that was created' % show(p), fn.where())
                elif what == 'directory':
                    c.ob('path', lb + ' none after failure', I.entails(s, cmp_term('==', p, N0)), 'a path is kept although the directory could not be created', fn.where())
                fl = I.load(s, fld(flag))
                c.ob('flag', lb + ' stored', I.entails(s, cmp_term('==', fl, last)) or fl == last, 'the removal flag becomes %s' % show(fl), fn.where())
            c.ob('create', lb + ' both outcomes', seen == {True, False}, 'creation is not attempted', fn.where())
        # -------------------------------------------------- destruction
        fn = c.fn(P, C + '::~' + C.rsplit('::', 1)[-1], 0)
        I = mk(None)
        outs = I.analyse(fn)
        fl0, p0 = ('init', fld(flag)), ('init', fld(path))
        for s, k, v in outs:
            rm = [e for e in s.trace if e.name in ('unlink', 'remove', 'std::remove', 'rmdir', 'nebula::fs::FileUtils::remove', 'std::filesystem::remove_all')]
            asked = I.decide(s, cmp_term('!=', fl0, N0))
            has = True if what == 'file' else I.decide(s, cmp_term('!=', p0, N0))
            if asked is None and has is not False:
                c.ob('remove', what + ' depends on the flag', False, 'destruction does the same whether or not removal was asked for', fn.where())
                continue
            if asked is False or has is False:
                c.ob('remove', what + ' kept', not rm, 'destruction removes a %s that is to be kept or was never created' % what, fn.where())
                continue
            if has is None:
                c.ob('remove', what + ' depends on the path', False, 'destruction does not tell whether the %s was created' % what, fn.where())
                continue
            c.ob('remove', what + ' once', len(rm) == 1, 'destruction removes the %s %d times' % (what, len(rm)), fn.where())
            for e in rm:
                a = e.args[0]
                c.ob('remove', what + ' the created path', a == p0 or mentions(a, lambda x: x == p0), 'destruction removes %s instead of the created path' % show(a), where(e))
                if what == 'directory':
                    c.ob('remove', 'directory with content', e.name.endswith('remove_all') or len(e.args) > 1 and e.args[1] == N1, 'destruction does not remove the content of the directory', where(e))
        fn = c.fn(P, C + '::path', 0)
        I = mk(None)
        for s, k, v in I.analyse(fn):
            c.ob('path', what + ' reported', k == 'v' and (v == p0 or mentions(v, lambda x: x == p0)), 'path() does not report the created path', fn.where())
    cls(F, 'file')
    cls(D, 'directory')
    c.need('create', 12)
    c.need('remove', 6)


main('C16', RULE, body)
