import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
import thriftgen

RULE = ('The error codes of the response type are compared, both ways, with the enumeration parsed from the interface definition, and the text function is evaluated for every code. '
        'Every factory of Status is evaluated down to the bytes of the state it builds: the block must hold the code of that factory, the length of the message and the message, inside its own bounds. '
        'On the resulting objects, and on copies, moved and assigned ones, every predicate, the code, the message and the text are evaluated: only the predicate of that code answers yes, the message is the one given, and the text is the name of the code followed by it. Equality is evaluated for every pair of codes.')
C = 'nebula::Status'
MAXLEN = 65535


def body(c):
    P = c.load(['base/Status.cpp', 'graph/Response.cpp'])
    # ------------------------------------------------------------ response codes
    en = P.enums.get('nebula::ErrorCode')
    if en is None:
        raise Broken('nebula::ErrorCode not found')
    idl = thriftgen.load(os.path.join(REPO, 'src/common/interface'))
    # the enumeration that the graph service's responses carry
    used = set()
    for sn, sd in idl['graph'].structs.items():
        for f in sd['fields']:
            t = f['t']['k']
            if isinstance(t, str) and t.split('.')[-1] == 'ErrorCode':
                used.add(t.split('.')[0] if '.' in t else 'graph')
    mod = one(sorted(used), 'error code types of graph.thrift')
    cs = idl[mod].enums['ErrorCode'][0]
    ours, theirs = dict((n, v) for n, v in en['consts']), dict(cs)
    for n in sorted(set(ours) | set(theirs)):
        c.ob('same number', n, ours.get(n) == theirs.get(n), 'error code %s is %s in the response type and %s in %s.thrift' % (n, ours.get(n, 'missing'), theirs.get(n, 'missing'), mod), 'src/common/graph/Response.h')
    for what, l in (('graph/Response.h', en['consts']), ('interface/%s.thrift' % mod, cs)):
        by = {}
        for n, v in l:
            by.setdefault(v, []).append(n)
        for v, ns in by.items():
            c.ob('one meaning', '%s %d' % (what, v), len(ns) == 1, 'number %d means %s in %s' % (v, ' and '.join(ns), what), 'src/common/' + what)
    fn = c.fn(P, 'nebula::errorCode', 1)
    for n, v in list(ours.items()) + [(None, 7), (None, -2 ** 31)]:
        I = c.interp(P)
        for st, k, r in I.analyse(fn, av=(num(v),)):
            c.ob('text of code', n or 'no code %d' % v, k == 'v' and (r == ('str', n) if n else r[0] == 'str' and r[1] not in ours), 'the text of error code %s is %s' % (n or v, show(r) if k == 'v' else k), fn.where())
    c.need('text of code', 100)

    # ------------------------------------------------------------------- Status
    codes = dict(P.enums[C + '::Code']['consts']) if C + '::Code' in P.enums else None
    if not codes:
        raise Broken('Status codes not found')
    by = {}
    for n, v in codes.items():
        by.setdefault(v, []).append(n)
    for v, ns in by.items():
        c.ob('one meaning', 'status %d' % v, len(ns) == 1, 'status code %d means %s' % (v, ' and '.join(ns)), 'src/common/base/Status.h')
    hdr = P.recs.get(C + '::Header')
    if hdr is None:
        raise Broken('Status::Header not found')
    ms = [f for f in P.methods_of[C] if f.body is not None or f.inits]
    isref = lambda f, k: len(f.params) == 1 and f.params[0]['t'].k == k and f.params[0]['t'].p.base == C
    preds = [f for f in ms if not f.params and f.ret.k in ('int', 'bool') and f.ret.w in (1, 8, None) and f.n != 'ok' and not f.d.get('static') and f.d.get('acc') == 0]
    preds = [f for f in preds if f.n.startswith('is')]
    facs = [f for f in ms if f.d.get('static') and f.ret.k == 'rec' and f.ret.base == C and f.d.get('acc') == 0 and not (len(f.params) == 1 and f.params[0]['t'].k in ('ref', 'rref'))]
    okf = c.fn(P, C + '::ok', 0)
    codef = c.fn(P, C + '::code', 0)
    msgf = c.fn(P, C + '::message', 0)
    txtf = one([f for f in ms if f.n == 'toString' and not f.params], 'Status::toString()')
    eqf = c.fn(P, C + '::operator==', 1)
    copyc = one([f for f in ms if f.d.get('ctor') and isref(f, 'ref')], 'copy constructors')
    movec = one([f for f in ms if f.d.get('ctor') and isref(f, 'rref')], 'move constructors')
    copya = one([f for f in ms if f.n == 'operator=' and isref(f, 'ref')], 'copy assignments')
    movea = one([f for f in ms if f.n == 'operator=' and isref(f, 'rref')], 'move assignments')
    given = ('sym', 'the text given', 0)
    glen = ('sym', 'length of the text given', 0)
    flen = ('sym', 'length of the formatted text', 0)

    def parts(v):
        while v[0] == 'agg':
            v = v[1]
        if v[0] == 'str':
            return () if v[1] == '' else (v,)
        if v[:2] == ('app', 'S'):
            return v[2]
        raise Unsupported('text %s' % show(v)[:100])

    def S(ps):
        out = []
        for p in ps:
            if p[0] == 'str' and out and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + p[1])
            else:
                out.append(p)
        return ('app', 'S', tuple(out))

    def interp():
        I = c.interp(P)
        I.exact_arith = I.exact_casts = True
        I.bounds[glen] = (0, 2 ** 40)
        I.bounds[flen] = (0, 255)

        # a block: ('h', ..)[0]; its text at ('.', '#text') = (text, length)
        def block(p):
            return p[1][:-1] + (('[', N0),) if p[0] == 'ptr' and p[1][0][0] == 'h' and p[1][-1][0] == '[' and len(p[1]) == 2 else None

        def off(p):
            return p[1][-1][1]
        first = [f for f in hdr.fields][0]

        def ptrcast(I, st, v, a, b):
            if v[0] == 'ptr' and block(v) and off(v) == N0 and b.k == 'ptr' and b.p.k == 'int' and b.p.w == 16:
                return ('ptr', v[1] + (('.', first['id']),))
            return v
        I.ptrcast = ptrcast

        def length(t):
            t = parts(t)
            n = N0
            for p in t:
                n = vadd(n, num(len(p[1])) if p[0] == 'str' else glen if p[1] == given else flen if p[1][:2] == ('app', 'formatted') else p[2])
            return n

        def textat(I, st, v):
            """the text that a pointer points at: (parts, whole length) or None"""
            v = I.argval(st, v)
            if v[0] == 'str':
                return ('app', 'S', parts(v))
            if v[0] == 'ptr' and v[1][0][0] == 'textdata':
                return v[1][0][1]
            if v[0] == 'ptr' and block(v) and off(v) == num(4):
                t = st.mem.get(block(v) + (('.', '#text'),))
                return t if t is not None else ('app', 'S', ())
            if v[0] == 'ptr' and block(v):
                I.event(st, None, None, 'misplaced', v[1])
                return ('app', 'S', (('cut', ('app', 'S', ()), off(v)),))
            if v[0] == 'ptr' and v[1][:-1] + (('.', '#text'),) in st.mem:
                return st.mem[v[1][:-1] + (('.', '#text'),)]
            return None

        def cut(t, n, st):
            """the first n characters of text t"""
            if I.entails(st, cmp_term('==', n, length(t))):
                return t
            if I.entails(st, cmp_term('==', n, N0)):
                return ('app', 'S', ())
            return ('app', 'S', (('cut', t, n),))

        def piece(I, st, fr, n, loc, av):
            if n.get('ck') in ('copy', 'move') or len(av) == 1 and n['pt'][0].strip_ref().base == 'folly::StringPiece':
                v = I.argval(st, av[0])
            else:
                v = I.argval(st, av[0])
                t = textat(I, st, v) if v[0] in ('str', 'ptr') else ('app', 'S', parts(v))
                if t is None:
                    raise Unsupported('piece of %s' % show(v)[:100])
                v = ('app', 'piece', t)
            st.mem[loc] = v
            return I.ok(st, VOID)
        I.hooks['ctor:folly::StringPiece'] = piece

        def ptext(I, st, loc):
            v = I.load(st, loc)
            while v[0] == 'agg':
                v = v[1]
            if v[:2] != ('app', 'piece'):
                raise Unsupported('piece %s' % show(v)[:100])
            return v[2]
        I.hooks['folly::StringPiece::size'] = lambda I, st, fr, n, loc, av: I.ok(st, length(ptext(I, st, loc)))
        I.hooks['folly::StringPiece::data'] = lambda I, st, fr, n, loc, av: I.ok(st, ('ptr', (('textdata', ptext(I, st, loc)),)))
        I.hooks['folly::StringPiece::begin'] = I.hooks['folly::StringPiece::data']
        I.hooks['folly::StringPiece::empty'] = lambda I, st, fr, n, loc, av: I.ok(st, cmp_term('==', length(ptext(I, st, loc)), N0))

        def newarr(st, p):
            return st.ghost.get('alloc', {}).get(p) if isinstance(st.ghost.get('alloc'), dict) else None

        def memcpy(I, st, fr, n, loc, av):
            d, s, k = [I.argval(st, a) for a in av]
            if d[0] != 'ptr' or not block(d):
                raise Unsupported('copy to %s' % show(d)[:80])
            b = block(d)
            t = textat(I, st, s) if not (s[0] == 'ptr' and block(s) and off(s) == N0 and off(d) == N0) else None
            if t is not None and off(d) == num(4):
                I.event(st, fr, n, 'bytes', b, (k, length(t)))
                st.mem[b + (('.', '#text'),)] = cut(t, k, st)
                st.mem[b + (('.', '#len'),)] = k
                return I.ok(st, av[0])
            if s[0] == 'ptr' and block(s) and off(s) == N0 and off(d) == N0:
                sb = block(s)
                sz = I.load(st, sb + (('.', first['id']),))
                I.event(st, fr, n, 'block', b, (k, vadd(sz, num(4))))
                for key, v in list(st.mem.items()):
                    if key[:len(sb)] == sb and len(key) > len(sb):
                        st.mem[b + key[len(sb):]] = v
                return I.ok(st, av[0])
            raise Unsupported('copy from %s to %s' % (show(s)[:80], show(d)[:80]))
        for q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
            I.hooks[q] = memcpy

        def copy_n(I, st, fr, n, loc, av):
            return memcpy(I, st, fr, n, loc, (av[2], av[0], av[1]))
        I.hooks['std::copy_n'] = copy_n

        def copyrange(I, st, fr, n, loc, av):
            a, b, d = [I.argval(st, x) for x in av]
            if a[0] == 'ptr' and a[1][0][0] == 'textdata' and b[0] == 'ptr' and b[1][0] == a[1][0]:
                o = lambda v: v[1][1][1] if len(v[1]) > 1 and v[1][1][0] == '[' else N0
                return memcpy(I, st, fr, n, loc, (d, a, vadd(o(b), vmul(num(-1), o(a)))))
            raise Unsupported('copy of %s' % show(a)[:80])
        I.hooks['std::copy'] = copyrange

        def make_unique(I, st, fr, n, loc, av):
            t = n.get('t')
            if t is None or not t.targs or getattr(t.targs[0], 'k', '') != 'array':
                return None
            h = (('h', I.counter, 'char'), ('[', N0))
            I.fresh('block')
            I.event(st, fr, n, 'operator new[]', None, (I.argval(st, av[0]),))
            return I.ok(st, ('ptr', h))
        I.hooks['std::make_unique'] = make_unique

        # strings
        def strctor(I, st, fr, n, loc, av):
            if not av or n['pt'] and n['pt'][0].base.startswith('std::allocator'):
                st.mem[loc] = ('app', 'S', ())
                return I.ok(st, VOID)
            v = I.argval(st, av[0])
            if v[0] in ('str', 'ptr'):
                t = textat(I, st, v)
                if t is None:
                    raise Unsupported('string from %s' % show(v)[:80])
                k = I.argval(st, av[1]) if len(av) > 1 and n['pt'][1].k == 'int' else None
                if k is not None:
                    if v[0] == 'ptr':
                        I.event(st, fr, n, 'bytes', loc, (k, length(t)))
                    t = cut(t, k, st)
                elif v[0] == 'ptr' and block(v):
                    I.event(st, fr, n, 'unterminated', loc)
            else:
                t = ('app', 'S', parts(v))
            st.mem[loc] = t
            return I.ok(st, VOID)
        I.hooks['ctor:std::basic_string'] = strctor
        I.hooks['dtor:std::basic_string'] = I.hooks['dtor:std::allocator'] = I.hooks['ctor:std::allocator'] = None
        for q in ('dtor:std::basic_string', 'dtor:std::allocator'):
            I.hooks[q] = lambda I, st, fr, loc, t: I.ok(st, VOID)
        I.hooks['ctor:std::allocator'] = lambda I, st, fr, n, loc, av: (st.mem.__setitem__(loc, ('app', 'allocator')), I.ok(st, VOID))[1]

        def append(I, st, fr, n, loc, av):
            v = I.argval(st, av[0])
            if v[0] in ('str', 'ptr'):
                t = textat(I, st, v)
                if t is None:
                    raise Unsupported('append of %s' % show(v)[:80])
                k = I.argval(st, av[1]) if len(av) > 1 else None
                if k is not None:
                    if v[0] == 'ptr':
                        I.event(st, fr, n, 'bytes', loc, (k, length(t)))
                    t = cut(t, k, st)
                elif v[0] == 'ptr' and block(v):
                    I.event(st, fr, n, 'unterminated', loc)
            elif v[0] == 'n':
                t = ('app', 'S', (('str', chr(v[1] & 255)),))
            else:
                t = ('app', 'S', parts(v))
            st.mem[loc] = S(parts(I.load(st, loc)) + parts(t))
            return I.ok(st, ('ref', loc))
        for m in ('append', 'operator+=', 'push_back'):
            I.hooks['std::basic_string::' + m] = append

        def plus(I, st, fr, n, loc, av):
            ts = []
            for a in av:
                v = I.argval(st, a)
                t = textat(I, st, v) if v[0] in ('str', 'ptr') else v
                ts += list(parts(t if t is not None else v))
            return I.ok(st, S(ts))
        I.hooks['std::operator+'] = plus
        def put(I, st, fr, n, loc, av):
            o = loc if loc is not None else av[0][1]
            v = I.argval(st, av[-1])
            t = textat(I, st, v) if v[0] in ('str', 'ptr') else v
            st.mem[o] = S(parts(I.load(st, o)) + parts(t if t is not None else v))
            return I.ok(st, ('ref', o))
        for q in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream'):
            I.hooks[q + '::operator<<'] = put
            I.hooks['ctor:' + q] = lambda I, st, fr, n, loc, av: (st.mem.__setitem__(loc, ('app', 'S', ())), I.ok(st, VOID))[1]
            I.hooks['dtor:' + q] = lambda I, st, fr, loc, t: I.ok(st, VOID)
            I.hooks[q + '::str'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'S', parts(I.load(st, loc))))
        I.hooks['std::operator<<'] = put
        I.hooks['std::basic_string::empty'] = lambda I, st, fr, n, loc, av: I.ok(st, cmp_term('==', length(I.load(st, loc)), N0))
        I.hooks['std::basic_string::reserve'] = lambda I, st, fr, n, loc, av: I.ok(st, VOID)
        I.hooks['std::basic_string::size'] = I.hooks['std::basic_string::length'] = lambda I, st, fr, n, loc, av: I.ok(st, length(I.load(st, loc)))
        I.hooks['std::basic_string::data'] = I.hooks['std::basic_string::c_str'] = lambda I, st, fr, n, loc, av: I.ok(st, ('ptr', (('textdata', ('app', 'S', parts(I.load(st, loc)))),)))

        def vsnprintf(I, st, fr, n, loc, av):
            b, k, f = [I.argval(st, a) for a in av[:3]]
            if b[0] != 'ptr' or k[0] != 'n':
                raise Unsupported('formatting into %s' % show(b)[:80])
            I.event(st, fr, n, 'format', b[1], (k,))
            st.mem[b[1][:-1] + (('.', '#text'),)] = ('app', 'S', (('text', ('app', 'formatted', f)),))
            return I.ok(st, ('sym', 'formatted', 0))
        I.hooks['vsnprintf'] = I.hooks['std::vsnprintf'] = vsnprintf
        return I

    def text_ok(s, v, want):
        I = interp()
        full = lambda ps: tuple(p for p in ps if p[0] == 'str' or not I.entails(s, cmp_term('==', glen if p[1] == given else flen if p[0] == 'text' else p[2], N0)))
        return v[:2] == ('app', 'S') and full(v[2]) == full(want)

    OBJ, OBJ2 = (('object',),), (('other',),)
    built = {}

    def sizes(I, st, tag, fn):
        """copies stay within what they copy from and into"""
        for e in st.trace:
            if e.name == 'bytes':
                c.ob('bounds', tag, I.entails(st, cmp_term('<=', e.args[0], e.args[1])), '%s copies more characters than the text has' % tag, where(e))
            elif e.name == 'block':
                c.ob('bounds', tag, I.entails(st, cmp_term('==', e.args[0], e.args[1])), '%s does not copy the whole state' % tag, where(e))
            elif e.name == 'misplaced':
                c.ob('bounds', tag, False, '%s takes other bytes than those of the message' % tag, fn.where())
            elif e.name == 'unterminated':
                c.ob('bounds', tag, False, '%s reads a message that has no terminator' % tag, where(e))

    def judge(tag, name, value, I, st, loc, want, fn):
        """the object at loc is a status of the given kind with the given message"""
        def run(f, **kw):
            J = interp()
            outs = J.analyse(f, this=loc, state=st.copy(), **kw)
            for s, k, v in outs:
                c.ob('total', '%s %s' % (tag, f.n), k == 'v', '%s of %s ends by %s' % (f.n, tag, k), f.where())
                sizes(J, s, '%s of %s' % (f.n, tag), f)
            return [(s, J.load(s, v[1]) if v[0] == 'ref' else v) for s, k, v in outs if k == 'v']
        truth = lambda s, v: I.entails(s, cmp_term('!=', v, N0))
        false = lambda s, v: I.entails(s, cmp_term('==', v, N0))
        for s, v in run(okf):
            c.ob('ok', tag, truth(s, v) if value == 0 else false(s, v), '%s is %sok' % (tag, 'not ' if value == 0 else ''), okf.where())
        for s, v in run(codef):
            c.ob('code', tag, v == num(value), 'the code of %s is %s' % (tag, show(v)), codef.where())
        for p in preds:
            for s, v in run(p):
                mine = p.n == 'is' + name
                c.ob('predicate', '%s %s' % (tag, p.n), truth(s, v) if mine else false(s, v), '%s() of %s is %s' % (p.n, tag, 'false' if mine else 'true'), p.where())
        if want is not None:
            for s, v in run(msgf):
                c.ob('message', tag, text_ok(s, v, want), 'the message of %s is %s' % (tag, show(v)[:120]), msgf.where())
            for s, v in run(txtf):
                head = (('str', 'OK'),) if value == 0 else () if name == 'Error' else (('str', name + ': '),)
                c.ob('text', tag, text_ok(s, v, head + want), 'the text of %s is %s' % (tag, show(v)[:120]), txtf.where())

    names = {}
    for f in facs:
        names.setdefault(f.n, []).append(f)
    for n, v in sorted(codes.items(), key=lambda x: x[1]):
        nm = n[1:]
        if v:
            c.ob('complete', n, nm in names and any(p.n == 'is' + nm for p in preds), 'status code %s lacks a factory or a predicate' % n, 'src/common/base/Status.h')
    for nm, fs in sorted(names.items()):
        value = 0 if nm == 'OK' else codes.get('k' + nm)
        if value is None:
            raise Unsupported('factory %s has no code of its name' % nm)
        for f in fs:
            kind = 'plain' if not f.params else 'piece' if f.params[0]['t'].k == 'rec' else 'format'
            tag = '%s(%s)' % (nm, {'plain': '', 'piece': 'text', 'format': 'format, ...'}[kind])
            I = interp()
            st = State()
            av = ()
            if kind == 'piece':
                av = (('app', 'piece', ('app', 'S', (('text', given),))),)
            elif kind == 'format':
                av = (('sym', 'the format', 0),)
            full = 0
            for s, k, v in I.analyse(f, av=av, state=st):
                c.ob('total', tag, k == 'v', '%s ends by %s' % (tag, k), f.where())
                if k != 'v':
                    continue
                sizes(I, s, tag, f)
                for e in s.trace:
                    if e.name == 'format':
                        c.ob('bounds', tag + ' format', e.args[0][1] <= buffer_size(f, P, e), '%s formats into a buffer that is too small' % tag, where(e))
                I.store(s, OBJ, v)
                b = I.load(s, OBJ + (('.', 'state_'),))
                short = I.entails(s, cmp_term('<=', glen, num(MAXLEN)))
                want = () if kind == 'plain' or nm == 'OK' else (('text', given),) if kind == 'piece' else (('text', ('app', 'formatted', ('sym', 'the format', 0))),)
                if kind == 'piece' and not short and lin_ok(I, s, cmp_term('<=', glen, num(MAXLEN))):
                    # the paths do not tell short messages from long ones: look at the short ones
                    I.assume(s, cmp_term('<=', glen, num(MAXLEN)))
                    short = True
                if b != N0:
                    h = b[1][:-1] + (('[', N0),) if b[0] == 'ptr' else None
                    sz = I.load(s, h + (('.', hdr.fields[0]['id']),))
                    ln = s.mem.get(h + (('.', '#len'),), N0)
                    c.ob('length', tag, I.entails(s, cmp_term('==', sz, ln)), '%s notes another length than it copies' % tag, f.where())
                    al = [e for e in s.trace if e.name == 'operator new[]']
                    c.ob('bounds', tag + ' block', bool(al) and I.entails(s, cmp_term('>=', al[-1].args[0], vadd(ln, num(4)))), '%s allocates too little' % tag, f.where())
                s.trace = () if isinstance(s.trace, tuple) else []
                full += short or kind != 'piece'
                judge(tag, nm, value, I, s, OBJ, want if short or kind != 'piece' else None, f)
                if kind == 'piece' and short or nm == 'OK' or kind == 'plain' and nm == 'Error':
                    built[nm] = (value, s.copy(), want)
            c.ob('short', tag, full > 0, '%s never keeps a message' % tag, f.where())

    # ------------------------------------------------------- copies and moves
    some = [n for n in ('OK', 'Error', 'ListenerNotFound') if n in built]
    for nm in some:
        value, st0, want = built[nm]
        for f, what in ((copyc, 'a copy'), (movec, 'a moved'), (copya, 'a copy assigned'), (movea, 'a move assigned')):
            for prior in (N0, 'other') if f in (copya, movea) else (None,):
                I = interp()
                st = st0.copy()
                tgt = OBJ2
                if prior is not None:
                    if prior == N0:
                        st.mem[tgt + (('.', 'state_'),)] = N0
                    else:
                        # the target holds another error
                        ob = (('h', 9999, 'char'), ('[', N0))
                        st.mem[tgt + (('.', 'state_'),)] = ('ptr', ob)
                        st.mem[ob + (('.', hdr.fields[0]['id']),)] = N0
                        st.mem[ob + (('.', hdr.fields[1]['id']),)] = num(codes['kNoSuchFile'])
                        st.mem[ob + (('.', '#text'),)] = ('app', 'S', ())
                tag = '%s %s%s' % (what, nm, ' over another error' if prior == 'other' else '')
                for s, k, v in I.analyse(f, this=tgt, av=(('ref', OBJ),), state=st):
                    c.ob('total', tag, k == 'v', 'making %s status ends by %s' % (tag, k), f.where())
                    if k != 'v':
                        continue
                    sizes(I, s, tag, f)
                    for e in s.trace:
                        if e.name == 'operator new[]':
                            bl = [x for x in s.trace if x.name == 'block']
                            c.ob('bounds', tag + ' block', all(I.entails(s, cmp_term('>=', e.args[0], x.args[0])) for x in bl), '%s allocates too little' % tag, f.where())
                    s.trace = () if isinstance(s.trace, tuple) else []
                    judge(tag + ' status', nm, value, I, s, tgt, want, f)
                    if f in (copyc, copya):
                        judge(tag + ' status: the original', nm, value, I, s, OBJ, want, f)
                        a, b = I.load(s, tgt + (('.', 'state_'),)), I.load(s, OBJ + (('.', 'state_'),))
                        c.ob('own state', tag, a == N0 or a != b, '%s status shares its state with the original' % tag, f.where())

    # ---------------------------------------------------------------- equality
    def make(st, loc, no, value):
        if value == 0:
            st.mem[loc + (('.', 'state_'),)] = N0
            return
        ob = (('h', no, 'char'), ('[', N0))
        st.mem[loc + (('.', 'state_'),)] = ('ptr', ob)
        st.mem[ob + (('.', hdr.fields[0]['id']),)] = ('sym', 'length %d' % no, 0)
        st.mem[ob + (('.', hdr.fields[1]['id']),)] = num(value)
    for a in codes.values():
        for b in codes.values():
            I = interp()
            st = State()
            make(st, OBJ, 9001, a)
            make(st, OBJ2, 9002, b)
            for s, k, v in I.analyse(eqf, this=OBJ, av=(('ref', OBJ2),), state=st):
                c.ob('equal', '%d and %d' % (a, b), k == 'v' and (I.entails(s, cmp_term('!=', v, N0)) if a == b else I.entails(s, cmp_term('==', v, N0))), 'statuses with codes %d and %d are %s' % (a, b, 'different' if a == b else 'equal'), eqf.where())
    c.need('predicate', 1000)


def lin_ok(I, st, cond):
    s = st.copy()
    return I.assume(s, cond)


def buffer_size(f, P, e):
    """size of the local array that is formatted into"""
    v = e.recv[0]
    for g in P.find('nebula::Status::format') + [f]:
        for x in walk(g.body):
            if x.get('k') == 'Decl':
                for d in x['v']:
                    if d['t'] is not None and d['t'].k == 'array' and v[-1] == d['n']:
                        return d['t'].n
    raise Unsupported('buffer %s' % (v,))


main('C09', RULE, body, ['a formatted message is shorter than the buffer it is formatted into, or cut there'])
