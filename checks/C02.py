import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from valmodel import Model, tname

RULE = ('Ownership typestate of the tagged union: every constructor, assignment, setter, accessor, the destructor and every other member of Value is followed on all paths from every type the value (and the value it is '
        'given, itself included) can have. A ghost records which union member is alive, which heap object each owning member holds and which of them have been freed: a member is created only where no owning member is alive, '
        'read and destroyed only while alive, heap objects are freed exactly once and never read afterwards, and at the end the tag names the member that is alive and holds the content of the corresponding source. '
        'Which tag belongs to which member is taken from the checked getters. Arguments are also placed inside the payload being replaced.')
V = 'nebula::Value'
NESTING = {'nebula::List', 'nebula::Map', 'nebula::Set', 'nebula::DataSet', 'nebula::Vertex', 'nebula::Edge', 'nebula::Path'}


class World:
    def __init__(self, c, M):
        self.M = M
        self.bad = []
        I = self.I = c.interp(M.P)
        I.exact_casts = True
        for p in M.paycls:
            I.hooks['ctor:' + p] = self.pay_ctor
            I.hooks[p + '::operator='] = self.pay_assign
            I.hooks['dtor:' + p] = self.pay_dtor
            I.hooks[p + '::~' + p.rsplit('::')[-1]] = self.explicit
            I.hooks[p + '::clear'] = self.pay_clear
            I.hooks[p + '::__clear'] = self.pay_clear
            I.hooks[p + '::swap'] = self.pay_swap
        I.hooks['ctor:std::unique_ptr'] = self.up_ctor
        I.hooks['dtor:std::unique_ptr'] = self.up_dtor
        I.hooks['std::unique_ptr::~unique_ptr'] = self.explicit
        I.hooks['std::unique_ptr::operator='] = self.up_assign
        I.hooks['std::unique_ptr::reset'] = self.up_reset
        I.hooks['std::unique_ptr::swap'] = self.pay_swap
        I.hooks['std::make_unique'] = self.make_unique
        I.hooks['dtor:' + V] = self.value_dtor
        I.hooks['std::swap'] = self.swap2
        I.hooks['std::exchange'] = self.exchange
        I.on_pseudo = lambda I, st, fr, n, loc: self.end(st, fr, n, loc)
        I.on_write = self.write
        I.on_read = self.read

    # ---- ghosts: act[value loc] = member or None; freed = frozenset of heap locs
    def act(self, st, base):
        return dict(st.ghost.get('act', frozenset())).get(base)

    def setact(self, st, base, m):
        d = dict(st.ghost.get('act', frozenset()))
        d[base] = m
        st.ghost['act'] = frozenset(d.items())

    def err(self, what, n=None, fr=None):
        self.bad.append(what)

    def slot(self, loc):
        """(value location, member, rest) of a location in the union of a value"""
        if loc[0][0] not in ('this', 'arg', 'heap', 'h', 'v', 't', 'ret'):
            return None         # constants
        for i in range(len(loc) - 2, -1, -1):
            if loc[i] == ('.', self.M.u) and loc[i + 1][0] == '.' and loc[i + 1][1] in self.M.members:
                return loc[:i], loc[i + 1][1], loc[i + 2:]
        return None

    def is_slot(self, loc):
        s = self.slot(loc)
        return s is not None and s[2] == ()

    def freed_at(self, st, loc):
        return any(loc[:1] == h[:1] for h in st.ghost.get('freed', ()))

    def quiet_store(self, st, loc, v):
        w, self.I.on_write = self.I.on_write, None
        self.I.store(st, loc, v)
        self.I.on_write = w

    def activate(self, st, loc, n=None, fr=None):
        s = self.slot(loc)
        if s is None or s[2]:
            return
        b, m, _ = s
        a = self.act(st, b)
        if a is not None and self.M.owning(a):
            self.err('creates %s in storage where %s is still alive' % (self.nm(b, m), self.nm(b, a)), n, fr)
        self.setact(st, b, m)

    def nm(self, b, m):
        return '%s of %s' % (m, 'the value' if b == THIS else showloc(b))

    def touch(self, st, loc, what, n=None, fr=None):
        if self.freed_at(st, loc):
            self.err('%s memory of a payload already destroyed' % what, n, fr)
            return
        s = self.slot(loc)
        if s is not None:
            b, m, _ = s
            if self.act(st, b) != m:
                self.err('%s %s, which is not alive' % (what, self.nm(b, m)), n, fr)

    def read(self, I, st, loc, node):
        self.touch(st, loc, 'reads', node)

    def write(self, I, st, loc, v, node):
        if self.freed_at(st, loc):
            self.err('writes memory of a payload already destroyed')
            return
        s = self.slot(loc)
        if s is not None and not s[2]:
            # initialised from the result of a call, or a scalar written
            self.activate(st, loc)

    # ---- payload objects: their memory value is their content
    def content(self, st, a, move):
        if a[0] == 'ptr':
            self.touch(st, a[1], 'reads')
        if a[0] != 'ref':
            return a
        loc = a[1]
        self.touch(st, loc, 'reads')
        r, self.I.on_read = self.I.on_read, None
        v = self.I.load(st, loc)
        self.I.on_read = r
        if move:
            self.quiet_store(st, loc, ('moved', v))
        return v

    def pay_ctor(self, I, st, fr, n, loc, av):
        pts = n.get('pt') or []
        same = n.get('ck') in ('copy', 'move')
        vals = []
        for i, a in enumerate(av):
            t = pts[i] if i < len(pts) else None
            vals.append(self.content(st, a, t is not None and t.k == 'rref' and t.strip_ref().k == 'rec'))
        self.activate(st, loc, n, fr)
        cls = strip_targs(n['t'].base) if n.get('t') is not None and n['t'].k == 'rec' else '?'
        self.quiet_store(st, loc, vals[0] if same and len(vals) >= 1 else ('app', 'new:' + cls) + tuple(vals))
        return I.ok(st, VOID)

    def pay_assign(self, I, st, fr, n, loc, av):
        self.touch(st, loc, 'assigns to')
        t = (n.get('pt') or [None])[0]
        v = self.content(st, av[0], t is not None and t.k == 'rref')
        self.quiet_store(st, loc, v)
        return I.ok(st, ('ref', loc))

    def pay_clear(self, I, st, fr, n, loc, av):
        self.touch(st, loc, 'clears')
        self.quiet_store(st, loc, ('app', 'cleared'))
        return I.ok(st, VOID)

    def pay_swap(self, I, st, fr, n, loc, av):
        return self.swap2(I, st, fr, n, None, [('ref', loc), av[0]])

    def swap2(self, I, st, fr, n, loc, av):
        if len(av) != 2 or av[0][0] != 'ref' or av[1][0] != 'ref':
            return None
        t = (n.get('pt') or [None])[0]
        if t is not None and t.strip_ref().k == 'rec' and t.strip_ref().rec == V:
            return None
        x, y = self.content(st, av[0], False), self.content(st, av[1], False)
        self.quiet_store(st, av[0][1], y)
        self.quiet_store(st, av[1][1], x)
        return I.ok(st, VOID)

    def exchange(self, I, st, fr, n, loc, av):
        return None

    def pay_dtor(self, I, st, fr, loc, t):
        self.end(st, fr, None, loc)
        return I.ok(st, VOID)

    def explicit(self, I, st, fr, n, loc, av):
        cls = strip_targs(n['q'])
        if 'unique_ptr' in cls:
            return self.up_dtor(I, st, fr, loc, None)
        self.end(st, fr, n, loc)
        return I.ok(st, VOID)

    def end(self, st, fr, n, loc):
        """the lifetime of the object at loc ends"""
        if self.freed_at(st, loc):
            self.err('destroys memory of a payload already destroyed')
            return
        s = self.slot(loc)
        if s is not None and not s[2]:
            b, m, _ = s
            if self.act(st, b) != m:
                self.err('destroys %s, which is not alive' % self.nm(b, m), n, fr)
            if self.act(st, b) == m:
                self.setact(st, b, None)

    # ---- owning pointers
    def take(self, st, a, n):
        """pointer out of a constructor or assignment argument"""
        if a[0] == 'ref':
            self.touch(st, a[1], 'reads')
            r, self.I.on_read = self.I.on_read, None
            p = self.I.load(st, a[1])
            self.I.on_read = r
            t = (n.get('pt') or [None])[0]
            if t is None or t.k in ('rref', 'rec'):
                self.quiet_store(st, a[1], N0)
            return p
        return a

    def up_ctor(self, I, st, fr, n, loc, av):
        p = self.take(st, av[0], n) if av else N0
        self.activate(st, loc, n, fr)
        self.quiet_store(st, loc, p)
        return I.ok(st, VOID)

    def release(self, st, p):
        if p == N0 or p[0] != 'ptr':
            if p != N0:
                self.err('destroys an unknown pointer (%s)' % show(p))
            return
        h = p[1]
        f = st.ghost.get('freed', frozenset())
        if any(h[:1] == x[:1] for x in f):
            self.err('frees a payload twice')
        st.ghost['freed'] = f | {h}
        # values inside the payload are destroyed with it
        for b, m in st.ghost.get('act', frozenset()):
            if b[:1] == h[:1] and m is not None and self.M.owning(m):
                r, self.I.on_read = self.I.on_read, None
                q = self.I.load(st, b + (('.', self.M.u), ('.', m)))
                self.I.on_read = r
                if q[0] == 'ptr' and q[1][:1] != h[:1]:
                    self.release(st, q)

    def up_dtor(self, I, st, fr, loc, t):
        s = self.slot(loc)
        if self.freed_at(st, loc):
            self.err('destroys memory of a payload already destroyed')
            return I.ok(st, VOID)
        if s is not None and not s[2] and self.act(st, s[0]) != s[1]:
            self.err('destroys %s, which is not alive' % self.nm(s[0], s[1]))
            return I.ok(st, VOID)
        r, I.on_read = I.on_read, None
        p = I.load(st, loc)
        I.on_read = r
        self.release(st, p)
        if s is not None and not s[2]:
            self.setact(st, s[0], None)
        self.quiet_store(st, loc, N0)
        return I.ok(st, VOID)

    def up_assign(self, I, st, fr, n, loc, av):
        self.touch(st, loc, 'assigns to')
        r, I.on_read = I.on_read, None
        old = I.load(st, loc)
        I.on_read = r
        p = self.take(st, av[0], n)
        if old != p:
            self.release(st, old)
        self.quiet_store(st, loc, p)
        return I.ok(st, ('ref', loc))

    def up_reset(self, I, st, fr, n, loc, av):
        self.touch(st, loc, 'resets')
        r, I.on_read = I.on_read, None
        old = I.load(st, loc)
        I.on_read = r
        p = I.argval(st, av[0]) if av else N0
        self.quiet_store(st, loc, p)
        self.release(st, old)
        return I.ok(st, VOID)

    def make_unique(self, I, st, fr, n, loc, av):
        t = n.get('t')
        if t is None or not t.targs:
            return None
        I.counter += 1
        h = (('h', I.counter, t.targs[0].s),)
        pts = n.get('pt') or []
        vals = [self.content(st, a, i < len(pts) and pts[i] is not None and pts[i].k == 'rref' and pts[i].strip_ref().k == 'rec') for i, a in enumerate(av)]
        self.quiet_store(st, h, vals[0] if len(vals) == 1 else ('app', 'new:' + strip_targs(t.targs[0].s)) + tuple(vals))
        return I.ok(st, ('ptr', h))

    def value_dtor(self, I, st, fr, loc, t):
        if self.freed_at(st, loc):
            self.err('destroys memory of a payload already destroyed')
        return None


def body(c):
    P = c.load(['datatypes/Value.cpp'], witness=['datatypes.cpp'])
    M = Model(c, P)
    fns = [f for f in P.methods_of.get(V, []) if (f.body is not None or f.inits or f.ctor) and not f.d.get('implicit') and not f.d.get('static')]
    TAGS = {}           # member or None -> tag value

    enums = [e for q, e in P.enums.items() if q == V + '::Type']
    codes = [int(v['big']) if isinstance(v, dict) else v for _, v in enums[0]['consts']]
    if len(codes) != len(M.members) + 1:
        raise Broken('%d types for %d payloads' % (len(codes), len(M.members)))

    def sig(f):
        s = '%s(%s)' % (f.n, ', '.join(p['t'].s.replace('nebula::', '').replace('std::basic_string<char>', 'string') for p in f.params))
        return s + (' const' if f.d.get('const') else '')

    def setup(W, st, loc, m, who, code=None):
        I = W.I
        W.quiet_store(st, loc + (('.', M.tag),), num(code) if code is not None else TAGS[m])
        W.setact(st, loc, m)
        if m is None:
            return
        s = loc + (('.', M.u), ('.', m))
        tok = ('str', who)
        if M.owning(m):
            h = (('heap', who),)
            W.quiet_store(st, s, ('ptr', h))
            W.quiet_store(st, h, tok)
        else:
            W.quiet_store(st, s, token(M.members[m], tok, I))

    def token(t, tok, I):
        if t.k == 'rec':
            return tok
        v = ('sym', tok[1], 0)
        I.typed(v, t)
        return v

    def expect(m, who, I):
        return token(M.members[m], ('str', who), I) if not M.owning(m) else ('str', who)

    def held(W, st, loc, m):
        """content of member m of the value at loc"""
        s = loc + (('.', M.u), ('.', m))
        r, W.I.on_read = W.I.on_read, None
        v = W.I.load(st, s, M.members[m])
        out = None
        if M.owning(m):
            if v[0] != 'ptr':
                out = None
            elif W.freed_at(st, v[1]):
                out = ('app', 'freed')
            else:
                out = W.I.load(st, v[1])
        else:
            out = v
        W.I.on_read = r
        return out

    def state(W, st, loc, what, m='any', want=None):
        """problems with the value at loc: its tag must name what is alive"""
        bad = []
        r, W.I.on_read = W.I.on_read, None
        tag = W.I.load(st, loc + (('.', M.tag),))
        W.I.on_read = r
        a = W.act(st, loc)
        said = [k for k, v in TAGS.items() if v == tag]
        if len(said) != 1:
            return ['%s has the type %s' % (what, show(tag))], None
        said = said[0]
        if said is None and a is not None and not M.owning(a):
            a = None
        if said != a:
            bad.append('%s is tagged %s while %s is alive' % (what, said or 'empty', a or 'nothing'))
        elif m != 'any' and said != m:
            bad.append('%s is %s instead of %s' % (what, said or 'empty', m or 'empty'))
        elif said is not None:
            got = held(W, st, loc, said)
            if got is None:
                bad.append('%s has no payload' % what)
            elif got == ('app', 'freed'):
                bad.append('%s holds a payload already destroyed' % what)
            elif want is not None and not want(got):
                bad.append('%s holds %s' % (what, show(got)))
        return bad, said

    def leaks(W, st, locs):
        """heap objects nobody owns any more"""
        owned = set()
        r, W.I.on_read = W.I.on_read, None
        for b in locs:
            m = W.act(st, b)
            if m is not None and M.owning(m):
                v = W.I.load(st, b + (('.', M.u), ('.', m)))
                if v[0] == 'ptr':
                    if v[1][:1] in owned:
                        W.bad.append('two values own one payload')
                    owned.add(v[1][:1])
        for l, v in st.mem.items():
            if v[0] == 'ptr' and l[0][0] == 'arg' and not W.slot(l):
                owned.add(v[1][:1])
        W.I.on_read = r
        out = []
        live = {l[:1] for l in st.mem if l[0][0] in ('heap', 'h')}
        fr = {h[:1] for h in st.ghost.get('freed', ())}
        for l in live - fr - owned:
            if l[0][0] == 'heap' and l[0][1].startswith('outer'):
                continue
            out.append('a payload is never destroyed')
        return out

    def run(f, m, args, code=None, fresh=False):
        """args: ('value', member) ('self',) ('inside', ) ('elem', who) ('elem-inside',) ('char',) """
        W = World(c, M)
        I = W.I
        st = State()
        W.locs = [THIS]
        if fresh:
            W.setact(st, THIS, None)
        else:
            setup(W, st, THIS, m, 'own payload', code)
        av = []
        for i, (p, k) in enumerate(zip(f.params, args)):
            t = p['t']
            loc = (('arg', 'a%d' % i),)
            if k[0] == 'value':
                setup(W, st, loc, k[1], 'payload of the argument')
                W.locs.append(loc)
                av.append(('ref', loc))
            elif k[0] == 'self':
                av.append(('ref', THIS))
                loc = THIS
            elif k[0] == 'inside':
                loc = (('heap', 'own payload'), ('.', 'element'))
                setup(W, st, loc, k[1], 'payload of the argument')
                av.append(('ref', loc))
            elif k[0] in ('elem', 'elem-inside'):
                if k[0] == 'elem-inside':
                    loc = (('heap', 'own payload'), ('.', 'part'))
                if t.k == 'rec' or t.strip_ref().k == 'rec':
                    s = t.strip_ref() if t.k in ('ref', 'rref') else t
                    if strip_targs(s.base) == 'std::unique_ptr':
                        h = (('heap', 'argument'),)
                        W.quiet_store(st, h, ('str', 'argument'))
                        W.quiet_store(st, loc, ('ptr', h))
                    else:
                        W.quiet_store(st, loc, ('str', 'argument'))
                    av.append(('ref', loc))
                elif t.k in ('ref', 'rref'):
                    v = ('sym', 'argument', 0)
                    I.typed(v, t)
                    W.quiet_store(st, loc, v)
                    av.append(('ref', loc))
                elif t.k == 'ptr':
                    v = ('ptr', loc + (('[', N0),))
                    W.quiet_store(st, loc + (('[', N0),), ('str', 'argument'))
                    av.append(v)
                else:
                    v = ('sym', 'argument', 0)
                    I.typed(v, t)
                    av.append(v)
            W.argloc = loc
        W.argvals = av
        outs = I.analyse(f, this=THIS, av=tuple(av), state=st)
        return W, [o for o in outs if not lin.infeasible(o[0].cons)]

    # ------------------------------------------------ which tag belongs to which member
    getters = {}
    for f in fns:
        if f.params or f.ctor or f.dtor or f.ret.k not in ('ref', 'ptr') or f.ret.strip_ref().rec == V or not const_method(f):
            continue
        x = f.ret.strip_ref() if f.ret.k == 'ref' else f.ret.p
        m = M.pay.get(tname(x))
        if m is None or f.ret.k == 'ptr':
            continue
        ok = []
        mine = False
        for code in codes:
            W = World(c, M)
            st = State()
            W.quiet_store(st, THIS + (('.', M.tag),), num(code))
            W.setact(st, THIS, m)
            setup_slot(W, st, M, m)
            outs = [o for o in W.I.analyse(f, this=THIS, state=st) if not lin.infeasible(o[0].cons)]
            if any(k != 'abort' for s, k, v in outs):
                ok.append(code)
            mine = mine or any(k != 'abort' and v is not None and v[0] == 'ref' and v[1][0] in (THIS[0], ('heap', 'own payload')) for s, k, v in outs)
        if not mine:
            continue
        getters.setdefault(m, []).append((f, ok))
    for m in M.members:
        gs = getters.get(m, [])
        c.ob('typed-read', 'getter of %s' % m, len(gs) >= 1 and all(len(ok) == 1 for f, ok in gs),
             'the getter of %s answers for %s types' % (m, [len(ok) for f, ok in gs]), gs[0][0].where() if gs else '')
        if gs and all(len(ok) == 1 for f, ok in gs):
            TAGS[m] = num(gs[0][1][0])
    rest = [x for x in codes if num(x) not in TAGS.values()]
    c.ob('typed-read', 'one tag per payload', len(set(TAGS.values())) == len(M.members) and len(rest) == 1, 'the getters use %d tags for %d payloads' % (len(set(TAGS.values())), len(M.members)), '')
    if len(set(TAGS.values())) != len(M.members) or len(rest) != 1:
        return
    TAGS[None] = num(rest[0])
    kinds = [None] + list(M.members)
    W0 = World(c, M)
    arg_ok = lambda got: contains(got, ('str', 'argument')) or contains(got, ('sym', 'argument', 0)) or contains(got, ('arg', 'a0')) or (isinstance(got, tuple) and contains(got, ('heap', 'own payload')))
    n = {}

    def report(rule, f, inst, W, bad, key=None):
        bad = list(dict.fromkeys(W.bad + bad))
        if key is not None and bad != ['reads memory of a payload already destroyed']:
            key = None
        n[rule] = n.get(rule, 0) + 1
        c.ob(rule, inst, not bad, 'Value::%s: %s' % (inst, '; '.join(bad[:3])), f.where(), key=key)

    def normal(f, inst, W, outs, check, abort=None):
        """run check on every normal outcome; abort: True must, False must not, None may"""
        bad = []
        if not outs:
            bad.append('has no outcome')
        for st, k, v in outs:
            if k == 'abort':
                if abort is False:
                    bad.append('stops the process')
                continue
            if k == 'throw':
                bad.append('throws')
                continue
            if abort:
                bad.append('answers although the value has another type')
            bad += check(st, v)
            bad += leaks(W, st, W.locs)
        return bad

    nm = lambda m: m or 'empty'
    def source(W, st, loc, m, pt):
        """what an argument is left as"""
        if pt.k == 'ref':
            return state(W, st, loc, 'the argument', m, (lambda g: g == expect(m, 'payload of the argument', W.I)) if m else None)[0]
        return state(W, st, loc, 'the moved-from argument')[0]

    for f in sorted(fns, key=lambda f: f.line):
        s = sig(f)
        pv = [p for p in f.params if p['t'].strip_ref().k == 'rec' and p['t'].strip_ref().rec == V] if f.params else []
        if f.ctor:
            if not f.params:
                W, outs = run(f, None, [], fresh=True)
                report('create', f, s, W, normal(f, s, W, outs, lambda st, v: state(W, st, THIS, 'the value', None)[0], False))
            elif pv:
                for m in kinds:
                    W, outs = run(f, None, [('value', m)], fresh=True)
                    inst = '%s given %s' % (s, nm(m))
                    def chk(st, v):
                        b = state(W, st, THIS, 'the new value', m, (lambda g: g == expect(m, 'payload of the argument', W.I)) if m else None)[0]
                        b += source(W, st, (('arg', 'a0'),), m, f.params[0]['t'])
                        return b
                    report('copy', f, inst, W, normal(f, inst, W, outs, chk, False))
            else:
                m = M.member_for(f.params[0]['t'])
                if m is None:
                    continue
                W, outs = run(f, None, [('elem',)], fresh=True)
                report('create', f, s, W, normal(f, s, W, outs, lambda st, v: state(W, st, THIS, 'the new value', m, arg_ok)[0], False))
            continue
        if f.dtor:
            for m in kinds:
                W, outs = run(f, m, [])
                inst = '%s of %s' % (s, nm(m))
                def chk(st, v):
                    a = W.act(st, THIS)
                    return ['leaves %s alive' % a] if a is not None and M.owning(a) else []
                report('destroy', f, inst, W, normal(f, inst, W, outs, chk, False))
            continue
        if f.n == 'operator=':
            for m in kinds:
                for m2 in kinds:
                    W, outs = run(f, m, [('value', m2)])
                    inst = '%s: %s = %s' % (s, nm(m), nm(m2))
                    def chk(st, v):
                        b = state(W, st, THIS, 'the value', m2, (lambda g: g == expect(m2, 'payload of the argument', W.I)) if m2 else None)[0]
                        b += source(W, st, (('arg', 'a0'),), m2, f.params[0]['t'])
                        if v != ('ref', THIS):
                            b.append('does not return the value')
                        return b
                    report('assign', f, inst, W, normal(f, inst, W, outs, chk, False))
                W, outs = run(f, m, [('self',)])
                inst = '%s: %s = itself' % (s, nm(m))
                report('assign', f, inst, W, normal(f, inst, W, outs, lambda st, v: state(W, st, THIS, 'the value', m, (lambda g: g == expect(m, 'own payload', W.I)) if m else None)[0], False))
                if m is not None and M.owning(m) and M.payload(M.members[m]) in NESTING:
                    for m2 in kinds:
                        W, outs = run(f, m, [('inside', m2)])
                        inst = '%s: %s = its own element, %s' % (s, nm(m), nm(m2))
                        def chk(st, v):
                            return state(W, st, THIS, 'the value', m2, (lambda g: g == expect(m2, 'payload of the argument', W.I)) if m2 else None)[0]
                        report('alias', f, inst, W, normal(f, inst, W, outs, chk, False))
            continue
        if f.d.get('acc', 0) != 0 and f.params:
            continue        # helpers are followed inside the operations that use them
        if len(f.params) == 1 and not pv and not const_method(f):
            m2 = M.member_for(f.params[0]['t'])
            if m2 is None:
                continue
            for m in kinds:
                W, outs = run(f, m, [('elem',)])
                inst = '%s on %s' % (s, nm(m))
                report('set', f, inst, W, normal(f, inst, W, outs, lambda st, v: state(W, st, THIS, 'the value', m2, arg_ok)[0], False))
            t = f.params[0]['t']
            if t.k in ('ref', 'rref', 'ptr') and 'unique_ptr' not in t.s:
                for m in kinds:
                    if m is None or not M.owning(m) or (M.payload(M.members[m]) not in NESTING and m != m2):
                        continue
                    W, outs = run(f, m, [('elem-inside',)])
                    inst = '%s on %s, given a part of its payload' % (s, nm(m))
                    report('alias', f, inst, W, normal(f, inst, W, outs, lambda st, v: state(W, st, THIS, 'the value', m2, arg_ok)[0], False), key='alias|Value::' + f.n)
            continue
        if f.params:
            continue
        # members without arguments: accessors, clear, predicates, conversions, texts
        x = f.ret
        m2 = None
        if x.k in ('ref', 'ptr') and not (x.k == 'ref' and x.strip_ref().rec == V):
            y = x.strip_ref() if x.k == 'ref' else x.p
            m2 = M.pay.get(tname(y))
            if f.n in ('typeName',):
                m2 = None
        elif x.s != 'void' and f.n.startswith('move'):
            m2 = M.pay.get(tname(x))
        for m in kinds:
            W, outs = run(f, m, [])
            inst = '%s on %s' % (s, nm(m))
            if m2 is not None:
                def chk(st, v):
                    b = []
                    w = v
                    if m != m2:
                        return b
                    if x.k == 'ptr':
                        if v == N0:
                            return ['returns null'] if m == m2 else []
                        w = ('ref', v[1]) if v[0] == 'ptr' else v
                    if x.k in ('ref', 'ptr'):
                        want = THIS + (('.', M.u), ('.', m2)) if not M.owning(m2) else (('heap', 'own payload'),)
                        if w != ('ref', want):
                            b.append('returns %s' % show(w))
                        b += state(W, st, THIS, 'the value', m, (lambda g: g == expect(m, 'own payload', W.I)))[0]
                    else:
                        got = W.content(st, w, False) if w[0] == 'ref' else w
                        if got != expect(m, 'own payload', W.I):
                            b.append('returns %s' % show(got))
                        b += state(W, st, THIS, 'the value')[0]
                    return b
                other = m != m2
                if other and x.k == 'ptr':
                    bad = []
                    for st, k, v in outs:
                        if k == 'v' and v != N0:
                            bad.append('answers although the value has another type')
                    report('typed-read', f, inst, W, bad)
                else:
                    report('typed-read', f, inst, W, normal(f, inst, W, outs, chk, other))
                continue
            if f.n in ('clear', '__clear') or (x.s == 'void' and not const_method(f)):
                def chk(st, v):
                    return state(W, st, THIS, 'the value', None)[0]
                report('destroy', f, inst, W, normal(f, inst, W, outs, chk, False))
                continue
            # reads only: whatever it does, it may touch only the payload that is alive
            def chk(st, v):
                return state(W, st, THIS, 'the value', m, (lambda g: g == expect(m, 'own payload', W.I)) if m else None)[0]
            W2bad = normal(f, inst, W, outs, lambda st, v: chk(st, v), None)
            W2bad = [b for b in W2bad if b != 'a payload is never destroyed' and b != 'throws']
            report('read-only', f, inst, W, W2bad)
            g = [q for q in fns if q.n == 'get' + f.n[2:] and q.ret.k == 'ref']
            if f.n.startswith('is') and x.s == 'bool' and len(g) == 1:
                w = M.pay.get(tname(g[0].ret.strip_ref()))
                bad = [str(b) for st, k, v in outs if k == 'v' for s2, b in truth(W.I, st, ret(W.I, st, v)) if b != (m == w)]
                c.ob('predicate', inst, bool(outs) and not bad, 'Value::%s answers %s' % (inst, ', '.join(sorted(set(bad))).lower()), f.where())

    for rule, k in (('create', 30), ('copy', 30), ('assign', 500), ('set', 500), ('alias', 200), ('destroy', 30), ('typed-read', 500), ('read-only', 100), ('predicate', 100)):
        c.need(rule, k)


def contains(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains(y, x) for y in v)


def const_method(f):
    return bool(f.d.get('const'))


def setup_slot(W, st, M, m):
    s = THIS + (('.', M.u), ('.', m))
    if M.owning(m):
        W.quiet_store(st, s, ('ptr', (('heap', 'own payload'),)))
        W.quiet_store(st, (('heap', 'own payload'),), ('str', 'own payload'))
    else:
        W.quiet_store(st, s, ('sym', 'own payload', 0))


main('C02', RULE, body, ['memory allocation does not fail', 'owning pointers handed to a setter are not null'])
