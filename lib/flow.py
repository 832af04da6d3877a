"""Disjunctive typestate dataflow over the resolved program.

Objects of tracked kinds (fallible results, lookup results ...) carry a set of
possible states.  An environment maps places (variables, members, elements
reached through unchanged names) to such sets; tests refine them, copies,
moves, assignments and calls that may write invalidate or replace them.
Environments are kept apart while they differ, so that facts found out through
a boolean variable, a helper function or a repeated condition are not lost;
loops run to a fixpoint (all domains are finite).  A helper that is handed a
tracked object is analysed at its call sites.

Every use that needs a certain state is an obligation: it holds when every
environment that reaches the use has only states that allow it."""
from program import strip_targs, rel, walk

CAP = 96
MIRROR = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
VALS = ('ts', 'b', 'n', 'lam', 'addr', 'end', 'null', 'rs')
CMPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
MOVES = ('std::move', 'std::forward')
PASS = MOVES + ('std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof', 'folly::move', 'std::launder')


class GiveUp(Exception):
    pass


class Env:
    __slots__ = ('d', '_k')

    def __init__(self, d=None):
        self.d = d or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def set(self, k, v):
        d = dict(self.d)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return Env(d)

    def get(self, k):
        return self.d.get(k)

    def filter(self, f):
        d = {k: v for k, v in self.d.items() if f(k)}
        return Env(d) if len(d) != len(self.d) else self


def join2(a, b):
    d = {}
    for k, v in a.d.items():
        w = b.d.get(k)
        if w is None:
            continue
        if v == w:
            d[k] = v
        elif v[0] == 'ts' and w[0] == 'ts' and v[1] == w[1] and v[3:] == w[3:]:
            d[k] = ('ts', v[1], v[2] | w[2]) + v[3:]
        elif v[0] == 'rst' and w[0] == 'rst':
            d[k] = ('rst', v[1] | w[1])
    return Env(d)


def uniq(envs):
    envs = list(dict.fromkeys(envs))
    if len(envs) > CAP:
        envs = list(dict.fromkeys(e.filter(lambda k: k[0] != 'fact') for e in envs))
    if len(envs) > CAP:
        e = envs[0]
        for x in envs[1:]:
            e = join2(e, x)
        envs = [e]
    return envs


def vuniq(outs):
    outs = list(dict.fromkeys(outs))
    if len(outs) > CAP:
        by = {}
        for e, v in outs:
            by.setdefault(v, []).append(e)
        outs = [(e, v) for v, es in by.items() for e in uniq(es)]
        if len(outs) > CAP:
            outs = []
            for v, es in by.items():
                e = es[0]
                for x in es[1:]:
                    e = join2(e, x)
                outs.append((e, v))
    return outs


class Out:
    def __init__(self, normal=(), brk=(), cont=()):
        self.n, self.b, self.c = list(normal), list(brk), list(cont)


class Kind:
    """one tracked kind of object"""
    name = ''
    all = frozenset()
    moved = None                   # state after being moved from (None: unchanged)

    def is_type(self, t):
        return False

    def call(self, F, env, n, obj, args):
        """outcome list of a call, or None"""
        return None

    def construct(self, F, env, n, args):
        return None

    def fresh(self):
        return ('ts', self.name, self.all)


class Frame:
    def __init__(self, fn, ns, this, up=None):
        self.fn, self.ns, self.this, self.up = fn, ns, this, up
        self.returns = []
        self.depth = up.depth + 1 if up else 0


class Flow:
    def __init__(self, P, kinds, inline_depth=3):
        self.P = P
        self.kinds = kinds
        self.byname = {k.name: k for k in kinds}
        self.uses = {}          # (fn q, file, line, text) -> [ok, message]
        self.inlined = set()
        self.analysed = set()
        self.depth = inline_depth
        self.tries = []
        self.gaveup = {}
        self.cur = None
        self._kt = {}
        self.paths = 0

    # ------------------------------------------------------------- kinds
    def kind_of(self, t):
        if t is None:
            return None
        k = self._kt.get(id(t))
        if k is not None:
            return k[0]
        u = t.strip_ref()
        r = None
        if u is not None and u.k not in ('ptr', 'void', 'int', 'bool'):
            for k in self.kinds:
                if k.is_type(u):
                    r = k
        self._kt[id(t)] = (r, t)
        return r

    def use(self, n, what, ok, msg, kind=None):
        f = self.cur
        while f.up is not None and f.fn.lambda_:
            f = f.up
        k = (f.fn.q, rel(self.cur.fn.file), n.get('l') or 0, what, kind)
        u = self.uses.setdefault(k, [True, ''])
        if not ok and u[0]:
            u[0], u[1] = False, msg

    # ------------------------------------------------------------- places
    def root(self, n):
        dk = n.get('dk')
        if dk in ('local', 'param', 'binding', 'slocal'):
            return ('v', self.cur.ns, n['d'])
        if dk == 'global':
            return ('g', n['q'])
        return None

    def res(self, env, p):
        """follow references"""
        for _ in range(8):
            v = env.get(p)
            if v is not None and v[0] == 'ref':
                p = v[1]
            else:
                # a prefix may be a reference
                for i in range(len(p) - 1, 0, -1):
                    w = env.get(p[:i])
                    if w is not None and w[0] == 'ref':
                        p = w[1] + p[i:]
                        break
                else:
                    return p
        return p

    def deps(self, p):
        out = set()
        if isinstance(p, tuple):
            if len(p) == 3 and p[0] == 'v':
                out.add(p)
            for x in p:
                if isinstance(x, tuple):
                    out |= self.deps(x)
        return out

    def kill(self, env, p, strict=False):
        """the object at p may have changed"""
        def keep(k):
            if k[0] == 'fact':
                return not any(mentions(x, p) for x in k[1:])
            if k[0] in ('has',):
                return not mentions(k, p)
            if len(k) >= len(p) and k[:len(p)] == p:
                v = env.get(k)
                if k == p and (strict or (v is not None and v[0] == 'ref')):
                    return True
                return False
            return not any(mentions(x, p) for x in k[1:] if isinstance(x, tuple))
        return env.filter(keep)

    def load(self, env, p, t=None):
        p = self.res(env, p)
        v = env.get(p)
        if v is not None:
            return v
        k = self.kind_of(t)
        return k.fresh() if k is not None else None

    def store(self, env, p, v):
        p = self.res(env, p)
        if v is not None and v[0] == 'rs':
            env = self.byname['res'].stored(self, env, p, v)
        env = self.kill(env, p)
        if v is not None and (v[0] in VALS):
            env = env.set(p, v)
        return env

    def rv(self, env, v, t=None):
        return self.load(env, v[1], t) if v is not None and v[0] == 'pl' else v

    # ------------------------------------------------------------- expressions
    def ev(self, envs, n):
        """[(env, value)] for every env"""
        out = []
        for e in envs:
            out += self.e1(e, n)
        return vuniq(out)

    def e1(self, env, n):
        if n is None:
            return [(env, None)]
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            return self.children(env, n)
        return vuniq(m(env, n))

    def children(self, env, n):
        outs = [env]
        for k in ('e', 'a', 'b', 'c0', 'obj', 'init', 'size', 'ch', 'place'):
            v = n.get(k)
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x:
                    outs = uniq([e for e, _ in self.ev(outs, x)])
        return [(e, None) for e in outs]

    def seq(self, env, ns):
        """evaluate in order: [(env, [values])]"""
        outs = [(env, ())]
        for x in ns:
            nxt = []
            for e, vs in outs:
                for e2, v in self.e1(e, x):
                    nxt.append((e2, vs + (v,)))
            outs = vuniq(nxt)
        return outs

    def x_Int(self, env, n):
        v = n['v']
        if n.get('t') is not None and n['t'].k == 'bool':
            return [(env, ('b', bool(v)))]
        return [(env, ('n', v) if isinstance(v, int) else None)]

    def x_Null(self, env, n):
        return [(env, ('null',))]

    def x_This(self, env, n):
        return [(env, ('addr', self.cur.this))]

    def x_Ref(self, env, n):
        if n.get('q') == 'fLI::FLAGS_minloglevel':
            return [(env, ('n', 0))]        # fatal checks are not switched off
        r = self.root(n)
        if r is None:
            if n.get('dk') == 'enumc' and isinstance(n.get('v'), int):
                return [(env, ('n', n['v']))]
            return [(env, None)]
        return [(env, ('pl', self.res(env, (r,))))]

    def x_Mem(self, env, n):
        out = []
        for e, v in self.e1(env, n['b']):
            if n.get('arrow'):
                v = self.rv(e, v) if v is not None and v[0] == 'pl' and self.rv(e, v) is not None and self.rv(e, v)[0] == 'addr' else v
                if v is not None and v[0] == 'addr':
                    out.append((e, ('pl', self.res(e, v[1] + (('.', n['n']),)))))
                    continue
                if v is not None and v[0] == 'pl':
                    out.append((e, ('pl', self.res(e, v[1] + ('*', ('.', n['n']))))))
                    continue
            elif v is not None and v[0] == 'pl':
                out.append((e, ('pl', self.res(e, v[1] + (('.', n['n']),)))))
                continue
            out.append((e, None))
        return out

    def x_Full(self, env, n):
        return self.e1(env, n['e'])
    x_Bind = x_Mat = x_ArrayCopy = x_StdInit = x_Full

    def x_Opaque(self, env, n):
        return self.e1(env, n['e']) if n.get('e') else [(env, None)]

    def x_Cast(self, env, n):
        out = []
        for e, v in self.e1(env, n['e']):
            ck = n.get('ck')
            if ck == 'LValueToRValue':
                v2 = self.rv(e, v, n.get('t'))
                # a scalar read keeps its name: facts about it can be remembered
                out.append((e, v2 if v2 is not None else v))
            elif ck in ('ToVoid',):
                out.append((e, None))
            elif n.get('t') is not None and n['t'].k == 'bool' and v is not None and v[0] == 'n':
                out.append((e, ('b', v[1] != 0)))
            elif n.get('t') is not None and n['t'].k == 'bool' and v is not None and v[0] == 'addr':
                out.append((e, ('b', True)))
            elif ck == 'PointerToBoolean':
                w = self.rv(e, v)
                if w is not None and w[0] in ('addr', 'null'):
                    out.append((e, ('b', w[0] == 'addr')))
                elif w is not None and w[0] == 'rs':
                    out += self.byname['res'].compare(self, e, w, '!=', ('null',)) or [(e, None)]
                else:
                    out.append((e, ('cond', ('ptr', v[1])) if v is not None and v[0] == 'pl' else None))
            else:
                out.append((e, v))
        return out

    def x_Un(self, env, n):
        op = n['op']
        if op == '!':
            return [(e, ('b', not b)) for e, b in self.cond([env], n['e'])]
        out = []
        for e, v in self.e1(env, n['e']):
            if op == '&' and v is not None and v[0] == 'pl':
                out.append((e, ('addr', v[1])))
            elif op == '*':
                w = self.rv(e, v)
                if w is not None and w[0] == 'addr':
                    out.append((e, ('pl', self.res(e, w[1]))))
                elif w is not None and w[0] == 'ts':
                    out += self.deref(e, n, v, w)
                elif v is not None and v[0] == 'pl':
                    out.append((e, ('pl', self.res(e, v[1] + ('*',)))))
                else:
                    out.append((e, None))
            elif op in ('++', '--'):
                if v is not None and v[0] == 'pl':
                    out.append((self.kill(e, v[1]), v))
                else:
                    out.append((e, None))
            elif op == '-' and v is not None and v[0] == 'n':
                out.append((e, ('n', -v[1])))
            else:
                out.append((e, None))
        return out

    def deref(self, e, n, v, w):
        k = self.byname[w[1]]
        f = getattr(k, 'deref', None)
        if f is not None:
            f(self, e, n, v, w)
        return [(e, ('pl', v[1] + ('*',)) if v is not None and v[0] == 'pl' else None)]

    def x_Asg(self, env, n):
        out = []
        for e, (a, b) in self.seq(env, [n['a'], n['b']] if n['op'] != '=' else [n['b'], n['a']]):
            if n['op'] == '=':
                a, b = b, a
                b = self.boolcond(e, b)
                for e2, w in b:
                    if a is not None and a[0] == 'pl':
                        e2 = self.store(e2, a[1], self.rv(e2, w, n.get('t')))
                    out.append((e2, a))
            else:
                if a is not None and a[0] == 'pl':
                    old = self.load(e, a[1])
                    e = self.kill(e, a[1])
                    bb = self.rv(e, b)
                    if old is not None and old[0] == 'b' and bb is not None and bb[0] == 'b' and n['op'] in ('&=', '|='):
                        e = self.store(e, a[1], ('b', (old[1] and bb[1]) if n['op'] == '&=' else (old[1] or bb[1])))
                out.append((e, a))
        return out

    def x_Bin(self, env, n):
        op = n['op']
        if op in ('&&', '||'):
            return [(e, ('b', b)) for e, b in self.cond([env], n)]
        out = []
        for e, (a, b) in self.seq(env, [n['a'], n['b']]):
            if op == ',':
                out.append((e, b))
                continue
            if op in ('.*', '->*'):
                out.append((e, None))
                continue
            ra, rb = self.rv(e, a), self.rv(e, b)
            ra = ('n', n['a']['c']) if isinstance(n['a'].get('c'), int) else ra
            rb = ('n', n['b']['c']) if isinstance(n['b'].get('c'), int) else rb
            if op in CMPS and ra is not None and rb is not None and ra[0] == rb[0] == 'n':
                out.append((e, ('b', CMPS[op](ra[1], rb[1]))))
                continue
            r = None
            for x, y, o in ((ra, rb, op), (rb, ra, MIRROR.get(op))):
                if r is None and x is not None and x[0] == 'rs' and o is not None:
                    r = self.byname['res'].compare(self, e, x, o, y)
            if r is not None:
                out += r
                continue
            if op in ('==', '!='):
                if ra is not None and rb is not None and ra[0] in ('b', 'n') and rb[0] == ra[0]:
                    out.append((e, ('b', (ra[1] == rb[1]) == (op == '=='))))
                    continue
                for x, y, o in ((ra, rb, a), (rb, ra, b)):
                    if y is not None and y[0] == 'null' and x is not None and x[0] in ('addr', 'null'):
                        out.append((e, ('b', (x[0] == 'null') == (op == '=='))))
                        break
                    if y is not None and y[0] == 'null' and o is not None and o[0] == 'pl':
                        out.append((e, ('cond', ('ptr', o[1]), op == '!=')))
                        break
                    if y is not None and y[0] == 'b' and o is not None and o[0] == 'pl':
                        out.append((e, ('cond', ('truth', o[1]), (op == '==') == y[1])))
                        break
                    if y is not None and y[0] == 'n' and o is not None and o[0] == 'pl':
                        out.append((e, ('cond', ('eq', o[1], y[1]), op == '==')))
                        break
                else:
                    if a is not None and b is not None and a[0] == 'pl' and b[0] == 'pl':
                        out.append((e, ('cond', ('eqp',) + tuple(sorted((a[1], b[1]), key=repr)), op == '==')))
                    else:
                        out.append((e, None))
                continue
            if op in ('<', '>', '<=', '>=') and all(x is not None and x[0] in ('pl', 'n') for x in (a, b)):
                x, y = (a, b) if op in ('<', '>=') else (b, a)          # a > b is b < a
                out.append((e, ('cond', ('lt', x[1], y[1]), op in ('<', '>'))))
                continue
            if ra is not None and rb is not None and ra[0] == 'b' and rb[0] == 'b' and op in ('&', '|', '^'):
                out.append((e, ('b', {'&': ra[1] and rb[1], '|': ra[1] or rb[1], '^': ra[1] != rb[1]}[op])))
                continue
            out.append((e, None))
        return out

    def x_Cond(self, env, n):
        out = []
        for e, b in self.cond([env], n['c0']):
            out += self.e1(e, n['a'] if b else n['b'])
        return out

    def x_BCond(self, env, n):
        return self.children(env, n)

    def x_Idx(self, env, n):
        out = []
        for e, (a, b) in self.seq(env, [n['a'], n['b']]):
            i = self.keyof(e, b)
            out.append((e, ('pl', a[1] + (('[', i),)) if a is not None and a[0] == 'pl' and i is not None else None))
        return out

    def keyof(self, env, v):
        """a stable name of a key value"""
        if v is None:
            return None
        if v[0] in ('n', 'b', 'str'):
            return v
        if v[0] == 'pl':
            w = self.load(env, v[1])
            if w is not None and w[0] in ('n', 'b'):
                return w
            return v
        if v[0] == 'pure':
            return v
        return None

    def x_Str(self, env, n):
        return [(env, ('str', n['v']))]

    def x_New(self, env, n):
        return [(e, None) for e, _ in self.children(env, n)]

    def x_Throw(self, env, n):
        for e, _ in (self.e1(env, n['e']) if n.get('e') else [(env, None)]):
            self.note(e)
            if not self.tries and 'res' in self.byname:
                self.byname['res'].leaving(self, e, None, n)
        return []

    def x_Lambda(self, env, n):
        """the body is analysed where it is made, with the environment of that moment"""
        e = env
        for c in n.get('caps', []):
            if c.get('initcap') and c.get('init') is not None:
                outs = self.e1(e, c['init'])
                e = outs[0][0] if outs else e
                for e2, _ in outs[1:]:
                    e = join2(e, e2)
                v = outs[0][1] if outs else None
                p = (('v', self.cur.ns, c['d']),)
                w = self.rv(e, v)
                if len(outs) > 1:
                    w = None
                if c.get('ref') and v is not None and v[0] == 'pl':
                    e = e.set(p, ('ref', v[1]))
                else:
                    e = self.store(e, p, w)
        lam = ('lam', n.get('fn'), self.cur.ns, self.cur.this)
        lam += (tuple(n.get('specs', ())),)
        return [(e, lam)]

    def run_lambda(self, env, lam, args, n, standalone):
        """run a lambda; returns the environments after it (with its effects on captured places)"""
        fns = [self.P.funcs[k] for k in ((lam[1],) + lam[4]) if k in self.P.funcs]
        outs = []
        for fn in fns:
            if fn.body is None or sum(1 for f in self.stack() if f.fn is fn) > 1:
                continue
            outs += self.enter(env, fn, lam[2], lam[3], args, n)
        return outs

    def stack(self):
        f = self.cur
        while f is not None:
            yield f
            f = f.up

    def enter(self, env, fn, ns, this, args, n):
        """[(env, value)]: run a function body in env; args None: parameters are unknown"""
        fr = Frame(fn, ns, this, self.cur)
        if fr.depth > 12:
            return [(env, None)]
        e = env
        for i, p in enumerate(fn.params):
            pl = (('v', ns, p['d']),)
            a = args[i] if args is not None and i < len(args) else None
            e = e.set(pl, None)
            t = p['t']
            if a is None:
                k = self.kind_of(t)
                if k is not None:
                    e = e.set(pl, k.fresh())
            elif t.k in ('ref', 'rref') and a[0] == 'pl':
                if a[1] != pl:
                    e = e.set(pl, ('ref', a[1]))
            elif a[0] in VALS:
                e = e.set(pl, a)
            elif a[0] == 'pl':
                w = self.load(e, a[1], t)
                if w is not None:
                    e = e.set(pl, w)
        old = self.cur
        self.cur = fr
        self.analysed.add(fn.key)
        try:
            o = self.st([e], fn.body)
        finally:
            self.cur = old
        return vuniq([(x, None) for x in o.n] + fr.returns)

    def x_InitList(self, env, n):
        outs = self.seq(env, n['a'])
        if len(n['a']) == 1 and n.get('t') is not None and (self.kind_of(n['t']) is not None or n['t'].k == 'bool'):
            return [(e, vs[0]) for e, vs in outs]
        return [(self.escape_all(e, vs, [None] * len(vs), n), None) for e, vs in outs]

    def escape(self, env, v, t, n):
        """v is handed to code that is not seen"""
        if v is None:
            return env
        if v[0] == 'lam':
            outs = self.run_lambda(env, v, None, n, True)
            if 'res' in self.byname:
                return self.byname['res'].deferred(self, env, outs)
            e = env
            for e2, _ in outs:
                e = join2(e, e2)
            return e
        if v[0] == 'addr':
            if t is not None and t.k == 'ptr' and t.p is not None and t.p.const:
                return env
            if v[1] == self.cur.this:
                return env
            return self.kill(env, v[1])
        if v[0] == 'pl':
            w = env.get(v[1])
            if w is not None and w[0] == 'lam':
                return self.escape(env, w, t, n)
            if t is not None and t.k == 'ref' and t.p is not None and not t.p.const:
                return self.kill(env, v[1])
            if t is not None and t.k == 'rref':
                return self.kill(env, v[1])
            if t is not None and t.k == 'ptr' and not (t.p is not None and t.p.const):
                if w is not None and w[0] == 'addr':
                    return self.kill(env, w[1])
                return self.kill(env, v[1] + ('*',))
        return env

    def escape_all(self, env, vs, ts, n):
        for v, t in zip(vs, list(ts) + [None] * len(vs)):
            env = self.escape(env, v, t, n)
        return env

    def x_Construct(self, env, n):
        t = n.get('t')
        q = strip_targs(n.get('q', ''))
        outs = []
        if 'LogMessageFatal' in n.get('cls', '') or 'NullStreamFatal' in n.get('cls', ''):
            for e, vs in self.seq(env, n['a']):
                pass
            return [(env.set(('dead',), ('b', True)), None)]
        for e, vs in self.seq(env, n['a']):
            k = self.kind_of(t)
            if k is not None:
                r = k.construct(self, e, n, vs)
                if r is not None:
                    outs += r
                    continue
                if n.get('ck') in ('copy', 'move') and vs:
                    w = self.rv(e, vs[0], t)
                    if n['ck'] == 'move' and k.moved is not None and vs[0] is not None and vs[0][0] == 'pl' and not n.get('elid'):
                        e = self.store(e, vs[0][1], ('ts', k.name, frozenset([k.moved])))
                    outs.append((e, w if w is not None and w[0] == 'ts' else k.fresh()))
                    continue
                e = self.escape_all(e, vs, n.get('pt') or [], n)
                outs.append((e, k.fresh()))
                continue
            if 'res' in self.byname:
                e = self.byname['res'].into(self, e, n, vs)
            if len(vs) == 1 and vs[0] is not None and vs[0][0] in ('lam', 'str'):
                # a lambda wrapped into a function object keeps being that lambda
                outs.append((e, vs[0]))
                continue
            e = self.escape_all(e, vs, n.get('pt') or [], n)
            if n.get('ck') in ('copy', 'move') and vs and vs[0] is not None and vs[0][0] == 'pl':
                w = self.load(e, vs[0][1])
                if w is not None and w[0] == 'lam':
                    outs.append((e, w))
                    continue
            if n.get('ck') == 'copy' and vs and vs[0] is not None and vs[0][0] == 'pl':
                outs.append((e, ('pure', vs[0][1])))
                continue
            outs.append((e, None))
        return outs

    def x_Call(self, env, n):
        if 'ind' in n:
            outs = []
            for e, vs in self.seq(env, [n['ind']] + n['a']):
                f = self.rv(e, vs[0])
                if f is not None and f[0] == 'lam':
                    outs += self.run_lambda(e, f, vs[1:], n, False) or [(e, None)]
                else:
                    outs.append((self.escape_all(e, vs[1:], [], n), self.fresh_ret(n)))
            return outs
        q = strip_targs(n.get('q', ''))
        has = n.get('obj') is not None
        args = ([n['obj']] if has else []) + n['a']
        outs = []
        for e, vs in self.seq(env, args):
            obj, av = (vs[0], vs[1:]) if has else (None, vs)
            if has and n.get('arrow'):
                w = self.rv(e, obj)
                if w is not None and w[0] == 'addr':
                    obj = ('pl', self.res(e, w[1]))
                elif obj is not None and obj[0] == 'pl':
                    obj = ('pl', self.res(e, obj[1] + ('*',)))
                else:
                    obj = None
            r = None
            for k in self.kinds:
                r = k.call(self, e, n, q, obj, av)
                if r is not None:
                    break
            if r is None:
                r = self.call(e, n, q, obj, av)
            self.note(e)
            outs += r
        if n.get('noret') or q in ('abort', 'exit', '_exit', 'std::abort', 'std::exit', 'std::terminate', 'quick_exit'):
            return []
        return outs

    def fresh_ret(self, n):
        t = n.get('t')
        k = self.kind_of(t)
        return k.fresh() if k is not None else None

    def call(self, e, n, q, obj, av):
        name = q.rsplit('::', 1)[-1]
        if q in PASS and len(av) == 1:
            if q.endswith('addressof') and av[0] is not None and av[0][0] == 'pl':
                return [(e, ('addr', av[0][1]))]
            return [(e, av[0])]
        if q == '__builtin_expect':
            return [(e, av[0])]
        if q == 'std::exchange' and len(av) == 2 and av[0] is not None and av[0][0] == 'pl' and self.kind_of(n.get('t')) is None:
            old, new = self.rv(e, av[0]), self.rv(e, av[1])
            e = self.store(e, av[0][1], new)
            return [(e, old if old is not None and old[0] in VALS else None)]
        if q == 'std::swap' and len(av) == 2 and all(a is not None and a[0] == 'pl' for a in av):
            a, b = (self.res(e, v[1]) for v in av)
            va, vb = e.get(a), e.get(b)
            if any(v is not None and v[0] == 'rs' for v in (va, vb)):
                e = self.kill(self.kill(e, a), b)
                return [(e.set(a, vb if vb and vb[0] in VALS else None).set(b, va if va and va[0] in VALS else None), None)]
        if q.startswith('std::get') and len(av) == 1 and av[0] is not None and av[0][0] == 'pl' and n.get('targs'):
            return [(e, ('pl', self.res(e, av[0][1] + (('get', str(n['targs'][0])),))))]
        if q in ('std::make_unique', 'std::make_shared', 'std::tie', 'std::make_pair', 'std::make_tuple'):
            pass
        # operator() of a local lambda
        if name == 'operator()' and obj is not None:
            f = self.rv(e, obj)
            if f is not None and f[0] == 'lam':
                return self.run_lambda(e, f, av, n, False) or [(e, self.fresh_ret(n))]
        # helpers that are handed a tracked object
        fn = self.P.funcs.get(n.get('fn'))
        if fn is not None and fn.body is not None and not n.get('virt') and self.wants(fn, e, obj, av) and self.cur.depth < self.depth \
                and all(f.fn is not fn for f in self.stack()):
            this = obj[1] if obj is not None and obj[0] == 'pl' else self.cur.this if obj is not None and obj[0] == 'addr' and obj[1] == self.cur.this else ('thisobj',)
            if obj is not None and obj[0] == 'addr':
                this = obj[1]
            ns = 'i%s:%s:%s' % (self.cur.ns, n.get('l'), fn.n)
            if len(ns) < 300:
                self.inlined.add(fn.key)
                outs = []
                for e2, v in self.enter(e, fn, ns, this, av, n):
                    w = self.rv(e2, v)
                    if v is not None and v[0] == 'pl' and v[1] and isinstance(v[1][0], tuple) and len(v[1][0]) == 3 and v[1][0][1] == ns:
                        v = w
                    e2 = e2.filter(lambda k: not mentions_ns(k, ns))
                    if v is None:
                        v = self.fresh_ret(n)
                    outs.append((e2, v))
                return vuniq(outs)
        # element access with a nameable key: the same element until its container may change
        if obj is not None and obj[0] == 'pl':
            p = obj[1]
            if name in ('operator[]', 'at') and len(av) == 1:
                i = self.keyof(e, av[0])
                if i is not None:
                    return [(e, ('pl', self.res(e, p + (('[', i),))))]
                return [(e, self.fresh_ret(n))]
            if name in ('operator*', 'operator->', 'get') and not av:
                w = self.load(e, p)
                if w is not None and w[0] == 'ts':
                    return self.deref(e, n, obj, w)
                v = ('pl', self.res(e, p + ('*',)))
                return [(e, ('addr', v[1]) if name != 'operator*' and n.get('t') is not None and n['t'].k == 'ptr' else v)]
            if name in ('front', 'back') and not av and n.get('lv'):
                return [(e, ('pl', self.res(e, p + ((name,),))))]
            if name == 'operator=' and len(av) == 1:
                k = self.kind_of(n.get('t')) or self.kind_of((n.get('obj') or {}).get('t'))
                w = self.rv(e, av[0])
                e = self.escape_all(e, av, n.get('pt') or [], n)
                e = self.store(e, p, w if w is not None and w[0] in ('lam',) else None)
                return [(e, obj)]
            if n.get('mconst') or name in ('begin', 'end', 'cbegin', 'cend', 'find', 'data', 'size', 'empty', 'count', 'lower_bound', 'upper_bound', 'equal_range'):
                e = self.escape_all(e, av, n.get('pt') or [], n)
                if not av and self.kind_of(n.get('t')) is None:
                    if n.get('lv'):
                        return [(e, ('pl', self.res(e, p + (('call', n.get('q')),))))]
                    if n.get('t') is not None and n['t'].k in ('bool', 'int', 'enum', 'ptr'):
                        return [(e, ('pl', p + (('call', n.get('q')),)))] if n['t'].k != 'ptr' else [(e, None)]
                elif not av and n.get('lv'):
                    return [(e, ('pl', self.res(e, p + (('call', n.get('q')),))))]
                return [(e, self.fresh_ret(n))]
            e = self.escape_all(e, av, n.get('pt') or [], n)
            e = self.kill(e, p, strict=True) if p != self.cur.this else self.kill_this(e, fn)
            return [(e, self.fresh_ret(n))]
        if obj is not None and obj[0] == 'addr' and not n.get('mconst'):
            e = self.kill_this(e, fn) if obj[1] == self.cur.this else self.kill(e, obj[1])
        e = self.escape_all(e, av, n.get('pt') or [], n)
        if (name in ('operator<<',) or n.get('oper')) and av and av[0] is not None and not has_obj(n):
            return [(e, self.fresh_ret(n))]
        return [(e, self.fresh_ret(n))]

    def kill_this(self, env, fn=None):
        r = self.byname.get('res')
        if fn is not None and r is not None and r.cls is not None and fn.body is not None and fn.key not in r.touch:
            return env
        return self.kill(env, self.cur.this)

    def wants(self, fn, env, obj, av):
        """is a tracked object handed to fn?"""
        if fn.d.get('defaulted') or fn.d.get('implicit'):
            return False
        if any(f.startswith(self.skip_prefix) for f in (fn.qs,)) if getattr(self, 'skip_prefix', None) else False:
            return False
        if 'res' in self.byname and self.byname['res'].wants(self, fn, env, obj, av):
            return True
        for p, a in zip(fn.params, av):
            t = p['t'].strip_ref()
            if t.k == 'ptr':
                t = t.p
            if t is not None and self.kind_of(t) is not None:
                return True
        return False

    # ------------------------------------------------------------- conditions
    def boolcond(self, e, v):
        """a remembered condition becomes a truth value: [(env, value)]"""
        if v is not None and v[0] == 'cond':
            return [(x, ('b', b)) for x, b in self.fact(e, v)]
        return [(e, v)]

    def fact(self, e, v):
        k, pos = ('fact',) + v[1], v[2] if len(v) > 2 else True
        f = e.get(k)
        if f is not None:
            return [(e, f[1] == pos)]
        return [(e.set(k, ('b', True)), pos), (e.set(k, ('b', False)), not pos)]

    def cond(self, envs, n):
        """[(env, truth)]"""
        out = []
        for env in envs:
            out += self.c1(env, n)
        return list(dict.fromkeys(out))

    def c1(self, env, n):
        k = n['k']
        if k in ('Full', 'Bind', 'Mat') or (k == 'Cast' and n.get('ck') in ('NoOp', 'LValueToRValue', 'IntegralCast', 'IntegralToBoolean', 'UserDefinedConversion') and 'c' not in n):
            if not (k == 'Cast' and n.get('ck') == 'LValueToRValue'):
                return self.c1(env, n['e'])
        if isinstance(n.get('c'), int) and k not in ('Call',):
            return [(env, bool(n['c']))]
        if k == 'Un' and n['op'] == '!':
            return [(e, not b) for e, b in self.c1(env, n['e'])]
        if k == 'Bin' and n['op'] in ('&&', '||'):
            out = []
            for e, b in self.c1(env, n['a']):
                if b == (n['op'] == '&&'):
                    out += self.c1(e, n['b'])
                else:
                    out.append((e, b))
            return out
        if k == 'Bin' and n['op'] == ',':
            out = []
            for e, _ in self.e1(env, n['a']):
                out += self.c1(e, n['b'])
            return out
        if k == 'Cond':
            out = []
            for e, b in self.c1(env, n['c0']):
                out += self.c1(e, n['a'] if b else n['b'])
            return out
        if k == 'Call' and strip_targs(n.get('q', '')) == '__builtin_expect':
            return self.c1(env, n['a'][0])
        out = []
        for e, v in self.e1(env, n):
            if v is not None and v[0] == 'pl':
                w = self.load(e, v[1], n.get('t'))
                if w is not None and w[0] in ('b', 'n', 'addr', 'null', 'rs'):
                    v = w
                elif n.get('t') is not None and n['t'].strip_ref().k in ('bool', 'int', 'enum', 'ptr'):
                    v = ('cond', (('truth' if n['t'].strip_ref().k != 'ptr' else 'ptr'), v[1]), True)
                else:
                    v = w
            if v is None:
                out += [(e, True), (e, False)]
            elif v[0] == 'b':
                out.append((e, v[1]))
            elif v[0] == 'n':
                out.append((e, v[1] != 0))
            elif v[0] in ('addr', 'lam', 'str'):
                out.append((e, True))
            elif v[0] == 'null':
                out.append((e, False))
            elif v[0] == 'rs':
                out += [(x, b[1]) for x, b in self.byname['res'].compare(self, e, v, '!=', ('null',)) or [(e, ('b', True)), (e, ('b', False))]]
            elif v[0] == 'cond':
                out += self.fact(e, v)
            else:
                out += [(e, True), (e, False)]
        return out

    # ------------------------------------------------------------- statements
    def note(self, env):
        for t in self.tries:
            t.append(env)

    def live(self, envs):
        return uniq([e for e in envs if e.get(('dead',)) is None])

    def st(self, envs, s):
        if s is None or not envs:
            return Out(envs)
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise GiveUp('statement %s' % s['k'])
        o = m(envs, s)
        o.n = self.live(o.n)
        o.b, o.c = self.live(o.b), self.live(o.c)
        for e in o.n:
            self.note(e)
        return o

    def s_Block(self, envs, s):
        o = Out(envs)
        for x in s['s']:
            r = self.st(o.n, x)
            o.n = r.n
            o.b += r.b
            o.c += r.c
            if not o.n and not any(y['k'] in ('Case', 'Default', 'Label') for y in s['s']):
                break
        return o

    def s_Null(self, envs, s):
        return Out(envs)

    def s_Expr(self, envs, s):
        return Out([e for e, _ in self.ev(envs, s['e'])])

    def s_Asm(self, envs, s):
        return Out(envs)

    def decl(self, envs, v):
        out = []
        t = v.get('t')
        for env in envs:
            p = (('v', self.cur.ns, v['d']),)
            env = self.kill(env, p).set(p, None)
            init = v.get('init')
            if init is None:
                k = self.kind_of(t)
                out.append(env.set(p, k.fresh()) if k is not None else env)
                continue
            outs = self.cond([env], init) if t is not None and t.k == 'bool' else None
            if outs is not None:
                out += [e.set(p, ('b', b)) for e, b in outs]
                continue
            for e, x in self.e1(env, init):
                for e, x in self.boolcond(e, x):
                    if t is not None and t.k in ('ref', 'rref'):
                        if x is not None and x[0] == 'pl' and x[1] != p:
                            e = e.set(p, ('ref', x[1]))
                        elif x is not None and x[0] in ('ts', 'lam', 'b', 'n', 'end'):
                            e = e.set(p, x)
                        out.append(e)
                        continue
                    w = self.rv(e, x, t)
                    if w is not None and w[0] in VALS:
                        e = e.set(p, w)
                    elif self.kind_of(t) is not None:
                        e = e.set(p, self.kind_of(t).fresh())
                    elif x is not None and x[0] == 'pl' and t is not None and t.k == 'ptr':
                        pass
                    out.append(e)
        return uniq(out)

    def s_Decl(self, envs, s):
        for v in s['v']:
            envs = self.decl(envs, v)
        return Out(envs)

    def split(self, envs, n):
        t, f = [], []
        for e, b in self.cond(envs, n):
            if e.get(('dead',)) is None:
                (t if b else f).append(e)
        return uniq(t), uniq(f)

    def s_If(self, envs, s):
        if s.get('init'):
            envs = self.st(envs, s['init']).n
        if s.get('var'):
            envs = self.decl(envs, s['var'])
        t, f = self.split(envs, s['c'])
        a = self.st(t, s['a']) if t else Out()
        b = (self.st(f, s['b']) if s.get('b') else Out(f)) if f else Out()
        return Out(uniq(a.n + b.n), uniq(a.b + b.b), uniq(a.c + b.c))

    def loop(self, envs, cond, body, inc, test_first=True, before=None):
        seen, exits = set(), []
        work = list(envs)
        first = True
        wide = False
        while work:
            new = [e for e in uniq(work) if e not in seen]
            if not new:
                break
            if len(seen) > 3 * CAP and not wide:
                wide = True
                e = new[0]
                for x in new[1:] + list(seen):
                    e = join2(e, x)
                e = e.filter(lambda k: k[0] != 'fact')
                new = [e]
            elif len(seen) > 6 * CAP:
                raise GiveUp('loop does not settle')
            seen.update(new)
            if before is not None:
                t, f = before(new)
            elif cond is not None and (test_first or not first):
                t, f = self.split(new, cond)
            elif cond is None:
                t, f = new, []
            else:
                t, f = new, []
            exits += f
            o = self.st(t, body) if t else Out()
            exits += o.b
            nxt = uniq(o.n + o.c)
            if inc is not None and nxt:
                nxt = uniq([e for e, _ in self.ev(nxt, inc)])
            if not test_first and nxt:
                t, f = self.split(nxt, cond)
                exits += f
                nxt = t
                first = True
            work = nxt
        return Out(uniq(exits))

    def s_While(self, envs, s):
        if s.get('var'):
            def before(es):
                return self.split(self.decl(es, s['var']), s['c'])
            return self.loop(envs, None, s['body'], None, before=before)
        return self.loop(envs, s['c'], s['body'], None)

    def s_Do(self, envs, s):
        return self.loop(envs, s['c'], s['body'], None, test_first=False)

    def s_For(self, envs, s):
        if s.get('init'):
            envs = self.st(envs, s['init']).n
        return self.loop(envs, s.get('c'), s['body'], s.get('inc'))

    def s_RangeFor(self, envs, s):
        rng = []
        for e, v in self.ev(envs, s['range']):
            rng.append((e, v))
        es = uniq([e for e, _ in rng])
        d = s['var']['d']
        t = s['var'].get('t')

        def before(es):
            out = []
            for e in es:
                p = (('v', self.cur.ns, d),)
                e = self.kill(e, p).set(p, None)
                k = self.kind_of(t)
                if k is not None:
                    e = e.set(p, k.fresh())
                out.append(e)
            return uniq(out), list(es)
        return self.loop(es, None, s['body'], None, before=before)

    def s_Switch(self, envs, s):
        if s.get('init'):
            envs = self.st(envs, s['init']).n
        if s.get('var'):
            envs = self.decl(envs, s['var'])
        outs = self.ev(envs, s['c'])
        es = self.live([e for e, _ in outs])
        body = s['body']
        items = body['s'] if body is not None and body['k'] == 'Block' else [body]
        fall, brk, cont = [], [], []
        dflt = False
        for x in items:
            if x is None:
                continue
            while x is not None and x['k'] in ('Case', 'Default'):
                dflt |= x['k'] == 'Default'
                fall = uniq(fall + es)
                x = x['s']
            if x is None:
                continue
            o = self.st(fall, x) if fall else Out()
            fall = o.n
            brk += o.b
            cont += o.c
        return Out(uniq(fall + brk + ([] if dflt else es)), [], cont)

    def s_Case(self, envs, s):
        return self.st(envs, s['s'])
    s_Default = s_Case

    def s_Break(self, envs, s):
        return Out([], envs)

    def s_Continue(self, envs, s):
        return Out([], [], envs)

    def s_Return(self, envs, s):
        if s.get('e') is None:
            self.cur.returns += [(e, None) for e in envs]
            return Out()
        rt = self.cur.fn.ret
        if rt is not None and rt.k == 'bool':
            outs = [(e, ('b', b)) for e, b in self.cond(envs, s['e'])]
        else:
            outs = self.ev(envs, s['e'])
        for e, v in outs:
            if e.get(('dead',)) is not None:
                continue
            for k in self.kinds:
                h = getattr(k, 'returned', None)
                if h is not None and rt is not None and k.is_type(rt.strip_ref()) and rt.k not in ('ref', 'rref'):
                    h(self, e, s, self.rv(e, v, rt))
            if rt is not None and rt.k not in ('ref', 'rref') and v is not None and v[0] == 'pl':
                w = self.load(e, v[1], rt)
                v = w if w is not None else v
            for e2, v2 in self.boolcond(e, v):
                if v2 is not None and v2[0] == 'lam':
                    e2 = self.escape(e2, v2, None, s)
                self.cur.returns.append((e2, v2))
        self.cur.returns = vuniq(self.cur.returns)
        return Out()

    def s_Try(self, envs, s):
        self.tries.append(list(envs))
        try:
            o = self.st(envs, s['body'])
        finally:
            pts = self.tries.pop()
        pts = list(dict.fromkeys(pts))
        if pts:
            e = pts[0]
            for x in pts[1:]:
                e = join2(e, x)
            for h in s['h']:
                e2 = [e]
                if h.get('var'):
                    e2 = self.decl(e2, h['var'])
                r = self.st(e2, h['body'])
                o.n += r.n
                o.b += r.b
                o.c += r.c
        return Out(uniq(o.n), uniq(o.b), uniq(o.c))

    def s_Label(self, envs, s):
        raise GiveUp('labels')

    def s_Goto(self, envs, s):
        raise GiveUp('goto')

    def s_OtherStmt(self, envs, s):
        raise GiveUp('statement %s' % s.get('sc'))

    # ------------------------------------------------------------- driver
    def run(self, fn, start=None, at_exit=None):
        self.cur = None
        self.tries = []
        fr = Frame(fn, fn.key, (('this', fn.key),))
        env = start or Env()
        for p in fn.params:
            k = self.kind_of(p['t'])
            if k is not None:
                env = env.set((('v', fn.key, p['d']),), k.fresh())
        self.cur = fr
        self.analysed.add(fn.key)
        envs = [env]
        try:
            for i in fn.inits or []:
                x = i.get('e') or i.get('init')
                if isinstance(x, dict) and 'k' in x:
                    nxt = []
                    for e, v in self.ev(envs, x):
                        e = self.escape(e, v, None, i)
                        m = i.get('f') or i.get('n')
                        if m and v is not None and v[0] in ('ts', 'b', 'n', 'null', 'rs'):
                            e = self.store(e, fr.this + (('.', m),), v)
                        nxt.append(e)
                    envs = uniq(nxt)
            o = self.st(envs, fn.body)
            self.paths += len(o.n) + len(fr.returns)
            if at_exit is not None:
                for x, v in [(x, None) for x in o.n] + fr.returns:
                    at_exit(x, v)
        except GiveUp as x:
            self.gaveup[fn.q] = str(x)
        except RecursionError:
            self.gaveup[fn.q] = 'too deep'
        finally:
            self.cur = None


def has_obj(n):
    return n.get('obj') is not None


def mentions(k, p):
    """does the place or key k contain the place p?"""
    if not isinstance(k, tuple):
        return False
    if len(k) >= len(p) and k[:len(p)] == p:
        return True
    return any(mentions(x, p) for x in k if isinstance(x, tuple))


def mentions_ns(k, ns):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'v' and k[1] == ns:
            return True
        return any(mentions_ns(x, ns) for x in k)
    return False
