"""Abstract interpreter over the extracted program.

Domain: value numbering (hash-consed terms), linear-inequality facts and
boolean facts, a finite ghost component for typestate/locksets, and a trace of
abstract events.  Branches partition the state by the outcome of the test;
loops are run to a fixpoint over havocked locations with an inductive template
invariant (or unrolled when their trip count is bounded).  Calls into the
repository are analysed in the caller's context; everything else is an opaque
event or a library model.  Nothing is executed and no solver is used."""
from collections import namedtuple
from fractions import Fraction
from program import strip_targs, rel, walk
from lin import *
import lin


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


Ev = namedtuple('Ev', 'name recv args ret line file locks snap')

N0 = ('n', 0)
N1 = ('n', 1)
VOID = ('void',)


def num(i):
    return ('n', i)


def to_lin(v):
    k = v[0]
    if k == 'n':
        return (v[1], ())
    if k == 'lin':
        return v[1]
    return (0, ((v, 1),))


def from_lin(f):
    if not f[1]:
        return ('n', f[0])
    if f[0] == 0 and len(f[1]) == 1 and f[1][0][1] == 1:
        return f[1][0][0]
    return ('lin', f)


def vadd(a, b, k=1):
    return from_lin(lin.add(to_lin(a), to_lin(b), k))


def vmul(a, b):
    if a[0] == 'n':
        return from_lin(lin.scale(to_lin(b), a[1]))
    if b[0] == 'n':
        return from_lin(lin.scale(to_lin(a), b[1]))
    r = {}
    c = 0
    fa, fb = to_lin(a), to_lin(b)
    out = ZERO
    for x, cx in list(fa[1]) + [(None, fa[0])]:
        for y, cy in list(fb[1]) + [(None, fb[0])]:
            k = cx * cy
            if k == 0:
                continue
            if x is None and y is None:
                out = lin.add(out, (k, ()))
            else:
                ms = []
                for z in (x, y):
                    if z is None:
                        continue
                    if z[0] == 'mul':
                        ms.extend(z[1:])
                    else:
                        ms.append(z)
                m = ms[0] if len(ms) == 1 else ('mul',) + tuple(sorted(ms, key=repr))
                out = lin.add(out, (0, ((m, k),)))
    return from_lin(out)


# floats: monomials  ('fm', Fraction, ((atom, exp),...))  else opaque
def fconst(x):
    return ('fm', Fraction(x), ())


def to_fm(v):
    if v[0] == 'fm':
        return v
    if v[0] == 'n':
        return ('fm', Fraction(v[1]), ())
    return ('fm', Fraction(1), ((v, 1),))


def fmulv(a, b, sign=1):
    a, b = to_fm(a), to_fm(b)
    d = dict(a[2])
    for x, e in b[2]:
        d[x] = d.get(x, 0) + sign * e
    if sign < 0 and b[1] == 0:
        return ('app', 'fdiv0')
    c = a[1] * b[1] if sign > 0 else a[1] / b[1]
    return ('fm', c, tuple(sorted(((x, e) for x, e in d.items() if e), key=repr)))


def mk_not(t):
    if t[0] == 'n':
        return N0 if t[1] else N1
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def is_ptrlike(v):
    return v[0] == 'ptr'


def _tneg(f):
    """f == s*(a - k*floor(a/k) - k*N) + d for the truncation atom N of a by k -> (N, s, d)"""
    for x, c in f[1]:
        if x[0] == 'tneg' and c % x[2] == 0:
            s = -c // x[2]
            if s not in (1, -1):
                continue
            a, k = x[1], x[2]
            st = _Sink()
            r = lin.add(to_lin(a), to_lin(Interp.floordiv(None, st, a, k)), -k)
            r = lin.add(r, (0, ((x, -k),)))
            d = lin.add(f, lin.scale(r, s), -1)
            if not d[1]:
                return x, s, d[0]
    return None


class _Sink:
    cons = ()


def cmp_term(op, a, b):
    """integer / pointer comparison as a boolean value"""
    if op == '>':
        return cmp_term('<', b, a)
    if op == '>=':
        return cmp_term('<=', b, a)
    if op == '!=':
        return mk_not(cmp_term('==', a, b))
    if op == '==':
        if a == b:
            return N1
        if a[0] == 'ptr' or b[0] == 'ptr':
            if a[0] != 'ptr':
                a, b = b, a
            if b == N0:
                return N0
            if b[0] == 'ptr':
                if not may_alias(a[1], b[1]):
                    return N0
        if a[0] in ('str',) and b == N0:
            return N0
        if b[0] in ('str',) and a == N0:
            return N0
        if a[0] == 'lam' and b == N0 or b[0] == 'lam' and a == N0:
            return N0
        f = lin.add(to_lin(a), to_lin(b), -1)
        if not f[1]:
            return N1 if f[0] == 0 else N0
        if f[1][0][1] < 0:
            f = lin.scale(f, -1)
        g = 0
        for _, c in f[1]:
            g = lin.gcd(g, abs(c))
        if g > 1:
            if f[0] % g:
                return N0
            f = (f[0] // g, tuple((x, c // g) for x, c in f[1]))
        tn = _tneg(f)
        if tn is not None and tn[2] == 0:
            # the remainder is zero exactly when the floor remainder is
            N, k = tn[0], tn[0][2]
            f = lin.add(f, (0, ((N, k * tn[1]),)))
            if f[1] and f[1][0][1] < 0:
                f = lin.scale(f, -1)
        return ('eq0', f)
    f = lin.add(to_lin(a), to_lin(b), -1)
    if op == '<':
        f = (f[0] + 1, f[1])
    if not f[1]:
        return N1 if f[0] <= 0 else N0
    tn = _tneg(f)
    if tn is not None and tn[1:] == (1, 1):
        # remainder < 0
        return ('le', (1, ((tn[0], -1),)))
    if tn is not None and tn[1:] == (-1, 0):
        # remainder >= 0
        return ('le', (0, ((tn[0], 1),)))
    return ('le', lin.norm(f))


def may_alias(l1, l2):
    if l1 == l2:
        return True
    for x, y in zip(l1, l2):
        if x == y:
            continue
        if x[0] == '[' and y[0] == '[':
            if x[1][0] == 'n' and y[1][0] == 'n':
                return False
            f = lin.add(to_lin(x[1]), to_lin(y[1]), -1)
            return bool(f[1])
        if x[0] == 'deref' or y[0] == 'deref':
            return x[0] == y[0] or x[0] in ('h',) or y[0] in ('h',) or True
        return False
    return True


def mentions(v, pred):
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and pred(v):
        return True
    for x in v:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


class State:
    __slots__ = ('mem', 'cons', 'bools', 'dis', 'ghost', 'trace')

    def __init__(self):
        self.mem = {}
        self.cons = ()
        self.bools = {}
        self.dis = ()
        self.ghost = {}
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.bools = dict(self.bools)
        s.dis = self.dis
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s


class _NoFn:
    q = qs = n = '<static>'
    key = '<static>'
    cls = None
    static = True
    ret = None
    params = []
    d = {}


_NOFN = _NoFn()


class Frame:
    __slots__ = ('fn', 'env', 'this', 'no', 'depth', 'ret')

    def __init__(self, fn, no, depth, this=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.no = no
        self.depth = depth
        self.ret = None


PURE_NONCONST = {'data', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'operator[]', 'at', 'find', 'get', 'operator->',
                 'operator*', 'c_str', 'native_handle', 'value', 'lower_bound', 'upper_bound', 'top', 'size', 'empty', 'count'}
ELEM_REF = {'operator[]', 'at'}

LOCK_GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock', 'folly::SpinLockGuard',
               'folly::RWSpinLock::ReadHolder', 'folly::RWSpinLock::WriteHolder', 'folly::RWSpinLock::UpgradedHolder'}
SHARED_GUARDS = {'std::shared_lock', 'folly::RWSpinLock::ReadHolder'}
MUTEX_LOCK = {'std::mutex::lock', 'std::recursive_mutex::lock', 'folly::SpinLock::lock', 'folly::RWSpinLock::lock', 'std::timed_mutex::lock'}
MUTEX_UNLOCK = {'std::mutex::unlock', 'std::recursive_mutex::unlock', 'folly::SpinLock::unlock', 'folly::RWSpinLock::unlock', 'std::timed_mutex::unlock'}


def congruent(v, w):
    """v with the inner reductions that do not matter modulo 2^w left out"""
    f = to_lin(v)
    if any(a[0] == 'trunc' and a[1] >= w for a, _ in f[1]):
        g = (f[0], ())
        for a, k in f[1]:
            g = lin.add(g, to_lin(a[3]) if a[0] == 'trunc' and a[1] >= w else (0, ((a, 1),)), k)
        return congruent(from_lin(g), w)
    m = 1 << w
    if f[1] and not -m // 2 <= f[0] < m // 2:
        return from_lin(((f[0] + m // 2) % m - m // 2, f[1]))
    return v


class Interp:
    def __init__(self, prog, max_depth=12, max_paths=6000, unroll=16):
        self.P = prog
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.unroll = unroll
        self.hooks = {}
        self.bounds = {}
        self.counter = 0
        self.frameno = 0
        self.event_filter = None      # callable(name) -> bool ; None records everything
        self.opaque = set()           # qualified names never inlined
        self.opaque_pred = None
        self.on_event = None          # callable(interp, st, ev)
        self.on_read = None           # callable(interp, st, loc, node)
        self.on_write = None
        self.snap = None              # callable(interp, st) recorded with each event
        self.on_loop = None
        self.on_pseudo = None         # callable(interp, st, frame, node, loc): explicit destruction of a scalar
        self.devirt = {}              # qs of virtual -> list of Func
        self.stack = []
        self.inlined = set()
        self.stats = {'paths': 0, 'calls': 0, 'loops': 0}
        self.throwing = None          # callable(qs) -> bool : opaque call may also throw
        self.split_div = 0
        self.exact_casts = False
        self.exact_arith = False      # results of integer + - * that may leave their type are unknown values
        self.on_long_loop = None      # callable(interp, st, frame, node): a loop has not ended after the bound
        self.on_overflow = None       # callable(interp, st, frame, node, value): signed arithmetic may overflow
        self.div_check = None
        self.deadline = None
        self.line = 0
        self.tables = {}
        self.inline_external = False
        self.loop_templates = None
        self.range_elems = None       # callable(interp, st, loc, type): element locations of a container of known content
        self.std_init = None          # callable(st, node, array value): value of a std::initializer_list
        self.const_objs = {}
        self.stream_items = False     # record every inserted operand as an event
        self.on_stuck = None          # callable(interp, st, frame, node): an iteration may change nothing
        self._keys = ()
        self.conserved = None         # callable(interp, st, vals) -> {name: linear form} checked for invariance
        self.peel_first = False       # follow the first iteration of every loop apart
        self.ptrcast = None           # callable(interp, st, value, from type, to type): pointer after a bit cast
        self.load_hook = None         # callable(interp, st, loc, type): value of memory not written yet, or None
        self.fork_unroll = False      # unroll loops whose test forks while they stay small

    # ------------------------------------------------------------ symbols
    def fresh(self, tag, t=None):
        self.counter += 1
        v = ('sym', tag, self.counter)
        self.typed(v, t)
        return v

    def typed(self, v, t):
        """record the range of an opaque symbol from its type"""
        if t is None or v in self.bounds:
            return v
        t = t.strip_ref() if t.k in ('ref', 'rref') else t
        if t is None:
            return v
        if t.k == 'bool':
            self.bounds[v] = (0, 1)
        elif t.k == 'int' and t.w:
            self.bounds[v] = (0, (1 << t.w) - 1) if t.u else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
        elif t.k == 'ptr':
            self.bounds[v] = (0, None)
        return v

    # ------------------------------------------------------------ facts
    def _cons_for(self, st, atoms):
        rel_, seeds = lin.relevant(st.cons, atoms)
        extra = []
        for a in seeds:
            b = self.bounds.get(a)
            if b:
                if b[0] is not None:
                    extra.append((b[0], ((a, -1),)))
                if b[1] is not None:
                    extra.append((-b[1], ((a, 1),)))
        cs = list(rel_) + extra
        # disequalities tighten touching bounds
        for d in st.dis:
            if d[1] and all(a in seeds for a, _ in d[1]):
                neg = lin.scale(d, -1)
                # d<=0 entailed  -> d<=-1 ; d>=0 entailed -> d>=1
                if lin.infeasible(cs + [(1 - d[0], tuple((x, -c) for x, c in d[1]))]):
                    cs.append((d[0] + 1, d[1]))
                elif lin.infeasible(cs + [(1 - neg[0], tuple((x, -c) for x, c in neg[1]))]):
                    cs.append((neg[0] + 1, neg[1]))
        return cs

    def entails_le(self, st, f):
        """state entails f <= 0"""
        if not f[1]:
            return f[0] <= 0
        cs = self._cons_for(st, [a for a, _ in f[1]])
        return lin.infeasible(cs + [(1 - f[0], tuple((x, -c) for x, c in f[1]))])

    def entails(self, st, t):
        return self.decide(st, t) is True

    def prove(self, st, t, depth=20):
        """entailment with case splits on boolean, sign-of-dividend and table-index atoms"""
        if self.decide(st, t) is True:
            return True
        if depth <= 0 or t[0] not in ('le', 'eq0', 'not'):
            return False
        f = t[1] if t[0] != 'not' else t[1][1]
        if isinstance(f, bool) or not isinstance(f, tuple) or len(f) != 2:
            return False
        goal = [a for a, _ in f[1]]
        rel_, seeds = lin.relevant(st.cons, goal)
        order = goal + sorted((a for a in seeds if a not in goal), key=repr)
        # boolean atoms inside dividends come first
        for a in order:
            if a[0] != 'b2i':
                continue
            at = (0, ((a, 1),))
            if self.entails_le(st, at) or self.entails_le(st, (1, ((a, -1),))):
                continue
            for b in (True, False):
                s2 = st.copy()
                if not self.assume(s2, a[1], b):
                    continue
                s2.cons = s2.cons + ((at, (0, ((a, -1),))) if not b else ((-1, ((a, 1),)), (1, ((a, -1),))))
                if lin.infeasible(self._cons_for(s2, goal)):
                    continue
                if not self.prove(s2, t, depth - 1):
                    return False
            return True
        for a in order:
            if a[0] == 'tneg':
                if ('signed', a) in st.bools:
                    continue
                x = to_lin(a[1])
                r = lin.add(x, to_lin(self.floordiv(st, a[1], a[2])), -a[2])
                for neg in (False, True):
                    s2 = st.copy()
                    s2.bools[('signed', a)] = True
                    if neg:
                        s2.cons = s2.cons + (lin.add(x, (1, ())), lin.add(r, (0, ((a, a[2] - 1),)), -1))
                    else:
                        s2.cons = s2.cons + (lin.scale(x, -1), (0, ((a, 1),)))
                    if lin.infeasible(self._cons_for(s2, goal)):
                        continue
                    if not self.prove(s2, t, depth - 1):
                        return False
                return True
        return False

    def decide(self, st, t):
        """True / False / None"""
        k = t[0]
        if k == 'n':
            return t[1] != 0
        if k == 'not':
            r = self.decide(st, t[1])
            return None if r is None else not r
        if k == 'ptr' or k == 'str' or k == 'lam':
            return True
        b = st.bools.get(t)
        if b is not None:
            return b
        if k == 'le':
            f = t[1]
            if self.entails_le(st, f):
                return True
            if self.entails_le(st, (1 - f[0], tuple((x, -c) for x, c in f[1]))):
                return False
            return None
        if k == 'eq0':
            f = t[1]
            n = lin.scale(f, -1)
            if f in st.dis or n in st.dis:
                return False
            cs = self._cons_for(st, [a for a, _ in f[1]])
            lt = lin.infeasible(cs + [(1 + f[0], f[1])])      # f <= -1 impossible
            gt = lin.infeasible(cs + [(1 + n[0], n[1])])      # f >= 1 impossible
            if lt and gt:
                return True
            if lin.infeasible(cs + [f, n]):
                return False
            # f == 0 would force a recorded disequality to fail
            fa = {a for a, _ in f[1]}
            for d in st.dis:
                da = {a for a, _ in d[1]}
                if fa & da:
                    c2 = self._cons_for(st, list(fa | da)) + [f, n]
                    if lin.infeasible(c2 + [(1 + d[0], d[1])]) and lin.infeasible(c2 + [(1 - d[0], tuple((x, -c) for x, c in d[1]))]):
                        return False
            return None
        if k in ('fcmp', 'eqv'):
            return None
        # numeric truthiness of anything else
        return self.decide(st, cmp_term('!=', t, N0)) if t[0] != 'not' else None

    def assume(self, st, t, val=True):
        """adds t==val in place; False if contradictory"""
        while t[0] == 'not':
            t = t[1]
            val = not val
        k = t[0]
        if k == 'n':
            return (t[1] != 0) == val
        if k in ('ptr', 'str', 'lam'):
            return val
        d = self.decide(st, t)
        if d is not None:
            return d == val
        if k == 'le':
            f = t[1]
            if not val:
                f = (1 - f[0], tuple((x, -c) for x, c in f[1]))
            st.cons = st.cons + (f,)
        elif k == 'eq0':
            f = t[1]
            if val:
                st.cons = st.cons + (f, lin.scale(f, -1))
            else:
                st.dis = st.dis + (f,)
        elif k in ('fcmp', 'eqv', 'pred'):
            st.bools[t] = val
        else:
            return self.assume(st, cmp_term('!=', t, N0), val)
        return True

    def split(self, st, t):
        """[(state, bool)] for the feasible truth values of t"""
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        out = []
        for b in (True, False):
            s = st.copy()
            if self.assume(s, t, b):
                out.append((s, b))
        return out

    # ------------------------------------------------------------ memory
    def load(self, st, loc, t=None):
        m = st.mem
        v = m.get(loc)
        if v is not None:
            if self._has_sub(st, loc):
                return self.snapshot(st, loc)
            return v
        n = len(loc)
        for i in range(n - 1, 0, -1):
            v = m.get(loc[:i])
            if v is not None:
                if self._has_sub(st, loc):
                    return self.snapshot(st, loc)
                return self._proj(v, loc[i:], t)
        if self._has_sub(st, loc):
            return self.snapshot(st, loc)
        if self.load_hook is not None:
            r = self.load_hook(self, st, loc, t)
            if r is not None:
                return r
        r = self.root_value(st, loc, t)
        if r is not None:
            return r
        return self.typed(('init', loc), t)

    def root_value(self, st, loc, t):
        r = loc[0]
        if r[0] == 'g':
            return self.global_value(st, r[1], loc[1:], t)
        return None

    def global_value(self, st, q, sels, t):
        if q == 'fLI::FLAGS_minloglevel':
            return N0       # fatal messages are not suppressed
        g = self.P.globals.get(q)
        gt = self.P.global_type(q)
        if g is None or gt is None:
            return None
        if not (gt.const or (gt.k == 'array' and gt.p.const)):
            return None
        n = self.P.global_init(q)
        if n is None:
            return None
        r = self.const_project(n, sels, t)
        if r is None and gt.k == 'rec' and sels and gt.const:
            c = self.const_object(q, n)
            if c is not None:
                r = c.mem.get((('g', q),) + sels)
        return r

    def const_object(self, q, n):
        """the fields a constant object has after its constructor"""
        if q in self.const_objs:
            return self.const_objs[q]
        self.const_objs[q] = None
        saved = (self.on_event, self.on_read, self.on_write, self.div_check, self.stack, self._keys)
        self.on_event = self.on_read = self.on_write = self.div_check = None
        self.stack, self._keys = [], ()
        try:
            outs = self.into(State(), Frame(_NOFN, 0, -1), n, (('g', q),))
            if len(outs) == 1 and outs[0][1] == 'v':
                self.const_objs[q] = outs[0][0]
        except (Unsupported, Budget, KeyError, AttributeError):
            pass
        finally:
            self.on_event, self.on_read, self.on_write, self.div_check, self.stack, self._keys = saved
        return self.const_objs[q]

    def const_project(self, n, sels, t):
        while n is not None and n['k'] in ('Full', 'Mat', 'Bind', 'Cast', 'StdInit') and 'c' not in n:
            n = n['e']
        if n is None:
            return None
        if not sels:
            if 'c' in n and not isinstance(n['c'], dict):
                return num(int(n['c']))
            if n['k'] == 'Int':
                return num(int(n['v'])) if not isinstance(n['v'], dict) else None
            if n['k'] == 'Str':
                return ('str', n['v'])
            return None
        s = sels[0]
        if s[0] == '[' and n['k'] == 'InitList':
            if s[1][0] == 'n':
                i = s[1][1]
                if 0 <= i < len(n['a']):
                    return self.const_project(n['a'][i], sels[1:], t)
                return None
            vals = [self.const_project(x, sels[1:], t) for x in n['a']]
            if vals and all(v is not None and v[0] == 'n' for v in vals):
                xs = tuple(v[1] for v in vals)
                a = ('tab', xs, s[1])
                self.bounds[a] = (min(xs), max(xs))
                return a
        return None

    def _proj(self, v, sels, t):
        if v[0] == 'agg':
            d = dict(v[2])
            if sels in d:
                subs = tuple((p[len(sels):], x) for p, x in v[2] if p[:len(sels)] == sels)
                return d[sels] if len(subs) == 1 else ('agg', d[sels], subs)
            for i in range(len(sels) - 1, 0, -1):
                if sels[:i] in d:
                    return self._proj(d[sels[:i]], sels[i:], t)
            subs = tuple((p[len(sels):], x) for p, x in v[2] if p[:len(sels)] == sels)
            w = self._proj(v[1], sels, t) if v[1] is not None else None
            if subs:
                return ('agg', w, subs)
            return w if w is not None else self.typed(('uninit',) + sels, t)
        if v[0] == 'zero':
            return N0 if (t is None or t.k != 'rec') else v
        return self.typed(('fld', v) + sels, t)

    def _has_sub(self, st, loc):
        n = len(loc)
        for k in st.mem:
            if len(k) > n and k[:n] == loc:
                return True
        return False

    def snapshot(self, st, loc):
        n = len(loc)
        subs = tuple(sorted(((k[n:], v) for k, v in st.mem.items() if len(k) > n and k[:n] == loc), key=repr))
        w = st.mem.get(loc)
        if w is None:
            w = None
            for i in range(n - 1, 0, -1):
                x = st.mem.get(loc[:i])
                if x is not None:
                    w = self._proj(x, loc[i:], None)
                    break
            if w is None:
                w = ('init', loc)
        return ('agg', w, subs)

    def store(self, st, loc, v, node=None):
        if self.on_write:
            self.on_write(self, st, loc, v, node)
        n = len(loc)
        m = st.mem
        dead = [k for k in m if len(k) >= n and k[:n] == loc]
        for k in dead:
            del m[k]
        # symbolic array index may alias constant ones
        for i, s in enumerate(loc):
            if s[0] == '[':
                for k in [k for k in m if len(k) > i and k[:i] == loc[:i] and k[i] != s and k[i][0] == '[' and may_alias(k[:i + 1], loc[:i + 1])]:
                    del m[k]
        if v[0] == 'agg':
            if v[1] is not None:
                m[loc] = v[1]
            for p, x in v[2]:
                m[loc + p] = x
        else:
            m[loc] = v

    def drop(self, st, loc):
        n = len(loc)
        for k in [k for k in st.mem if k[:n] == loc]:
            del st.mem[k]

    # ------------------------------------------------------------ helpers
    def bind(self, outs, f):
        r = []
        for o in outs:
            if o[1] == 'v':
                r.extend(f(o[0], o[2]))
            else:
                r.append(o)
        if len(r) > self.max_paths:
            raise Budget('too many paths (%d) in %s' % (len(r), self.stack[-1] if self.stack else '?'))
        return r

    def ok(self, st, v):
        return [(st, 'v', v)]

    def event(self, st, fr, node, name, recv=None, args=(), ret=None):
        if self.event_filter is None or self.event_filter(name):
            ev = Ev(name, recv, tuple(args), ret, node.get('l', 0) if node else 0, fr.fn.file if fr else '', st.ghost.get('locks', ()),
                    self.snap(self, st) if self.snap else None)
            st.trace = st.trace + (ev,)
            if self.on_event:
                self.on_event(self, st, ev)
        return st

    # ------------------------------------------------------------ lvalues
    def lv(self, st, fr, n):
        """outcomes whose value is ('ref', loc)"""
        k = n['k']
        if k == 'Ref':
            dk = n['dk']
            if dk in ('local', 'param', 'binding'):
                return self.ok(st, ('ref', self.var_loc(st, fr, n)))
            if dk in ('global', 'slocal'):
                return self.ok(st, ('ref', (('g', n.get('q', n['n'])),)))
            if dk == 'func':
                return self.ok(st, ('ref', (('fn', n['fn'], n['q']),)))
            return self.ok(st, ('ref', (('x', n.get('q', n['n'])),)))
        if k == 'This':
            raise Unsupported('this as lvalue')
        if k == 'Mem':
            sel = ('.', n['n'])
            if n.get('arrow'):
                def f(s, p):
                    return self.ok(s, ('ref', self.deref(s, p) + (sel,)))
                return self.bind(self.ev(st, fr, n['b']), f)
            def g(s, r):
                return self.ok(s, ('ref', self.norm_ref(s, r[1] + (sel,), n)))
            return self.bind(self.lv(st, fr, n['b']), g)
        if k == 'Idx':
            def f(s, b):
                def g(s2, i):
                    return self.ok(s2, ('ref', self.deref(s2, self.padd(b, i))))
                return self.bind(self.ev(s, fr, n['b']), g)
            return self.bind(self.ev(st, fr, n['a']), f)
        if k == 'Un' and n['op'] == '*':
            return self.bind(self.ev(st, fr, n['e']), lambda s, p: self.ok(s, ('ref', self.deref(s, p))))
        if k == 'Un' and n['op'] in ('++', '--') and not n.get('post'):
            return self.incdec(st, fr, n, True)
        if k == 'Asg':
            return self.assign(st, fr, n, True)
        if k == 'Bin' and n['op'] == ',':
            return self.bind(self.ev(st, fr, n['a']), lambda s, v: self.lv(s, fr, n['b']))
        if k == 'Cond':
            return self.cond(st, fr, n['c0'], lambda s: self.lv(s, fr, n['a']), lambda s: self.lv(s, fr, n['b']))
        if k == 'Cast':
            e = n['e']
            if n['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic', 'ConstructorConversion', 'UserDefinedConversion'):
                if e.get('lv') or e['k'] in ('Mat', 'Mem', 'Full'):
                    return self.lv(st, fr, e)
                if n['ck'] == 'NoOp' and e['k'] == 'Cast':
                    return self.lv(st, fr, e)
            if n['ck'] == 'LValueToRValue' and e.get('lv'):
                return self.lv(st, fr, e)
            return self.temp_of(st, fr, n)
        if k in ('Full', 'Bind'):
            if k == 'Full':
                return self.full(st, fr, n, self.lv)
            return self.temp_of(st, fr, n)
        if k == 'Mat':
            return self.temp_of(st, fr, n['e'], n)
        if k == 'Call':
            def f(s, v):
                return self.ok(s, ('ref', self.as_loc(s, fr, v, n)))
            return self.bind(self.call(st, fr, n), f)
        if k == 'Str':
            return self.ok(st, ('ref', (('lit', n['v']),)))
        if k == 'StmtExpr' or k == 'Opaque':
            return self.lv(st, fr, n['e']) if n.get('e') else self.ok(st, ('ref', (('x', 'opaque'),)))
        return self.temp_of(st, fr, n)

    def norm_ref(self, st, loc, n):
        # member of reference type
        t = n.get('t')
        v = st.mem.get(loc)
        if v is not None and v[0] == 'ref':
            return v[1]
        return loc

    def as_loc(self, st, fr, v, n):
        if v[0] == 'ref':
            return v[1]
        if n.get('lv'):
            return (('deref', ('addr', v)),)
        loc = self.new_temp()
        self.store(st, loc, v)
        return loc

    def new_temp(self):
        self.counter += 1
        return (('t', self.counter),)

    def temp_of(self, st, fr, n, mat=None):
        loc = self.new_temp()
        def f(s, _):
            if mat is not None and not mat.get('ext'):
                t = n.get('t')
                if t is not None and t.k == 'rec' and not t.trivdtor:
                    s.ghost['temps'] = s.ghost.get('temps', ()) + ((loc, t),)
            elif mat is not None:
                t = n.get('t')
                if t is not None and t.k == 'rec' and not t.trivdtor:
                    s.ghost['ext'] = s.ghost.get('ext', ()) + ((loc, t),)
            return self.ok(s, ('ref', loc))
        return self.bind(self.into(st, fr, n, loc), f)

    def var_loc(self, st, fr, n):
        d = n['d']
        loc = fr.env.get(d)
        if loc is None:
            loc = (('v', fr.no, d, n['n']),)
            fr.env[d] = loc
        v = st.mem.get(loc)
        if v is not None and v[0] == 'ref':
            return v[1]
        return loc

    def deref(self, st, p):
        if p[0] == 'ptr':
            return p[1]
        if p[0] == 'ref':
            return self.deref(st, self.load(st, p[1]))
        if p[0] == 'str':
            return (('lit', p[1]), ('[', N0))
        f = to_lin(p)
        # pointer value plus an offset: index from the pointer atom
        if p[0] == 'lin':
            for a, c in f[1]:
                if c == 1 and a[0] == 'ptr':
                    off = from_lin(lin.add(f, (0, ((a, -1),))))
                    return self.ptr_off(a, off)[1]
        return (('deref', p),)

    def ptr_off(self, p, off):
        loc = p[1]
        if loc and loc[-1][0] == '[':
            return ('ptr', loc[:-1] + (('[', vadd(loc[-1][1], off)),))
        return None

    def padd(self, p, i, k=1):
        if i == N0:
            return p
        if k != 1:
            i = vmul(num(k), i)
        if p[0] == 'ptr':
            r = self.ptr_off(p, i)
            if r is not None:
                return r
        if p[0] == 'lin':
            pass
        return vadd(p, i)

    # ------------------------------------------------------------ rvalues
    def ev(self, st, fr, n):
        c = n.get('c')
        if c is not None:
            if isinstance(c, dict):
                return self.ok(st, num(int(c['big'])))
            return self.ok(st, num(int(c)))
        k = n['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expr %s' % k)
        return m(st, fr, n)

    def ev_Int(self, st, fr, n):
        v = n['v']
        return self.ok(st, num(int(v['big']) if isinstance(v, dict) else int(v)))

    def ev_Float(self, st, fr, n):
        try:
            return self.ok(st, fconst(n['v']))
        except ValueError:
            return self.ok(st, ('flit', n['v']))

    def ev_Str(self, st, fr, n):
        return self.ok(st, ('str', n['v']))

    def ev_Null(self, st, fr, n):
        return self.ok(st, N0)

    def ev_This(self, st, fr, n):
        if fr.this is None:
            return self.ok(st, ('ptr', (('this',),)))
        return self.ok(st, ('ptr', fr.this))

    def ev_Ref(self, st, fr, n):
        if n['dk'] == 'enumc':
            v = n['v']
            return self.ok(st, num(int(v['big']) if isinstance(v, dict) else int(v)))
        if n['dk'] == 'func':
            return self.ok(st, ('fn', n['fn'], n['q']))
        return self.rv(st, fr, n)

    def rv(self, st, fr, n):
        def f(s, r):
            v = self.load(s, r[1], n.get('t'))
            if self.on_read:
                self.on_read(self, s, r[1], n)
            return self.ok(s, v)
        return self.bind(self.lv(st, fr, n), f)

    def ev_Mem(self, st, fr, n):
        if not n.get('lv') and not n.get('arrow') and not n['b'].get('lv') and n['b']['k'] not in ('Mat',):
            def f(s, v):
                return self.ok(s, self._proj(v, (('.', n['n']),), n.get('t')))
            return self.bind(self.ev(st, fr, n['b']), f)
        return self.rv(st, fr, n)

    def ev_MemFn(self, st, fr, n):
        return self.ok(st, ('fn', n['fn'], n['q']))

    ev_Idx = rv

    def ev_Full(self, st, fr, n):
        return self.full(st, fr, n, self.ev)

    def full(self, st, fr, n, f):
        base = st.ghost.get('temps', ())
        st.ghost['temps'] = ()
        outs = f(st, fr, n['e'])
        return [self.end_full(o, fr, base) for o in outs] if not any(o[0].ghost.get('temps') for o in outs) else [x for o in outs for x in self.kill_temps(o, fr, base)]

    def end_full(self, o, fr, base):
        o[0].ghost['temps'] = base
        return o

    def kill_temps(self, o, fr, base):
        ts = o[0].ghost.get('temps', ())
        o[0].ghost['temps'] = base
        # keep temporaries that the result refers to alive as values
        outs = [o]
        for loc, t in reversed(ts):
            nxt = []
            for q in outs:
                if q[1] == 'abort':
                    nxt.append(q)
                    continue
                for d in self.destroy(q[0], fr, loc, t):
                    nxt.append((d[0], q[1], q[2]) if d[1] == 'v' else d)
            outs = nxt
        return outs

    def ev_Bind(self, st, fr, n):
        return self.ev(st, fr, n['e'])

    def ev_Mat(self, st, fr, n):
        return self.rv(st, fr, n)

    def ev_Zero(self, st, fr, n):
        t = n.get('t')
        return self.ok(st, ('zero', t.s) if t is not None and t.k in ('rec', 'array') else N0)

    def ev_Trait(self, st, fr, n):
        return self.ok(st, self.fresh('trait', n.get('t')))

    def ev_Typeid(self, st, fr, n):
        return self.ok(st, ('app', 'typeid'))

    def ev_Opaque(self, st, fr, n):
        return self.ev(st, fr, n['e']) if n.get('e') else self.ok(st, self.fresh('opaque', n.get('t')))

    def ev_ArrayCopy(self, st, fr, n):
        return self.ev(st, fr, n['e'])

    def ev_Other(self, st, fr, n):
        return self.ok(st, self.fresh('other:' + n.get('sc', ''), n.get('t')))

    def ev_StmtExpr(self, st, fr, n):
        outs = self.exec(st, fr, n['s'])
        return [(s, 'v' if k == 'n' else k, v if v is not None else VOID) for s, k, v in outs]

    def ev_InitList(self, st, fr, n):
        t = n.get('t')
        if t is not None and t.k not in ('rec', 'array') and len(n['a']) == 1:
            return self.ev(st, fr, n['a'][0])
        if t is not None and t.k not in ('rec', 'array') and not n['a']:
            return self.ok(st, N0)
        loc = self.new_temp()
        def f(s, _):
            v = self.load(s, loc)
            self.drop(s, loc)
            return self.ok(s, v)
        return self.bind(self.into(st, fr, n, loc), f)

    def ev_StdInit(self, st, fr, n):
        outs = self.rv(st, fr, n['e']) if n['e'].get('lv') or n['e']['k'] == 'Mat' else self.ev(st, fr, n['e'])
        if self.std_init is not None:
            return self.bind(outs, lambda s, v: self.ok(s, self.std_init(s, n, v)))
        return outs

    def ev_Lambda(self, st, fr, n):
        fn = self.P.funcs.get(n['fn'])
        outs = [(st, 'v', ())]
        for c in n['caps']:
            def f(s, acc, c=c):
                if c.get('this'):
                    return self.ok(s, acc + (('this', 0, fr.this if fr.this is not None else (('this',),)),))
                if c.get('ref') and not c.get('initcap'):
                    loc = self.var_loc(s, fr, {'d': c['d'], 'n': c['n']})
                    return self.ok(s, acc + (('ref', c['d'], loc),))
                e = c.get('init')
                if e is None:
                    loc = self.var_loc(s, fr, {'d': c['d'], 'n': c['n']})
                    return self.ok(s, acc + (('val', c['d'], self.load(s, loc)),))
                def g(s2, v):
                    if c.get('ref'):
                        return self.ok(s2, acc + (('ref', c['d'], v[1]),))
                    return self.ok(s2, acc + (('val', c['d'], v),))
                if c.get('ref'):
                    return self.bind(self.lv(s, fr, e), g)
                return self.bind(self.ev(s, fr, e), g)
            outs = self.bind(outs, f)
        fnkeys = (n['fn'],) + tuple(n.get('specs', ()))
        return self.bind(outs, lambda s, acc: self.ok(s, ('lam', fnkeys, acc)))

    def fit(self, st, fr, n, v, t):
        """the value of integer arithmetic in type t, given its mathematical value"""
        if not self.exact_arith or t is None or t.k != 'int' or not t.w or v[0] in ('ptr', 'addr'):
            return v
        lo, hi = (0, (1 << t.w) - 1) if t.u else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
        f = to_lin(v)
        if self.entails_le(st, lin.add(f, (-hi, ()))) and self.entails_le(st, lin.add(lin.scale(f, -1), (lo, ()))):
            return v
        if not t.u and self.on_overflow:
            self.on_overflow(self, st, fr, n, v)
        if v[0] == 'n':
            x = v[1] & ((1 << t.w) - 1)
            return num(x - (1 << t.w) if not t.u and x >> (t.w - 1) else x)
        w = self.wrapped(st, v, f, lo, hi, 1 << t.w)
        return w if w is not None else self.typed(('trunc', t.w, t.u, congruent(v, t.w)), t)

    def wrapped(self, st, v, f, lo, hi, m):
        """the value of v modulo m when the state tells how often it wraps"""
        for k in (m, -m):
            g = lin.add(f, (k, ()))
            if self.entails_le(st, lin.add(g, (-hi, ()))) and self.entails_le(st, lin.add(lin.scale(g, -1), (lo, ()))):
                return vadd(v, num(k))
        return None

    def fit_outs(self, st, fr, n, v, t):
        """outcomes of integer arithmetic with mathematical value v: one case per wrap when the range is small"""
        w = self.fit(st, fr, n, v, t)
        if w[0] != 'trunc':
            return self.ok(st, w)
        lo, hi = (0, (1 << t.w) - 1) if t.u else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
        m = 1 << t.w
        f = to_lin(v)
        if not (self.entails_le(st, lin.add(f, (-hi - m, ()))) and self.entails_le(st, lin.add(lin.scale(f, -1), (lo - m, ())))):
            return self.ok(st, w)
        outs = []
        for k in (0, -1, 1):
            x = vadd(v, num(k * m))
            s = st.copy()
            if self.assume(s, cmp_term('<=', x, num(hi))) and self.assume(s, cmp_term('>=', x, num(lo))):
                outs.append((s, 'v', x))
        return outs

    def ev_Un(self, st, fr, n):
        op = n['op']
        if op in ('++', '--'):
            return self.incdec(st, fr, n, False)
        if op == '&':
            if n['e']['k'] == 'MemFn' or (n['e']['k'] == 'Ref' and n['e'].get('dk') == 'func'):
                return self.ev(st, fr, n['e'])
            return self.bind(self.lv(st, fr, n['e']), lambda s, r: self.ok(s, self.addr(r[1])))
        if op == '*':
            return self.rv(st, fr, n)
        def f(s, v):
            if op == '!':
                return self.ok(s, mk_not(self.boolify(v)))
            if op == '-':
                t = n.get('t')
                if t is not None and t.k == 'float':
                    return self.ok(s, fmulv(fconst(-1), v))
                return self.ok(s, self.fit(s, fr, n, from_lin(lin.scale(to_lin(v), -1)), t))
            if op == '+' or op == '__extension__':
                return self.ok(s, v)
            if op == '~':
                return self.ok(s, vadd(from_lin(lin.scale(to_lin(v), -1)), num(-1)))
            return self.ok(s, self.typed(('app', 'un' + op, v), n.get('t')))
        return self.bind(self.ev(st, fr, n['e']), f)

    def addr(self, loc):
        if len(loc) == 1 and loc[0][0] == 'deref':
            v = loc[0][1]
            if v[0] != 'addr':
                return v
        return ('ptr', loc)

    def boolify(self, v):
        if v[0] in ('le', 'eq0', 'not', 'fcmp', 'eqv', 'pred'):
            return v
        if v[0] == 'b2i':
            return v[1]
        if v[0] == 'n':
            return N1 if v[1] else N0
        if v[0] in ('ptr', 'str', 'lam', 'fn'):
            return N1
        if v[0] == 'chk':
            return self.boolify(v[1])       # the message of a failed check
        return cmp_term('!=', v, N0)

    def incdec(self, st, fr, n, want_lv):
        d = 1 if n['op'] == '++' else -1
        def f(s, r):
            old = self.load(s, r[1], n.get('t'))
            t = n.get('t')
            if t is not None and t.k == 'ptr':
                new = self.padd(old, num(d))
            elif t is not None and t.k == 'float':
                new = ('app', 'f+', old, fconst(d))
            else:
                new = self.fit(s, fr, n, vadd(old, num(d)), t)
            self.store(s, r[1], new, n)
            if want_lv:
                return self.ok(s, r)
            return self.ok(s, old if n.get('post') else new)
        return self.bind(self.lv(st, fr, n['e']), f)

    def assign(self, st, fr, n, want_lv):
        op = n['op']
        t = n.get('t')
        def fin(s, r, v):
            self.store(s, r[1], v, n)
            return self.ok(s, r if want_lv else v)
        if op == '=':
            # C++17: right operand first
            def f(s, v):
                return self.bind(self.lv(s, fr, n['a']), lambda s2, r: fin(s2, r, v))
            return self.bind(self.ev(st, fr, n['b']), f)
        def f(s, v):
            def g(s2, r):
                old = self.load(s2, r[1], n['a'].get('t'))
                return self.bind(self.arith(s2, fr, n, op[:-1], old, v, n['a'].get('t'), n.get('ct') or t), lambda s3, w: fin(s3, r, self.conv(s3, w, n.get('ct'), n['a'].get('t'))))
            return self.bind(self.lv(s, fr, n['a']), g)
        return self.bind(self.ev(st, fr, n['b']), f)

    def ev_Asg(self, st, fr, n):
        return self.assign(st, fr, n, False)

    def ev_Bin(self, st, fr, n):
        op = n['op']
        if op == '&&':
            return self.cond(st, fr, n['a'], lambda s: self.cond_value(s, fr, n['b']), lambda s: self.ok(s, N0))
        if op == '||':
            return self.cond(st, fr, n['a'], lambda s: self.ok(s, N1), lambda s: self.cond_value(s, fr, n['b']))
        if op == ',':
            return self.bind(self.ev(st, fr, n['a']), lambda s, v: self.ev(s, fr, n['b']))
        def f(s, a):
            def g(s2, b):
                return self.arith(s2, fr, n, op, a, b, n['a'].get('t'), n.get('t'))
            return self.bind(self.ev(s, fr, n['b']), g)
        return self.bind(self.ev(st, fr, n['a']), f)

    def signs(self, st, v):
        """[(state, v is negative)]"""
        if v[0] == 'app' and v[1] in ('&', '|', '^') and len(v) == 4:
            outs = []
            for s, x in self.signs(st, v[2]):
                for s2, y in self.signs(s, v[3]):
                    outs.append((s2, {'&': x and y, '|': x or y, '^': x != y}[v[1]]))
            return outs
        return self.split(st, cmp_term('<', v, N0))

    def cond_value(self, st, fr, n):
        return self.bind(self.ev(st, fr, n), lambda s, v: self.ok(s, self.boolify(v)))

    def arith(self, st, fr, n, op, a, b, ta, t):
        isf = ta is not None and ta.k == 'float' or (n.get('b') or {}).get('t') is not None and n['b']['t'].k == 'float'
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isf:
                if a[0] == 'fm' and b[0] == 'fm' and not a[2] and not b[2] and max(abs(a[1]), abs(b[1])) < 1 << 53 and a[1].denominator == 1 and b[1].denominator == 1:
                    x, y = a[1], b[1]
                    return self.ok(st, num(int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])))
                if op in ('!=',):
                    return self.ok(st, mk_not(('fcmp', '==') + tuple(sorted((a, b), key=repr))))
                if op == '==':
                    return self.ok(st, ('fcmp', '==') + tuple(sorted((a, b), key=repr)))
                if op == '>':
                    return self.ok(st, ('fcmp', '<', b, a))
                if op == '>=':
                    return self.ok(st, ('fcmp', '<=', b, a))
                return self.ok(st, ('fcmp', op, a, b))
            a = self.numify(a, st)
            b = self.numify(b, st)
            if b == N0 and op in ('<', '>=') and a[0] == 'app' and a[1] in ('&', '|', '^') and len(a) == 4 and ta is not None and ta.k == 'int' and not ta.u:
                # the sign of a bitwise combination is that combination of the signs
                return [(s, 'v', num(int(x == (op == '<')))) for s, x in self.signs(st, a)]
            return self.ok(st, cmp_term(op, a, b))
        if isf:
            if op == '*':
                return self.ok(st, fmulv(a, b))
            if op == '/':
                return self.ok(st, fmulv(a, b, -1))
            if op == '+':
                return self.ok(st, ('app', 'f+') + tuple(sorted((a, b), key=repr)))
            return self.ok(st, ('app', 'f' + op, a, b))
        a = self.numify(a, st)
        b = self.numify(b, st)
        if op == '+':
            if b[0] == 'ptr':
                a, b = b, a
            return self.ok(st, self.padd(a, b)) if a[0] == 'ptr' else self.fit_outs(st, fr, n, vadd(a, b), t)
        if op == '-':
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1][:-1] == b[1][:-1] and a[1][-1][0] == '[' and b[1][-1][0] == '[':
                return self.ok(st, vadd(a[1][-1][1], b[1][-1][1], -1))
            if a[0] == 'ptr' and b[0] != 'ptr':
                return self.ok(st, self.padd(a, b, -1))
            return self.fit_outs(st, fr, n, vadd(a, b, -1), t)
        if op == '*':
            return self.ok(st, self.fit(st, fr, n, vmul(a, b), t))
        if op in ('/', '%'):
            if self.div_check:
                self.div_check(self, st, fr, n, op, a, b)
            if self.split_div and b[0] == 'n' and b[1] > 1 and a[0] != 'n':
                r = self.divide_by_cases(st, op, a, b[1])
                if r is not None:
                    return r
            return self.ok(st, self.divmod_(st, op, a, b, t))
        if op == '<<' and b[0] == 'n':
            return self.ok(st, vmul(a, num(1 << b[1]))) if 0 <= b[1] < 64 else self.ok(st, ('app', '<<', a, b))
        if op == '>>' and b[0] == 'n' and 0 <= b[1] < 64:
            if a[0] == 'n':
                return self.ok(st, num(a[1] >> b[1]))
            # arithmetic shift is floor division
            return self.ok(st, self.floordiv(st, a, 1 << b[1]))
        if op in ('&', '|', '^') and a[0] == 'n' and b[0] == 'n':
            r = {'&': a[1] & b[1], '|': a[1] | b[1], '^': a[1] ^ b[1]}[op]
            return self.ok(st, num(r))
        if op == '&':
            for x, y in ((a, b), (b, a)):
                # a mask of low bits is the remainder of floor division by a power of two
                if x[0] == 'n' and x[1] > 0 and (x[1] & (x[1] + 1)) == 0 and y[0] not in ('le', 'eq0', 'not', 'fcmp', 'eqv', 'pred', 'ptr'):
                    q = self.floordiv(st, y, x[1] + 1)
                    return self.ok(st, from_lin(lin.add(to_lin(y), to_lin(q), -(x[1] + 1))))
        if op in ('&', '|') and t is not None and t.k in ('bool', 'int'):
            ba, bb = a[0] in ('le', 'eq0', 'not', 'fcmp', 'eqv', 'pred'), b[0] in ('le', 'eq0', 'not', 'fcmp', 'eqv', 'pred')
            if ba or bb:
                # boolean operands: split
                outs = []
                for s, x in self.split(st, self.boolify(a)):
                    if (op == '&') == x:
                        for s2, y in self.split(s, self.boolify(b)):
                            outs.append((s2, 'v', num(int(y))))
                    else:
                        outs.append((s, 'v', num(int(x))))
                return outs
        if op in ('|', '^', '+'):
            # disjoint bit ranges add up
            for x, y in ((a, b), (b, a)):
                f = to_lin(x)
                if x[0] == 'lin' and f[0] >= 0:
                    g = f[0]
                    for _, c in f[1]:
                        g = lin.gcd(g, abs(c))
                    k = g & -g
                    if k > 1 and self.entails_le(st, lin.scale(to_lin(y), -1)) and self.entails_le(st, lin.add(to_lin(y), (1 - k, ()))):
                        return self.ok(st, vadd(x, y))
        args = tuple(sorted((a, b), key=repr)) if op in ('&', '|', '^') else (a, b)
        v = ('app', op) + args
        self.typed(v, t)
        if op == '&':
            for x in args:
                if x[0] == 'n' and x[1] >= 0:
                    self.bounds[v] = (0, x[1])
        return self.ok(st, v)

    def numify(self, v, st=None):
        if st is not None and v[0] in ('le', 'eq0', 'not'):
            d = self.decide(st, v)
            if d is not None:
                return num(int(d))
        if v[0] == 'le' and len(v[1][1]) == 1:
            c0, ((x, k),) = v[1]
            if self.bounds.get(x) == (0, 1):
                if (c0, k) == (1, -1):
                    return x
                if (c0, k) == (0, 1):
                    return from_lin((1, ((x, -1),)))
        if v[0] == 'not' and v[1][0] == 'le':
            w = self.numify(v[1])
            return vadd(N1, w, -1)
        if v[0] in ('le', 'eq0', 'not', 'fcmp', 'eqv', 'pred'):
            w = ('b2i', v)
            self.bounds[w] = (0, 1)
            return w
        return v

    def floordiv(self, st, a, k):
        """floor division by a positive constant"""
        f = to_lin(a)
        if all(c % k == 0 for _, c in f[1]):
            return from_lin((f[0] // k, tuple((x, c // k) for x, c in f[1])))
        # multiples of k leave the division
        out = tuple((x, c // k) for x, c in f[1] if c % k == 0)
        m = f[0] // k
        inner = (f[0] - m * k, tuple((x, c) for x, c in f[1] if c % k))
        if self is not None and self.split_div and self.entails_le(st, lin.scale(inner, -1)) and self.entails_le(st, lin.add(inner, (1 - k, ()))):
            return from_lin((m, out))
        q = ('floordiv', from_lin(inner), k)
        # k*q <= a <= k*q + k-1
        c1 = lin.add((0, ((q, k),)), inner, -1)
        c2 = lin.add(lin.add(inner, (0, ((q, k),)), -1), (-(k - 1), ()))
        if c1 not in st.cons:
            st.cons = st.cons + (c1, c2)
        if out or m:
            return from_lin(lin.add(lin.add((m, ()), (0, out)), (0, ((q, 1),))))
        return q

    def divide_by_cases(self, st, op, a, k):
        """one outcome per possible quotient (multiples of the divisor aside) and sign, when the bounds of the symbols leave at most split_div of them"""
        c0, ts = to_lin(a)
        m = c0 // k
        out = (m, tuple((x, c // k) for x, c in ts if c % k == 0))
        inner = (c0 - m * k, tuple((x, c) for x, c in ts if c % k))
        lo = hi = inner[0]
        for x, c in inner[1]:
            if x not in self.bounds:
                return None
            l, h = self.bounds[x]
            lo, hi = lo + (l if c > 0 else h) * c, hi + (h if c > 0 else l) * c
        if hi // k - lo // k >= self.split_div:
            return None
        inn = from_lin(inner)

        def only(ss, *ts):
            for t in ts:
                ss = [y for z in ss for y, w in self.split(z, t) if w]
            return ss
        outs = []
        for q in range(lo // k, hi // k + 1):
            r = vadd(inn, num(-q * k))
            F = from_lin(lin.add(out, (q, ())))
            for z in only([st.copy()], cmp_term('>=', r, N0), cmp_term('<', r, num(k))):
                for y, neg in self.split(z, cmp_term('<', a, N0)):
                    if not neg:
                        outs += self.ok(y, F if op == '/' else r)
                        continue
                    for x, whole in self.split(y, cmp_term('<=', r, N0)):
                        if whole:
                            outs += self.ok(x, F if op == '/' else N0)
                        else:
                            outs += self.ok(x, vadd(F, N1) if op == '/' else vadd(r, num(-k)))
        return outs

    def divmod_(self, st, op, a, b, t):
        if a[0] == 'n' and b[0] == 'n' and b[1] != 0:
            q = abs(a[1]) // abs(b[1])
            if (a[1] < 0) != (b[1] < 0):
                q = -q
            return num(q) if op == '/' else num(a[1] - q * b[1])
        if b == N1:
            return a if op == '/' else N0
        if b[0] == 'n' and b[1] != 0:
            k = abs(b[1])
            f = to_lin(a)
            F = self.floordiv(st, a, k)
            r = lin.add(f, to_lin(F), -k)           # floor remainder, 0..k-1
            if self.entails_le(st, lin.scale(f, -1)) or not r[1] and r[0] == 0:
                N = N0
            elif not r[1]:
                N = self.numify(cmp_term('<', a, N0), st)
            else:
                # 1 exactly when the dividend is negative and not a multiple (truncation rounds up)
                N = ('tneg', a, k)
                self.bounds[N] = (0, 1)
                cs = [lin.add((0, ((N, 1),)), r, -1)]
                if self.entails_le(st, lin.add(f, (1, ()))):
                    cs.append(lin.add(r, (0, ((N, k - 1),)), -1))
                for c in cs:
                    if c not in st.cons:
                        st.cons = st.cons + (c,)
            q = lin.add(to_lin(F), to_lin(N))
            if op == '%':
                return from_lin(lin.add(f, q, -k))
            return from_lin(lin.scale(q, -1) if b[1] < 0 else q)
        return self.typed(('app', op, a, b), t)

    def cond(self, st, fr, c, ft, ff):
        """evaluate c and continue on each feasible outcome"""
        if c['k'] == 'Bin' and c['op'] == '&&' and 'c' not in c:
            return self.cond(st, fr, c['a'], lambda s: self.cond(s, fr, c['b'], ft, ff), ff)
        if c['k'] == 'Bin' and c['op'] == '||' and 'c' not in c:
            return self.cond(st, fr, c['a'], ft, lambda s: self.cond(s, fr, c['b'], ft, ff))
        if c['k'] == 'Un' and c['op'] == '!' and 'c' not in c:
            return self.cond(st, fr, c['e'], ff, ft)
        def f(s, v):
            r = []
            for s2, b in self.split(s, self.boolify(v)):
                r.extend(ft(s2) if b else ff(s2))
            return r
        return self.bind(self.ev(st, fr, c), f)

    def ev_Cond(self, st, fr, n):
        t = n.get('t')
        return self.cond(st, fr, n['c0'], lambda s: self.ev(s, fr, n['a']), lambda s: self.ev(s, fr, n['b']))

    def ev_BCond(self, st, fr, n):
        def f(s, v):
            r = []
            for s2, b in self.split(s, self.boolify(v)):
                r.extend(self.ok(s2, v) if b else self.ev(s2, fr, n['b']))
            return r
        return self.bind(self.ev(st, fr, n['c0']), f)

    def conv(self, st, v, frm, to):
        if to is None or frm is None:
            return v
        if to.k == 'bool':
            return self.boolify(v) if frm.k != 'float' else mk_not(('fcmp', '==', v, fconst(0)))
        if to.k == 'float' and frm.k in ('int', 'bool', 'enum'):
            if v[0] == 'n':
                return fconst(v[1])
            return v
        if to.k in ('int', 'enum') and frm.k == 'float':
            if v[0] == 'fm' and not v[2] and v[1].denominator == 1:
                return num(int(v[1]))
            return self.typed(('app', 'f2i', v), to)
        if to.k == 'int' and self.exact_casts and frm.k in ('int', 'enum', 'bool') and to.w:
            v = self.numify(v, st)
            if frm.w and frm.k != 'enum':
                # widening
                if to.w > frm.w and (frm.u or not to.u) or (to.w == frm.w and to.u == frm.u):
                    return v
            lo, hi = (0, (1 << to.w) - 1) if to.u else (-(1 << (to.w - 1)), (1 << (to.w - 1)) - 1)
            f = to_lin(v)
            if self.entails_le(st, lin.add(f, (-hi, ()))) and self.entails_le(st, lin.add(lin.scale(f, -1), (lo, ()))):
                return v
            if v[0] == 'n':
                x = v[1] & ((1 << to.w) - 1)
                if not to.u and x >> (to.w - 1):
                    x -= 1 << to.w
                return num(x)
            w = self.wrapped(st, v, f, lo, hi, 1 << to.w)
            return w if w is not None else self.typed(('trunc', to.w, to.u, congruent(v, to.w)), to)
        if to.k == 'int' and v[0] == 'n' and to.u and v[1] < 0 and to.w:
            return num(v[1] & ((1 << to.w) - 1))
        return v

    def ev_Cast(self, st, fr, n):
        ck = n['ck']
        e = n['e']
        if ck in ('LValueToRValue',):
            return self.rv(st, fr, e)
        if ck == 'ArrayToPointerDecay':
            if e['k'] == 'Str':
                return self.ev(st, fr, e)
            return self.bind(self.lv(st, fr, e), lambda s, r: self.ok(s, ('ptr', r[1] + (('[', N0),))))
        if ck == 'FunctionToPointerDecay':
            return self.ev(st, fr, e)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return self.ok(st, N0)
        if ck == 'ToVoid':
            return self.bind(self.ev(st, fr, e), lambda s, v: self.ok(s, VOID))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral', 'MemberPointerToBoolean'):
            def conv(s, v):
                if self.split_div and e.get('t') is not None and e['t'].k == 'bool' and n['t'].k == 'int' and v[0] != 'n':
                    return [(y, 'v', num(int(b))) for y, b in self.split(s, self.boolify(v))]
                w = self.conv(s, v, e.get('t'), n.get('t'))
                if w[0] == 'trunc' and self.exact_arith and w != v and w[3] != v and w[1] == n['t'].w:
                    # converting a wrapped result back: one case per wrap
                    on, self.on_overflow = self.on_overflow, None
                    try:
                        return self.fit_outs(s, fr, n, w[3], n['t'])
                    finally:
                        self.on_overflow = on
                return self.ok(s, w)
            return self.bind(self.ev(st, fr, e), conv)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and (e.get('lv') and n.get('lv')):
            return self.rv(st, fr, n)
        if ck == 'Dynamic' and n.get('t') is not None and n['t'].k == 'ptr':
            def f(s, v):
                if v == N0:
                    return self.ok(s, v)
                w = ('dyn', n['t'].p.base if n['t'].p else '?', v)
                outs = []
                p = ('pred', 'isa', n['t'].p.base, v)
                for s2, b in self.split(s, p):
                    outs.append((s2, 'v', v if b else N0))
                return outs
            return self.bind(self.ev(st, fr, e), f)
        if ck == 'BitCast' and self.ptrcast is not None:
            return self.bind(self.ev(st, fr, e), lambda s, v: self.ok(s, self.ptrcast(self, s, v, e.get('t'), n.get('t'))))
        return self.ev(st, fr, e)

    def ev_New(self, st, fr, n):
        at = n['at']
        def go(s, place):
            if place:
                p = place[0]
                loc = self.deref(s, p)
                outs = self.construct_at(s, fr, n, loc)
                self.note_new(outs, fr, n, loc, True)
                return self.bind(outs, lambda s2, _: self.ok(s2, self.addr(loc)))
            self.counter += 1
            loc = (('h', self.counter, at.s if at else ''),)
            if n.get('array'):
                def g(s2, sz):
                    self.event(s2, fr, n, 'operator new[]', None, (sz,), ('ptr', loc))
                    return self.ok(s2, ('ptr', loc + (('[', N0),)))
                return self.bind(self.ev(s, fr, n['size']) if n.get('size') else self.ok(s, N0), g)
            self.event(s, fr, n, 'operator new', None, (), ('ptr', loc))
            return self.bind(self.construct_at(s, fr, n, loc), lambda s2, _: self.ok(s2, ('ptr', loc)))
        outs = [(st, 'v', ())]
        for a in n.get('place', []):
            outs = self.bind(outs, lambda s, acc, a=a: self.bind(self.ev(s, fr, a), lambda s2, v: self.ok(s2, acc + (v,))))
        return self.bind(outs, go)

    def note_new(self, outs, fr, n, loc, placement):
        pass

    def construct_at(self, st, fr, n, loc):
        i = n.get('init')
        if i is None:
            return self.ok(st, VOID)
        return self.into(st, fr, i, loc)

    def ev_PseudoDtor(self, st, fr, n):
        """destruction of a scalar: nothing happens, but its lifetime ends"""
        def g(s, loc):
            if self.on_pseudo:
                self.on_pseudo(self, s, fr, n, loc)
            return self.ok(s, VOID)
        if n.get('arrow'):
            return self.bind(self.ev(st, fr, n['e']), lambda s, p: g(s, self.deref(s, p)))
        return self.bind(self.lv(st, fr, n['e']), lambda s, r: g(s, r[1]))

    def ev_Delete(self, st, fr, n):
        def f(s, p):
            self.event(s, fr, n, 'operator delete', None, (p,))
            t = n['e'].get('t')
            if p != N0 and t is not None and t.p is not None and t.p.k == 'rec' and not n.get('array'):
                return self.bind(self.destroy(s, fr, self.deref(s, p), t.p), lambda s2, _: self.ok(s2, VOID))
            return self.ok(s, VOID)
        return self.bind(self.ev(st, fr, n['e']), f)

    def ev_Throw(self, st, fr, n):
        if n.get('e') is None:
            return [(st, 'throw', ('exc', 'rethrow'))]
        t = n['e'].get('t')
        def f(s, v):
            self.event(s, fr, n, 'throw', None, (t.s if t else '?', v))
            return [(s, 'throw', ('exc', t.s if t is not None else '?', v))]
        return self.bind(self.ev(st, fr, n['e']), f)

    # ------------------------------------------------------------ construction
    def ev_Construct(self, st, fr, n):
        loc = self.new_temp()
        def f(s, _):
            v = self.load(s, loc)
            self.drop(s, loc)
            return self.ok(s, v)
        return self.bind(self.into(st, fr, n, loc), f)

    def into(self, st, fr, n, loc):
        """initialise the object at loc from expression n"""
        k = n['k']
        if k == 'Full':
            base = st.ghost.get('temps', ())
            st.ghost['temps'] = ()
            return [x for o in self.into(st, fr, n['e'], loc) for x in self.kill_temps(o, fr, base)]
        if k == 'Bind' or (k == 'Mat' and not n.get('lv')):
            return self.into(st, fr, n['e'], loc)
        if k == 'Cast' and n['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion') and not n.get('lv'):
            return self.into(st, fr, n['e'], loc)
        if k == 'Construct':
            return self.construct(st, fr, n, loc)
        if k == 'InitList':
            t = n.get('t')
            if t is not None and t.k == 'rec':
                rec = self.P.recs.get(t.rec)
                outs = self.ok(st, VOID)
                if rec is not None and rec.known:
                    names = [f['id'] for f in rec.fields]
                    nb = len(n['a']) - len(names)
                    for i, a in enumerate(n['a']):
                        if i - max(nb, 0) < 0:
                            continue
                        nm = names[i - max(nb, 0)] if i - max(nb, 0) < len(names) else 'f%d' % i
                        outs = self.bind(outs, lambda s, _, a=a, nm=nm: self.into(s, fr, a, loc + (('.', nm),)))
                    return outs
                def g(s, vs):
                    self.store(s, loc, ('app', 'agginit:' + t.base) + vs)
                    return self.ok(s, VOID)
                return self.bind(self.evlist(st, fr, n['a']), g)
            if t is not None and t.k == 'array':
                outs = self.ok(st, VOID)
                for i, a in enumerate(n['a']):
                    outs = self.bind(outs, lambda s, _, a=a, i=i: self.into(s, fr, a, loc + (('[', num(i)),)))
                return outs
        if k == 'Cond' and n.get('t') is not None and n['t'].k == 'rec':
            return self.cond(st, fr, n['c0'], lambda s: self.into(s, fr, n['a'], loc), lambda s: self.into(s, fr, n['b'], loc))
        def f(s, v):
            self.store(s, loc, v, n)
            return self.ok(s, VOID)
        return self.bind(self.ev(st, fr, n), f)

    def evlist(self, st, fr, ns):
        outs = [(st, 'v', ())]
        for a in ns:
            outs = self.bind(outs, lambda s, acc, a=a: self.bind(self.ev(s, fr, a), lambda s2, v: self.ok(s2, acc + (v,))))
        return outs

    def args(self, st, fr, n):
        """evaluate call arguments: ('ref', loc) for reference parameters, value otherwise"""
        pts = n.get('pt') or []
        outs = [(st, 'v', ())]
        for i, a in enumerate(n['a']):
            pt = pts[i] if i < len(pts) else None
            def f(s, acc, a=a, pt=pt):
                if pt is not None and pt.k in ('ref', 'rref'):
                    return self.bind(self.lv(s, fr, a), lambda s2, v: self.ok(s2, acc + (v,)))
                if pt is None and a.get('lv'):
                    return self.bind(self.lv(s, fr, a), lambda s2, v: self.ok(s2, acc + (v,)))
                return self.bind(self.ev(s, fr, a), lambda s2, v: self.ok(s2, acc + (v,)))
            outs = self.bind(outs, f)
        return outs

    def construct(self, st, fr, n, loc):
        t = n.get('t')
        qs = strip_targs(n['q'])
        cls = strip_targs(t.base) if t is not None and t.k == 'rec' else (qs.rsplit('::', 1)[0])
        if t is not None and t.k == 'array':
            self.store(st, loc, ('app', 'ctor:' + t.base))
            return self.ok(st, VOID)
        def f(s, av):
            h = self.hooks.get('ctor:' + cls) or self.hooks.get('ctor:*')
            if h is not None:
                r = h(self, s, fr, n, loc, av)
                if r is not None:
                    return r
            r = self.model_ctor(s, fr, n, cls, loc, av)
            if r is not None:
                return r
            fn = self.P.funcs.get(n['fn'])
            if n.get('ck') == 'inherited':
                # arguments are the enclosing constructor's parameters
                av = tuple(('ref', self.var_loc(s, fr, p)) if p['t'].k in ('ref', 'rref') else self.load(s, self.var_loc(s, fr, p)) for p in fr.fn.params)
            memberwise = n['ck'] in ('copy', 'move') and t is not None and t.trivcopy and (fn is None or fn.d.get('implicit') or fn.d.get('defaulted'))
            if fn is not None and not memberwise and self.can_inline(fn, fr):
                return self.run_ctor(s, fr, n, fn, loc, av)
            if n['ck'] in ('copy', 'move') and len(av) >= 1:
                src = av[0]
                v = self.load(s, src[1]) if src[0] == 'ref' else src
                self.store(s, loc, v, n)
                if n['ck'] == 'move' and src[0] == 'ref' and not n.get('triv'):
                    if not (t is not None and t.trivcopy):
                        self.store(s, src[1], ('moved', v))
                return self.ok(s, VOID)
            if not av and n.get('ck') == 'default':
                if n.get('zero'):
                    self.store(s, loc, ('zero', t.s))
                elif not n.get('triv'):
                    self.store(s, loc, ('app', 'ctor:' + cls))
                return self.ok(s, VOID)
            self.event(s, fr, n, 'ctor:' + cls, loc, av)
            self.store(s, loc, ('app', 'ctor:' + cls) + tuple(self.argval(s, a) for a in av))
            return self.ok(s, VOID)
        return self.bind(self.args(st, fr, n), f)

    def argval(self, st, a):
        if a[0] == 'ref':
            return self.load(st, a[1])
        return a

    def model_ctor(self, st, fr, n, cls, loc, av):
        if cls in ('google::LogMessageFatal', 'google::NullStreamFatal'):
            self.event(st, fr, n, 'FATAL', None, ())
            return [(st, 'abort', VOID)]
        if cls in ('google::LogMessage', 'google::ErrnoLogMessage', 'google::NullStream', 'google::LogMessageVoidify'):
            if cls == 'google::LogMessage' and len(av) >= 3 and av[2] == num(3):
                self.event(st, fr, n, 'FATAL', None, ())
                return [(st, 'abort', VOID)]
            self.store(st, loc, ('log',))
            return self.ok(st, VOID)
        if cls == 'google::CheckOpString':
            self.store(st, loc, self.argval(st, av[0]) if av else VOID)
            return self.ok(st, VOID)
        if cls in LOCK_GUARDS:
            if n.get('ck') in ('copy', 'move'):
                src = av[0]
                v = self.load(st, src[1])
                self.store(st, loc, v)
                self.store(st, src[1], N0)
                return self.ok(st, VOID)
            if av and av[0][0] == 'ref':
                mx = av[0][1]
            elif av and av[0][0] == 'ptr':
                mx = av[0][1]
            elif av:
                mx = (('deref', av[0]),)
            else:
                self.store(st, loc, N0)
                return self.ok(st, VOID)
            tag = strip_targs((n['pt'][1].strip_ref().base if len(n.get('pt', [])) > 1 and n['pt'][1] is not None else ''))
            if 'defer_lock' in tag:
                self.store(st, loc, ('guard', mx, 0, cls))
            elif 'adopt_lock' in tag:
                self.store(st, loc, ('guard', mx, 1, cls))
            else:
                self.acquire(st, fr, n, mx, cls in SHARED_GUARDS)
                self.store(st, loc, ('guard', mx, 1, cls))
            return self.ok(st, VOID)
        if cls in ('std::unique_ptr', 'std::shared_ptr'):
            if not av:
                self.store(st, loc, N0)
                return self.ok(st, VOID)
            a = av[0]
            if a[0] == 'ref':
                v = self.load(st, a[1])
                self.store(st, loc, v)
                t0 = n['pt'][0] if n.get('pt') else None
                if t0 is not None and t0.k == 'rref':
                    self.store(st, a[1], N0)
                return self.ok(st, VOID)
            self.store(st, loc, a)
            return self.ok(st, VOID)
        if cls == 'std::function':
            if not av:
                self.store(st, loc, N0)
                return self.ok(st, VOID)
            v = self.argval(st, av[0])
            self.store(st, loc, v)
            if n.get('ck') == 'move' and av[0][0] == 'ref':
                self.store(st, av[0][1], ('moved', v))
            return self.ok(st, VOID)
        if cls == 'std::atomic' or cls.startswith('std::__atomic_base'):
            if av:
                self.store(st, loc, self.argval(st, av[0]))
            return self.ok(st, VOID)
        if cls in ('std::basic_string',) and len(av) >= 1 and av[0][0] == 'str' and n.get('ck') == 'other':
            self.store(st, loc, av[0])
            return self.ok(st, VOID)
        return None

    def acquire(self, st, fr, n, mx, shared=False):
        locks = st.ghost.get('locks', ())
        self.event(st, fr, n, 'lock', mx, (shared,))
        st.ghost['locks'] = locks + ((mx, shared),)

    def release(self, st, fr, n, mx):
        locks = list(st.ghost.get('locks', ()))
        for i in range(len(locks) - 1, -1, -1):
            if locks[i][0] == mx:
                del locks[i]
                break
        st.ghost['locks'] = tuple(locks)
        self.event(st, fr, n, 'unlock', mx)

    def run_ctor(self, st, fr, n, fn, loc, av):
        f2 = self.new_frame(fn, fr, loc)
        self.bind_params(st, f2, fn, av)
        self.stack.append(fn.qs)
        self.inlined.add(fn.key)
        try:
            outs = [(st, 'v', VOID)]
            for i in fn.inits:
                e = i.get('e')
                if i.get('f'):
                    # anonymous union members: find the path
                    l2 = loc + self.member_path(fn.cls, i) + (('.', i['f']),)
                    if e is None:
                        continue
                    ft = i.get('ft')
                    if ft is not None and ft.k in ('ref', 'rref'):
                        def g(s, _, e=e, l2=l2):
                            return self.bind(self.lv(s, f2, e), lambda s2, r: (self.store(s2, l2, r), self.ok(s2, VOID))[1])
                        outs = self.bind(outs, g)
                    else:
                        outs = self.bind(outs, lambda s, _, e=e, l2=l2: self.into(s, f2, e, l2))
                else:
                    outs = self.bind(outs, lambda s, _, e=e: self.into(s, f2, e, loc) if e is not None else self.ok(s, VOID))
            if fn.d.get('defaulted') and fn.body is None:
                pass
            def body(s, _):
                b = fn.body
                if b is None:
                    return self.ok(s, VOID)
                return self.finish(self.exec(s, f2, b), f2)
            outs = self.bind(outs, body)
            for s, k, v in outs:
                self.kill_frame(s, f2)
            return [(s, 'v' if k in ('v', 'ret') else k, VOID if k in ('v', 'ret') else v) for s, k, v in outs]
        finally:
            self.stack.pop()

    def member_path(self, cls, i, depth=0):
        rec = self.P.recs.get(cls)
        if i.get('cls') == cls or rec is None or depth > 6:
            return ()
        for f in rec.fields:
            if f.get('anon') and f['t'] is not None and f['t'].rec == i.get('cls'):
                return (('.', f['id']),)
        for f in rec.fields:
            if f.get('anon') and f['t'] is not None and f['t'].rec:
                p = self.member_path(f['t'].rec, i, depth + 1)
                if p:
                    return (('.', f['id']),) + p
        return ()

    def new_frame(self, fn, caller, this=None):
        self.frameno += 1
        fn.prep()
        return Frame(fn, self.frameno, (caller.depth + 1) if caller else 0, this)

    def bind_params(self, st, f2, fn, av):
        for i, p in enumerate(fn.params):
            loc = (('v', f2.no, p['d'], p['n']),)
            f2.env[p['d']] = loc
            if i < len(av):
                a = av[i]
                pt = p['t']
                if pt is not None and pt.k in ('ref', 'rref'):
                    if a[0] != 'ref':
                        tl = self.new_temp()
                        self.store(st, tl, a)
                        a = ('ref', tl)
                    st.mem[loc] = a
                else:
                    if a[0] == 'ref':
                        a = self.load(st, a[1], pt)
                    self.store(st, loc, a)

    def kill_frame(self, st, f2):
        no = f2.no
        for k in [k for k in st.mem if k[0][0] == 'v' and k[0][1] == no]:
            del st.mem[k]

    def finish(self, outs, fr):
        r = []
        for s, k, v in outs:
            if k in ('n', 'ret'):
                r.append((s, 'v', v if v is not None else VOID))
            elif k in ('throw', 'abort'):
                r.append((s, k, v))
            elif k == 'v':
                r.append((s, 'v', v))
            else:
                raise Unsupported('completion %s escapes %s' % (k, fr.fn.q))
        return r

    def can_inline(self, fn, fr):
        if fn.body is None and not fn.inits:
            return False
        if fn.qs in self.opaque or fn.key in self.opaque:
            return False
        if self.opaque_pred is not None and self.opaque_pred(fn):
            return False
        if fr.depth >= self.max_depth:
            raise Budget('inlining depth exceeded at %s' % fn.q)
        if self.stack.count(fn.qs) >= 1 and fn.key in [x for x in self.call_keys(fr)]:
            return False
        return True

    def call_keys(self, fr):
        return self._keys

    _keys = ()

    # ------------------------------------------------------------ destruction
    def destroy(self, st, fr, loc, t):
        """run the destructor of an object of type t at loc"""
        if t is None or t.k != 'rec' or t.trivdtor:
            if t is not None and t.k == 'rec':
                self.drop(st, loc)
            return self.ok(st, VOID)
        cls = strip_targs(t.base)
        h = self.hooks.get('dtor:' + cls) or self.hooks.get('dtor:*')
        if h is not None:
            r = h(self, st, fr, loc, t)
            if r is not None:
                return r
        if cls in LOCK_GUARDS:
            v = st.mem.get(loc)
            if v is not None and v[0] == 'guard' and v[2]:
                self.release(st, fr, None, v[1])
            self.drop(st, loc)
            return self.ok(st, VOID)
        if cls in ('google::LogMessageFatal',):
            return [(st, 'abort', VOID)]
        if cls in ('google::LogMessage', 'google::CheckOpString', 'std::function', 'std::basic_string'):
            self.drop(st, loc)
            return self.ok(st, VOID)
        fn = self.P.funcs.get(t.dtor) if t.dtor else None
        outs = [(st, 'v', VOID)]
        if fn is not None and self.can_inline(fn, fr):
            outs = self.run_fn(st, fr, fn, loc, (), None)
        rec = self.P.recs.get(t.rec)
        if rec is not None and rec.known and not rec.union:
            for f in reversed(rec.fields):
                ft = f['t']
                if ft is not None and ft.k == 'rec' and not ft.trivdtor:
                    outs = self.bind(outs, lambda s, _, f=f, ft=ft: self.destroy(s, fr, loc + (('.', f['id']),), ft))
            for b in rec.bases:
                if b is not None and b.k == 'rec' and not b.trivdtor:
                    outs = self.bind(outs, lambda s, _, b=b: self.destroy(s, fr, loc, b))
        elif rec is None or not rec.known:
            for o in outs:
                if o[1] == 'v':
                    self.event(o[0], fr, None, 'dtor:' + cls, loc)
        return outs

    # ------------------------------------------------------------ calls
    def ev_Call(self, st, fr, n):
        def f(s, v):
            if v[0] == 'ref':
                return self.ok(s, self.load(s, v[1], n.get('t')))
            return self.ok(s, v)
        return self.bind(self.call(st, fr, n), f)

    def call(self, st, fr, n):
        """outcomes carrying the returned value (('ref', loc) for references)"""
        self.stats['calls'] += 1
        if n.get('ind') is not None:
            ind = n['ind']
            def f(s, fv):
                return self.bind(self.args(s, fr, n), lambda s2, av: self.call_value(s2, fr, n, fv, av))
            if ind['k'] == 'Bin' and ind['op'] in ('.*', '->*'):
                return self.bind(self.args(st, fr, n), lambda s, av: self.opaque_call(s, fr, n, 'memptr-call', None, av))
            return self.bind(self.ev(st, fr, ind) if not ind.get('lv') else self.rv(st, fr, ind), f)
        qs = strip_targs(n['q'])
        n['qs'] = qs
        obj = n.get('obj')
        # logging chains are no-ops, but a fatal one aborts
        if obj is not None:
            cls = strip_targs(n.get('cls', ''))
            if cls.startswith('google::LogMessage') or cls == 'google::LogMessageVoidify':
                def g(s, v):
                    if n.get('noret'):
                        return [(s, 'abort', VOID)]
                    outs = self.ok(s, ('log',))
                    return outs
                o = self.ev_any(st, fr, obj)
                if qs == 'google::LogMessageVoidify::operator&':
                    return self.bind(o, lambda s, v: self.bind(self.ev_any(s, fr, n['a'][0]), g))
                return self.bind(o, g)
        if qs in ('std::operator<<', 'google::operator<<', 'nebula::operator<<', 'folly::operator<<') or (n.get('oper') and n['n'] == 'operator<<' and self.is_stream(n)):
            return self.stream(st, fr, n)
        pre = self.hooks.get('pre:' + qs)
        if pre is not None:
            r = pre(self, st, fr, n)
            if r is not None:
                return r
        if obj is not None:
            cls0 = strip_targs(n.get('cls', ''))
            def f(s, r):
                if r[0] != 'ref':
                    loc = self.deref(s, r)
                else:
                    loc = r[1]
                return self.bind(self.args(s, fr, n), lambda s2, av: self.dispatch(s2, fr, n, qs, loc, av))
            if n.get('arrow'):
                return self.bind(self.ev(st, fr, obj), lambda s, p: f(s, ('ref', self.deref(s, p))))
            if n.get('oper') and n['n'] in ('operator=', 'operator+=', 'operator-=', 'operator|=', 'operator&=') and len(n['a']) == 1:
                # assignment operators: right operand is sequenced first
                def g(s, av):
                    return self.bind(self.lv(s, fr, obj), lambda s2, r: self.dispatch(s2, fr, n, qs, r[1], av))
                return self.bind(self.args(st, fr, n), g)
            return self.bind(self.lv(st, fr, obj), f)
        return self.bind(self.args(st, fr, n), lambda s, av: self.dispatch(s, fr, n, qs, None, av))

    def ev_any(self, st, fr, n):
        return self.lv(st, fr, n) if n.get('lv') or n['k'] == 'Mat' else self.ev(st, fr, n)

    def is_stream(self, n):
        t = n.get('t')
        t = t.strip_ref() if t is not None else None
        return t is not None and ('basic_ostream' in t.s)

    def stream(self, st, fr, n):
        """stream insertion: evaluates operands for their effects only"""
        ops = ([n['obj']] if n.get('obj') else []) + n['a']
        outs = [(st, 'v', None)]
        first = [None]
        for i, a in enumerate(ops):
            def f(s, acc, a=a, i=i):
                def g(s2, v):
                    if self.stream_items and i > 0:
                        w = v
                        if w is not None and w[0] == 'ref':
                            w = self.load(s2, w[1])
                        self.event(s2, fr, n, 'stream.item', acc[1] if acc is not None and acc[0] == 'ref' else None, (w,) if w is not None else ())
                    return self.ok(s2, v if i == 0 else acc)
                return self.bind(self.stream_operand(s, fr, a, i), g)
            outs = self.bind(outs, f)
        def fin(s, v):
            if v is not None and v[0] == 'ref' and v[1] and v[1][0][0] in ('v', 't', 'this', 'h'):
                # string streams accumulate
                if self.event_filter is None or self.event_filter('<<'):
                    self.event(s, fr, n, '<<', v[1], ())
                old = self.load(s, v[1])
                if old[0] != 'log':
                    self.store(s, v[1], ('app', '<<', old, self.fresh('out')))
            return self.ok(s, v if v is not None and v[0] in ('ref', 'log') else ('log',))
        return self.bind(outs, fin)

    def stream_operand(self, st, fr, a, i):
        return self.ev_any(st, fr, a)

    def call_value(self, st, fr, n, fv, av):
        if fv[0] == 'ref':
            fv = self.load(st, fv[1])
        if fv[0] == 'lam':
            return self.call_lambda(st, fr, n, fv, av)
        if fv[0] == 'fn':
            fn = self.P.funcs.get(fv[1])
            if fn is not None and self.can_inline(fn, fr):
                return self.run_fn(st, fr, fn, None, av, n)
            return self.dispatch(st, fr, dict(n, q=fv[2], n=fv[2].rsplit('::', 1)[-1], fn=fv[1]), strip_targs(fv[2]), None, av)
        return self.opaque_call(st, fr, n, 'indirect', None, (fv,) + tuple(av))

    def call_lambda(self, st, fr, n, lam, av):
        fn = None
        for k in lam[1]:
            f = self.P.funcs.get(k)
            if f is not None and (fn is None or len(f.d['params']) == len(av)):
                fn = f
        if n is not None and n.get('fn') in lam[1]:
            fn = self.P.funcs.get(n['fn']) or fn
        if fn is None:
            return self.opaque_call(st, fr, n, 'lambda', None, av)
        return self.run_fn(st, fr, fn, None, av, n, caps=lam[2])

    def run_fn(self, st, fr, fn, this, av, n, caps=None):
        f2 = self.new_frame(fn, fr, this)
        if caps:
            for kind, d, v in caps:
                if kind == 'this':
                    f2.this = v
                elif kind == 'ref':
                    f2.env[d] = v
                else:
                    loc = (('v', f2.no, d, 'cap'),)
                    f2.env[d] = loc
                    self.store(st, loc, v)
        self.bind_params(st, f2, fn, av)
        self.stack.append(fn.qs)
        okeys = self._keys
        self._keys = okeys + (fn.key,)
        self.inlined.add(fn.key)
        try:
            outs = self.finish(self.exec(st, f2, fn.body), f2) if fn.body is not None else self.ok(st, VOID)
        finally:
            self.stack.pop()
            self._keys = okeys
        r = []
        for s, k, v in outs:
            # values referring to the dead frame by reference stay as they are
            self.kill_frame(s, f2)
            r.append((s, k, v))
        return r

    def dispatch(self, st, fr, n, qs, loc, av):
        h = self.hooks.get(qs) or self.hooks.get('*::' + n.get('n', ''))
        if h is not None:
            r = h(self, st, fr, n, loc, av)
            if r is not None:
                return r
        r = self.model(st, fr, n, qs, loc, av)
        if r is not None:
            return r
        fn = self.P.funcs.get(n['fn'])
        if n.get('virt') and not n.get('qual'):
            cands = self.devirt.get(qs)
            if cands is None:
                ovs = self.P.overriders.get(n['fn'], [])
                if ovs or fn is None or fn.body is None:
                    fn = None
            elif len(cands) == 1:
                fn = cands[0]
            else:
                outs = []
                for c in cands:
                    outs.extend(self.run_fn(st.copy(), fr, c, loc, av, n))
                return outs
        if fn is not None and fn.n == 'operator=' and len(av) == 1 and loc is not None and (fn.d.get('implicit') or fn.d.get('defaulted')):
            rt = n.get('t')
            rt = rt.strip_ref() if rt is not None and rt.k in ('ref', 'rref') else rt
            if rt is not None and rt.k == 'rec' and rt.trivcopy:
                v = self.load(st, av[0][1]) if av[0][0] == 'ref' else av[0]
                self.store(st, loc, v, n)
                return self.ok(st, ('ref', loc))
        if fn is not None and self.can_inline(fn, fr):
            return self.run_fn(st, fr, fn, loc, av, n)
        if n.get('noret'):
            self.event(st, fr, n, qs, loc, av)
            return [(st, 'abort', VOID)]
        # closure call operator
        if n.get('n') == 'operator()' and loc is not None:
            fv = self.load(st, loc)
            if fv[0] in ('lam', 'fn'):
                return self.call_value(st, fr, n, fv, av)
            if qs == 'std::function::operator()':
                return self.opaque_call(st, fr, n, 'callback', loc, (fv,) + tuple(av))
        return self.opaque_call(st, fr, n, qs, loc, av)

    def opaque_call(self, st, fr, n, qs, loc, av):
        t = n.get('t')
        outs = []
        if self.throwing is not None and self.throwing(qs):
            s2 = st.copy()
            self.event(s2, fr, n, 'throws:' + qs, loc, av)
            outs.append((s2, 'throw', ('exc', 'from:' + qs)))
        vals = tuple(self.argval(st, a) for a in av)
        isconst = n.get('mconst') or (n.get('n') in PURE_NONCONST and loc is not None)
        if loc is not None:
            old = self.load(st, loc)
            if isconst:
                if n.get('n') in ELEM_REF and n.get('lv'):
                    ret = ('ref', loc + (('[', vals[0]),)) if vals else ('ref', loc)
                else:
                    ret = self.typed(('app', 'm:' + qs, old) + vals, t)
            else:
                ret = self.typed(('app', 'r:' + qs, old) + vals, t)
                self.store(st, loc, ('app', 'mut:' + qs, old) + vals, n)
        else:
            ret = None
        # out-parameters
        pts = n.get('pt') or []
        for i, a in enumerate(av):
            pt = pts[i] if i < len(pts) else None
            if pt is None:
                continue
            if pt.k in ('ref', 'rref') and a[0] == 'ref' and pt.p is not None and not pt.p.const:
                if pt.k == 'rref':
                    self.store(st, a[1], ('moved', vals[i]))
                elif not isconst or loc is None:
                    self.store(st, a[1], self.fresh('out:' + qs, pt.p))
            elif pt.k == 'ptr' and pt.p is not None and not pt.p.const and a[0] == 'ptr' and pt.p.k != 'func':
                self.store(st, a[1], self.fresh('out:' + qs, None))
        if ret is None:
            self.counter += 1
            ret = ('app', 'call:' + qs) + vals + (('#', self.counter),)
            self.typed(ret, t)
        if t is not None and t.k == 'void':
            ret = VOID
        self.event(st, fr, n, qs, loc, av, ret)
        if n.get('lv') and ret[0] != 'ref':
            # chaining mutators return the object itself
            tt = t
            if loc is not None and not isconst and (n.get('n', '').startswith('operator') or n.get('n') in ('append', 'assign')):
                ret = ('ref', loc)
            else:
                ret = ('ref', (('deref', ('addr', ret)),))
        outs.append((st, 'v', ret))
        return outs

    # ------------------------------------------------------------ library models
    def model(self, st, fr, n, qs, loc, av):
        if qs in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::__addressof', 'std::launder'):
            return self.ok(st, av[0])
        if qs == 'std::addressof':
            return self.ok(st, self.addr(av[0][1]))
        if qs == '__builtin_expect':
            return self.ok(st, av[0])
        if qs in ('std::min', 'std::max') and len(av) == 2:
            a, b = self.argval(st, av[0]), self.argval(st, av[1])
            outs = []
            c = cmp_term('<=', a, b) if qs == 'std::min' else cmp_term('>=', a, b)
            for s, x in self.split(st, c):
                outs.append((s, 'v', av[0] if x else av[1]))
            return outs
        if qs == 'std::swap' and len(av) == 2 and av[0][0] == 'ref' and av[1][0] == 'ref':
            a, b = self.load(st, av[0][1]), self.load(st, av[1][1])
            self.store(st, av[0][1], b)
            self.store(st, av[1][1], a)
            return self.ok(st, VOID)
        if qs == 'std::exchange' and len(av) == 2:
            old = self.load(st, av[0][1])
            self.store(st, av[0][1], self.argval(st, av[1]))
            return self.ok(st, old)
        cls = strip_targs(n.get('cls', '')) if n.get('cls') else ''
        nm = n.get('n', '')
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
            if nm in ('get', 'operator->'):
                return self.ok(st, self.load(st, loc))
            if nm == 'operator*':
                return self.ok(st, ('ref', self.deref(st, self.load(st, loc))))
            if nm == 'operator bool':
                return self.ok(st, self.boolify(self.load(st, loc)))
            if nm == 'operator[]':
                return self.ok(st, ('ref', self.deref(st, self.padd(self.load(st, loc), av[0]))))
            if nm == 'release':
                v = self.load(st, loc)
                self.store(st, loc, N0, n)
                self.event(st, fr, n, qs, loc, av)
                return self.ok(st, v)
            if nm == 'reset':
                self.event(st, fr, n, qs, loc, (self.load(st, loc),) + tuple(av))
                self.store(st, loc, self.argval(st, av[0]) if av else N0, n)
                return self.ok(st, VOID)
            if nm == 'operator=':
                a = av[0]
                v = self.argval(st, a)
                self.event(st, fr, n, qs, loc, (self.load(st, loc), v))
                self.store(st, loc, v, n)
                t0 = n['pt'][0] if n.get('pt') else None
                if a[0] == 'ref' and t0 is not None and t0.k == 'rref':
                    self.store(st, a[1], N0, n)
                return self.ok(st, ('ref', loc))
        if qs in ('std::operator==', 'std::operator!=') and len(av) == 2:
            a, b = self.argval(st, av[0]), self.argval(st, av[1])
            t0 = n['pt'][0].strip_ref() if n.get('pt') and n['pt'][0] is not None else None
            c0 = strip_targs(t0.base) if t0 is not None and t0.k == 'rec' else ''
            t1 = n['pt'][1].strip_ref() if n.get('pt') and len(n['pt']) > 1 and n['pt'][1] is not None else None
            if t1 is not None and t1.k == 'nullptr':
                b = N0
            if t0 is not None and t0.k == 'nullptr':
                a = N0
            if c0 in ('std::unique_ptr', 'std::shared_ptr', 'std::function') or (t1 is not None and t1.k == 'nullptr'):
                r = cmp_term('==', a, b)
            elif a == b:
                r = N1
            elif a[0] == 'str' and b[0] == 'str':
                r = N0
            else:
                r = ('eqv',) + tuple(sorted((a, b), key=repr))
            return self.ok(st, r if qs.endswith('==') else mk_not(r))
        if qs in ('std::make_unique', 'std::make_shared'):
            self.counter += 1
            t = n.get('t')
            at = t.targs[0] if t is not None and t.targs else None
            loc2 = (('h', self.counter, at.s if at is not None and hasattr(at, 's') else ''),)
            self.event(st, fr, n, qs, None, av, ('ptr', loc2))
            if at is not None and at.k == 'array':
                return self.ok(st, ('ptr', loc2 + (('[', N0),)))
            # constructor of the repository's class, if it is known
            if at is not None and at.k == 'rec':
                cands = [f for f in self.P.methods_of.get(at.rec, []) if f.ctor and len(f.d['params']) == len(av)]
                if len(cands) == 1 and self.can_inline(cands[0], fr):
                    return self.bind(self.run_ctor(st, fr, n, cands[0], loc2, av), lambda s, _: self.ok(s, ('ptr', loc2)))
            self.store(st, loc2, ('app', 'make:' + (at.base if at is not None and hasattr(at, 'base') else '?')) + tuple(self.argval(st, a) for a in av))
            return self.ok(st, ('ptr', loc2))
        if cls in LOCK_GUARDS:
            v = st.mem.get(loc)
            if nm == 'lock' and v is not None and v[0] == 'guard':
                self.acquire(st, fr, n, v[1])
                self.store(st, loc, ('guard', v[1], 1, v[3]))
                return self.ok(st, VOID)
            if nm in ('unlock', 'reset', 'release') and v is not None and v[0] == 'guard':
                if v[2] and nm != 'release':
                    self.release(st, fr, n, v[1])
                self.store(st, loc, ('guard', v[1], 0, v[3]))
                return self.ok(st, VOID)
            if nm == 'owns_lock' and v is not None and v[0] == 'guard':
                return self.ok(st, num(v[2]))
        if qs in MUTEX_LOCK:
            self.acquire(st, fr, n, loc)
            return self.ok(st, VOID)
        if qs in MUTEX_UNLOCK:
            self.release(st, fr, n, loc)
            return self.ok(st, VOID)
        if qs in ('std::condition_variable::wait', 'std::condition_variable_any::wait'):
            return self.cv_wait(st, fr, n, loc, av)
        if qs in ('std::condition_variable::wait_for', 'std::condition_variable::wait_until', 'std::condition_variable_any::wait_for',
                  'std::condition_variable_any::wait_until'):
            self.event(st, fr, n, 'cv.wait', loc, av)
            self.havoc_shared(st, fr, n, None)
            self.event(st, fr, n, 'cv.woken', loc, av)
            if len(av) > 2:
                return self.call_value(st, fr, n, self.argval(st, av[2]), ())
            return self.ok(st, self.fresh('cvstatus', n.get('t')))
        if cls == 'std::atomic' or cls.startswith('std::__atomic_base'):
            if nm == 'load' or nm.startswith('operator ') or (nm.startswith('operator') and nm[8:9].isalpha()):
                self.event(st, fr, n, 'atomic:load', loc, ())
                return self.ok(st, self.load(st, loc, n.get('t')))
            if nm in ('store', 'operator='):
                v = self.argval(st, av[0])
                self.store(st, loc, v, n)
                self.event(st, fr, n, 'atomic:store', loc, (v,))
                return self.ok(st, v)
            if nm in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-='):
                old = self.load(st, loc, n.get('t'))
                d = self.argval(st, av[0]) if nm in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') else N1
                sg = 1 if nm in ('fetch_add', 'operator++', 'operator+=') else -1
                new = vadd(old, d, sg)
                self.store(st, loc, new, n)
                self.event(st, fr, n, 'atomic:rmw', loc, (old, new))
                post = nm.startswith('fetch') or (nm in ('operator++', 'operator--') and av)
                return self.ok(st, old if post else new)
            if nm == 'exchange':
                old = self.load(st, loc, n.get('t'))
                self.store(st, loc, self.argval(st, av[0]), n)
                self.event(st, fr, n, 'atomic:rmw', loc, (old, self.argval(st, av[0])))
                return self.ok(st, old)
            if nm.startswith('compare_exchange'):
                outs = []
                old = self.load(st, loc, n.get('t'))
                exp = self.load(st, av[0][1])
                for s, b in self.split(st, cmp_term('==', old, exp)):
                    if b:
                        self.store(s, loc, self.argval(s, av[1]), n)
                        self.event(s, fr, n, 'atomic:rmw', loc, (old, self.argval(s, av[1])))
                    else:
                        self.store(s, av[0][1], old)
                        self.event(s, fr, n, 'atomic:casfail', loc, (old,))
                    outs.append((s, 'v', num(int(b))))
                return outs
        if qs.startswith('google::Check_') and qs.endswith('Impl'):
            op = {'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=', 'GT': '>', 'GE': '>='}.get(qs[14:16])
            if op:
                a, b = self.argval(st, av[0]), self.argval(st, av[1])
                t0 = n['pt'][0].strip_ref() if n.get('pt') and n['pt'][0] is not None else None
                if t0 is not None and t0.k == 'float':
                    c = ('fcmp', op, a, b)
                elif t0 is not None and t0.k == 'rec':
                    c = ('eqv',) + tuple(sorted((a, b), key=repr)) if op == '==' else self.fresh('chk')
                else:
                    c = cmp_term(op, self.numify(a, st), self.numify(b, st))
                return self.ok(st, ('chk', mk_not(self.boolify(c))))
        if qs == 'google::CheckOpString::operator bool':
            v = self.load(st, loc)
            if v[0] == 'chk':
                return self.ok(st, v[1])
            return self.ok(st, self.boolify(v))
        if qs in ('google::GetReferenceableValue', 'google::CheckNotNull'):
            return self.ok(st, av[-1] if qs.endswith('NotNull') else av[0])
        if cls == 'std::function' and nm in ('operator bool',):
            return self.ok(st, self.boolify(self.load(st, loc)))
        if cls == 'std::function' and nm == 'operator=':
            v = self.argval(st, av[0])
            self.store(st, loc, v, n)
            return self.ok(st, ('ref', loc))
        if qs in ('memcpy', 'memmove', 'std::memcpy', '__builtin_memcpy'):
            return None
        if nm == 'operator=' and loc is not None and len(av) == 1 and (fn_is_external(self.P, n) or self.P.funcs[n['fn']].d.get('implicit')) and self.P.funcs.get(n['fn']) is None:
            # assignment of an opaque class: value copy
            a = av[0]
            pt = n['pt'][0] if n.get('pt') else None
            same = pt is not None and pt.strip_ref().base == strip_const(n.get('cls', ''))
            v = self.argval(st, a)
            self.event(st, fr, n, qs, loc, av)
            if self.throwing is not None and self.throwing(qs):
                s2 = st.copy()
                self.store(st, loc, v, n)
                return [(st, 'v', ('ref', loc)), (s2, 'throw', ('exc', 'from:' + qs))]
            self.store(st, loc, v, n)
            if a[0] == 'ref' and pt is not None and pt.k == 'rref' and not (pt.p is not None and pt.p.trivcopy) and a[1] != loc:
                self.store(st, a[1], ('moved', v), n)
            return self.ok(st, ('ref', loc))
        return None

    def cv_wait(self, st, fr, n, loc, av):
        """condition_variable::wait: releases and re-acquires the lock; on
        return a predicate (if given) holds; everything the lock protects may
        have been changed by others."""
        g = self.load(st, av[0][1]) if av[0][0] == 'ref' else av[0]
        self.event(st, fr, n, 'cv.wait', loc, av)
        if len(av) < 2:
            self.havoc_shared(st, fr, n, g)
            self.event(st, fr, n, 'cv.woken', loc, av)
            return self.ok(st, VOID)
        # predicate already true -> returns at once; otherwise sleeps, then holds
        outs = []
        pv = self.argval(st, av[1])
        for s, k, v in self.call_value(st.copy(), fr, n, pv, ()):
            if k != 'v':
                outs.append((s, k, v))
                continue
            for s2, b in self.split(s, self.boolify(v)):
                if b:
                    self.event(s2, fr, n, 'cv.pass', loc, av)
                    outs.append((s2, 'v', VOID))
                else:
                    self.event(s2, fr, n, 'cv.sleep', loc, av)
                    self.havoc_shared(s2, fr, n, g)
                    for s3, k3, v3 in self.call_value(s2, fr, n, pv, ()):
                        if k3 != 'v':
                            outs.append((s3, k3, v3))
                        elif self.assume(s3, self.boolify(v3), True):
                            self.event(s3, fr, n, 'cv.woken', loc, av)
                            outs.append((s3, 'v', VOID))
        return outs

    def havoc_shared(self, st, fr, n, guard):
        """everything reachable through `this` may have been changed by others"""
        for k in [k for k in st.mem if k[0][0] == 'this']:
            if st.mem[k][0] not in ('guard', 'ref'):
                del st.mem[k]
        st.mem[(('this',),)] = self.fresh('woken', None)

    # ------------------------------------------------------------ statements
    # completions: (state, kind, value) with kind n|break|continue|ret|throw|abort|goto
    def exec(self, st, fr, n):
        if n is None:
            return [(st, 'n', None)]
        if n.get('l'):
            self.line = n['l']
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            raise Unsupported('stmt %s' % n['k'])
        r = m(st, fr, n)
        if len(r) > self.max_paths:
            raise Budget('too many paths in %s' % fr.fn.q)
        return r

    def seq(self, outs, f):
        r = []
        for o in outs:
            if o[1] == 'n':
                r.extend(f(o[0]))
            else:
                r.append(o)
        return r

    def x_Null(self, st, fr, n):
        return [(st, 'n', None)]

    def x_OtherStmt(self, st, fr, n):
        return [(st, 'n', None)]

    def x_Asm(self, st, fr, n):
        outs = [(st, 'n', None)]
        for i, e in enumerate(n.get('out', [])):
            def f(s, e=e, i=i):
                r = []
                for s2, k, v in self.lv(s, fr, e):
                    if k == 'v':
                        cs = n.get('oc', [])
                        self.store(s2, v[1], self.fresh('asm:%s:%s' % (n['v'], cs[i].strip('=+&') if i < len(cs) else i), e.get('t')))
                        self.event(s2, fr, n, 'asm:' + n['v'], v[1], ())
                        r.append((s2, 'n', None))
                    else:
                        r.append((s2, k, v))
                return r
            outs = self.seq(outs, f)
        return outs

    def x_Expr(self, st, fr, n):
        base = st.ghost.get('temps', ())
        st.ghost['temps'] = ()
        e = n['e']
        outs = self.ev(st, fr, e) if not (e.get('lv') and e['k'] in ('Call', 'Mem', 'Ref', 'Idx')) else (self.call(st, fr, e) if e['k'] == 'Call' else self.lv(st, fr, e))
        # a discarded prvalue of class type is a temporary too
        r = []
        for o in outs:
            ee = e
            while ee['k'] in ('Full', 'Cast'):
                ee = ee['e']
            if o[1] == 'v' and ee['k'] == 'Bind' and o[2] is not None and o[2][0] == 'guard':
                self.release(o[0], fr, n, o[2][1])
            for q in self.kill_temps(o, fr, base):
                r.append((q[0], 'n' if q[1] == 'v' else q[1], None if q[1] == 'v' else q[2]))
        return r

    def decl_var(self, st, fr, v):
        """outcomes (state,'n'|..)"""
        loc = (('v', fr.no, v['d'], v['n']),)
        fr.env[v['d']] = loc
        t = v['t']
        self.drop(st, loc)
        if v.get('static') or (v.get('q') and not v.get('tls') and v.get('static')):
            fr.env[v['d']] = (('g', v['q']),)
            if v.get('tls'):
                pass
            if (('g', v['q']),) not in st.mem and v.get('init') is not None and self.static_init(fr, v):
                return [(s, 'n' if k == 'v' else k, x) for s, k, x in self.into(st, fr, v['init'], (('g', v['q']),))]
            return [(st, 'n', None)]
        i = v.get('init')
        if i is None:
            return [(st, 'n', None)]
        base = st.ghost.get('temps', ())
        st.ghost['temps'] = ()
        outs = []
        if t is not None and t.k in ('ref', 'rref'):
            for s, k, x in self.lv(st, fr, i):
                if k == 'v':
                    s.mem[loc] = x
                outs.append((s, k, x))
        else:
            outs = self.into(st, fr, i, loc)
        r = []
        for o in outs:
            for q in self.kill_temps(o, fr, base):
                r.append((q[0], 'n' if q[1] == 'v' else q[1], None if q[1] == 'v' else q[2]))
        if v.get('bind'):
            r2 = []
            for s, k, x in r:
                if k == 'n':
                    for j, b in enumerate(v['bind']):
                        base_loc = loc
                        mv = s.mem.get(loc)
                        if mv is not None and mv[0] == 'ref':
                            base_loc = mv[1]
                        fr.env[b['d']] = (('v', fr.no, b['d'], b['n']),)
                        nm = self.binding_field(t, j)
                        s.mem[fr.env[b['d']]] = ('ref', base_loc + (('.', nm),))
                r2.append((s, k, x))
            r = r2
        return r

    def static_init(self, fr, v):
        return False

    def binding_field(self, t, j):
        t = t.strip_ref() if t.k in ('ref', 'rref') else t
        if t is not None and t.k == 'rec':
            c = strip_targs(t.base)
            if c == 'std::pair':
                return ('first', 'second')[j]
            rec = self.P.recs.get(t.rec)
            if rec is not None and rec.known and j < len(rec.fields):
                return rec.fields[j]['id']
        return 'get%d' % j

    def x_Decl(self, st, fr, n):
        outs = [(st, 'n', None)]
        for v in n['v']:
            outs = self.seq(outs, lambda s, v=v: self.decl_var(s, fr, v))
        return outs

    def scope_vars(self, stmts):
        r = []
        for s in stmts:
            if s is None:
                continue
            while s['k'] in ('Case', 'Default', 'Label'):
                s = s['s']
                if s is None:
                    break
            if s is not None and s['k'] == 'Decl':
                r.extend(s['v'])
        return r

    def leave(self, outs, fr, vs):
        """run destructors of the block's variables on every exit"""
        vs = [v for v in vs if v['t'] is not None and v['t'].k == 'rec' and not v['t'].trivdtor and not v.get('static')]
        refs = ()
        if not vs:
            return outs
        for v in reversed(vs):
            loc = None
            r = []
            for o in outs:
                loc = fr.env.get(v['d'])
                if o[1] == 'abort' or loc is None or loc[0][0] != 'v' or not self.constructed(o[0], loc):
                    r.append(o)
                    continue
                for d in self.destroy(o[0], fr, loc, v['t']):
                    self.drop(d[0], loc)
                    r.append((d[0], o[1], o[2]) if d[1] == 'v' else d)
            outs = r
        return outs

    def constructed(self, st, loc):
        n = len(loc)
        return any(k[:n] == loc for k in st.mem)

    def x_Block(self, st, fr, n):
        ss = n['s']
        outs = [(st, 'n', None)]
        for i, s in enumerate(ss):
            if not any(o[1] == 'n' for o in outs):
                break
            outs = self.seq(outs, lambda x, s=s: self.exec(x, fr, s))
        # forward gotos to a label of this block
        if any(o[1] == 'goto' for o in outs):
            labels = {s['n']: i for i, s in enumerate(ss) if s is not None and s['k'] == 'Label'}
            work = [o for o in outs if o[1] == 'goto' and o[2] in labels]
            outs = [o for o in outs if not (o[1] == 'goto' and o[2] in labels)]
            seen = 0
            while work:
                seen += 1
                if seen > 200:
                    raise Budget('goto loop')
                s, _, l = work.pop()
                cur = [(s, 'n', None)]
                for x in ss[labels[l]:]:
                    cur = self.seq(cur, lambda y, x=x: self.exec(y, fr, x['s'] if x['k'] == 'Label' else x))
                for o in cur:
                    (work if o[1] == 'goto' and o[2] in labels else outs).append(o)
        return self.leave(outs, fr, self.scope_vars(ss))

    def x_Label(self, st, fr, n):
        return self.exec(st, fr, n['s'])

    def x_Goto(self, st, fr, n):
        return [(st, 'goto', n['n'])]

    def x_Break(self, st, fr, n):
        return [(st, 'break', None)]

    def x_Continue(self, st, fr, n):
        return [(st, 'continue', None)]

    def x_Return(self, st, fr, n):
        e = n.get('e')
        if e is None:
            return [(st, 'ret', VOID)]
        base = st.ghost.get('temps', ())
        st.ghost['temps'] = ()
        rt = fr.fn.ret
        if rt is not None and rt.k in ('ref', 'rref'):
            outs = self.lv(st, fr, e)
        else:
            outs = self.ev(st, fr, e)
        r = []
        for o in outs:
            for q in self.kill_temps(o, fr, base):
                r.append((q[0], 'ret' if q[1] == 'v' else q[1], q[2]))
        return r

    def cond_stmt(self, st, fr, c, ft, ff):
        """branch on an expression inside a statement (temporaries die after the test)"""
        base = st.ghost.get('temps', ())
        def wrap(f):
            def g(s):
                r = []
                for q in self.kill_temps((s, 'v', None), fr, base):
                    r.extend(f(q[0]) if q[1] == 'v' else [q])
                return r
            return g
        st.ghost['temps'] = ()
        cc = c
        outs = self.cond(st, fr, cc, wrap(ft), wrap(ff))
        return [(s, k if k != 'v' else 'n', v) for s, k, v in outs]

    def x_If(self, st, fr, n):
        outs = [(st, 'n', None)]
        vs = []
        if n.get('init') is not None:
            outs = self.exec(st, fr, n['init'])
            vs += self.scope_vars([n['init']])
        if n.get('var') is not None:
            outs = self.seq(outs, lambda s: self.decl_var(s, fr, n['var']))
            vs.append(n['var'])
        def f(s):
            return self.cond_stmt(s, fr, n['c'], lambda s2: self.exec(s2, fr, n['a']), lambda s2: self.exec(s2, fr, n['b']) if n.get('b') is not None else [(s2, 'n', None)])
        return self.leave(self.seq(outs, f), fr, vs)

    def x_Switch(self, st, fr, n):
        outs = [(st, 'n', None)]
        vs = []
        if n.get('init') is not None:
            outs = self.exec(st, fr, n['init'])
            vs += self.scope_vars([n['init']])
        if n.get('var') is not None:
            outs = self.seq(outs, lambda s: self.decl_var(s, fr, n['var']))
            vs.append(n['var'])
        body = n['body']
        ss = body['s'] if body['k'] == 'Block' else [body]
        flat = []        # (labels, stmt)
        for s in ss:
            labels = []
            while s is not None and s['k'] in ('Case', 'Default', 'Label'):
                if s['k'] == 'Case':
                    c = s.get('c')
                    labels.append(int(c['big']) if isinstance(c, dict) else c)
                elif s['k'] == 'Default':
                    labels.append('default')
                s = s['s']
            flat.append((labels, s))
        for x in flat:
            for y in walk(x[1]) if x[1] is not None else ():
                if y.get('k') in ('Case', 'Default') and 's' in y and not self._in_switch(x[1], y):
                    raise Unsupported('case label nested in a statement')
        allc = [c for l, _ in flat for c in l if c != 'default']
        def go(s0):
            def on(s, v):
                r = []
                targets = []
                for i, (l, _) in enumerate(flat):
                    for c in l:
                        if c == 'default':
                            continue
                        s2 = s.copy()
                        if self.assume(s2, cmp_term('==', v, num(c)), True):
                            targets.append((s2, i))
                s2 = s.copy()
                feas = True
                for c in allc:
                    if not self.assume(s2, cmp_term('==', v, num(c)), False):
                        feas = False
                        break
                if feas and self.switch_default_feasible(s2, fr, n, v):
                    di = [i for i, (l, _) in enumerate(flat) if 'default' in l]
                    if di:
                        targets.append((s2, di[0]))
                    else:
                        r.append((s2, 'n', None))
                for s3, i in targets:
                    cur = [(s3, 'n', None)]
                    for _, x in flat[i:]:
                        cur = self.seq(cur, lambda y, x=x: self.exec(y, fr, x))
                    for o in cur:
                        r.append((o[0], 'n', None) if o[1] == 'break' else o)
                return r
            base = s0.ghost.get('temps', ())
            res = []
            for o in self.ev(s0, fr, n['c']):
                if o[1] != 'v':
                    res.append(o)
                else:
                    res.extend(on(o[0], self.numify(o[2])))
            return res
        outs = self.seq(outs, go)
        outs = self.leave(outs, fr, self.scope_vars(ss))
        return self.leave(outs, fr, vs)

    def _in_switch(self, root, y):
        for z in walk(root):
            if z.get('k') == 'Switch':
                for w in walk(z['body']):
                    if w is y:
                        return True
        return False

    def switch_default_feasible(self, st, fr, n, v):
        return True

    def x_Case(self, st, fr, n):
        return self.exec(st, fr, n['s'])

    x_Default = x_Case

    def x_Try(self, st, fr, n):
        outs = self.exec(st, fr, n['body'])
        r = []
        for s, k, v in outs:
            if k != 'throw':
                r.append((s, k, v))
                continue
            self.event(s, fr, n, 'catch', None, (v,))
            for h in n['h']:
                ht = h.get('t')
                may = self.catches(v, ht)
                if may:
                    s2 = s.copy()
                    vs = []
                    if h.get('var') is not None:
                        loc = (('v', fr.no, h['var']['d'], h['var']['n']),)
                        fr.env[h['var']['d']] = loc
                        self.store(s2, loc, v)
                    r.extend(self.exec(s2, fr, h['body']))
                    if may == 'must':
                        break
            else:
                r.append((s, 'throw', v))
        return r

    def catches(self, exc, ht):
        if ht is None or ht.s in ('...',):
            return 'must'
        if exc[0] == 'exc' and exc[1] in ('rethrow',) or exc[1].startswith('from:'):
            return 'must' if strip_targs(ht.strip_ref().base) == 'std::exception' else 'may'
        hb = strip_targs(ht.strip_ref().base)
        eb = strip_targs(exc[1])
        if hb == eb or hb == 'std::exception':
            return 'must'
        if hb in ('std::runtime_error', 'std::logic_error') and eb.startswith('std::'):
            sub = {'std::runtime_error': ('std::range_error', 'std::overflow_error', 'std::system_error'), 'std::logic_error': ('std::invalid_argument', 'std::out_of_range')}[hb]
            return 'must' if eb in sub else None
        return None

    # ------------------------------------------------------------ loops
    def x_While(self, st, fr, n):
        return self.loop(st, fr, n, n.get('c'), n['body'], None, False, n.get('var'))

    def x_Do(self, st, fr, n):
        return self.loop(st, fr, n, n.get('c'), n['body'], None, True, None)

    def x_For(self, st, fr, n):
        outs = [(st, 'n', None)]
        vs = []
        if n.get('init') is not None:
            outs = self.exec(st, fr, n['init'])
            vs = self.scope_vars([n['init']])
        outs = self.seq(outs, lambda s: self.loop(s, fr, n, n.get('c'), n['body'], n.get('inc'), False, n.get('var')))
        return self.leave(outs, fr, vs)

    def x_RangeFor(self, st, fr, n):
        def f(s, r):
            loc = r[1]
            return self.range_loop(s, fr, n, loc)
        outs = []
        for s, k, v in (self.lv(st, fr, n['range']) if n['range'].get('lv') or n['range']['k'] in ('Mat', 'Full') else self.temp_of(st, fr, n['range'])):
            outs.extend(f(s, v) if k == 'v' else [(s, k, v)])
        return outs

    def range_loop(self, st, fr, n, loc):
        self.counter += 1
        lid = n.get('l', 0)
        it = ('it', fr.fn.qs, lid, n['var']['n'])
        v = n['var']
        def enter(s, el=None):
            vl = (('v', fr.no, v['d'], v['n']),)
            fr.env[v['d']] = vl
            self.drop(s, vl)
            if el is None:
                el = loc + (('[', it),)
            t = v['t']
            if t is not None and t.k in ('ref', 'rref'):
                s.mem[vl] = ('ref', el)
            else:
                self.store(s, vl, self.load(s, el, t))
            if v.get('bind'):
                for j, b in enumerate(v['bind']):
                    fr.env[b['d']] = (('v', fr.no, b['d'], b['n']),)
                    base = el if t.k in ('ref', 'rref') else vl
                    s.mem[fr.env[b['d']]] = ('ref', base + (('.', self.binding_field(t, j)),))
            return [(s, 'n', None)]
        if self.range_elems is not None:
            es = self.range_elems(self, st, loc, n['range'].get('t'))
            if es is not None:
                # the content is known: one round per element
                cur, done = [st], []
                for e in es:
                    nxt = []
                    for s in cur:
                        for q in enter(s, e):
                            b, x = self.do_body(q[0], fr, n['body'], None)
                            done.extend(self.leave(x, fr, [v]))
                            nxt.extend(o[0] for o in self.leave(b, fr, [v]) if o[1] == 'n')
                    cur = nxt
                return done + [(s, 'n', None) for s in cur]
        more = lambda s: ('pred', 'more', fr.fn.qs, lid)
        return self.fix(st, fr, n, None, n['body'], None, False, enter, more, [v])

    def loop(self, st, fr, n, c, body, inc, post, var):
        self.stats['loops'] += 1
        if not post and var is None and c is not None:
            r = self.try_unroll(st, fr, n, c, body, inc)
            if r is not None:
                return r
        if post and c is not None and c.get('c') == 0:
            # do { } while (0)
            outs = []
            for s, k, v in self.exec(st, fr, body):
                outs.append((s, 'n', None) if k in ('n', 'break', 'continue') else (s, k, v))
            return outs
        return self.fix(st, fr, n, c, body, inc, post, None, None, [], var)

    def do_body(self, s, fr, body, inc):
        """one iteration: back-edge states and exits"""
        back, outs = [], []
        for o in self.exec(s, fr, body):
            if o[1] in ('n', 'continue'):
                if inc is not None:
                    for q in self.x_Expr(o[0], fr, {'k': 'Expr', 'e': inc, 'l': 0}):
                        (back if q[1] == 'n' else outs).append(q)
                else:
                    back.append((o[0], 'n', None))
            elif o[1] == 'break':
                outs.append((o[0], 'n', None))
            else:
                outs.append(o)
        return back, outs

    def try_unroll(self, st, fr, n, c, body, inc):
        cur = [st.copy()]
        done = []
        save = self.counter
        osaved = dict(self.stats)
        cb = (self.on_event, self.on_read, self.on_write, self.div_check)
        limit = self.unroll
        it = 0
        probe = None
        # only loops whose test is decided, or which terminate within the bound
        while cur:
            it += 1
            if it > limit:
                if self.on_long_loop is not None:
                    self.on_long_loop(self, cur[0], fr, n)
                return None
            nxt = []
            forked = False
            for s in cur:
                res = self.cond_stmt(s, fr, c, lambda x: [(x, 'T', None)], lambda x: [(x, 'F', None)])
                ts = [o for o in res if o[1] == 'T']
                fs = [o for o in res if o[1] == 'F']
                if ts and fs and it > 1 and not self.unroll_forking(fr, n):
                    return None
                if ts and fs and it == 1 and not self.unroll_forking(fr, n):
                    return None
                done.extend((o[0], 'n', None) for o in fs)
                done.extend(o for o in res if o[1] not in ('T', 'F'))
                for o in ts:
                    b, x = self.do_body(o[0], fr, body, inc)
                    done.extend(x)
                    nxt.extend(q[0] for q in b)
            if it == 1 and self.fork_unroll and self.fork_unroll != 'all' and nxt:
                # worth following only when some counter advances by constants
                for q in nxt:
                    if not any(v[0] == 'n' and q.mem.get(k, v)[0] == 'n' and q.mem.get(k, v) != v for k, v in cur[0].mem.items()):
                        return None
            cur = nxt
            if len(cur) + len(done) > (min(self.max_paths, 80) if self.fork_unroll else self.max_paths):
                return None
        return done

    def unroll_forking(self, fr, n):
        return self.fork_unroll

    def written(self, before, after):
        r = set()
        for k, v in after.mem.items():
            if before.mem.get(k) != v and k[0][0] != 't':
                r.add(k)
        for k in before.mem:
            if k not in after.mem and k[0][0] != 't':
                r.add(k)
        return r

    def ghost_key(self, s):
        return tuple(sorted(((k, v) for k, v in s.ghost.items() if k not in ('temps', 'ext')), key=repr))

    def fix(self, st, fr, n, c, body, inc, post, enter, more, extra_vars, var=None, peeled=False):
        lid = (fr.fn.qs, n.get('l', 0), fr.no)
        isphi = lambda v: v[0] == 'phi' and v[1] == lid
        havoc = set()
        entry = st
        invs = None
        cand = None
        rounds = 0
        silent = (self.on_event, self.on_read, self.on_write, self.div_check)

        def head_from(s, keys):
            h = s.copy()
            if s is not entry:
                h.cons = tuple(f for f in h.cons if not any(mentions(a, isphi) for a, _ in f[1]))
                h.dis = tuple(f for f in h.dis if not any(mentions(a, isphi) for a, _ in f[1]))
                h.bools = {k: v for k, v in h.bools.items() if not mentions(k, isphi) and not (more is not None and k[0] == 'pred' and k[1] == 'more' and k[3] == n.get('l', 0))}
            for k in keys:
                old = entry.mem.get(k)
                if old is None:
                    # created inside the loop (or an untouched outer location)
                    if k[0][0] == 'v' and k[0][1] == fr.no and not self._outer(entry, k):
                        h.mem.pop(k, None)
                        continue
                    old = self.load(entry, k)
                ph = ('phi', lid, k)
                if ph not in self.bounds:
                    self._phi_bounds(ph, old, k)
                for k2 in [k2 for k2 in h.mem if len(k2) > len(k) and k2[:len(k)] == k]:
                    if h.mem[k2][0] not in ('guard', 'ref'):
                        del h.mem[k2]
                h.mem[k] = ph
            return h

        def run_body(h):
            """-> (back states, exit outs, false-exit states)"""
            back, outs, falses = [], [], []
            starts = []
            if var is not None:
                res = self.seq([(h, 'n', None)], lambda s: self.decl_var(s, fr, var))
            else:
                res = [(h, 'n', None)]
            for s0, k0, v0 in res:
                if k0 != 'n':
                    outs.append((s0, k0, v0))
                    continue
                if post:
                    starts.append(s0)
                elif more is not None:
                    for s2, b in self.split(s0, more(s0)):
                        if b:
                            for q in enter(s2):
                                starts.append(q[0])
                        else:
                            falses.append(s2)
                elif c is None:
                    starts.append(s0)
                else:
                    for o in self.cond_stmt(s0, fr, c, lambda x: [(x, 'T', None)], lambda x: [(x, 'F', None)]):
                        if o[1] == 'T':
                            starts.append(o[0])
                        elif o[1] == 'F':
                            falses.append(o[0])
                        else:
                            outs.append(o)
            for s in starts:
                b, x = self.do_body(s, fr, body, inc)
                if extra_vars:
                    b = self.leave(b, fr, extra_vars)
                    x = self.leave(x, fr, extra_vars)
                if var is not None:
                    b = self.leave(b, fr, [var])
                outs.extend(x)
                if post and c is not None:
                    for q in b:
                        for o in self.cond_stmt(q[0], fr, c, lambda x: [(x, 'T', None)], lambda x: [(x, 'F', None)]):
                            if o[1] == 'T':
                                back.append(o[0])
                            elif o[1] == 'F':
                                falses.append(o[0])
                            else:
                                outs.append(o)
                else:
                    back.extend(q[0] for q in b)
            return back, outs, falses

        # phase 1: find the modified locations (callbacks silenced)
        self.on_event = self.on_read = self.on_write = self.div_check = None
        try:
            while True:
                rounds += 1
                if rounds > 8:
                    raise Budget('loop does not stabilise in %s' % fr.fn.q)
                h = head_from(entry, havoc)
                back, _, _ = run_body(h.copy())
                new = set()
                for b in back:
                    new |= {k for k in self.written(h, b) if not (k[0][0] == 'v' and k[0][1] != fr.no and k[0][1] > fr.no)}
                new = {k for k in new if k[0][0] != 't'}
                # a changed location whose ancestor is havocked is covered
                new = {k for k in new if not any(k[:i] in havoc for i in range(1, len(k) + 1))}
                if not new:
                    break
                havoc |= new
                # normalise: drop descendants of havocked ancestors
                havoc = {k for k in havoc if not any(k[:i] in havoc for i in range(1, len(k)))}
            if not peeled and ((('this',),) in havoc and (('this',),) not in entry.mem or self.peel_first):
                # the body sleeps on a condition variable: keep the first iteration apart
                self.on_event, self.on_read, self.on_write, self.div_check = silent
                back, outs, falses = run_body(entry.copy())
                outs = outs + [(s, 'n', None) for s in falses]
                for b in back:
                    outs.extend(self.fix(b, fr, n, c, body, inc, post, enter, more, extra_vars, var, self.peel_first))
                return self.dedupe(outs)
            # phase 2: inductive template invariants
            h = head_from(entry, havoc)
            keys = sorted([k for k in havoc if h.mem.get(k, (None,))[0] == 'phi'], key=repr)
            back, _, _ = run_body(h.copy())
            cand = self.candidates(entry, h, keys, back, lid)
            while True:
                hh = h.copy()
                hh.cons = hh.cons + tuple(f for f in cand)
                back, _, _ = run_body(hh.copy())
                bad = []
                for f in cand:
                    for b in back:
                        g = self.subst_phi(f, b, lid)
                        if g is None or not self.entails_le(b, g):
                            bad.append(f)
                            break
                if not bad:
                    break
                cand = [f for f in cand if f not in bad]
            cons_q = []
            if self.conserved is not None:
                hh = h.copy()
                hh.cons = hh.cons + tuple(cand)
                vals = lambda s: {k: self.load(s, k) for k in keys}
                e2 = entry.copy()
                q0 = self.conserved(self, e2, {k: self.load(entry, k) for k in keys})
                qh = self.conserved(self, hh, vals(hh))
                back, _, _ = run_body(hh.copy())
                for nm in sorted(q0, key=repr):
                    ok = bool(back)
                    for b in back:
                        s2 = b.copy()
                        qb = self.conserved(self, s2, vals(s2)).get(nm)
                        if qb is None or nm not in qh or not self.prove(s2, cmp_term('==', from_lin(qb), from_lin(qh[nm]))):
                            ok = False
                            break
                    if ok:
                        cons_q.append(nm)
                if cons_q:
                    self.stats['conserved'] = self.stats.get('conserved', 0) + len(cons_q)

                    def add_q(s):
                        q = self.conserved(self, s, vals(s))
                        s.cons = s.cons + tuple(c for c in e2.cons if c not in s.cons)
                        for nm in cons_q:
                            d = lin.add(q[nm], q0[nm], -1)
                            s.cons = s.cons + (d, lin.scale(d, -1))
        finally:
            self.on_event, self.on_read, self.on_write, self.div_check = silent
        # phase 3: run for real, to a fixpoint of the ghost component
        outs = []
        seen = set()
        work = [head_from(entry, havoc)]
        first = True
        while work:
            h = work.pop()
            gk = self.ghost_key(h)
            if gk in seen and not first:
                continue
            first = False
            seen.add(gk)
            if len(seen) > 40:
                raise Budget('ghost state diverges in a loop of %s' % fr.fn.q)
            h.cons = h.cons + tuple(cand)
            if cons_q:
                add_q(h)
            tr = h.trace
            back, xs, falses = run_body(h)
            outs.extend(xs)
            outs.extend((s, 'n', None) for s in falses)
            for b in back:
                if self.on_stuck is not None:
                    eqs = []
                    for k in keys:
                        v = self.load(b, k)
                        if v[0] in ('ptr', 'ref', 'agg', 'lam', 'guard', 'str', 'fn', 'void', 'log'):
                            eqs = None
                            break
                        d = lin.add(to_lin(v), (0, ((('phi', lid, k), 1),)), -1)
                        eqs += [d, lin.scale(d, -1)]
                    if eqs is not None and not lin.infeasible(self._cons_for(b, [a for e in eqs for a, _ in e[1]]) + eqs):
                        self.on_stuck(self, b, fr, n)
                nb = head_from(b, havoc)
                nb.ghost = dict(b.ghost)
                gk2 = self.ghost_key(nb)
                # leave after this iteration
                ex = nb.copy()
                ex.cons = ex.cons + tuple(cand)
                if cons_q:
                    add_q(ex)
                if not post and self.keep_iter_exit:
                    for o in self._exit_only(ex, fr, n, c, more, var):
                        outs.append(o)
                if gk2 not in seen:
                    work.append(nb)
        return self.dedupe(outs)

    keep_iter_exit = True

    def _exit_only(self, s, fr, n, c, more, var):
        r = []
        if var is not None:
            res = self.seq([(s, 'n', None)], lambda x: self.decl_var(x, fr, var))
        else:
            res = [(s, 'n', None)]
        for s0, k0, v0 in res:
            if k0 != 'n':
                r.append((s0, k0, v0))
            elif more is not None:
                if self.assume(s0, more(s0), False):
                    r.append((s0, 'n', None))
            elif c is None:
                pass
            else:
                for o in self.cond_stmt(s0, fr, c, lambda x: [], lambda x: [(x, 'n', None)]):
                    r.append(o)
        return r

    def dedupe(self, outs):
        seen = set()
        r = []
        for o in outs:
            s = o[0]
            k = (o[1], o[2], frozenset(s.mem.items()), s.cons, s.dis, frozenset(s.bools.items()), self.ghost_key(s), s.trace)
            if k not in seen:
                seen.add(k)
                r.append(o)
        return r

    def _outer(self, entry, k):
        return any(kk[0] == k[0] for kk in entry.mem)

    def _phi_bounds(self, ph, old, k):
        if old[0] != 'n' and old in self.bounds:
            b = self.bounds[old]
            # type bounds only
            self.bounds[ph] = b
        elif old[0] == 'n' or old[0] == 'lin':
            pass

    def candidates(self, entry, h, keys, back, lid):
        cand = []
        phis = {}
        for k in keys:
            ph = ('phi', lid, k)
            v0 = self.load(entry, k)
            if v0[0] in ('ptr', 'ref', 'agg', 'lam', 'guard', 'str', 'fn', 'void', 'log'):
                continue
            phis[k] = (ph, v0)
            f0 = to_lin(v0)
            cand.append(lin.add(f0, (0, ((ph, 1),)), -1))                 # v0 - phi <= 0
            cand.append(lin.add((0, ((ph, 1),)), f0, -1))                 # phi - v0 <= 0
            # facts known about the initial value carry over as templates
            if v0[0] not in ('n', 'lin'):
                for f in entry.cons:
                    d = dict(f[1])
                    if v0 in d:
                        c = d.pop(v0)
                        cand.append(lin.add((f[0], tuple(d.items())), (0, ((ph, c),))))
            elif v0[0] == 'n':
                cand.append((-0 , ((ph, -1),)) if v0[1] >= 0 else (0, ((ph, 1),)))
        # pairwise linear relations suggested by one iteration
        ks = list(phis)
        deltas = {}
        for k in ks:
            ds = set()
            for b in back:
                v = self.load(b, k)
                if v[0] in ('ptr', 'ref', 'agg'):
                    ds = None
                    break
                ds.add(lin.add(to_lin(v), (0, ((phis[k][0], 1),)), -1))
            deltas[k] = ds
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if not deltas[a] or not deltas[b]:
                    continue
                r = self._ratio([(lin.add(to_lin(self.load(x, a)), (0, ((phis[a][0], 1),)), -1), lin.add(to_lin(self.load(x, b)), (0, ((phis[b][0], 1),)), -1)) for x in back])
                if r:
                    p, q = r          # q*da == p*db
                    ea = lin.scale(lin.add((0, ((phis[a][0], 1),)), to_lin(phis[a][1]), -1), q)
                    eb = lin.scale(lin.add((0, ((phis[b][0], 1),)), to_lin(phis[b][1]), -1), p)
                    e = lin.add(ea, eb, -1)
                    cand.append(e)
                    cand.append(lin.scale(e, -1))
        if self.loop_templates:
            cand.extend(self.loop_templates(self, entry, h, phis))
        # keep those that hold on entry
        ok = []
        for f in dict.fromkeys(cand):
            g = self.subst_init(f, phis)
            if self.entails_le(entry, g):
                ok.append(f)
        return ok

    def _ratio(self, pairs):
        r = None
        for x, y in pairs:
            if not x[1] and not x[0] and not y[1] and not y[0]:
                continue
            # q*x == p*y
            if (not y[1] and not y[0]) or (not x[1] and not x[0]):
                return None
            cx = x[1][0][1] if x[1] else x[0]
            cy = None
            if x[1]:
                cy = dict(y[1]).get(x[1][0][0])
            else:
                cy = y[0] if not y[1] else None
            if not cy:
                return None
            if lin.scale(x, cy) != lin.scale(y, cx):
                return None
            cur = Fraction(cx, cy)
            if r is None:
                r = cur
            elif r != cur:
                return None
        if r is None:
            return None
        return r.numerator, r.denominator

    def subst_init(self, f, phis):
        m = {ph: to_lin(v0) for ph, v0 in phis.values()}
        out = (f[0], ())
        for a, c in f[1]:
            out = lin.add(out, lin.scale(m[a], c)) if a in m else lin.add(out, (0, ((a, c),)))
        return out

    def subst_phi(self, f, st, lid):
        out = (f[0], ())
        for a, c in f[1]:
            if a[0] == 'phi' and a[1] == lid:
                v = self.load(st, a[2])
                if v[0] in ('ptr', 'ref', 'agg'):
                    return None
                out = lin.add(out, lin.scale(to_lin(v), c))
            else:
                out = lin.add(out, (0, ((a, c),)))
        return out

    # ------------------------------------------------------------ entry points
    def analyse(self, fn, this=(('this',),), setup=None, av=None, state=None):
        """all abstract outcomes of calling fn with symbolic arguments"""
        fn.prep()
        st = state or State()
        f0 = Frame(fn, 0, -1)
        if fn.static or (fn.cls is None):
            this = None
        f2 = self.new_frame(fn, f0, this)
        f2.depth = 0
        if av is None:
            av = []
            used = set()
            for p in fn.params:
                t = p['t']
                nm = p['n'] or str(p['d'])
                while nm in used:
                    nm += "'"       # members of an expanded pack share their name
                used.add(nm)
                if t is not None and t.k in ('ref', 'rref'):
                    av.append(('ref', (('arg', nm),)))
                else:
                    a = ('argv', nm)
                    self.typed(a, t)
                    av.append(a)
        self.bind_params(st, f2, fn, av)
        if setup:
            setup(self, st, f2)
        self.stack.append(fn.qs)
        self._keys = (fn.key,)
        self.inlined.add(fn.key)
        try:
            if fn.ctor:
                outs = [(st, 'v', VOID)]
                for i in fn.inits:
                    e = i.get('e')
                    if e is None:
                        continue
                    if i.get('f'):
                        l2 = this + self.member_path(fn.cls, i) + (('.', i['f']),)
                        ft = i.get('ft')
                        if ft is not None and ft.k in ('ref', 'rref'):
                            outs = self.bind(outs, lambda s, _, e=e, l2=l2: self.bind(self.lv(s, f2, e), lambda s2, r: (self.store(s2, l2, r), self.ok(s2, VOID))[1]))
                        else:
                            outs = self.bind(outs, lambda s, _, e=e, l2=l2: self.into(s, f2, e, l2))
                    else:
                        outs = self.bind(outs, lambda s, _, e=e: self.into(s, f2, e, this))
                outs = self.bind(outs, lambda s, _: self.finish(self.exec(s, f2, fn.body), f2) if fn.body is not None else self.ok(s, VOID))
            else:
                outs = self.finish(self.exec(st, f2, fn.body), f2)
        finally:
            self.stack.pop()
            self._keys = ()
        self.stats['paths'] += len(outs)
        return outs


def fn_is_external(prog, n):
    return n.get('fn') not in prog.funcs


def strip_const(s):
    return s[6:] if s.startswith('const ') else s


# ---------------------------------------------------------------- printing
def show(v):
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    if k == 'n':
        return str(v[1])
    if k == 'str':
        return '"%s"' % v[1]
    if k == 'lin':
        return showlin(v[1])
    if k == 'init':
        return showloc(v[1])
    if k == 'argv':
        return v[1]
    if k == 'ptr':
        return '&' + showloc(v[1])
    if k == 'ref':
        return 'ref ' + showloc(v[1])
    if k == 'sym':
        return '%s#%s' % (v[1], v[2])
    if k == 'phi':
        return 'loop(%s)' % showloc(v[2])
    if k == 'not':
        return '!(%s)' % show(v[1])
    if k == 'le':
        return showlin(v[1]) + ' <= 0'
    if k == 'eq0':
        return showlin(v[1]) + ' == 0'
    if k == 'app':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'fld':
        return show(v[1]) + ''.join(showsel(s) for s in v[2:])
    if k == 'fm':
        return '%s%s' % (v[1], ''.join('*%s^%d' % (show(a), e) for a, e in v[2]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in v[1:]))


def showsel(s):
    if s[0] == '.':
        return '.' + s[1]
    if s[0] == '[':
        return '[%s]' % show(s[1])
    return '/' + str(s)


def showloc(l):
    r = l[0]
    if r[0] == 'this':
        b = 'this'
    elif r[0] == 'v':
        b = r[3]
    elif r[0] == 'arg':
        b = r[1]
    elif r[0] == 'g':
        b = r[1]
    elif r[0] == 'deref':
        b = '*(%s)' % show(r[1])
    elif r[0] == 'h':
        b = 'new%d' % r[1]
    else:
        b = '%s' % (r,)
    return b + ''.join(showsel(s) for s in l[1:])


def showlin(f):
    s = []
    for a, c in f[1]:
        s.append(('%+d*' % c if abs(c) != 1 else ('+' if c > 0 else '-')) + show(a))
    if f[0] or not s:
        s.append('%+d' % f[0])
    r = ' '.join(s)
    return r[1:] if r.startswith('+') else r
