"""Model of standard containers whose content is fully known.

A container is a value ('conc', kind, order): kind 'vec' with the number of
elements, 'map' or 'set' with the tuple of keys in insertion order.  Elements
live at loc + ('[', i) and entries at loc + ('@', key), so copying and moving
a container is copying its memory.  Iterators are ('cit', loc, i).  A container
that is not known this way is left to the interpreter's default treatment."""
from absint import *
from program import strip_targs
import itertools, os, re

SEQ = ('std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::array')
MAP = ('std::map', 'std::unordered_map')
SET = ('std::set', 'std::unordered_set')
ITER = re.compile(r'(std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator|__detail::_Node_iterator_base|_List_(const_)?iterator|_Deque_iterator)|__gnu_cxx::__normal_iterator)')


def const(v):
    return v[0] in ('n', 'str')


class Conc:
    def __init__(self, I):
        self.I = I
        H = I.hooks
        for q in SEQ + MAP + SET:
            H['ctor:' + q] = self.ctor
            H['dtor:' + q] = self.dtor
            for m, h in (('begin', self.begin), ('end', self.end), ('cbegin', self.begin), ('cend', self.end), ('size', self.size), ('empty', self.empty), ('operator=', self.assign),
                         ('find', self.find), ('count', self.count), ('at', self.at), ('operator[]', self.index), ('clear', self.clear), ('resize', self.resize), ('reserve', self.nop), ('rehash', self.nop),
                         ('emplace', self.insert), ('insert', self.insert), ('try_emplace', self.insert), ('insert_or_assign', self.insert_over), ('contains', self.count), ('erase', self.erase),
                         ('push_back', self.push), ('emplace_back', self.push), ('front', self.front), ('back', self.back), ('swap', self.swap)):
                H[q + '::' + m] = h
        H['ctor:std::pair'] = self.pair
        H['ctor:*'] = self.anyctor
        for m, h in (('operator*', self.star), ('operator->', self.arrow), ('operator++', self.inc), ('operator==', self.eq), ('operator!=', self.ne)):
            H['*::' + m] = h
        for q, h in (('std::find', self.a_find), ('std::find_if', self.a_if), ('std::any_of', self.a_if), ('std::all_of', self.a_if), ('std::none_of', self.a_if), ('std::count_if', self.a_if), ('std::count', self.a_find)):
            H[q] = h
        for q, h in (('std::for_each', self.a_each), ('std::transform', self.a_transform), ('std::equal', self.a_equal), ('std::back_inserter', self.a_backins)):
            H[q] = h
        for m, h in (('compare', self.s_compare), ('operator==', self.eq), ('operator!=', self.ne), ('empty', self.s_empty), ('size', self.s_size), ('length', self.s_size)):
            H['std::basic_string::' + m] = h
        for m, h in (('c_str', self.s_data), ('data', self.s_data), ('substr', self.s_substr), ('find', self.s_find), ('rfind', self.s_find), ('front', self.s_at), ('back', self.s_at), ('operator[]', self.s_at), ('at', self.s_at)):
            H['std::basic_string::' + m] = h
        for q in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strlen', 'memcmp'):
            H[q] = H['std::' + q] = self.c_string
        H['std::operator=='] = self.eq
        H['std::operator!='] = self.ne
        for m in ('begin', 'end', 'cbegin', 'cend'):
            H['std::' + m] = lambda I, st, fr, n, loc, av: (self.begin if 'begin' in n['n'] else self.end)(I, st, fr, n, av[0][1], ())
        H['std::next'] = self.next
        I.range_elems = self.range_elems
        I.std_init = self.std_init

    # ------------------------------------------------------------- access
    def get(self, st, loc):
        """(kind, order) of the container at loc, or None"""
        if loc is None:
            return None
        v = self.I.load(st, loc)
        if v[0] == 'agg':
            v = v[1]
        return (v[1], v[2]) if v is not None and v[0] == 'conc' else None

    def own(self, st, loc):
        """make the content at loc memory of its own"""
        g = self.get(st, loc)
        if g is not None and loc not in st.mem:
            self.I.store(st, loc, self.I.load(st, loc))
        return g

    def put(self, st, loc, kind, order):
        st.mem[loc] = ('conc', kind, order)

    def make(self, st, loc, kind, elems):
        """kind 'vec': elems are values; 'set': keys; 'map': (key, value)"""
        I = self.I
        I.drop(st, loc)
        st.mem.pop(loc, None)
        if kind == 'vec':
            for i, v in enumerate(elems):
                I.store(st, loc + (('[', num(i)),), v)
            self.put(st, loc, 'vec', len(elems))
        elif kind == 'set':
            ks = []
            for k in elems:
                if k not in ks:
                    ks.append(k)
                    I.store(st, loc + (('@', k),), k)
            self.put(st, loc, 'set', tuple(ks))
        else:
            ks = []
            for k, v in elems:
                if k not in ks:
                    ks.append(k)
                    I.store(st, loc + (('@', k), ('.', 'first')), k)
                    I.store(st, loc + (('@', k), ('.', 'second')), v)
            self.put(st, loc, 'map', tuple(ks))

    def kind_of(self, t):
        b = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
        return 'vec' if b in SEQ else 'map' if b in MAP else 'set' if b in SET else None

    def elems(self, st, loc):
        """locations of the elements in order"""
        g = self.get(st, loc)
        if g is None:
            return None
        if g[0] == 'vec':
            return [loc + (('[', num(i)),) for i in range(g[1])]
        return [loc + (('@', k),) for k in g[1]]

    def range_elems(self, I, st, loc, t):
        if self.get(st, loc) is not None:
            self.own(st, loc)
            return self.elems(st, loc)
        t = t.strip_ref() if t is not None else None
        if t is not None and t.k == 'array' and t.n:
            return [loc + (('[', num(i)),) for i in range(t.n)]
        return None

    def keyof(self, st, a):
        v = self.I.argval(st, a)
        if v[0] == 'agg' and v[1] is not None and not v[2]:
            v = v[1]
        if v[0] in ('ref', 'ptr', 'init') and len(v) == 2 and v[1] and v[1][0][0] == 'lit' and len(v[1]) == 1:
            v = ('str', v[1][0][1])
        if v[0] == 'lit':
            v = ('str', v[1])
        if not const(v):
            raise Unsupported('key %s of a known container' % (show(v) if not os.environ.get('DBG') else repr(v)))
        return v

    # ------------------------------------------------------------- life
    def anyctor(self, I, st, fr, n, loc, av):
        t = n.get('t')
        if t is not None and t.k == 'rec' and ITER.match(strip_targs(t.base)) and len(av) == 1:
            v = I.argval(st, av[0])
            if v[0] == 'cit':
                st.mem[loc] = v
                return I.ok(st, VOID)
        return None

    def std_init(self, st, n, v):
        t = n['e'].get('t')
        t = t.strip_ref() if t is not None else None
        if v[0] == 'agg' and t is not None and t.k == 'array' and t.n is not None:
            return ('agg', ('conc', 'vec', t.n), v[2])
        return v

    def array_elems(self, st, v):
        """element values of an array value (a brace list), in order"""
        if v[0] == 'agg':
            ix = sorted({p[0][1][1] for p, _ in v[2] if p and p[0][0] == '[' and p[0][1][0] == 'n'})
            return [self.I._proj(v, (('[', num(i)),), None) for i in ix]
        return None

    def ctor(self, I, st, fr, n, loc, av):
        t = n.get('t')
        kind = self.kind_of(t)
        if kind is None:
            return None
        if not av:
            self.make(st, loc, kind, [])
            return I.ok(st, VOID)
        a = av[0]
        v = I.argval(st, a)
        w = v[1] if v[0] == 'agg' else v
        if w is not None and w[0] == 'conc' and (w[1] == kind or w[1] == 'vec'):
            if w[1] == kind:
                I.store(st, loc, v)
                if n.get('ck') == 'move' and a[0] == 'ref':
                    self.make(st, a[1], kind, [])
                return I.ok(st, VOID)
            es = [I._proj(v, (('[', num(i)),), None) for i in range(w[2])]
        elif v[0] == 'cit' and len(av) > 1 and I.argval(st, av[1])[0] == 'cit':
            u = I.argval(st, av[1])
            es = [I.load(st, e) for e in self.elems(st, v[1])[v[2]:u[2]]]
        else:
            es = self.array_elems(st, v)
            if es is None and v[0] not in ('agg',) and n['a'] and n['a'][0]['k'] == 'StdInit' and not (n['a'][0].get('e') or {}).get('a', [1]):
                es = []
        if es is None:
            return None
        return self.fill(I, st, loc, kind, es)

    def fill(self, I, st, loc, kind, es):
        if kind == 'map':
            es = [(self.norm(I._proj(e, (('.', 'first'),), None)), I._proj(e, (('.', 'second'),), None)) for e in es]
            if not all(const(k) for k, _ in es):
                return None
        elif kind == 'set':
            es = [self.norm(e) for e in es]
            if not all(const(k) for k in es):
                return None
        self.make(st, loc, kind, es)
        return I.ok(st, VOID)

    def norm(self, v):
        v = v[1] if v[0] == 'agg' and not v[2] else v
        if v[0] == 'init' and len(v[1]) == 1 and v[1][0][0] == 'lit':
            return ('str', v[1][0][1])
        return ('str', v[1]) if v[0] == 'lit' else v

    def dtor(self, I, st, fr, loc, t):
        return I.ok(st, VOID)

    def pair(self, I, st, fr, n, loc, av):
        if len(av) == 2:
            I.store(st, loc + (('.', 'first'),), I.argval(st, av[0]))
            I.store(st, loc + (('.', 'second'),), I.argval(st, av[1]))
            return I.ok(st, VOID)
        if len(av) == 1:
            v = I.argval(st, av[0])
            for s in ('first', 'second'):
                I.store(st, loc + (('.', s),), I._proj(v, (('.', s),), None))
            return I.ok(st, VOID)
        return None

    def assign(self, I, st, fr, n, loc, av):
        v = I.argval(st, av[0])
        w = v[1] if v[0] == 'agg' else v
        if w is not None and w[0] == 'conc':
            I.store(st, loc, v)
            return I.ok(st, ('ref', loc))
        es = self.array_elems(st, v)
        kind = self.kind_of(n['obj'].get('t').strip_ref()) if n.get('obj') is not None and n['obj'].get('t') is not None else None
        if es is not None and kind is not None:
            self.fill(I, st, loc, kind, es)
            return I.ok(st, ('ref', loc))
        return None

    def swap(self, I, st, fr, n, loc, av):
        a, b = I.load(st, loc), I.load(st, av[0][1])
        I.store(st, loc, b)
        I.store(st, av[0][1], a)
        return I.ok(st, VOID)

    # ------------------------------------------------------------- queries
    def known(f):
        def g(self, I, st, fr, n, loc, av):
            if self.get(st, loc) is None:
                return None
            return f(self, I, st, fr, n, loc, av)
        return g

    @known
    def begin(self, I, st, fr, n, loc, av):
        return I.ok(st, self.iter_at(n, loc, 0))

    def iter_at(self, n, loc, i):
        # iterators of lists and arrays are plain pointers
        t = n.get('t')
        return ('ptr', loc + (('[', num(i)),)) if t is not None and t.k == 'ptr' else ('cit', loc, i)

    @known
    def end(self, I, st, fr, n, loc, av):
        return I.ok(st, self.iter_at(n, loc, len(self.elems(st, loc))))

    @known
    def size(self, I, st, fr, n, loc, av):
        return I.ok(st, num(len(self.elems(st, loc))))

    @known
    def empty(self, I, st, fr, n, loc, av):
        return I.ok(st, num(int(not self.elems(st, loc))))

    @known
    def nop(self, I, st, fr, n, loc, av):
        return I.ok(st, VOID)

    @known
    def find(self, I, st, fr, n, loc, av):
        g = self.get(st, loc)
        k = self.keyof(st, av[0])
        return I.ok(st, ('cit', loc, g[1].index(k) if k in g[1] else len(g[1])))

    @known
    def count(self, I, st, fr, n, loc, av):
        return I.ok(st, num(int(self.keyof(st, av[0]) in self.get(st, loc)[1])))

    @known
    def at(self, I, st, fr, n, loc, av):
        kind, order = self.own(st, loc)
        if kind == 'vec':
            i = I.argval(st, av[0])
            if i[0] != 'n':
                raise Unsupported('position %s of a known sequence' % show(i))
            if not 0 <= i[1] < order:
                return [(st, 'throw', ('exc', 'std::out_of_range'))]
            return I.ok(st, ('ref', loc + (('[', i),)))
        k = self.keyof(st, av[0])
        if k not in order:
            return [(st, 'throw', ('exc', 'std::out_of_range'))]
        return I.ok(st, ('ref', loc + (('@', k), ('.', 'second'))))

    @known
    def index(self, I, st, fr, n, loc, av):
        kind, order = self.own(st, loc)
        if kind == 'vec':
            i = I.argval(st, av[0])
            if i[0] != 'n':
                raise Unsupported('position %s of a known sequence' % show(i))
            if not 0 <= i[1] < order:
                I.event(st, fr, n, 'out of range', loc, (i,))
            return I.ok(st, ('ref', loc + (('[', i),)))
        k = self.keyof(st, av[0])
        if k not in order:
            I.store(st, loc + (('@', k), ('.', 'first')), k)
            t = n.get('t')
            t = t.strip_ref() if t is not None else None
            sec = loc + (('@', k), ('.', 'second'))
            if self.kind_of(t):
                self.make(st, sec, self.kind_of(t), [])
            else:
                I.store(st, sec, ('str', '') if t is not None and t.base == 'std::basic_string' else N0)
            self.put(st, loc, 'map', order + (k,))
        return I.ok(st, ('ref', loc + (('@', k), ('.', 'second'))))

    @known
    def clear(self, I, st, fr, n, loc, av):
        self.make(st, loc, self.get(st, loc)[0], [])
        return I.ok(st, VOID)

    @known
    def front(self, I, st, fr, n, loc, av):
        return I.ok(st, ('ref', self.elems(st, loc)[0]))

    @known
    def back(self, I, st, fr, n, loc, av):
        return I.ok(st, ('ref', self.elems(st, loc)[-1]))

    @known
    def push(self, I, st, fr, n, loc, av):
        kind, order = self.own(st, loc)
        if len(av) != 1:
            return self.build(I, st, fr, n, loc, av, order)
        I.store(st, loc + (('[', num(order)),), I.argval(st, av[0]))
        self.put(st, loc, 'vec', order + 1)
        return I.ok(st, ('ref', loc + (('[', num(order)),)))

    def build(self, I, st, fr, n, loc, av, order):
        """an element constructed in place from several arguments"""
        t = n['obj'].get('t') if n.get('obj') is not None else None
        t = t.strip_ref() if t is not None else None
        e = t.targs[0] if t is not None and t.k == 'rec' and t.targs and hasattr(t.targs[0], 'k') else None
        if e is None or e.k != 'rec':
            return None
        at = loc + (('[', num(order)),)
        if strip_targs(e.base) == 'std::pair' and len(av) == 2:
            self.pair(I, st, fr, n, at, av)
            self.put(st, loc, 'vec', order + 1)
            return I.ok(st, ('ref', at))
        cs = [f for f in I.P.methods_of.get(e.base, []) if f.ctor and len(f.params) == len(av) and (f.body is not None or f.inits)]
        if len(cs) != 1:
            return None
        outs = []
        for s, k, v in I.run_ctor(st, fr, n, cs[0], at, av):
            if k == 'v':
                self.put(s, loc, 'vec', order + 1)
                v = ('ref', at)
            outs.append((s, k, v))
        return outs

    @known
    def resize(self, I, st, fr, n, loc, av):
        kind, order = self.own(st, loc)
        m = I.argval(st, av[0])
        if kind != 'vec' or m[0] != 'n':
            raise Unsupported('resize of a known sequence')
        for i in range(order, m[1]):
            I.store(st, loc + (('[', num(i)),), I.argval(st, av[1]) if len(av) > 1 else N0)
        self.put(st, loc, 'vec', m[1])
        return I.ok(st, VOID)

    def insert_over(self, I, st, fr, n, loc, av):
        return self.insert(I, st, fr, n, loc, av, True)

    def insert(self, I, st, fr, n, loc, av, over=False):
        if self.get(st, loc) is None:
            return None
        kind, order = self.own(st, loc)
        if kind == 'vec':
            return None
        if kind == 'set':
            if len(av) != 1:
                return None
            v = I.argval(st, av[0])
            es = self.array_elems(st, v) if v[0] == 'agg' and v[2] else None
            ks = [self.norm(e) for e in es] if es is not None else [self.keyof(st, av[0])]
            for k in ks:
                I.store(st, loc + (('@', k),), k)
            self.put(st, loc, kind, order + tuple(k for k in ks if k not in order))
            return I.ok(st, ('pairv', ('cit', loc, 0), num(int(ks[0] not in order)))) if es is None else I.ok(st, VOID)
        if len(av) == 2:
            k, v = self.keyof(st, av[0]), I.argval(st, av[1])
        elif len(av) == 1:
            e = I.argval(st, av[0])
            k, v = self.norm(I._proj(e, (('.', 'first'),), None)), I._proj(e, (('.', 'second'),), None)
            if not const(k):
                return None
        else:
            return None
        fresh = k not in order
        if fresh or over:
            I.store(st, loc + (('@', k), ('.', 'first')), k)
            I.store(st, loc + (('@', k), ('.', 'second')), v)
        if fresh:
            self.put(st, loc, kind, order + (k,))
        r = I.new_temp()
        I.store(st, r + (('.', 'first'),), ('cit', loc, (order + (k,)).index(k)))
        I.store(st, r + (('.', 'second'),), num(int(fresh)))
        return I.ok(st, I.load(st, r))

    @known
    def erase(self, I, st, fr, n, loc, av):
        kind, order = self.own(st, loc)
        v = I.argval(st, av[0])
        if kind == 'vec' or v[0] == 'cit':
            return None
        k = self.keyof(st, av[0])
        I.drop(st, loc + (('@', k),))
        self.put(st, loc, kind, tuple(x for x in order if x != k))
        return I.ok(st, num(int(k in order)))

    # ------------------------------------------------------------- iterators
    def it(self, st, a):
        v = self.I.argval(st, a)
        if v[0] == 'ptr' and v[1] and v[1][-1][0] == '[' and v[1][-1][1][0] == 'n' and self.get(st, v[1][:-1]) is not None:
            return ('cit', v[1][:-1], v[1][-1][1][1])
        return v if v[0] == 'cit' else None

    def at_it(self, st, v):
        es = self.elems(st, v[1])
        if not 0 <= v[2] < len(es):
            self.I.event(st, None, None, 'end used', v[1])
            return v[1] + (('end',),)
        return es[v[2]]

    def star(self, I, st, fr, n, loc, av):
        v = self.it(st, ('ref', loc) if loc is not None else av[0])
        return None if v is None else I.ok(st, ('ref', self.at_it(st, v)))

    def arrow(self, I, st, fr, n, loc, av):
        v = self.it(st, ('ref', loc) if loc is not None else av[0])
        return None if v is None else I.ok(st, ('ptr', self.at_it(st, v)))

    def inc(self, I, st, fr, n, loc, av):
        at = loc if loc is not None else av[0][1]
        v = self.it(st, ('ref', at))
        if v is None:
            return None
        w = ('cit', v[1], v[2] + 1)
        post = len(av) == (1 if loc is not None else 2)
        st.mem[at] = w
        return I.ok(st, v if post else ('ref', at))

    def next(self, I, st, fr, n, loc, av):
        v = self.it(st, av[0])
        d = I.argval(st, av[1]) if len(av) > 1 else N1
        return None if v is None or d[0] != 'n' else I.ok(st, ('cit', v[1], v[2] + d[1]))

    def eq(self, I, st, fr, n, loc, av, neg=False):
        xs = ([('ref', loc)] if loc is not None else []) + list(av)
        if len(xs) != 2:
            return None
        a, b = I.argval(st, xs[0]), I.argval(st, xs[1])
        a, b = self.norm(a), self.norm(b)
        if a[0] == 'cit' and b[0] == 'cit' or a[0] == 'str' and b[0] == 'str':
            return I.ok(st, num(int((a == b) != neg)))
        return None

    def ne(self, I, st, fr, n, loc, av):
        return self.eq(I, st, fr, n, loc, av, True)

    # ------------------------------------------------------------- algorithms
    def span(self, st, av):
        a, b = self.it(st, av[0]), self.it(st, av[1])
        if a is None or b is None or a[1] != b[1]:
            return None
        return a[1], a[2], b[2], self.elems(st, a[1])

    def a_find(self, I, st, fr, n, loc, av):
        sp = self.span(st, av)
        if sp is None:
            return None
        base, i, j, es = sp
        k = self.keyof(st, av[2])
        hit = [x for x in range(i, j) if self.norm(I.load(st, es[x])) == k]
        return I.ok(st, num(len(hit)) if n['n'] == 'count' else self.iter_at(n, base, hit[0] if hit else j))

    def a_if(self, I, st, fr, n, loc, av):
        sp = self.span(st, av)
        if sp is None:
            return None
        base, i, j, es = sp
        nm = n['n']
        outs = []

        def go(s, x, cnt):
            if x == j:
                r = {'find_if': self.iter_at(n, base, j), 'any_of': N0, 'none_of': N1, 'all_of': N1, 'count_if': num(cnt)}[nm]
                outs.extend(I.ok(s, r))
                return
            f = I.argval(s, av[2])
            for s2, k2, v2 in I.call_value(s, fr, {'k': 'Call', 'l': n.get('l', 0), 'a': []}, f, (('ref', es[x]),)):
                if k2 != 'v':
                    outs.append((s2, k2, v2))
                    continue
                for s3, b in I.split(s2, I.boolify(I.argval(s3_, v2) if False else I.argval(s2, v2))):
                    if nm == 'count_if':
                        go(s3, x + 1, cnt + b)
                    elif nm == 'all_of':
                        go(s3, x + 1, cnt) if b else outs.extend(I.ok(s3, N0))
                    elif b:
                        outs.extend(I.ok(s3, {'find_if': self.iter_at(n, base, x), 'any_of': N1, 'none_of': N0}[nm]))
                    else:
                        go(s3, x + 1, cnt)
        go(st, i, 0)
        return outs

    def each(self, I, st, fr, f, rows, step):
        """call f on every row; step(state, value, index) -> True to go on, or outcomes"""
        outs = []

        def go(s, x):
            if x == len(rows):
                outs.extend(step(s, None, x))
                return
            for s2, k2, v2 in I.call_value(s, fr, {'k': 'Call', 'l': 0, 'a': []}, f, rows[x]):
                if k2 != 'v':
                    outs.append((s2, k2, v2))
                    continue
                for s3, more in step(s2, v2, x):
                    if more is True:
                        go(s3, x + 1)
                    else:
                        outs.append(more)
        go(st, 0)
        return outs

    def a_each(self, I, st, fr, n, loc, av):
        sp = self.span(st, av)
        if sp is None:
            return None
        base, i, j, es = sp
        f = I.argval(st, av[2])
        return self.each(I, st, fr, f, [(('ref', e),) for e in es[i:j]], lambda s, v, x: I.ok(s, f) if v is None else [(s, True)])

    def a_transform(self, I, st, fr, n, loc, av):
        sp = self.span(st, av)
        if sp is None or len(av) != 4:
            return None
        base, i, j, es = sp
        o = I.argval(st, av[2])
        f = I.argval(st, av[3])

        def step(s, v, x):
            if v is None:
                return I.ok(s, ('cit', o[1], o[2] + j - i) if o[0] == 'cit' else o)
            v = I.argval(s, v)
            if o[0] == 'cit':
                I.store(s, self.elems(s, o[1])[o[2] + x], v)
            else:
                kind, order = self.own(s, o[1])
                I.store(s, o[1] + (('[', num(order)),), v)
                self.put(s, o[1], 'vec', order + 1)
            return [(s, True)]
        if not (o[0] == 'cit' and o[2] + j - i <= len(self.elems(st, o[1])) or o[0] == 'backins' and self.get(st, o[1]) is not None):
            return None
        return self.each(I, st, fr, f, [(('ref', e),) for e in es[i:j]], step)

    def a_backins(self, I, st, fr, n, loc, av):
        return I.ok(st, ('backins', av[0][1])) if av[0][0] == 'ref' and self.get(st, av[0][1]) is not None else None

    def a_equal(self, I, st, fr, n, loc, av):
        sp = self.span(st, av)
        b = self.it(st, av[2]) if sp is not None else None
        if b is None:
            return None
        base, i, j, es = sp
        rest = av[3:]
        other = self.elems(st, b[1])[b[2]:]
        if rest and self.it(st, rest[0]) is not None:
            other = other[:self.it(st, rest[0])[2] - b[2]]
            rest = rest[1:]
            if len(other) != j - i:
                return I.ok(st, N0)
        if not rest or len(other) < j - i:
            return None
        f = I.argval(st, rest[0])

        def step(s, v, x):
            if v is None:
                return I.ok(s, N1)
            return [(s2, True) if b else (s2, (s2, 'v', N0)) for s2, b in I.split(s, I.boolify(I.argval(s, v)))]
        return self.each(I, st, fr, f, [(('ref', a), ('ref', o)) for a, o in zip(es[i:j], other)], step)

    # ------------------------------------------------------------- strings
    def s_args(self, I, st, loc, av):
        vs = [self.norm(I.load(st, loc))] + [self.norm(I.argval(st, a)) for a in av]
        return [v[1] for v in vs] if all(v[0] in ('n', 'str') for v in vs) and vs[0][0] == 'str' else None

    def s_compare(self, I, st, fr, n, loc, av):
        vs = self.s_args(I, st, loc, av)
        if vs is None:
            return None
        if len(vs) == 2 and isinstance(vs[1], str):
            a, b = vs
        elif len(vs) in (4, 5, 6) and isinstance(vs[3], str) and 0 <= vs[1] <= len(vs[0]):
            a, b = vs[0][vs[1]:vs[1] + vs[2]], vs[3]
            if len(vs) == 5:
                if n['pt'] and strip_targs(n['pt'][2].u if hasattr(n['pt'][2], 'u') else '') == 'std::basic_string':
                    return None
                b = b[:vs[4]]
            elif len(vs) == 6:
                b = b[vs[4]:vs[4] + vs[5]]
        else:
            return None
        return I.ok(st, num((a > b) - (a < b)))

    def s_data(self, I, st, fr, n, loc, av):
        a = self.norm(I.load(st, loc))
        return I.ok(st, a) if a[0] == 'str' else None

    def s_substr(self, I, st, fr, n, loc, av):
        vs = self.s_args(I, st, loc, av)
        if vs is None or len(vs) < 2 or not 0 <= vs[1] <= len(vs[0]):
            return None
        return I.ok(st, ('str', vs[0][vs[1]:vs[1] + vs[2]] if len(vs) > 2 else vs[0][vs[1]:]))

    def s_find(self, I, st, fr, n, loc, av):
        vs = self.s_args(I, st, loc, av)
        if vs is None or len(vs) > 3:
            return None
        if isinstance(vs[1], int):
            vs[1] = chr(vs[1] & 255)
        if n['n'] == 'find':
            r = vs[0].find(vs[1], vs[2] if len(vs) > 2 else 0)
        else:
            r = vs[0].rfind(vs[1]) if len(vs) == 2 or vs[2] > len(vs[0]) else vs[0].rfind(vs[1], 0, vs[2] + len(vs[1]))
        return I.ok(st, num(r if r >= 0 else 2 ** 64 - 1))

    def s_at(self, I, st, fr, n, loc, av):
        vs = self.s_args(I, st, loc, av)
        if vs is None:
            return None
        i = {'front': 0, 'back': len(vs[0]) - 1}.get(n['n'], vs[1] if len(vs) > 1 else 0)
        if not 0 <= i < len(vs[0]):
            return None
        l = I.new_temp()
        I.store(st, l, num(ord(vs[0][i])))
        return I.ok(st, ('ref', l))

    def c_string(self, I, st, fr, n, loc, av):
        vs = [self.norm(I.argval(st, a)) for a in av]
        if not all(v[0] in ('n', 'str') for v in vs):
            return None
        vs = [v[1] for v in vs]
        q = n['n']
        if q == 'strlen':
            return I.ok(st, num(len(vs[0])))
        a, b = vs[:2]
        if len(vs) > 2:
            if q == 'memcmp' and (vs[2] > len(a) + 1 or vs[2] > len(b) + 1):
                return None
            a, b = a[:vs[2]], b[:vs[2]]
        if 'case' in q:
            a, b = a.lower(), b.lower()
        return I.ok(st, num((a > b) - (a < b)))

    def s_empty(self, I, st, fr, n, loc, av):
        a = self.norm(I.load(st, loc))
        return I.ok(st, num(int(a[1] == ''))) if a[0] == 'str' else None

    def s_size(self, I, st, fr, n, loc, av):
        a = self.norm(I.load(st, loc))
        return I.ok(st, num(len(a[1]))) if a[0] == 'str' else None
