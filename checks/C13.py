import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Path-complete abstract interpretation of every public operation of the cache over all shapes of a bucket (empty, one entry, front / any entries / last, with the requested key absent, first, last or in between; full or not), '
        'with the lookup table and the recency list modelled as sets of entries and sequences of nodes with unknown segments: at the end table and list hold the same entries, each entry points at the node with its key, '
        'order, content, result and eviction are those of a least-recently-used cache, no erased node or moved-from key is used, and every access to a bucket happens under that bucket\'s mutex. '
        'The constructor is evaluated for every bucket exponent from 0 to 7 with an unknown capacity: the bucket capacities are positive and add up to it, and every key maps to an existing bucket.')
C = 'nebula::ConcurrentLRUCache'
L = 'nebula::LRU'
KEY, VAL = ('str', 'the key'), ('str', 'the value')
SEG = 'segment'
EXPS = range(0, 8)


def seg(x):
    return x is not None and x.startswith(SEG)


class Cache:
    """The abstract bucket.  ghost ('lru', base): (nodes, entries, size) with nodes a sequence of node names and segments and
    entries a mapping name -> node its iterator names; keys and values of entries live in memory."""

    def __init__(self, c, P, shape, hit, full):
        self.shape, self.hit, self.full = shape, hit, full
        self.bad = []
        I = self.I = c.interp(P, unroll=140)
        self.P = P
        r = P.recs.get('nebula::LRU<witness::Key, witness::Val>')
        b = P.recs.get('nebula::ConcurrentLRUCache<witness::Key, witness::Val>::Bucket')
        if r is None or b is None:
            raise Broken('class LRU or Bucket not found')
        self.mapf = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::map', 'std::unordered_map')], 'tables')
        self.listf = one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::list'], 'recency lists')
        self.ptrf = one([f['id'] for f in b.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in ('std::unique_ptr', 'std::shared_ptr')], 'caches of a bucket')
        self.accesses = 0
        self.used = set()
        H = I.hooks
        for cls in ('std::map', 'std::unordered_map'):
            for m in ('find', 'end', 'cend', 'begin', 'erase', 'emplace', 'insert', 'try_emplace', 'size', 'empty', 'count', 'clear', 'operator[]', 'at', 'insert_or_assign'):
                H[cls + '::' + m] = self.guarded(getattr(self, 'map_' + {'operator[]': 'index', 'cend': 'end'}.get(m, m), None))
        for m in ('begin', 'end', 'cbegin', 'cend', 'front', 'back', 'push_front', 'push_back', 'emplace_front', 'emplace_back', 'pop_front', 'pop_back', 'erase', 'splice', 'size', 'empty', 'clear', 'insert', 'emplace'):
            H['std::list::' + m] = self.guarded(getattr(self, 'list_' + {'cbegin': 'begin', 'cend': 'end'}.get(m, m), None))
        H['ctor:std::vector'] = lambda I, st, fr, n, loc, av: I.ok(st, VOID)
        H['std::vector::operator[]'] = self.bucket
        H['std::vector::at'] = self.bucket
        for q in ('std::_List_iterator', 'std::_List_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
            H['ctor:' + q] = self.copy
            H[q + '::operator='] = self.assign
        H['*::operator*'] = self.star
        H['*::operator->'] = self.arrow
        H['*::operator++'] = H['*::operator--'] = self.step
        H['std::next'] = H['std::prev'] = self.nextprev
        H['*::operator=='] = self.eq
        H['*::operator!='] = self.eq
        H['std::get'] = self.get
        H['std::make_tuple'] = H['std::make_pair'] = H['std::forward_as_tuple'] = self.tup
        for q in ('std::tuple', 'std::pair'):
            H['ctor:' + q] = self.tupctor
            H[q + '::operator='] = self.tupassign
        for q in ('witness::Key', 'witness::Val'):
            H['ctor:' + q] = self.copy
            H[q + '::operator='] = self.assign
        H['ctor:boost::optional'] = self.optctor
        for m in ('value', 'get', 'is_initialized', 'has_value', 'operator!', 'operator bool', 'get_ptr'):
            H['boost::optional::' + m] = self.optget
        H['ctor:nebula::StatusOr'] = self.result
        H['ctor:nebula::Status'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, I.argval(st, av[0]) if av else ('app', 'status', 'OK')), I.ok(st, VOID))[1]
        H['std::hash::operator()'] = self.hash
        H['dtor:*'] = lambda I, st, fr, loc, t: None if t is not None and t.k == 'rec' and 'guard' in t.base or t is not None and t.k == 'rec' and 'lock' in t.base else I.ok(st, VOID)
        for f in P.methods_of.get('nebula::Status', []):
            if f.d.get('static') and f.ret.k == 'rec' and f.ret.base == 'nebula::Status':
                H['nebula::Status::' + f.n] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', n['n']))
        I.load_hook = self.load
        I.on_read = lambda I, st, loc, node: self.access(st, loc, node)
        I.on_write = lambda I, st, loc, v, node: self.access(st, loc, node)
        I.exact_arith = I.exact_casts = True

    # ---------------------------------------------------------------- memory
    def base(self, loc):
        for i, s in enumerate(loc):
            if s == ('lru',):
                return loc[:i + 1]
        return None

    def load(self, I, st, loc, t):
        if len(loc) >= 2 and loc[-1] == ('.', self.ptrf) and loc[-2][0] == '[':
            return ('ptr', loc[:-1] + (('lru',),))
        return None

    def locked(self, st, base):
        return any(mx[:len(base) - 1] == base[:-1] and not sh for mx, sh in st.ghost.get('locks', ()))

    def access(self, st, loc, node):
        b = self.base(loc)
        if b is None:
            return
        self.used.add(b[:-1])
        self.accesses += 1
        if not self.locked(st, b):
            self.err('bucket state is accessed without the lock of the bucket (line %d)' % self.I.line)
        if len(loc) > len(b) and loc[len(b)][0] in ('node', 'ent'):
            self.alive(st, b, *loc[len(b)])

    def alive(self, st, b, kind, name):
        nodes, ents, size = self.S(st, b)
        if not (name in nodes if kind == 'node' else name in dict(ents)):
            self.err('an entry that has been erased is used (line %d)' % self.I.line)

    def err(self, what):
        self.bad.append(what)

    def S(self, st, b):
        g = st.ghost.get(('lru', b))
        if g is None:
            ents = []
            I = self.I
            for x in self.shape:
                ents.append((x, x))
                if not seg(x):
                    st.mem[b + (('node', x),)] = self.key(x)
                    st.mem[b + (('ent', x), ('.', 'first'))] = self.key(x)
                    st.mem[b + (('ent', x), ('.', 'second'), ('get', 0))] = self.val(x)
                    st.mem[b + (('ent', x), ('.', 'second'), ('get', 1))] = ('lit', b, x)
            g = (tuple(self.shape), tuple(ents), 0)
            st.ghost[('lru', b)] = g
        return g

    def setS(self, st, b, g):
        st.ghost[('lru', b)] = g

    def key(self, x):
        return ('str', 'key of ' + x)

    def val(self, x):
        return ('str', 'value of ' + x)

    def base_size(self, I, b):
        if not any(seg(x) for x in self.shape):
            return num(len(self.shape))
        v = ('sym', 'entries', 0)
        I.bounds[v] = (len([x for x in self.shape if not seg(x)]), 1 << 60)
        return v

    # ---------------------------------------------------------------- helpers
    def guarded(self, h):
        if h is None:
            return None

        def f(I, st, fr, n, loc, av):
            b = self.base(loc) if loc is not None else None
            if b is None or loc[len(b):len(b) + 1] not in (((('.', self.mapf)),), ((('.', self.listf)),)):
                raise Unsupported('container operation %s outside a bucket' % n.get('n'))
            self.used.add(b[:-1])
            self.accesses += 1
            if not self.locked(st, b):
                self.err('bucket state is accessed without the lock of the bucket (line %d)' % n.get('l', 0))
            return h(I, st, b, n, av)
        return f

    def term(self, st, a):
        v = self.I.argval(st, a)
        b = self.base(a[1]) if a[0] == 'ref' else None
        if b is not None and len(a[1]) > len(b) and a[1][len(b)][0] in ('node', 'ent'):
            self.alive(st, b, *a[1][len(b)])
        if v[0] == 'moved':
            self.err('a key or value is used after it was moved away (line %d)' % self.I.line)
            v = v[1]
        return v

    def give(self, st, a, t):
        """the value passed as argument a; an argument passed as an rvalue is moved from"""
        v = self.term(st, a)
        if a[0] == 'ref' and t is not None and t.k == 'rref':
            self.I.store(st, a[1], ('moved', v))
        return v

    def who(self, st, b, k):
        """name of the entry with key k, or None; k is a term"""
        nodes, ents, _ = self.S(st, b)
        d = dict(ents)
        for x in d:
            if not seg(x):
                kx = st.mem.get(b + (('ent', x), ('.', 'first')))
                if kx == k or (k == KEY and x == self.hit) or (kx == KEY and k == self.key(self.hit or '?')):
                    return x
        if k == KEY or k[0] == 'str' and k[1].startswith('key of '):
            return None
        raise Unsupported('lookup of %s' % show(k))

    # ---------------------------------------------------------------- table
    def map_find(self, I, st, b, n, av):
        return I.ok(st, ('mit', b, self.who(st, b, self.term(st, av[0]))))

    def map_end(self, I, st, b, n, av):
        return I.ok(st, ('mit', b, None))

    def map_count(self, I, st, b, n, av):
        return I.ok(st, num(int(self.who(st, b, self.term(st, av[0])) is not None)))

    def map_size(self, I, st, b, n, av):
        nodes, ents, d = self.S(st, b)
        return I.ok(st, self.msize(st, b))

    def msize(self, st, b):
        nodes, ents, d = self.S(st, b)
        return vadd(self.base_size(self.I, b), num(len(ents) - len(self.shape) + d))

    def lsize(self, st, b):
        nodes, ents, d = self.S(st, b)
        return vadd(self.base_size(self.I, b), num(len(nodes) - len(self.shape) + d))

    def map_empty(self, I, st, b, n, av):
        return I.ok(st, cmp_term('==', self.msize(st, b), N0))

    def list_empty(self, I, st, b, n, av):
        return I.ok(st, cmp_term('==', self.lsize(st, b), N0))

    def list_size(self, I, st, b, n, av):
        return I.ok(st, self.lsize(st, b))

    def wipe(self, st, b, which):
        nodes, ents, d = self.S(st, b)
        if which == 'map':
            self.setS(st, b, (nodes, (), d))
        else:
            self.setS(st, b, ((), ents, d))

    def map_clear(self, I, st, b, n, av):
        # unknown segments go as well
        self.wipe(st, b, 'map')
        return I.ok(st, VOID)

    def list_clear(self, I, st, b, n, av):
        self.wipe(st, b, 'list')
        return I.ok(st, VOID)

    def drop_entry(self, st, b, x):
        nodes, ents, d = self.S(st, b)
        self.setS(st, b, (nodes, tuple(e for e in ents if e[0] != x), d))

    def map_erase(self, I, st, b, n, av):
        a = I.argval(st, av[0])
        if len(av) != 1:
            raise Unsupported('erase of a range')
        if a[0] == 'mit':
            if a[2] is None:
                self.err('the end of the table is erased (line %d)' % n['l'])
            elif a[2] not in dict(self.S(st, b)[1]):
                self.err('a table entry is erased twice (line %d)' % n['l'])
            self.drop_entry(st, b, a[2])
            return I.ok(st, ('mit', b, '?after'))
        x = self.who(st, b, self.term(st, av[0]))
        if x is not None:
            self.drop_entry(st, b, x)
        return I.ok(st, num(int(x is not None)))

    def add(self, st, b, k):
        x = self.who(st, b, k)
        if x is not None:
            return x, False
        nodes, ents, d = self.S(st, b)
        i = 0
        while 'entry%d' % i in dict(ents):
            i += 1
        x = 'entry%d' % i
        self.setS(st, b, (nodes, ents + ((x, None),), d))
        st.mem[b + (('ent', x), ('.', 'first'))] = k
        return x, True

    def put(self, st, b, x, k, v):
        """v: ('tup', (value, iterator)) or a pair of them"""
        if v[0] != 'tup' or len(v[1]) != 2:
            raise Unsupported('entry %s' % show(v))
        for i in (0, 1):
            st.mem[b + (('ent', x), ('.', 'second'), ('get', i))] = v[1][i]

    def ins(self, I, st, b, n, k, v, over=False):
        x, new = self.add(st, b, k)
        if new or over:
            self.put(st, b, x, k, v)
        return I.ok(st, ('agg', None, (((('.', 'first'),), ('mit', b, x)), ((('.', 'second'),), num(int(new))))))

    def pts(self, n):
        return list(n.get('pt') or [])

    def map_emplace(self, I, st, b, n, av):
        pt = self.pts(n) + [None] * 4
        if len(av) == 1:
            return self.map_insert(I, st, b, n, av)
        k = self.give(st, av[0], pt[0])
        if len(av) == 2:
            v = self.give(st, av[1], pt[1])
        else:
            v = ('tup', tuple(self.give(st, a, t) for a, t in zip(av[1:], pt[1:])))
        return self.ins(I, st, b, n, k, v)
    map_try_emplace = map_emplace

    def map_insert_or_assign(self, I, st, b, n, av):
        pt = self.pts(n) + [None] * 4
        return self.ins(I, st, b, n, self.give(st, av[0], pt[0]), self.give(st, av[1], pt[1]), True)

    def map_insert(self, I, st, b, n, av):
        v = self.term(st, av[0])
        if v[0] != 'tup' or len(v[1]) != 2:
            raise Unsupported('insertion of %s' % show(v))
        return self.ins(I, st, b, n, v[1][0], v[1][1])

    def map_index(self, I, st, b, n, av):
        pt = self.pts(n) + [None]
        x, new = self.add(st, b, self.give(st, av[0], pt[0]))
        if new:
            self.put(st, b, x, None, ('tup', (('str', 'a default value'), ('lit', b, None))))
        return I.ok(st, ('ref', b + (('ent', x), ('.', 'second'))))

    def map_at(self, I, st, b, n, av):
        x = self.who(st, b, self.term(st, av[0]))
        if x is None:
            return [(st, 'throw', ('exc', 'std::out_of_range'))]
        return I.ok(st, ('ref', b + (('ent', x), ('.', 'second'))))

    # ---------------------------------------------------------------- list
    def pos(self, st, b, x):
        nodes = self.S(st, b)[0]
        return len(nodes) if x is None else nodes.index(x) if x in nodes else None

    def list_begin(self, I, st, b, n, av):
        nodes = self.S(st, b)[0]
        if nodes and seg(nodes[0]):
            raise Unsupported('first node of an unknown segment')
        return I.ok(st, ('lit', b, nodes[0] if nodes else None))

    def list_end(self, I, st, b, n, av):
        return I.ok(st, ('lit', b, None))

    def edge(self, st, b, i, n):
        nodes = self.S(st, b)[0]
        if not nodes:
            self.err('the %s of an empty list is used (line %d)' % ('last element' if i else 'first element', n['l']))
            return None
        if seg(nodes[i]):
            raise Unsupported('end of an unknown segment')
        return nodes[i]

    def list_front(self, I, st, b, n, av):
        return I.ok(st, ('ref', b + (('node', self.edge(st, b, 0, n)),)))

    def list_back(self, I, st, b, n, av):
        return I.ok(st, ('ref', b + (('node', self.edge(st, b, -1, n)),)))

    def remove(self, st, b, x):
        nodes, ents, d = self.S(st, b)
        self.setS(st, b, (tuple(y for y in nodes if y != x), ents, d))

    def list_pop_front(self, I, st, b, n, av):
        self.remove(st, b, self.edge(st, b, 0, n))
        return I.ok(st, VOID)

    def list_pop_back(self, I, st, b, n, av):
        self.remove(st, b, self.edge(st, b, -1, n))
        return I.ok(st, VOID)

    def insert_at(self, st, b, i, k):
        nodes, ents, d = self.S(st, b)
        j = 0
        while 'node%d' % j in nodes:
            j += 1
        x = 'node%d' % j
        self.setS(st, b, (nodes[:i] + (x,) + nodes[i:], ents, d))
        st.mem[b + (('node', x),)] = k
        return x

    def list_push_front(self, I, st, b, n, av):
        x = self.insert_at(st, b, 0, self.give(st, av[0], (self.pts(n) + [None])[0]))
        return I.ok(st, ('ref', b + (('node', x),)) if n['n'].startswith('emplace') else VOID)
    list_emplace_front = list_push_front

    def list_push_back(self, I, st, b, n, av):
        x = self.insert_at(st, b, len(self.S(st, b)[0]), self.give(st, av[0], (self.pts(n) + [None])[0]))
        return I.ok(st, ('ref', b + (('node', x),)) if n['n'].startswith('emplace') else VOID)
    list_emplace_back = list_push_back

    def list_insert(self, I, st, b, n, av):
        p = I.argval(st, av[0])
        i = self.pos(st, b, p[2]) if p[0] == 'lit' else None
        if i is None or len(av) != 2:
            raise Unsupported('insertion into the list')
        return I.ok(st, ('lit', b, self.insert_at(st, b, i, self.give(st, av[1], (self.pts(n) + [None, None])[1]))))
    list_emplace = list_insert

    def list_erase(self, I, st, b, n, av):
        a = I.argval(st, av[0])
        if a[0] != 'lit' or len(av) != 1:
            raise Unsupported('erase of %s' % show(a))
        if a[2] is None or a[2] not in self.S(st, b)[0]:
            self.err('a list node that is not there is erased (line %d)' % n['l'])
        self.remove(st, b, a[2])
        return I.ok(st, ('lit', b, '?after'))

    def list_splice(self, I, st, b, n, av):
        p = I.argval(st, av[0])
        it = I.argval(st, av[2]) if len(av) == 3 else None
        if p[0] != 'lit' or it is None or it[0] != 'lit' or av[1][0] != 'ref' or self.base(av[1][1]) != b:
            raise Unsupported('splice')
        nodes, ents, d = self.S(st, b)
        if it[2] is None or it[2] not in nodes or self.pos(st, b, p[2]) is None:
            self.err('a list node that is not there is moved (line %d)' % n['l'])
            return I.ok(st, VOID)
        if p[2] != it[2]:
            rest = tuple(x for x in nodes if x != it[2])
            i = len(rest) if p[2] is None else rest.index(p[2])
            self.setS(st, b, (rest[:i] + (it[2],) + rest[i:], ents, d))
        return I.ok(st, VOID)

    # ---------------------------------------------------------------- iterators
    def itv(self, st, loc, av):
        v = self.I.load(st, loc) if loc is not None else self.I.argval(st, av[0]) if av else None
        return v if v is not None and v[0] in ('lit', 'mit') else None

    def copy(self, I, st, fr, n, loc, av):
        if len(av) != 1:
            I.store(st, loc, ('str', 'a default value'))
            return I.ok(st, VOID)
        pt = self.pts(n) + [None]
        v = self.term(st, av[0])
        if v[0] not in ('lit', 'mit'):
            v = self.give(st, av[0], pt[0])
        I.store(st, loc, v)
        return I.ok(st, VOID)

    def assign(self, I, st, fr, n, loc, av):
        pt = self.pts(n) + [None]
        v = self.term(st, av[0])
        if v[0] not in ('lit', 'mit'):
            v = self.give(st, av[0], pt[0])
        I.store(st, loc, v, n)
        return I.ok(st, ('ref', loc))

    def target(self, st, v, n):
        b, x = v[1], v[2]
        if x is None:
            self.err('the end of a container is dereferenced (line %d)' % n.get('l', 0))
            x = 'end'
        kind = 'node' if v[0] == 'lit' else 'ent'
        self.alive(st, b, kind, x)
        return b + ((kind, x),)

    def star(self, I, st, fr, n, loc, av):
        v = self.itv(st, loc, av)
        if v is None:
            o = I.load(st, loc) if loc is not None else None
            if o is not None and o[0] == 'some':
                return self.optget(I, st, fr, n, loc, av)
            return None
        return I.ok(st, ('ref', self.target(st, v, n)))

    def arrow(self, I, st, fr, n, loc, av):
        v = self.itv(st, loc, av)
        return None if v is None else I.ok(st, ('ptr', self.target(st, v, n)))

    def move(self, st, v, k, n):
        """[(state, iterator moved by k)]"""
        if v[0] != 'lit':
            raise Unsupported('iteration over the table')
        if k == 0:
            return [(st, v)]
        d = 1 if k > 0 else -1
        b = v[1]
        nodes = self.S(st, b)[0]
        i = self.pos(st, b, v[2])
        if i is None or not 0 <= i + d <= len(nodes):
            self.err('an iterator leaves the list (line %d)' % n.get('l', 0))
            return [(st, v)]
        i += d
        if i < len(nodes) and seg(nodes[i]):
            out = []
            for rest in (False, True):
                out += self.move(self.expose(st.copy(), b, nodes[i], d, rest), v, k, n)
            return out
        return self.move(st, ('lit', b, nodes[i] if i < len(nodes) else None), k - d, n)

    def expose(self, st, b, x, d, rest):
        """an unknown segment is empty, or has a node at the end an iterator comes from"""
        nodes, ents, delta = self.S(st, b)
        new = ()
        if rest:
            y = 'in ' + x
            while y in nodes:
                y += "'"
            new = (y, x) if d > 0 else (x, y)
            st.mem[b + (('node', y),)] = self.key(y)
            st.mem[b + (('ent', y), ('.', 'first'))] = self.key(y)
            st.mem[b + (('ent', y), ('.', 'second'), ('get', 0))] = self.val(y)
            st.mem[b + (('ent', y), ('.', 'second'), ('get', 1))] = ('lit', b, y)
        i = nodes.index(x)
        j = [e[0] for e in ents].index(x)
        self.setS(st, b, (nodes[:i] + new + nodes[i + 1:], ents[:j] + tuple((z, z) for z in new) + ents[j + 1:], delta + (1 if not rest else -1)))
        st.ghost['exposed', b] = st.ghost.get(('exposed', b), ()) + ((x, new),)
        return st

    def step(self, I, st, fr, n, loc, av):
        if loc is None:
            return None
        v = self.itv(st, loc, ())
        if v is None:
            return None
        outs = []
        for s, w in self.move(st, v, 1 if n['n'] == 'operator++' else -1, n):
            I.store(s, loc, w)
            outs += I.ok(s, v if av else ('ref', loc))
        return outs

    def nextprev(self, I, st, fr, n, loc, av):
        v = I.argval(st, av[0])
        k = I.argval(st, av[1]) if len(av) > 1 else N1
        if v[0] != 'lit' or k[0] != 'n':
            return None
        return [(s, 'v', w) for s, w in self.move(st, v, k[1] if n['n'] == 'next' else -k[1], n)]

    def eq(self, I, st, fr, n, loc, av):
        xs = ([('ref', loc)] if loc is not None else []) + list(av)
        if len(xs) != 2:
            return None
        vs = [I.argval(st, x) for x in xs]
        r = None
        if all(v[0] in ('lit', 'mit') for v in vs):
            if vs[0][:2] != vs[1][:2]:
                self.err('iterators of different containers are compared (line %d)' % n.get('l', 0))
            r = vs[0][2] == vs[1][2]
        elif any(v[0] in ('some', 'none') for v in vs):
            r = (vs[0][0] == 'none' or vs[0] == ('str', 'none')) == (vs[1][0] == 'none') if all(v[0] in ('some', 'none') for v in vs) else \
                any(v[0] == 'none' for v in vs)
        elif all(v[0] in ('str', 'moved') for v in vs):
            vs = [self.term(st, x) for x in xs]
            ks = [self.key(self.hit) if v == KEY and self.hit else v for v in vs]
            r = ks[0] == ks[1]
        if r is None:
            return None
        return I.ok(st, num(int(r == (n['n'] == 'operator=='))))

    # ---------------------------------------------------------------- values
    def get(self, I, st, fr, n, loc, av):
        if len(av) != 1 or av[0][0] != 'ref':
            return None
        t = n.get('t')
        t = t.strip_ref() if t is not None and t.k in ('ref', 'rref') else t
        i = 1 if t is not None and t.k == 'rec' and 'terator' in t.base else 0
        return I.ok(st, ('ref', av[0][1] + (('get', i),)))

    def tup(self, I, st, fr, n, loc, av):
        pt = self.pts(n) + [None] * len(av)
        return I.ok(st, ('tup', tuple(self.give(st, a, t) for a, t in zip(av, pt))))

    def tupctor(self, I, st, fr, n, loc, av):
        pt = self.pts(n) + [None] * len(av)
        if len(av) == 1:
            I.store(st, loc, self.term(st, av[0]))
            return I.ok(st, VOID)
        vs = [self.give(st, a, t) for a, t in zip(av, pt)]
        I.store(st, loc, ('tup', tuple(vs)))
        return I.ok(st, VOID)

    def tupassign(self, I, st, fr, n, loc, av):
        v = self.term(st, av[0])
        if v[0] != 'tup':
            return None
        b = self.base(loc)
        if b is not None and loc[-1] == ('.', 'second'):
            for i in range(2):
                I.store(st, loc + (('get', i),), v[1][i], n)
        else:
            I.store(st, loc, v, n)
        return I.ok(st, ('ref', loc))

    def optctor(self, I, st, fr, n, loc, av):
        v = None
        if av:
            t = (self.pts(n) + [None])[0]
            s = t.strip_ref() if t is not None and t.k in ('ref', 'rref') else t
            if s is not None and s.k == 'rec' and strip_targs(s.base) == 'witness::Val':
                v = ('some', self.give(st, av[0], t))
            else:
                x = I.argval(st, av[0])
                v = x if x[0] in ('some', 'none', 'moved') else ('none',)
                if t is not None and t.k == 'rref' and x[0] == 'some' and av[0][0] == 'ref':
                    I.store(st, av[0][1], ('some', ('moved', x[1])))
        I.store(st, loc, v or ('none',))
        return I.ok(st, VOID)

    def optget(self, I, st, fr, n, loc, av):
        v = I.load(st, loc)
        nm = n['n']
        if v[0] not in ('some', 'none'):
            return None
        if nm in ('is_initialized', 'has_value', 'operator bool', 'operator!'):
            return I.ok(st, num(int((v[0] == 'some') == (nm != 'operator!'))))
        if v[0] == 'none':
            self.err('the value of an empty result is taken (line %d)' % n.get('l', 0))
            return I.ok(st, ('str', 'nothing'))
        r = I.new_temp()
        I.store(st, r, v[1])
        return I.ok(st, ('ref', r))

    def result(self, I, st, fr, n, loc, av):
        if not av:
            I.store(st, loc, ('result', ('app', 'status', '?')))
            return I.ok(st, VOID)
        v = self.term(st, av[0])
        if v[0] == 'some':
            v = v[1]
        I.store(st, loc, v if v[0] == 'result' else ('result', v))
        return I.ok(st, VOID)

    def hash(self, I, st, fr, n, loc, av):
        v = ('app', 'hash', self.term(st, av[-1]))
        I.bounds[v] = (0, (1 << 64) - 1)
        return I.ok(st, v)

    def bucket(self, I, st, fr, n, loc, av):
        i = I.argval(st, av[0])
        nb = st.ghost.get('buckets')
        if not (I.entails(st, cmp_term('<', i, num(nb))) and I.entails(st, cmp_term('>=', i, N0))):
            self.err('bucket %s of %d is used (line %d)' % (show(i), nb, n.get('l', 0)))
        return I.ok(st, ('ref', loc + (('[', i),)))


def body(c):
    P = c.load([], witness=['lru.cpp'])
    pub = [f for f in P.methods_of.get(C + '<witness::Key, witness::Val>', []) if f.body is not None and not f.ctor and not f.dtor and f.d.get('acc', 0) == 0]
    ops = {f.n: f for f in pub}
    for o in ('insert', 'get', 'putIfAbsent', 'evict', 'contains', 'clear'):
        if o not in ops:
            raise Broken('cache operation %s not found' % o)
    ctor = [f for f in P.methods_of[C + '<witness::Key, witness::Val>'] if f.ctor and len(f.params) == 2]
    ctor = one([f for f in ctor if f.body is not None], 'constructors')

    # ------------------------------------------------------------ construction
    starts = {}
    for e in EXPS:
        W = Cache(c, P, (), None, False)
        I = W.I
        cap = ('sym', 'capacity', 0)
        I.typed(cap, ctor.params[0]['t'])

        def emplace(I, st, fr, n, loc, av):
            i = st.ghost.get('buckets', 0)
            v = I.argval(st, av[0])
            st.ghost['buckets'] = i + 1
            st.ghost[('cap', i)] = v
            return I.ok(st, ('ref', loc + (('[', num(i)),)))
        I.hooks['std::vector::emplace_back'] = emplace
        I.hooks['std::vector::reserve'] = lambda I, st, fr, n, loc, av: I.ok(st, VOID)
        outs = [o for o in I.analyse(ctor, av=[cap, num(e)]) if not lin.infeasible(o[0].cons)]
        good = [o for o in outs if o[1] == 'v']
        for s, k, v in good:
            nb = s.ghost.get('buckets', 0)
            caps = [s.ghost[('cap', i)] for i in range(nb)]
            tot = N0
            for x in caps:
                tot = vadd(tot, x)
            c.ob('capacity', 'buckets add up, exponent %d' % e, I.entails(s, cmp_term('<=', tot, cap)), 'the capacities of the %d buckets add up to %s' % (nb, show(tot)), ctor.where())
            c.ob('capacity', 'positive buckets, exponent %d' % e, nb >= 1 and all(I.entails(s, cmp_term('>=', x, N1)) for x in caps), 'a bucket may have no room for any entry (%s)' % ', '.join(sorted({show(x) for x in caps})), ctor.where())
        c.ob('capacity', 'constructible, exponent %d' % e, bool(good), 'no cache can be constructed with exponent %d' % e, ctor.where())
        if good:
            starts[e] = good[0][0]
    lru = one([f for f in P.methods_of[L + '<witness::Key, witness::Val>'] if f.ctor and len(f.params) == 1 and (f.params[0]['t'].k == 'int')], 'constructors of LRU')
    I = c.interp(P)
    capf = None
    for s, k, v in I.analyse(lru, av=[('sym', 'capacity', 0)]):
        fs = [l for l, x in s.mem.items() if x == ('sym', 'capacity', 0) and l[:1] == THIS]
        capf = one(fs, 'capacity fields')[1]

    # ------------------------------------------------------------ operations
    S1, S2 = SEG + ' 1', SEG + ' 2'
    scen = [((), None), (('only',), None), (('only',), 'only'), (('first', S1, 'last'), None), (('first', S1, 'last'), 'first'), (('first', S1, 'last'), 'last'), (('first', S1, 'found', S2, 'last'), 'found')]

    def expected(op, shape, hit, full):
        """(nodes, key -> value, result)"""
        ents = {x: x for x in shape}
        if op in ('insert', 'putIfAbsent', 'get') and hit:
            nodes = (hit,) + tuple(x for x in shape if x != hit)
        elif op in ('insert', 'putIfAbsent') and not hit:
            nodes = ('new',) + (shape[:-1] if full else shape)
        elif op == 'evict' and hit:
            nodes = tuple(x for x in shape if x != hit)
        elif op == 'clear':
            nodes = ()
        else:
            nodes = shape
        return nodes

    def judge(W, s, k, v, op, shape, hit, full, b):
        I = W.I
        p = []
        if k != 'v':
            return ['the operation ends by %s' % k]
        nodes, ents, _ = W.S(s, b)
        d = dict(ents)
        want = expected(op, shape, hit, full)
        for x, new in s.ghost.get(('exposed', b), ()):
            if x in want:
                i = want.index(x)
                want = want[:i] + new + want[i + 1:]
        got = tuple('new' if not seg(x) and s.mem.get(b + (('node', x),)) == KEY else x for x in nodes)
        if got != want:
            p.append('the recency order becomes (%s) instead of (%s)' % (', '.join(got), ', '.join(want)))
        tab = set()
        for x in d:
            if seg(x):
                tab.add(x)
                continue
            kx = s.mem.get(b + (('ent', x), ('.', 'first')))
            it = s.mem.get(b + (('ent', x), ('.', 'second'), ('get', 1)))
            y = it[2] if it is not None and it[0] == 'lit' else None
            if y not in nodes:
                p.append('the entry of %s points at a list node that is gone' % show(kx))
            elif s.mem.get(b + (('node', y),)) != kx:
                p.append('the entry of %s points at the list node of another key' % show(kx))
            tab.add('new' if kx == KEY else kx[1].replace('key of ', '') if kx and kx[0] == 'str' else '?')
            val = s.mem.get(b + (('ent', x), ('.', 'second'), ('get', 0)))
            wv = VAL if kx == KEY or (x == hit and op == 'insert') else W.val(x)
            if val != wv:
                p.append('the entry of %s holds %s instead of %s' % (show(kx), show(val) if val else 'nothing', show(wv)))
        if tab != set(want):
            p.append('the table holds {%s} instead of {%s}' % (', '.join(sorted(tab)), ', '.join(sorted(set(want)))))
        if op in ('get', 'putIfAbsent'):
            r = vfield(I, s, v, ()) if v[0] == 'ref' else v
            r = r[1] if r[0] == 'result' else r
            if r[0] == 'moved':
                r = r[1]
            if hit and r != W.val(hit):
                p.append('the result is %s instead of the value stored' % show(r))
            if not hit and not (r[0] == 'app' and r[1] == 'status' and (op != 'putIfAbsent' or r[2] == 'Inserted') and r[2] != 'OK'):
                p.append('the result is %s although the key was absent' % show(r))
        if op == 'contains':
            for s2, x in truth(I, s, v):
                if x != (hit is not None):
                    p.append('the answer is %s' % x)
        if s.ghost.get('locks'):
            p.append('the lock stays held')
        if len([x for x in s.trace if x.name == 'lock']) > 1:
            p.append('the bucket is unlocked and locked again in the middle of the operation')
        return p

    allb = [e for e in starts]
    for f in pub:
        op = f.n
        if op not in ('insert', 'get', 'putIfAbsent', 'evict', 'contains'):
            continue
        index = {}
        for shape, hit in scen:
            for full in (False, True):
                if not shape and full:
                    continue
                for sign in ((False, True) if shape == () else (False,)):
                    for e in (starts if shape == () else [x for x in starts][2:3]):
                        W = Cache(c, P, shape, hit, full)
                        I = W.I
                        st = starts[e].copy()
                        st.trace = ()
                        hint = ('sym', 'hint', 0)
                        I.typed(hint, f.params[-1]['t'])
                        av = []
                        for p in f.params[:-1]:
                            t = p['t']
                            tn = t.strip_ref().base if t.k == 'ref' else t.base
                            x = KEY if tn == 'witness::Key' else VAL
                            if t.k == 'ref':
                                I.store(st, (('arg', p['n']),), x)
                                av.append(('ref', (('arg', p['n']),)))
                            else:
                                av.append(x)
                        av.append(hint)
                        I.assume(st, cmp_term('>=' if sign else '<', hint, N0))
                        cap = ('sym', 'room', 0)
                        I.bounds[cap] = (1, 1 << 60)
                        size = W.base_size(I, None)
                        I.assume(st, cmp_term('==' if full else '<', size, cap))
                        old = I.load_hook

                        def load(I, st, loc, t, old=old):
                            b = W.base(loc)
                            if b is not None and loc == b + (capf,):
                                return cap
                            return old(I, st, loc, t)
                        I.load_hook = load
                        outs = [o for o in I.analyse(f, av=tuple(av), state=st) if not lin.infeasible(o[0].cons)]
                        used = sorted(W.used, key=repr)
                        probs = list(W.bad)
                        if len(used) != 1:
                            probs.append('%d buckets are used' % len(used))
                        for s, k, v in outs:
                            if used:
                                probs += judge(W, s, k, v, op, shape, hit, full, used[0] + (('lru',),))
                        if used:
                            index[e, sign] = used[0]
                        text = 'bucket (%s), key %s, %s' % (', '.join(shape), hit or 'absent', 'full' if full else 'not full')
                        probs = list(dict.fromkeys(probs))
                        c.ob('operation', '%s: %s, exponent %d, %s' % (op, text, e, 'hint' if sign else 'no hint'), bool(outs) and not probs, '%s on a %s: %s' % (op, text, '; '.join(probs[:3]) or 'no outcome'), f.where())
        f.index = index
    # the same key (and hint) leads every operation to the same bucket
    ref = ops['insert'].index
    for f in pub:
        if hasattr(f, 'index'):
            c.ob('same-bucket', f.n, {k: strip(v) for k, v in f.index.items()} == {k: strip(v) for k, v in ref.items()}, '%s looks for a key in another bucket than insert puts it into' % f.n, f.where())

    # ------------------------------------------------------------ whole-cache operations
    for f in pub:
        if f.params:
            continue
        for e in starts:
            W = Cache(c, P, ('first', SEG, 'last'), None, False)
            I = W.I
            I.exact_arith = False
            st = starts[e].copy()
            st.trace = ()
            nb = st.ghost['buckets']
            outs = [o for o in I.analyse(f, state=st) if not lin.infeasible(o[0].cons)]
            probs = list(W.bad)
            for s, k, v in outs:
                if k != 'v':
                    probs.append('ends by %s' % k)
                if s.ghost.get('locks'):
                    probs.append('a lock stays held')
                if f.n == 'clear':
                    for b in sorted(W.used, key=repr):
                        nodes, ents, _ = W.S(s, b + (('lru',),))
                        if nodes or ents:
                            probs.append('entries are left after clear: list (%s), table (%s)' % (', '.join(nodes), ', '.join(dict(ents))))
            if len(W.used) != nb:
                probs.append('%d of %d buckets are visited' % (len(W.used), nb))
            probs = list(dict.fromkeys(probs))
            c.ob('whole', '%s, exponent %d' % (f.n, e), bool(outs) and not probs, '%s: %s' % (f.n, '; '.join(probs[:3])), f.where())
    c.need('operation', 60)
    c.need('whole', 14)


def strip(loc):
    return loc


main('C13', RULE, body, ['key and value types copy and compare as values', 'the standard containers behave as specified'])
