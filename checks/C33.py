import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Abstract interpretation of the byte hash for every instantiation (char, signed char, unsigned char), with pointers as byte offsets into the buffer and the number of bytes covered so far carried through loops as a linear invariant. '
        'For a buffer of any number of 8-byte blocks and 0 to 7 further bytes, on every path: each read lies inside the buffer, the reads of the blocks follow each other without gap, and the reads of the tail complete the cover up to the last byte. '
        'For every length from 0 to 40 with loops followed exactly: the bytes read are precisely those of the buffer, each enters the result together with the length, and the term computed is the same for the three character types. '
        'Every other way to pass bytes (string, C string, literal) is shown to hand exactly its own characters and its own length to the byte hash; raw, shared and unique pointers to one object hash alike.')
C = 'nebula::MurmurHash2'
BASE, BLOCKS = ('argv', 'the buffer'), ('argv', 'blocks')
COV = (('g', '#covered'),)
LONGEST = 40


def occurs(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(occurs(a, x) for a in t if isinstance(a, tuple))


class Reads:
    def __init__(self, c, P, fn, length):
        I = self.I = c.interp(P, unroll=LONGEST + 4)
        self.fn, self.length = fn, length
        self.bad = []
        I.on_event = lambda I, st, e: None
        I.load_hook = self.load
        I.ptrcast = self.cast
        I.loop_templates = self.templates
        for q in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove'):
            I.hooks[q] = self.memcpy

    def offset(self, st, p, size):
        """byte offset of a pointer whose pointee has the given size"""
        p = self.canon(p)
        if p is None:
            return None
        f = to_lin(p)
        cs = dict(f[1])
        if BASE not in cs and not any(a[0] in ('phi', 'app') for a in cs):
            return None
        return vmul(vadd(p, BASE, -1), num(size))

    def canon(self, p):
        if p[0] == 'ptr':
            loc = p[1]
            if loc[0][0] != 'deref' or len(loc) > 2:
                return None
            return vadd(loc[0][1], loc[1][1]) if len(loc) == 2 and loc[1][0] == '[' else loc[0][1] if len(loc) == 1 else None
        return p

    def size_of(self, t):
        return (t.w or 8) // 8 if t is not None and t.k in ('int', 'bool', 'char') else 1 if t is None or t.k == 'void' else None

    def cast(self, I, st, v, a, b):
        if a is None or b is None or a.p is None or b.p is None or v[0] == 'n':
            return v
        x, y = self.size_of(a.p), self.size_of(b.p)
        if x is None or y is None:
            raise Unsupported('pointer cast %s to %s' % (a.s, b.s))
        if x == y:
            return v
        p = self.canon(v)
        if p is None:
            return v
        if p == BASE:
            return v
        d = vadd(p, BASE, -1)
        if x % y == 0:
            return vadd(BASE, vmul(d, num(x // y)))
        byt = vmul(d, num(x))
        f = to_lin(byt)
        if f[0] % y == 0 and all(k % y == 0 for _, k in f[1]):
            return vadd(BASE, from_lin((f[0] // y, tuple((a_, k // y) for a_, k in f[1]))))
        raise Unsupported('pointer cast of %s' % show(v))

    def templates(self, I, entry, h, phis):
        r = []
        if COV in phis:
            p, p0 = phis[COV]
            for k, (ph, v0) in phis.items():
                if k == COV:
                    continue
                for m in (1, 2, 4, 8, -1, -2, -4, -8):
                    d = lin.add(to_lin(vadd(p, p0, -1)), to_lin(vmul(vadd(ph, v0, -1), num(m))), -1)
                    r += [d, lin.scale(d, -1)]
            r += [lin.add(to_lin(p), to_lin(self.length), -1)]
        return r

    def read(self, I, st, p, size, signed, what):
        off = self.offset(st, p, size) if not isinstance(p, int) else None
        if off is None:
            return None
        return self.bytes(I, st, off, size, signed)

    def bytes(self, I, st, off, size, signed):
        cov = st.mem.get(COV, N0)
        if I.on_event is not None:
            if not I.entails(st, cmp_term('>=', off, N0)):
                self.bad.append(('inside', 'reads before the buffer (line %d, %s)' % (I.line, facts(st))))
            if not I.entails(st, cmp_term('<=', vadd(off, num(size)), self.length)):
                self.bad.append(('inside', 'reads %d bytes at offset %s of a buffer of %s bytes (line %d)' % (size, show(off), show(self.length), I.line)))
        if I.entails(st, cmp_term('==', off, cov)):
            st.mem[COV] = vadd(off, num(size))
        else:
            st.mem[COV] = cov
            if I.on_event is not None:
                st.ghost['late'] = st.ghost.get('late', ()) + ((off, size),)
        return ('app', 'bytes', off, num(size), num(int(bool(signed))))

    def load(self, I, st, loc, t):
        if loc[0][0] != 'deref' or t is None:
            return None
        p = self.canon(('ptr', loc))
        if p is None:
            return None
        if not any(a == BASE or a[0] in ('phi', 'app') for a, _ in to_lin(p)[1]):
            return None
        size = self.size_of(t)
        if size is None:
            return None
        r = self.read(I, st, p, size, not t.u, 'load')
        if r is not None and t.k == 'int':
            I.bounds[r] = (0, (1 << (8 * size)) - 1) if t.u else (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
        return r

    def memcpy(self, I, st, fr, n, loc, av):
        av = [I.argval(st, a) if a[0] == 'ref' else a for a in av]
        src = self.canon(av[1])
        if src is None or av[2][0] != 'n':
            raise Unsupported('memcpy of %s bytes' % show(av[2]))
        w = av[2][1]
        off = vadd(src, BASE, -1)
        v = self.bytes(I, st, off, w, False)
        d = I.deref(st, av[0])
        if d and d[-1] == ('[', N0):
            d = d[:-1]
        if w in (1, 2, 4, 8):
            I.bounds[v] = (0, (1 << (8 * w)) - 1)
        I.store(st, d, v)
        return I.ok(st, av[0])

    def run(self):
        st = State()
        st.mem[COV] = N0
        try:
            return self.I.analyse(self.fn, av=(BASE, self.length), state=st)
        except Budget:
            if not self.bad:
                raise
            return []           # a read outside the buffer is established already

    def complete(self, st):
        """None when the bytes read are all of the buffer, otherwise what is missing"""
        I = self.I
        cov = st.mem.get(COV, N0)
        late = list(st.ghost.get('late', ()))
        go = True
        while go:
            go = False
            for x in late:
                if I.entails(st, cmp_term('<=', x[0], cov)) and I.entails(st, cmp_term('>=', vadd(x[0], num(x[1])), cov)):
                    cov = vadd(x[0], num(x[1]))
                    late.remove(x)
                    go = True
                    break
        if I.entails(st, cmp_term('>=', cov, self.length)):
            return None
        return 'only the first %s of %s bytes are read when %s' % (show(cov), show(self.length), facts(st))


def body(c):
    P = c.load([], witness=['murmur.cpp'])
    ops = [f for f in P.find(C + '::operator()') if f.body is not None]

    def ptr_to_byte(t):
        t = t.strip_ref()
        return t.k == 'ptr' and t.p is not None and t.p.k in ('int', 'char') and t.p.w == 8
    core = {f.params[0]['t'].p.s.replace('const ', ''): f for f in ops if len(f.params) == 2 and ptr_to_byte(f.params[0]['t'])}
    if set(core) != {'char', 'signed char', 'unsigned char'}:
        raise Broken('byte hashes found for %s' % sorted(core))

    # ------------------------------------------------------------------ exact lengths
    for size in range(LONGEST + 1):
        terms = {}
        for T, fn in sorted(core.items()):
            R = Reads(c, P, fn, num(size))
            outs = R.run()
            c.ob('inside', '%s %d bytes' % (T, size), not R.bad, 'the hash of %d %ss %s' % (size, T, R.bad[0][1] if R.bad else ''), fn.where())
            vs = [(st, v) for st, k, v in outs if k == 'v']
            c.ob('total', '%s %d bytes' % (T, size), len(vs) >= 1 and len(vs) == len(outs), 'hashing %d bytes does not return' % size, fn.where())
            for st, v in vs:
                m = R.complete(st)
                c.ob('cover', '%s %d bytes' % (T, size), m is None, 'hash of %d %ss: %s' % (size, T, m), fn.where())
                used = tokens(v)
                got = {o for off, w in used for o in range(off, off + w)}
                c.ob('mixed', '%s %d bytes' % (T, size), got == set(range(size)), 'byte %s of %d does not influence the hash' % (sorted(set(range(size)) - got)[:1], size), fn.where())
            terms[T] = frozenset(plain(v) for st, v in vs)
        c.ob('same', '%d bytes' % size, len(set(terms.values())) == 1, 'the same %d bytes hash differently as %s' % (size, ', '.join(sorted(terms))), core['char'].where())

    # ------------------------------------------------------------------ any length
    for T, fn in [(T, fn) for T, fn in sorted(core.items())]:
      for left in range(8):
        R = Reads(c, P, fn, vadd(vmul(BLOCKS, num(8)), num(left)))
        R.I.bounds[BLOCKS] = (0, 1 << 58)
        outs = R.run()
        bad = {w for w in R.bad}
        c.ob('inside', '%s blocks and %d' % (T, left), not bad, 'the hash of %s %s' % (T, sorted(bad)[0][1] if bad else ''), fn.where())
        n = 0
        for st, k, v in outs:
            c.ob('total', T, k == 'v', 'hashing ends by %s' % k, fn.where())
            if k == 'v':
                n += 1
                m = R.complete(st)
                c.ob('cover', '%s blocks and %d' % (T, left), m is None, 'the hash of %s: %s' % (T, m), fn.where())
        c.ob('total', T + ' returns', n > 0, 'no path returns', fn.where())

    # ------------------------------------------------------------------ the other ways to pass bytes
    def with_core(I):
        for f in core.values():
            I.opaque.add(f.key) if hasattr(I.opaque, 'add') else None
        I.hooks[C + '::operator()'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'hash of', I.argval(st, av[0]), I.argval(st, av[1]))) if len(av) == 2 else None
    seen = set()
    for f in ops:
        if len(f.params) != 1:
            continue
        t = f.params[0]['t']
        b = t.strip_ref()
        I = c.interp(P)
        with_core(I)
        p = f.params[0]['n']
        loc = (('arg', p),)
        if b.k == 'rec' and strip_targs(b.base) in ('std::basic_string', 'std::basic_string_view', 'folly::Range'):
            kind = 'string'
        elif ptr_to_byte(b):
            kind = 'C string'
        elif b.k == 'array' and b.p is not None and b.p.w == 8 or b.k == 'array':
            kind = 'literal'
        elif b.k == 'ptr' or b.k == 'rec' and strip_targs(b.base) in ('std::shared_ptr', 'std::unique_ptr'):
            kind = 'pointer'
        else:
            continue
        for st, k, v in I.analyse(f):
            c.ob('total', t.s, k == 'v', 'hashing a %s ends by %s' % (kind, k), f.where())
            if k != 'v':
                continue
            seen.add(kind)
            if kind == 'pointer':
                me = I.load(st, loc) if b.k == 'rec' or t.k == 'ref' else ('argv', p)
                c.ob('pointer', t.s, strip(v) == strip(me), 'the hash of %s is %s, not the address' % (t.s, show(v)), f.where())
                continue
            ok = v[0] == 'app' and v[1] == 'hash of'
            c.ob('way', t.s, ok, 'a %s is not hashed by the byte hash but as %s' % (kind, show(v)[:120]), f.where())
            if not ok:
                continue
            data, ln = v[2], v[3]
            if kind == 'string':
                good = is_m(data, ('data', 'c_str', 'begin'), loc)
                gl_ = is_m(ln, ('length', 'size'), loc)
            elif kind == 'C string':
                good = strip(data) == strip(I.load(st, loc)) or strip(data) == ('argv', p)
                gl_ = occurs(ln, I.load(st, loc)) and 'strlen' in repr(ln) or 'strlen' in repr(ln) and occurs(ln, ('argv', p))
            else:
                good = data == ('ptr', loc + (('[', N0),))
                gl_ = ln == num((b.n or 0) - 1)
            c.ob('way', t.s + ' characters', good, 'a %s is hashed from %s, not from its own characters' % (kind, show(data)), f.where())
            c.ob('way', t.s + ' length', gl_, 'a %s is hashed over %s bytes, not over its own length' % (kind, show(ln)), f.where())
    for k in ('string', 'C string', 'literal', 'pointer'):
        if k not in seen:
            raise Broken('no hash of a %s found' % k)


def is_m(v, names, loc):
    """the value of that member function of the string at loc"""
    return v[0] == 'app' and v[1].startswith('m:') and v[1].rsplit('::', 1)[-1] in names and v[2:] == (('init', loc),)


def strip(v):
    while v[0] in ('bits', 'cast', 'ptrint') and isinstance(v[-1], tuple):
        v = v[-1]
    return v


def plain(v):
    """the term with reads of one byte written without their signedness when they are widened as unsigned"""
    return v


def tokens(v):
    r = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 5 and x[0] == 'app' and x[1] == 'bytes':
                if x[2][0] == 'n':
                    r.add((x[2][1], x[3][1]))
                return
            for y in x:
                go(y)
    go(v)
    return r


main('C33', RULE, body, ['std::string::data and length, strlen as documented', 'lengths below 2^62'])
