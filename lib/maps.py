"""Model of the standard associative containers for the abstract interpreter.

A container is a partial map from keys to entries.  What a path has learnt
about it is a ghost list of (key, present) facts, newest first; a lookup of a
key that no fact decides forks on equality with the known keys and on
presence.  Iterators are ('it', container, key) or ('it', container, 'end').
Containers whose constant initialiser is known are closed: keys that are not
listed are absent."""
from absint import *
from program import strip_targs
import re

CLS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
ITER = re.compile(r'std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator|__detail::_Node_iterator_base)')
END = ('end',)


def skip(n):
    while n is not None and n.get('k') in ('Full', 'Mat', 'Bind', 'Cast', 'StdInit') and 'c' not in n:
        n = n['e']
    return n


def const_val(n):
    n = skip(n)
    if n is None:
        return None
    if 'c' in n and not isinstance(n['c'], dict):
        return num(int(n['c']))
    if n['k'] == 'Int' and not isinstance(n['v'], dict):
        return num(int(n['v']))
    if n['k'] == 'Str':
        return ('str', n['v'])
    if n['k'] == 'Construct' and len([a for a in n['a'] if a.get('k') != 'DefArg']) >= 1:
        return const_val(n['a'][0])
    return None


def const_elems(n):
    """element nodes of a brace initialiser"""
    n = skip(n)
    while n is not None and n['k'] == 'Construct' and n['a']:
        n = skip(n['a'][0])
    return n['a'] if n is not None and n['k'] == 'InitList' else None


def const_map(n):
    """[(key value, value node, element node)] of a constant map initialiser"""
    es = const_elems(n)
    if es is None:
        return None
    out = []
    for e in es:
        x = skip(e)
        if x is None or x['k'] not in ('Construct', 'InitList') or len(x['a']) < 2:
            return None
        k = const_val(x['a'][0])
        if k is None:
            return None
        out.append((k, x['a'][1], x))
    return out


def keyeq(a, b):
    if a[0] == 'str' and b[0] == 'str':
        return num(int(a == b))
    if a == b:
        return N1
    if a[0] in ('n', 'lin') or b[0] in ('n', 'lin'):
        return cmp_term('==', a, b)
    return ('eqv',) + tuple(sorted((a, b), key=repr))


class Maps:
    def __init__(self, I, consts=None, strkey=True):
        self.I = I
        self.consts = consts or {}     # location -> [(key, value)]
        self.seen = {}
        for c in CLS:
            for m in ('find', 'end', 'cend', 'count', 'contains', 'operator[]', 'at', 'erase', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'clear', 'empty', 'size'):
                I.hooks[c + '::' + m] = getattr(self, 'm_' + m.replace('operator[]', 'index'))
        for c in CLS:
            I.hooks.setdefault('ctor:' + c, self.ctor)
        I.hooks['*::operator->'] = self.arrow
        I.hooks['*::operator*'] = self.star
        I.hooks['*::operator=='] = self.eq
        I.hooks['*::operator!='] = self.ne

    # facts -------------------------------------------------------------
    def facts(self, st, loc):
        g = st.ghost.get(('map', loc))
        if g is None:
            cs = self.consts.get(loc)
            if cs is not None:
                seen = []
                for k, v in cs:
                    if k not in [x for x, _ in seen]:
                        seen.append((k, True))
                        self.I.store(st, loc + (('[', k), ('.', 'second')), v)
                g = (True, tuple(seen))
            else:
                g = (False, ())
            st.ghost[('map', loc)] = g
        return g

    def lookup(self, st, loc, k):
        """[(state, matched key or None)]"""
        closed, fs = self.facts(st, loc)
        out = []
        rest = st
        for k2, p in fs:
            if rest is None:
                break
            nxt = None
            for s, b in self.I.split(rest, keyeq(k, k2)):
                if b:
                    out.append((s, k2 if p else None))
                else:
                    nxt = s
            rest = nxt
        if rest is not None:
            if closed:
                out.append((rest, None))
            else:
                for p in (True, False):
                    s = rest.copy()
                    s.ghost[('map', loc)] = (closed, ((k, p),) + fs)
                    out.append((s, k if p else None))
        return out

    def put(self, st, loc, k, p):
        closed, fs = self.facts(st, loc)
        st.ghost[('map', loc)] = (closed, ((k, p),) + tuple(f for f in fs if f[0] != k))

    def key(self, st, a):
        v = self.I.argval(st, a)
        if v[0] == 'app' and v[1] == 'ctor:std::basic_string' and len(v) >= 3:
            v = v[2]
        return v

    def elem(self, st, loc, k):
        l = loc + (('[', k),)
        if l + (('.', 'first'),) not in st.mem:
            self.I.store(st, l + (('.', 'first'),), k)
        return l

    # operations ----------------------------------------------------------
    def ctor(self, I, st, fr, n, loc, av):
        if not [a for a in av]:
            st.ghost[('map', loc)] = (True, ())
            I.store(st, loc, ('app', 'ctor:map'))
            return I.ok(st, VOID)
        return None

    def m_find(self, I, st, fr, n, loc, av):
        k = self.key(st, av[0])
        I.event(st, fr, n, 'map.find', loc, (k,))
        outs = []
        for s, m in self.lookup(st, loc, k):
            if m is not None:
                self.elem(s, loc, m)
            outs += I.ok(s, ('it', loc, m if m is not None else END))
        return outs

    def m_end(self, I, st, fr, n, loc, av):
        return I.ok(st, ('it', loc, END))
    m_cend = m_end

    def m_count(self, I, st, fr, n, loc, av):
        k = self.key(st, av[0])
        I.event(st, fr, n, 'map.find', loc, (k,))
        return [(s, 'v', num(int(m is not None))) for s, m in self.lookup(st, loc, k)]
    m_contains = m_count

    def m_index(self, I, st, fr, n, loc, av):
        k = self.key(st, av[0])
        I.event(st, fr, n, 'map.index', loc, (k,))
        outs = []
        for s, m in self.lookup(st, loc, k):
            if m is None:
                m = k
                self.put(s, loc, k, True)
                l = self.elem(s, loc, k)
                I.drop(s, l + (('.', 'second'),))
                I.store(s, l + (('.', 'second'),), ('app', 'default'))
                I.event(s, fr, n, 'map.insert', loc, (k,))
            l = self.elem(s, loc, m)
            outs += I.ok(s, ('ref', l + (('.', 'second'),)))
        return outs

    def m_at(self, I, st, fr, n, loc, av):
        k = self.key(st, av[0])
        I.event(st, fr, n, 'map.find', loc, (k,))
        outs = []
        for s, m in self.lookup(st, loc, k):
            if m is None:
                I.event(s, fr, n, 'throw', None, (('str', 'std::out_of_range'),))
                outs.append((s, 'throw', ('exc', 'std::out_of_range')))
            else:
                outs += I.ok(s, ('ref', self.elem(s, loc, m) + (('.', 'second'),)))
        return outs

    def _insert(self, I, st, fr, n, loc, k, vals, over=False):
        outs = []
        for s, m in self.lookup(st, loc, k):
            new = m is None
            l = loc + (('[', k if new else m),)
            if new:
                self.put(s, loc, k, True)
                I.drop(s, l)
                self.elem(s, loc, k)
            if new or over:
                if len(vals) == 1:
                    I.store(s, l + (('.', 'second'),), I.argval(s, vals[0]), n)
                elif vals:
                    I.store(s, l + (('.', 'second'),), ('app', 'make') + tuple(I.argval(s, v) for v in vals), n)
                I.event(s, fr, n, 'map.insert' if new else 'map.assign', loc, (k,) + tuple(I.argval(s, v) for v in vals))
            r = I.new_temp()
            I.store(s, r + (('.', 'first'),), ('it', loc, k if new else m))
            I.store(s, r + (('.', 'second'),), num(int(new)))
            outs += I.ok(s, ('agg', None, (((('.', 'first'),), ('it', loc, k if new else m)), ((('.', 'second'),), num(int(new))))))
        return outs

    def m_emplace(self, I, st, fr, n, loc, av):
        if not av:
            return None
        if strip_targs(n.get('cls', '')).endswith('set'):
            return self._insert(I, st, fr, n, loc, self.key(st, av[0]), ())
        return self._insert(I, st, fr, n, loc, self.key(st, av[0]), av[1:])
    m_try_emplace = m_emplace

    def m_insert_or_assign(self, I, st, fr, n, loc, av):
        return self._insert(I, st, fr, n, loc, self.key(st, av[0]), av[1:], True)

    def m_insert(self, I, st, fr, n, loc, av):
        if len(av) != 1:
            return None
        if strip_targs(n.get('cls', '')).endswith('set'):
            return self._insert(I, st, fr, n, loc, self.key(st, av[0]), ())
        a = av[0]
        if a[0] == 'ref':
            k, v = [I.load(st, a[1] + (('.', f),)) for f in ('first', 'second')]
        else:
            k, v = [I._proj(a, (('.', f),), None) for f in ('first', 'second')]
        return self._insert(I, st, fr, n, loc, k, (v,))

    def m_erase(self, I, st, fr, n, loc, av):
        if len(av) != 1:
            return None
        a = I.argval(st, av[0])
        if a[0] == 'it' and len(a) == 3:
            if a[2] == END:
                I.event(st, fr, n, 'map.erase_end', loc, ())
                return I.ok(st, ('it', loc, END))
            self.put(st, loc, a[2], False)
            I.event(st, fr, n, 'map.erase', loc, (a[2],))
            return I.ok(st, ('it', loc, ('after', a[2])))
        k = self.key(st, av[0])
        outs = []
        for s, m in self.lookup(st, loc, k):
            self.put(s, loc, k, False)
            if m is not None:
                self.put(s, loc, m, False)
                I.event(s, fr, n, 'map.erase', loc, (m,))
            outs += I.ok(s, num(int(m is not None)))
        return outs

    def m_clear(self, I, st, fr, n, loc, av):
        st.ghost[('map', loc)] = (True, ())
        I.drop(st, loc)
        I.event(st, fr, n, 'map.clear', loc, ())
        return I.ok(st, VOID)

    def m_empty(self, I, st, fr, n, loc, av):
        return None
    m_size = m_empty

    # iterators -----------------------------------------------------------
    def itval(self, I, st, loc):
        v = I.load(st, loc) if loc is not None else None
        return v if v is not None and v[0] == 'it' and len(v) == 3 and isinstance(v[1], tuple) else None

    def arrow(self, I, st, fr, n, loc, av):
        v = self.itval(I, st, loc)
        if v is None:
            return None
        if v[2] == END:
            I.event(st, fr, n, 'map.deref_end', v[1], ())
        return I.ok(st, ('ptr', v[1] + (('[', v[2]),)))

    def star(self, I, st, fr, n, loc, av):
        v = self.itval(I, st, loc)
        if v is None:
            return None
        if v[2] == END:
            I.event(st, fr, n, 'map.deref_end', v[1], ())
        return I.ok(st, ('ref', v[1] + (('[', v[2]),)))

    def _cmp(self, I, st, loc, av):
        xs = [I.load(st, loc)] if loc is not None else []
        xs += [I.argval(st, a) for a in av]
        if len(xs) != 2 or any(x[0] != 'it' or len(x) != 3 for x in xs):
            return None
        a, b = xs
        if a[1] != b[1]:
            return None
        if a[2] == END or b[2] == END:
            return num(int(a[2] == b[2]))
        return keyeq(a[2], b[2])

    def eq(self, I, st, fr, n, loc, av):
        r = self._cmp(I, st, loc, av)
        return None if r is None else I.ok(st, r)

    def ne(self, I, st, fr, n, loc, av):
        r = self._cmp(I, st, loc, av)
        return None if r is None else I.ok(st, mk_not(r))
