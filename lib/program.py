"""In-memory form of the extracted program."""
import json, re


class T:
    """A canonical C++ type."""
    __slots__ = ('s', 'k', 'w', 'u', 'p', 'rec', 'q', 'targs', 'trivdtor', 'trivcopy', 'dtor', 'size', 'const', 'volatile', 'n', '_raw')

    def __repr__(self):
        return 'T<%s>' % self.s

    def strip_ref(self):
        return self.p if self.k in ('ref', 'rref') else self

    @property
    def base(self):
        """spelling without top-level cv"""
        s = self.s
        for c in ('const ', 'volatile '):
            while s.startswith(c):
                s = s[len(c):]
        return s


_strip_cache = {}


def strip_targs(q):
    """qualified name without template arguments and inline namespaces"""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        if q.startswith('operator', i) and d == 0 and (i == 0 or q[i - 1] == ':'):
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->)', q[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                # trailing template args of the operator, if any, are dropped
                continue
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>' and d:
            if q[i - 1] != '-':
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out).replace('__cxx11::', '').replace('std::__1::', 'std::').replace('std::_V2::', 'std::')
    _strip_cache[q] = r
    return r


class Func:
    def __init__(self, d, tt):
        self.d = d
        self.tt = tt
        self.key = d['key']
        self.q = d['q']
        self.n = d['n']
        self.qs = strip_targs(d['q'])
        self.file = d['file']
        self.line = d['line']
        self._prep = False
        self.cls = d.get('cls')
        self.lambda_ = d.get('lambda', False)
        self.static = d.get('static', False)
        self.ctor = d.get('ctor')
        self.dtor = d.get('dtor', False)

    def prep(self):
        if not self._prep:
            self._prep = True
            resolve_types(self.d, self.tt)
        return self

    @property
    def body(self):
        return self.prep().d.get('body')

    @property
    def params(self):
        return self.prep().d['params']

    @property
    def inits(self):
        return self.prep().d.get('inits', [])

    @property
    def ret(self):
        return self.prep().d['ret']

    def where(self):
        return '%s:%d' % (rel(self.file), self.line)

    def __repr__(self):
        return 'Func<%s>' % self.q


def rel(f):
    i = f.find('/src/common/')
    return f[i + 1:] if i >= 0 else f


TYPE_KEYS = ('t', 'ct', 'at', 'ft', 'ret')


def resolve_types(n, tt):
    if isinstance(n, dict):
        for k, v in n.items():
            if k in TYPE_KEYS:
                if isinstance(v, int):
                    n[k] = tt.get(v)
            elif k == 'base' and isinstance(v, int):
                n[k] = tt.get(v)
            elif k == 'pt':
                n[k] = [tt.get(x) if isinstance(x, int) else x for x in v]
            elif k == 'targs':
                n[k] = _targs(v, tt)
            elif isinstance(v, (dict, list)):
                resolve_types(v, tt)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                resolve_types(x, tt)


def _targs(v, tt):
    r = []
    for x in v:
        if isinstance(x, int):
            r.append(tt.get(x))
        elif isinstance(x, list):
            r.append(_targs(x, tt))
        else:
            r.append(x)
    return r


class Rec:
    def __init__(self, d, tt):
        self.d = d
        self.tt = tt
        self.name = d['rec']
        self.q = d['q']
        self.file = d['file']
        self.line = d['line']
        self.union = d.get('union', False)
        self.known = 'fields' in d
        self._f = None
        self._b = None

    @property
    def fields(self):
        if self._f is None:
            self._f = self.d.get('fields', [])
            resolve_types(self._f, self.tt)
        return self._f

    @property
    def bases(self):
        if self._b is None:
            self._b = self.d.get('bases', [])
            resolve_types(self._b, self.tt)
        return [b['t'] for b in self._b]

    @property
    def methods(self):
        return self.d.get('methods', [])

    def field(self, n):
        for f in self.fields:
            if f['id'] == n:
                return f
        return None


class Program:
    def __init__(self):
        self.funcs = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.by_qs = {}
        self.methods_of = {}
        self.overriders = {}

    def load(self, path):
        tt = {}
        pend = []
        with open(path) as fh:
            for line in fh:
                d = json.loads(line)
                k = d['kind']
                if k == 'type':
                    t = T()
                    t.s = d['s']; t.k = d['k']; t.w = d.get('w'); t.u = d.get('u', False)
                    t.p = d.get('p'); t.rec = d.get('rec'); t.q = d.get('q')
                    t.trivdtor = d.get('trivdtor', False); t.trivcopy = d.get('trivcopy', False)
                    t.dtor = d.get('dtor'); t.size = d.get('size'); t.n = d.get('n')
                    t.const = d.get('const', False); t.volatile = d.get('volatile', False)
                    t.targs = d.get('targs')
                    tt[d['id']] = t
                    pend.append(t)
                elif k == 'func':
                    old = self.funcs.get(d['key'])
                    if old is not None and 'body' not in old.d and 'body' in d:
                        # a defaulted member that only some files make the compiler define
                        old.__init__(d, tt)
                    if old is None:
                        f = Func(d, tt)
                        self.funcs[f.key] = f
                        self.by_qs.setdefault(f.qs, []).append(f)
                        if f.cls:
                            self.methods_of.setdefault(f.cls, []).append(f)
                        for o in d.get('over', []):
                            self.overriders.setdefault(o, []).append(f)
                elif k == 'record':
                    o = self.recs.get(d['rec'])
                    if o is None or (not o.known and 'fields' in d):
                        self.recs[d['rec']] = Rec(d, tt)
                elif k == 'enum':
                    self.enums.setdefault(d['rec'], d)
                elif k == 'global':
                    o = self.globals.get(d['q'])
                    if o is None or ('init' in d and 'init' not in o) or (d.get('def') and not o.get('def')):
                        d['tt'] = tt
                        self.globals[d['q']] = d
                elif k == 'tu':
                    self.tus.append(d)
        for t in pend:
            if isinstance(t.p, int):
                t.p = tt.get(t.p)
            if t.targs:
                t.targs = _targs(t.targs, tt)

    def global_init(self, q):
        g = self.globals.get(q)
        if g is None or 'init' not in g:
            return None
        if not g.get('_res'):
            tt = g.pop('tt')
            resolve_types(g, tt)
            g['tt'] = tt
            g['_res'] = True
        return g['init']

    def global_type(self, q):
        g = self.globals.get(q)
        if g is None:
            return None
        t = g['t']
        return t if isinstance(t, T) else g['tt'].get(t)

    def find(self, qs, nparams=None, ctor=None):
        r = [f for f in self.by_qs.get(qs, []) if nparams is None or len(f.d['params']) == nparams]
        if ctor is not None:
            r = [f for f in r if f.ctor == ctor]
        return r

    def subclasses(self, name):
        out = []
        for r in self.recs.values():
            if any(b.rec == name or b.q == name for b in r.bases if b is not None):
                out.append(r)
        return out

    def all_subclasses(self, name):
        seen = {}
        work = [name]
        while work:
            x = work.pop()
            for r in self.subclasses(x):
                if r.name not in seen:
                    seen[r.name] = r
                    work.append(r.name)
        return list(seen.values())


def walk(n):
    """all dict nodes below n, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for k, v in x.items() if isinstance(v, (dict, list)) and k not in ('pt', 'targs')]))
        elif isinstance(x, list):
            st.extend(reversed(x))
