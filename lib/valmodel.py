"""What class nebula::Value looks like: its tag, its storage, and which member holds which payload."""
from rules import *

V = 'nebula::Value'


class Model:
    def __init__(self, c, P):
        self.P = P
        r = P.recs.get(V)
        if r is None or not r.known:
            raise Broken('class Value not found')
        us = [f for f in r.fields if f['t'].k == 'rec' and P.recs.get(f['t'].rec or f['t'].base) is not None and P.recs[f['t'].rec or f['t'].base].union]
        u = one(us, 'union members of Value')
        self.u = u['id']
        self.members = {f['id']: f['t'] for f in P.recs[u['t'].rec or u['t'].base].fields}
        self.tag = one([f['id'] for f in r.fields if f['id'] != self.u and not f.get('static')], 'tags of Value')
        self.pay = {}           # payload type name -> member
        for m, t in self.members.items():
            self.pay[self.payload(t)] = m
        if len(self.pay) != len(self.members):
            raise Broken('two members hold the same payload type')
        self.paycls = sorted({strip_targs(p) for p in self.pay if '::' in p and p != 'nebula::NullType'})
        if 'std::basic_string' not in self.paycls:
            self.paycls.append('std::basic_string')

    def payload(self, t):
        """name of the type a member holds (through an owning pointer)"""
        t = t.strip_ref() if t.k in ('ref', 'rref') else t
        if t.k == 'rec' and strip_targs(t.base) == 'std::unique_ptr':
            t = t.targs[0]
        return tname(t)

    def owning(self, m):
        t = self.members[m]
        return t.k == 'rec' and not t.trivdtor

    def member_for(self, t):
        """member a parameter or result of type t corresponds to"""
        t = t.strip_ref() if t.k in ('ref', 'rref') else t
        if t.k == 'ptr':
            return self.pay.get('std::basic_string') if t.p is not None and tname(t.p) == 'char' else self.pay.get(tname(t.p))
        n = self.payload(t)
        if n in self.pay:
            return self.pay[n]
        if t.k == 'int':
            return [m for m, x in self.members.items() if x.k == 'int'][0]
        return None


def tname(t):
    t = t.strip_ref() if t.k in ('ref', 'rref') else t
    return strip_targs(t.base) if t.k == 'rec' else t.s.replace('const ', '')


def tags(c, P, M):
    """member -> tag value, read off the typed getters (each answers for exactly one type, which C02 establishes); None: no payload"""
    en = P.enums.get(V + '::Type')
    if en is None:
        raise Broken('enumeration Value::Type not found')
    codes = [int(v['big']) if isinstance(v, dict) else v for _, v in en['consts']]
    out = {}
    for f in P.methods_of.get(V, []):
        if f.body is None or f.params or f.ctor or f.dtor or f.ret.k != 'ref' or f.ret.strip_ref().rec == V or not f.d.get('const') or f.d.get('static'):
            continue
        m = M.pay.get(tname(f.ret.strip_ref()))
        if m is None:
            continue
        ok = []
        for code in codes:
            I = c.interp(P)
            st = State()
            put(I, st, M, THIS, m, num(code), 'x')
            I.load_hook = None
            outs = [o for o in I.analyse(f, this=THIS, state=st) if not lin.infeasible(o[0].cons)]
            if any(k == 'v' and v[0] == 'ref' and v[1][0] in (THIS[0], ('heap', 'x')) for s, k, v in outs):
                ok.append(code)
        if len(ok) == 1:
            if m in out and out[m] != num(ok[0]):
                raise Broken('two tags for one payload')
            out[m] = num(ok[0])
    rest = [x for x in codes if num(x) not in out.values()]
    if len(out) != len(M.members) or len(rest) != 1:
        raise Broken('the getters do not tell the tag of every payload')
    out[None] = num(rest[0])
    return out


def put(I, st, M, loc, m, tag, who, content=None):
    """make the value at loc one whose payload is member m"""
    I.store(st, loc + (('.', M.tag),), tag)
    if m is None:
        return None
    s = loc + (('.', M.u), ('.', m))
    if M.owning(m):
        h = (('heap', who),)
        v = content if content is not None else ('str', who)
        I.store(st, s, ('ptr', h))
        I.store(st, h, v)
        return v
    t = M.members[m]
    v = content
    if v is None:
        v = ('str', who) if t.k == 'rec' else ('sym', who, 0)
        if t.k != 'rec':
            I.typed(v, t)
    I.store(st, s, v)
    return v


def names(P, TAGS):
    en = P.enums[V + '::Type']['consts']
    d = {}
    for n, v in en:
        d[num(int(v['big']) if isinstance(v, dict) else v)] = n.strip('_').lower()
    return {m: d[t] for m, t in TAGS.items()}
