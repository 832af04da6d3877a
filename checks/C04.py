import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
import order
from order import comp, flat_fields

RULE = ('Every comparison operator is followed on all paths under each case of how its components relate (equal up to one component, that one less or greater), components being points of their own total orders: '
        'it must answer the lexicographic order / componentwise equality in every case. Hash functions are followed with their reads recorded: they may depend only on what equality compares, byte buffers they '
        'hash must be exactly one scalar or the characters of a string, and an edge and its reverse must hash to the same term.')
N = 'nebula::'


def body(c):
    P = c.load(['datatypes/Date.cpp', 'datatypes/HostAddr.cpp', 'datatypes/Edge.cpp', 'datatypes/Vertex.cpp', 'datatypes/Path.cpp', 'datatypes/Value.cpp', 'datatypes/List.cpp'], witness=['datatypes.cpp'])

    def op(cls, name):
        r = [f for f in P.methods_of.get(N + cls, []) if f.n == name and f.body is not None and len(f.params) == 1]
        r += [f for f in P.funcs.values() if f.cls is None and f.n == name and f.body is not None and len(f.params) == 2
              and all(p['t'].k in ('ref', 'rref') and p['t'].strip_ref().rec == N + cls for p in f.params)]
        return r[0] if len(r) == 1 else None

    def sides(f):
        if f.cls:
            return THIS, (('arg', f.params[0]['n']),)
        return (('arg', f.params[0]['n']),), (('arg', f.params[1]['n']),)

    def fieldmap(cls):
        return {f['id']: f for f in flat_fields(P, N + cls)}

    def views(cls, A_B):
        if not any(len(x['path']) > 1 for x in flat_fields(P, N + cls)):
            return {}
        h = order.view_hook(P, N + cls)
        return {'prep': lambda I: setattr(I, 'load_hook', h),
                'words': lambda I, st: [order.word(I, st, P, N + cls, x) for x in A_B]}

    def lexi(cls, spec, less=True):
        """spec: [(field record, kind)]"""
        def rel(f, i, o, sw=False):
            A, B = sides(f)
            x, k = spec[i]
            return (o, lambda I, st: comp(P, I, st, A, x, k), lambda I, st: comp(P, I, st, B, x, k))
        names = [x['id'] + (' count' if k == 'size' else '') for x, k in spec]
        own = {N + cls}
        for name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            f = op(cls, name)
            if f is None:
                if name == 'operator==' or (name == 'operator<' and less):
                    raise Broken('%s has no %s' % (cls, name))
                continue
            o = order.CMP[name]
            if o in ('==', '!='):
                continue
            cs = []
            for i in range(len(spec)):
                for d in '<>':
                    cs.append(('%s%s is %s' % (''.join(n + ' equal, ' for n in names[:i]), names[i], {'<': 'less', '>': 'greater'}[d]),
                               [rel(f, j, '==') for j in range(i)] + [rel(f, i, d)], o[0] == d))
            cs.append(('all are equal', [rel(f, j, '==') for j in range(len(spec))], o in ('<=', '>=')))
            order.cases(c, P, f, 'order', '%s::%s' % (cls, name), cs, own, **views(cls, A_B=sides(f)))

    def equal(cls, fields):
        own = {N + cls}
        for name in ('operator==', 'operator!='):
            f = op(cls, name)
            if f is None:
                if name == 'operator==':
                    raise Broken('%s has no operator==' % cls)
                continue
            A, B = sides(f)
            rel = lambda x, o: (o, lambda I, st: comp(P, I, st, A, x), lambda I, st: comp(P, I, st, B, x))
            cs = []
            for x in fields:
                for d in '<>':
                    # the others equal, so that nothing else can tell them apart
                    cs.append(('only %s differs (%s)' % (x['id'], d), [rel(y, '==') for y in fields if y is not x] + [rel(x, d)], name == 'operator!='))
            cs.append(('all components are equal', [rel(x, '==') for x in fields], name == 'operator=='))
            order.cases(c, P, f, 'equality', '%s::%s' % (cls, name), cs, own, **views(cls, A_B=sides(f)))

    for cls in ('Date', 'Time', 'DateTime', 'HostAddr', 'KeyValue'):
        fs = flat_fields(P, N + cls)
        lexi(cls, [(f, 'auto') for f in fs])
        equal(cls, fs)
    m = fieldmap('Vertex')
    lexi('Vertex', [(m['vid'], 'auto'), (m['tags'], 'size')])
    equal('Vertex', list(m.values()))
    equal('Tag', list(fieldmap('Tag').values()))
    m = fieldmap('Edge')
    lexi('Edge', [(m['src'], 'auto'), (m['dst'], 'auto'), (m['type'], 'auto'), (m['ranking'], 'auto'), (m['props'], 'size')])
    m = fieldmap('Step')
    lexi('Step', [(m['dst'], 'auto'), (m['type'], 'auto'), (m['ranking'], 'auto'), (m['props'], 'size')])
    equal('Step', list(m.values()))
    m = fieldmap('Path')
    lexi('Path', [(m['src'], 'auto'), (m['steps'], 'auto')])
    equal('Path', list(m.values()))
    m = fieldmap('List')
    lexi('List', [(m['values'], 'auto')])
    equal('List', list(m.values()))
    for cls in ('DataSet', 'Map', 'Set'):
        equal(cls, list(fieldmap(cls).values()))

    # an edge equals itself and itself seen from the other end
    m = fieldmap('Edge')
    f = op('Edge', 'operator==')
    A, B = sides(f)
    at = lambda loc, x, neg=False: (lambda I, st: vmul(comp(P, I, st, loc, m[x]), num(-1)) if neg else comp(P, I, st, loc, m[x]))
    fwd = [('==', at(A, x), at(B, x)) for x in ('src', 'dst', 'type', 'ranking', 'props')]
    bwd = [('==', at(A, 'src'), at(B, 'dst')), ('==', at(A, 'dst'), at(B, 'src')), ('==', at(A, 'type'), at(B, 'type', True)), ('!=', at(A, 'type'), lambda I, st: N0)] + [('==', at(A, x), at(B, x)) for x in ('ranking', 'props')]
    cs = [('all components are equal', fwd, True), ('it is the same edge seen from the other end', bwd, True)]
    for i, x in enumerate(('src', 'dst', 'type', 'ranking', 'props')):
        for d in '<>':
            if x == 'type':
                cs.append(('only the type differs (%s)' % d, [r for j, r in enumerate(fwd) if j != i] + [(d, at(A, x), at(B, x)), ('!=', at(A, x), at(B, x, True))], False))
            else:
                cs.append(('only %s differs (%s)' % (x, d), [r for j, r in enumerate(fwd) if j != i] + [(d, at(A, x), at(B, x))], False))
    for i, x in ((0, ('src', 'dst')), (1, ('dst', 'src')), (4, ('ranking', 'ranking')), (5, ('props', 'props'))):
        for d in '<>':
            cs.append(('it is the other end\'s view but for %s (%s)' % (x[0], d), [r for j, r in enumerate(bwd) if j != i] + [(d, at(A, x[0]), at(B, x[1]))], False))
    order.cases(c, P, f, 'equality', 'Edge::operator==', cs, {N + 'Edge'}, prep=lambda I: I.bounds.update({('init', A + (('.', 'type'),)): (-2147483647, 2147483647), ('init', B + (('.', 'type'),)): (-2147483647, 2147483647)}))

    # ------------------------------------------------ comparisons derived for values
    derived = 0
    for f in P.funcs.values():
        if f.cls is None and f.n in ('operator!=', 'operator>', 'operator<=', 'operator>=') and f.body is not None and len(f.params) == 2 \
                and all(p['t'].k == 'ref' and p['t'].strip_ref().rec == N + 'Value' for p in f.params) and f.ret.s == 'bool':
            derived += 1
            a, b = [(('arg', p['n']),) for p in f.params]
            X = lambda I, st: order.rank(I.load(st, a))
            Y = lambda I, st: order.rank(I.load(st, b))
            o = order.CMP[f.n]
            cs = [('the left is %s' % {'<': 'less', '==': 'equal', '>': 'greater'}[d], [(d, X, Y)], (o == '!=' and d != '==') or (d == '==' and o in ('<=', '>=')) or (o[0] == d)) for d in ('<', '==', '>')]
            order.cases(c, P, f, 'derived', 'Value %s' % f.n, cs)
    if derived < 4:
        raise Broken('derived comparisons of values: %d' % derived)
    hashes(c, P, flat_fields)
    c.need('order', 60)
    c.need('equality', 60)
    c.need('hash', 8)


def hashes(c, P, flat_fields):
    comps = {'Date': None, 'Time': None, 'DateTime': None, 'HostAddr': None, 'Vertex': None, 'Tag': None, 'Step': None, 'Path': None, 'List': None, 'Edge': {'src', 'dst', 'type', 'ranking', 'props'}}
    seen = set()
    for f in P.funcs.values():
        if f.n != 'operator()' or not (f.cls or '').startswith('std::hash<nebula::') or f.body is None or len(f.params) != 1 or f.params[0]['t'].k not in ('ref', 'rref'):
            continue
        cls = f.params[0]['t'].strip_ref().rec.split('::')[-1]
        if cls not in comps:
            continue
        seen.add(cls)
        obj = (('arg', f.params[0]['n']),)
        eqfields = comps[cls] or {x['id'] for x in flat_fields(P, N + cls)}
        I = c.interp(P)
        bad = set()
        rec = [x['path'] for x in flat_fields(P, N + cls)]

        def read(I, st, loc, node):
            if loc[:1] == obj and len(loc) > 1:
                for p in rec:
                    if loc[1:1 + len(p)] == p or p[:len(loc) - 1] == loc[1:]:
                        if p[-1][1] not in eqfields:
                            bad.add('it depends on %s, which equality ignores' % p[-1][1])
                        return
                if whole(P, cls, loc[1:]):
                    return
                bad.add('it reads %s' % showloc(loc))
        I.on_read = read

        def buf(I, st, fr, n, loc, av):
            """a byte buffer must be one scalar or the characters of a string"""
            p, sz = av[0], (av[1] if len(av) > 1 else None)
            seed = tuple(av[2:])
            if p[0] == 'ptr':
                l = p[1]
                t = loc_type(P, cls, l, obj) or local_type(fr, l)
                if t is None or t.k not in ('int', 'enum', 'bool') or t.k == 'float':
                    bad.add('it hashes the bytes of %s%s' % (showloc(l), ' (a %s: its bytes are not its value)' % t.s if t is not None else ''))
                elif sz != num(t.w // 8):
                    bad.add('it hashes %s bytes of %s, which has %d' % (show(sz), showloc(l), t.w // 8))
                return I.ok(st, ('app', 'hashbuf', I.load(st, l, t)) + seed)
            return None
        for q in ('folly::hash::fnv64_buf', 'folly::hash::fnv32_buf', 'folly::hash::SpookyHashV2::Hash64', 'nebula::MurmurHash2::operator()'):
            I.hooks[q] = buf
        opaque_parts(I)
        outs = I.analyse(f)
        for st, k, v in outs:
            if k != 'v':
                bad.add('it ends by %s' % k)
                continue
            for x in leaves(v):
                if x[0] == 'init' and x[1][:1] == obj and len(x[1]) > 1:
                    read(I, st, x[1], None)
                if x[0] in ('ptr',) or x == ('thisptr',):
                    bad.add('it depends on an address')
        c.ob('hash', cls, bool(outs) and not bad, 'hash of %s: %s' % (cls, '; '.join(sorted(bad)) or 'no outcome'), f.where())
        if cls == 'Edge':
            edge_hash(c, P, f, obj)
    miss = set(comps) - seen
    if miss:
        raise Broken('no hash found for %s' % sorted(miss))


def opaque_parts(I):
    """texts and hashes of components are functions of their values"""
    I.hooks['*::toString'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'text', I.load(st, loc))) if loc is not None else None

    def sub(I, st, fr, n, loc, av):
        return I.ok(st, ('app', 'hash', I.argval(st, av[0]))) if len(I.stack) >= 1 and len(av) == 1 else None
    I.hooks['std::hash::operator()'] = sub


def local_type(fr, l):
    if l[0][0] != 'v' or len(l) != 1:
        return None
    for d, loc in fr.env.items():
        if loc == l:
            for x in walk(fr.fn.body):
                if x.get('k') == 'Decl':
                    for v in x.get('v', []):
                        if v.get('d') == d:
                            return v['t']
    return None


def leaves(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from leaves(x)


def whole(P, cls, sel):
    """is the member a view of the whole storage the (equality-compared) fields fill completely"""
    r = P.recs.get(N + cls)
    t = None
    fs = {x['id']: x for x in r.fields}
    for i, s in enumerate(sel):
        x = fs.get(s[1])
        if x is None:
            return False
        t = x['t']
        sub = P.recs.get(t.rec or t.base) if t.k == 'rec' else None
        if sub is None:
            break
        if sub.union:
            w = sum(y.get('bits') or y['t'].w or 0 for y in flat_fields(P, t.rec or t.base))
            m = [y for y in sub.fields if (('.', y['id']),) == sel[i + 1:]]
            return len(m) == 1 and m[0]['t'].w == w
        fs = {y['id']: y for y in sub.fields}
    return False


def loc_type(P, cls, l, obj):
    if l[:1] != obj:
        return None
    for x in flat_fields(P, N + cls):
        if l[1:] == x['path']:
            return x['t'] if not x.get('bits') else None
    return None


def edge_hash(c, P, f, obj):
    """an edge and its reverse hash alike"""
    def run(rev, sign):
        I = c.interp(P)
        st = State()
        ty = ('sym', 'type', 0)
        I.bounds[ty] = (1, 2147483647) if sign > 0 else (-2147483647, -1)
        S, D = ('sym', 'src', 0), ('sym', 'dst', 0)
        st.mem[obj + (('.', 'src'),)] = D if rev else S
        st.mem[obj + (('.', 'dst'),)] = S if rev else D
        I.store(st, obj + (('.', 'type'),), vmul(ty, num(-1)) if rev else ty)

        def buf(I, st, fr, n, loc, av):
            if av[0][0] == 'ptr':
                return I.ok(st, ('app', 'hashbuf', I.load(st, av[0][1])) + tuple(av[1:]))
            return None
        for q in ('folly::hash::fnv64_buf', 'folly::hash::fnv32_buf'):
            I.hooks[q] = buf
        opaque_parts(I)
        return [show(v) if k == 'v' else k for st, k, v in I.analyse(f, state=st)]
    for sign in (1, -1):
        a, b = run(False, sign), run(True, sign)
        c.ob('hash', 'edge and reverse (%s type)' % ('positive' if sign > 0 else 'negative'), a == b and len(a) > 0, 'an edge and its reverse are equal but hash to %s and %s' % (a[:1], b[:1]), f.where())


main('C04', RULE, body, ['components compare by their own coherent orders (numeric values of different kinds and of nearly equal magnitude are outside the statement)', 'edge types are greater than the smallest 32-bit integer'])
