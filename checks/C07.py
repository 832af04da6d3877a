import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from statusmodel import *
from conc import Conc
import itertools

RULE = ('Abstract interpretation of every concrete expression class in every kind its makers give it, for every combination of present and absent optional parts and 0 to 3 members of each list, with texts, values and sub-expressions as symbols: '
        'the items writeTo emits are read back by the decode case of that kind, in the same order and type, all of them, and build an object of the same class and kind with the same parts; clone builds an object of the same class and kind whose parts are copies; '
        'comparison is true when all parts are equal and false when the kind, the shape or any part differs; accept calls the handler of the class; every item is written and read with the same number of bytes and the cursor moves by it; kinds print distinct names.')
E = 'nebula::Expression'
ENC, DEC = E + '::Encoder', E + '::Decoder'
POOL = ('ptr', (('g', 'pool'),))
# kinds that live within one query only
NOT_STORED = ('kInputProperty', 'kVarProperty', 'kVersionedVar', 'kLabelAttribute', 'kTSPrefix', 'kTSWildcard', 'kTSRegexp', 'kTSFuzzy')
# parts that do not take part in comparison: remembered source text, and where a variable lives
UNCOMPARED = {('ListComprehensionExpression', 'std::basic_string'), ('PredicateExpression', 'std::basic_string'), ('ReduceExpression', 'std::basic_string'), ('VariableExpression', 'bool')}


def nodes(f):
    f.prep()
    return [x for b in [f.body] + [i.get('e') for i in f.inits] if b is not None for x in walk(b)]


def short(q):
    return q.split('::')[-1]


def body(c):
    P = c.load(['expression/*.cpp'])
    base = P.recs.get(E)
    if base is None:
        raise Broken('class Expression not found')
    KIND = P.enums.get(E + '::Kind')
    if KIND is None:
        raise Broken('enumeration of kinds not found')
    kname = {v: n for n, v in KIND['consts']}

    def ck(rule, inst, ok, where, text):
        c.ob(rule, inst, ok, text, where)

    def bases(q):
        r = P.recs.get(q)
        return [b.base for b in (r.bases if r is not None else [])]

    def isexpr(q, seen=()):
        return q == E or any(isexpr(b) for b in bases(q) if b not in seen)
    classes = sorted(q for q in P.recs if q != E and P.recs[q].known and isexpr(q))

    def method(q, name, pred=lambda f: True):
        """the definition a call of that method on an object of class q reaches"""
        fs = [f for f in P.methods_of.get(q, []) if f.n == name and (f.body is not None or f.inits) and not f.static and pred(f)]
        if fs:
            return one(fs, '%s::%s' % (q, name))
        for b in bases(q):
            r = method(b, name, pred)
            if r is not None:
                return r
        return None
    concrete = [q for q in classes if all(method(q, m) is not None for m in ('clone', 'writeTo', 'resetFrom', 'accept', 'operator=='))]
    makers = {q: [f for f in P.methods_of.get(q, []) if f.static and f.n.startswith('make') and f.body is not None and f.ret.k == 'ptr' and f.ret.p.base == q] for q in concrete}
    concrete = [q for q in concrete if makers[q]]
    # classes whose objects other classes' makers return
    if len(concrete) < 30:
        raise Broken('%d concrete expression classes found' % len(concrete))

    def allfields(q):
        out = []
        for b in bases(q):
            if P.recs.get(b) is not None:
                out += allfields(b)
        return out + list(P.recs[q].fields)
    KF = one([f['id'] for f in P.recs[E].fields if f['t'].base == E + '::Kind'], 'the kind of an expression')

    def is_expr_ptr(t):
        return t.k == 'ptr' and t.p is not None and t.p.k == 'rec' and isexpr(t.p.base)

    # ---- model
    def mk():
        I = c.interp(P, unroll=12)
        H = I.hooks
        C, SM = Conc(I), StatusModel(I, P)

        def val(st, a):
            v = I.load(st, a[1]) if a[0] == 'ref' else a
            return v[1] if v[0] == 'agg' and v[1] is not None and not v[2] else v

        def bad(st, what):
            if what not in st.ghost.get('bad', ()):
                st.ghost['bad'] = st.ghost.get('bad', ()) + (what,)

        def objclass(loc):
            if loc and len(loc) == 1 and loc[0][0] in ('h', 'obj') and isexpr(loc[0][2]):
                return loc[0][2]
            return None

        def exprof(st, loc):
            """the expression at loc as a pointer value; a missing one is noted"""
            p = I.addr(loc)
            if p == N0 or p[0] == 'n':
                bad(st, 'a part that is absent is used')
            return p

        def virtual(name):
            def h(I, st, fr, n, loc, av):
                q = objclass(loc)
                if q is not None:
                    f = method(q, name, (lambda f: len(f.params) == len(av)))
                    if f is None:
                        raise Broken('%s::%s not found' % (q, name))
                    return I.run_fn(st, fr, f, loc, av, n)
                p = exprof(st, loc)
                if name == 'clone':
                    return I.ok(st, ('ptr', (('clone', p),)))
                if name == 'operator==':
                    r = exprof(st, av[0][1])
                    return I.ok(st, N1 if p == r else ('app', 'same') + tuple(sorted((p, r), key=repr)))
                if name == 'writeTo':
                    put(st, 'expr', p)
                    return I.ok(st, VOID)
                return None
            return h
        for m in ('clone', 'operator==', 'writeTo', 'resetFrom', 'accept'):
            for q in [E] + classes:
                H[q + '::' + m] = virtual(m)

        # the encoder: a list of items
        def put(st, k, v):
            st.ghost['items'] = st.ghost.get('items', ()) + ((k, v),)

        def emit(I, st, fr, n, loc, av):
            t = n['pt'][0].strip_ref()
            k = itemkind(t)
            put(st, k, exprof(st, av[0][1]) if k == 'expr' else val(st, av[0]))
            return I.ok(st, ('ref', loc))
        H[ENC + '::operator<<'] = emit

        def itemkind(t):
            b = t.base
            return {E + '::Kind': 'kind', 'std::basic_string': 'text', 'nebula::Value': 'value', E: 'expr', 'nebula::Value::Type': 'type'}.get(strip_targs(b)) or ('size' if t.k == 'int' else '?' + b)

        def take(k):
            def h(I, st, fr, n, loc, av):
                its = st.ghost.get('items', ())
                if not its:
                    bad(st, 'a %s is read after the last item' % k)
                    return [(st, 'abort', VOID)]
                if its[0][0] != k:
                    bad(st, 'a %s is read where a %s was written' % (k, its[0][0]))
                    return [(st, 'abort', VOID)]
                st.ghost['items'] = its[1:]
                return I.ok(st, its[0][1])
            return h
        for m, k in (('readKind', 'kind'), ('readStr', 'text'), ('readValue', 'value'), ('readSize', 'size'), ('readValueType', 'type'), ('readExpression', 'expr')):
            H[DEC + '::' + m] = take(k)
        H[DEC + '::finished'] = lambda I, st, fr, n, loc, av: I.ok(st, num(int(not st.ghost.get('items', ()))))

        # values and texts
        def vctor(I, st, fr, n, loc, av):
            if not av:
                I.store(st, loc, ('app', 'value', 'empty'))
                return [(st, 'v', None)]
            t = n['a'][0].get('t')
            t = t.strip_ref() if t is not None else None
            v = val(st, av[0])
            I.store(st, loc, v if t is not None and t.k == 'rec' and t.base == 'nebula::Value' else ('app', 'value', v))
            return [(st, 'v', None)]
        H['ctor:nebula::Value'] = vctor
        H['dtor:nebula::Value'] = lambda I, st, fr, loc, t: [(st, 'v', None)]

        def vassign(I, st, fr, n, loc, av):
            vctor(I, st, fr, n, loc, av)
            return I.ok(st, ('ref', loc))
        H['nebula::Value::operator='] = vassign

        def give(I, st, n, v):
            l = (('got', len(st.mem)),)
            I.store(st, l, v)
            return I.ok(st, ('ref', l))

        def inner(I, st, fr, n, loc, av):
            v = val(st, ('ref', loc))
            return give(I, st, n, v[2] if v[:2] == ('app', 'value') else ('app', 'v:' + n['n'], v))
        def getbool(I, st, fr, n, loc, av):
            v = val(st, ('ref', loc))
            v = I.boolify(v[2] if v[:2] == ('app', 'value') else ('app', 'v:getBool', v))
            return [o for s, b in I.split(st, v) for o in give(I, s, n, num(int(b)))]
        H['nebula::Value::getBool'] = getbool

        def isstr(I, st, fr, n, loc, av):
            # demanded of the operand by the constructor of its user
            return I.ok(st, N1 if loc[0][0] in ('e', 'clone') else ('app', 'v:isStr', val(st, ('ref', loc))))
        H['nebula::Value::isStr'] = isstr
        for m in ('getInt', 'getStr', 'moveStr'):
            H['nebula::Value::' + m] = inner

        def eq2(kind, neg=False):
            def h(I, st, fr, n, loc, av):
                xs = ([('ref', loc)] if loc is not None else []) + list(av)
                if len(xs) != 2:
                    return None
                t = [a.get('t') for a in ([n['obj']] if n.get('obj') is not None else []) + list(n['a'])]
                a, b = C.norm(val(st, xs[0])), C.norm(val(st, xs[1]))
                if a == b:
                    return I.ok(st, N0 if neg else N1)
                if not isinstance(a, tuple) or a[0] != 'sym' and b[0] != 'sym':
                    return None
                if a[0] == 'sym' and b == ('str', '') or b[0] == 'sym' and a == ('str', ''):
                    r = ('app', 'no text', a if a[0] == 'sym' else b)
                else:
                    r = ('app', kind) + tuple(sorted((a, b), key=repr))
                return I.ok(st, mk_not(I.boolify(r)) if neg else r)
            return h
        for q in ('std::', 'std::basic_string::'):
            for m, neg in (('operator==', False), ('operator!=', True)):
                old = H.get(q + m)
                new = eq2('same text', neg)
                H[q + m] = lambda I, st, fr, n, loc, av, old=old, new=new: new(I, st, fr, n, loc, av) or (old(I, st, fr, n, loc, av) if old else None)
        for q in ('nebula::Value::', 'nebula::'):
            for m, neg in (('operator==', False), ('operator!=', True)):
                H[q + m] = eq2('same value', neg)

        def sempty(I, st, fr, n, loc, av):
            v = C.norm(val(st, ('ref', loc)))
            if v[0] == 'str':
                return I.ok(st, num(int(v[1] == '')))
            return [(s, 'v', num(int(b))) for s, b in I.split(st, I.boolify(('app', 'no text', v)))]
        H['std::basic_string::empty'] = sempty

        def ssize(I, st, fr, n, loc, av):
            v = C.norm(val(st, ('ref', loc)))
            if v[0] == 'str':
                return I.ok(st, num(len(v[1])))
            return [(s, 'v', N0 if b else ('app', 'length', v)) for s, b in I.split(st, ('app', 'no text', v))]
        H['std::basic_string::size'] = H['std::basic_string::length'] = ssize

        def sctor(I, st, fr, n, loc, av):
            I.store(st, loc, ('str', '') if not av else val(st, av[0]))
            return [(st, 'v', None)] if not av or n['a'][0].get('t') is not None and strip_targs(n['a'][0]['t'].strip_ref().base) == 'std::basic_string' else None
        H['ctor:std::basic_string'] = sctor
        H['nebula::ObjectPool::add'] = lambda I, st, fr, n, loc, av: I.ok(st, val(st, av[0]))
        H['nebula::ObjectPool::makeAndAdd'] = lambda I, st, fr, n, loc, av: None
        for q in ('nebula::FunctionManager::get', 'nebula::AggFunctionManager::get'):
            H[q] = lambda I, st, fr, n, loc, av: [(st, 'v', ('agg', ('app', 'sor', 'v'), (((V,), ('sym', 'function', 0)),))), (st.copy(), 'v', ('agg', ('app', 'sor', 's'), ()))]

        def visit(I, st, fr, n, loc, av):
            t = n['pt'][0]
            st.ghost['visited'] = st.ghost.get('visited', ()) + ((t.p.base if t.p is not None else '?', val(st, av[0])),)
            return I.ok(st, VOID)
        H['nebula::ExprVisitor::visit'] = visit
        return I, C, val

    I, C, val = mk()

    # ---- which kinds each class has
    kinds = {q: set() for q in concrete}
    made = {}           # texts the makers give

    def settable(q, f):
        return any(x.get('k') == 'Mem' and x['n'] == f['n'] for m in P.methods_of.get(q, []) + [m for b in bases(q) for m in P.methods_of.get(b, [])] if not m.static and not m.ctor and not m.d.get('acc') and m.body is not None and m.n.startswith('set') for x in nodes(m))

    def fixed(q, kind, f):
        """the text every expression of that kind has in that part"""
        vs = made.get((q, kind, f['id']), set())
        if len(vs) == 1 and not settable(q, f):
            v = next(iter(vs))
            if 'arg' not in repr(v):
                return v
        return None

    for q in concrete:
        for f in makers[q]:
            if any(p['t'].base == E + '::Kind' for p in f.params):
                continue
            av = []
            for p in f.params:
                t = p['t']
                av.append(POOL if t.k == 'ptr' and t.p.base == 'nebula::ObjectPool' else N0 if t.k == 'ptr' and is_expr_ptr(t) else ('sym', 'a:' + p['n'], 0) if t.k != 'ref' and t.k != 'rref' else ('ref', (('arg', p['n']),)))
            for s, k, v in I.analyse(f, av=av):
                c.paths += 1
                if k == 'v' and v[0] == 'ptr' and len(v[1]) == 1 and v[1][0][0] == 'h':
                    kv = I.load(s, v[1] + (('.', KF),))
                    if kv[0] == 'n' and v[1][0][2] == q:
                        kinds[q].add(kv[1])
                        for fd in allfields(q):
                            if fd['t'].k == 'rec' and strip_targs(fd['t'].base) == 'std::basic_string':
                                made.setdefault((q, kv[1], fd['id']), set()).add(C.norm(val(s, ('ref', v[1] + (('.', fd['id']),)))))
                        continue
                    ck('every maker gives its expression one kind', short(q) + '::' + f.n, False, f.q, '%s gives its expression the kind %s' % (f.q, show(kv)[:60]))
    for q in concrete:
        if not kinds[q]:
            raise Broken('no maker of %s could be evaluated' % q)
    seen = {}
    for q in concrete:
        for k in kinds[q]:
            seen.setdefault(k, []).append(q)
    for k, n in sorted((v, n) for n, v in KIND['consts']):
        ck('every kind belongs to exactly one class', n, len(seen.get(k, [])) == 1, 'src/common/expression/Expression.h', 'the kind %s is made by %s' % (n, ', '.join(short(q) for q in seen.get(k, [])) or 'no class'))

    # ---- the parts of an object
    def cache(q):
        """fields that evaluation fills in"""
        ev = method(q, 'eval', lambda f: not f.static and len(f.params) == 1)
        out = set()

        def scan(f, done):
            if f is None or f.key in done or f.body is None:
                return
            done.add(f.key)
            f.prep()
            for x in walk(f.body):
                if x.get('k') == 'Asg' and x['a'].get('k') == 'Mem':
                    out.add(x['a']['n'])
                if x.get('k') == 'Call':
                    o = x.get('obj')
                    if o is not None and o.get('k') == 'Mem' and not x.get('mconst') and o.get('t') is not None and o['t'].strip_ref().base == 'nebula::Value':
                        out.add(o['n'])
                    g = P.funcs.get(x.get('fn'))
                    if g is not None and g.cls is not None and g.cls == f.cls:
                        scan(g, done)
        scan(ev, set())
        return out
    def evalonly(q, f):
        return not any(x.get('k') == 'Mem' and x['n'] == f['n'] for m in P.methods_of.get(q, []) if m.n != 'eval' and (m.body is not None or m.inits) for x in nodes(m)) and not any(i.get('f') == f['id'] and i.get('e') is not None and any(x.get('k') == 'Ref' for x in walk(i['e'])) for m in P.methods_of.get(q, []) if m.ctor for i in m.inits)
    SKIP = ('nebula::ObjectPool', 'nebula::AggData')

    def parts_of(q):
        ca = cache(q)
        out = []
        for f in allfields(q):
            t = f['t']
            if f['id'] == KF or t.k == 'ptr' and t.p is not None and t.p.base in SKIP:
                continue
            if t.k == 'rec' and strip_targs(t.base) == 'std::function':
                continue
            if t.k == 'rec' and t.base == 'nebula::Value' and (f['n'] in ca or evalonly(q, f)):
                continue
            out.append(f)
        return out

    def tests(q, fid, names):
        """how many of the operations test that part against null"""
        n = 0
        for m in names:
            done = set()

            def scan(f):
                if f is None or f.key in done or f.body is None:
                    return False
                done.add(f.key)
                f.prep()
                twice = {id(x['e']['e']) for x in walk(f.body) if x.get('k') == 'Un' and x['op'] == '!' and x['e'].get('k') == 'Un' and x['e']['op'] == '!'}
                for x in walk(f.body):
                    if x.get('k') == 'Bin' and x.get('op') in ('==', '!=') and any(is_null(y) for y in (x['a'], x['b'])) and any(is_mem(y, fid) for y in (x['a'], x['b'])):
                        return True
                    if x.get('k') == 'Cast' and x.get('ck') == 'PointerToBoolean' and id(x) not in twice and is_mem(x['e'], fid):
                        return True
                    if x.get('k') == 'Call':
                        g = P.funcs.get(x.get('fn'))
                        if any(is_mem(a, fid) for a in x['a']) and g is not None and g.cls is None and tests_param(g):
                            return True
                        if g is not None and g.cls == f.cls and scan(g):
                            return True
                return False
            n += scan(method(q, m, (lambda f: len(f.params) == (0 if m == 'clone' else 1))))
        return n

    def tests_param(g):
        return g.body is not None and any(x.get('k') == 'Bin' and x.get('op') in ('==', '!=') and any(is_null(y) for y in (x['a'], x['b'])) or x.get('k') == 'Cast' and x.get('ck') == 'PointerToBoolean' for x in nodes(g))

    def is_null(x):
        while x.get('k') == 'Cast':
            x = x['e']
        return x.get('k') in ('Null', 'NullPtr', 'Nullptr') or x.get('k') in ('Int', 'Lit') and x.get('v') == 0

    def is_mem(x, fid):
        while x.get('k') in ('Cast', 'Paren'):
            x = x['e']
        return x.get('k') == 'Mem' and (x.get('id') == fid or x.get('n') == fid)

    # ---- building symbolic objects
    def shapes(q, fs, opt):
        """all ways of leaving out optional parts and of filling lists"""
        axes = []
        for f in fs:
            t = f['t']
            if t.k == 'ptr' and f['id'] in opt:
                axes.append([(f['id'], 0), (f['id'], 1)])
            elif listof(t):
                axes.append([(f['id'], n) for n in range(3 if c.tier == 'quick' else 4)])
        return [dict(x) for x in itertools.product(*axes)]

    def tolerates(q, fs, f):
        """how many of the operations work on an expression without that part"""
        kind = min(kinds[q])
        n = 0
        for m, k in (('writeTo', 1), ('clone', 0), ('operator==', 1)):
            st = State()
            one_of = {g['id']: 1 for g in fs if listof(g['t'])}
            one_of[f['id']] = 0
            o = place(st, q, kind, fs, one_of, 'x:')
            av = {'writeTo': [('ref', (('g', 'encoder'),))], 'clone': [], 'operator==': [('ref', place(st, q, kind, fs, one_of, 'y:'))]}[m]
            n += all(k2 == 'v' and not s.ghost.get('bad') for s, k2, v in I.analyse(method(q, m, lambda g: len(g.params) == k), this=o, av=av, state=st))
        return n

    def listof(t):
        if t.k == 'ptr' and t.p is not None and t.p.k == 'rec' and not isexpr(t.p.base) and t.p.base not in SKIP:
            return any(listof(f['t']) for f in (P.recs[t.p.base].fields if t.p.base in P.recs else []))
        return t.k == 'rec' and strip_targs(t.base) == 'std::vector'

    def fill(st, loc, t, tag, n):
        """a symbolic content of type t at loc; n members where it is a list, 0 for an absent part"""
        if is_expr_ptr(t):
            I.store(st, loc, N0 if n == 0 else ('ptr', (('e', tag),)))
        elif t.k == 'ptr' and t.p is not None and t.p.k == 'rec' and P.recs.get(t.p.base) is not None and P.recs[t.p.base].known:
            o = (('o', tag),)
            for f in P.recs[t.p.base].fields:
                fill(st, o + (('.', f['id']),), f['t'], tag + '.' + f['n'], n)
            I.store(st, loc, ('ptr', o))
        elif t.k == 'rec' and strip_targs(t.base) == 'std::vector':
            C.make(st, loc, 'vec', [N0] * n)
            for i in range(n):
                fill(st, loc + (('[', num(i)),), t.targs[0], '%s[%d]' % (tag, i), None)
        elif t.k == 'rec' and strip_targs(t.base) == 'std::pair':
            for s, u in (('first', t.targs[0]), ('second', t.targs[1])):
                fill(st, loc + (('.', s),), u, tag + '.' + s, None)
        elif t.k == 'rec' and strip_targs(t.base) not in ('std::basic_string', 'nebula::Value'):
            r = P.recs.get(t.base)
            if r is None or not r.known:
                raise Broken('part of type %s' % t.s)
            for f in r.fields:
                fill(st, loc + (('.', f['id']),), f['t'], tag + '.' + f['n'], None)
        else:
            I.store(st, loc, I.typed(('sym', tag, 0), t) if t.k in ('int', 'bool', 'enum') else ('sym', tag, 0))

    def place(st, q, kind, fs, shape, tag):
        o = (('obj', tag, q),)
        I.store(st, o + (('.', KF),), num(kind))
        for f in allfields(q):
            l = o + (('.', f['id']),)
            if f['t'].k == 'ptr' and f['t'].p is not None and f['t'].p.base == 'nebula::ObjectPool':
                I.store(st, l, POOL)
            elif f in fs:
                v = fixed(q, kind, f)
                if v is not None:
                    I.store(st, l, v)
                else:
                    fill(st, l, f['t'], tag + f['n'], shape.get(f['id']))
        return o

    def leaves(st, loc, t, name):
        """(name, sort, value) of all the parts below loc, with the sizes of lists"""
        if is_expr_ptr(t):
            return [(name, 'expr', val(st, ('ref', loc)))]
        if t.k == 'ptr' and t.p is not None and t.p.k == 'rec' and P.recs.get(t.p.base) is not None and P.recs[t.p.base].known:
            p = val(st, ('ref', loc))
            if p[0] != 'ptr':
                return [(name, 'object', p)]
            out = []
            for f in P.recs[t.p.base].fields:
                out += leaves(st, p[1] + (('.', f['id']),), f['t'], name + '.' + f['n'])
            return out
        if t.k == 'rec' and strip_targs(t.base) == 'std::vector':
            g = C.get(st, loc)
            if g is None:
                return [(name, 'list', val(st, ('ref', loc)))]
            out = [(name + ' (number of members)', 'n', num(g[1]))]
            for i in range(g[1]):
                out += leaves(st, loc + (('[', num(i)),), t.targs[0], '%s[%d]' % (name, i))
            return out
        if t.k == 'rec' and strip_targs(t.base) == 'std::pair':
            return [x for s, u in (('first', t.targs[0]), ('second', t.targs[1])) for x in leaves(st, loc + (('.', s),), u, name + '.' + s)]
        if t.k == 'rec' and strip_targs(t.base) not in ('std::basic_string', 'nebula::Value'):
            return [x for f in P.recs[t.base].fields for x in leaves(st, loc + (('.', f['id']),), f['t'], name + '.' + f['n'])]
        return [(name, 'text' if t.k == 'rec' and strip_targs(t.base) == 'std::basic_string' else 'value' if t.k == 'rec' else 'number', C.norm(val(st, ('ref', loc))))]

    def differ(st, want, got, copy=False):
        """names of the parts that are not what they should be"""
        w, g = {n: (s, v) for n, s, v in want}, {n: (s, v) for n, s, v in got}
        out = [n for n in w if n not in g] + [n for n in g if n not in w]
        for n in w:
            if n not in g:
                continue
            s, a = w[n]
            b = g[n][1]
            if copy and s == 'expr' and a != N0:
                a = ('ptr', (('clone', a),))
            if a == b:
                continue
            if s == 'text' and b == ('str', '') and I.entails(st, ('app', 'no text', a)):
                continue
            if s == 'number' and I.entails(st, cmp_term('==', a, b)):
                continue
            out.append(n)
        return out

    def objleaves(st, o, fs):
        return [x for f in fs for x in leaves(st, o + (('.', f['id']),), f['t'], f['n'])]

    def is_source(q, f):
        """a text no constructor takes: the source text kept for display"""
        return not any(i.get('f') in (f['id'], f['n']) and i.get('e') is not None and any(x.get('k') == 'Ref' for x in walk(i['e'])) for m in P.methods_of.get(q, []) if m.ctor for i in m.inits)

    def equalities(la, lb):
        """(part, condition under which it is the same in both), None where it cannot be"""
        da, db = {n: (s, v) for n, s, v in la}, {n: (s, v) for n, s, v in lb}
        out = []
        for n in list(da) + [n for n in db if n not in da]:
            if n not in da or n not in db:
                continue        # the number of members differs
            (s, a), (_, b) = da[n], db[n]
            if s in ('n', 'list', 'object'):
                out.append((n, True if a == b else None))
            elif s == 'expr':
                out.append((n, True if a == b else None if N0 in (a, b) else ('app', 'same') + tuple(sorted((a, b), key=repr))))
            elif s in ('text', 'value'):
                out.append((n, True if a == b else ('app', 'same ' + s) + tuple(sorted((a, b), key=repr))))
            else:
                out.append((n, cmp_term('==', a, b)))
        return out

    def empties(st, e):
        return [True if I.entails(st, ('app', 'no text', x)) else False if I.entails(st, mk_not(I.boolify(('app', 'no text', x)))) else None for x in e[2:]]

    def holds(st, e):
        if e is True or e is None:
            return e is True
        if I.entails(st, I.boolify(e)):
            return True
        return e[:2] == ('app', 'same text') and empties(st, e) == [True, True]

    def possible(st, es):
        st = st.copy()
        for e in es:
            if e is None:
                return False
            if e is True:
                continue
            if e[:2] == ('app', 'same text') and sorted(map(str, empties(st, e))) == ['False', 'True']:
                return False
            r = [s for s, b in I.split(st, I.boolify(e)) if b]
            if not r:
                return False
            st = r[0]
        return True

    decode = one([f for f in P.find(E + '::decode') if f.body is not None and len(f.params) == 2 and f.params[1]['t'].strip_ref().base == DEC], 'Expression::decode(pool, decoder)')
    for q in concrete:
        fs = parts_of(q)
        nm = short(q)
        W, R, CL, EQ, AC = (method(q, m, (lambda f, k=k: len(f.params) == k)) for m, k in (('writeTo', 1), ('resetFrom', 1), ('clone', 0), ('operator==', 1), ('accept', 1)))
        opt = set()
        for f in fs:
            if is_expr_ptr(f['t']) and (tests(q, f['n'], ('eval',)) or tolerates(q, fs, f) >= 2):
                opt.add(f['id'])
        sh = shapes(q, fs, opt)
        if q.endswith('::SubscriptRangeExpression'):
            sh = [s for s in sh if any(s[i] for i in opt)]      # its constructor demands one of the bounds
        stored = not any(kname[k] in NOT_STORED for k in kinds[q])
        for kind in sorted(kinds[q]):
            kn = kname.get(kind, str(kind))
            for shape in sh:
                desc = '%s (%s%s)' % (nm, kn, ''.join(', %s of %s' % ('no' if n == 0 else n, next(f['n'] for f in fs if f['id'] == i)) for i, n in shape.items()))
                # --- round trip
                if stored:
                    st = State()
                    o = place(st, q, kind, fs, shape, 'x:')
                    if nm == 'VariableExpression':      # only inner variables are stored
                        for f in fs:
                            if f['t'].k == 'bool':
                                I.store(st, o + (('.', f['id']),), N1)
                    for s, k, v in I.analyse(W, this=o, av=[('ref', (('g', 'encoder'),))], state=st):
                        c.paths += 1
                        if k == 'abort' and nm == 'UUIDExpression' and any(I.entails(s, ('app', 'no text', x[2])) for x in objleaves(s, o, fs) if x[1] == 'text'):
                            continue        # one without a field is refused
                        b = s.ghost.get('bad', ())
                        ck('writing uses only parts that are there', desc, k == 'v' and not b, W.q, '%s: %s' % (desc, '; '.join(b) or 'an exception'))
                        if k != 'v' or b:
                            continue
                        items = s.ghost.get('items', ())
                        text = ' '.join(x[0] for x in items)
                        ck('the first item written is the kind', desc, bool(items) and items[0] == ('kind', num(kind)), W.q, '%s: the items written are: %s' % (desc, text))
                        if not items or items[0][0] != 'kind':
                            continue
                        for s2, k2, v2 in I.analyse(decode, this=None, av=[POOL, ('ref', (('g', 'decoder'),))], state=s.copy()):
                            c.paths += 1
                            b = s2.ghost.get('bad', ())
                            ok = k2 == 'v' and not b and v2[0] == 'ptr' and len(v2[1]) == 1 and v2[1][0][0] == 'h'
                            ck('what was written can be read', desc, ok, R.q if R else decode.q, '%s: written: %s; %s' % (desc, text, '; '.join(b) or ('reading ends the process' if k2 == 'abort' else 'no expression results')))
                            if not ok:
                                continue
                            o2 = v2[1]
                            left = s2.ghost.get('items', ())
                            ck('every item written is read', desc, not left, R.q, '%s: not read: %s' % (desc, ' '.join(x[0] for x in left)))
                            ck('the object read has the class and kind written', desc, o2[0][2] == q and val(s2, ('ref', o2 + (('.', KF),))) == num(kind), decode.q, '%s is read as %s of kind %s' % (desc, short(o2[0][2]), show(val(s2, ('ref', o2 + (('.', KF),))))))
                            if o2[0][2] == q:
                                d = differ(s2, objleaves(s2, o, fs), objleaves(s2, o2, fs))
                                ck('every part that was written is read back', desc, not d, R.q, '%s: %s differ%s after decoding [%s]' % (desc, ', '.join(d), 's' if len(d) == 1 else '', facts(s2)[:200]))
                # --- copying
                st = State()
                o = place(st, q, kind, fs, shape, 'x:')
                for s, k, v in I.analyse(CL, this=o, state=st):
                    c.paths += 1
                    b = s.ghost.get('bad', ())
                    ok = k == 'v' and not b and v[0] == 'ptr' and len(v[1]) == 1 and v[1][0][0] == 'h' and v[1][0][2] == q
                    ck('copying uses only parts that are there and gives an object of the same class', desc, ok, CL.q, '%s: %s' % (desc, '; '.join(b) or 'the copy is %s' % (show(v)[:60] if k == 'v' else k)))
                    if not ok:
                        continue
                    o2 = v[1]
                    ck('a copy has the kind of the original', desc, val(s, ('ref', o2 + (('.', KF),))) == num(kind), CL.q, '%s: the copy has the kind %s' % (desc, show(val(s, ('ref', o2 + (('.', KF),))))))
                    d = differ(s, objleaves(s, o, fs), objleaves(s, o2, fs), copy=True)
                    ck('a copy has every part of the original, copied', desc, not d, CL.q, '%s: %s in the copy [%s]' % (desc, ', '.join(d), facts(s)[:200]))
                # --- dispatch
                if not nm.startswith('TextSearch'):
                    st = State()
                    o = place(st, q, kind, fs, shape, 'x:')
                    for s, k, v in I.analyse(AC, this=o, av=[('ptr', (('g', 'visitor'),))], state=st):
                        vs = s.ghost.get('visited', ())
                        ck('a visitor is called once, with the handler of the class', desc, k == 'v' and vs == ((q, ('ptr', o)),), AC.q, '%s: visited as %s' % (desc, ', '.join(short(x[0]) for x in vs) or 'nothing'))
            # --- comparing
            for sa, sb in itertools.product(sh, sh):
                st = State()
                a = place(st, q, kind, fs, sa, 'x:')
                b = place(st, q, kind, fs, sb, 'y:')
                skip = {f['n'] for f in fs if (nm, strip_targs(f['t'].base)) in UNCOMPARED and (nm == 'VariableExpression' or is_source(q, f))}
                fc = [f for f in fs if f['n'] not in skip]
                la, lb = objleaves(st, a, fc), objleaves(st, b, fc)
                desc = '%s (%s; %s)' % (nm, kn, ', '.join('%s %d/%d' % (next(f['n'] for f in fs if f['id'] == i), sa[i], sb[i]) for i in sa) or 'all parts')
                eqs = equalities(la, lb)
                for s, k, v in I.analyse(EQ, this=a, av=[('ref', b)], state=st):
                    c.paths += 1
                    bd = s.ghost.get('bad', ())
                    ck('comparing uses only parts that are there', desc, k == 'v' and not bd, EQ.q, '%s: %s' % (desc, '; '.join(bd) or k))
                    if k != 'v' or bd:
                        continue
                    for s2, r in truth(I, s, v):
                        if r:
                            miss = [n for n, e in eqs if not holds(s2, e)]
                            ck('two expressions are equal only if all their parts are', desc, not miss, EQ.q, '%s: equal although %s may differ [%s]' % (desc, ', '.join(miss), facts(s2)[:200]))
                        else:
                            ck('two expressions with the same parts are equal', desc, not possible(s2, [e for _, e in eqs]), EQ.q, '%s: not equal although every part may be the same [%s]' % (desc, facts(s2)[:200]))
            others = [k2 for k2 in sorted(kname) if k2 != kind]
            for k2 in others[:1] + [x for x in sorted(kinds[q]) if x != kind]:
                st = State()
                a = place(st, q, kind, fs, sh[-1], 'x:')
                q2 = seen[k2][0] if seen.get(k2) else q
                b = (('obj', 'z:', q2),)
                fs2 = parts_of(q2)
                place(st, q2, k2, fs2, {i: (1 if n else 1) for i, n in next(iter(shapes(q2, fs2, set())), {}).items()}, 'z:')
                for s, k, v in I.analyse(EQ, this=a, av=[('ref', b)], state=st):
                    ck('expressions of different kinds differ', '%s/%s' % (kn, kname[k2]), k == 'v' and v == N0, EQ.q, '%s compared with one of kind %s: %s' % (nm, kname[k2], show(v) if k == 'v' else k))

    wire(c, P, ck)
    names(c, P, ck, kname)


def wire(c, P, ck):
    """every item takes the same bytes when written and when read"""
    def mk():
        I = c.interp(P)
        H = I.hooks

        def val(st, a):
            v = I.load(st, a[1]) if a[0] == 'ref' else a
            return v[1] if v[0] == 'agg' and v[1] is not None and not v[2] else v

        def put(st, x):
            st.ghost['bytes'] = st.ghost.get('bytes', ()) + (x,)

        def append(I, st, fr, n, loc, av):
            if len(av) != 2:
                return None
            p, k = val(st, av[0]), val(st, av[1])
            put(st, ('object', I.load(st, p[1]), k) if p[0] == 'ptr' else ('text', p, k))
            return I.ok(st, ('ref', loc))
        H['std::basic_string::append'] = append
        H['std::basic_string::push_back'] = lambda I, st, fr, n, loc, av: (put(st, ('object', val(st, av[0]), num(1))), I.ok(st, VOID))[1]
        H['std::basic_string::size'] = H['std::basic_string::length'] = lambda I, st, fr, n, loc, av: I.ok(st, ('sym', 'length', 0))
        H['std::basic_string::empty'] = lambda I, st, fr, n, loc, av: I.ok(st, cmp_term('==', ('sym', 'length', 0), N0))
        H['std::basic_string::data'] = H['std::basic_string::c_str'] = lambda I, st, fr, n, loc, av: I.ok(st, ('sym', 'characters', 0))
        I.bounds[('sym', 'length', 0)] = (0, 2 ** 62)
        I.bounds[('sym', 'cursor', 0)] = (2 ** 20, 2 ** 62)

        def copy(I, st, fr, n, loc, av):
            d, p, k = val(st, av[0]), val(st, av[1]), val(st, av[2])
            if d[0] != 'ptr':
                raise Unsupported('memcpy to %s' % show(d)[:60])
            put(st, (p, k))
            I.store(st, d[1], ('sym', 'read', len(st.ghost['bytes'])))
            I.bounds[('sym', 'read', len(st.ghost['bytes']))] = (0, 2 ** 40)
            return I.ok(st, d)
        H['memcpy'] = H['std::memcpy'] = copy

        def ser(I, st, fr, n, loc, av):
            put(st, ('serialized', av[0]))
            return I.ok(st, VOID)

        def deser(I, st, fr, n, loc, av):
            put(st, (I.load(st, av[0][1]) if av[0][0] == 'ref' else av[0], ('sym', 'used', 0)))
            if av[1][0] == 'ref':
                I.store(st, av[1][1], ('sym', 'deserialized', 0))
            return I.ok(st, ('sym', 'used', 0))
        H['*::serialize'] = ser
        H['*::deserialize'] = deser

        def piece(I, st, fr, n, loc, av):
            I.store(st, loc, ('app', 'from', val(st, av[0])) if len(av) == 2 else val(st, av[0]))
            return [(st, 'v', None)]
        H['ctor:folly::StringPiece'] = H['ctor:folly::Range'] = piece
        for m in ('begin', 'end', 'data'):
            for q in ('folly::StringPiece::', 'folly::Range::'):
                H[q + m] = lambda I, st, fr, n, loc, av: I.ok(st, ('sym', 'limit', 0) if n['n'] == 'end' else ('sym', 'cursor', 0))
        I.bounds[('sym', 'limit', 0)] = (2 ** 20, 2 ** 63 - 1)

        def strctor(I, st, fr, n, loc, av):
            if not av:
                I.store(st, loc, ('str', ''))
            elif len(av) >= 2 and n['a'][0].get('t') is not None and n['a'][0]['t'].k == 'ptr':
                k = val(st, av[1])
                put(st, (val(st, av[0]), k))
                I.store(st, loc, ('app', 'string', val(st, av[0]), k))
            else:
                I.store(st, loc, val(st, av[0]))
            return [(st, 'v', None)]
        H['ctor:std::basic_string'] = strctor
        H['ctor:nebula::Value'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, ('app', 'value') if not av else val(st, av[0])), [(st, 'v', None)])[1]
        H['dtor:nebula::Value'] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        return I
    PTR = one([f['id'] for f in P.recs[DEC].fields if f['t'].k == 'ptr'], 'the cursor of the decoder')
    THISL = (('self',),)
    sizes = {}
    for f in P.methods_of[ENC]:
        if f.n != 'operator<<' or f.body is None:
            continue
        t = f.params[0]['t'].strip_ref()
        if t.base == E:
            continue
        I = mk()
        A = ('ref', (('item',),)) if f.params[0]['t'].k in ('ref', 'rref') else ('sym', 'item', 0)
        kind = {E + '::Kind': 'Kind', 'std::basic_string': 'Str', 'nebula::Value': 'Value', 'nebula::Value::Type': 'ValueType'}.get(strip_targs(t.base)) or ('Size' if t.k == 'int' else None)
        if kind is None:
            raise Broken('an item of type %s is written' % t.s)
        for s, k, v in I.analyse(f, this=THISL, av=[A]):
            c.paths += 1
            b = s.ghost.get('bytes', ())
            if kind == 'Str':
                n8 = ('object', ('sym', 'length', 0), num(8))
                ok = k == 'v' and (b == (n8, ('text', ('sym', 'characters', 0), ('sym', 'length', 0))) or b == (n8,) and I.prove(s, cmp_term('==', ('sym', 'length', 0), N0)))
            elif kind == 'Value':
                ok = k == 'v' and len(b) == 1 and b[0] == ('serialized', A)
            else:
                ok = k == 'v' and len(b) == 1 and b[0][0] == 'object' and b[0][1] == A and t.size is not None and b[0][2] == num(t.size)
            ck('an item is written with all its bytes', kind, ok, f.where(), 'the encoder writes %s for an item of type %s' % (', '.join(' '.join(show(y)[:40] if isinstance(y, tuple) else str(y) for y in x) for x in b) or 'nothing', t.s))
        sizes[kind] = t.size
    CUR = ('sym', 'cursor', 0)
    for f in P.methods_of[DEC]:
        if not f.n.startswith('read') or f.n == 'readExpression' or f.body is None:
            continue
        kind = f.n[4:]
        I = mk()
        for s, k, v in I.analyse(f, this=THISL, setup=lambda I, st, fr: I.store(st, THISL + (('.', PTR),), CUR)):
            if k == 'abort':
                continue
            c.paths += 1
            if v is not None and v[0] == 'ref':
                v = I.load(s, v[1])
            b = s.ghost.get('bytes', ())
            at = I.load(s, THISL + (('.', PTR),))
            if kind == 'Str':
                want = ((CUR, num(8)),)
                L = ('sym', 'read', 1)
                if I.prove(s, cmp_term('==', L, N0)):
                    ok = b == want and (v == ('str', '') or v[0] == 'agg') and I.prove(s, cmp_term('==', at, vadd(CUR, num(8))))
                else:
                    ok = len(b) == 2 and b[0] == want[0] and I.prove(s, cmp_term('==', b[1][0], vadd(CUR, num(8)))) and b[1][1] == L and I.prove(s, cmp_term('==', at, vadd(vadd(CUR, num(8)), L)))
            elif kind == 'Value':
                ok = len(b) == 1 and CUR in atoms(b[0][0]) and I.prove(s, cmp_term('==', at, vadd(CUR, ('sym', 'used', 0)))) and v == ('sym', 'deserialized', 0)
            else:
                ok = len(b) == 1 and b[0] == (CUR, num(sizes.get(kind, -1))) and I.prove(s, cmp_term('==', at, vadd(CUR, num(sizes.get(kind, -1))))) and v == ('sym', 'read', 1)
            ck('an item is read with the bytes it was written with', kind, k == 'v' and ok, f.where(), '%s reads %s, moves the cursor to %s and returns %s' % (f.n, ', '.join(' for '.join(show(y)[:50] for y in x) for x in b) or 'nothing', show(at)[:60], show(v)[:60] if v else v))
    c.need('an item is written with all its bytes', 6)
    c.need('an item is read with the bytes it was written with', 6)


def atoms(v):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x:
                go(y)
    go(v)
    return out


def names(c, P, ck, kname):
    """the names of the kinds are distinct"""
    fs = [f for f in P.find('nebula::operator<<') if f.body is not None and len(f.params) == 2 and f.params[1]['t'].base == E + '::Kind']
    f = one(fs, 'operator<< of kinds')
    texts = {}
    for k in sorted(kname):
        I = c.interp(P)
        I.stream_items = True
        for s, kd, v in I.analyse(f, av=[('ref', (('os',),)), num(k)]):
            out = tuple(e.args for e in s.trace if e.name == 'stream.item')
            texts.setdefault(out, []).append(kname[k])
            ck('a kind prints a name', kname[k], kd == 'v' and bool(out), f.where(), 'the kind %s prints nothing' % kname[k])
    for t, ks in sorted(texts.items(), key=repr):
        ck('no two kinds print the same name', ks[0], len(ks) == 1, f.where(), 'the kinds %s print the same name' % ', '.join(ks))


main('C07', RULE, body)
