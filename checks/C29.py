import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Path-complete abstract interpretation of the schema provider over a field list of unknown length and unknown content. Adding a field is shown to keep the invariant of the two tables '
        '(one new field at the end with the properties given, the name entered for exactly that position unless it is known, offset behind the previous field, the next null flag exactly for nullable fields); '
        'every lookup is then shown, from that invariant, to read only positions below the number of fields and to answer with the field at the position asked for, the position entered for the name asked for, or absence. '
        'The iterator is shown to step from position zero by one (or by the steps given) and to compare equal to the end exactly when it has no field.')
C = 'nebula::meta::NebulaSchemaProvider'
F = C + '::SchemaField'
IF = 'nebula::meta::SchemaProviderIf'
VEC, MAP = 'std::vector', 'std::unordered_map'
SIZE = ('sym', 'number of fields', 0)
ENTRY = ('sym', 'position entered for the name', 0)


def body(c):
    P = c.load(['meta/NebulaSchemaProvider.cpp'], witness=['schema.cpp'])
    r = P.recs.get(C)
    if r is None or not r.known:
        raise Broken('NebulaSchemaProvider not found')
    vec = fld(one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) == VEC and f['t'].targs and getattr(f['t'].targs[0], 'base', '') == F], 'lists of fields'))
    mp = fld(one([f['id'] for f in r.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) in (MAP, 'std::map')], 'name tables'))
    fctor = one([f for f in P.find(F + '::SchemaField') if f.d.get('ctor') and not f.d.get('implicit') and len(f.params) > 1], 'constructors of SchemaField')

    # what each accessor of a field reads
    acc = {}
    for m in ('name', 'type', 'nullable', 'hasDefault', 'defaultValue', 'size', 'offset', 'nullFlagPos'):
        fn = c.fn(P, F + '::' + m, 0)
        I = c.interp(P)
        for s, k, v in I.analyse(fn):
            if k == 'abort' and m == 'nullFlagPos':
                continue
            if k != 'v':
                raise Unsupported('SchemaField::%s ends by %s' % (m, k))
            v = ret(I, s, v)
            if m == 'name' and v[0] == 'app' and v[1] in ('m:std::basic_string::c_str', 'm:std::basic_string::data'):
                v = v[2]
            if v[0] != 'init' or v[1][0] != ('this',) or len(v[1]) != 2:
                c.ob('accessor', m, False, 'SchemaField::%s answers %s instead of a member of the field' % (m, show(v)), fn.where())
                return
            acc.setdefault(m, set()).add(v[1][1][1])
    for m in acc:
        acc[m] = one(sorted(acc[m]), 'members answered by ' + m)
    c.ob('accessor', 'each its own member', len(set(acc.values())) == len(acc), 'two accessors of a field answer with the same member', fctor.where())

    def at(i, m=None):
        l = vec + (('[', i),)
        return l if m is None else l + (('.', acc[m]),)

    def interp():
        I = c.interp(P)
        I.exact_arith = I.exact_casts = True
        I.bounds[SIZE] = (0, (1 << 62))
        I.bounds[ENTRY] = (0, (1 << 62))
        H = I.hooks

        def n_of(st):
            return vadd(SIZE, num(st.ghost.get('added', 0))) if st.ghost.get('added') else SIZE

        def size(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            return I.ok(st, n_of(st) if n['n'] == 'size' else cmp_term('==', n_of(st), N0))

        def elem(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            i = I.argval(st, av[0]) if av else vadd(n_of(st), num(-1)) if n['n'] == 'back' else N0
            ok = I.prove(st, cmp_term('<=', N0, i)) and I.prove(st, cmp_term('<', i, n_of(st)))
            if n['n'] == 'at' and not ok:
                outs = []
                for s, a in I.split(st, cmp_term('<=', N0, i)):
                    for s2, b in (I.split(s, cmp_term('<', i, n_of(s))) if a else [(s, False)]):
                        outs.append((s2, 'v', ('ref', at(i))) if b else (s2, 'throw', ('exc', 'std::out_of_range')))
                return outs
            I.event(st, fr, n, 'element', vec, (i, num(int(ok))))
            return I.ok(st, ('ref', at(i)))

        def add(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            i = n_of(st)
            st.ghost['added'] = st.ghost.get('added', 0) + 1
            if n['n'] == 'push_back' or len(av) == 1:
                I.store(st, at(i), I.argval(st, av[0]))
                return I.ok(st, ('ref', at(i)))
            if len(av) != len(fctor.params):
                raise Unsupported('a field is built from %d arguments' % len(av))
            return [(s, k, ('ref', at(i)) if k == 'v' else v) for s, k, v in I.run_ctor(st, fr, n, fctor, at(i), av)]

        def vother(I, st, fr, n, loc, av):
            if loc != vec:
                return None
            if n['n'] in ('reserve', 'shrink_to_fit'):
                return I.ok(st, VOID)
            if n['n'] == 'capacity':
                v = ('sym', 'room for fields', 0)
                I.bounds[v] = (0, 1 << 62)
                return I.ok(st, v) if I.assume(st, cmp_term('<=', n_of(st), v)) else []
            if n['n'] in ('data', 'begin', 'cbegin'):
                return I.ok(st, ('ptr', at(N0)))
            if n['n'] in ('end', 'cend'):
                return I.ok(st, ('ptr', at(n_of(st))))
            raise Unsupported('operation %s on the field list' % n['n'])
        for m in ('size', 'empty'):
            H[VEC + '::' + m] = size
        for m in ('operator[]', 'at', 'back', 'front'):
            H[VEC + '::' + m] = elem
        for m in ('emplace_back', 'push_back'):
            H[VEC + '::' + m] = add
        for m in ('reserve', 'shrink_to_fit', 'capacity', 'data', 'begin', 'end', 'cbegin', 'cend', 'insert', 'erase', 'clear', 'resize', 'assign', 'swap', 'operator=', 'pop_back'):
            H[VEC + '::' + m] = vother

        def deref(I, st, fr, n, loc, node=None):
            pass

        # the name table: the entry of the name asked for, if there is one
        def text(st, v):
            v = I.argval(st, v)
            if v[0] == 'agg' and not v[2]:
                v = v[1]
            return v

        def lookup(st, k):
            """[(state, entry location or None)]"""
            fs = st.ghost.get('names', ())
            for k2, p in fs:
                if k2 == k:
                    return [(st, mp + (('[', k),) if p else None)]
            if fs:
                raise Unsupported('lookups of two names')
            out = []
            for p in (True, False):
                s = st.copy()
                s.ghost['names'] = ((k, p),)
                if p:
                    e = mp + (('[', k),)
                    I.store(s, e + (('.', 'first'),), k)
                    I.store(s, e + (('.', 'second'),), ENTRY)
                    if not I.assume(s, cmp_term('<', ENTRY, SIZE)):
                        continue
                    s.mem[at(ENTRY, 'name')] = k
                out.append((s, mp + (('[', k),) if p else None))
            return out

        def find(I, st, fr, n, loc, av):
            if loc != mp:
                return None
            k = text(st, av[0])
            if n['n'] in ('count', 'contains'):
                return [(s, 'v', num(int(e is not None))) for s, e in lookup(st, k)]
            return [(s, 'v', ('nit', e)) for s, e in lookup(st, k)]

        def mend(I, st, fr, n, loc, av):
            return I.ok(st, ('nit', None)) if loc == mp else None

        def itv(st, a):
            v = I.argval(st, a)
            return v if v[0] == 'nit' else None

        def arrow(I, st, fr, n, loc, av):
            v = I.load(st, loc) if loc is not None else itv(st, av[0])
            if v is None or v[0] != 'nit':
                return None
            if v[1] is None:
                I.event(st, fr, n, 'end used', mp)
                v = ('nit', mp + (('end',),))
            return I.ok(st, ('ptr' if n['n'] == 'operator->' else 'ref', v[1]))

        def eq(I, st, fr, n, loc, av):
            xs = ([I.load(st, loc)] if loc is not None else []) + [I.argval(st, a) for a in av]
            if len(xs) != 2 or any(x[0] != 'nit' for x in xs):
                return None
            b = xs[0] == xs[1]
            return I.ok(st, num(int(b == (n['n'] == 'operator=='))))
        for x in ('->', '*'):
            H['*::operator' + x] = arrow
        H['*::operator=='] = H['*::operator!='] = eq

        def enter(I, st, fr, n, loc, av):
            if loc != mp:
                return None
            if n['n'] == 'insert' and len(av) == 1:
                v = av[0]
                kv = [I.load(st, v[1] + (('.', f),)) if v[0] == 'ref' else I._proj(v, (('.', f),), None) for f in ('first', 'second')]
            else:
                kv = list(av)
            outs = []
            for s, e in lookup(st, text(st, kv[0])):
                if e is None or n['n'] == 'insert_or_assign':
                    s.ghost['entered'] = s.ghost.get('entered', ()) + ((text(s, kv[0]), I.argval(s, kv[1]), e is not None),)
                    k = text(s, kv[0])
                    s.ghost['names'] = ((k, True),)
                    I.store(s, mp + (('[', k), ('.', 'second')), I.argval(s, kv[1]))
                outs += I.ok(s, ('agg', None, (((('.', 'first'),), ('nit', mp + (('[', text(s, kv[0])),))), ((('.', 'second'),), num(int(e is None))))))
            return outs
        def sub(I, st, fr, n, loc, av):
            if loc != mp:
                return None
            k = text(st, av[0])
            outs = []
            for s, e in lookup(st, k):
                s.ghost['names'] = ((k, True),)
                if e is None:
                    I.store(s, mp + (('[', k), ('.', 'second')), N0)
                s.ghost['sub'] = s.ghost.get('sub', ()) + ((k, e is not None),)
                outs += I.ok(s, ('ref', mp + (('[', k), ('.', 'second'))))
            return outs

        def mother(I, st, fr, n, loc, av):
            if loc != mp:
                return None
            if n['n'] == 'at':
                return [(s, 'v', ('ref', e + (('.', 'second'),))) if e is not None else (s, 'throw', ('exc', 'std::out_of_range')) for s, e in lookup(st, text(st, av[0]))]
            if n['n'] in ('reserve', 'size', 'empty'):
                return None
            raise Unsupported('operation %s on the name table' % n['n'])
        for cls in (MAP, 'std::map'):
            for m in ('find', 'count', 'contains'):
                H[cls + '::' + m] = find
            for m in ('end', 'cend'):
                H[cls + '::' + m] = mend
            for m in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                H[cls + '::' + m] = enter
            H[cls + '::operator[]'] = sub
            for m in ('at', 'erase', 'clear', 'begin', 'swap', 'operator=', 'reserve', 'size', 'empty', 'extract', 'merge'):
                H[cls + '::' + m] = mother
        for m in ('toString', 'str'):
            H['folly::StringPiece::' + m] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'text', I.load(st, loc)))

        def sctor(I, st, fr, n, loc, av):
            if len(av) == 1:
                v = I.argval(st, av[0])
                if v[0] == 'app' and v[1] == 'text':
                    I.store(st, loc, v)
                    return I.ok(st, VOID)
            return None
        H['ctor:std::basic_string'] = sctor

        def virt(m):
            def h(I, st, fr, n, loc, av):
                if loc is None or loc[:len(vec)] != vec:
                    return None
                fn = c.fn(P, F + '::' + m, 0)
                return I.run_fn(st, fr, fn, loc, (), n)
            return h
        for m in acc:
            H[IF + '::Field::' + m] = virt(m)

        def pair(I, st, fr, n, loc, av):
            if len(av) == 2:
                for f, a in zip(('first', 'second'), av):
                    I.store(st, loc + (('.', f),), I.argval(st, a))
                return I.ok(st, VOID)
            if len(av) == 1:
                v = I.argval(st, av[0])
                for f in ('first', 'second'):
                    I.store(st, loc + (('.', f),), I._proj(v, (('.', f),), None) if av[0][0] != 'ref' else I.load(st, av[0][1] + (('.', f),)))
                return I.ok(st, VOID)
            return None
        H['ctor:std::pair'] = pair
        H['std::make_pair'] = lambda I, st, fr, n, loc, av: I.ok(st, ('agg', None, tuple(((('.', f),), I.argval(st, a)) for f, a in zip(('first', 'second'), av))))
        return I

    def safe(nm, fn, s):
        for e in s.trace:
            if e.name == 'element':
                c.ob('bounds', nm, e.args[1] == N1, '%s reads position %s of the field list, which need not exist when %s' % (nm, show(e.args[0]), facts(s)), where(e))
            if e.name == 'end used':
                c.ob('bounds', nm + ' entry', False, '%s uses the entry of a name that is not in the table' % nm, where(e))

    def pure(nm, fn, s):
        bad = sorted({showloc(k) for k in s.mem if k[0] == ('this',) and k[:2] not in (vec, mp) and s.mem[k] != ('init', k)})
        c.ob('pure', nm, not s.ghost.get('added') and not s.ghost.get('entered') and not s.ghost.get('sub') and not bad, '%s changes the schema' % nm, fn.where())

    # ---------------------------------------------------------------- lookups
    unk = None
    for q, e in P.enums.items():
        if q.endswith('cpp2::PropertyType'):
            unk = {x[0] if isinstance(x, (list, tuple)) else x: (x[1] if isinstance(x, (list, tuple)) else e['consts'][x]) for x in e['consts']}.get('UNKNOWN')
    if unk is None:
        raise Broken('PropertyType::UNKNOWN not found')
    unk = num(int(unk))

    def cstr(v):
        return v[2] if v[0] == 'app' and v[1] in ('m:std::basic_string::c_str', 'm:std::basic_string::data', 'm:folly::StringPiece::data') else None

    def answers(I, s, v, idx, what):
        """does v name the field at idx (what: field, name, type, index)?"""
        if what == 'field':
            return v == ('ptr', at(idx))
        if what == 'index':
            return v == idx or I.prove(s, cmp_term('==', v, idx))
        m = at(idx, what)
        w = I.load(s, m)
        if what == 'name':
            return cstr(v) in (('init', m), w)
        return v in (('init', m), w)
    ABS = {'field': N0, 'name': N0, 'type': unk, 'index': num(-1)}

    def isabs(I, s, v, what):
        v2 = v[2] if v[0] == 'cast' and len(v) > 2 else v
        return v2 == ABS[what] or (what in ('field', 'name') and v2 in (('null',),)) or (what == 'index' and I.prove(s, cmp_term('<', v2, N0)))

    for nm, what in (('getFieldName', 'name'), ('getFieldType', 'type'), ('field', 'field'), ('getFieldIndex', 'index')):
        for fn in c.fns(P, C + '::' + nm, pick=lambda f: len(f.params) == 1):
            byname = not is_int(fn.params[0]['t'])
            I = interp()
            full = '%s(%s)' % (nm, 'name' if byname else 'position')
            key = (('key',),)
            av = (('ref', key),) if byname else (('sym', 'position', 0),)
            I.bounds[('sym', 'position', 0)] = (-(1 << 63), (1 << 63) - 1)
            starts = [State()]
            if not byname:
                starts = [s_ for s_, _ in I.split(State(), cmp_term('<=', N0, av[0]))]
            for s, k, v in [x for st0 in starts for x in I.analyse(fn, av=av, state=st0)]:
                c.ob('total', full, k == 'v', '%s ends by %s when %s' % (full, k, facts(s)), fn.where())
                safe(full, fn, s)
                if k != 'v':
                    continue
                pure(full, fn, s)
                v = ret(I, s, v)
                if byname:
                    nms = s.ghost.get('names', ())
                    kk = I.load(s, key)
                    if not nms:
                        # a path that never looked the name up can only be right when there is no field
                        c.ob('answer', full, I.prove(s, cmp_term('==', SIZE, N0)) and isabs(I, s, v, what), '%s answers without looking the name up' % full, fn.where())
                        continue
                    if nms[0][0] != kk:
                        c.ob('answer', full, False, '%s looks up %s instead of the name asked for' % (full, show(nms[0][0])[:60]), fn.where())
                        continue
                    if nms[0][1]:
                        good = answers(I, s, v, ENTRY, what)
                        c.ob('answer', full, good, '%s answers %s for a name entered for a position' % (full, show(v)[:80]), fn.where())
                    else:
                        c.ob('answer', full, isabs(I, s, v, what), '%s answers %s for an unknown name' % (full, show(v)[:80]), fn.where())
                else:
                    p = av[0]
                    for s2, lo in I.split(s, cmp_term('<=', N0, p)):
                        for s3, ins in (I.split(s2, cmp_term('<', p, SIZE)) if lo else [(s2, False)]):
                            if ins:
                                c.ob('answer', full, answers(I, s3, v, p, what), '%s answers %s for an existing position' % (full, show(v)[:80]), fn.where())
                            else:
                                c.ob('answer', full, isabs(I, s3, v, what), '%s answers %s for a position that does not exist' % (full, show(v)[:80]), fn.where())
    # ---------------------------------------------------------------- totals
    cnt = c.fn(P, C + '::getNumNullableFields', 0)
    I = interp()
    nul = set()
    for s, k, v in I.analyse(cnt):
        v = ret(I, s, v)
        if k != 'v' or v[0] != 'init' or len(v[1]) != 2:
            raise Unsupported('getNumNullableFields answers %s' % (show(v) if v else k))
        nul.add(v[1])
    nul = one(sorted(nul), 'counters of nullable fields')
    fn = c.fn(P, C + '::getNumFields', 0)
    I = interp()
    for s, k, v in I.analyse(fn):
        c.ob('totals', 'getNumFields', k == 'v' and I.prove(s, cmp_term('==', ret(I, s, v), SIZE)), 'getNumFields answers %s' % (show(v) if v else k), fn.where())
    fn = c.fn(P, C + '::size', 0)
    I = interp()

    def mult(I):
        """sizes and offsets are not negative and small enough to add"""
        for i in (vadd(SIZE, num(-1)), SIZE, ENTRY):
            for m in ('size', 'offset'):
                I.bounds[('init', at(i, m))] = (0, 1 << 62)
    mult(I)
    last = vadd(SIZE, num(-1))
    for s, k, v in I.analyse(fn):
        safe('size', fn, s)
        if k == 'v':
            pure('size', fn, s)
        for s2, none in I.split(s, cmp_term('==', SIZE, N0)):
            want = N0 if none else vadd(('init', at(last, 'offset')), ('init', at(last, 'size')))
            c.ob('totals', 'size, %s' % ('no fields' if none else 'fields'), k == 'v' and I.prove(s2, cmp_term('==', ret(I, s2, v), want)), 'size answers %s' % (show(v) if v else k), fn.where())
    for ctor in [f for f in P.find(C + '::NebulaSchemaProvider') if f.d.get('ctor') and not f.d.get('implicit') and f.d.get('acc') in (None, 0)]:
        I = interp()
        for s, k, v in I.analyse(ctor):
            ok = I.load(s, nul)
            c.ob('totals', 'start, %d parameters' % len(ctor.params), k == 'v' and ok == N0, 'the counter of nullable fields starts as %s' % show(ok), ctor.where())

    # ---------------------------------------------------------------- adding a field
    add = c.fn(P, C + '::addField')
    fsize = c.fn(P, C + '::fieldSize')
    prm = {}
    for i, p in enumerate(add.params):
        t = p['t'].strip_ref()
        role = 'name' if t.k == 'rec' and 'String' in t.base or t.k == 'rec' and 'basic_string' in t.base else 'default' if t.k == 'ptr' else 'type' if t.k in ('enum',) or 'PropertyType' in getattr(t, 's', '') else 'nullable' if t.k == 'bool' or (t.k == 'int' and t.w and t.w <= 8) else 'length'
        if role in prm:
            raise Unsupported('addField has two parameters for %s' % role)
        prm[role] = i
    if set(prm) != {'name', 'default', 'type', 'nullable', 'length'}:
        raise Broken('addField parameters: %s' % sorted(prm))

    I = interp()
    mult(I)
    FS = ('sym', 'size of a field of that type', 0)
    I.bounds[FS] = (0, 1 << 62)
    got = []

    def hfs(I, st, fr, n, loc, av):
        st.ghost['fs'] = tuple(I.argval(st, a) for a in av)
        return I.ok(st, FS)
    I.hooks[C + '::fieldSize'] = hfs
    A = {r: ('sym', 'given ' + r, 0) for r in prm}
    I.bounds[A['nullable']] = (0, 1)
    I.bounds[A['length']] = (0, 1 << 62)
    I.bounds[('init', nul)] = (0, 1 << 62)
    st = State()
    av = [None] * len(add.params)
    for r_, i in prm.items():
        av[i] = A[r_]
    nameloc = (('givenname',),)
    if add.params[prm['name']]['t'].k in ('ref', 'rref'):
        st.mem[nameloc] = A['name']
        av[prm['name']] = ('ref', nameloc)
    nm_ok = lambda v: v in (A['name'], ('app', 'text', A['name']))
    paths = 0
    for s, k, v in I.analyse(add, av=tuple(av), state=st):
        paths += 1
        c.ob('total', 'addField', k == 'v', 'addField ends by %s' % k, add.where())
        safe('addField', add, s)
        if k != 'v':
            continue
        w = add.where()
        if not c.ob('add', 'one field', s.ghost.get('added') == 1, 'addField appends %d fields when %s' % (s.ghost.get('added', 0), facts(s)), w):
            continue
        new = lambda m: I.load(s, at(SIZE, m))
        c.ob('add', 'name', nm_ok(new('name')), 'the new field is called %s' % show(new('name'))[:80], w)
        c.ob('add', 'type', new('type') == A['type'], 'the new field has type %s' % show(new('type'))[:80], w)
        eqv = lambda a, b: a == b or I.prove(s, cmp_term('==', a, b))
        nn = new('nullable')
        c.ob('add', 'nullable', all(I.entails(s2, I.boolify(nn)) if b else I.entails(s2, mk_not(I.boolify(nn))) for s2, b in I.split(s.copy(), I.boolify(A['nullable']))), 'the new field is nullable as %s' % show(nn)[:80], w)
        hd = new('hasDefault')
        dnull = cmp_term('!=', A['default'], N0)
        c.ob('add', 'has default', all(I.decide(s2, I.boolify(hd)) is b for s2, b in I.split(s.copy(), dnull)), 'the new field has a default as %s' % show(hd)[:80], w)
        c.ob('add', 'default', new('defaultValue') == A['default'], 'the new field has the default %s' % show(new('defaultValue'))[:80], w)
        c.ob('add', 'size', eqv(new('size'), FS) and s.ghost.get('fs') == (A['type'], A['length']), 'the new field takes %s bytes for %s' % (show(new('size'))[:60], [show(x)[:30] for x in s.ghost.get('fs', ())]), w)
        for s2, none in I.split(s.copy(), cmp_term('==', SIZE, N0)):
            want = N0 if none else vadd(('init', at(last, 'offset')), ('init', at(last, 'size')))
            got_ = I.load(s2, at(SIZE, 'offset'))
            c.ob('add', 'offset, %s' % ('first' if none else 'later'), I.prove(s2, cmp_term('==', got_, want)), 'the new field is placed at %s when %s' % (show(got_)[:80], facts(s2)), w)
        for s2, b in I.split(s.copy(), I.boolify(A['nullable'])):
            n1 = I.load(s2, nul)
            c.ob('add', 'count, %snullable' % ('' if b else 'not '), I.prove(s2, cmp_term('==', n1, vadd(('init', nul), num(int(b))))), 'the number of nullable fields becomes %s' % show(n1)[:80], w)
            if b:
                np_ = I.load(s2, at(SIZE, 'nullFlagPos'))
                c.ob('add', 'null flag', I.prove(s2, cmp_term('==', np_, ('init', nul))), 'the null flag of the new field is %s' % show(np_)[:80], w)
        nms = dict(s.ghost.get('names', ()))
        ent = s.ghost.get('entered', ())
        sub = s.ghost.get('sub', ())
        if not nms or not all(nm_ok(x) for x in nms):
            c.ob('add', 'entry', False, 'addField does not enter the name of the field', w)
            continue
        key = list(nms)[0]
        fresh = bool(ent and not ent[0][2]) or bool(sub and not sub[0][1])
        was = not fresh
        pos = I.load(s, mp + (('[', key), ('.', 'second')))
        if was:
            c.ob('add', 'entry kept', I.prove(s, cmp_term('==', pos, ENTRY)), 'a name that is already known is entered again, for position %s' % show(pos)[:60], w)
        else:
            c.ob('add', 'entry', I.prove(s, cmp_term('==', pos, SIZE)), 'the name is entered for position %s instead of that of the new field' % show(pos)[:60], w)
        for l in s.mem:
            if l[:len(vec)] == vec and len(l) > len(vec) and l[:len(vec) + 1] != at(SIZE) and s.mem[l] != ('init', l) and not (l == at(ENTRY, 'name')):
                c.ob('add', 'other fields', False, 'addField changes an existing field', w)
    if not paths:
        raise Broken('addField has no path')
    # size of each type
    I = interp()
    T, L = ('sym', 'type', 0), ('sym', 'length', 0)
    consts = None
    for q, e in P.enums.items():
        if q.endswith('cpp2::PropertyType'):
            consts = [(x[0], int(x[1])) if isinstance(x, (list, tuple)) else (x, int(e['consts'][x])) for x in e['consts']]
    for n_, val in consts:
        I = interp()
        I.bounds[L] = (1, 1 << 62)
        for s, k, v in I.analyse(fsize, av=(num(val), L)):
            if n_ == 'UNKNOWN':
                c.ob('width', n_, k != 'v', 'a field of unknown type gets a width', fsize.where())
            elif n_ == 'FIXED_STRING':
                c.ob('width', n_, k == 'v' and I.prove(s, cmp_term('==', ret(I, s, v), L)), 'a fixed string does not get the width given', fsize.where())
            else:
                w = {'BOOL': 1, 'INT64': 8, 'INT32': 4, 'INT16': 2, 'INT8': 1, 'VID': 8, 'FLOAT': 4, 'DOUBLE': 8, 'STRING': 8, 'TIMESTAMP': 8, 'DATE': 4, 'TIME': 7, 'DATETIME': 11}.get(n_)
                if w is None:
                    raise Broken('unknown property type ' + n_)
                c.ob('width', n_, k == 'v' and ret(I, s, v) == num(w), 'a field of type %s gets %s bytes instead of %d' % (n_, show(v) if v else k, w), fsize.where())

    # ---------------------------------------------------------------- iteration
    IT = IF + '::Iterator'
    itr = P.recs.get(IT)
    if itr is None or not itr.known:
        raise Broken('Iterator not found')
    ps = fld(one([f['id'] for f in itr.fields if f['t'].k == 'ptr' and f['t'].p.k == 'rec' and f['t'].p.base == IF], 'schemas of the iterator'))
    pf = fld(one([f['id'] for f in itr.fields if f['t'].k == 'ptr' and f['t'].p.k == 'rec' and f['t'].p.base == IF + '::Field'], 'fields of the iterator'))

    SCH = (('schema',),)
    POS, STEP = ('sym', 'position', 0), ('sym', 'steps', 0)

    def fobj(i):
        return ('ptr', SCH + (('[', i),))

    def iinterp():
        I = c.interp(P)
        I.exact_arith = I.exact_casts = True
        I.bounds[SIZE] = (0, 1 << 62)
        I.bounds[POS] = (0, 1 << 62)
        I.bounds[STEP] = (0, 65535)

        def hfield(I, st, fr, n, loc, av):
            i = I.argval(st, av[0])
            outs = []
            for s, a in I.split(st, cmp_term('<=', N0, i)):
                for s2, b in (I.split(s, cmp_term('<', i, SIZE)) if a else [(s, False)]):
                    outs += I.ok(s2, fobj(i) if b else N0)
            return outs
        I.hooks[IF + '::field'] = hfield
        I.hooks[IF + '::getNumFields'] = lambda I, st, fr, n, loc, av: I.ok(st, SIZE)
        return I
    # the index member is the one the constructor sets to its argument
    ictor = one([f for f in P.find(IT + '::Iterator') if f.d.get('ctor') and not f.d.get('implicit') and len(f.params) == 2], 'constructors of Iterator')

    def is_at(I, s, loc, i, w, what):
        """the iterator at loc stands at position i"""
        g = lambda f: I.load(s, loc + f[1:])
        c.ob('iterate', what + ': schema', g(ps) == ('ptr', SCH), '%s loses the schema' % what, w)
        ok = True
        for s2, b in I.split(s.copy(), cmp_term('<', i, SIZE)):
            v = I.load(s2, loc + pf[1:])
            if b:
                good = v[0] == 'ptr' and v[1][:1] == SCH and I.prove(s2, cmp_term('==', v[1][1][1], i))
                c.ob('iterate', what + ': field', good, '%s stands at %s instead of the field at position %s' % (what, show(v)[:60], show(i)[:40]), w)
                if good and pi:
                    c.ob('iterate', what + ': position', I.prove(s2, cmp_term('==', I.load(s2, loc + pi[1:]), i)), '%s records position %s instead of %s' % (what, show(I.load(s2, loc + pi[1:]))[:60], show(i)[:40]), w)
            else:
                c.ob('iterate', what + ': end', v == N0, '%s names a field behind the last one' % what, w)
    pi = None
    I = iinterp()
    for s, k, v in I.analyse(ictor, av=(('ptr', SCH), POS)):
        c.ob('total', 'Iterator', k == 'v', 'building an iterator ends by %s' % k, ictor.where())
        cand = [f['id'] for f in itr.fields if is_int(f['t']) and I.load(s, fld(f['id'])) == POS]
        if len(cand) != 1:
            raise Broken('positions of the iterator: %s' % cand)
        pi = fld(cand[0])
        is_at(I, s, THIS, POS, ictor.where(), 'a new iterator')
    for nm, want in (('begin', N0), ('end', SIZE)):
        fn = c.fn(P, IF + '::' + nm, 0)
        I = iinterp()
        for s, k, v in I.analyse(fn, this=SCH):
            c.ob('total', nm, k == 'v', '%s ends by %s' % (nm, k), fn.where())
            if k == 'v':
                l = I.new_temp()
                I.store(s, l, v if v[0] != 'ref' else I.load(s, v[1]))
                is_at(I, s, l, want, fn.where(), nm + '()')

    def setup(I, live):
        def f(st):
            I.store(st, ps, ('ptr', SCH))
            I.store(st, pi, POS)
            for f_ in itr.fields:
                if is_int(f_['t']) and fld(f_['id']) != pi:
                    I.store(st, fld(f_['id']), SIZE)
            if live:
                I.assume(st, cmp_term('<', POS, SIZE))
                I.store(st, pf, fobj(POS))
            else:
                I.assume(st, cmp_term('<=', SIZE, POS))
                I.store(st, pf, N0)
        return f

    for nm in ('operator++', 'operator+', 'operator*', 'operator->', 'operator bool', 'operator=='):
        for fn in c.fns(P, IT + '::' + nm):
            for live in (True, False):
                I = iinterp()
                st = State()
                setup(I, live)(st)
                what = 'Iterator::' + nm + (' on a field' if live else ' at the end')
                if nm == 'operator==':
                    for other in ('field', 'end', 'schema'):
                        st2 = st.copy()
                        o = (('other',),)
                        Q = ('sym', 'other position', 0)
                        I.bounds[Q] = (0, 1 << 62)
                        I.store(st2, o + ps[1:], ('ptr', SCH if other != 'schema' else (('schema2',),)))
                        I.store(st2, o + pi[1:], Q)
                        if other == 'end':
                            I.assume(st2, cmp_term('<=', SIZE, Q))
                            I.store(st2, o + pf[1:], N0)
                        else:
                            I.assume(st2, cmp_term('<', Q, SIZE))
                            I.store(st2, o + pf[1:], fobj(Q) if other == 'field' else ('ptr', (('schema2',), ('[', Q))))
                        for s, k, v in I.analyse(fn, av=(('ref', o),), state=st2):
                            c.ob('total', what, k == 'v', '%s ends by %s' % (what, k), fn.where())
                            if k != 'v':
                                continue
                            v = ret(I, s, v)
                            for s2, b in I.split(s.copy(), I.boolify(v)):
                                if other == 'schema':
                                    good = not b
                                elif other == 'end':
                                    good = b == (not live)
                                elif not live:
                                    good = not b
                                else:
                                    good = I.entails(s2, cmp_term('==', POS, Q)) if b else all(False for s3, e in I.split(s2.copy(), cmp_term('==', POS, Q)) if e)
                                c.ob('iterate', 'equality, %s against %s' % ('field' if live else 'end', other), good, 'an iterator %s compares %s to one %s' % ('on a field' if live else 'at the end', 'equal' if b else 'unequal', {'field': 'on a field', 'end': 'at the end', 'schema': 'of another schema'}[other]), fn.where())
                    continue
                if nm in ('operator*', 'operator->') and not live:
                    continue
                av = (STEP,) if fn.params else ()
                for s, k, v in I.analyse(fn, av=av, state=st):
                    c.ob('total', what, k == 'v', '%s ends by %s' % (what, k), fn.where())
                    if k != 'v':
                        continue
                    if nm in ('operator*', 'operator->'):
                        v = I.load(s, v[1]) if v[0] == 'ref' and v[1][0] != SCH[0] else v
                        c.ob('iterate', what, v[0] in ('ref', 'ptr') and v[1] == fobj(POS)[1], '%s answers %s' % (what, show(v)[:60]), fn.where())
                    elif nm == 'operator bool':
                        c.ob('iterate', what, all(b == live for s2, b in I.split(s.copy(), I.boolify(ret(I, s, v)))), '%s answers wrongly' % what, fn.where())
                    else:
                        c.ob('iterate', what + ': itself', v == ('ref', THIS), '%s does not answer the iterator itself' % what, fn.where())
                        is_at(I, s, THIS, (vadd(POS, STEP) if fn.params else vadd(POS, N1)) if live else POS, fn.where(), what)


main('C29', RULE, body, ['fields are added only through addField; schemas have fewer than 2^62 fields and bytes'])
