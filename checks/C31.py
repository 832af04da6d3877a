import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc

RULE = ('The tables are taken from the constructor of the current tree by evaluating it with containers of known content. Every query is then evaluated for every name that occurs anywhere in the tables and for a name that occurs nowhere '
        '(and for near misses of the known names), and the answers are compared with each other: a pair is accepted exactly when the collation belongs to the character set; supported character sets are exactly those described, '
        'each has a supported default collation of its own; supported collations are exactly those that belong to a character set, and to one only; unsupported names are refused by every query; no query changes the tables.')
C = 'nebula::CharsetInfo'


def body(c):
    P = c.load(['charset/Charset.cpp'])
    rec = P.recs.get('nebula::CharsetDesc')
    if rec is None:
        raise Broken('CharsetDesc not found')

    def interp():
        I = c.interp(P, unroll=70)
        Conc(I)

        def sctor(I, st, fr, n, loc, av):
            v = I.argval(st, av[0]) if av else ('app', 'status', 'OK')
            I.store(st, loc, v)
            return I.ok(st, VOID)
        I.hooks['ctor:nebula::StatusOr'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, ('app', 'answer', norm(I.argval(st, av[0])))), I.ok(st, VOID))[1] if n.get('ck') not in ('copy', 'move') else None
        I.hooks['ctor:nebula::Status'] = sctor
        I.hooks['dtor:nebula::Status'] = I.hooks['dtor:nebula::StatusOr'] = lambda I, st, fr, loc, t: I.ok(st, VOID)
        for f in P.methods_of.get('nebula::Status', []):
            if f.d.get('static') and f.ret.k == 'rec' and f.ret.base == 'nebula::Status':
                I.hooks['nebula::Status::' + f.n] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', n['n']))
        I.hooks['nebula::Status::ok'] = lambda I, st, fr, n, loc, av: I.ok(st, num(int(I.load(st, loc) == ('app', 'status', 'OK'))))
        I.hooks['nebula::StatusOr::ok'] = lambda I, st, fr, n, loc, av: I.ok(st, num(int(bool(value(I.load(st, loc))[0]))))
        def svalue(I, st, fr, n, loc, av):
            ok, v = value(I.load(st, loc))
            if not ok:
                I.event(st, fr, n, 'out of range', loc)
            l = loc + (('.', '#value'),)
            st.mem[l] = v if ok else ('app', 'no value')
            return I.ok(st, ('ref', l))
        I.hooks['nebula::StatusOr::value'] = I.hooks['nebula::StatusOr::operator*'] = svalue
        I.hooks['nebula::StatusOr::status'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'status', 'OK') if value(I.load(st, loc))[0] else value0(I.load(st, loc)))
        return I

    ctor = one([f for f in P.find(C + '::CharsetInfo') if f.d.get('ctor') and not f.params], 'constructors of CharsetInfo')
    I = interp()
    outs = I.analyse(ctor)
    if len(outs) != 1 or outs[0][1] != 'v':
        raise Broken('the tables are not built by one straight path')
    tables = {k: v for k, v in outs[0][0].mem.items() if k[0] == ('this',)}
    names = set()

    def collect(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'str':
                names.add(v)
            for x in v:
                collect(x)
    for k, v in tables.items():
        collect(k)
        collect(v)
    stranger = ('str', 'a name that occurs in no table')
    U = sorted(names) + [stranger, ('str', '')]
    for x in sorted(names):                                  # names that are nearly one of the tables'
        for y in (x[1].upper(), x[1].capitalize(), x[1] + '_', x[1] + ' ', x[1][:-1], ' ' + x[1]):
            if ('str', y) not in U:
                U.append(('str', y))

    def call(nm, *args):
        """the one answer of a query: (True, value) or (False, None)"""
        fn = c.fn(P, C + '::' + nm, len(args))
        I = interp()
        st = State()
        st.mem.update(tables)
        av = []
        for i, a in enumerate(args):
            loc = (('argobj', i),)
            st.mem[loc] = a
            av.append(('ref', loc))
        got = set()
        for s, k, v in I.analyse(fn, av=tuple(av), state=st):
            c.ob('total', '%s(%s)' % (nm, ', '.join(repr(a[1]) for a in args)), k == 'v', '%s(%s) ends by %s' % (nm, ', '.join(a[1] for a in args), k), fn.where())
            if k != 'v':
                continue
            after = {k: v for k, v in s.mem.items() if k[0] == ('this',)}
            c.ob('pure', nm, after == tables, '%s(%s) changes the tables' % (nm, ', '.join(a[1] for a in args)), fn.where())
            c.ob('valid', nm, not any(e.name in ('end used', 'out of range') for e in s.trace), '%s(%s) reads an entry that does not exist' % (nm, ', '.join(a[1] for a in args)), fn.where())
            got.add((I, value(v if v[0] != 'ref' else I.load(s, v[1]))))
        vals = {v for _, v in got}
        if len(vals) != 1:
            raise Unsupported('%s(%s) has %d answers' % (nm, args, len(vals)))
        return vals.pop()

    at = lambda nm: c.fns(P, C + '::' + nm)[0].where()
    supC = {x: call('isSupportCharset', x)[0] for x in U}
    supL = {x: call('isSupportCollate', x)[0] for x in U}
    match = {(x, y): call('charsetAndCollateMatch', x, y)[0] for x in U for y in U}
    dfl = {x: call('getDefaultCollationbyCharset', x) for x in U}
    own = {x: call('getCharsetbyCollation', x) for x in U}
    q = lambda x: "'%s'" % x[1]

    for x in U:
        c.ob('charset', q(x) + ' default', dfl[x][0] == supC[x], 'character set %s is %ssupported but %s default collation' % (q(x), '' if supC[x] else 'not ', 'has a' if dfl[x][0] else 'has no'), at('getDefaultCollationbyCharset'))
        if dfl[x][0]:
            y = dfl[x][1]
            c.ob('charset', q(x) + ' default is supported', supL.get(y, False), 'the default collation %s of %s is not a supported collation' % (q(y), q(x)), at('getDefaultCollationbyCharset'))
            c.ob('charset', q(x) + ' owns its default', match.get((x, y), False), 'the default collation %s of %s is not accepted with it' % (q(y), q(x)), at('charsetAndCollateMatch'))
        c.ob('collation', q(x) + ' owner', own[x][0] == supL[x], 'collation %s is %ssupported but belongs to %s character set' % (q(x), '' if supL[x] else 'not ', 'a' if own[x][0] else 'no'), at('getCharsetbyCollation'))
        if own[x][0]:
            c.ob('collation', q(x) + ' owner is supported', supC.get(own[x][1], False), 'collation %s belongs to %s, which is not supported' % (q(x), q(own[x][1])), at('getCharsetbyCollation'))
        for y in U:
            belongs = own[y] == (True, x)
            c.ob('match', '%s with %s' % (q(x), q(y)), match[(x, y)] == belongs, 'character set %s and collation %s are %saccepted together although the collation %s to it' % (q(x), q(y), '' if match[(x, y)] else 'not ', 'belongs' if belongs else 'does not belong'), at('charsetAndCollateMatch'))
    c.ob('tables', 'not empty', any(supC.values()) and any(supL.values()), 'nothing is supported', ctor.where())

    # the description handed out
    fn = c.fn(P, C + '::getCharsetDesc', 0)
    I = interp()
    st = State()
    st.mem.update(tables)
    for s, k, v in I.analyse(fn, state=st):
        if k != 'v':
            c.ob('total', 'getCharsetDesc', False, 'getCharsetDesc ends by %s' % k, fn.where())
            continue
        w = v if v[0] != 'ref' else I.load(s, v[1])
        top = w[1] if w[0] == 'agg' else w
        if top[0] != 'conc':
            raise Unsupported('the description is %s' % show(top)[:100])
        keys = set(top[2])
        c.ob('describe', 'character sets', keys == {x for x in U if supC[x]}, 'described are %s, supported %s' % (sorted(x[1] for x in keys), sorted(x[1] for x in U if supC[x])), fn.where())
        strs = [f['id'] for f in rec.fields if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::basic_string']
        for x in keys:
            e = lambda f: part(w, (('@', x), ('.', 'second'), ('.', f)))
            c.ob('describe', q(x) + ' name', x in [e(f) for f in strs], 'the description of %s carries another name' % q(x), fn.where())
            c.ob('describe', q(x) + ' default', dfl[x][1] in [e(f) for f in strs], 'the description of %s carries another default collation' % q(x), fn.where())
            for f in rec.fields:
                if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::vector':
                    sel = (('@', x), ('.', 'second'), ('.', f['id']))
                    n = part(w, sel)
                    if n[0] != 'conc':
                        raise Unsupported('collations of the description are %s' % show(n)[:100])
                    got = {part(w, sel + (('[', num(i)),)) for i in range(n[2])}
                    c.ob('describe', q(x) + ' collations', got == {y for y in U if match[(x, y)]}, 'the description of %s lists other collations' % q(x), fn.where())


def norm(v):
    return v[1] if v[0] == 'agg' and not v[2] else v


def part(w, sel):
    parts = dict(w[2]) if w[0] == 'agg' else {}
    if sel not in parts:
        raise Unsupported('part %s of the description is not known' % (sel,))
    return norm(parts[sel])


def value0(v):
    v = norm(v)
    return v[2] if v[:2] == ('app', 'answer') else v


def value(v):
    """(ok, value) of a Status or StatusOr"""
    v = norm(v)
    if v[:2] == ('app', 'answer'):
        v = v[2]
        if v[:2] == ('app', 'status'):
            return (False, None)
        return (True, v)
    if v[:2] == ('app', 'status'):
        return (v[2] == 'OK', None)
    raise Unsupported('answer %s' % show(v)[:120])


main('C31', RULE, body, ['queries distinguish names only by comparing them (another operation on a name makes the check give up)'])
