import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from statusmodel import *
from conc import Conc

RULE = ('Abstract interpretation of every operation of Configuration with the document, its items and the output as symbols and the kind of each item as an unknown tag: every state the operations build holds an object, so looking an item up is defined; '
        'a scalar or sub-configuration fetch succeeds exactly when the item is there and has that kind and then stores exactly that item, otherwise the output is what it was; an array fetch succeeds exactly when the item is an array of which every element converts (arrays of 0 to 3 elements, each conversion may fail) and then appends the converted elements in order; '
        'an update of a text field stores the text exactly when the item is missing or a text; iteration hands every key and item to the processor once, in order, until it fails; a file that is parsed was read completely, within the buffer.')
Q = 'nebula::conf::Configuration'
KINDS = ('NULL', 'ARRAY', 'BOOL', 'DOUBLE', 'INT', 'OBJECT', 'STRING')      # as folly::dynamic::Type
IS = {'isNull': 'NULL', 'isBool': 'BOOL', 'isInt': 'INT', 'isDouble': 'DOUBLE', 'isString': 'STRING', 'isArray': 'ARRAY', 'isObject': 'OBJECT'}
GET = {'getInt': 'INT', 'getDouble': 'DOUBLE', 'getBool': 'BOOL', 'getString': 'STRING'}
AS = {'asInt': 'INT', 'asDouble': 'DOUBLE', 'asBool': 'BOOL', 'asString': 'STRING'}
ROOT = (('g', 'document'),)
ITEMS = (('g', 'items'),)
ELEMS = (('g', 'elements'),)
ENTRY = ('sym', 'entry', 0)
DOC = ('sym', 'document', 0)
DYN = 'folly::dynamic'
KEY = ('str', 'k')


def body(c):
    P = c.load(['conf/Configuration.cpp'])
    r = P.recs.get(Q)
    if r is None:
        raise Broken('class Configuration not found')
    CF = one([f['id'] for f in r.fields if f['t'].k == 'rec' and 'dynamic' in repr(f['t'].targs)], 'the document of a Configuration')
    THIS = (('self',),)
    CL = THIS + (('.', CF),)

    def tag(d):
        if d[0] == 'app' and d[1] == 'dynof':
            return num(KINDS.index(d[2]))
        return ('app', 'dtag', d)

    def mk(present=True, elems=0, extra=True):
        I = c.interp(P, unroll=12)
        H = I.hooks
        C, SM = Conc(I), StatusModel(I, P)

        def isk(I, st, d, k):
            t = tag(d)
            I.bounds.setdefault(t, (0, len(KINDS) - 1))
            return cmp_term('==', t, num(KINDS.index(k)))

        def only(st, d, k, then):
            """then(state) where d has that kind, an exception elsewhere"""
            outs = []
            for s, b in I.split(st.copy(), isk(I, st, d, k)):
                outs += then(s) if b else [(s, 'throw', ('exc', 'folly::TypeError'))]
            return outs

        def dyn(st, loc):
            v = I.load(st, loc)
            return v[1] if v[0] == 'agg' and v[1] is not None else v

        def give(s, v, t=('g', 'got')):
            l = (t + (len(s.mem),),)
            I.store(s, l, v)
            return I.ok(s, ('ref', l))
        for m, k in IS.items():
            H[DYN + '::' + m] = lambda I, st, fr, n, loc, av, k=k: I.ok(st, isk(I, st, dyn(st, loc), k))
        for m, k in GET.items():
            H[DYN + '::' + m] = lambda I, st, fr, n, loc, av, k=k: only(st, dyn(st, loc), k, lambda s: give(s, ('app', 'get', k, dyn(s, loc))))

        def asx(k):
            def h(I, st, fr, n, loc, av):
                d = dyn(st, loc)
                if d[0] != 'str' and I.entails(st, isk(I, st, d, k)):
                    return I.ok(st, ('app', 'get', k, d))
                bad = st.copy()
                I.event(bad, fr, n, 'conversion', None, (d, ('str', k)), N0)
                I.event(st, fr, n, 'conversion', None, (d, ('str', k)), N1)
                if d[0] == 'str':
                    return I.ok(st, d)
                return I.ok(st, ('app', 'as', k, d)) + [(bad, 'throw', ('exc', 'std::range_error'))]
            return h
        for m, k in AS.items():
            H[DYN + '::' + m] = asx(k)
        H[DYN + '::type'] = lambda I, st, fr, n, loc, av: (I.bounds.setdefault(tag(dyn(st, loc)), (0, len(KINDS) - 1)), I.ok(st, tag(dyn(st, loc))))[1]

        def dctor(I, st, fr, n, loc, av):
            t = n['a'][0].get('t') if av and n.get('a') else None
            t = t.strip_ref() if t is not None else None
            if not av:
                I.store(st, loc, ('app', 'dynof', 'NULL', N0))
                return [(st, 'v', None)]
            v = SM.val(st, av[0])
            b = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
            if b == DYN:
                w = v
            elif 'ObjectMaker' in b or v[:2] == ('app', 'objectmaker') or t is not None and t.k in ('func', 'ptr') and 'ObjectMaker' in repr(t.p):
                w = ('app', 'dynof', 'OBJECT', N0)
            elif b in ('std::basic_string', 'folly::Range', 'folly::StringPiece') or t is not None and t.k == 'ptr':
                w = ('app', 'dynof', 'STRING', v)
            elif t is not None and t.k in ('bool', 'int', 'float'):
                w = ('app', 'dynof', {'bool': 'BOOL', 'int': 'INT', 'float': 'DOUBLE'}[t.k], v)
            else:
                w = I.fresh('dynamic', None)
            I.store(st, loc, w)
            return [(st, 'v', None)]
        H['ctor:' + DYN] = dctor
        H['dtor:' + DYN] = lambda I, st, fr, loc, t: [(st, 'v', None)]
        H[DYN + '::object'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'objectmaker'))

        def dassign(I, st, fr, n, loc, av):
            I.store(st, loc, SM.val(st, av[0]))
            return I.ok(st, ('ref', loc))
        H[DYN + '::operator='] = dassign

        # the items of the document
        def isdoc(st, loc):
            d = dyn(st, loc)
            if d != DOC:
                raise Broken('an item of %s is looked up' % show(d)[:60])
            return d

        def on_items(h):
            return lambda I, st, fr, n, loc, av: only(st, isdoc(st, loc), 'OBJECT', lambda s: h(I, s, fr, n, ITEMS, av))
        H[DYN + '::find'] = on_items(C.find)
        H[DYN + '::count'] = on_items(C.count)
        H[DYN + '::items'] = on_items(lambda I, s, fr, n, l, av: I.ok(s, ('ref', ITEMS)))

        def getptr(I, s, fr, n, l, av):
            k = C.keyof(s, av[0])
            g = C.get(s, ITEMS)
            return I.ok(s, ('ptr', ITEMS + (('@', k), ('.', 'second'))) if k in g[1] else N0)
        H[DYN + '::get_ptr'] = on_items(getptr)

        def index(I, s, fr, n, l, av):
            k = C.keyof(s, av[0])
            g = C.get(s, ITEMS)
            if k not in g[1]:
                if n['n'] == 'at':
                    return [(s, 'throw', ('exc', 'std::out_of_range'))]
                I.store(s, ITEMS + (('@', k), ('.', 'first')), k)
                I.store(s, ITEMS + (('@', k), ('.', 'second')), ('app', 'dynof', 'NULL', N0))
                C.put(s, ITEMS, 'map', g[1] + (k,))
            return I.ok(s, ('ref', ITEMS + (('@', k), ('.', 'second'))))
        for m in ('operator[]', 'at'):
            H[DYN + '::' + m] = on_items(index)

        def dinsert(I, s, fr, n, l, av):
            v = SM.val(s, av[1])
            t = n['a'][1].get('t')
            t = t.strip_ref() if t is not None else None
            if t is None or t.k != 'rec' or strip_targs(t.base) != DYN:
                v = ('app', 'dynof', 'STRING', v)
            o = index(I, s, fr, dict(n, n='operator[]'), l, av)
            I.store(s, o[0][2][1], v)
            return I.ok(s, VOID)
        H[DYN + '::insert'] = on_items(dinsert)

        def keys(I, s, fr, n, l, av):
            g = C.get(s, ITEMS)
            t = (('g', 'keys'),)
            C.make(s, t, 'vec', list(g[1]))
            return I.ok(s, ('ref', t))
        H[DYN + '::keys'] = on_items(keys)

        # the elements of the item
        def arr(h):
            def f(I, st, fr, n, loc, av):
                d = dyn(st, loc)
                if d != ENTRY:
                    raise Broken('the elements of %s are walked' % show(d)[:60])
                return only(st, d, 'ARRAY', lambda s: h(I, s, fr, n, ELEMS, av))
            return f
        for m, h in (('begin', C.begin), ('end', C.end), ('size', C.size), ('empty', C.empty)):
            H[DYN + '::' + m] = arr(h)
        old = I.range_elems

        def range_elems(I, st, loc, t):
            b = t.strip_ref() if t is not None else None
            if b is not None and b.k == 'rec' and strip_targs(b.base) == DYN:
                if dyn(st, loc) != ENTRY or not I.entails(st, isk(I, st, ENTRY, 'ARRAY')):
                    raise Broken('the elements of %s are walked' % show(dyn(st, loc))[:60])
                loc, t = ELEMS, None
            return old(I, st, loc, t)
        I.range_elems = range_elems
        for m, h in (('begin', C.begin), ('end', C.end)):
            for q, l in (('IterableItems', ITEMS), ('IterableKeys', (('g', 'keys'),))):
                H[DYN + '::%s::%s' % (q, m)] = lambda I, st, fr, n, loc, av, h=h, l=l: h(I, st, fr, n, l, av)
        for q in ('const_iterator', 'const_item_iterator'):
            for m, h in (('operator*', C.star), ('operator->', C.arrow), ('operator++', C.inc), ('operator==', C.eq), ('operator!=', C.ne)):
                H[DYN + '::%s::%s' % (q, m)] = h
        for q in ('folly::Range', 'folly::StringPiece'):
            def rctor(I, st, fr, n, loc, av):
                I.store(st, loc, SM.val(st, av[0]) if av else ('str', ''))
                return [(st, 'v', None)]
            H['ctor:' + q] = rctor

        # text
        def parse(I, st, fr, n, loc, av):
            I.event(st, fr, n, 'parse', None, (SM.val(st, av[0]),), None)
            bad = st.copy()
            return I.ok(st, ('sym', 'parsed', 0)) + [(bad, 'throw', ('exc', 'folly::json::parse_error'))]
        H['folly::parseJson'] = parse
        for f in ('toJson', 'toPrettyJson'):
            H['folly::' + f] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', n['n'], SM.val(st, av[0])))

        def setup(I_, st, fr, fn=None):
            I.store(st, CL, ('ptr', ROOT))
            I.store(st, ROOT, DOC)
            I.bounds[('app', 'dtag', DOC)] = (KINDS.index('OBJECT'),) * 2
            C.make(st, ITEMS, 'map', ([(('str', 'a'), ('sym', 'other', 1))] if extra else []) + ([(KEY, ENTRY)] if present else []) + ([(('str', 'z'), ('sym', 'other', 2))] if extra else []))
            C.make(st, ELEMS, 'vec', [('sym', 'element', i) for i in range(elems)])
        return I, C, SM, setup, isk

    def args(fn):
        av = []
        for p in fn.params:
            t = p['t']
            b = strip_targs(t.base) if t.k == 'rec' else ''
            av.append(('ref', (('arg', p['n']),)) if t.k in ('ref', 'rref') else KEY if t.k == 'ptr' else ('sym', 'given', 0) if b == DYN else ('argv', p['n']))
        return av

    def whole(v):
        v = v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v
        if v is not None and v[:2] == ('app', 'make:' + DYN):
            v = whole(v[2]) if len(v) == 3 else ('app', 'dynof', 'NULL', N0)
        return ('app', 'dynof', 'OBJECT', N0) if v == ('app', 'objectmaker') else v

    def stat(I, s, v):
        if v is not None and v[0] == 'ref':
            v = I.load(s, v[1])
        return is_ok(v)

    # ------------------------------------------------------------- scalars
    for q, k in (('fetchAsInt', 'INT'), ('fetchAsDouble', 'DOUBLE'), ('fetchAsBool', 'BOOL'), ('fetchAsString', 'STRING'), ('fetchAsSubConf', 'OBJECT')):
        fn = c.fn(P, Q + '::' + q, 2)
        val = (('arg', fn.params[1]['n']),)
        for present in (True, False):
            I, C, SM, setup, isk = mk(present)
            SUB = (('g', 'sub'),)

            def su(I_, st, fr):
                setup(I_, st, fr, fn)
                if k == 'OBJECT':
                    I.store(st, val + (('.', CF),), ('ptr', SUB))
                    I.store(st, SUB, ('sym', 'sub', 0))
                else:
                    I.store(st, val, ('sym', 'before', 0))
            for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=su):
                o = stat(I, s, v) if kind == 'v' else None
                c.ob('fetch', '%s returns' % q, o is not None, '%s ends by %s' % (q, kind if kind != 'v' else 'an unknown status'), fn.where())
                if o is None:
                    continue
                if k == 'OBJECT':
                    p = whole(I.load(s, val + (('.', CF),)))
                    got = whole(I.load(s, p[1])) if p[0] == 'ptr' else p
                    want, before = ENTRY, ('sym', 'sub', 0)
                    c.ob('fetch', '%s leaves the document' % q, I.load(s, CL) == ('ptr', ROOT) and whole(I.load(s, ROOT)) == DOC and (p[0] == 'ptr' and p[1] != ROOT), '%s changes the document it reads, or shares it' % q, fn.where())
                else:
                    got, want, before = whole(I.load(s, val)), ('app', 'get', k, ENTRY), ('sym', 'before', 0)
                for s2, has in (I.split(s.copy(), isk(I, s, ENTRY, k)) if present else [(s, False)]):
                    c.ob('fetch', '%s succeeds' % q, o == has, '%s %s although the item %s' % (q, 'succeeds' if o else 'fails', 'is missing' if not present else 'is of that kind' if has else 'may be of another kind'), fn.where())
                c.ob('fetch', '%s output' % q, got == (want if o else before), '%s %s: the output is %s' % (q, 'succeeds' if o else 'fails', show(got)[:70]), fn.where())
                c.ob('fetch', '%s items' % q, C.get(s, ITEMS)[1] == (('str', 'a'),) + ((KEY,) if present else ()) + (('str', 'z'),), '%s changes the document' % q, fn.where())
    c.need('fetch', 40)

    # ------------------------------------------------------------- arrays
    for q, k in (('fetchAsIntArray', 'INT'), ('fetchAsDoubleArray', 'DOUBLE'), ('fetchAsBoolArray', 'BOOL'), ('fetchAsStringArray', 'STRING')):
        fn = c.fn(P, Q + '::' + q, 2)
        val = (('arg', fn.params[1]['n']),)
        for present, ne in ((False, 0), (True, 0), (True, 1), (True, 2), (True, 3)):
            I, C, SM, setup, isk = mk(present, ne)

            def su(I_, st, fr):
                setup(I_, st, fr, fn)
                C.make(st, val, 'vec', [('sym', 'before', 0)])
            for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=su):
                o = stat(I, s, v) if kind == 'v' else None
                c.ob('array', '%s returns' % q, o is not None, '%s ends by %s' % (q, kind if kind != 'v' else 'an unknown status'), fn.where())
                if o is None:
                    continue
                cs = [e for e in s.trace if e.name == 'conversion']
                failed = any(e.ret == N0 for e in cs)
                g = C.get(s, val)
                got = [whole(I.load(s, val + (('[', num(i)),))) for i in range(g[1])] if g is not None and isinstance(g[1], int) else None
                for s2, has in (I.split(s.copy(), isk(I, s, ENTRY, 'ARRAY')) if present else [(s, False)]):
                    c.ob('array', '%s succeeds' % q, o == (has and not failed), '%s %s although %s' % (q, 'succeeds' if o else 'fails', 'the item is missing' if not present else 'the item may be no array' if not has else 'an element does not convert' if failed else 'every element converts'), fn.where())
                if o:
                    c.ob('array', '%s elements' % q, got == [('sym', 'before', 0)] + [('app', 'as', k, ('sym', 'element', i)) for i in range(ne)], '%s succeeds on %d elements: the output is %s' % (q, ne, [show(x)[:40] for x in got or []]), fn.where())
                elif not cs:
                    c.ob('array', '%s untouched' % q, got == [('sym', 'before', 0)], '%s fails on an item that is no array and changes the output' % q, fn.where())
    c.need('array', 40)

    # ------------------------------------------------------------- update
    fn = c.fn(P, Q + '::upsertStringField', 2)
    val = (('arg', fn.params[1]['n']),)
    for present in (True, False):
        I, C, SM, setup, isk = mk(present)
        for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=lambda I_, st, fr: (setup(I_, st, fr, fn), I.store(st, val, ('sym', 'text', 0)))):
            o = stat(I, s, v) if kind == 'v' else None
            c.ob('update', 'returns', o is not None, 'upsertStringField ends by %s' % kind, fn.where())
            if o is None:
                continue
            for s2, has in (I.split(s.copy(), isk(I, s, ENTRY, 'STRING')) if present else [(s, True)]):
                c.ob('update', 'succeeds', o == has, 'upsertStringField %s although the item %s' % ('succeeds' if o else 'fails', 'is missing' if not present else 'is a text' if has else 'may be no text'), fn.where())
            g = C.get(s, ITEMS)[1]
            now = whole(I.load(s, ITEMS + (('@', KEY), ('.', 'second')))) if KEY in g else None
            want = ('app', 'dynof', 'STRING', ('sym', 'text', 0)) if o else ENTRY if present else None
            c.ob('update', 'stores', now == want, 'after an update that %s, the item is %s' % ('succeeds' if o else 'fails', show(now)[:70] if now else 'missing'), fn.where())
            ot = [whole(I.load(s, ITEMS + (('@', ('str', x)), ('.', 'second')))) for x in 'az']
            c.ob('update', 'other items', ot == [('sym', 'other', 1), ('sym', 'other', 2)] and len(g) == 2 + (KEY in g), 'an update changes other items', fn.where())
    c.need('update', 8)

    # ------------------------------------------------------------- iteration
    for q, n in (('forEachKey', 1), ('forEachItem', 2)):
        fn = c.fn(P, Q + '::' + q, 1)
        I, C, SM, setup, isk = mk(True)

        def call(I, st, fr, nd, loc, av):
            a = tuple(whole(SM.val(st, x)) for x in av)
            I.event(st, fr, nd, 'processor', None, a, N1)
            bad = st.copy()
            I.event(bad, fr, nd, 'processor failed', None, (), None)
            return I.ok(st, VOID) + [(bad, 'throw', ('exc', 'std::runtime_error'))]
        I.hooks['std::function::operator()'] = call
        items = [(('str', 'a'), ('sym', 'other', 1)), (KEY, ENTRY), (('str', 'z'), ('sym', 'other', 2))]
        for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=lambda I_, st, fr: setup(I_, st, fr)):
            o = stat(I, s, v) if kind == 'v' else None
            c.ob('iterate', '%s returns' % q, o is not None, '%s ends by %s' % (q, kind), fn.where())
            ps = [e.args for e in s.trace if e.name == 'processor']
            bad = any(e.name == 'processor failed' for e in s.trace)
            c.ob('iterate', '%s order' % q, ps == [x[:n] for x in items][:len(ps)] and (bad or len(ps) == 3), '%s hands %s to the processor' % (q, [[show(y)[:30] for y in x] for x in ps]), fn.where())
            if o is not None:
                c.ob('iterate', '%s status' % q, o == (not bad), '%s %s although the processor %s' % (q, 'succeeds' if o else 'fails', 'failed' if bad else 'did not fail'), fn.where())
    c.need('iterate', 8)

    # ------------------------------------------------------------- text out
    for q, f in (('dumpToString', 'toJson'), ('dumpToPrettyString', 'toPrettyJson')):
        fn = c.fn(P, Q + '::' + q, 0)
        I, C, SM, setup, isk = mk(True)
        for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=lambda I_, st, fr: setup(I_, st, fr)):
            if v is not None and v[0] == 'ref':
                v = I.load(s, v[1])
            c.ob('dump', q, kind == 'v' and whole(v) == ('app', f, DOC), '%s returns %s' % (q, show(v)[:70] if v else kind), fn.where())
    c.need('dump', 2)

    # ------------------------------------------------------------- construction: the document is an object
    def document(I, s):
        p = whole(I.load(s, CL))
        return whole(I.load(s, p[1])) if p[0] == 'ptr' else None
    for fn in c.fns(P, Q + '::Configuration', 2):
        if len(fn.params) > 1 or fn.params and strip_targs(fn.params[0]['t'].strip_ref().base) != DYN:
            continue
        I, C, SM, setup, isk = mk(True)
        for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=None):
            if kind == 'abort':
                c.ob('object', 'a Configuration of an object', fn.params and not any(b for _, b in I.split(s.copy(), isk(I, s, ('sym', 'given', 0), 'OBJECT'))), 'constructing a Configuration of an object ends the process', fn.where())
                continue
            d = document(I, s) if kind == 'v' else None
            c.ob('object', 'Configuration(%d)' % len(fn.params), d is not None and I.prove(s, isk(I, s, d, 'OBJECT')) and (not fn.params or d == ('sym', 'given', 0)), 'a new Configuration may hold no object', fn.where())
    fn = c.fn(P, Q + '::parseFromString', 1)
    I, C, SM, setup, isk = mk(True)
    for s, kind, v in I.analyse(fn, this=THIS, av=args(fn), setup=lambda I_, st, fr: (setup(I_, st, fr), I.store(st, (('arg', fn.params[0]['n']),), ('sym', 'text', 0)))):
        o = stat(I, s, v) if kind == 'v' else None
        c.ob('object', 'parse returns', o is not None, 'parseFromString ends by %s' % kind, fn.where())
        ps = [e for e in s.trace if e.name == 'parse']
        c.ob('object', 'parse input', len(ps) == 1 and ps[0].args[0] == ('sym', 'text', 0), 'parseFromString does not parse its argument once', fn.where())
        d = document(I, s)
        if o:
            c.ob('object', 'parsed document', d == ('sym', 'parsed', 0) and I.prove(s, isk(I, s, d, 'OBJECT')), 'parseFromString succeeds with a document that %s' % ('is not the one parsed' if d != ('sym', 'parsed', 0) else 'may be no object, so that looking an item up throws'), fn.where())
        else:
            c.ob('object', 'failed parse', d == DOC, 'parseFromString fails and changes the document', fn.where())
            for s2, b in I.split(s.copy(), isk(I, s, ('sym', 'parsed', 0), 'OBJECT')):
                if b and not any(e.name == 'catch' for e in s.trace):
                    c.ob('object', 'refused', False, 'parseFromString refuses an object', fn.where())
    c.need('object', 6)

    # ------------------------------------------------------------- a file
    fn = c.fn(P, Q + '::parseFromFile', 1)
    I, C, SM, setup, isk = mk(True)
    I.fork_unroll = True
    LEN = ('sym', 'length', 0)
    I.bounds[LEN] = (-1, 1 << 40)
    H = I.hooks

    def sized(name, lo, hi):
        def h(I, st, fr, n, loc, av):
            v = ('sym', name, len(st.trace))
            h_ = hi(st, av)
            I.bounds[v] = (lo, 1 << 40)
            ss = [st]
            if h_ is not None:
                ss = [y for y, b in I.split(st.copy(), cmp_term('<=', v, h_)) if b]
            outs = []
            for s in ss:
                I.event(s, fr, n, name, None, tuple(SM.val(s, a) for a in av), v)
                outs += I.ok(s, v)
            return outs
        return h
    H['open'] = sized('open', -1, lambda st, av: None)
    H['read'] = sized('read', -1, lambda st, av: SM.val(st, av[2]))
    H['pread'] = sized('read', -1, lambda st, av: SM.val(st, av[2]))
    H['close'] = sized('close', -1, lambda st, av: N0)

    def seek(I, st, fr, n, loc, av):
        if av[2] == num(2):
            I.event(st, fr, n, 'size', None, (), LEN)
            return I.ok(st, LEN)
        I.event(st, fr, n, 'seek', None, (av[1],), None)
        return I.ok(st, av[1])
    H['lseek'] = seek

    def pfs(I, st, fr, n, loc, av):
        I.event(st, fr, n, 'parseFromString', None, tuple(SM.val(st, a) for a in av), None)
        return I.ok(st, ('app', 'status', 'parsed'))
    H[Q + '::parseFromString'] = pfs
    H['std::regex_replace'] = lambda I, st, fr, n, loc, av: I.ok(st, ('app', 'stripped', SM.val(st, av[0])))
    ALLOC = {}

    def mku(I, st, fr, n, loc, av):
        I.counter += 1
        l = (('h', I.counter, 'char[]'),)
        ALLOC[l] = SM.val(st, av[0])
        return I.ok(st, ('ptr', l + (('[', N0),)))
    H['std::make_unique'] = mku

    def write(I, st, loc, v, node):
        if len(loc) > 1 and loc[:1] in ALLOC and loc[1][0] == '[':
            i = loc[1][1]
            c.ob('file', 'buffer', I.prove(st, cmp_term('>=', i, N0)) and I.prove(st, cmp_term('<', i, ALLOC[loc[:1]])), 'parseFromFile writes at %s of a buffer of %s bytes' % (show(i)[:40], show(ALLOC[loc[:1]])[:40]), fn.where())
    I.on_write = write
    for s, kind, v in I.analyse(fn, this=THIS, setup=lambda I_, st, fr: setup(I_, st, fr)):
        c.ob('file', 'returns', kind == 'v', 'parseFromFile ends by %s' % kind, fn.where())
        rd = [e for e in s.trace if e.name == 'read']
        ps = [e for e in s.trace if e.name == 'parseFromString']
        op = [e for e in s.trace if e.name == 'open']
        sv = I.load(s, v[1]) if v is not None and v[0] == 'ref' else v
        if not ps:
            c.ob('file', 'nothing parsed', is_ok(sv) is False, 'parseFromFile succeeds without parsing anything', fn.where())
            continue
        if LEN in [e.ret for e in s.trace]:
            done = I.prove(s, cmp_term('==', sum_of([e.ret for e in rd]), LEN))
            # a count kept by a loop that reads
            done = done or any(I.prove(s, cmp_term('==', x, LEN)) for x in set(loop_atoms(tuple(s.cons))))
        else:
            done = bool(rd) and I.prove(s, cmp_term('==', rd[-1].ret, N0))
        c.ob('file', 'complete', done, 'parseFromFile parses a content although reading the file may have failed or stopped early', fn.where())
        c.ob('file', 'opened', len(op) == 1 and I.prove(s, cmp_term('>=', op[0].ret, N0)), 'parseFromFile parses a file that may not have been opened', fn.where())
        c.ob('file', 'result', len(ps) == 1 and sv == ('app', 'status', 'parsed'), 'parseFromFile does not report how the parsing ended', fn.where())
    c.need('file', 6)


def loop_atoms(v):
    if isinstance(v, tuple):
        if v and v[0] == 'phi':
            yield v
        for x in v:
            yield from loop_atoms(x)


def sum_of(xs):
    r = N0
    for x in xs:
        r = vadd(r, x)
    return r


main('C26', RULE, body)
