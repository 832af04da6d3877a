import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from conc import Conc

RULE = ('Every class that handles admin web requests (it overrides the proxygen::RequestHandler calls) is driven through the life of a request: construction, onRequest with each method (GET, PUT, POST, one proxygen does not know), no, one or two parts of a body, onEOM, the body being no JSON or JSON of every shape '
        '(null, number, text, array, empty object, object of scalars, object holding an array or null), query parameters being present or not. '
        'reply: exactly one complete reply (status, then sendWithEOM) is sent, by onEOM, on every path; status: it is 404 from the handler of unknown paths, else 405 for a method the handler does not support, else 400 when settings are not a JSON object with entries, else 200. '
        'ends: no exception leaves these functions (they are noexcept: it would end the process), and no part of the body that was never received is used. '
        'release: requestComplete and onError release the handler exactly once and do not touch it afterwards; nothing else releases it. '
        'shown: the handler that shows settings is run on a setting of each type and on one that does not exist, with every combination of its options; what it reads of the entries recorded for a setting has been recorded and can be shown, each setting is shown once, and each entry is taken from the field it names. '
        'route: the router, with no, one and two routes, gives a request to the first route that matches it, and else to the handler of unknown paths.')
BASE = 'proxygen::RequestHandler'
SELF = (('self',),)
J = ['null', 'number', 'text', 'empty text', 'array', 'empty array', 'empty object', 'object', 'object with an array', 'object with null']


def body(c):
    P = c.load(['webservice/%s.cpp' % x for x in ('GetFlagsHandler', 'SetFlagsHandler', 'GetStatsHandler', 'StatusHandler', 'NotFoundHandler', 'Router')])
    whole = lambda v: v[1] if v is not None and v[0] == 'agg' and v[1] is not None else v
    classes = sorted(q for q in P.methods_of if any(f.n == 'onEOM' and f.body for f in P.methods_of[q]))
    if len(classes) < 5:
        raise Broken('only %d handlers of web requests' % len(classes))
    METHODS = dict(P.enums['proxygen::HTTPMethod']['consts'])
    SUPPORTS = {'nebula::SetFlagsHandler': 'PUT', 'nebula::GetFlagsHandler': 'GET', 'nebula::GetStatsHandler': 'GET', 'nebula::StatusHandler': 'GET', 'nebula::NotFoundHandler': None}
    DYN = 'folly::dynamic'

    def mk():
        I = c.interp(P)
        I.faults = []
        H = I.hooks
        I.opaque_pred = lambda fn: 'common/webservice/' not in fn.file
        fault = lambda what, n: I.faults.append((what, (n or {}).get('l', 0)))
        boom = lambda st: [(st, 'throw', ('exc', 'std::runtime_error'))]

        # the method of a request, if proxygen knows it
        def opt(st, a):
            v = whole(I.load(st, a[1]) if a[0] == 'ref' else a)
            return v if v is not None and v[:2] == ('app', 'method') else None

        def value(I_, st, fr, n, loc, av):
            o = opt(st, ('ref', loc)) if loc is not None else None
            if o is None:
                return None
            if o[2] == 'unknown':
                return boom(st)
            l = loc + (('.', 'val'),)
            I.store(st, l, num(METHODS[o[2]]))
            return I.ok(st, ('ref', l))
        for q in ('std::optional::', 'boost::optional::', 'folly::Optional::'):
            for m in ('value', 'get'):
                H[q + m] = value

            def star(I_, st, fr, n, loc, av):
                o = opt(st, ('ref', loc)) if loc is not None else None
                if o is not None and o[2] == 'unknown':
                    fault('reads a method that is not there', n)
                    return I.ok(st, I.fresh('method', None))
                return value(I_, st, fr, n, loc, av)
            H[q + 'operator*'] = star

            def has(I_, st, fr, n, loc, av):
                o = opt(st, ('ref', loc)) if loc is not None else None
                return None if o is None else I.ok(st, num(int(o[2] != 'unknown')))
            for m in ('has_value', 'operator bool', 'is_initialized', 'hasValue'):
                H[q + m] = has

        def compare(neg):
            def f(I_, st, fr, n, loc, av):
                xs = ([('ref', loc)] if loc is not None else []) + list(av)
                if len(xs) != 2:
                    return None
                o = [opt(st, x) for x in xs]
                if o[0] is None and o[1] is None:
                    return None
                if o[0] is None:
                    o, xs = o[::-1], xs[::-1]
                w = whole(I.argval(st, xs[1])) if o[1] is None else None
                if w is not None and w[0] != 'n':
                    raise Unsupported('what a method is compared with')
                eq = o[0][2] == o[1][2] if w is None else o[0][2] != 'unknown' and METHODS[o[0][2]] == w[1]
                return I.ok(st, num(int(eq != neg)))
            return f
        for q in ('std::', 'boost::', 'folly::', '*::'):
            H[q + 'operator=='], H[q + 'operator!='] = compare(False), compare(True)
        H['proxygen::HTTPMessage::getMethod'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('app', 'method', I.method))

        # replies
        def built(I_, st, fr, n, loc, av):
            I.store(st, loc, ('app', 'reply', 0))
            return I.ok(st, None)
        H['ctor:proxygen::ResponseBuilder'] = built
        RB = 'proxygen::ResponseBuilder::'
        for m in ('body', 'header', 'closeConnection'):
            H[RB + m] = lambda I_, st, fr, n, loc, av: I.ok(st, ('ref', loc))

        def status(I_, st, fr, n, loc, av):
            v = I.argval(st, av[0])
            if v[0] != 'n':
                raise Unsupported('the status of a reply')
            I.store(st, loc, ('app', 'reply', v[1]))
            return I.ok(st, ('ref', loc))
        H[RB + 'status'] = status

        def send(I_, st, fr, n, loc, av):
            v = whole(I.load(st, loc))
            if v is None or v[:2] != ('app', 'reply'):
                raise Unsupported('a reply that is sent')
            st.ghost['sent'] = st.ghost.get('sent', ()) + ((v[2], n['n'] == 'sendWithEOM'),)
            return I.ok(st, VOID)
        H[RB + 'send'] = H[RB + 'sendWithEOM'] = send
        for m in ('sendHeaders', 'sendEOM', 'sendBody', 'sendAbort'):
            H['proxygen::ResponseHandler::' + m] = lambda I_, st, fr, n, loc, av: (_ for _ in ()).throw(Unsupported('a reply that is not built by a ResponseBuilder'))

        # parts of a body
        for m in ('moveToFbString', 'appendChain', 'prependChain', 'appendToChain', 'coalesce', 'data', 'length', 'computeChainDataLength', 'clone', 'cloneCoalesced', 'empty', 'to'):
            def buf(I_, st, fr, n, loc, av):
                if loc is not None and loc[0][0] == 'deref' and loc[0][1] == N0:
                    fault('uses the body although there is none', n)
                    return [(st, 'abort', VOID)]
                if loc is not None and loc[0][0] == 'heap' and n['n'] in ('moveToFbString',):
                    st.ghost['read'] = 1
                return None
            H['folly::IOBuf::' + m] = buf

        # JSON
        def kind(st, loc):
            v = whole(I.load(st, loc)) if loc is not None else None
            return v[2] if v is not None and v[:2] == ('app', 'json') else None

        def emptytext(st, a):
            v = whole(I.load(st, a[1]) if a[0] == 'ref' else a)
            while v is not None and v[0] == 'app' and v[1].startswith('ctor:') and len(v) == 3:
                v = v[2]
            return v == ('str', '') or v is not None and v[0] == 'app' and v[1].startswith('ctor:') and len(v) == 2

        def parse(I_, st, fr, n, loc, av):
            r = []
            if not I.parts and not st.ghost.get('read'):
                # nothing was received: what is parsed is a text of the program's own
                return boom(st) if emptytext(st, av[0]) else (_ for _ in ()).throw(Unsupported('what is parsed without a body'))
            for k in [None] + J:
                s = st.copy()
                s.ghost['json'] = k or 'no JSON'
                r.append((s, 'v', ('app', 'json', k)) if k else (s, 'throw', ('exc', 'std::runtime_error')))
            return r
        H['folly::parseJson'] = parse

        def dassign(I_, st, fr, n, loc, av):
            if len(av) != 1:
                return None
            v = whole(I.load(st, av[0][1]) if av[0][0] == 'ref' else av[0])
            if v is None or v[:2] != ('app', 'json'):
                return None
            I.store(st, loc, v)
            return I.ok(st, ('ref', loc) if n['n'] == 'operator=' else None)
        H['ctor:' + DYN] = H[DYN + '::operator='] = dassign
        obj = lambda k: 'object' in k
        arr = lambda k: k in ('array', 'empty array')
        txt = lambda k: 'text' in k

        def q(f):
            def g(I_, st, fr, n, loc, av):
                k = kind(st, loc)
                if k is None:
                    return None
                r = f(k)
                return boom(st) if r is None else I.ok(st, r)
            return g
        b = lambda x: num(int(x))
        H[DYN + '::isObject'] = q(lambda k: b(obj(k)))
        H[DYN + '::isArray'] = q(lambda k: b(arr(k)))
        H[DYN + '::isNull'] = q(lambda k: b(k == 'null'))
        H[DYN + '::isString'] = q(lambda k: b(txt(k)))
        for m in ('isNumber', 'isInt'):
            H[DYN + '::' + m] = q(lambda k: b(k == 'number'))
        for m in ('isDouble', 'isBool'):
            H[DYN + '::' + m] = q(lambda k: N0)
        H[DYN + '::empty'] = q(lambda k: N1 if k == 'null' or k.startswith('empty') else N0 if obj(k) or arr(k) or txt(k) else None)
        H[DYN + '::size'] = q(lambda k: N0 if k.startswith('empty') else N1 if obj(k) or arr(k) else num(3) if txt(k) else None)
        H[DYN + '::asString'] = q(lambda k: None if obj(k) or arr(k) or k == 'null' else I.fresh('text', None))
        H[DYN + '::getString'] = q(lambda k: I.fresh('text', None) if txt(k) else None)
        H[DYN + '::asInt'] = q(lambda k: None if obj(k) or arr(k) or k == 'null' else I.fresh('int', None))

        def items(I_, st, fr, n, loc, av):
            k = kind(st, loc)
            if k is None:
                return None
            return I.ok(st, ('app', 'items', k)) if obj(k) else boom(st)
        H[DYN + '::items'] = items

        def elems(I_, st, loc, t):
            v = whole(I.load(st, loc))
            if v is None or v[:2] != ('app', 'items'):
                return None
            if v[2].startswith('empty'):
                return []
            l = (('g', 'item'),)
            I.store(st, l + (('.', 'first'),), ('app', 'json', 'text'))
            I.store(st, l + (('.', 'second'),), ('app', 'json', {'object with an array': 'array', 'object with null': 'null'}.get(v[2], 'text')))
            return [l]
        I.range_elems = elems

        def gone(I_, st, fr, loc, t):
            if loc == SELF:
                st.ghost['deleted'] = st.ghost.get('deleted', 0) + 1
            return I_.ok(st, VOID)
        for q_ in classes:
            H['dtor:' + q_] = gone

        def touch(I_, st, loc, *x):
            if loc and loc[0] == SELF[0] and st.ghost.get('deleted'):
                fault('touches the handler after it was released', None)
        I.on_read = touch
        I.on_write = touch
        return I

    for cls in classes:
        short = cls.split('::')[-1]
        F = {}
        for m in ('onRequest', 'onBody', 'onEOM', 'onUpgrade', 'requestComplete', 'onError'):
            F[m] = one([f for f in P.methods_of[cls] if f.n == m and f.body], '%s of %s' % (m, short))
        sup = SUPPORTS[cls] if cls in SUPPORTS else 'GET'
        if cls not in SUPPORTS:
            c.notes.append('%s: taken to support GET' % short)
        fs = fields(P, cls)

        def start(I):
            st = State()
            for f in fs:
                t = f['t']
                l = SELF + (('.', f['id']),)
                if t.k == 'enum':
                    I.store(st, l, N0)
                elif t.k == 'rec' and strip_targs(t.base) == 'std::unique_ptr':
                    I.store(st, l, N0)
            return st

        def step(I, outs, fn, av):
            r = []
            for s, k, v in outs:
                if k != 'v' or lin.infeasible(s.cons):
                    r.append((s, k, v))
                    continue
                r += [x for x in I.analyse(fn, this=SELF, av=av, state=s) if not lin.infeasible(x[0].cons)]
            return r
        for method in ('GET', 'PUT', 'POST', 'unknown'):
            for parts in (0, 1, 2):
                if parts and sup != 'PUT' and method != 'POST':
                    continue
                I = mk()
                I.method, I.parts = method, parts
                outs = [(start(I), 'v', VOID)]
                outs = step(I, outs, F['onRequest'], [('ptr', (('g', 'headers'),))])
                for i in range(parts):
                    outs = step(I, outs, F['onBody'], [('ptr', (('heap', 'part%d' % i),))])
                early = [s for s, k, v in outs if s.ghost.get('sent')]
                outs = step(I, outs, F['onEOM'], [])
                req = '%s request%s' % ('a ' + method if method != 'unknown' else 'a request of an unknown method,', ' without a body' if not parts else ' with a body')
                req = req.replace('method, request', 'method')
                for s, k, v in outs:
                    j = s.ghost.get('json')
                    what = '%s: %s%s' % (short, req, ' of %s' % j if j else '')
                    at = F['onEOM'].where()
                    inst = '%s: %s%s' % (short, method, ', %s' % ('body' if parts else 'no body') if sup == 'PUT' else '')
                    c.ob('ends', inst, k == 'v' and not I.faults, '%s %s' % (what, I.faults[0][0] if I.faults else 'ends the process: an exception leaves a noexcept function' if k == 'throw' else 'ends the process'), F['onRequest'].where() if k == 'throw' and not j and method == 'unknown' else at)
                    if k != 'v':
                        continue
                    sent = s.ghost.get('sent', ())
                    c.ob('reply', inst, len(sent) == 1 and sent[0][1] and not early, '%s gets %s' % (what, 'no reply' if not sent else '%d replies' % len(sent) if len(sent) > 1 else 'an incomplete reply' if not sent[0][1] else 'its reply before it has been received'), at)
                    c.ob('release', inst + ': kept', not s.ghost.get('deleted'), '%s releases the handler before the request is complete' % what, at)
                    if len(sent) != 1:
                        continue
                    if sup is None:
                        want = 404
                    elif method != sup:
                        want = 405
                    elif sup == 'PUT' and (not parts or j in (None, 'no JSON') or not j.startswith('object')):
                        want = 400
                    else:
                        want = 200
                    if sup == 'PUT' and want == 200 and j != 'object':
                        c.ob('status', inst, sent[0][0] in (200, 400), '%s is answered %d' % (what, sent[0][0]), at)
                        continue
                    c.ob('status', inst, sent[0][0] == want, '%s is answered %d instead of %d' % (what, sent[0][0], want), at)
        for m in ('requestComplete', 'onError', 'onUpgrade'):
            I = mk()
            outs = step(I, [(start(I), 'v', VOID)], F[m], [('argv', 'x')] * len(F[m].params))
            for s, k, v in outs:
                want = 0 if m == 'onUpgrade' else 1
                got = s.ghost.get('deleted', 0)
                c.ob('release', '%s: %s' % (short, m), k == 'v' and got == want, '%s::%s %s' % (short, m, 'does not release the handler' if not got else 'releases the handler %d times' % got if want else 'releases the handler'), F[m].where())
                c.ob('release', '%s: %s, last' % (short, m), not I.faults, '%s::%s %s' % (short, m, I.faults[0][0] if I.faults else ''), F[m].where())
    # ---- the flags shown by GET /flags
    G = one([q for q in classes if q.endswith('GetFlagsHandler')], 'the handler that shows settings')
    eom = one([f for f in P.methods_of[G] if f.n == 'onEOM' and f.body], 'onEOM of it')
    gf = fields(P, G)
    bools = [f for f in gf if f['t'].k == 'bool']
    vecs = [f for f in gf if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::vector']
    INFO = ('name', 'type', 'description', 'current_value', 'default_value', 'filename', 'has_validator_fn', 'is_default', 'flag_ptr')
    TYPES = ('int32', 'uint32', 'int64', 'uint64', 'bool', 'double', 'string', 'a type of its own')
    OF = {'name': 'name', 'type': 'type', 'description': 'description', 'file': 'filename', 'is_default': 'is_default', 'value': 'current_value', 'default': 'default_value'}
    if len(vecs) != 1:
        raise Broken('the list of the settings asked for')

    def show(ftype, flags, listed):
        I = c.interp(P, unroll=12)
        C = Conc(I)
        H = I.hooks
        I.opaque_pred = lambda fn: 'common/webservice/' not in fn.file
        I.bad = []
        boom = lambda st: [(st, 'throw', ('exc', 'std::out_of_range'))]
        D = DYN
        KEYS = (('.', '#'),)

        def val(st, loc):
            k = st.mem.get(loc + KEYS)
            return ('app', 'dobj', k[2]) if k is not None and k[:2] == ('app', 'keys') else whole(I.load(st, loc))
        kof = lambda v: v[2] if v is not None and v[:2] == ('app', 'dval') else None

        def give(st, v):
            st.ghost['tmp'] = st.ghost.get('tmp', 0) + 1
            l = (('g', 'dyn%d' % st.ghost['tmp']),)
            I.store(st, l, v)
            return I.ok(st, ('ref', l))

        def freeze(st, loc):
            v = val(st, loc)
            if v is not None and v[:2] == ('app', 'dobj'):
                return ('app', 'dfrz', tuple((k, freeze(st, loc + (('.', 'k:' + k),))) for k in v[2]))
            return v

        def thaw(st, loc, v):
            if v is not None and v[:2] == ('app', 'dfrz'):
                for k, w in v[2]:
                    thaw(st, loc + (('.', 'k:' + k),), w)
                v = ('app', 'dobj', tuple(k for k, w in v[2]))
            if v is not None and v[:2] == ('app', 'dobj'):
                I.store(st, loc + KEYS, ('app', 'keys', v[2]))
            else:
                st.mem.pop(loc + KEYS, None)
                I.store(st, loc, v)

        def src(v):
            """(kind, the field of the setting it is made of)"""
            return v

        def scalar(st, a, t):
            b = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
            v = I.argval(st, a)
            if t is not None and (t.k == 'nullptr' or 'nullptr' in repr(t)):
                k = 'null'
            elif t is not None and t.k in ('bool', 'int', 'float'):
                k = 'scalar'
            elif b in ('std::basic_string', 'folly::Range') or t is not None and t.k in ('ptr', 'arr'):
                k = 'text'
            else:
                raise Unsupported('what is recorded of a setting')
            return ('app', 'dval', k, whole(v) if v is not None else N0)

        def dctor(I_, st, fr, n, loc, av):
            if not av:
                I.store(st, loc, ('app', 'dval', 'null', N0))
                return I.ok(st, None)
            a = av[0]
            t = n['a'][0].get('t') if n.get('a') else None
            t = t.strip_ref() if t is not None else None
            b = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
            if b == D or 'ObjectMaker' in b:
                v = freeze(st, a[1]) if a[0] == 'ref' else whole(a)
                thaw(st, loc, v)
                return I.ok(st, None)
            I.store(st, loc, scalar(st, a, t))
            return I.ok(st, None)
        H['ctor:' + D] = dctor
        H['dtor:' + D] = lambda I_, st, fr, loc, t: I.ok(st, VOID)

        def dassign(I_, st, fr, n, loc, av):
            a = av[0]
            thaw(st, loc, freeze(st, a[1]) if a[0] == 'ref' else whole(a))
            return I.ok(st, ('ref', loc))
        H[D + '::operator='] = dassign
        def dobject(I_, st, fr, n, loc, av):
            es = ()
            if n['n'] == 'operator()' and loc is not None:
                v = freeze(st, loc)
                if v is None or v[:2] != ('app', 'dfrz'):
                    return None
                es = v[2]
            if len(av) == 2:
                t = n['a'][-1].get('t')
                t = t.strip_ref() if t is not None else None
                b = strip_targs(t.base) if t is not None and t.k == 'rec' else ''
                w = freeze(st, av[1][1]) if b == D and av[1][0] == 'ref' else whole(av[1]) if b == D else scalar(st, av[1], t)
                es = tuple(e for e in es if e[0] != text(st, av[0])) + ((text(st, av[0]), w),)
            if n['n'] == 'operator()' and loc is not None:
                I.store(st, loc, ('app', 'dfrz', es))
                return I.ok(st, ('ref', loc))
            return I.ok(st, ('app', 'dfrz', es))
        H[D + '::object'] = dobject
        H[D + '::ObjectMaker::operator()'] = dobject
        H[D + '::array'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('app', 'darr', ()))

        def text(st, a):
            v = whole(I.argval(st, a)) if a[0] == 'ref' else a
            if v is not None and v[0] == 'lit':
                v = ('str', v[1])
            if v is not None and v[0] == 'ptr' and v[1][0][0] == 'lit':
                v = ('str', v[1][0][1])
            if a[0] == 'ref' and a[1][0][0] == 'lit':
                v = ('str', a[1][0][1])
            if v is None or v[0] != 'str':
                raise Unsupported('the name of an entry')
            return v[1]

        def index(I_, st, fr, n, loc, av):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'dobj'):
                return None
            k = text(st, av[0])
            if k not in v[2]:
                if n.get('mconst') or n['n'] == 'at':
                    I.bad.append(k)
                    return boom(st)
                I.store(st, loc + KEYS, ('app', 'keys', v[2] + (k,)))
                I.store(st, loc + (('.', 'k:' + k),), ('app', 'dval', 'null', N0))
            return I.ok(st, ('ref', loc + (('.', 'k:' + k),)))
        H[D + '::operator[]'] = H[D + '::at'] = index

        def count(I_, st, fr, n, loc, av):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'dobj'):
                return None
            return I.ok(st, num(int(text(st, av[0]) in v[2])))
        H[D + '::count'] = count

        def gptr(I_, st, fr, n, loc, av):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'dobj'):
                return None
            k = text(st, av[0])
            return I.ok(st, ('ptr', loc + (('.', 'k:' + k),)) if k in v[2] else N0)
        H[D + '::get_ptr'] = gptr

        def gdef(I_, st, fr, n, loc, av):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'dobj'):
                return None
            k = text(st, av[0])
            if k in v[2]:
                return I.ok(st, freeze(st, loc + (('.', 'k:' + k),)))
            return I.ok(st, freeze(st, av[1][1]) if av[1][0] == 'ref' and val(st, av[1][1]) is not None and val(st, av[1][1])[0] == 'app' else ('app', 'dval', 'text', N0))
        H[D + '::getDefault'] = gdef

        def push(I_, st, fr, n, loc, av):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'darr'):
                return None
            w = freeze(st, av[0][1]) if av[0][0] == 'ref' else whole(av[0])
            I.store(st, loc, ('app', 'darr', v[2] + (w,)))
            return I.ok(st, VOID)
        H[D + '::push_back'] = push
        base_elems = I.range_elems

        def elems(I_, st, loc, t):
            v = val(st, loc)
            if v is None or v[:2] != ('app', 'darr'):
                return base_elems(I_, st, loc, t) if base_elems else None
            r = []
            for i, w in enumerate(v[2]):
                l = (('g', 'shown%d' % i),)
                thaw(st, l, w)
                r.append(l)
            return r
        I.range_elems = elems

        def is_(kinds):
            def f(I_, st, fr, n, loc, av):
                k = kof(val(st, loc))
                return None if k is None else I.ok(st, num(int(k in kinds)))
            return f
        H[D + '::isNull'] = is_(('null',))
        H[D + '::isString'] = is_(('text',))
        H[D + '::isArray'] = H[D + '::isObject'] = is_(())

        def as_(kinds):
            def f(I_, st, fr, n, loc, av):
                k = kof(val(st, loc))
                if k is None:
                    return None
                if k not in kinds:
                    I.bad.append('null')
                    return boom(st)
                return I.ok(st, I.fresh('text', None))
            return f
        H[D + '::asString'] = H[D + '::asBool'] = as_(('text', 'scalar'))
        H[D + '::getString'] = as_(('text',))

        # gflags
        def fill(st, l):
            for nm in INFO:
                I.store(st, l + (('.', nm),), ('str', ftype) if nm == 'type' else ('app', 'of', nm))

        def info(I_, st, fr, n, loc, av):
            if ftype is None:
                return I.ok(st, N0)
            if av[1][0] != 'ptr':
                raise Unsupported('where the setting goes')
            fill(st, av[1][1])
            return I.ok(st, N1)

        def allf(I_, st, fr, n, loc, av):
            l = av[0][1]
            I.store(st, l, ('conc', 'vec', 1))
            fill(st, l + (('[', N0),))
            return I.ok(st, VOID)
        for q_ in ('google::', 'gflags::'):
            H[q_ + 'GetCommandLineFlagInfo'], H[q_ + 'GetAllFlags'] = info, allf
            H['ctor:' + q_ + 'CommandLineFlagInfo'] = lambda I_, st, fr, n, loc, av: I.ok(st, None)

        def to(I_, st, fr, n, loc, av):
            v = whole(I.argval(st, av[-1]))
            return I.ok(st, v if v is not None else I.fresh('to', None))
        H['folly::to'] = to

        def js(I_, st, fr, n, loc, av):
            return I.ok(st, I.fresh('text', None))
        H['folly::toPrettyJson'] = H['folly::toJson'] = js
        H['proxygen::ResponseBuilder::status'] = H['proxygen::ResponseBuilder::body'] = H['proxygen::ResponseBuilder::header'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('ref', loc))
        H['ctor:proxygen::ResponseBuilder'] = lambda I_, st, fr, n, loc, av: I.ok(st, None)
        H['proxygen::ResponseBuilder::sendWithEOM'] = lambda I_, st, fr, n, loc, av: I.ok(st, VOID)
        # what was recorded of the setting, seen where the list is complete
        I.seen = []

        def left(I_, st, fr, n, loc, av):
            return None
        st = State()
        for f in gf:
            l = SELF + (('.', f['id']),)
            t = f['t']
            if t.k == 'enum':
                I.store(st, l, N0)
            elif t.k == 'bool':
                I.store(st, l, num(flags[f['id']]))
            elif f is vecs[0]:
                I.store(st, l, ('conc', 'vec', int(not listed)))
                I.store(st, l + (('[', N0),), ('app', 'of', 'name'))
        push0 = H[D + '::push_back']

        def push1(I_, st, fr, n, loc, av):
            w = freeze(st, av[0][1]) if av[0][0] == 'ref' else None
            if w is not None and w[:2] == ('app', 'dfrz'):
                I.seen.append(dict(w[2]))
            return push0(I_, st, fr, n, loc, av)
        H[D + '::push_back'] = push1
        return I, I.analyse(eom, this=SELF, av=[], state=st)

    import itertools as it
    for ftype in TYPES + (None,):
        for listed in (0, 1):  # by name, or all
            if listed and ftype is None:
                continue
            for bs in it.product((0, 1), repeat=len(bools)):
                I, outs = show(ftype, {f['id']: b for f, b in zip(bools, bs)}, listed)
                what = '%s%s' % ('a setting of type %s' % ftype if ftype else 'a setting that does not exist', ' (all settings)' if listed else '')
                opts = ', '.join('%s%s' % ('' if b else 'not ', f['n']) for f, b in zip(bools, bs))
                ok = bool(outs) and all(k == 'v' for s, k, v in outs)
                c.ob('shown', '%s; %s' % (what, opts), ok, 'showing %s (%s) %s' % (what, opts, 'reads %s, which is not there, and ends the process' % ('the entry %s' % I.bad[0] if I.bad and I.bad[0] != 'null' else 'a value') if I.bad else 'ends the process'), eom.where())
                c.ob('shown', '%s; %s: once' % (what, opts), len(I.seen) == 1, '%s (%s) is shown %d times' % (what, opts, len(I.seen)), eom.where())
                for d in I.seen:
                    for k, v in sorted(d.items()):
                        if v is None or v[:2] != ('app', 'dval'):
                            raise Unsupported('what is recorded of a setting')
                        if k not in OF or v[2] == 'null' or ftype is None:
                            continue
                        w = v[3]
                        good = w == ('app', 'of', OF[k]) or k == 'type' and w == ('str', ftype)
                        c.ob('shown', '%s; %s: %s' % (what, opts, k), good, 'the entry %s of %s (%s) is taken from %s' % (k, what, opts, w[2] if w[:2] == ('app', 'of') else 'elsewhere'), eom.where())
                    c.ob('shown', '%s; %s: entries' % (what, opts), 'name' in d and 'value' in d and (ftype is None or ' ' in ftype or d['value'][2] != 'null'), 'name or value of %s (%s) is not shown' % (what, opts), eom.where())
    c.need('shown', 60)

    # ---- the router
    Q = 'nebula::web::Router'
    disp = one([f for f in P.methods_of[Q] if f.n == 'dispatch' and f.body], 'dispatch of the router')
    rf = fields(P, Q)
    RT = 'nebula::web::Route'
    hd = one([f for f in rf if f['n'] == 'head_'], 'the first route')
    nx = one([f for f in fields(P, RT) if f['t'].k == 'ptr'], 'the next route')
    for method in ('GET', 'unknown'):
        for nroutes in (0, 1, 2):
            I = mk()
            I.method = method
            I.opaque_pred = lambda fn: 'common/webservice/Router' not in fn.file or fn.n in ('matches', 'generateHandler')
            st = State()
            locs = [(('g', 'route%d' % i),) for i in range(nroutes)]
            p = lambda i: ('ptr', locs[i]) if i < nroutes else N0
            I.store(st, SELF + (('.', hd['id']),), p(0))
            for i in range(nroutes):
                I.store(st, locs[i] + (('.', nx['id']),), p(i + 1))

            def matches(I_, s, fr, n, loc, av):
                i = locs.index(loc) if loc in locs else None
                if i is None:
                    I_.faults.append(('asks a route that is not there', n.get('l', 0)))
                    return [(s, 'abort', VOID)]
                a, b = s.copy(), s.copy()
                a.ghost['m'] = a.ghost.get('m', ()) + ((i, 1),)
                b.ghost['m'] = b.ghost.get('m', ()) + ((i, 0),)
                return [(a, 'v', N1), (b, 'v', N0)]
            I.hooks[RT + '::matches'] = matches
            I.hooks[RT + '::generateHandler'] = lambda I_, s, fr, n, loc, av: I.ok(s, ('ptr', (('g', 'handler'), locs.index(loc)))) if loc in locs else None
            for s, k, v in I.analyse(disp, this=SELF, av=[('ptr', (('g', 'headers'),))], state=st):
                if lin.infeasible(s.cons):
                    continue
                inst = 'Router: %s, %d routes' % (method, nroutes)
                req = 'a request of an unknown method' if method == 'unknown' else 'a request'
                c.ob('ends', inst, k == 'v' and not I.faults, 'Router: %s %s' % (req, I.faults[0][0] if I.faults else 'ends the process: an exception leaves a noexcept function'), disp.where())
                if k != 'v':
                    continue
                hit = [i for i, b in s.ghost.get('m', ()) if b]
                got = v[1][1] if v is not None and v[0] == 'ptr' and v[1][0] == ('g', 'handler') else None
                if hit:
                    c.ob('route', inst, got == hit[0] and all(not b for i, b in s.ghost['m'][:-1]), 'Router: %s is not given to the first route that matches it' % req, disp.where())
                else:
                    asked = [i for i, b in s.ghost.get('m', ())]
                    c.ob('route', inst, got is None and v is not None and v[0] == 'ptr' and (method == 'unknown' or asked == list(range(nroutes))), 'Router: %s that no route matches is not given to the handler of unknown paths' % req, disp.where())
    c.need('route', 5)
    # ---- which paths a route takes
    reg = one([f for f in P.methods_of[Q] if f.n == 'route' and f.body], 'registration of a route')
    PRE = [f['id'] for f in rf if f['t'].k == 'rec' and strip_targs(f['t'].base) == 'std::basic_string']
    SVC = [f['id'] for f in rf if f['t'].k == 'ptr' and f['id'] not in (hd['id'],) and 'Route' not in repr(f['t'])]
    TAIL = [f['id'] for f in rf if f['t'].k == 'ptr' and f['id'] != hd['id'] and f['id'] not in SVC]
    if len(PRE) != 1:
        raise Broken('the prefix of a router')
    PATHS = ('', '/', '/a', '/a/', '/a/b', '/b')
    norm = lambda x: '/' if not x else x[:-1] if len(x) > 1 and x[-1] == '/' else x

    def router():
        I = c.interp(P, unroll=12)
        C = Conc(I)
        H = I.hooks
        I.opaque_pred = lambda fn: 'common/webservice/Router' not in fn.file or fn.n == 'generateHandler'
        I.faults = []

        def text(st, a):
            v = whole(I.argval(st, a))
            if v is not None and v[0] == 'ptr' and v[1][0][0] == 'lit':
                v = ('str', v[1][0][1])
            if v is not None and v[0] == 'n':
                v = ('str', chr(v[1] & 255))
            if v is None or v[0] != 'str':
                raise Unsupported('a path that is not known')
            return v[1]
        H['std::operator+'] = lambda I_, st, fr, n, loc, av: I.ok(st, ('str', ''.join(text(st, a) for a in ([('ref', loc)] if loc is not None else []) + list(av))))

        def more(I_, st, fr, n, loc, av):
            I.store(st, loc, ('str', text(st, ('ref', loc)) + text(st, av[0])))
            return I.ok(st, ('ref', loc))
        H['std::basic_string::operator+='] = H['std::basic_string::append'] = H['std::basic_string::push_back'] = more

        def assign(I_, st, fr, n, loc, av):
            I.store(st, loc, ('str', text(st, av[0])))
            return I.ok(st, ('ref', loc))
        H['std::basic_string::operator='] = H['std::basic_string::assign'] = assign

        def pop(I_, st, fr, n, loc, av):
            x = text(st, ('ref', loc))
            if not x:
                I.faults.append('takes the last letter of an empty path')
            I.store(st, loc, ('str', x[:-1]))
            return I.ok(st, VOID)
        H['std::basic_string::pop_back'] = pop

        def resize(I_, st, fr, n, loc, av):
            k = I.argval(st, av[0])
            x = text(st, ('ref', loc))
            if k[0] != 'n' or not 0 <= k[1] <= len(x):
                raise Unsupported('the length of a path')
            I.store(st, loc, ('str', x[:k[1]]))
            return I.ok(st, VOID)
        H['std::basic_string::resize'] = resize
        H['ctor:std::basic_string'] = lambda I_, st, fr, n, loc, av: (I.store(st, loc, ('str', text(st, av[0]) if av else '')), I.ok(st, None))[1] if len(av) <= 1 else None
        return I

    def give(I, st, x):
        l = (('g', 'text:' + x),)
        I.store(st, l, ('str', x))
        return ('ref', l)
    sample = [[('GET', x)] for x in PATHS] + [[('GET', '/a'), ('PUT', '/a/'), ('GET', '/')], [('PUT', '/b'), ('GET', '/a/'), ('GET', '/a')], [('GET', ''), ('GET', '/b'), ('PUT', '')]]
    for prefix in ('', 's'):
        for routes in sample:
            base = State()
            I = router()
            I.store(base, SELF + (('.', hd['id']),), N0)
            for f in TAIL + SVC:
                I.store(base, SELF + (('.', f),), N0)
            I.store(base, SELF + (('.', PRE[0]),), ('str', prefix))
            what = 'routes %s%s' % (', '.join('%s "%s"' % r for r in routes), ' under "%s"' % prefix if prefix else '')
            locs, dead = [], False
            for m, x in routes:
                outs = [o for o in I.analyse(reg, this=SELF, av=[num(METHODS[m]), give(I, base, x)], state=base) if not lin.infeasible(o[0].cons)]
                if len(outs) != 1 or outs[0][1] != 'v' or outs[0][2] is None or outs[0][2][0] != 'ref':
                    dead = True
                    break
                base = outs[0][0]
                locs.append(outs[0][2][1])
            c.ob('path', what + ': registered', not dead and not I.faults, 'registering %s %s' % (what, I.faults[0] if I.faults else 'fails'), reg.where())
            if dead:
                continue
            for m in ('GET', 'PUT'):
                for x in [p_ for q_ in (PATHS, ('/s', '/s/', '/s/a', '/s/a/', '/s/b')) for p_ in q_]:
                    J_ = router()
                    J_.hooks['proxygen::HTTPMessage::getMethod'] = lambda I_, st, fr, n, loc, av: I_.ok(st, ('app', 'method', m))
                    J_.hooks['proxygen::HTTPMessage::getPath'] = lambda I_, st, fr, n, loc, av: I_.ok(st, give(I_, st, x))
                    for q_ in ('std::optional::', 'boost::optional::', 'folly::Optional::'):
                        def mv(I_, st, fr, n, loc, av):
                            I_.store(st, (('g', 'method'),), num(METHODS[m]))
                            return I_.ok(st, ('ref', (('g', 'method'),)))
                        J_.hooks[q_ + 'value'] = J_.hooks[q_ + 'operator*'] = J_.hooks[q_ + 'get'] = mv
                        for h_ in ('has_value', 'operator bool', 'is_initialized', 'hasValue'):
                            J_.hooks[q_ + h_] = lambda I_, st, fr, n, loc, av: I_.ok(st, N1)
                    J_.hooks[RT + '::generateHandler'] = lambda I_, st, fr, n, loc, av: I_.ok(st, ('ptr', (('g', 'handler'), locs.index(loc)))) if loc in locs else None
                    want = next((i for i, (rm, rx) in enumerate(routes) if rm == m and norm(('/' + prefix if prefix else '') + (rx or '/')) == norm(x)), None)
                    outs = [o for o in J_.analyse(disp, this=SELF, av=[('ptr', (('g', 'headers'),))], state=base.copy()) if not lin.infeasible(o[0].cons)]
                    for s, k, v in outs:
                        got = v[1][1] if k == 'v' and v is not None and v[0] == 'ptr' and v[1][0] == ('g', 'handler') else None
                        c.ob('path', '%s: %s %s' % (what, m, x), k == 'v' and got == want and not J_.faults, 'with %s a %s of "%s" %s' % (what, m, x, J_.faults[0] if J_.faults else 'ends the process' if k != 'v' else 'goes to route %d' % (got + 1) if got is not None else 'goes to the handler of unknown paths') + ('' if k != 'v' else ' instead of route %d' % (want + 1) if want is not None else ' instead of the handler of unknown paths'), disp.where())
    c.need('path', 100)
    c.need('ends', 20)
    c.need('reply', 20)
    c.need('status', 20)
    c.need('release', 20)


main('C25', RULE, body)
