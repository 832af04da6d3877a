import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
from maps import Maps, const_map, const_val

RULE = ('Constant evaluation of the number and text lookups for every enumerated status code against the standard registry (abstract interpretation with the text table as a constant map; '
        'a lookup may not insert), and at every reply of the admin web handlers that the number and the text come from the same code.')
NOTE = 'The registry of HTTP status codes (RFC 9110) is built into the check.'
W = 'nebula::WebServiceUtils::'
STD = {100: 'Continue', 200: 'OK', 201: 'Created', 202: 'Accepted', 204: 'No Content', 206: 'Partial Content', 301: 'Moved Permanently', 302: 'Found', 304: 'Not Modified', 307: 'Temporary Redirect',
       308: 'Permanent Redirect', 400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable', 408: 'Request Timeout',
       409: 'Conflict', 410: 'Gone', 411: 'Length Required', 412: 'Precondition Failed', 413: 'Content Too Large', 415: 'Unsupported Media Type', 422: 'Unprocessable Content', 429: 'Too Many Requests', 500: 'Internal Server Error',
       501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout'}


def norm(s):
    return ''.join(x for x in s.upper() if x.isalnum())


def consts(P):
    r = {}
    for q in list(P.globals):
        t = P.global_type(q)
        if t is not None and t.k == 'rec' and strip_targs(t.base) in ('std::map', 'std::unordered_map'):
            m = const_map(P.global_init(q))
            if m is not None:
                vs = [(k, const_val(v)) for k, v, _ in m]
                if all(v is not None for _, v in vs):
                    r[(('g', q),)] = vs
    return r


def body(c):
    P = c.load(['webservice/*.cpp'], ['webcommon.cpp'])
    en = getattr(P, 'enums', {}).get('nebula::HttpStatusCode')
    if not en:
        raise Broken('enumeration nebula::HttpStatusCode not found')
    tab = consts(P)
    wh = '%s:%d' % (rel(en['file']), en['line'])
    for name, v in en['consts']:
        c.ob('code', name, v in STD and norm(STD[v]) == norm(name), 'status code %s has the number %d, which stands for %s' % (name, v, STD.get(v, 'nothing')), wh)
        fn = c.fn(P, W + 'to', 1, pick=lambda f: 'HttpStatusCode' in f.params[0]['t'].s)
        I = c.interp(P)
        for s, k, r in I.analyse(fn, av=[num(v)]):
            c.ob('number', name, k == 'v' and r == num(v), 'the number sent for %s is %s instead of %d' % (name, show(r) if r else k, v), fn.where())
        fn = c.fn(P, W + 'toString', 1, pick=lambda f: 'HttpStatusCode' in f.params[0]['t'].s)
        I = c.interp(P)
        Maps(I, tab)
        I.hooks['ctor:std::basic_string'] = lambda I, st, fr, n, loc, av: (I.store(st, loc, I.argval(st, av[0]) if av else ('str', '')), I.ok(st, VOID))[1]
        want = ('str', STD.get(v, name))
        for s, k, r in I.analyse(fn, av=[num(v)]):
            r = ret(I, s, r) if k == 'v' else None
            c.ob('text', name, r == want, 'the text sent for %s (%d) is %s instead of "%s"' % (name, v, show(r) if r else k, want[1]), fn.where())
            c.ob('text', name + ' no insertion', not any(e.name in ('map.insert', 'map.erase', 'map.assign') for e in s.trace), 'looking up the text of %s changes the shared table' % name, fn.where())

    # ------------------------------------------------------ replies
    for f in P.funcs.values():
        if f.body is None or '/webservice/' not in f.file or '/test/' in f.file:
            continue
        f.prep()
        for n in walk(f.body):
            if n.get('k') == 'Call' and n.get('n') == 'status' and len(n.get('a', [])) == 2:
                codes = []
                for a in n['a']:
                    cs = [const_val(x['a'][0]) for x in walk(a) if x.get('k') == 'Call' and x.get('q', '').startswith(W) and x.get('a')]
                    codes.append(cs[0] if cs else const_val(a))
                wh = '%s:%d' % (rel(f.file), n['l'])
                if None in codes:
                    continue
                num_, txt = codes
                c.ob('reply', '%s line' % f.q, num_ == txt or (txt[0] == 'str' and num_[0] == 'n' and STD.get(num_[1]) == txt[1]),
                     'a reply carries the number of %s with the text of %s' % (show(num_), show(txt)), wh, key='reply|%s|%s|%s' % (f.q, show(num_), show(txt)))
    c.need('code', 5)
    c.need('text', 10)
    c.need('reply', 5)


main('C32', RULE, body)
