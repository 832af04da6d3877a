"""Names turned into upper or lower case: std::transform over a known text, toupper/tolower, loops over the letters."""
from absint import *


def install(I, whole):
    H = I.hooks
    B = 'std::basic_string::'
    text = lambda st, loc: whole(I.load(st, loc))
    for m, e in (('begin', 0), ('end', 1), ('cbegin', 0), ('cend', 1)):
        H[B + m] = lambda I_, st, fr, n, loc, av, e=e: I.ok(st, ('app', 'charit', ('ptr', loc), e)) if text(st, loc)[0] == 'str' else None
    old = H.get('std::transform')

    def transform(I_, st, fr, n, loc, av):
        a = [I.argval(st, x) for x in av]
        if len(a) == 4 and all(x[:2] == ('app', 'charit') for x in a[:3]):
            f = a[3][1] if a[3][0] in ('fn', 'app') and isinstance(a[3][1], str) else str(a[3])
            if a[0][2] != a[1][2] or a[0][3] or not a[1][3] or a[2][3]:
                raise Unsupported('a transformation of a name')
            x = text(st, a[0][2][1])[1]
            if a[3][0] == 'lam':
                y, s = '', st
                for ch in x:
                    outs = I.call_value(s, fr, n, a[3], (num(ord(ch)),))
                    v = whole(outs[0][2]) if len(outs) == 1 and outs[0][1] == 'v' else None
                    if v is None or v[0] != 'n':
                        raise Unsupported('a transformation of a name')
                    s, y = outs[0][0], y + chr(v[1] & 255)
                I.store(s, a[2][2][1], ('str', y))
                return I.ok(s, ('app', 'charit', a[2][2], 1))
            if not ('toupper' in f or 'tolower' in f):
                raise Unsupported('a transformation of a name')
            I.store(st, a[2][2][1], ('str', x.upper() if 'toupper' in f else x.lower()))
            return I.ok(st, ('app', 'charit', a[2][2], 1))
        return old(I_, st, fr, n, loc, av) if old is not None else None
    H['std::transform'] = transform

    def letter(up):
        def f(I_, st, fr, n, loc, av):
            v = I.argval(st, av[0])
            if v[0] != 'n':
                return None
            ch = chr(v[1] & 255)
            return I.ok(st, num(ord(ch.upper() if up else ch.lower()) if v[1] < 128 else v[1]))
        return f
    for q in ('', 'std::'):
        H[q + 'toupper'], H[q + 'tolower'] = letter(True), letter(False)

    # a loop over the letters: each is a cell of its own, a write puts the text together again
    prev = I.range_elems

    def chars(I_, st, loc, t):
        v = text(st, loc)
        if v is None or v[0] != 'str':
            return prev(I_, st, loc, t) if prev else None
        r = []
        st.ghost.pop('letters', None)
        for i, ch in enumerate(v[1]):
            l = (('g', 'letter%d' % i),)
            I.store(st, l, num(ord(ch)))
            r.append(l)
        st.ghost['letters'] = (loc, len(v[1]))
        return r
    I.range_elems = chars
    before = I.on_write

    def wrote(I_, st, loc, *a):
        g = st.ghost.get('letters')
        if g and len(loc) == 1 and loc[0][0] == 'g' and str(loc[0][1]).startswith('letter'):
            vs = [whole(st.mem.get((('g', 'letter%d' % i),))) for i in range(g[1])]
            i = int(loc[0][1][6:])
            if a and isinstance(a[0], tuple):
                vs[i] = whole(a[0])
            if any(x is None or x[0] != 'n' for x in vs):
                raise Unsupported('a letter of a name')
            st.mem[g[0]] = ('str', ''.join(chr(x[1] & 255) for x in vs))
        return before(I_, st, loc, *a) if before else None
    I.on_write = wrote
