"""Linear-inequality facts over opaque integer atoms (a relational numeric
domain with Fourier-Motzkin elimination as its entailment test).

A linear form is (const, ((atom, coef), ...)) with integer coefficients and
atoms sorted by repr.  A constraint is a linear form read as `form <= 0`."""
from math import gcd

ZERO = (0, ())


def lconst(c):
    return (c, ())


def latom(a, k=1):
    return (0, ((a, k),))


def _mk(c, d):
    return (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=_key)))


_rk = {}


def _key(x):
    a = x[0]
    r = _rk.get(a)
    if r is None:
        r = _rk[a] = repr(a)
    return r


def add(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for at, c in b[1]:
        d[at] = d.get(at, 0) + k * c
    return _mk(a[0] + k * b[0], d)


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((x, c * k) for x, c in a[1]))


def norm(f):
    """tighten integer constraint f<=0 by the gcd of its coefficients"""
    if not f[1]:
        return f
    g = 0
    for _, c in f[1]:
        g = gcd(g, abs(c))
    if g <= 1:
        return f
    # sum + const <= 0  ->  sum/g <= floor(-const/g)
    return (-((-f[0]) // g), tuple((a, c // g) for a, c in f[1]))


def infeasible(cons, limit=600):
    """True if the conjunction of `form <= 0` has no integer solution (sound:
    may answer False when it does not know)."""
    cs = set()
    for f in cons:
        f = norm(f)
        if not f[1]:
            if f[0] > 0:
                return True
            continue
        cs.add(f)
    # equalities with a unit coefficient are substituted away
    progress = True
    while progress and cs:
        progress = False
        for f in cs:
            if any(c in (1, -1) for _, c in f[1]) and (-f[0], tuple((x, -c) for x, c in f[1])) in cs:
                a, ca = next((x, c) for x, c in f[1] if c in (1, -1))
                new = set()
                for g in cs:
                    cg = 0
                    for x, c in g[1]:
                        if x == a:
                            cg = c
                            break
                    if cg:
                        g = norm(add(g, f, -cg * ca))
                        if not g[1]:
                            if g[0] > 0:
                                return True
                            continue
                    new.add(g)
                cs = new
                progress = True
                break
    best = {}
    for f in cs:
        o = best.get(f[1])
        if o is None or f[0] > o:
            best[f[1]] = f[0]
    cs = {(c, l) for l, c in best.items()}
    while cs:
        # pick the variable with the fewest products
        occ = {}
        for f in cs:
            for a, c in f[1]:
                p = occ.setdefault(a, [0, 0])
                p[0 if c > 0 else 1] += 1
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1], _key((x, 0))))
        pos, neg, rest = [], [], set()
        for f in cs:
            c = dict(f[1]).get(a, 0)
            if c > 0:
                pos.append((c, f))
            elif c < 0:
                neg.append((-c, f))
            else:
                rest.add(f)
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for cp, fp in pos:
            for cn, fn in neg:
                g = gcd(cp, cn)
                n = norm(add(scale(fp, cn // g), scale(fn, cp // g)))
                if not n[1]:
                    if n[0] > 0:
                        return True
                else:
                    rest.add(n)
        # drop constraints dominated by another with the same left-hand side
        best = {}
        for f in rest:
            o = best.get(f[1])
            if o is None or f[0] > o:
                best[f[1]] = f[0]
        cs = {(c, l) for l, c in best.items()}
    return False


def relevant(cons, seeds):
    """constraints connected (through shared atoms) to the seed atoms"""
    seeds = set(seeds)
    out = []
    rest = list(cons)
    changed = True
    while changed:
        changed = False
        keep = []
        for f in rest:
            at = [a for a, _ in f[1]]
            if any(a in seeds for a in at):
                out.append(f)
                n = len(seeds)
                seeds.update(at)
                if len(seeds) != n:
                    changed = True
                else:
                    changed = changed or False
            else:
                keep.append(f)
        if len(keep) != len(rest):
            changed = True
        rest = keep
    return out, seeds
