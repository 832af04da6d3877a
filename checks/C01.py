import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *

RULE = ('Lifetime typestate over every operation of the two-alternative containers, instantiated with element types whose every construction and destruction is a visible event: each operation is followed '
        'on every path from every consistent state of the container, of the other container it is given (itself included) and with an element argument that lies inside the value being replaced. '
        'An alternative is created only where nothing is alive, from a source that is alive and has not been moved from; destroyed only while alive; and afterwards the tag names the alternative that is alive, '
        'holding the value of its source. Asking for the other alternative ends in a check failure. Constructors that may throw are followed throwing where the operation is not noexcept.')
W = 'witness::'
ELEMS = ['A', 'B', 'L', 'R', 'FromA', 'FromB', 'Both']


class Life:
    """ghost: st.ghost['alive'] = {loc: (class, value)}"""

    def __init__(self, c, P, slots_of):
        self.c = c
        self.P = P
        self.bad = []
        self.scalars = set()
        self.may_throw = False
        I = self.I = c.interp(P)
        for e in [W + x for x in ELEMS] + ['nebula::Status']:
            I.hooks['ctor:' + e] = self.ctor
            I.hooks['dtor:' + e] = self.dtor
            if e != 'nebula::Status':
                I.hooks[e + '::~' + e.rsplit('::')[-1]] = self.explicit_dtor
        I.hooks['nebula::Status::~Status'] = self.explicit_dtor
        I.hooks['nebula::Status::operator='] = self.assign
        for e in ELEMS:
            I.hooks[W + e + '::operator='] = self.assign
        I.on_write = self.write
        I.on_read = self.read

    def al(self, st):
        return st.ghost.get('alive', {})

    def put(self, st, loc, v):
        d = dict(self.al(st))
        if v is None:
            d.pop(loc, None)
        else:
            d[loc] = v
        st.ghost['alive'] = d

    def err(self, what, n=None, fr=None):
        self.bad.append((what, '%s:%d' % (rel(fr.fn.file), (n or {}).get('l') or self.I.line) if fr is not None else ''))

    def part(self, st, loc):
        """(tracked object the location is or lies in)"""
        for i in range(len(loc), 0, -1):
            if loc[:i] in self.al(st):
                return loc[:i]
        return None

    def is_slot(self, loc):
        return any(loc[:len(s)] == s for s in self.slots)

    def slot_of(self, loc):
        for s in self.slots:
            if loc[:len(s)] == s:
                return s
        return None

    def overlap(self, st, loc):
        s = self.slot_of(loc)
        if s is None:
            return [loc] if loc in self.al(st) else []
        return [x for x in self.slots if x[:-1] == s[:-1] and x in self.al(st) and x not in self.scalars]

    def source(self, st, a, n, fr, move):
        """value of a constructor argument"""
        if a[0] == 'objref':
            a, move = ('ref', a[1]), True
        if a[0] != 'ref':
            return a
        loc = a[1]
        t = self.part(st, loc)
        if t is None:
            if self.is_slot(loc):
                self.err('reads %s, which is not alive there' % self.name(loc), n, fr)
                return ('app', 'dead')
            return self.I.load(st, loc)
        cls, v = self.al(st)[t]
        if v == 'moved':
            self.err('uses the value of %s after it has been moved away' % self.name(loc), n, fr)
        if move:
            self.put(st, t, (cls, 'moved'))
        return v if t == loc else ('app', 'part', v if isinstance(v, tuple) else ('str', str(v)))

    def name(self, loc):
        return showloc(loc)

    def ctor(self, I, st, fr, n, loc, av):
        cls = strip_targs(n['t'].base) if n.get('t') is not None and n['t'].k == 'rec' else strip_targs(n['q']).rsplit('::', 1)[0]
        pts = n.get('pt') or []
        vals = []
        over = self.overlap(st, loc)
        for o in over:
            self.err('creates an alternative in storage where %s is still alive' % self.name(o), n, fr)
        on, self.I.on_write = self.I.on_write, None
        I.store(st, loc, ('objref', loc))
        self.I.on_write = on
        copy = not av
        for i, a in enumerate(av):
            t = pts[i] if i < len(pts) else None
            move = t is not None and t.k == 'rref'
            copy = copy or not move
            vals.append(self.source(st, a, n, fr, move))
        if self.may_throw and copy:
            s2 = st.copy()
            self.put(st, loc, (cls, tuple(vals)))
            return [(st, 'v', VOID), (s2, 'throw', ('exc', 'from:' + cls))]
        self.put(st, loc, (cls, tuple(vals)))
        return I.ok(st, VOID)

    def destroy(self, st, fr, n, loc):
        if loc not in self.al(st):
            self.err('destroys %s, which is not alive' % self.name(loc), n, fr)
        self.put(st, loc, None)
        return self.I.ok(st, VOID)

    def dtor(self, I, st, fr, loc, t):
        return self.destroy(st, fr, None, loc)

    def explicit_dtor(self, I, st, fr, n, loc, av):
        return self.destroy(st, fr, n, loc)

    def assign(self, I, st, fr, n, loc, av):
        """element assignment: both sides alive, the target takes the value"""
        if loc not in self.al(st):
            self.err('assigns to %s, which is not alive' % self.name(loc), n, fr)
        t = (n.get('pt') or [None])[0]
        v = self.source(st, av[0], n, fr, t is not None and t.k == 'rref')
        cls = self.al(st).get(loc, (W + '?', None))[0]
        self.put(st, loc, (cls, (v,)))
        return I.ok(st, ('ref', loc))

    def read(self, I, st, loc, node):
        s = self.slot_of(loc)
        if s is not None and self.part(st, loc) is None:
            self.bad.append(('reads %s, which is not alive there' % self.name(loc), ''))

    def write(self, I, st, loc, v, node):
        if isinstance(v, tuple) and v and v[0] == 'objref' and v[1] != loc:
            # the object a call returns becomes the variable it initialises
            al = self.al(st)
            if v[1] in al:
                for o in self.overlap(st, loc):
                    self.bad.append(('creates an alternative in storage where %s is still alive' % self.name(o), ''))
                e = al[v[1]]
                self.put(st, v[1], None)
                self.put(st, loc, e)
            return
        # a scalar alternative comes alive by being written
        s = self.slot_of(loc)
        if s is not None and s == loc:
            over = [o for o in self.overlap(st, loc) if o != loc]
            for o in over:
                self.bad.append(('creates an alternative in storage where %s is still alive' % self.name(o), ''))
            self.put(st, loc, ('scalar', v))


def root(v):
    """the original value a chain of copies stems from"""
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v


class Box:
    """one container class: its union, its tag and what each constructor makes of them"""

    def __init__(self, c, P, cls):
        self.P = P
        self.cls = cls
        r = P.recs.get(cls)
        if r is None or not r.known:
            raise Broken('class %s is not instantiated' % cls)
        u = [f for f in r.fields if f['t'].k == 'rec' and P.recs.get(f['t'].rec or f['t'].base) is not None and P.recs[f['t'].rec or f['t'].base].union]
        u = one(u, 'union members of ' + cls)
        self.u = u['id']
        ur = P.recs[u['t'].rec or u['t'].base]
        self.alts = {}
        for f in ur.fields:
            self.alts[f['id']] = f['t']
        if len(self.alts) != 2:
            raise Broken('%s: %d alternatives' % (cls, len(self.alts)))
        t = [f for f in r.fields if f['t'].k in ('int', 'enum') or (f['t'].k not in ('rec',) and f['t'].w)]
        self.tag = one([f['id'] for f in t], 'tags of ' + cls)

    def slot(self, loc, alt):
        return loc + (('.', self.u), ('.', alt))

    def tagloc(self, loc):
        return loc + (('.', self.tag),)

    def alt_of(self, tname):
        r = [a for a, t in self.alts.items() if tbase(t) == tname]
        return r[0] if len(r) == 1 else None


def tbase(t):
    t = t.strip_ref() if t.k in ('ref', 'rref') else t
    return strip_targs(t.base) if t.k == 'rec' else t.s.replace('const ', '')


def body(c):
    P = c.load([], witness=['either.cpp'])
    boxes = {}
    for cls in list(P.recs):
        if P.recs[cls].known and strip_targs(cls) in ('nebula::EitherOr', 'nebula::StatusOr') and '::Variant' not in cls and '::TypeConverter' not in cls and '::is_status_or' not in cls and cls.endswith('>'):
            boxes[cls] = Box(c, P, cls)
    if len(boxes) < 5:
        raise Broken('only %d container instantiations' % len(boxes))

    byc = {}
    for f in P.funcs.values():
        if f.cls in boxes and (f.body is not None or f.inits or f.ctor) and not f.d.get('implicit'):
            byc.setdefault(f.cls, []).append(f)

    def world(f):
        L = Life(c, P, None)
        L.slots = []
        for loc in (THIS, (('arg', 'rhs'),)):
            pass
        return L

    TAGS = {}       # cls -> {None|alt: tag}

    def objval(tag):
        return ('str', tag)

    def pname(p, used):
        nm = p['n'] or str(p['d'])
        while nm in used:
            nm += "'"
        used.add(nm)
        return nm

    def state_of(L, st, box, loc):
        """(alternatives alive, tag value)"""
        alive = [a for a in box.alts if box.slot(loc, a) in L.al(st) and L.al(st)[box.slot(loc, a)] is not None]
        return alive, L.I.load(st, box.tagloc(loc))

    def setup_box(L, st, box, loc, alt, who):
        for a in box.alts:
            L.slots.append(box.slot(loc, a))
            if box.alts[a].k != 'rec':
                L.scalars.add(box.slot(loc, a))
        L.I.store(st, box.tagloc(loc), TAGS[box.cls][alt])
        if alt is not None:
            sl = box.slot(loc, alt)
            t = box.alts[alt]
            v = objval(who + '.' + tbase(t))
            if t.k != 'rec':
                L.I.store(st, sl, v)
            L.put(st, sl, (tbase(t), v))

    def value(L, st, loc):
        e = L.al(st).get(loc)
        return root(e[1]) if e is not None else None

    def run(f, box, this_alt, params, alias=None, fresh=False):
        """params: list of ('box', Box, alt) | ('self',) | ('elem', value) | ('inside', alt, part) | ('other', v)
        -> (Life, outcomes, locs)"""
        L = Life(c, P, None)
        L.slots = []
        I = L.I
        L.may_throw = not f.d.get('noex')
        st = State()
        onw, I.on_write = I.on_write, None
        if fresh:
            for a in box.alts:
                L.slots.append(box.slot(THIS, a))
                if box.alts[a].k != 'rec':
                    L.scalars.add(box.slot(THIS, a))
        else:
            setup_box(L, st, box, THIS, this_alt, 'this')
        av, locs = [], []
        for i, (p, k) in enumerate(zip(f.params, params)):
            t = p['t']
            loc = (('arg', 'a%d' % i),)
            if k[0] == 'box':
                setup_box(L, st, k[1], loc, k[2], 'rhs')
                av.append(('ref', loc))
            elif k[0] == 'self':
                loc = THIS
                av.append(('ref', THIS))
            elif k[0] == 'elem':
                L.put(st, loc, (tbase(t), k[1]))
                if tbase(t) not in [W + e for e in ELEMS] + ['nebula::Status']:
                    I.store(st, loc, k[1])
                av.append(('ref', loc) if t.k in ('ref', 'rref') else k[1])
            elif k[0] == 'inside':
                loc = box.slot(THIS, k[1]) + ((('.', 'part'),) if k[2] else ())
                av.append(('ref', loc))
            else:
                av.append(('ref', loc) if t.k in ('ref', 'rref') else k[1])
                if t.k in ('ref', 'rref'):
                    I.store(st, loc, k[1])
            locs.append(loc)
        I.on_write = onw
        L.start = dict(L.al(st))
        outs = I.analyse(f, this=THIS, av=av, state=st)
        return L, [o for o in outs if not lin.infeasible(o[0].cons)], locs

    def describe(f, this_alt, params):
        ps = []
        for k in params:
            if k[0] == 'box':
                ps.append('a container holding %s' % (k[2] or 'nothing'))
            elif k[0] == 'self':
                ps.append('itself')
            elif k[0] == 'inside':
                ps.append('%sits own %s' % ('a part of ' if k[2] else '', k[1]))
        sig = ', '.join(p['t'].s.replace('witness::', '').replace('nebula::', '') for p in f.params)
        return '%s::%s(%s)%s%s' % (f.cls.replace('witness::', '').replace('nebula::', ''), f.n, sig, '' if this_alt == '' else ' when holding %s' % (this_alt or 'nothing'), (' given ' + ' and '.join(ps)) if ps else '')

    def report(rule, f, inst, L, more=()):
        bad = list(dict.fromkeys([b[0] for b in L.bad] + list(more)))
        c.ob(rule, inst, not bad, '%s: %s' % (inst, '; '.join(bad[:3])), '%s:%d' % (rel(f.file), f.line), key='%s|%s' % (rule, inst.replace("'", '')))

    # tags, from what the plain constructors store
    for cls, box in boxes.items():
        TAGS[cls] = {}
        for f in byc.get(cls, []):
            if not f.ctor:
                continue
            if not f.params:
                alt, params = None, []
            elif len(f.params) == 1 and box.alt_of(tbase(f.params[0]['t'])) is not None:
                alt = box.alt_of(tbase(f.params[0]['t']))
                params = [('elem', objval('in'))]
            elif len(f.params) == 2 and box.alt_of(tbase(f.params[0]['t'])) is not None and f.params[1]['t'].s == 'void *':
                alt = box.alt_of(tbase(f.params[0]['t']))
                params = [('elem', objval('in')), ('other', N0)]
            elif len(f.params) == 2 and 'std::integral_constant<bool' in f.params[0]['t'].s:
                alt = list(box.alts)[0 if 'true' in f.params[0]['t'].s else 1]
                params = [('other', N0), ('elem', objval('in'))]
            else:
                continue
            L, outs, _ = run(f, box, None, params, fresh=True)
            for st, k, v in outs:
                if k not in ('v', 'ret'):
                    continue
                g = L.I.load(st, box.tagloc(THIS))
                if g[0] != 'n':
                    raise Broken('%s: tag %s is not a constant' % (cls, show(g)))
                TAGS[cls].setdefault(alt, g)
    # a class whose only instantiation is as a source has the tags of its template
    for cls, box in boxes.items():
        ref = [b for b in boxes if strip_targs(b) == strip_targs(cls) and len(TAGS[b]) == 3]
        if not ref:
            raise Broken('no tags for %s' % cls)
        if len(TAGS[cls]) < 3:
            a = list(boxes[ref[0]].alts)
            m = dict(zip(a, box.alts))
            TAGS[cls] = {(m[k] if k else None): v for k, v in TAGS[ref[0]].items()}
        vals = list(TAGS[cls].values())
        c.ob('distinct-tags', cls, len(set(vals)) == 3, '%s uses one tag for two states: %s' % (cls, [show(v) for v in vals]))

    def final(L, st, box, loc, alt, want, what):
        """problems with the state a container is left in"""
        bad = []
        alive, tag = state_of(L, st, box, loc)
        name = lambda g: next((a or 'nothing' for a, x in TAGS[box.cls].items() if x == g), 'an unknown state (%s)' % show(g))
        said = name(tag)
        have = alive[0] if len(alive) == 1 else ('nothing' if not alive else 'two alternatives')
        scal = alt is not None and box.alts[alt].k != 'rec'
        for a in alive:
            # scalars have no destructor: a dead one may linger
            if box.alts[a].k != 'rec' and a != alt:
                alive = [x for x in alive if x != a]
                have = alive[0] if alive else 'nothing'
        if said != (alt or 'nothing'):
            bad.append('%s reports %s instead of %s' % (what, said, alt or 'nothing'))
        if have != (alt or 'nothing'):
            bad.append('%s has %s alive instead of %s' % (what, have, alt or 'nothing'))
        elif alt is not None and want is not None:
            got = value(L, st, box.slot(loc, alt)) if not scal else root(L.I.load(st, box.slot(loc, alt)))
            if got != want:
                bad.append('%s holds %s instead of %s' % (what, showv(got), showv(want)))
        return bad

    def showv(v):
        return show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else str(v)

    def leaks(L, st, box, mine):
        """objects alive at the end that were not alive at the start, outside the containers"""
        bad = []
        for loc in L.al(st):
            if loc in L.start or any(loc[:len(m)] == m for m in mine) or L.al(st)[loc][0] == 'scalar':
                continue
            bad.append('%s is never destroyed' % showloc(loc))
        return bad

    def check_outcomes(rule, f, inst, L, outs, expect, abort=False, mine=(THIS,)):
        """expect(st, v) -> problems, for every normal outcome"""
        more = []
        box = boxes[f.cls or f.cls_]
        n = 0
        for st, k, v in outs:
            if k == 'abort':
                if not abort:
                    more.append('stops the process')
                continue
            if k == 'throw':
                if f.d.get('noex'):
                    continue
                if not f.ctor:
                    alive, tag = state_of(L, st, box, THIS)
                    said = next((a for a, x in TAGS[box.cls].items() if x == tag), '?')
                    if ([said] if said else []) != alive:
                        more.append('an exception leaves it reporting %s with %s alive' % (said or 'nothing', alive[0] if alive else 'nothing'))
                else:
                    alive, tag = state_of(L, st, box, THIS)
                    if alive:
                        more.append('a constructor that throws leaves %s alive' % alive[0])
                continue
            n += 1
            if abort:
                more.append('returns instead of failing a check')
                continue
            more += expect(st, v)
            more += leaks(L, st, box, list(mine) + ([v[1]] if v and v[0] == 'objref' else []))
        if not outs:
            more.append('no outcome')
        report(rule, f, inst, L, more)

    for cls, box in boxes.items():
        alts = [None] + list(box.alts)
        for f in byc.get(cls, []):
            ts = [p['t'] for p in f.params]
            bs = [tbase(t) for t in ts]
            pcls = [t.strip_ref().rec if t.k in ('ref', 'rref') and t.strip_ref().k == 'rec' else None for t in ts]
            if f.d.get('acc') in (1, 2):
                continue
            if f.n.startswith('~'):
                for ta in alts:
                    L, outs, _ = run(f, box, ta, [])
                    check_outcomes('destruction', f, describe(f, ta, []), L, outs,
                                   lambda st, v: ['leaves %s alive' % a for a in state_of(L, st, box, THIS)[0] if box.alts[a].k == 'rec'])
                continue
            if f.ctor or f.n == 'operator=':
                if f.ctor:
                    pre = [('', True)]
                else:
                    pre = [(a, False) for a in alts]
                if not ts:
                    cases = [([], None, None)]
                    expect_rhs = None
                elif len(ts) == 1 and pcls[0] in boxes:
                    rb = boxes[pcls[0]]
                    m = dict(zip(rb.alts, box.alts))
                    mv = ts[0].k == 'rref'
                    cases = [([('box', rb, a)], m[a] if a else None, ('box', rb, a, mv)) for a in [None] + list(rb.alts)]
                    if not f.ctor and pcls[0] == cls:
                        cases.append(([('self',)], 'same', None))
                else:
                    cases = []
                    alt = None
                    tagp = [t for t in ts if 'std::integral_constant<bool' in t.s]
                    el = [i for i, b in enumerate(bs) if b.startswith(W) or b == 'nebula::Status']
                    if tagp:
                        alt = list(box.alts)[0 if 'true' in tagp[0].s else 1]
                    elif el:
                        b = bs[el[0]]
                        alt = box.alt_of(b) or box.alt_of({W + 'FromA': W + 'A', W + 'FromB': W + 'B'}.get(b))
                    if alt is None or not el:
                        raise Broken('%s: what does it construct from (%s)?' % (f.q, ', '.join(t.s for t in ts)))
                    base = [('elem', objval('in')) if i in el else ('other', num(7) if t.k not in ('ptr',) else N0) for i, t in enumerate(ts)]
                    cases.append((base, alt, ('elem', el[0], ts[el[0]].k == 'rref')))
                    if not f.ctor:
                        # the argument may lie inside the value being replaced
                        for a in box.alts:
                            if box.alts[a].k == 'rec' and tbase(box.alts[a]) != 'nebula::Status':
                                if tbase(box.alts[a]) == bs[el[0]]:
                                    cases.append(([('inside', a, False)], alt, ('inside', a)))
                                elif bs[el[0]] != 'nebula::Status':
                                    cases.append(([('inside', a, True)], alt, ('inside', a)))
                for ta, fresh in pre:
                    for params, alt, how in cases:
                        if how and how[0] == 'inside' and ta != how[1]:
                            continue
                        L, outs, locs = run(f, box, ta if not fresh else None, params, fresh=fresh)
                        inst = describe(f, ta, params)

                        def expect(st, v):
                            bad = []
                            if alt == 'same':
                                want = objval('this.' + tbase(box.alts[ta])) if ta else None
                                bad += final(L, st, box, THIS, ta, want, 'it')
                            else:
                                want = None
                                if how and how[0] == 'box' and how[2]:
                                    want = objval('rhs.' + tbase(how[1].alts[how[2]]))
                                elif how and how[0] == 'elem':
                                    want = objval('in')
                                elif how and how[0] == 'inside':
                                    want = objval('this.' + tbase(box.alts[how[1]]))
                                    if params[0][2] and box.alts[alt].k != 'rec':
                                        want = ('init', box.slot(THIS, how[1]) + (('.', 'part'),))
                                    elif params[0][2]:
                                        want = ('app', 'part', want)
                                if want is not None and any(k[0] == 'other' and k[1] == num(7) for k in params):
                                    want = None     # made of several arguments
                                bad += final(L, st, box, THIS, alt, want, 'it')
                            if how and how[0] == 'box':
                                if how[3]:
                                    bad += final(L, st, how[1], locs[0], None, None, 'the container it was moved from')
                                else:
                                    bad += final(L, st, how[1], locs[0], how[2], objval('rhs.' + tbase(how[1].alts[how[2]])) if how[2] else None, 'the container it was copied from')
                            if how and how[0] == 'elem':
                                e = L.al(st).get(locs[how[1]])
                                if e is None:
                                    bad.append('destroys its argument')
                                elif not how[2] and root(e[1]) != objval('in'):
                                    bad.append('alters its argument')
                            if not f.ctor and not (v and v[0] == 'ref' and v[1] == THIS):
                                bad.append('does not return the container')
                            return bad
                        check_outcomes('assignment' if not f.ctor else 'construction', f, inst, L, outs, expect, mine=[THIS] + locs)
                continue
            # observers and accessors
            if ts:
                continue        # helpers are followed where they are used
            observer(c, f, box, alts, run, report, check_outcomes, final, describe, TAGS, objval, tbase, value, root, state_of)
    # the error-or accessors
    seen = set()
    for f in P.funcs.values():
        if f.cls is not None or f.qs not in ('nebula::ok', 'nebula::error', 'nebula::hasValue', 'nebula::value') or len(f.params) != 1 or f.body is None:
            continue
        t = f.params[0]['t']
        cls = t.strip_ref().rec if t.k in ('ref', 'rref') else None
        if cls not in boxes:
            continue
        seen.add(f.n)
        box = boxes[cls]
        left, right = list(box.alts)
        for ta in [None, left, right]:
            inst = 'nebula::%s(%s) given a container holding %s' % (f.n, t.s.replace('witness::', '').replace('nebula::', ''), ta or 'nothing')
            L, outs, locs = run(f, box, ta, [('self',)])
            yes = {'ok': ta != left, 'hasValue': ta == right}.get(f.n)
            alt = {'error': left, 'value': right}.get(f.n)

            def expect(st, v):
                own = objval('this.' + tbase(box.alts[ta])) if ta else None
                moved = f.n == 'value' and t.k == 'rref'
                bad = final(L, st, box, THIS, None if moved else ta, None if moved else own, 'it')
                if yes is not None:
                    for s2, b in truth(L.I, st, v):
                        if b != yes:
                            bad.append('answers %s' % ('yes' if b else 'no'))
                elif f.ret.k in ('ref', 'rref'):
                    if not (v and v[0] == 'ref' and v[1] == box.slot(THIS, alt)):
                        bad.append('does not return the alternative it holds')
                elif result(L, st, v, f.ret) != own:
                    bad.append('returns %s instead of the value it holds' % (result(L, st, v, f.ret),))
                return bad
            f.cls_ = cls
            check_outcomes('access' if alt else 'observer', f, inst, L, outs, expect, abort=alt is not None and ta != alt, mine=[THIS])
    if len(seen) < 4:
        raise Broken('error-or functions found: %s' % sorted(seen))
    c.need('assignment', 60)
    c.need('construction', 40)
    c.need('access', 30)
    c.need('observer', 15)


def observer(c, f, box, alts, run, report, check_outcomes, final, describe, TAGS, objval, tbase, value, root, state_of):
    rt = f.ret
    names = list(box.alts)
    either = 'EitherOr' in f.cls
    if rt.s == 'bool':
        yes = {'isVoid': [None], 'isLeftType': names[:1], 'isRightType': names[1:]} if either else \
            {'ok': [a for a in names if tbase(box.alts[a]) != 'nebula::Status'], 'operator bool': [a for a in names if tbase(box.alts[a]) != 'nebula::Status'],
             'hasValue': [a for a in names if tbase(box.alts[a]) != 'nebula::Status'], 'hasStatus': [a for a in names if tbase(box.alts[a]) == 'nebula::Status'], 'isVoid': [None]}
        if f.n not in yes:
            return
        for ta in alts:
            L, outs, _ = run(f, box, ta, [])
            want = ta in yes[f.n]

            def expect(st, v):
                bad = final(L, st, box, THIS, ta, objval('this.' + tbase(box.alts[ta])) if ta else None, 'it')
                for s2, b in truth(L.I, st, v):
                    if b != want:
                        bad.append('answers %s' % ('yes' if b else 'no'))
                return bad
            check_outcomes('observer', f, describe(f, ta, []), L, outs, expect)
        return
    t = tbase(rt)
    alt = box.alt_of(t)
    if alt is None:
        return
    sl = box.slot(THIS, alt)
    for ta in alts:
        L, outs, _ = run(f, box, ta, [])
        inst = describe(f, ta, []) + (' &' if rt.k == 'ref' else '')
        own = objval('this.' + t)

        def expect(st, v):
            bad = []
            if rt.k in ('ref', 'rref'):
                if not (v and v[0] == 'ref' and v[1] == sl):
                    bad.append('does not return the alternative it holds')
                bad += final(L, st, box, THIS, alt, own, 'it')
            else:
                got = result(L, st, v, rt)
                if got != own:
                    bad.append('returns %s instead of the value it holds' % (got,))
                moved = not f.d.get('const')
                bad += final(L, st, box, THIS, None if moved else alt, None if moved else own, 'it')
            return bad
        check_outcomes('access', f, inst, L, outs, expect, abort=ta != alt, mine=[THIS, (('ret',),)])


def result(L, st, v, rt):
    if rt.k != 'rec':
        return root(v)
    if v and v[0] in ('ref', 'objref'):
        e = L.al(st).get(v[1])
        return root(e[1]) if e else None
    return root(v)


main('C01', RULE, body, ['move constructors of element types do not throw', 'debug checks are compiled in (StatusOr::value uses one)'])
