import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from check import *
from rules import *
import lin

RULE = ('Abstract interpretation over the block chain: block i of a cord is represented by the address B + i*M with symbolic B and spacing M far above any offset, so that every pointer '
        'decomposes uniquely into block and offset; ghost counters follow links read, blocks visited, blocks freed, bytes written and bytes in the last block. On every path and for '
        'chains of any length: a write copies the caller\'s bytes in order, once, inside the last block, allocates only when that is full and links what it allocated; visiting, appending and '
        'joining go over all blocks in order with their content sizes; clearing frees each block once, reads no freed block and leaves the state of a fresh cord; copies cannot share blocks.')
M = 1 << 40
B = ('sym', 'B', 0)
K = ('sym', 'lastblock', 0)
PTR = 8
DEP = ('g', '#cord.')


def gl(n):
    return (('g', '#cord.' + n),)


class Cord:
    """one class (or instantiation) under one assignment of roles to its fields"""

    def __init__(self, c, P, cls, heads, obs):
        self.c, self.P, self.cls, self.obs = c, P, cls, obs
        self.name = strip_targs(cls).split('::')[-1] + ('<%s>' % cls.split('<')[1].rstrip('>') if '<' in cls else '')
        self.head, self.tail = heads
        fs = fields(P, cls)
        self.len = one([f['id'] for f in fs if f['t'].k == 'int' and not f['t'].const and f['t'].w == 64 and f['t'].u], 'length of ' + self.name)
        mut = [f['id'] for f in fs if f['t'].k == 'int' and not f['t'].const and f['id'] != self.len]
        self.pt = mut[0] if len(mut) == 1 else None
        if len(mut) > 1:
            raise Broken('%s: %d counters next to the length' % (self.name, len(mut)))
        self.inl = [f['id'] for f in fs if f['t'].k == 'array']
        self.inline = bool(self.inl)
        self.consts = [f['id'] for f in fs if f['t'].k == 'int' and f['t'].const]
        if self.inline:
            self.C = num(int(cls.split('<')[1].rstrip('>')))
        self.cid = None

    I = None

    def ob(self, rule, inst, ok, text, where):
        if self.I is not None and self.I.on_event is None:
            return              # the interpreter is looking for loop invariants
        self.obs.append((rule, self.name + ' ' + inst, bool(ok), text, where))

    def fns(self, nm, least=1, pick=None):
        r = [f for f in self.P.by_qs.get(strip_targs(self.cls) + '::' + nm, []) if f.cls == self.cls and f.body is not None]
        if pick:
            r = [f for f in r if pick(f)]
        if len(r) < least:
            raise Broken('%s::%s not found' % (self.cls, nm))
        for f in r:
            None
        return r

    # ------------------------------------------------------------- construction
    def ctor(self):
        fresh = None
        for fn in [f for f in self.P.by_qs.get(strip_targs(self.cls) + '::' + strip_targs(self.cls).split('::')[-1], []) if f.cls == self.cls and f.ctor and f.ctor not in ('copy', 'move') and not f.d.get('deleted')]:
            I = self.c.interp(self.P)
            self.c.analysed.add(fn.key) if hasattr(self.c, 'analysed') else None
            for s, k, v in I.analyse(fn):
                h, t, l = (I.load(s, fld(x)) for x in (self.head, self.tail, self.len))
                okp = all(self.inline_ptr(x) for x in (h, t)) if self.inline else h == N0 and t == N0
                self.ob('fresh', 'starts empty', k == 'v' and okp and l == N0, 'construction does not leave an empty chain', fn.where())
                if self.pt is not None:
                    p = I.load(s, fld(self.pt))
                    vals = {x: I.load(s, fld(x)) for x in self.consts}
                    cid = [x for x in self.consts if all(x == y or I.prove(s, cmp_term('==', vadd(vals[y], num(PTR), -1), vals[x])) for y in self.consts)]
                    good = len(self.consts) == 2 and len(cid) == 1
                    self.ob('fresh', 'room for the link', good, 'the content of a block is not its size less the pointer to the next block', fn.where())
                    if good:
                        self.cid = cid[0]
                        self.bid = [x for x in self.consts if x != self.cid][0]
                        self.ob('fresh', 'starts without room', p == vals[self.cid], 'a fresh cord has %s as its fill, though it has no block' % show(p), fn.where())
            fresh = True
        if not fresh:
            raise Broken('no constructor of %s found' % self.cls)
        return self.inline or self.cid is not None

    def inline_ptr(self, v):
        return v[0] == 'ptr' and len(v[1]) == 3 and v[1][0] == ('this',) and v[1][1] == ('.', self.inl[0]) and v[1][2] == ('[', N0)

    # ------------------------------------------------------------- scenarios
    def scenarios(self):
        return ('empty', 'part', 'full')

    def setup(self, I, st, sc, obj=THIS):
        """the state of a cord with K+1 blocks (or none) and `fill` bytes in the last"""
        st.ghost = dict(st.ghost)
        I.bounds[B] = (1 << 60, 1 << 61)
        I.bounds[K] = (0, 1 << 24)
        o = lambda x: obj + (('.', x),)
        C = self.C if self.inline else ('init', o(self.cid))
        if not self.inline:
            I.bounds[C] = (1, 1 << 30)
            S = ('init', o(self.bid))
            I.bounds[S] = (1, 1 << 31)
            d = lin.add(to_lin(S), to_lin(vadd(C, num(PTR))), -1)
            st.cons = st.cons + (d, lin.scale(d, -1))
        F0 = ('sym', 'fill', 0)
        if sc == 'empty':
            head = tail = B if self.inline else N0
            k, fill = (N0 if self.inline else num(-1)), N0
        else:
            head, k = B, K
            tail = vadd(B, vmul(K, num(M)))
            if sc == 'full':
                fill = C
            else:
                fill = F0
                I.bounds[F0] = (1, None)
                st.cons = st.cons + (lin.add(to_lin(F0), to_lin(vadd(C, N1, -1)), -1),)
        st.mem[o(self.head)] = head
        st.mem[o(self.tail)] = tail
        if self.inline:
            L = N0 if sc == 'empty' else vadd(vmul(k, self.C), fill)
        elif sc == 'empty':
            L = N0
        else:
            L = ('sym', 'length', 0)
            I.bounds[L] = (1, 1 << 60)
        st.mem[o(self.len)] = L
        if self.pt is not None:
            st.mem[o(self.pt)] = C if sc == 'empty' else fill
        for g, v in (('nb', k), ('fill', C if k == num(-1) else fill), ('links', N0), ('visited', N0), ('freed', N1 if self.inline else N0), ('written', N0), ('linked', k)):
            st.mem[gl(g)] = v
        return dict(k=k, fill=fill, C=C, L=L, obj=obj)

    def block(self, I, st, x, cands):
        """(block index, offset) of a pointer value"""
        if x[0] in ('ptr', 'ref', 'str', 'fn', 'lam', 'agg', 'void') or not any(a == B or a[0] == 'phi' for a, _ in to_lin(x)[1]):
            return None
        for j in cands:
            off = vadd(x, vadd(B, vmul(j, num(M))), -1)
            if I.prove(st, cmp_term('>=', off, N0)) and I.prove(st, cmp_term('<', off, num(1 << 33))):
                return j, off
        return None

    def g(self, st, n):
        return st.mem[gl(n)]

    # ------------------------------------------------------------- hooks
    def interp(self, info, want=None):
        """want: None, or what a write may copy: (value term, length term)"""
        c = self.c
        I = self.I = c.interp(self.P)
        I.on_event = lambda I, st, e: None
        searching = lambda: I.on_event is None
        self_ = self

        def templates(I, entry, h, phis):
            r = []
            for n, top in (('links', 0), ('visited', 1), ('freed', 1)):
                k = gl(n)
                if k in phis:
                    r.append(lin.add(to_lin(phis[k][0]), to_lin(vadd(info['k'], num(top))), -1))
            if gl('nb') in phis:
                r.append(lin.add(to_lin(info['k']), to_lin(phis[gl('nb')][0]), -1))
            C = to_lin(info['C'])
            if gl('fill') in phis:
                f = to_lin(phis[gl('fill')][0])
                r.append(lin.add(f, C, -1))
                p = fld(self.pt) if self.pt is not None else None
                if p in phis:
                    d = lin.add(to_lin(phis[p][0]), f, -1)
                    r += [d, lin.scale(d, -1)]
                if self.inline and fld(self.len) in phis and gl('nb') in phis:
                    d = lin.add(to_lin(vadd(phis[fld(self.len)][0], vmul(phis[gl('nb')][0], self.C), -1)), f, -1)
                    r += [d, lin.scale(d, -1)]
            if gl('linked') in phis and gl('nb') in phis:
                d = lin.add(to_lin(phis[gl('linked')][0]), to_lin(phis[gl('nb')][0]), -1)
                r += [d, lin.scale(d, -1)]
            # a pointer into the chain moves with a counter
            for k, (ph, v0) in phis.items():
                if any(a == B for a, _ in to_lin(v0)[1]) and v0[0] in ('sym', 'lin'):
                    for g in ('links', 'visited', 'freed', 'nb'):
                        if gl(g) in phis:
                            gp, g0 = phis[gl(g)]
                            d = lin.add(to_lin(vadd(ph, v0, -1)), to_lin(vmul(vadd(gp, g0, -1), num(M))), -1)
                            r += [d, lin.scale(d, -1)]
            for i, g in enumerate(('links', 'visited', 'freed')):
                for h2 in ('links', 'visited', 'freed')[i + 1:]:
                    if gl(g) in phis and gl(h2) in phis:
                        d = lin.add(to_lin(vadd(*phis[gl(g)], -1)), to_lin(vadd(*phis[gl(h2)], -1)), -1)
                        r += [d, lin.scale(d, -1)]
            return r
        I.loop_templates = templates

        def cands(st):
            r = [self.g(st, 'links')]
            r += [vadd(self.g(st, 'links'), N1, -1), self.g(st, 'visited'), self.g(st, 'freed'), self.g(st, 'nb'), vadd(self.g(st, 'nb'), N1, -1), info['k'], N0]
            return r

        def linkread(I, st, where, x):
            if x[0] in ('ptr', 'ref', 'str', 'fn', 'lam', 'agg', 'void'):
                self.ob('link', 'is read where it was written', False, 'a pointer to the next block is read at %s' % show(x), where)
                return None
            if searching():
                st.mem[gl('links')] = vadd(self.g(st, 'links'), N1)
                return vadd(vadd(x, info['C'], -1), num(M))
            b = self.block(I, st, vadd(x, info['C'], -1), cands(st))
            if b is None or not I.prove(st, cmp_term('==', b[1], N0)):
                self.ob('link', 'is read where it was written', False, 'a pointer to the next block is read at %s, which is not behind the content of a block' % show(x), where)
                return None
            j = b[0]
            self.ob('link', 'of an inner block', I.prove(st, cmp_term('<', j, self.g(st, 'nb'))), 'the link of the last block is read, which is not set', where)
            self.ob('link', 'is read before its block is freed', I.prove(st, cmp_term('>=', j, vadd(self.g(st, 'freed'), N1 if self.inline else N0, -1))), 'the link of a block that was freed is read', where)
            st.mem[gl('links')] = vadd(j, N1)
            return vadd(B, vmul(vadd(j, N1), num(M)))

        def memcpy(I, st, fr, n, loc, av):
            d, s_, k = av[0], av[1], av[2]
            w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
            if d[0] == 'ptr':
                if not I.prove(st, cmp_term('==', k, num(PTR))):
                    return None
                v = linkread(I, st, w, s_)
                if v is None:
                    st.ghost['told'] = 1
                    return [(st, 'abort', VOID)]
                I.store(st, unix(d[1]), v, n)
                return I.ok(st, d)
            src = I.load(st, unix(s_[1])) if s_[0] == 'ptr' else None
            bs = self.block(I, st, src, cands(st)) if src is not None else None
            b = self.block(I, st, d, [self.g(st, 'nb'), vadd(self.g(st, 'nb'), N1, -1), info['k']])
            if b is None and searching():
                b = (self.g(st, 'nb'), self.g(st, 'fill'))
            if b is None:
                self.ob('write', 'goes into a block', False, 'bytes are copied to %s, which is not in a block of the cord' % show(d), w)
                st.ghost['told'] = 1
                return [(st, 'abort', VOID)]
            j, off = b
            if bs is not None and I.prove(st, cmp_term('==', k, num(PTR))):
                setlink(I, st, w, j, off, bs)
                return I.ok(st, d)
            self.ob('write', 'goes into the last block', I.prove(st, cmp_term('==', j, self.g(st, 'nb'))), 'bytes are copied into an inner block', w)
            f = self.g(st, 'fill')
            self.ob('write', 'follows what is there', I.prove(st, cmp_term('==', off, f)), 'bytes are copied to offset %s of a block that holds %s' % (show(off), show(f)), w)
            self.ob('write', 'stays inside the content', I.prove(st, cmp_term('<=', vadd(off, k), info['C'])) and I.prove(st, cmp_term('>=', k, N0)), '%s bytes copied to offset %s may exceed the content of the block' % (show(k), show(off)), w)
            if want is not None:
                self.ob('write', 'takes the bytes in order', I.prove(st, cmp_term('==', s_, vadd(want[0], self.g(st, 'written')))), 'bytes are taken from %s instead of the first one not written yet' % show(s_), w)
            st.mem[gl('fill')] = vadd(f, k)
            st.mem[gl('written')] = vadd(self.g(st, 'written'), k)
            return I.ok(st, d)

        def setlink(I, st, w, j, off, bs):
            nb = self.g(st, 'nb')
            self.ob('link', 'is set behind the content', I.prove(st, cmp_term('==', off, info['C'])), 'the pointer to the new block is stored at offset %s' % show(off), w)
            self.ob('link', 'joins the last two blocks', I.prove(st, cmp_term('==', vadd(j, N1), nb)) and I.prove(st, cmp_term('==', bs[0], nb)) and I.prove(st, cmp_term('==', bs[1], N0)), 'the link that is set does not join the old last block with the new one', w)
            st.mem[gl('linked')] = nb

        def onwrite(I, st, loc, v, node):
            if loc[0][0] == 'deref':
                w = 'line %d' % (node.get('l', 0) if node else 0)
                b = self.block(I, st, loc[0][1], [self.g(st, 'nb'), vadd(self.g(st, 'nb'), N1, -1), info['k']]) if gl('nb') in st.mem else None
                bs = self.block(I, st, v, cands(st)) if b else None
                if b and bs:
                    setlink(I, st, w, b[0], b[1], bs)
                else:
                    self.ob('write', 'goes into a block', False, 'a store through %s' % show(loc[0][1]), w)
        I.on_write = onwrite

        def loadhook(I, st, loc, t):
            if loc[0][0] == 'deref' and len(loc) == 1 and gl('nb') in st.mem and t is not None and t.k == 'ptr':
                return linkread(I, st, self.cls, loc[0][1])
            return None
        I.load_hook = loadhook

        def malloc(I, st, fr, n, loc, av):
            w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
            nb = self.g(st, 'nb')
            self.ob('allocate', 'holds content and link', I.prove(st, cmp_term('>=', av[0], vadd(info['C'], num(PTR)))), '%s bytes are allocated for a block' % show(av[0]), w)
            self.ob('allocate', 'only behind a full block', I.prove(st, cmp_term('==', nb, num(-1))) or I.prove(st, cmp_term('==', self.g(st, 'fill'), info['C'])), 'a block is added although the last one holds %s bytes only' % show(self.g(st, 'fill')), w)
            if I.prove(st, cmp_term('==', nb, num(-1))):
                st.mem[gl('linked')] = N0           # nothing to link the first block to
            nb = vadd(nb, N1)
            st.mem[gl('nb')] = nb
            st.mem[gl('fill')] = N0
            I.event(st, fr, n, 'malloc', None, tuple(av))
            return I.ok(st, vadd(B, vmul(nb, num(M))))

        def free(I, st, fr, n, loc, av):
            w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
            if I.prove(st, cmp_term('==', av[0], N0)):
                return I.ok(st, VOID)
            f = self.g(st, 'freed')
            self.ob('free', 'each block once', av[0][0] != 'ptr' and I.prove(st, cmp_term('==', av[0], vadd(B, vmul(f, num(M))))), 'free gets %s, which is not the next block still owned' % show(av[0]), w)
            self.ob('free', 'only existing blocks', I.prove(st, cmp_term('<=', f, self.g(st, 'nb'))), 'more blocks are freed than there are', w)
            st.mem[gl('freed')] = vadd(f, N1)
            return I.ok(st, VOID)

        for q in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy'):
            I.hooks[q] = memcpy
        for q in ('malloc', 'std::malloc'):
            I.hooks[q] = malloc
        for q in ('free', 'std::free'):
            I.hooks[q] = free

        def visit(I, st, w, p, n):
            """the next block of the chain is handed out"""
            v = self.g(st, 'visited')
            self.ob('order', 'blocks come in order', p[0] != 'ptr' and I.prove(st, cmp_term('==', p, vadd(B, vmul(v, num(M))))), 'the block handed out is %s instead of the next one' % show(p), w)
            for s2, last in I.split(st.copy(), cmp_term('==', v, info['k'])):
                exp = info['fill'] if last else info['C']
                self.ob('order', 'with %s content' % ('the last' if last else 'full'), I.prove(s2, cmp_term('==', n, exp)), 'a block with %s bytes is handed out with %s' % (show(exp), show(n)), w)
                if not last:
                    self.ob('order', 'no more blocks than there are', I.prove(s2, cmp_term('<', v, info['k'])), 'a block behind the last one is handed out', w)
            st.mem[gl('visited')] = vadd(v, N1)
        self.visit = visit
        return I

    def everything(self, I, s, info):
        return I.prove(s, cmp_term('==', self.g(s, 'visited'), vadd(info['k'], N1))) if info['fill'] != N0 else I.prove(s, cmp_term('==', self.g(s, 'visited'), N0))

    # ------------------------------------------------------------- methods
    def state_ok(self, I, s, rule, inst, w, info):
        """fields agree with the chain"""
        nb, fill = self.g(s, 'nb'), self.g(s, 'fill')
        o = lambda x: info['obj'] + (('.', x),)
        h, t, l = (I.load(s, o(x)) for x in (self.head, self.tail, self.len))
        eq = lambda a, b: a[0] != 'ptr' and I.prove(s, cmp_term('==', a, b))
        for s2, none in I.split(s.copy(), cmp_term('==', nb, num(-1))):
            e2 = lambda a, b: a[0] != 'ptr' and I.prove(s2, cmp_term('==', a, b))
            if none:
                self.ob(rule, inst + ' has no block', e2(h, N0) and e2(t, N0), 'head and tail of a cord without block are %s and %s' % (show(h), show(t)), w)
                continue
            self.ob(rule, inst + ' keeps the head', e2(h, B), 'the head is %s instead of the first block' % show(h), w)
            self.ob(rule, inst + ' keeps the tail', e2(t, vadd(B, vmul(nb, num(M)))), 'the tail is %s instead of the last block' % show(t), w)
            self.ob(rule, inst + ' links every block', e2(self.g(s2, 'linked'), nb) or I.prove(s2, cmp_term('==', nb, N0)), 'a block is added without a link to it', w)
            if self.pt is not None:
                p = I.load(s2, o(self.pt))
                self.ob(rule, inst + ' keeps the fill', e2(p, fill), 'the fill of the last block is %s where %s bytes are in it' % (show(p), show(fill)), w)
        self.ob(rule, inst + ' counts the length', eq(l, vadd(info['L'], self.g(s, 'written'))), 'the length is %s after writing %s bytes to %s' % (show(l), show(self.g(s, 'written')), show(info['L'])), w)

    def write(self):
        for fn in self.fns('write', 1, lambda f: len(f.params) == 2):
            VAL, LEN = ('argv', fn.params[0]['n']), ('argv', fn.params[1]['n'])
            for sc in self.scenarios():
                st = State()
                info = {}
                I = self.interp(info, (VAL, LEN))
                info.update(self.setup(I, st, sc))
                I.peel_first = sc == 'empty'
                I.bounds[LEN] = (0, 1 << 60)
                I.bounds[VAL] = (1, 1 << 59)

                def again(I, s, fr, n, loc, av, info=info):
                    if fr.no == 0 and not getattr(fr, 'depth', 0) and False:
                        return None
                    w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
                    W = self.g(s, 'written')
                    self.ob('write', 'goes on with the rest', loc == info['obj'] and I.prove(s, cmp_term('==', av[0], vadd(VAL, W))) and I.prove(s, cmp_term('==', av[1], vadd(LEN, W, -1))), 'the rest that is written next is (%s, %s)' % (show(av[0]), show(av[1])), w)
                    self.ob('write', 'makes progress', I.prove(s, cmp_term('>', W, N0)), 'the same bytes are written again and again', w)
                    self.state_ok(I, s, 'write', 'before the rest', w, info)
                    self.assume_written(I, s, info, LEN, W)
                    return I.ok(s, ('ref', info['obj']))
                I.hooks[fn.qs] = again
                for s, k, v in I.analyse(fn, state=st):
                    if k != 'v':
                        self.stopped(I, s, k, 'write', fn)
                        continue
                    self.ob('write', 'writes everything', I.prove(s, cmp_term('==', self.g(s, 'written'), LEN)), '%s of the bytes are written' % show(self.g(s, 'written')), fn.where())
                    self.state_ok(I, s, 'write', 'a write', fn.where(), info)
                    self.ob('write', 'returns the cord', v == ('ref', info['obj']), 'write returns %s' % show(v), fn.where())

    def stopped(self, I, s, k, what, fn):
        """the analysis gave up on a path (told) or the code itself ends the process on it"""
        if not s.ghost.get('told'):
            self.ob('returns', what, False, '%s ends by %s' % (what, 'a failed check' if k == 'abort' else k), fn.where())

    nfresh = 0

    def assume_written(self, I, s, info, total, done):
        """the state after a write of the remaining bytes, by the contract of write"""
        Cord.nfresh += 1
        n = Cord.nfresh
        nb, fill = ('sym', 'blocks after', n), ('sym', 'fill after', n)
        I.bounds[nb] = (0, 1 << 25)
        I.bounds[fill] = (0, None)
        s.cons = s.cons + (lin.add(to_lin(fill), to_lin(info['C']), -1), lin.add(to_lin(self.g(s, 'nb')), to_lin(nb), -1))
        o = lambda x: info['obj'] + (('.', x),)
        s.mem[gl('nb')] = s.mem[gl('linked')] = nb
        s.mem[gl('fill')] = fill
        s.mem[gl('written')] = total
        s.mem[o(self.head)] = B
        s.mem[o(self.tail)] = vadd(B, vmul(nb, num(M)))
        s.mem[o(self.len)] = vadd(info['L'], total)
        if self.pt is not None:
            s.mem[o(self.pt)] = fill

    def clear(self):
        dt = self.P.by_qs.get(strip_targs(self.cls) + '::~' + strip_targs(self.cls).split('::')[-1], [])
        dt = [f for f in dt if f.cls == self.cls and f.body is not None]
        self.ob('free', 'has a destructor', len(dt) == 1, 'the class has no destructor that releases its blocks', self.cls)
        for fn in self.fns('clear', 1, lambda f: not f.params) + dt:
            self.c.analysed.add(fn.key) if hasattr(self.c, 'analysed') else None
            for sc in self.scenarios():
                st = State()
                info = {}
                I = self.interp(info)
                info.update(self.setup(I, st, sc))
                for s, k, v in I.analyse(fn, state=st):
                    if k == 'abort':
                        self.stopped(I, s, k, fn.n, fn)
                        continue
                    self.ob('free', fn.n + ' releases every block', k == 'v' and I.prove(s, cmp_term('==', self.g(s, 'freed'), vadd(self.g(s, 'nb'), N1))), '%s of the blocks are freed' % show(self.g(s, 'freed')), fn.where())
                    if fn in dt:
                        continue
                    h, t, l = (I.load(s, fld(x)) for x in (self.head, self.tail, self.len))
                    if self.inline:
                        f0 = lambda x: self.inline_ptr(x) or (x[0] != 'ptr' and I.prove(s, cmp_term('==', x, B)))
                    else:
                        f0 = lambda x: x[0] != 'ptr' and I.prove(s, cmp_term('==', x, N0))
                    self.ob('fresh', 'clear leaves an empty chain', f0(h) and f0(t), 'clear leaves head %s and tail %s, with which the cord cannot be used again' % (show(h), show(t)), fn.where())
                    self.ob('fresh', 'clear leaves no length', I.prove(s, cmp_term('==', l, N0)), 'clear leaves the length %s' % show(l), fn.where())
                    if self.pt is not None:
                        p = I.load(s, fld(self.pt))
                        self.ob('fresh', 'clear leaves no room', I.prove(s, cmp_term('==', p, info['C'])), 'clear leaves the fill %s although there is no block' % show(p), fn.where())

    def apply(self):
        for fn in self.fns('applyTo', 1, lambda f: len(f.params) == 1):
            for sc in self.scenarios():
                st = State()
                info = {}
                I = self.interp(info)
                info.update(self.setup(I, st, sc))
                st.mem[gl('stopped')] = N0

                def call(I, s, fr, n, loc, av, info=info):
                    w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
                    self.ob('order', 'stops when told', I.prove(s, cmp_term('==', self.g(s, 'stopped'), N0)), 'the visitor is called again after it returned false', w)
                    self.visit(I, s, w, ret(I, s, av[0]), ret(I, s, av[1]))
                    s2 = s.copy()
                    s2.mem[gl('stopped')] = N1
                    return I.ok(s, N1) + I.ok(s2, N0)
                I.hooks['std::function::operator()'] = call
                for s, k, v in I.analyse(fn, state=st):
                    if k == 'abort':
                        self.stopped(I, s, k, fn.n, fn)
                        continue
                    if k != 'v':
                        self.ob('order', 'returns', False, 'applyTo ends by %s' % k, fn.where())
                        continue
                    for s2, b in truth(I, s, v):
                        stopped = self.g(s2, 'stopped')
                        if b:
                            self.ob('order', 'true after all blocks', I.prove(s2, cmp_term('==', stopped, N0)) and self.everything(I, s2, info), 'applyTo returns true after %s blocks' % show(self.g(s2, 'visited')), fn.where())
                        else:
                            self.ob('order', 'false only when told', I.prove(s2, cmp_term('==', stopped, N1)), 'applyTo returns false although the visitor did not', fn.where())
                    self.unchanged(I, s, info, fn)

    def unchanged(self, I, s, info, fn):
        same = all(I.load(s, info['obj'] + (('.', x),)) == y for x, y in ((self.len, info['L']),))
        self.ob('order', fn.n + ' changes nothing', same and I.prove(s, cmp_term('==', self.g(s, 'nb'), info['k'])), '%s changes the cord' % fn.n, fn.where())

    def strings(self, I, info):
        def append(I, s, fr, n, loc, av):
            w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
            if len(av) != 2:
                return None
            t = s.ghost.get('target')
            self.ob('order', 'appends to one string', t is None or t == loc, 'the blocks go to different strings', w)
            s.ghost['target'] = loc
            self.visit(I, s, w, ret(I, s, av[0]), ret(I, s, av[1]))
            return I.ok(s, ('ref', loc))
        I.hooks['std::basic_string::append'] = append
        I.hooks['std::basic_string::reserve'] = lambda I, s, fr, n, loc, av: I.ok(s, VOID)

        def new(I, s, fr, n, loc, av):
            if av:
                return None
            I.store(s, loc, ('app', 'new string', loc[0]), n)
            return I.ok(s, VOID)
        I.hooks['ctor:std::basic_string'] = new

    def append(self):
        for nm in ('appendTo', 'str'):
            for fn in self.fns(nm, 1, lambda f: len(f.params) == (1 if nm == 'appendTo' else 0)):
                for sc in self.scenarios():
                    st = State()
                    info = {}
                    I = self.interp(info)
                    info.update(self.setup(I, st, sc))
                    self.strings(I, info)
                    for s, k, v in I.analyse(fn, state=st):
                        if k == 'abort':
                            self.stopped(I, s, k, fn.n, fn)
                            continue
                        if k != 'v':
                            self.ob('order', 'returns', False, '%s ends by %s' % (nm, k), fn.where())
                            continue
                        self.ob('order', nm + ' covers all blocks', self.everything(I, s, info), '%s appends %s blocks' % (nm, show(self.g(s, 'visited'))), fn.where())
                        t = s.ghost.get('target')
                        if nm == 'appendTo':
                            self.ob('order', 'appends to the given string', t in (None, (('arg', fn.params[0]['n']),)), 'appendTo appends to another string', fn.where())
                            self.ob('order', 'returns the length', I.prove(s, cmp_term('==', ret(I, s, v), info['L'])), 'appendTo returns %s' % show(ret(I, s, v)), fn.where())
                        else:
                            v = ret(I, s, v)
                            if v[0] == 'app' and v[1] == 'moved':
                                v = v[2]
                            self.ob('order', 'returns what it collected', v[0] == 'app' and v[1] == 'new string' and (t is None or v[2] == t[0]), 'str returns %s, which is not the string the blocks were appended to' % show(v), fn.where())
                        self.unchanged(I, s, info, fn)

    def sizes(self):
        for nm, want in (('size', lambda L: L), ('empty', None)):
            for fn in self.fns(nm, 1, lambda f: not f.params):
                for sc in self.scenarios():
                    st = State()
                    info = {}
                    I = self.interp(info)
                    info.update(self.setup(I, st, sc))
                    for s, k, v in I.analyse(fn, state=st):
                        if nm == 'size':
                            self.ob('size', 'is the number of bytes', k == 'v' and I.prove(s, cmp_term('==', ret(I, s, v), info['L'])), 'size returns %s' % show(v), fn.where())
                        else:
                            self.ob('size', 'empty exactly without bytes', k == 'v' and all(b == (sc == 'empty') for _, b in truth(I, s, v)), 'empty answers wrongly for a cord %s bytes' % ('without' if sc == 'empty' else 'with'), fn.where())

    def shifts(self):
        for fn in self.fns('operator<<', 10, lambda f: len(f.params) == 1):
            t = fn.params[0]['t']
            u = t.strip_ref() if t.k in ('ref', 'rref') else t
            nm = fn.params[0]['n']
            if u.k == 'rec' and (u.base == self.cls or strip_targs(u.base) == strip_targs(self.cls)):
                self.join(fn)
                continue
            I = self.I = self.c.interp(self.P)
            I.on_event = lambda I, st, e: None

            def write(I, s, fr, n, loc, av):
                I.event(s, fr, n, 'write', loc, tuple(av))
                return I.ok(s, ('ref', loc))
            I.hooks[strip_targs(self.cls) + '::write'] = write
            for s, k, v in I.analyse(fn):
                ws = [e for e in s.trace if e.name == 'write']
                lb = '%s operator<<' % t.s
                self.ob('scalar', lb + ' writes once', k == 'v' and len(ws) == 1 and ws[0].recv == THIS, 'the value is written %d times' % len(ws), fn.where())
                if len(ws) != 1:
                    continue
                a, n = ws[0].args
                self.ob('scalar', lb + ' returns the cord', v == ('ref', THIS), 'operator<< returns %s' % show(v), fn.where())
                if u.k == 'rec':
                    arg = (('arg', nm),)
                    okk = 'data' in show(a) + show(n) or 'c_str' in show(a)
                    okk = okk and mentions_loc(a, arg) and mentions_loc(n, arg) and ('size' in show(n) or 'length' in show(n)) and n[0] != 'lin'
                elif u.k == 'ptr':
                    A = ('argv', nm)
                    okk = a == A and n[0] == 'app' and 'strlen' in n[1] and A in n[2:]
                else:
                    w = {'bool': 1, 'float': None}.get(u.k, None) or (u.w // 8 if u.w else None)
                    okk = a[0] == 'ptr' and a[1][0][0] in ('v', 'arg') and I.load(s, unix(a[1])) == ('argv', nm) and w is not None and n == num(w)
                self.ob('scalar', lb + ' writes the value', okk, 'operator<<(%s) writes (%s, %s)' % (t.s, show(a), show(n)), fn.where())

    def join(self, fn):
        """append another cord, or the cord itself"""
        other = (('arg', fn.params[0]['n']),)
        for alias in (False, True):
            for sc in self.scenarios():
                st = State()
                info = {}
                I = self.interp(info)
                obj = THIS if alias else other
                info.update(self.setup(I, st, sc, obj))
                lb = 'join with itself' if alias else 'join'

                def write(I, s, fr, n, loc, av, info=info, alias=alias):
                    w = '%s:%d' % (rel(fr.fn.file), n.get('l', 0))
                    self.ob('order', 'is written to this cord', loc == THIS, 'the blocks are written to another cord', w)
                    if I.prove(s, cmp_term('==', ret(I, s, av[1]), N0)):
                        return I.ok(s, ('ref', loc))
                    self.visit(I, s, w, av[0], av[1])
                    if alias:
                        # more blocks, another fill, another length
                        self.assume_written(I, s, dict(info, L=N0), ('sym', 'length after', Cord.nfresh), N0)
                    return I.ok(s, ('ref', loc))
                I.hooks[strip_targs(self.cls) + '::write'] = write
                av = [('ref', THIS)] if alias else None
                for s, k, v in I.analyse(fn, state=st, av=av):
                    if k == 'abort':
                        self.stopped(I, s, k, fn.n, fn)
                        continue
                    self.ob('order', lb + ' covers all blocks', k == 'v' and self.everything(I, s, info), 'joining a cord writes %s of its blocks' % show(self.g(s, 'visited')) + (' (%s)' % sc), fn.where())
                    self.ob('order', lb + ' returns the cord', v == ('ref', THIS), 'operator<< returns %s' % show(v), fn.where())

    def copies(self):
        r = self.P.recs.get(self.cls)
        self.ob('copy', 'construction', r.d.get('copyctor') in ('deleted', 'user'), 'copies made by the compiler share the blocks, which are then freed twice', '%s:%d' % (rel(r.file), r.line))
        self.ob('copy', 'assignment', r.d.get('copyassign') in ('deleted', 'user'), 'assignment made by the compiler shares the blocks', '%s:%d' % (rel(r.file), r.line))


def unix(l):
    return l[:-1] if l and l[-1] == ('[', N0) else l


def mentions_loc(t, loc):
    if t == loc or (t[0] in ('ref', 'ptr', 'init') and len(t) > 1 and t[1][:len(loc)] == loc):
        return True
    return any(isinstance(x, tuple) and x and mentions_loc(x, loc) for x in t[1:] if isinstance(x, tuple))


def body(c):
    P = c.load(['base/Cord.cpp'], ['cord.cpp'])
    classes = ['nebula::Cord'] + sorted(r for r in P.recs if r.startswith('nebula::ICord<'))
    if len(classes) < 2:
        raise Broken('ICord is not instantiated')
    for cls in classes:
        ptrs = [f['id'] for f in fields(P, cls) if f['t'].k == 'ptr']
        if len(ptrs) != 2:
            raise Broken('%s: expected head and tail, found %s' % (cls, ptrs))
        best = None
        for heads in (ptrs, ptrs[::-1]):
            obs = []
            x = Cord(c, P, cls, heads, obs)
            if x.ctor():
                for f in (x.write, x.clear, x.apply, x.append, x.sizes, x.shifts, x.copies):
                    f()
            bad = sum(not o[2] for o in obs)
            if best is None or bad < best[0]:
                best = (bad, obs)
            if bad == 0:
                break
        for o in best[1]:
            c.ob(*o)
    for r, n in (('write', 40), ('order', 40), ('free', 12), ('link', 8), ('scalar', 40), ('copy', 4), ('fresh', 8), ('allocate', 4), ('size', 8)):
        c.need(r, n)


main('C15', RULE, body, ['malloc does not fail', 'a cord is made with blocks larger than a pointer', 'memory of distinct blocks does not overlap'])
