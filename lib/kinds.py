"""Tracked kinds for flow.py: fallible results and lookup results."""
from flow import Kind, GiveUp
from program import strip_targs
import re


def rec_of(t):
    if t is None:
        return None
    t = t.strip_ref()
    return strip_targs(t.base) if t.k == 'rec' else None


class Result(Kind):
    """an object that holds either a value or an error"""
    cls = ''
    tests = {}        # method -> (states for true, states for false)
    reads = {}        # method -> (needed states, what, state after an rvalue read or None)
    free_tests = {}
    free_reads = {}
    shown = {}

    def is_type(self, t):
        return t.k == 'rec' and strip_targs(t.base) == self.cls

    def states(self, F, env, obj):
        v = F.rv(env, obj)
        if v is not None and v[0] == 'ts' and v[1] == self.name:
            return v[2]
        return self.all

    def put(self, F, env, obj, st):
        if obj is not None and obj[0] == 'pl':
            return env.set(F.res(env, obj[1]), ('ts', self.name, frozenset(st)))
        return env

    def call(self, F, env, n, q, obj, args):
        c, _, m = q.rpartition('::')
        if c == self.cls and obj is not None or c == self.cls and n.get('obj') is not None:
            o, nm = obj, m
            tests, reads = self.tests, self.reads
            rval = (n['obj'].get('lv') or 0) != 1 and not n.get('arrow')
            if m.startswith('operator bool'):
                nm = 'operator bool'
        elif q in self.free_tests or q in self.free_reads:
            if len(args) != 1 or F.kind_of((n['pt'][0] if n.get('pt') else None)) is not self:
                return None
            o, nm = args[0], q
            tests, reads = self.free_tests, self.free_reads
            rval = (n['a'][0].get('lv') or 0) != 1
        else:
            return None
        if nm in tests:
            yes, no = tests[nm]
            st = self.states(F, env, o)
            out = []
            for b, s in ((True, st & yes), (False, st & no)):
                if s:
                    out.append((self.put(F, env, o, s), ('b', b)))
            return out
        if nm in reads:
            need, what, after = reads[nm]
            st = self.states(F, env, o)
            name = show_obj(n['obj'] if tests is self.tests else n['a'][0])
            F.use(n, '%s of %s' % (what, name), st <= need,
                  '%s of %s is read where it may be %s' % (what, name, ' or '.join(sorted(self.shown[x] for x in st - need))), self.name)
            env = self.put(F, env, o, need)
            if rval and after is not None:
                env = self.put(F, env, o, {after})
                return [(env, F.fresh_ret(n))]
            if n.get('lv') and o is not None and o[0] == 'pl':
                return [(env, ('pl', o[1] + (('call', m),)))]
            return [(env, self.result(F, env, n, m))]
        if m == 'operator=' and len(args) == 1 and c == self.cls:
            outs = []
            for e, st in self.from_arg(F, env, n, args[0], n['a'][0]):
                outs.append((F.store(e, obj[1], ('ts', self.name, st)) if obj is not None and obj[0] == 'pl' else e, obj))
            return outs
        return None

    def result(self, F, env, n, m):
        return F.fresh_ret(n)

    def from_arg(self, F, env, n, v, a):
        k = F.kind_of(a.get('t'))
        if k is self:
            st = self.states(F, env, v)
            if (a.get('lv') or 0) == 2 and v is not None and v[0] == 'pl' and self.moved is not None:
                env = self.put(F, env, v, {self.moved})
            return [(env, st)]
        return [(F.escape(env, v, (n.get('pt') or [None])[0], n), self.made_from(F, env, n, v, a))]

    def construct(self, F, env, n, args):
        real = [(v, a) for v, a in zip(args, n['a']) if not a.get('defarg')]
        if not real:
            return [(env, ('ts', self.name, frozenset(self.default)))]
        if n.get('ck') in ('copy', 'move'):
            return None
        if len(real) != 1:
            return None
        return [(e, ('ts', self.name, st)) for e, st in self.from_arg(F, env, n, *real[0])]


class StatusOr(Result):
    name = 'statusor'
    cls = 'nebula::StatusOr'
    all = frozenset('VS')
    default = '0'
    moved = '0'
    shown = {'V': 'a success', 'S': 'a failure', '0': 'empty'}
    tests = {'ok': (frozenset('V'), frozenset('S0')), 'operator bool': (frozenset('V'), frozenset('S0'))}
    reads = {'value': (frozenset('V'), 'the value', '0'), 'status': (frozenset('S'), 'the error', '0')}

    def made_from(self, F, env, n, v, a):
        if rec_of(a.get('t')) == 'nebula::Status':
            w = F.rv(env, v)
            bad = w is not None and w[0] == 'ts' and w[1] == 'status' and w[2] == frozenset(['OK'])
            F.use(n, 'a failure made of a status', not bad, 'a success status is handed on as the error of a failed result', self.name)
            return frozenset('S')
        return frozenset('V')

    def result(self, F, env, n, m):
        return ('ts', 'status', frozenset(['ERR'])) if m == 'status' else F.fresh_ret(n)

    def returned(self, F, env, s, v):
        st = v[2] if v is not None and v[0] == 'ts' and v[1] == self.name else self.all
        F.use(s, 'the result handed out', '0' not in st, 'the result handed out may hold neither a value nor an error', self.name)


class Status(Kind):
    name = 'status'
    all = frozenset(['OK', 'ERR'])

    def is_type(self, t):
        return t.k == 'rec' and strip_targs(t.base) == 'nebula::Status'

    def construct(self, F, env, n, args):
        if n.get('ck') == 'default':
            return [(env, ('ts', self.name, frozenset(['OK'])))]
        return None

    def call(self, F, env, n, q, obj, args):
        if not q.startswith('nebula::Status::'):
            return None
        m = q[len('nebula::Status::'):]
        if n.get('static'):
            if rec_of(n.get('t')) != 'nebula::Status':
                return None
            return [(env, ('ts', self.name, frozenset(['OK' if m == 'OK' else 'ERR'])))]
        if m == 'ok':
            v = F.rv(env, obj)
            st = v[2] if v is not None and v[0] == 'ts' and v[1] == self.name else self.all
            out = []
            for b, s in ((True, 'OK'), (False, 'ERR')):
                if s in st:
                    e = env
                    if obj is not None and obj[0] == 'pl':
                        e = env.set(F.res(env, obj[1]), ('ts', self.name, frozenset([s])))
                    out.append((e, ('b', b)))
            return out
        if m == 'operator=' and len(args) == 1 and obj is not None and obj[0] == 'pl':
            w = F.rv(env, args[0], n['a'][0].get('t'))
            w = w if w is not None and w[0] == 'ts' and w[1] == self.name else self.fresh()
            return [(F.store(env, obj[1], w), obj)]
        return None


class Either(Result):
    name = 'either'
    cls = 'nebula::EitherOr'
    all = frozenset('LR')
    default = '0'
    moved = '0'
    shown = {'L': 'of the first kind', 'R': 'of the second kind', '0': 'empty'}
    tests = {'isLeftType': (frozenset('L'), frozenset('R0')), 'isRightType': (frozenset('R'), frozenset('L0')), 'isVoid': (frozenset('0'), frozenset('LR'))}
    reads = {'left': (frozenset('L'), 'the first alternative', '0'), 'right': (frozenset('R'), 'the second alternative', '0')}
    free_tests = {'nebula::ok': (frozenset('R0'), frozenset('L')), 'nebula::hasValue': (frozenset('R'), frozenset('L0'))}
    free_reads = {'nebula::value': (frozenset('R'), 'the value', '0'), 'nebula::error': (frozenset('L'), 'the error', None)}

    def made_from(self, F, env, n, v, a):
        t = (n.get('t') or (n.get('obj') or {}).get('t'))
        t = t.strip_ref() if t is not None else None
        ta = [x for x in (t.targs or []) if hasattr(x, 'base')] if t is not None else []
        at = a['t'].strip_ref() if a.get('t') is not None else None
        if len(ta) == 2 and at is not None:
            if at.base == ta[0].base:
                return frozenset('L')
            if at.base == ta[1].base:
                return frozenset('R')
        return self.all


class Try(Result):
    name = 'try'
    cls = 'folly::Try'
    all = frozenset('VX')
    default = '0'
    shown = {'V': 'a value', 'X': 'an exception', '0': 'empty'}
    tests = {'hasValue': (frozenset('V'), frozenset('X0')), 'hasException': (frozenset('X'), frozenset('V0'))}
    reads = {'value': (frozenset('V'), 'the value', None), 'exception': (frozenset('X'), 'the exception', None), 'operator*': (frozenset('V'), 'the value', None), 'operator->': (frozenset('V'), 'the value', None)}

    def made_from(self, F, env, n, v, a):
        return self.all


ITER = re.compile(r'std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator|__detail::_Local_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator)|__gnu_cxx::__normal_iterator|folly::.*[iI]terator')
LOOK = ('find', 'lower_bound', 'upper_bound')
ALGO = ('std::find', 'std::find_if', 'std::find_if_not', 'std::lower_bound', 'std::upper_bound', 'std::search', 'std::adjacent_find')


class Iter(Kind):
    """what a lookup found: an entry (I) or the end (E)"""
    name = 'it'
    all = frozenset('IE')

    def is_iter(self, t):
        return t is not None and t.strip_ref().k == 'rec' and ITER.match(strip_targs(t.strip_ref().base)) is not None

    def val(self, F, env, v):
        w = F.rv(env, v)
        return w if w is not None and w[0] == 'ts' and w[1] == self.name else None

    def found(self, F, env, c, key):
        st = self.all
        if c is not None and key is not None:
            f = env.get(('fact', 'has', c, key))
            if f is not None:
                st = frozenset('I' if f[1] else 'E')
        return ('ts', self.name, st, c, key)

    def call(self, F, env, n, q, obj, args):
        cls, _, m = q.rpartition('::')
        t = n.get('t')
        if m in LOOK and n.get('obj') is not None and self.is_iter(t) and len(args) == 1:
            c = obj[1] if obj is not None and obj[0] == 'pl' else None
            key = F.keyof(env, args[0]) if m == 'find' else None
            return [(env, self.found(F, env, c, key))]
        if m in ('count', 'contains') and n.get('obj') is not None and len(args) == 1 and cls.startswith('std::') and obj is not None and obj[0] == 'pl':
            key = F.keyof(env, args[0])
            return [(env, ('cond', ('has', obj[1], key), True))] if key is not None else None
        if cls.startswith('std::') and m in ('emplace', 'insert', 'operator[]', 'try_emplace', 'insert_or_assign') and obj is not None and obj[0] == 'pl' and args and 'map' in cls + 'set':
            key = F.keyof(env, args[0]) if ('map' in cls or 'set' in cls) and not (m == 'insert' and 'map' in cls) else None
            if key is None:
                return None
            outs = F.call(env, n, q, obj, args)
            return [(e.set(('fact', 'has', obj[1], key), ('b', True)), v) for e, v in outs]
        if m in ('end', 'cend') and n.get('obj') is not None and not args and self.is_iter(t):
            return [(env, ('end', obj[1] if obj is not None and obj[0] == 'pl' else None))]
        if q in ('std::end', 'std::cend') and len(args) == 1:
            return [(env, ('end', args[0][1] if args[0] is not None and args[0][0] == 'pl' else None))]
        if q in ALGO and self.is_iter(t) and len(args) >= 2:
            last = F.rv(env, args[1])
            e = F.escape_all(env, args, n.get('pt') or [], n)
            c = last[1] if last is not None and last[0] == 'end' else None
            return [(e, ('ts', self.name, self.all, c, None))]
        if m in ('operator==', 'operator!='):
            xs = ([obj] if n.get('obj') is not None else []) + list(args)
            if len(xs) == 2:
                for a, b in ((xs[0], xs[1]), (xs[1], xs[0])):
                    w, z = self.val(F, env, a), F.rv(env, b)
                    if w is not None and z is not None and z[0] == 'end':
                        if w[3] is not None and z[1] is not None and not (F.deps(w[3]) != F.deps(z[1]) and False):
                            F.use(n, 'the end compared with', w[3] == z[1] or not same_shape(w[3], z[1]), 'a lookup result is compared with the end of another container', self.name)
                        out = []
                        for b_, s in ((True, 'E'), (False, 'I')):
                            if s in w[2]:
                                e = env
                                if a is not None and a[0] == 'pl':
                                    e = e.set(F.res(env, a[1]), ('ts', self.name, frozenset(s)) + w[3:])
                                if w[3] is not None and w[4] is not None:
                                    e = e.set(('fact', 'has', w[3], w[4]), ('b', s == 'I'))
                                out.append((e, ('b', b_ == (m == 'operator=='))))
                        return out
        if m in ('operator*', 'operator->'):
            o = obj if n.get('obj') is not None else (args[0] if args else None)
            w = self.val(F, env, o)
            if w is not None:
                env = self.deref(F, env, n, o, w)
                return [(env, ('pl', o[1] + ('*',)) if o is not None and o[0] == 'pl' else None)]
        if m in ('operator++', 'operator--') and n.get('obj') is not None:
            w = self.val(F, env, obj)
            if w is not None and obj is not None and obj[0] == 'pl':
                return [(F.kill(env, obj[1]), None)]
        if m == 'operator=' and len(args) == 1 and self.is_iter((n.get('obj') or {}).get('t')) and obj is not None and obj[0] == 'pl':
            w = F.rv(env, args[0])
            return [(F.store(env, obj[1], w if w is not None and w[0] in ('ts', 'end') else None), obj)]
        return None

    def deref(self, F, env, n, o, w):
        ob = n.get('obj') or (n['a'][0] if n.get('a') else n.get('e') or {})
        F.use(n, 'the entry %s refers to' % show_obj(ob), w[2] <= frozenset('I'), 'the entry %s refers to is read where the lookup may have found nothing' % show_obj(ob), self.name)
        if o is not None and o[0] == 'pl':
            env = env.set(F.res(env, o[1]), ('ts', self.name, frozenset('I')) + w[3:])
        return env


def same_shape(a, b):
    """both are named containers whose names do not go through something unknown"""
    return isinstance(a, tuple) and isinstance(b, tuple) and all(not (isinstance(x, tuple) and x[:1] == ('call',)) for x in a + b) and all(x != '*' for x in a + b)


def show_obj(n):
    """a short name of the object an expression denotes"""
    while n is not None and n.get('k') in ('Full', 'Mat', 'Bind', 'Cast', 'Opaque', 'ArrayCopy') and n.get('e') is not None:
        n = n['e']
    if n is None:
        return 'a result'
    k = n.get('k')
    if k == 'Ref':
        return "'%s'" % n.get('n', '?')
    if k == 'Mem':
        return "'%s'" % n.get('n', '?')
    if k == 'Call':
        q = strip_targs(n.get('q', '')) or '?'
        m = q.rsplit('::', 1)[-1]
        if q in ('std::move', 'std::forward') and n.get('a'):
            return show_obj(n['a'][0])
        if m in ('operator*', 'operator->') and n.get('obj') is not None:
            return show_obj(n['obj'])
        if n.get('obj') is not None and m in ('get', 'value', 'operator[]', 'at', 'front', 'back'):
            return 'what %s() of %s gives' % (m, show_obj(n['obj']))
        return 'what %s() returns' % m
    return 'a temporary'
