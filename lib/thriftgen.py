"""Mini thrift IDL parser and declaration-only cpp2 header generator.

Parses /repo/src/common/interface/*.thrift (current tree).  Used (a) to give
clang the types the generated thrift headers would declare, and (b) as the IDL
side of the wire-agreement rules."""
import os, re, sys

TOK = re.compile(r'''\s+|//[^\n]*|\#[^\n]*|/\*.*?\*/|("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[A-Za-z_][\w.]*|[-+]?0x[0-9a-fA-F]+|[-+]?\d+(?:\.\d+)?|[{}()<>\[\],;:=*&])''', re.S)


class Idl:
    def __init__(self, name):
        self.name = name
        self.ns = ''
        self.includes = []
        self.cpp_includes = []
        self.typedefs = {}     # name -> (type, annotations)
        self.enums = {}        # name -> ([(n, v)], ann)
        self.structs = {}      # name -> dict(kind, fields[], ann)
        self.services = {}     # name -> [(ret, name, args, oneway)]
        self.order = []
        self.consts = {}


class Parser:
    def __init__(self, text, name):
        self.t = [m.group(1) for m in TOK.finditer(text) if m.group(1)]
        pos = 0
        for m in TOK.finditer(text):
            if m.start() != pos:
                raise SyntaxError('thrift: cannot tokenize %s at %r' % (name, text[pos:pos + 30]))
            pos = m.end()
        self.i = 0
        self.idl = Idl(name)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('thrift %s: expected %s got %s near %s' % (self.idl.name, x, y, self.t[self.i - 6:self.i + 4]))

    def ann(self):
        r = {}
        if self.eat('('):
            while not self.eat(')'):
                k = self.next()
                v = True
                if self.eat('='):
                    v = self.next().strip('"\'')
                r[k] = v
                self.eat(',')
        return r

    def type(self):
        t = self.next()
        if t in ('list', 'set'):
            self.need('<'); a = self.type(); self.need('>')
            return {'k': t, 'a': [a], 'ann': self.ann()}
        if t == 'map':
            self.need('<'); a = self.type(); self.need(','); b = self.type(); self.need('>')
            return {'k': 'map', 'a': [a, b], 'ann': self.ann()}
        return {'k': t, 'ann': self.ann() if self.peek() == '(' else {}}

    def value(self):
        t = self.next()
        if t == '[':
            while not self.eat(']'):
                self.next()
            return '[]'
        if t == '{':
            d = 1
            while d:
                x = self.next()
                d += (x == '{') - (x == '}')
            return '{}'
        return t

    def fields(self, end):
        fs = []
        while not self.eat(end):
            fid = None
            if re.match(r'^-?\d+$', self.peek()):
                fid = int(self.next())
                self.need(':')
            req = None
            if self.peek() in ('required', 'optional'):
                req = self.next()
            t = self.type()
            n = self.next()
            default = None
            if self.eat('='):
                default = self.value()
            a = self.ann()
            self.eat(',') or self.eat(';')
            fs.append({'id': fid, 'req': req, 't': t, 'n': n, 'ann': a, 'default': default})
        return fs

    def parse(self):
        d = self.idl
        while self.peek() is not None:
            w = self.next()
            if w == 'namespace':
                lang = self.next(); ns = self.next()
                if lang == 'cpp':
                    d.ns = ns
            elif w == 'include':
                d.includes.append(self.next().strip('"'))
            elif w == 'cpp_include':
                d.cpp_includes.append(self.next().strip('"'))
            elif w == 'typedef':
                t = self.type(); n = self.next(); a = self.ann()
                d.typedefs[n] = (t, a); d.order.append(('typedef', n))
            elif w == 'enum':
                n = self.next(); self.need('{'); cs = []; v = -1
                while not self.eat('}'):
                    c = self.next()
                    if self.eat('='):
                        v = int(self.next(), 0)
                    else:
                        v += 1
                    self.ann()
                    self.eat(',') or self.eat(';')
                    cs.append((c, v))
                d.enums[n] = (cs, self.ann()); d.order.append(('enum', n))
            elif w in ('struct', 'union', 'exception'):
                n = self.next(); self.need('{')
                fs = self.fields('}')
                d.structs[n] = {'kind': w, 'fields': fs, 'ann': self.ann()}
                d.order.append(('struct', n))
            elif w == 'service':
                n = self.next()
                if self.eat('extends'):
                    self.next()
                self.need('{'); ms = []
                while not self.eat('}'):
                    ow = self.eat('oneway')
                    t = self.type(); m = self.next(); self.need('(')
                    args = self.fields(')')
                    if self.eat('throws'):
                        self.need('('); self.fields(')')
                    self.ann()
                    self.eat(',') or self.eat(';')
                    ms.append((t, m, args, ow))
                d.services[n] = ms; self.ann()
            elif w == 'const':
                t = self.type(); n = self.next(); self.need('='); d.consts[n] = (t, self.value())
                self.eat(';') or self.eat(',')
            elif w in (';', ','):
                pass
            else:
                raise SyntaxError('thrift %s: unexpected %r' % (d.name, w))
        return d


def load(idir):
    r = {}
    for f in sorted(os.listdir(idir)):
        if f.endswith('.thrift'):
            r[f[:-7]] = Parser(open(os.path.join(idir, f)).read(), f[:-7]).parse()
    return r


BASE = {'i16': 'int16_t', 'i32': 'int32_t', 'i64': 'int64_t', 'byte': 'int8_t', 'i8': 'int8_t', 'bool': 'bool',
        'double': 'double', 'float': 'float', 'string': 'std::string', 'binary': 'std::string', 'void': 'void'}


class Gen:
    def __init__(self, idls):
        self.m = idls

    def cns(self, d):
        return d.ns.replace('.', '::') + '::cpp2'

    def lookup(self, d, name):
        if '.' in name:
            mod, n = name.rsplit('.', 1)
            return self.m[mod], n
        return d, name

    def cpp(self, d, t, ann=None):
        a = dict(t.get('ann') or {})
        a.update(ann or {})
        if 'cpp.type' in a and a['cpp.type'] is not True:
            return a['cpp.type']
        k = t['k']
        if k in BASE:
            return BASE[k]
        if k in ('list', 'set', 'map'):
            tmpl = a.get('cpp.template') or a.get('cpp2.template') or {'list': 'std::vector', 'set': 'std::set', 'map': 'std::map'}[k]
            return '%s<%s>' % (tmpl, ', '.join(self.cpp(d, x) for x in t['a']))
        dd, n = self.lookup(d, k)
        if n in dd.typedefs:
            tt, aa = dd.typedefs[n]
            if 'cpp.type' in aa:
                return aa['cpp.type']
            return '::%s::%s' % (self.cns(dd), n)
        if n in dd.structs and 'cpp.type' in dd.structs[n]['ann']:
            return dd.structs[n]['ann']['cpp.type']
        if n in dd.enums and 'cpp.type' in dd.enums[n][1]:
            return dd.enums[n][1]['cpp.type']
        return '::%s::%s' % (self.cns(dd), n)

    def header(self, d):
        o = ['#pragma once', '#include "common/base/Base.h"', '#include <thrift_stub.h>']
        for i in d.includes:
            o.append('#include "common/interface/gen-cpp2/%s_types.h"' % os.path.basename(i)[:-7])
        for i in d.cpp_includes:
            o.append('#include "%s"' % i)
        o.append('namespace %s {' % self.cns(d))
        for k, n in d.order:
            if k == 'struct' and 'cpp.type' not in d.structs[n]['ann']:
                o.append('class %s;' % n)
        tail = []
        emitted = set()
        def emit_struct(n):
            if n in emitted:
                return
            emitted.add(n)
            s = d.structs[n]
            def deps(t):
                if t['k'] in ('list', 'set', 'map'):
                    for x in t['a']:
                        deps(x)
                else:
                    dd, nn = self.lookup(d, t['k'])
                    if dd is d and nn in d.structs and 'cpp.type' not in d.structs[nn]['ann'] and nn not in emitted:
                        emit_struct(nn)
            for f in s['fields']:
                deps(f['t'])
            o.append('class %s final {' % n)
            o.append(' public:')
            o.append('  %s();' % n)
            o.append('  %s(const %s&);' % (n, n)); o.append('  %s(%s&&);' % (n, n))
            o.append('  %s& operator=(const %s&);' % (n, n)); o.append('  %s& operator=(%s&&);' % (n, n))
            o.append('  ~%s();' % n)
            o.append('  bool operator==(const %s&) const; bool operator!=(const %s&) const; bool operator<(const %s&) const;' % (n, n, n))
            o.append('  void __clear();')
            if s['kind'] == 'union':
                o.append('  enum class Type : int { __EMPTY__ = 0, %s };' % ', '.join('%s = %d' % (f['n'], f['id']) for f in s['fields']))
                o.append('  Type getType() const;')
                for f in s['fields']:
                    t = self.cpp(d, f['t'], f['ann'])
                    o.append('  %s const& get_%s() const; %s& mutable_%s(); %s move_%s();' % (t, f['n'], t, f['n'], t, f['n']))
                    o.append('  template <class T_> %s& set_%s(T_&& v);' % (t, f['n']))
            else:
                if s['fields']:
                    o.append('  template <class... A_> %s(::apache::thrift::FragileConstructor, A_&&...);' % n)
                isset = []
                for f in s['fields']:
                    t = self.cpp(d, f['t'], f['ann'])
                    if f['ann'].get('cpp.ref_type') == 'unique' or 'cpp.ref' in f['ann']:
                        t = 'std::unique_ptr<%s>' % t
                    o.append('  %s %s;' % (t, f['n']))
                    opt = f['req'] == 'optional'
                    rt = 'optional_field_ref' if opt else 'field_ref'
                    o.append('  ::apache::thrift::%s<%s&> %s_ref() &; ::apache::thrift::%s<const %s&> %s_ref() const &;' % (rt, t, f['n'], rt, t, f['n']))
                    o.append('  const %s& get_%s() const; %s& set_%s(%s v);' % (t, f['n'], t, f['n'], t))
                    if opt:
                        o[-1] = '  const %s* get_%s() const; %s& set_%s(%s v);' % (t, f['n'], t, f['n'], t)
                    isset.append(f['n'])
                o.append('  struct __isset { bool %s; } __isset;' % ', '.join(isset) if isset else '')
            o.append('};')
        for k, n in sorted(d.order, key=lambda x: x[0] == 'struct'):
            if k == 'typedef':
                t, a = d.typedefs[n]
                o.append('using %s = %s;' % (n, self.cpp(d, t, a)))
            elif k == 'enum':
                cs, a = d.enums[n]
                if 'cpp.type' in a:
                    continue
                o.append('enum class %s { %s };' % (n, ', '.join('%s = %d' % c for c in cs)))
                tail.append('template <> struct TEnumTraits<::%s::%s> { static const char* findName(::%s::%s); static bool findValue(const char*, ::%s::%s*); };' % ((self.cns(d), n) * 3))
                o.append('extern const std::map<%s, const char*> _%s_VALUES_TO_NAMES;' % (n, n))
            else:
                if 'cpp.type' not in d.structs[n]['ann']:
                    emit_struct(n)
        o.append('}')
        if tail:
            o.append('namespace apache { namespace thrift {'); o += tail; o.append('}}')
        return '\n'.join(o) + '\n'

    def client(self, d, svc):
        o = ['#pragma once', '#include "common/interface/gen-cpp2/%s_types.h"' % d.name, 'namespace %s {' % self.cns(d)]
        o.append('class %sAsyncClient { public:' % svc)
        o.append('  explicit %sAsyncClient(std::shared_ptr<::apache::thrift::RequestChannel>);' % svc)
        o.append('  ::apache::thrift::RequestChannel* getChannel();')
        for t, m, args, ow in d.services[svc]:
            rt = self.cpp(d, t)
            fut = 'folly::Unit' if rt == 'void' else rt
            ps = ', '.join('const %s& %s' % (self.cpp(d, a['t'], a['ann']), a['n']) for a in args)
            o.append('  folly::Future<%s> future_%s(%s);' % (fut, m, ps))
            o.append('  folly::SemiFuture<%s> semifuture_%s(%s);' % (fut, m, ps))
        o.append('};')
        o.append('class %sSvIf : public ::apache::thrift::ServerInterface { public: virtual ~%sSvIf();' % (svc, svc))
        for t, m, args, ow in d.services[svc]:
            rt = self.cpp(d, t)
            fut = 'folly::Unit' if rt == 'void' else rt
            ps = ', '.join('const %s& %s' % (self.cpp(d, a['t'], a['ann']), a['n']) for a in args)
            o.append('  virtual folly::Future<%s> future_%s(%s);' % (fut, m, ps))
        o.append('};')
        o.append('}')
        return '\n'.join(o) + '\n'


def generate(idir, out):
    m = load(idir)
    g = Gen(m)
    base = os.path.join(out, 'common/interface/gen-cpp2')
    os.makedirs(base, exist_ok=True)
    def put(p, s):
        p = os.path.join(base, p)
        if not os.path.exists(p) or open(p).read() != s:
            with open(p + '.tmp%d' % os.getpid(), 'w') as f:
                f.write(s)
            os.replace(p + '.tmp%d' % os.getpid(), p)
    for n, d in m.items():
        put(n + '_types.h', g.header(d))
        put(n + '_types.tcc', '#pragma once\n')
        for s in d.services:
            put(s + 'AsyncClient.h', g.client(d, s))
            put(s + '.h', '#pragma once\n#include "common/interface/gen-cpp2/%sAsyncClient.h"\n' % s)


if __name__ == '__main__':
    generate(sys.argv[1], sys.argv[2])
