"""C18: scanning a header declares what the header declares: random annotated headers through castxml, the module and the script written by the scan."""
import os, sys, json, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod, core

STAGE = r'''
def prepare(module):
    module.add_exception('exception', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()')
'''
GEN = STAGE + r'''
from pybindgen.castxmlparser import ModuleParser, PygenClassifier, PygenSection
import json, re, warnings
from pybindgen.castxmlparser import AnnotationsWarning
warnings.filterwarnings('error', "invalid annotation name '(caller_owns_return|transfer_ownership|default_value|direction)'", AnnotationsWarning)
conf = json.load(open(os.path.join(outdir, 'conf.json')))
def pre(parser, d, annotations, params):
    n = d.name or ''
    if n[:2] == 'hk' and n != 'hk_v':
        annotations['name'] = 'hooked_' + n
        if n[:3] != 'hkm': params.setdefault('a', {})['direction'] = 'inout'
    elif n[:2] == 'hi' and n[2:3] != 'd': annotations['ignore'] = None
def scan(sink, classifier=None):
    p = ModuleParser(NAME, conf['ns'])
    posts = []
    p.add_pre_scan_hook(pre)
    p.add_post_scan_hook(lambda parser, d, wrapper: posts.append(d.name if type(d).__name__ != 'constructor_t' else ''))
    p.parse_init([os.path.join(outdir, h) for h in conf['headers']], includes=['"spec.h"'], whitelist_paths=[os.path.join(outdir, w) for w in conf['whitelist']] or None,
                 pygen_sink=sink, pygen_classifier=classifier, castxml_options={'include_paths': [outdir], 'cflags': '-std=gnu++14'})
    prepare(p.module)
    p.scan_types(); p.scan_methods(); p.scan_functions(); p.parse_finalize()
    json.dump(posts, open(os.path.join(outdir, 'posts.json'), 'w'))
    return p.module
mode = conf['mode']
if mode == 'one':
    with open(os.path.join(outdir, 'pygen_one.py'), 'w') as f: m = scan(FileCodeSink(f))
else:
    class Split(PygenClassifier):
        def classify(self, d):
            n = re.search('[0-9]+', d.name or '')
            return ['__main__', 'sect_a', 'sect_b'][conf['section'].get(n.group(0), 0) if n else 0]
        if conf['precedence']:
            def get_section_precedence(self, name): return ['__main__', 'sect_a', 'sect_b'].index(name)
    files = dict((n, open(os.path.join(outdir, f + '.py'), 'w')) for n, f in (('__main__', 'pygen_split'), ('sect_a', 'sect_a'), ('sect_b', 'sect_b')))
    m = scan([PygenSection(n, FileCodeSink(f)) for n, f in sorted(files.items())], Split())
    for f in files.values(): f.close()
emit(m, impl=False)
'''
RUN = STAGE + r'''
sys.path.insert(0, os.path.dirname(outdir))
import importlib
P = importlib.import_module('PYGEN')
m = P.module_init()
prepare(m)
P.register_types(m); P.register_methods(m); P.register_functions(m)
emit(m, impl=False)
'''


class Ctx(object):
    """a namespace or class that declarations go into"""
    def __init__(self, g, path, cpp, cls=None):
        self.g, self.path, self.cpp, self.cls = g, path, cpp, cls
        self.lines, self.names, self.probes = [], set(), []
        g.ctxs.append(self)

    def q(self, name): return self.cpp + '::' + name

    def add(self, text, names='', probe='', note=None):
        for l in text.strip('\n').split('\n'): self.lines.append(l)
        self.names |= set(names.split())
        if probe: self.probes.append((note or self.g.item, probe))


class Gen(object):
    def __init__(self, rng):
        self.rng, self.n, self.ctxs, self.item, self.section, self.sect = rng, 0, [], '', {}, 0
        self.outside = []
        self.other, self.hooked = dict((w, '') for w in ('white', 'white/sub', 'black', 'black/sub')), []
        self.where = {}

    def id(self, prefix):
        self.n += 1
        self.section[str(self.n)] = self.sect
        return '%s%d' % (prefix, self.n)

    def k(self): return self.rng.randint(2, 90)

    # ---- items of a namespace
    def i_fn(self, c):
        f, k = self.id(self.rng.choice(['f', 'Get', 'do_', 'x_y_'])), self.k()
        d = self.rng.choice(['7', '3+4', '0x7', 'sizeof(char) + 6', "'\\a'", '(int) 7.5'])
        c.add('inline int %s(int a, int b = %s) { return a * 3 + b + %d; }' % (f, d, k), f,
              'assert S.%s(2) == 13 + %d and S.%s(a=1, b=1) == 4 + %d and S.%s(1, b=2) == 5 + %d\nfails(TypeError, S.%s)\nfails(TypeError, S.%s, 1, 2, 3)' % (f, k, f, k, f, k, f, f))

    def i_str(self, c):
        f, k = self.id('str'), self.k()
        c.add('inline std::string %s(std::string const &s, const char *t = "x\\"\\\\y, (z)", std::string u = std::string("u")) { return s + t + u + "%d"; }' % (f, k), f,
              'assert S.%s("ab") == "ab" + \'x"\\\\y, (z)\' + "u%d"\nassert S.%s("", "q", u="é") == "qé%d"' % (f, k, f, k))

    def i_overload(self, c):
        f, k = self.id('over'), self.k()
        lines = ['inline int %s(int a) { return a + %d; }', 'inline int %s(const std::string &a) { return (int) a.size() * 100 + %d; }', 'inline int %s(int a, int b) { return a * b + %d; }', 'inline int %s() { return %d; }']
        self.rng.shuffle(lines)
        c.add('\n'.join(l % (f, k) for l in lines), f, 'assert S.%s(1) == %d and S.%s("abc") == %d and S.%s(3, 5) == %d and S.%s() == %d' % (f, k + 1, f, 300 + k, f, 15 + k, f, k))

    def i_numbers(self, c):
        f, k = self.id('num'), self.k()
        t, v = self.rng.choice([('short', -300), ('unsigned short', 65000), ('long', -1 << 40), ('unsigned long', 1 << 60), ('long long', -1 << 50), ('unsigned long long', 1 << 63), ('unsigned', 4000000000), ('uint8_t', 200), ('int8_t', -100),
                                ('uint16_t', 65000), ('int64_t', -1 << 60), ('uint64_t', 1 << 62), ('int32_t', -5), ('size_t', 1 << 40), ('double', 2.5), ('float', -0.5), ('bool', True), ('bool', False), ('char', ord('q'))])
        if t == 'char':
            c.add("inline char %s(char a, char b = 'z') { return a == 'q' ? b : 'n'; }" % f, f, 'assert S.%s(b"q") == b"z" and S.%s(b"q", b"y") == b"y" and S.%s(b"r") == b"n"' % (f, f, f))
            return
        p = self.rng.choice(['', 'const '])
        c.add('inline %s%s %s(%s%s a) { return a; }' % (self.rng.choice(['', 'static ']), t, f, p, t), f, 'r = S.%s(%r); assert r == %r and type(r) is type(%r)' % (f, v, v, v))

    def i_typedef_scalar(self, c):
        t, f, k = self.id('myint'), self.id('td'), self.k()
        u = self.rng.choice(['int', 'unsigned', 'uint64_t', 'std::string'])
        v, w = ('"w"', '"w%d"' % k) if 'str' in u else ('4', 4 + k)
        c.add('typedef %s %s;\ninline %s %s(%s a, const %s &b = %s()) { return a + b + %s; }' % (u, t, t, f, self.rng.choice([t, c.q(t)]), t, t, '"%d"' % k if 'str' in u else k) if 'str' in u else
              'typedef %s %s;\ninline %s %s(%s a) { return a + %d; }' % (u, t, t, f, self.rng.choice([t, c.q(t)]), k), f, 'assert S.%s(%s) == %s' % (f, v, w))

    def i_enum(self, c):
        e, f, k = self.id('Enum'), self.id('ef'), self.k()
        a = [self.id('E_') for _ in range(3)]
        if self.rng.random() < .5:
            c.add('enum %s { %s = %d, %s, %s = -%d };' % (e, a[0], k, a[1], a[2], k), ' '.join(a))
        else:
            c.add('typedef enum { %s = %d, %s, %s = -%d } %s;' % (a[0], k, a[1], a[2], k, e), ' '.join(a))
            return c.add('', '', 'assert (S.%s, S.%s, S.%s) == (%d, %d, -%d)' % (a[0], a[1], a[2], k, k + 1, k))
        c.add('inline %s %s(%s v = %s) { return v == %s ? %s : %s; }' % (e, f, e, a[1], a[1], a[2], a[0]), f,
              'assert (S.%s, S.%s, S.%s) == (%d, %d, -%d)\nassert S.%s() == -%d and S.%s(S.%s) == %d' % (a[0], a[1], a[2], k, k + 1, k, f, k, f, a[2], k))

    def i_ignore(self, c):
        f = self.id('ign')
        c.add('// -#- ignore -#-\ninline int %s(int a) { return a; }\n// -#- ignore -#-\nstruct %s_c { int a; };\n// -#- ignore -#-\nenum %s_e { %s_v };' % (f, f, f, f), '')

    def i_rename(self, c):
        f, g, k = self.id('orig'), self.id('renamed'), self.k()
        c.add('%s\ninline int %s(int a) { return a + %d; }' % (self.rng.choice(['// -#- name=%s -#-', '/* -#- name=%s -#- */', '// -#- name=%s; @a(direction=in) -#-', '// -#- @a(direction=in) -#-\n// -#- name=%s -#-']) % g, f, k), g, 'assert S.%s(1) == %d' % (g, k + 1))

    def i_inout(self, c):
        f, k = self.id('io'), self.k()
        t = self.rng.choice(['int', 'double', 'std::string'])
        one, plus = ('"a"', '"ab"') if 'str' in t else ('2', '3')
        add = '"b"' if 'str' in t else '1'
        ref = self.rng.choice(['&', '*']); d = '*' if ref == '*' else ''
        c.add('// -#- @a(direction=inout); @b(direction=out) -#-\ninline int %s(%s %sa, int q, %s %sb) { %sb = %sa; %sa += %s; return q + %d; }' % (f, t, ref, t, ref, d, d, d, add, k), f, 'assert S.%s(%s, 5) == (%d, %s, %s)' % (f, one, 5 + k, plus, one))

    def i_array(self, c):
        f, k = self.id('arr'), self.k()
        c.add('// -#- @a(direction=in, array_length=3) -#-\ninline float %s(float *a) { return a[0] + 10 * a[1] + 100 * a[2] + %d; }' % (f, k), f, 'assert S.%s([1.0, 2.0, 3.0]) == 321 + %d' % (f, k))

    def i_default_value(self, c):
        f, k = self.id('dv'), self.k()
        c.add('// -#- @b(default_value=%d) -#-\ninline int %s(int a, int b) { return a * 1000 + b; }' % (k, f), f, 'assert S.%s(1) == 1000 + %d and S.%s(1, 2) == 1002' % (f, k, f))
        f, k = self.id('dvo'), self.k()
        c.add('// -#- @b(default_value=%d) -#-\ninline int %s(int a, int b = 3, int c = 4) { return a * 10000 + b * 10 + c; }' % (k, f), f, 'assert S.%s(1) == 10004 + %d and S.%s(1, 2) == 10024 and S.%s(1, c=5) == 10005 + %d' % (f, k * 10, f, f, k * 10))

    def i_template_fn(self, c):
        f, k = self.id('tf'), self.k()
        custom = self.rng.random() < .5
        note = '// -#- template_instance_names=int=>%s_of_int|double=>%s_of_double -#-\n' % (f, f) if custom else ''
        c.add('template <typename T> T %s(T a) { return a + %d; }\n%stemplate <> inline int %s<int>(int a) { return a + %d; }\n%stemplate <> inline double %s<double>(double a) { return a - %d; }' % (f, k, note, f, k, note, f, k),
              '%s_of_int %s_of_double' % (f, f) if custom else '%s__lt__int__gt__ %s__lt__double__gt__' % (f, f),
              'assert S.%s(5) == %d and S.%s(2.5) == %r' % (f + ('_of_int' if custom else '__lt__int__gt__'), k + 5, f + ('_of_double' if custom else '__lt__double__gt__'), 2.5 - k))

    def i_throw(self, c):
        e, f = self.id('Err'), self.id('thr')
        c.add('// -#- exception -#-\nstruct %s { int code; }; // %s\n' % (e, e)
              + self.rng.choice(['// -#- throw=%s -#-\ninline int %s(int a) { if (a) throw %s(); return 3; }' % (c.q(e), f, e), 'inline int %s(int a) throw(%s) { if (a) throw %s(); return 3; }' % (f, e, e)]),
              '%s %s' % (e, f), 'assert S.%s(0) == 3\ne = fails(S.%s, S.%s, 1)' % (f, e, f))

    def i_container(self, c):
        f, k = self.id('cont'), self.k()
        kind = self.rng.choice(['vector<int>', 'list<std::string>', 'set<int>', 'map<std::string, int>', 'vector<std::string>', 'vector<double>'])
        value = {'vector<int>': '[3, 1]', 'list<std::string>': '["b", "a"]', 'set<int>': '{3, 1}', 'map<std::string, int>': '[("a", 1), ("b", 2)]', 'vector<std::string>': '["", "x"]', 'vector<double>': '[.5]'}[kind]
        t = 'std::' + kind
        td = ''
        if self.rng.random() < .4:
            td = self.id('Td')
            c.add('typedef %s %s;' % (t, td)); t = td
        kind2 = self.rng.choice(['%s', 'const %s &'])
        c.add('inline %s %s(%s a) { return a; }' % (t, f, kind2 % t), f, 'v = %s; r = S.%s(list(v)); assert type(v)(r) == v, list(r)' % (value, f))

    def i_skipped(self, c):
        f, k = self.id('sk'), self.k()
        c.add('struct %s_U;\ninline int %s(%s_U *a) { return 1; }\ninline int %s(int a) { return a + %d; }\ninline int %s_fp(int (*cb)(int)) { return cb(3); }\nextern int %s_var;' % (f, f, f, f, k, f, f), f, 'assert S.%s(1) == %d' % (f, k + 1))

    def i_hook(self, c):
        f, g, C, k = self.id('hk'), self.id('hi'), self.id('HkC'), self.k()
        c.add('inline void %s(int &a) { a += %d; }\ninline int %s() { return 1; }\nstruct %s_c { int a; };\nstruct %s { int hk_v; int hkm_%s() { return %d; } int him_%s() { return 1; } };' % (f, k, g, g, C, f, k, f), 'hooked_%s %s' % (f, C),
              'assert S.hooked_%s(3) == %d and S.%s().hooked_hkm_%s() == %d' % (f, k + 3, C, f, k))
        self.new_class(c, C, 'hk_v hooked_hkm_' + f)
        self.hooked += [f, C, 'hkm_' + f]

    def i_elsewhere(self, c):
        k = self.id('')
        for where in ('white', 'black') if self.rng.random() < .5 else ('white/sub', 'black/sub'):
            path = self.tree[0].path
            if not self.other[where]:     # a declaration in the first line, and an annotation in the last that belongs to nothing
                self.other[where] = '%s inline int first%s_%s(int a) { return a + 2; } %s\n' % ('namespace top {' if self.tree[0].cpp else '', k, where[:5], '}' if self.tree[0].cpp else '')
                if where[:5] == 'white': self.tree[0].add('', 'first%s_white' % k, 'assert S.first%s_white(1) == 3' % k)
            d, where = where, where.split('/')[0]
            self.other[d] += '%s\ninline int else%s_%s(int a) { return a + 1; }\nstruct Else%s_%s { int a; int els() { return 3; } };\nenum { ELSE%s_%s = 4 };\n%s\n' % ('namespace top {' if self.tree[0].cpp else '', k, where, k, where, k, where, '}' if self.tree[0].cpp else '')
        self.tree[0].add('inline int use_else%s(Else%s_white const &a, int b = 1) { return a.a; }\ninline int skip_else%s(Else%s_black const &a) { return a.a; }' % (k, k, k, k), 'else%s_white Else%s_white ELSE%s_white use_else%s' % (k, k, k, k),
                         'assert S.else%s_white(1) == 2 and S.Else%s_white().els() == 3 and S.ELSE%s_white == 4\no = S.Else%s_white(); o.a = 7\nassert S.use_else%s(o) == 7' % (k, k, k, k, k))
        self.new_class(self.tree[0], 'Else%s_white' % k, 'a els')

    def i_derived(self, c):
        A, B, f, k = self.id('Zb'), self.id('Ad'), self.id('df'), self.k()
        v = self.rng.choice(['', 'virtual '])
        self.outside.append('')
        c.add('struct %(A)s { int x; %(v)sint m() { return x; } static int s() { return 5; } enum { %(A)s_E = %(k)d }; struct I%(A)s { int q; I%(A)s() : q(%(k)d) {} }; explicit %(A)s(int a = 3) : x(a) {} %(v)s~%(A)s() {} };\n'
              'class %(B)s : public %(A)s { public: int y; %(B)s(int a, int b) : %(A)s(a), y(b) {} struct J%(B)s : I%(A)s { }; };\ninline int %(f)s(%(A)s &a) { return a.m() * 10; }\ninline int %(f)s_in(%(B)s::I%(A)s const &a = %(q)s::I%(A)s()) { return a.q; }' % dict(A=A, B=B, f=f, k=k, v=v, q=c.q(A)), '%s %s %s %s_in' % (A, B, f, f), """
b = S.%(B)s(1, b=2)
assert isinstance(b, S.%(A)s) and (b.x, b.y, b.m(), S.%(B)s.s(), S.%(f)s(b), S.%(B)s.%(A)s_E) == (1, 2, 1, 5, 10, %(k)d) and S.%(A)s().x == 3
assert S.%(f)s_in() == %(k)d and S.%(f)s_in(S.%(B)s.J%(B)s()) == %(k)d and issubclass(S.%(B)s.J%(B)s, S.%(A)s.I%(A)s)
fails(TypeError, S.%(B)s)
fails(TypeError, S.%(B)s, 1)""" % dict(A=A, B=B, f=f, k=k))
        self.new_class(c, A, 'x m s I%s %s_E' % (A, A)); self.new_class(c, B, 'y J' + B); self.new_class(c, A + '.I' + A, 'q'); self.new_class(c, B + '.J' + B, '')

    def i_abstract(self, c):
        A, B, f, k = self.id('Ab'), self.id('Im'), self.id('abf'), self.k()
        c.add('struct %(A)s_U;\nclass %(A)s { protected: %(A)s() {} public: virtual ~%(A)s() {} virtual int unknown(%(A)s_U *u) = 0; virtual int v(int a) = 0; int plain() { return v(%(k)d); } };\nclass %(B)s : public %(A)s { public: virtual int unknown(%(A)s_U *u) { return 1; } virtual int v(int a) { return a + 1; } };\n'
              'struct %(A)s_p { virtual ~%(A)s_p() {} virtual int only() { return %(k)d; } protected: %(A)s_p(int) {} };\ninline int %(f)s(%(A)s &a) { return a.plain(); }' % dict(A=A, B=B, f=f, k=k), '%s %s %s %s_p' % (A, B, f, A), """
assert S.%(f)s(S.%(B)s()) == %(k)d + 1 and S.%(B)s().v(1) == 2 and S.%(B)s().plain() == %(k)d + 1
fails(TypeError, S.%(A)s)""" % dict(A=A, B=B, f=f, k=k))
        self.new_class(c, A, 'v plain'); self.new_class(c, B, 'v'); self.new_class(c, A + '_p', 'only')

    def i_klass(self, c):
        self.klass(c)

    def i_pointers(self, c):
        C, f, k = self.id('Ptr'), self.id('pf'), self.k()
        c.add('''struct %(C)s { int v; explicit %(C)s(int v_ = 1) : v(v_) { ++count(); } ~%(C)s() { v = -1; --count(); } static int &count() { static int n = 0; return n; } static int alive() { return count(); }
  private: %(C)s(const %(C)s &); };
// -#- @return(caller_owns_return=true) -#-
inline %(C)s *%(f)s_new(int v) { return new %(C)s(v); }
// -#- @p(transfer_ownership=true) -#-
inline int %(f)s_take(%(C)s *p) { int v = p->v; delete p; return v; }
// -#- @p(transfer_ownership=false) -#-
inline int %(f)s_look(%(C)s *p) { return p->v + %(k)d; }
// -#- @p(transfer_ownership=false, null_ok=true) -#-
inline int %(f)s_null(const %(C)s *p, int q = %(k)d) { return p ? p->v : q; }
// -#- @return(reference_existing_object=true) -#-
inline %(C)s *%(f)s_one() { static %(C)s c(%(k)d); return &c; }
inline int %(f)s_ref(%(C)s &p) { p.v++; return p.v; }
inline %(C)s *%(f)s_undecided();
inline %(C)s *%(f)s_undecided() { return 0; }
inline int %(f)s_undecided2(%(C)s *p) { return 0; }''' % dict(C=C, f=f, k=k), ' '.join([C] + [f + x for x in ('_new', '_take', '_look', '_null', '_one', '_ref')]), '''
S.%(C)s().v
n = S.%(C)s.alive()
p = S.%(f)s_new(5)
assert p.v == 5 and S.%(f)s_look(p) == 5 + %(k)d and S.%(f)s_ref(p) == 6 and S.%(C)s.alive() == n + 1
assert S.%(f)s_null(None) == %(k)d and S.%(f)s_null(p, 4) == 6
del p
assert S.%(C)s.alive() == n
assert S.%(f)s_take(S.%(C)s(3)) == 3 and S.%(C)s.alive() == n
p = S.%(f)s_one(); p.v += 1; q = S.%(f)s_one(); assert q.v == p.v; p.v -= 1
del p, q
assert S.%(f)s_one().v == %(k)d
assert S.%(C)s(4).v == 4 and S.%(C)s(v_=2).v == 2''' % dict(C=C, f=f, k=k))
        self.new_class(c, C, 'v alive')

    def i_refcount(self, c):
        C, k = self.id('Rc'), self.k()
        c.add('''// -#- incref_method=inc; decref_method=dec; peekref_method=refs -#-
class %(C)s { int n; public: int v; %(C)s() : n(1), v(%(k)d) { ++alive_(); } void inc() { ++n; } void dec() { if (--n == 0) delete this; } int refs() const { return n; } static int &alive_() { static int a = 0; return a; } static int alive() { return alive_(); }
  private: ~%(C)s() { --alive_(); } %(C)s(const %(C)s &); };
// -#- @return(caller_owns_return=true) -#-
inline %(C)s *make_%(C)s() { return new %(C)s; }''' % dict(C=C, k=k), '%s make_%s' % (C, C), '''
a = S.make_%(C)s(); b = S.%(C)s(); assert a.v == %(k)d and S.%(C)s.alive() == 2
del a, b
assert S.%(C)s.alive() == 0''' % dict(C=C, k=k))
        self.new_class(c, C, 'v alive')

    def i_as_method(self, c):
        C, f, k = self.id('Am'), self.id('amf'), self.k()
        c.add('struct %(C)s { int v; %(C)s() : v(%(k)d) {} };\n// -#- as_method=%(f)s_m; of_class=%(q)s -#-\n// -#- @o(transfer_ownership=false) -#-\ninline int %(f)s(%(C)s *o, int a) { return o->v + a; }\n// -#- is_constructor_of=%(q)s -#-\ninline %(C)s *%(f)s_c(std::string const &s) { %(C)s *p = new %(C)s; p->v = s.size(); return p; }'
              % dict(C=C, f=f, k=k, q=c.q(C)), C, 'assert S.%s().%s_m(3) == %d and S.%s("abcd").v == 4' % (C, f, k + 3, C))
        self.new_class(c, C, 'v ' + f + '_m')

    def i_annotated_constructors(self, c):
        A, C, k, j = self.id('Ca'), self.id('Cc'), self.k(), self.k()
        c.add("""struct %(A)s { int v; %(A)s() : v(%(k)d) {} };
struct %(C)s { int v;
  %(C)s() : v(%(j)d) {}
  // -#- @a(transfer_ownership=false) -#-
  %(C)s(%(A)s *a, int b) : v(a->v + b) {}
  // -#- @a(transfer_ownership=false, null_ok=true) -#-
  %(C)s(%(A)s *a) : v(a ? a->v : %(j)d) {}
  // -#- @b(transfer_ownership=false); @a(transfer_ownership=false) -#-
  %(C)s(double k, %(A)s *b, %(A)s *a) : v(b->v + a->v + (int) k) {}
  // -#- ignore -#-
  %(C)s(std::string const &s) : v(s.size()) {}
};""" % dict(A=A, C=C, k=k, j=j), '%s %s' % (A, C), """
a = S.%(A)s()
assert S.%(C)s(a, 2).v == %(k)d + 2 and S.%(C)s(b=3, a=a).v == %(k)d + 3 and S.%(C)s(a).v == %(k)d and S.%(C)s(None).v == %(j)d and S.%(C)s().v == %(j)d
assert S.%(C)s(1.5, a, S.%(A)s()).v == %(k)d * 2 + 1 and a.v == %(k)d
try: S.%(C)s('abc')
except TypeError: pass
else: assert 0, 'ignored constructor'""" % dict(A=A, C=C, k=k, j=j))
        self.new_class(c, A, 'v'); self.new_class(c, C, 'v')

    def i_typedef_class(self, c):
        C, D, f, k = self.id('Tc'), self.id('Td'), self.id('tcf'), self.k()
        c.add('struct %(C)s { int v; %(C)s() : v(%(k)d) {} };\ntypedef %(C)s %(D)s;\ninline int %(f)s(%(D)s const &a) { return a.v; }\ninline %(D)s %(f)s_r() { return %(D)s(); }' % dict(C=C, D=D, f=f, k=k), '%s %s %s %s_r' % (C, D, f, f),
              'assert S.%(C)s is S.%(D)s and S.%(f)s(S.%(D)s()) == %(k)d and type(S.%(f)s_r()) is S.%(C)s' % dict(C=C, D=D, f=f, k=k))
        self.new_class(c, C, 'v')

    def i_incomplete(self, c):
        C, f, k = self.id('Inc'), self.id('incf'), self.k()
        self.g_impl.append('namespace { } struct %s_body { int x; };' % C)
        c.add('// -#- free_function=%(fq)s_free -#-\nstruct _%(C)s;\ntypedef struct _%(C)s %(C)s;\n// -#- @return(caller_owns_return=true) -#-\ninline %(C)s *%(f)s_new() { return (%(C)s *) new int(%(k)d); }\n// -#- ignore -#-\ninline void %(f)s_free(%(C)s *p) { delete (int *) p; }\n// -#- @p(transfer_ownership=false) -#-\ninline int %(f)s_get(%(C)s *p) { return *(int *) p; }'
              % dict(C=C, f=f, k=k, fq=c.q(f)), '%s %s_new %s_get' % (C, f, f), 'assert S.%s_get(S.%s_new()) == %d' % (f, f, k))
        self.new_class(c, C, '')

    def i_template_class(self, c):
        C, k = self.id('Tm'), self.k()
        named = self.rng.random() < .6
        c.add('template <typename T> class %(C)s { T v; public: %(C)s() : v() {} %(C)s(T a) : v(a) {} T get() const { return v; } void set(T a) { v = a; } };' % dict(C=C))
        for t, v, w in (('int', '4', '0'), ('double', '2.5', '0.0'), ('std::string', '"q"', '""'))[:3 if named else 2]:
            D = self.id('Ti') if named else '%s__%s' % (C, t.capitalize())
            c.add('template class %s<%s>;' % (C, t))
            if named: c.add('typedef %s<%s> %s;' % (C, t, D))
            f = self.id('tmf')
            c.add('inline int %s(%s<%s> const &a) { return %d; }' % (f, C, t, k), '%s %s' % (D, f), 'o = S.%s(); assert o.get() == %s\no.set(%s); assert o.get() == %s and S.%s(o) == %d and S.%s(%s).get() == %s' % (D, w, v, v, f, k, D, v, v))
            self.new_class(c, D, 'get set')

    def i_virtual(self, c):
        B, D, f, k = self.id('Vb'), self.id('Vd'), self.id('vf'), self.k()
        pure = self.rng.random() < .5
        c.add('''class %(B)s { public: %(B)s() {} virtual ~%(B)s() {} virtual int val(int a) const%(p)s virtual std::string name() { return prot() + "%(B)s"; } int call(int a) { return val(a); } int callp(int a) { return priv(a) + 1; } protected: virtual std::string prot() { return "p"; } private: virtual int priv(int a) { return a * 5; } int nonvirtual(int a) { return a; } };
class %(D)s : public %(B)s { public: %(D)s() {} virtual int val(int a) const { return a + %(k)d; } };
inline int %(f)s(%(B)s &b) { return b.call(1); }''' % dict(B=B, D=D, f=f, k=k, p=' = 0;' if pure else ' { return a - %d; }' % k), '%s %s %s' % (B, D, f), '''
assert S.%(D)s().val(2) == %(k)d + 2 and S.%(f)s(S.%(D)s()) == 1 + %(k)d and S.%(D)s().name() == "p%(B)s" and isinstance(S.%(D)s(), S.%(B)s)
class X(S.%(B)s):
    def val(self, a): return a * 7
    def priv(self, a): return a * 11
assert S.%(f)s(X()) == 7 and X().call(2) == 14 and X().name() == "p%(B)s" and X().callp(2) == 23 and S.%(D)s().callp(2) == 11
class Y(S.%(D)s):
    def prot(self): return "Y"
assert Y().name() == "Y%(B)s" and S.%(f)s(Y()) == 1 + %(k)d
%(e)s''' % dict(B=B, D=D, f=f, k=k, e='fails(TypeError, S.%s)' % B if pure else 'assert S.%s().val(5) == 5 - %d' % (B, k)))
        self.new_class(c, B, 'val name call callp prot'); self.new_class(c, D, 'val prot')

    def i_operators(self, c):
        C, k = self.id('Op'), self.k()
        c.add('''class %(C)s { public: int v; %(C)s(int v_ = 0) : v(v_) {} bool operator==(const %(C)s &o) const { return v == o.v; } %(C)s operator-() const { return %(C)s(-v); } int operator()(int a, int b = 2) { return v + a * b; } %(C)s operator*(const %(C)s &o) const { return %(C)s(v * o.v); }
 %(C)s &operator*=(const %(C)s &o) { v *= o.v; return *this; } private: bool operator>=(const %(C)s &o) const; };
inline %(C)s operator+(%(C)s const &a, %(C)s const &b) { return %(C)s(a.v + b.v); }
inline %(C)s operator-(%(C)s const &a, int b) { return %(C)s(a.v - b - %(k)d); }
inline bool operator<(%(C)s const &a, %(C)s const &b) { return a.v < b.v; }
inline bool operator!=(%(C)s const &a, %(C)s const &b) { return a.v != b.v; }
inline %(C)s &operator-=(%(C)s &a, %(C)s const &b) { a.v -= b.v; return a; }
inline std::ostream &operator<<(std::ostream &o, %(C)s const &a) { return o << "<" << a.v << ">"; }''' % dict(C=C, k=k), C, '''
C = S.%(C)s; a = C(6); b = C(2)
assert (a + b).v == 8 and (a - 1).v == 5 - %(k)d and (-a).v == -6 and (a * b).v == 12 and b < a and not a < b and a != b and a == C(6) and not a == b and str(a) == "<6>" and a(1) == 8 and a(1, b=5) == 11
a *= b; assert a.v == 12
a -= b; assert a.v == 10
fails(TypeError, lambda: a >= b)''' % dict(C=C, k=k))
        self.new_class(c, C, 'v')

    def i_convert(self, c):
        A, B, f, k = self.id('Ca'), self.id('Cb'), self.id('cf'), self.k()
        if self.rng.random() < .5: A, B = B, A
        c.add('struct %(B)s { int v; %(B)s() : v(0) {} };\nstruct %(A)s { int w; %(A)s() : w(%(k)d) {} operator %(B)s() const { %(B)s b; b.v = w + 1; return b; } operator int() const { return 1; } };\ninline int %(f)s(%(B)s b) { return b.v; }\ninline int %(f)s_r(%(B)s const &b) { return b.v; }' % dict(A=A, B=B, f=f, k=k),
              '%s %s %s %s_r' % (A, B, f, f), 'assert S.%s(S.%s()) == %d and S.%s_r(S.%s()) == %d and S.%s(S.%s()) == 0' % (f, A, k + 1, f, A, k + 1, f, B))
        self.new_class(c, A, 'w'); self.new_class(c, B, 'v')

    def i_custom_class(self, c):
        C, D, k = self.id('Cc'), self.id('Named'), self.k()
        c.add('// -#- custom_name=%(D)s; allow_subclassing=true -#-\nstruct %(C)s { int v; %(C)s() : v(%(k)d) {} };\ninline %(C)s make_%(C)s() { return %(C)s(); }' % dict(C=C, D=D, k=k), '%s make_%s' % (D, C), 'class X(S.%s): pass\nassert X().v == %d and type(S.make_%s()) is S.%s' % (D, k, C, D))
        self.new_class(c, D, 'v')

    def i_deprecated(self, c):
        f, k = self.id('dep'), self.k()
        c.add('inline int %s(int a) __attribute__((deprecated));\ninline int %s(int a) { return a + %d; }' % (f, f, k), f, '''
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    assert S.%s(1) == %d
assert [x.category for x in w] == [DeprecationWarning]''' % (f, k + 1))

    def i_deprecated_ctor(self, c):
        C, k = self.id('Dc'), self.k()
        c.add('struct %s { int v; %s() : v(%d) {} __attribute__((deprecated)) %s(int a, int b = 2) : v(a + b) {} };' % (C, C, k, C), C, """
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    assert S.%s().v == %d and not w
    assert S.%s(3).v == 5
assert [x.category for x in w] == [DeprecationWarning]""" % (C, k, C))
        self.new_class(c, C, 'v')

    def i_internal(self, c):
        C, D, f, k = self.id('In'), self.id('Out'), self.id('inf'), self.k()
        c.add('''// -#- allow_subclassing=true -#-
struct %(C)s { int v; %(C)s() : v(%(k)d) {} };
// -#- allow_subclassing=true -#-
struct %(D)s { %(C)s c; %(D)s() {} ~%(D)s() { c.v = -1; }
  // -#- @return(return_internal_reference=true) -#-
  %(C)s *get() { return &c; }
};
// -#- @return(custodian=1, reference_existing_object=true); @d(transfer_ownership=false) -#-
inline %(C)s *%(f)s(%(D)s *d) { return &d->c; }''' % dict(C=C, D=D, f=f, k=k), '%s %s %s' % (C, D, f), '''
o = S.%(D)s(); p = o.get(); q = S.%(f)s(o); p.v += 1
del o
assert q.v == %(k)d + 1''' % dict(C=C, D=D, f=f, k=k))
        self.new_class(c, C, 'v'); self.new_class(c, D, 'c get')

    def i_vector_of_class(self, c):
        C, f, k = self.id('El'), self.id('elf'), self.k()
        c.add('struct %(C)s { int v; %(C)s(int a = 0) : v(a) {} };\ninline int %(f)s(std::vector< %(C)s > const &l) { int n = %(k)d; for (auto &x : l) n += x.v; return n; }\ninline std::vector< %(C)s > %(f)s_r() { return { %(C)s(1), %(C)s(2) }; }' % dict(C=C, f=f, k=k), '%s %s %s_r' % (C, f, f),
              'assert S.%s([S.%s(3), S.%s(4)]) == 7 + %d and [x.v for x in S.%s_r()] == [1, 2]' % (f, C, C, k, f))
        self.new_class(c, C, 'v')

    def i_uncopyable_items(self, c):
        C, U, f, k = self.id('Nc'), self.id('Nu'), self.id('ncf'), self.k()
        kind = self.rng.choice(['std::vector< %s >', 'std::list< %s >', 'std::map< int, %s >']) % C
        c.add('''class %(C)s { public: %(C)s(int a) : v(a) {} int get() const { return v; } private: %(C)s(const %(C)s &); %(C)s &operator=(const %(C)s &); int v; };
inline int %(f)s(%(kind)s const &l) { return (int) l.size(); }
inline int %(f)s_n(std::vector< %(kind)s > const &l) { return (int) l.size(); }
inline int %(f)s(%(C)s const &a) { return a.get() + %(k)d; }
struct %(U)s { int n; %(U)s() : n(%(k)d) {} void take(%(kind)s &l) {} virtual int other(int a) { return n + a; } virtual int more(%(kind)s const &l) { return 1; } virtual ~%(U)s() {} };''' % dict(C=C, U=U, f=f, k=k, kind=kind),
              '%s %s %s' % (C, U, f), '''
assert S.%(f)s(S.%(C)s(2)) == %(k)d + 2 and S.%(U)s().other(1) == %(k)d + 1
try: S.%(f)s([])
except TypeError: pass
else: assert 0''' % dict(C=C, U=U, f=f, k=k))
        self.new_class(c, C, 'get'); self.new_class(c, U, 'n other')

    def new_class(self, c, name, names):
        self.where.setdefault('.'.join(filter(None, [c.path, name])), set()).update(names.split())

    # ---- a class with members
    def klass(self, c, depth=0):
        rng = self.rng
        C = self.id('Cls')
        x = Ctx(self, '.'.join(filter(None, [c.path, C])), c.q(C), C)
        style = rng.choice(['struct', 'class'])
        items = [n for n in dir(self) if n.startswith('m_')]
        if os.environ.get('VF_ITEMS', 'i_')[:2] == 'm_': items = os.environ['VF_ITEMS'].split(',') * 4
        rng.shuffle(items)
        x.add('%s() {}' % C) if rng.random() < .6 else None
        for n in items[:rng.randint(4, len(items))]:
            self.item = n
            getattr(self, n)(x)
            if rng.random() < .2: x.add('private:\n int hidden%d() { return 1; } int hid%d; enum He%d { HV%d }; struct Hs%d { int a; };\nprotected:\n int pm%d() { return 1; }\npublic:' % ((self.n,) * 6))
        if depth < 2 and rng.random() < .5: self.klass(x, depth + 1)
        self.item = 'klass'
        kw = 'class %s { public:' % C if style == 'class' else 'struct %s {' % C
        c.add('%s\n  %s\n};' % (kw, '\n  '.join(x.lines)), C)

    def m_method(self, c):
        f, k = self.id('m'), self.k()
        c.add('int %s(int a, int b = %d)%s { return a * b; }' % (f, k, self.rng.choice(['', ' const', ' const throw()', ' noexcept'])), f, 'assert S().%s(3) == 3 * %d and S().%s(a=2, b=5) == 10' % (f, k, f))

    def m_static(self, c):
        f, k = self.id('sm'), self.k()
        c.add('static int %s(const std::string &s) { return (int) s.size() + %d; }' % (f, k), f, 'assert S.%s("ab") == %d' % (f, k + 2))

    def m_attr(self, c):
        a, k = self.id('a'), self.k()
        c.add('int %s = %d;' % (a, k), a, 'o = S(); assert o.%s == %d\no.%s = 3; assert o.%s == 3' % (a, k, a, a))

    def m_const_attr(self, c):
        a, k = self.id('ca'), self.k()
        c.add('static const int %s = %d;' % (a, k), a, 'assert S.%s == %d\nfails((AttributeError, TypeError), setattr, S, %r, 1)' % (a, k, a))

    def m_string_attr(self, c):
        a = self.id('sa')
        c.add('std::string %s = "init";' % a, a, 'o = S(); assert o.%s == "init"\no.%s = "x"; assert o.%s == "x"' % (a, a, a))

    def m_enum(self, c):
        e, f, k = self.id('Me'), self.id('mef'), self.k()
        v = self.id('MV_')
        c.add('enum %s { %s = %d, %s_2 };\nstatic %s %s(%s x = %s_2) { return x; }' % (e, v, k, v, e, f, e, v), '%s %s_2 %s' % (v, v, f), 'assert S.%s == %d and S.%s() == %d and S.%s(S.%s) == %d' % (v, k, f, k + 1, f, v, k))

    def m_renamed(self, c):
        f, g, k = self.id('mo'), self.id('mr'), self.k()
        c.add('// -#- name=%s -#-\nint %s() { return %d; }' % (g, f, k), g, 'assert S().%s() == %d' % (g, k))

    def m_ignored(self, c):
        f = self.id('mi')
        c.add('// -#- ignore -#-\nint %s() { return 1; }\n// -#- ignore -#-\nint %s_attr;\n// -#- ignore -#-\nstruct %s_cls { };' % (f, f, f))

    def m_overload(self, c):
        f, k = self.id('mov'), self.k()
        c.add('int %s() const { return %d; }\nint %s(int a) { return a + %d; }\nint %s(std::string const &s) { return %d - (int) s.size(); }' % (f, k, f, k, f, k), f, 'o = S(); assert (o.%s(), o.%s(1), o.%s("xyz")) == (%d, %d, %d)' % (f, f, f, k, k + 1, k - 3))

    def m_self(self, c):
        f = self.id('ms')
        c.add('%s %s() const { return *this; }\n%s &%s_same(%s const &o) { (void) o; return *this; }' % (c.cls, f, c.cls, f, c.cls), f + ' ' + f + '_same', 'assert type(S().%s()) is S and type(S().%s_same(S())) is S' % (f, f))

    def m_template(self, c):
        f, k = self.id('mt'), self.k()
        # instantiated by a function below the class
        c.add('template <typename T> int %s(T a) { return %d; }\nint %s_use() { return %s<int>(1) + %s<double>(1); }' % (f, k, f, f, f), '%s__lt__int__gt__ %s__lt__double__gt__ %s_use' % (f, f, f), 'o = S(); assert o.%s__lt__int__gt__(1) == %d and o.%s__lt__double__gt__(.5) == %d' % (f, k, f, k))

    def m_template_named(self, c):
        f, k = self.id('mtn'), self.k()
        c.add('// -#- template_instance_names=%s -#-\ntemplate <typename T> T %s(T a) { return a + %d; }\nint %s_use() { return %s<int>(1) + %s<double>(1); }' % ('|'.join(self.rng.sample(['int=>%s_i' % f, 'double=>%s_d' % f], 2)), f, k, f, f, f), '%s_i %s_d %s_use' % (f, f, f), 'o = S(); assert o.%s_i(1) == %d and o.%s_d(.5) == %r' % (f, k + 1, f, k + .5))

    def m_skipped(self, c):
        f, k = self.id('msk'), self.k()
        c.add('struct %s_U; int %s(%s_U *a) { return 1; } int %s(int a) { return a + %d; } int %s_fp(int (*cb)(int)) { return cb(3); } %s_U *%s_attr = 0; void (*%s_fpa)() = 0;' % (f, f, f, f, k, f, f, f, f), f, 'assert S().%s(1) == %d' % (f, k + 1))

    def m_nested_enum_default(self, c):
        f, C, k = self.id('mne'), self.id('Mn'), self.k()
        c.add('struct %s { enum Kind { %s_A = %d, %s_B }; Kind kind; %s(Kind k_ = %s_B) : kind(k_) {} int get() const { return kind; } };\nstatic int %s(%s const &x = %s(), %s::Kind y = %s::%s_A) { return x.kind * 100 + y; }' % (C, C, k, C, C, C, f, C, C, C, C, C),
              '%s %s' % (C, f), 'assert S.%s() == %d and S.%s(S.%s(S.%s.%s_A), S.%s.%s_B) == %d and S.%s().get() == %d' % (f, (k + 1) * 100 + k, f, C, C, C, C, C, k * 100 + k + 1, C, k + 1))
        self.new_class(c, C, '%s_A %s_B get kind' % (C, C))

    def m_deprecated(self, c):
        f, k = self.id('mdep'), self.k()
        c.add('__attribute__((deprecated)) int %s(int a) { return a + %d; }' % (f, k), f, """
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    assert S().%s(1) == %d
assert [x.category for x in w] == [DeprecationWarning]""" % (f, k + 1))

    def m_attributes(self, c):
        a, k = self.id('mat'), self.k()
        c.add('int %(a)s_bits : 4; const int %(a)s_const = %(k)d; static int &%(a)s_ref() { static int x = 1; return x; } int %(a)s_array[3]; bool %(a)s_b = true, %(a)s_b2 = false; std::vector<int> %(a)s_v = { 1, 2 };\nmutable double %(a)s_d = .5;\n'
              'static int %(a)s_st;' % dict(a=a, k=k), ' '.join(a + x for x in ('_const', '_b', '_b2', '_v', '_d', '_st')),
              'o = S(); assert o.%(a)s_const == %(k)d and o.%(a)s_b is True and o.%(a)s_b2 is False and list(o.%(a)s_v) == [1, 2] and o.%(a)s_d == .5\nfails((AttributeError, TypeError), setattr, o, "%(a)s_const", 1)\no.%(a)s_b2 = True; assert o.%(a)s_b2 is True\nassert S.%(a)s_st == %(k)d; S.%(a)s_st = 4; assert S.%(a)s_st == 4; S.%(a)s_st = %(k)d' % dict(a=a, k=k))
        self.outside.append('int %s::%s_st = %d;' % (c.cpp, a, k))

    def m_anonymous(self, c):
        a, k = self.id('an'), self.k()
        c.add('union { int %s_i; double %s_d; };' % (a, a), '%s_i %s_d' % (a, a), 'o = S(); o.%s_i = %d; assert o.%s_i == %d\no.%s_d = 2.5; assert o.%s_d == 2.5' % (a, k, a, k, a, a))

    def m_typedef(self, c):
        t, f, k = self.id('MyT'), self.id('mtd'), self.k()
        c.add('typedef unsigned %s;\n%s %s(%s a) { return a + %d; }' % (t, t, f, t, k), f, 'assert S().%s(1) == %d' % (f, k + 1))

    def m_inout(self, c):
        f, k = self.id('mio'), self.k()
        c.add('// -#- @x(direction=inout) -#-\nvoid %s(int &x) const { x += %d; }' % (f, k), f, 'assert S().%s(1) == %d' % (f, k + 1))

    def m_container(self, c):
        f = self.id('mc')
        c.add('std::vector<unsigned> %s(std::vector<unsigned> const &v) { return v; }' % f, f, 'assert list(S().%s([1, 2])) == [1, 2]' % f)

    def m_throw(self, c):
        f, k = self.id('mthr'), self.k()
        c.add('// -#- throw=std::exception -#-\nint %s(int a) { if (a) throw std::runtime_error("rt"); return %d; }' % (f, k), f, 'assert S().%s(0) == %d\ne = fails(m.exception, S().%s, 1); assert "rt" in str(e)' % (f, k, f))

    # ---- a module
    def make(self):
        rng = self.rng
        self.g_impl = []
        self.ns = rng.choice(['::', 'top', 'top'])
        top = Ctx(self, '', '' if self.ns == '::' else '::top')
        tree = self.tree = [top]
        for i in range(rng.randint(0, 3)):
            p = rng.choice(tree)
            n = rng.choice(['na', 'nb', 'nc'])
            if any(t.path == '.'.join(filter(None, [p.path, n])) for t in tree): continue
            tree.append(Ctx(self, '.'.join(filter(None, [p.path, n])), p.q(n)))
        items = [n for n in dir(self) if n.startswith('i_')] * 2
        only = os.environ.get('VF_ITEMS')
        if only: items = only.split(',') * 2 if only[:2] != 'm_' else ['i_klass']
        rng.shuffle(items)
        for n in items[:24]:
            self.item, self.sect = n, rng.randrange(3)
            getattr(self, n)(rng.choice(tree))
        # namespaces opened and closed, in any order that keeps the parts of each in order
        out = []
        for t in tree:
            names = [x for x in t.cpp.split('::') if x]
            body = list(t.lines)
            out.append((' '.join('namespace %s {' % x for x in names), '\n'.join(body), '}' * len(names)))
            if t.path:
                parent = [p for p in tree if p.path == '.'.join(t.path.split('.')[:-1])][0]
                parent.names.add(t.path.split('.')[-1])
        text = '\n'.join('%s\n%s\n%s' % o for o in out)
        top.names.add('exception')
        if self.ns == '::': top.names.add('std')
        return text


DRIVER = r'''
import sys, json, types
sys.path.insert(0, sys.argv[1])
from vf import drv
import MODULE as m
conf = json.load(open(sys.argv[2]))
def fails(exc, f, *a, **k):
    try: r = f(*a, **k)
    except exc as e: return e
    raise AssertionError('%r accepted %r %r: %r' % (f, a, k, r))
def find(path):
    o = m
    for n in path.split('.') if path else (): o = getattr(o, n)
    return o
def public(o):
    d = dict(vars(type(o)) if isinstance(o, type) and type(o) is not type else {}, **vars(o))
    return set(n for n in d if not n.startswith('_') and not n.startswith('Std__') and not n.endswith('Iter'))
for path, names in sorted(conf['names'].items()):
    drv.ev(); drv.count('scopes')
    try: o = find(path)
    except AttributeError as e: drv.violation('lost', '%s: %s' % (path, e)); continue
    got, want = public(o), set(names)
    td = set(n for n in got - want if n.startswith('Td') or '__Td' in n)
    drv.count('names', len(want))
    for n in sorted(want - got): drv.violation('lost', '%s has no %s' % (path or 'the module', n))
    for n in sorted(got - want - td): drv.violation('extra', '%s has %s' % (path or 'the module', n))
for path, item, code in conf['probes']:
    drv.op({'path': path, 'item': item, 'code': code})
    drv.ev(); drv.count('probes'); drv.distinct('%s/%s/%s' % (conf['kind'], item, 'class' if '.' in path else 'module'))
    try:
        exec(compile(code, item, 'exec'), {'m': m, 'S': find(path), 'fails': fails})
    except BaseException as e:
        drv.violation('behaves', '%s (%s): %s: %s' % (item, path, type(e).__name__, e), {'code': code})
drv.done()
'''
HEAD = '#include <string>\n#include <vector>\n#include <list>\n#include <set>\n#include <map>\n#include <stdint.h>\n#include <stdexcept>\n#include <ostream>\n#include <cstddef>\n'


def one(ck, j):
    name = 's%d' % j
    rng = random.Random('c18/%s/%d' % (SEED, j))
    g = Gen(rng)
    text = g.make()
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    core.write(os.path.join(d, 'lib.h'), '#ifndef LIB_H\n#define LIB_H\n' + HEAD + ''.join('#include "%s/o.h"\n' % w for w in g.other) + text + '\n#endif\n')
    for w in g.other:
        os.makedirs(os.path.join(d, w), exist_ok=True)
        core.write(os.path.join(d, w, 'o.h'), g.other[w] + '// -#- ignore -#-\n')
    mode = rng.choice(['one', 'split'])
    names = dict((c.path, sorted(c.names)) for c in g.ctxs)
    for p, n in g.where.items(): names[p] = sorted(n)
    conf = {'ns': g.ns, 'headers': ['lib.h'], 'whitelist': ['white'], 'mode': mode, 'section': g.section, 'precedence': rng.random() < .5, 'names': names, 'probes': [(c.path, i, p) for c in g.ctxs for i, p in c.probes], 'kind': 'scan'}
    core.write(os.path.join(d, 'conf.json'), json.dumps(conf))
    def build_and_run(kind, gen, out):
        os.makedirs(out, exist_ok=True)
        core.write(os.path.join(out, 'spec.h'), '#include <Python.h>\n#include "vflog.h"\n#include "../lib.h"\n')
        core.generate(handmod.gen_script(d, name, gen, 'gen_%s.py' % kind), out if kind != 'scan' else d)
        src = os.path.join(out, name + '.cc') if kind != 'scan' else os.path.join(d, name + '.cc')
        if kind == 'scan':
            s = open(src).read(); core.write(os.path.join(out, name + '.cc'), s); src = os.path.join(out, name + '.cc')
        elif open(src).read() == open(os.path.join(d, name + '.cc')).read():
            ck.count('scripts_with_the_same_code'); return
        s = open(src).read()
        core.write(src, '#include "vflog_impl.h"\n' + s + '\n'.join(g.outside)) if not s.startswith('#include "vflog_impl') else None
        core.compile_module([src], os.path.join(out, name + '.so'))
        conf['kind'] = kind
        core.write(os.path.join(out, 'conf.json'), json.dumps(conf))
        handmod.run_driver(ck, name + kind, out, DRIVER.replace('MODULE', name), args=[os.path.join(out, 'conf.json')])
    for kind, gen in (('scan', GEN), ('script', RUN.replace('PYGEN', 'pygen_' + mode))):
        try: build_and_run(kind, gen, os.path.join(d, kind))
        except Exception as e: ck.build_failed(e, name + kind); break
    else:
        posts = json.load(open(os.path.join(d, 'posts.json')))
        for n in g.hooked:
            ck.count('post_scan_hooks')
            if posts.count(n) != 1: ck.violation('hook', name + ': the post scan hook was called %d times for %s' % (posts.count(n), n))


def main():
    ck = Check('C18', 'distinct (way, kind of declaration, place)')
    n = int(os.environ.get('VF_N', 20 if not THOROUGH else 300))
    pmap(lambda j: one(ck, j), range(n), jobs=8)
    ck.require('probes', 300)
    ck.require('names', 800)
    ck.finish()


if __name__ == '__main__':
    main()
