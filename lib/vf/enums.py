"""Random enums in every scope, every storage type: constants and values through calls, attributes and virtual methods."""
import json, os
from . import core, handmod

UND = {'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0),
       'long long': (64, 1), 'unsigned long long': (64, 0), 'std::int8_t': (8, 1), 'std::uint16_t': (16, 0)}
SCOPES = ['', 'ns1', 'ns1::ns2', 'C1', 'C1::N', 'ns1::C2']


def rng_of(u):
    b, s = UND[u]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, min((1 << b) - 1, (1 << 63) - 1))


def lit(v):
    return '(-9223372036854775807LL - 1)' if v == -(1 << 63) else '%dLL' % v


def make(rng, n):
    out = []
    for i in range(n):
        u = rng.choice([None] + sorted(UND)) if rng.random() < .85 else None
        if u is None:
            lo, hi = (0, 2**32 - 1) if rng.random() < .3 else (-2**31, 2**31 - 1)
        else:
            lo, hi = rng_of(u)
        vals = []
        for k in range(rng.randint(1, 5)):
            v = rng.choice([lo, hi, hi, 0, 1, max(lo, -1), hi - 1, rng.randint(lo, hi), rng.randint(max(lo, -300), min(hi, 300))])
            vals.append(['V%d_%d' % (i, k), v, rng.random() < .2])
        out.append({'i': i, 'name': 'E%d' % i if rng.random() < .8 else '', 'scope': rng.choice(SCOPES), 'und': u, 'prefix': rng.choice(['', '', 'PX%d_' % i]), 'vals': vals,
                    'lo': lo if u else None, 'hi': hi if u else None, 'dflt': rng.randrange(len(vals))})
    return out


def full(e):
    return (e['scope'] + '::' if e['scope'] else '') + e['name']


def header(es):
    def block(sc):
        o = ''
        for e in es:
            if e['scope'] == sc:
                o += 'enum %s%s { %s };\n' % (e['name'], ' : ' + e['und'] if e['und'] else '', ', '.join('%s%s = %s' % (e['prefix'], n, lit(v)) for n, v, t in e['vals']))
        return o
    h = '#include <cstdint>\n' + block('') + 'namespace ns1 {\n' + block('ns1') + 'namespace ns2 {\n' + block('ns1::ns2') + '}\nstruct C2 {\n' + block('ns1::C2') + '};\n}\n'
    h += 'struct C1 {\n' + block('C1') + 'struct N {\n' + block('C1::N') + '};\n};\n'
    h += 'template <class E> inline void seen(E e) { char b[40]; snprintf(b, sizeof b, "%lld", (long long) e); vf::ev(b); }\n'
    v, a = '', ''
    for e in es:
        if e['name']:
            F, i = full(e), e['i']
            d = (e['scope'] + '::' if e['scope'] else '') + e['prefix'] + e['vals'][e['dflt']][0]
            h += 'inline %s id_%d(%s e) { seen(e); return e; }\n' % (F, i, F)
            h += 'inline %s ref_%d(%s &e, long long v) { %s o = e; e = (%s) v; return o; }\n' % (F, i, F, F, F)
            h += 'inline void ptr_%d(%s *e, long long v) { seen(*e); *e = (%s) v; }\ninline void out_%d(%s *e, long long v) { *e = (%s) v; }\n' % (i, F, F, i, F, F)
            h += 'inline void df_%d(int a, %s e = %s) { seen(e); }\n' % (i, F, d)
            v += '  virtual %s v_%d(%s e) { return e; } %s cv_%d(%s e) { %s r = v_%d(e); seen(r); return r; }\n' % (F, i, F, F, i, F, F, i)
            a += '  %s a_%d; static %s s_%d; void seta_%d(long long v) { a_%d = (%s) v; } static void sets_%d(long long v) { s_%d = (%s) v; } void geta_%d() { seen(a_%d); } static void gets_%d() { seen(s_%d); }\n' % (
                F, i, F, i, i, i, F, i, i, F, i, i, i, i)
    h += 'struct VV { VV() {} virtual ~VV() {}\n' + v + '};\nstruct AT { AT() { %s }\n%s};\n' % (' '.join('a_%d = (%s) 0;' % (e['i'], full(e)) for e in es if e['name']), a)
    impl = ''.join('%s AT::s_%d;\n' % (full(e), e['i']) for e in es if e['name'])
    return h, impl


GEN = r'''
import json
es = json.load(open(os.path.join(outdir, 'spec.json')))
mod = new_module()
ns1 = mod.add_cpp_namespace('ns1'); ns2 = ns1.add_cpp_namespace('ns2')
C1 = mod.add_class('C1'); N = mod.add_class('N', outer_class=C1); C2 = ns1.add_class('C2')
at = {'': mod, 'ns1': ns1, 'ns1::ns2': ns2, 'C1': C1, 'C1::N': N, 'ns1::C2': C2}
for e in es:
    sc = e['scope'] + '::' if e['scope'] else ''
    at[e['scope']].add_enum(e['name'], [(n, sc + e['prefix'] + n) if t else n for n, v, t in e['vals']], values_prefix=e['prefix'])
VV = mod.add_class('VV', allow_subclassing=True); VV.add_constructor([])
AT = mod.add_class('AT'); AT.add_constructor([])
for e in es:
    if e['name']:
        i = e['i']; sc = e['scope'] + '::' if e['scope'] else ''; F = sc + e['name']
        mod.add_function('id_%d' % i, retval(F), [param(F, 'e')])
        mod.add_function('ref_%d' % i, retval(F), [param(F + '&', 'e', direction=INOUT), param('long long', 'v')])
        mod.add_function('ptr_%d' % i, None, [param(F + '*', 'e', direction=INOUT), param('long long', 'v')])
        mod.add_function('out_%d' % i, None, [param(F + '*', 'e', direction=OUT), param('long long', 'v')])
        mod.add_function('df_%d' % i, None, [param('int', 'a'), param(F, 'e', default_value=sc + e['prefix'] + e['vals'][e['dflt']][0])])
        VV.add_method('v_%d' % i, retval(F), [param(F, 'e')], is_virtual=True)
        VV.add_method('cv_%d' % i, retval(F), [param(F, 'e')])
        AT.add_instance_attribute('a_%d' % i, F); AT.add_static_attribute('s_%d' % i, F)
        AT.add_method('seta_%d' % i, None, [param('long long', 'v')]); AT.add_method('sets_%d' % i, None, [param('long long', 'v')], is_static=True)
        AT.add_method('geta_%d' % i, None, []); AT.add_method('gets_%d' % i, None, [], is_static=True)
emit(mod)
'''

DRIVER = r'''
import sys, os, json, random
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1])); c = drv.CSide(M)
es = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
rng = random.Random('%s/%s' % (drv.SEED, os.path.basename(sys.argv[1])))
REJ = (TypeError, ValueError, OverflowError)
class Fail(Exception): pass
HOOK = [0]
def hook(*a): HOOK[0] += 1
sys.excepthook = hook
def scope(s):
    o = M
    for p in s.split('::') if s else []: o = getattr(o, p)
    return o
def seen(): 
    l = c.log(); return [int(x) for x in l]
def eq(g, w, what):
    drv.ev(); drv.count('enum_calls'); drv.distinct(['enum', what.split(' ')[0]])
    if g != w or type(g) is not type(w): raise Fail('%s: %r, expected %r' % (what, g, w))
def rej(f, what):
    drv.ev(); drv.count('enum_rejected')
    try: r = f()
    except REJ: c.log(); return
    raise Fail('%s was accepted: %r, C++ saw %s' % (what, r, c.log()))
try:
    want = {}
    for e in es:
        for n, v, t in e['vals']: want.setdefault(e['scope'], {})[n] = v
    for s, w in want.items():
        o = scope(s)
        for n, v in w.items():
            g = getattr(o, n, None); drv.count('constants')
            if g != v or type(g) is not int: raise Fail('constant %s::%s is %r, C++ says %d' % (s, n, g, v))
        for s2, w2 in want.items():
            for n in w2:
                if s2 != s and hasattr(o, n): raise Fail('constant %s::%s is also in %s' % (s2, n, s))
        names = [n for n in dir(o) if n[:1] == 'V' and n != 'VV' or n.startswith('PX')]
        if sorted(names) != sorted(w): raise Fail('constants of %s: %s instead of %s' % (s, names, sorted(w)))
    at = M.AT()
    for e in es:
        if not e['name']: continue
        i = e['i']; drv.op({'k': '%s::%s : %s' % (e['scope'], e['name'], e['und'])})
        what = '(%s::%s : %s)' % (e['scope'], e['name'], e['und'])
        fn = lambda n: getattr(M, '%s_%d' % (n, i))
        vals = [v for n, v, t in e['vals']]
        if e['lo'] is not None: vals += [e['lo'], e['hi'], 0] + [rng.randint(e['lo'], e['hi']) for _ in range(4)]
        bad = ['1', 1.0, None, b'1', 2**63, -2**63 - 1, 2**64]
        if e['lo'] is not None: bad += [x for x in (e['lo'] - 1, e['hi'] + 1, e['hi'] + 2, e['lo'] - 256, 2 * e['hi'] + 2 + rng.randint(0, 5)) if not e['lo'] <= x <= e['hi']]
        class P(M.VV): pass
        p = P(); vv = M.VV()
        for v in vals:
            c.log(); eq(fn('id')(v), v, 'id %s(%d)' % (what, v)); eq(seen(), [v], 'id-in-C++ %s(%d)' % (what, v))
            w = rng.choice(vals)
            eq(fn('ref')(v, w), (v, w), 'ref %s(%d, %d)' % (what, v, w))
            eq(fn('ptr')(v, w), w, 'ptr %s(%d, %d)' % (what, v, w)); eq(seen(), [v], 'ptr-in-C++ %s' % what)
            eq(fn('out')(w), w, 'out %s(%d)' % (what, w))
            fn('df')(1, v); eq(seen(), [v], 'default-given %s(%d)' % (what, v))
            setattr(at, 'a_%d' % i, v); getattr(at, 'geta_%d' % i)(); eq(seen(), [v], 'attribute %s = %d' % (what, v))
            getattr(at, 'seta_%d' % i)(w); eq(getattr(at, 'a_%d' % i), w, 'attribute-read %s' % what)
            setattr(M.AT, 's_%d' % i, v); getattr(M.AT, 'gets_%d' % i)(); eq(seen(), [v], 'static %s = %d' % (what, v))
            getattr(M.AT, 'sets_%d' % i)(w); eq(getattr(M.AT, 's_%d' % i), w, 'static-read %s' % what)
            got = []
            def ov(self, e, got=got, w=w): got.append(e); return w
            setattr(P, 'v_%d' % i, ov)
            eq(getattr(p, 'cv_%d' % i)(v), w, 'virtual %s(%d)' % (what, v)); eq(got, [v], 'virtual-argument %s' % what); eq(seen(), [w], 'virtual-result %s' % what)
            eq(getattr(vv, 'cv_%d' % i)(v), v, 'virtual-base %s(%d)' % (what, v)); c.log()
        fn('df')(1); eq(seen(), [e['vals'][e['dflt']][1]], 'default %s' % what)
        for b in bad:
            for n, f in (('id', lambda: fn('id')(b)), ('ref', lambda: fn('ref')(b, 0)), ('ptr', lambda: fn('ptr')(b, 0)), ('df', lambda: fn('df')(1, b)), ('attribute', lambda: setattr(at, 'a_%d' % i, b)), ('static', lambda: setattr(M.AT, 's_%d' % i, b))):
                rej(f, '%s %s(%r)' % (n, what, b))
            setattr(P, 'v_%d' % i, lambda self, e: b)
            HOOK[0] = 0; v = rng.choice(vals); eq(getattr(p, 'cv_%d' % i)(v), v, 'virtual-rejected %s(%d) override gives %r' % (what, v, b)); c.log()
            if HOOK[0] != 1: raise Fail('%s: %d errors reported for an override giving %r' % (what, HOOK[0], b))
except Fail as e:
    drv.violation('enum', str(e), es)
drv.done()
'''


def run(name, rng, n=14):
    es = make(rng, n)
    d = os.path.join(core.scratch(), name)
    os.makedirs(d)
    core.write(os.path.join(d, 'spec.json'), json.dumps(es))
    h, impl = header(es)
    try:
        handmod.build(d, name, h, GEN, impl=impl)
    except Exception as e:
        return e
    return core.drive(core.write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d], timeout=600)
