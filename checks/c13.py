"""C13: attributes read and write the C++ variable they name; enum constants have their C++ values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import sigs, enums

SCALARS = [t for t in sigs.RETURNS if '&' not in t and '*' not in t]
EXTRA = ['Color', 'Tiny', 'Flags', 'Val', 'std::vector<int>', 'std::shared_ptr<Sp>', 'ns::Mode', 'Holder::Kind']
NAMES = ['value', 'x', 'tmp', 'retval', 'py_retval', 'obj', 'flags', 'item', 'name_', 'count', 'data', 'get', 'self_', 'closure', 'key2', 'tmp_value', 'n', 'size', 'inst_dict', 'args', 'kwargs', 'm_len', 'doc', 'type', 'result']

HEADER = r'''
#include <memory>
enum Color { RED, GREEN = 7, BLUE, BELOW = -12 };
enum Tiny : unsigned char { T0 = 0, T1 = 1, T255 = 255 };
enum Flags : unsigned int { F0 = 0, FTOP = 0x80000000u, FALL = 0xffffffffu };
namespace ns { enum Mode { M_A = 4, M_B = 9 }; namespace deep { enum Depth : short { D_LOW = -30000, D_HIGH = 30000 }; enum { ANON_DEEP = 31 }; } enum { ANON_NS = 41 }; }
enum { ANON_A = 51, ANON_B = -52 };
enum Pref { PRE_ONE = 61, PRE_TWO = 62 };
struct Holder { vf::Track track; enum Kind { K_A = 3, K_B = 33 }; enum { K_ANON = 71 }; enum Pk { PK_X = 81, PK_Y = 82 }; Holder() : track("Holder") {}
    Kind swapk(Kind k) { return k == K_A ? K_B : k == K_B ? K_A : k; } };
struct Outer2 { enum O2 { O2_A = 91, O2_B = 92 }; };
#define EXPR_CONST (40 + 2)
struct Val { vf::Track track; int n; Val() : track("Val"), n(0) {} Val(int k) : track("Val"), n(k) {} Val(const Val &o) : track("Val"), n(o.n) {}
    Val &operator=(const Val &o) { track.use(); o.track.use(); n = o.n; return *this; } int getN() const { track.use(); return n; } void setN(int k) { n = k; } };
struct Sp { vf::Track track; int n; Sp(int k = 0) : track("Sp"), n(k) {} int getN() const { track.use(); return n; } };
namespace X {
template <class T> struct IO { static std::string enc(const T &v) { return vf::enc(v); } static T take() { return vf::take<T>(); } };
template <class E> struct EnumIO { static std::string enc(const E &v) { char b[40]; snprintf(b, sizeof b, "I%lld", (long long) v); return b; } static E take() { return (E) vf::take<long long>(); } };
template <> struct IO<Color> : EnumIO<Color> {}; template <> struct IO<Tiny> : EnumIO<Tiny> {}; template <> struct IO<Flags> : EnumIO<Flags> {}; template <> struct IO<ns::Mode> : EnumIO<ns::Mode> {}; template <> struct IO<Holder::Kind> : EnumIO<Holder::Kind> {};
template <> struct IO<Val> { static std::string enc(const Val &v) { char b[40]; snprintf(b, sizeof b, "V%d", v.getN()); return b; } static Val take() { return Val(vf::take<int>()); } };
template <> struct IO<std::vector<int> > { static std::string enc(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += vf::enc(v[i]); } return s + "]"; }
    static std::vector<int> take() { std::vector<int> v; int n = vf::take<int>(); for (int i = 0; i < n; i++) v.push_back(vf::take<int>()); return v; } };
template <> struct IO<std::shared_ptr<Sp> > { static std::string enc(const std::shared_ptr<Sp> &v) { if (!v) return "N"; char b[40]; snprintf(b, sizeof b, "P%d", v->getN()); return b; }
    static std::shared_ptr<Sp> take() { int n = vf::take<int>(); return n < 0 ? std::shared_ptr<Sp>() : std::make_shared<Sp>(n); } };
template <class T> inline void out(const char *name, const T &v) { vf::ev(std::string(name) + " " + IO<T>::enc(v)); }
}
inline Color addc(Color a, Color b = GREEN) { return (Color) ((int) a + (int) b); }
inline Flags fswap(Flags &a, Flags b) { Flags o = a; a = b; return o; }
inline int tiny2(Tiny *t, Tiny u) { int s = (int) *t + (int) u; *t = u; return s; }
namespace ns { inline Mode other(Mode m) { return m == M_A ? M_B : M_A; } namespace deep { inline Depth neg(Depth d) { return (Depth) -(int) d; } } }
'''

GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
mod = new_module()
mod.add_enum('Color', ['RED', 'GREEN', 'BLUE', 'BELOW']); mod.add_enum('Tiny', ['T0', 'T1', 'T255']); mod.add_enum('Flags', ['F0', 'FTOP', 'FALL'])
mod.add_enum('', ['ANON_A', 'ANON_B']); mod.add_enum('Pref', ['ONE', 'TWO'], values_prefix='PRE_')
mod.add_enum('', [('EXPR', 'EXPR_CONST'), ('NINE', '9'), ('DEEP_HIGH', 'ns::deep::D_HIGH')])
mod.add_enum('O2', ['O2_A', 'O2_B'], cpp_namespace='Outer2')
ns = mod.add_cpp_namespace('ns'); ns.add_enum('Mode', ['M_A', 'M_B']); ns.add_enum('', ['ANON_NS'])
deep = ns.add_cpp_namespace('deep'); deep.add_enum('Depth', ['D_LOW', 'D_HIGH']); deep.add_enum('', ['ANON_DEEP'])
Holder = mod.add_class('Holder', allow_subclassing=spec['sub']); Holder.add_constructor([])
Holder.add_enum('Kind', ['K_A', 'K_B']); Holder.add_enum('', ['K_ANON']); Holder.add_enum('Pk', ['X', 'Y', ('Z', 'EXPR_CONST + 1')], values_prefix='PK_')
Holder.add_method('swapk', retval('Holder::Kind'), [param('Holder::Kind', 'k')])
mod.add_function('addc', retval('Color'), [param('Color', 'a'), param('Color', 'b', default_value='GREEN')])
mod.add_function('fswap', retval('Flags'), [param('Flags &', 'a', direction=INOUT), param('Flags', 'b')])
mod.add_function('tiny2', retval('int'), [param('Tiny *', 't', direction=INOUT), param('Tiny', 'u')])
ns.add_function('other', retval('ns::Mode'), [param('ns::Mode', 'm')]); deep.add_function('neg', retval('ns::deep::Depth'), [param('ns::deep::Depth', 'd')])
Val = mod.add_class('Val'); Val.add_constructor([]); Val.add_constructor([param('int', 'k')]); Val.add_copy_constructor()
Val.add_method('getN', retval('int'), [], is_const=True); Val.add_method('setN', None, [param('int', 'k')])
Sp = mod.add_class('Sp', memory_policy=StdSharedPtr('Sp')); Sp.add_constructor([param('int', 'k')]); Sp.add_method('getN', retval('int'), [], is_const=True)
mod.add_container('std::vector<int>', retval('int'), 'vector')
classes = {}
for c in spec['classes']:
    outer = classes.get(c.get('outer'))
    kw = dict(allow_subclassing=c['sub'])
    if c['base']: kw['parent'] = classes[c['base']]
    if outer is not None: kw['outer_class'] = outer
    k = classes[c['name']] = mod.add_class(c['name'], **kw)
    k.add_constructor([]); k.add_copy_constructor()
    k.add_method('peek', None, [], is_const=True); k.add_method('poke', None, [param('int', 'i')])
    k.add_method('peeks', None, [], is_static=True); k.add_method('pokes', None, [param('int', 'i')], is_static=True)
    if c['virt']: k.add_method('hook', retval('int'), [], is_virtual=True)
    for a in c['attrs']:
        t, m = retval(a['ctype']), a['mode']
        kw = dict(custom_name=a['py']) if a['py'] != a['cpp'] else {}
        if m == 'direct': k.add_instance_attribute(a['cpp'], t, **kw)
        elif m == 'const': k.add_instance_attribute(a['cpp'], t, is_const=True, **kw)
        elif m == 'methods': k.add_instance_attribute(a['cpp'], t, getter='get_' + a['cpp'], setter='set_' + a['cpp'], **kw)
        elif m == 'getter': k.add_instance_attribute(a['cpp'], t, getter='get_' + a['cpp'], is_const=True, **kw)
        elif m == 'getter+direct': k.add_instance_attribute(a['cpp'], t, getter='get_' + a['cpp'], **kw)
        elif m == 'direct+setter': k.add_instance_attribute(a['cpp'], t, setter='set_' + a['cpp'], **kw)
        elif m == 'custom': k.add_custom_instance_attribute(a['cpp'], t, getter='fget_%s_%s' % (c['name'], a['cpp']), setter='fset_%s_%s' % (c['name'], a['cpp']), **kw)
        elif m == 'customget': k.add_custom_instance_attribute(a['cpp'], t, getter='fget_%s_%s' % (c['name'], a['cpp']), is_const=True, **kw)
        elif m == 'template': k.add_custom_instance_attribute(a['cpp'], t, getter='tget_%s_%s' % (c['name'], a['cpp']), setter='tset_%s_%s' % (c['name'], a['cpp']),
                getter_template_parameters=[a['ctype'], '3'], setter_template_parameters=[a['ctype']], **kw)
        elif m == 'static': k.add_static_attribute(a['cpp'], t)
        elif m == 'staticconst': k.add_static_attribute(a['cpp'], t, is_const=True)
        else: raise ValueError(m)
emit(mod)
'''

DRIVER = r'''
import sys, json, os, random, gc
from vf import drv, sigs
D, NAME, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.path.insert(0, D)
import importlib
M = importlib.import_module(NAME)
c = drv.CSide(M)
spec = json.load(open(os.path.join(D, 'spec.json')))
rng = random.Random('%s/%s' % (drv.SEED, NAME))
REJ = (TypeError, ValueError, OverflowError)
class Fail(Exception): pass
class Boom(object):
    def __index__(self): raise KeyError('boom')
    def __float__(self): raise KeyError('boom')
    def __bool__(self): raise KeyError('boom')
ENUM = {'Color': (-2**31, 2**31 - 1, [0, 7, 8, -12]), 'Tiny': (0, 255, [0, 1, 255, 128]), 'Flags': (0, 2**32 - 1, [0, 2**31, 2**32 - 1, 2**31 - 1]),
        'ns::Mode': (0, 2**31 - 1, [4, 9, 0, 15]), 'Holder::Kind': (0, 2**31 - 1, [3, 33, 0, 63])}
OTHER = {'Val': 'V', 'std::vector<int>': 'L', 'std::shared_ptr<Sp>': 'P'}
def kind(t): return 'enum' if t in ENUM else OTHER[t] if t in OTHER else sigs.base_of(t)[2]
def gen(t):
    k = kind(t)
    if k == 'enum': return rng.choice(ENUM[t][2])
    if k in 'VP': return rng.randint(0, 10**6)
    if k == 'L': return [rng.randint(-2**31, 2**31 - 1) for _ in range(rng.randint(0, 4))]
    v = sigs.value(rng, t, k)
    return sigs.py_expected(k, v)
def enc(t, v):
    k = kind(t)
    if k == 'enum': return 'I%d' % v
    if k == 'V': return 'V%d' % v
    if k == 'P': return 'N' if v is None else 'P%d' % v
    if k == 'L': return '[' + ','.join('I%d' % x for x in v) + ']'
    return sigs.enc(t, k, v)
def enc_eq(t, got, want):
    k = kind(t)
    return sigs.enc_eq(k, got, want) if k in ('f32', 'f64') else got == want
def push(t, v):
    k = kind(t)
    if k == 'enum': c.push('I%d' % v)
    elif k == 'V': c.push('I%d' % v)
    elif k == 'P': c.push('I%d' % (-1 if v is None else v))
    elif k == 'L':
        c.push('I%d' % len(v))
        for x in v: c.push('I%d' % x)
    else: c.push(sigs.enc_push(t, k, v))
class Idx(object):
    def __init__(self, v, hook=None): self.v = v; self.hook = hook
    def __index__(self):
        if self.hook: self.hook()
        return self.v
    def __float__(self):
        if self.hook: self.hook()
        return self.v
def indexable(t):
    k = kind(t)
    return k in ('enum', 'f64') or k == 'int' and (sigs.INT[t][0] < 32 or sigs.INT[t][1])        # the format units of the wide unsigned types take an int only
def to_py(t, v, fancy=True):
    k = kind(t)
    if k == 'V': return M.Val(v)
    if k == 'P': return None if v is None else M.Sp(v)
    if k == 'L': return list(v) if rng.random() < .5 else getattr(M, 'Std__vector__lt__int__gt__')(list(v))
    if fancy and indexable(t) and rng.random() < .15: return Idx(v)
    return v
def check_py(t, got, v, what):
    k = kind(t)
    if k == 'V': ok = type(got) is M.Val and got.getN() == v
    elif k == 'P': ok = got is None if v is None else type(got) is M.Sp and got.getN() == v
    elif k == 'L': ok = list(got) == v
    elif k == 'enum': ok = type(got) is int and got == v
    else: ok = sigs.same(k, got, v)
    if not ok: raise Fail('%s: read %r, C++ holds %r' % (what, got, v))
def bad(t):
    """(value, lenient): lenient values may also be taken modulo 2**bits"""
    k = kind(t)
    o = [object(), 'text' if k not in ('str',) else 5, None, Boom(), M.Holder()]
    if k in ('int', 'enum'):
        o += [1.5, '7', [1]]
        lo, hi = ENUM[t][:2] if k == 'enum' else sigs.irange(t)
        if k == 'enum' and t in ('ns::Mode', 'Holder::Kind'): lo = -2**31; hi = 2**32 - 1        # the compiler chooses the storage of those
        x = rng.choice([hi + 1, lo - 1, hi * 2 + 7, 2**70, -2**70])
        if k == 'int' and sigs.INT[t][0] >= 32 and not sigs.INT[t][1]: pass
        else: o += [x, x]
    elif k in ('f32', 'f64'): o += ['1.0', 1j, 10**400]
    elif k == 'bool': o = [Boom()]
    elif k == 'char': o += ['', 'ab', b'', b'ab', 5]
    elif k == 'str': o += [5, '\ud800', 1.0, ['a']]
    elif k == 'V': o += [5, M.Sp(3)]
    elif k == 'P': o += [5, M.Val(3)]
    elif k == 'L': o += [[1, 'x'], [2**40], (1, 2), 5, [1, Boom()]]
    if k == 'char': o = [x for x in o if x != 'text'] + ['text']
    return rng.choice(o)

C = {s['name']: s for s in spec['classes']}
def cls(name):
    s = C[name]
    return getattr(cls(s['outer']), s['name']) if s.get('outer') else getattr(M, name)
def chain(name):
    out = []
    while name: out.append(C[name]); name = C[name]['base']
    return out
STATIC = {}      # (class, cpp) -> value
class Inst(object): pass
def inst_attrs(name): return [(k, a) for k in chain(name) for a in k['attrs'] if not a['mode'].startswith('static')]
def stat_attrs(name): return [(k, a) for k in chain(name) for a in k['attrs'] if a['mode'].startswith('static')]
INIT = {'V': 0, 'P': None, 'enum': 0, 'int': 0, 'bool': False, 'f32': 0.0, 'f64': 0.0, 'char': b'\0', 'str': ''}
def init(t): return [] if kind(t) == 'L' else INIT[kind(t)]
for s in spec['classes']:
    for a in s['attrs']:
        if a['mode'].startswith('static'): STATIC[s['name'], a['cpp']] = init(a['ctype'])
pysub = {}
def make(name, sub):
    i = Inst(); i.name = name
    t = cls(name)
    if sub and C[name]['sub']:
        if name not in pysub:
            class Sub(t):
                extra = 5
                def __init__(self): super(Sub, self).__init__(); self.mine = 1
                def meth(self): return 1
            pysub[name] = Sub
        t = pysub[name]
    i.py = t(); i.val = {(k['name'], a['cpp']): init(a['ctype']) for k, a in inst_attrs(name)}
    return i
def look_inst(i):
    c.log(); 
    for k in chain(i.name): getattr(cls(k['name']), 'peek')(i.py)
    got = dict(l.split(' ', 1) for l in c.log())
    for k, a in inst_attrs(i.name):
        w = enc(a['ctype'], i.val[k['name'], a['cpp']]); g = got.get('%s.%s' % (k['name'], a['cpp']))
        if g is None or not enc_eq(a['ctype'], g, w): raise Fail('%s.%s (%s): C++ holds %s, expected %s' % (k['name'], a['cpp'], a['ctype'], g, w))
def look_static(name):
    c.log(); cls(name).peeks()
    got = dict(l.split(' ', 1) for l in c.log())
    for a in C[name]['attrs']:
        if not a['mode'].startswith('static'): continue
        w = enc(a['ctype'], STATIC[name, a['cpp']]); g = got.get('%s.%s' % (name, a['cpp']))
        if g is None or not enc_eq(a['ctype'], g, w): raise Fail('static %s.%s (%s): C++ holds %s, expected %s' % (name, a['cpp'], a['ctype'], g, w))
insts = []
trace = []
def expect_log(want, what):
    got = c.log()
    if got != want: raise Fail('%s: C++ ran %s, expected %s' % (what, got, want))
def reads(a, name):
    return {'methods': ['get_'], 'getter': ['get_'], 'getter+direct': ['get_'], 'custom': ['fget_%s_' % name], 'customget': ['fget_%s_' % name], 'template': ['tget_%s_' % name]}.get(a['mode'], [])
def writes(a, name):
    return {'methods': ['set_'], 'direct+setter': ['set_'], 'custom': ['fset_%s_' % name], 'template': ['tset_%s_' % name]}.get(a['mode'], [])
READONLY = ('const', 'getter', 'customget', 'staticconst')
def access(obj, key, a, store, what):
    """one operation on the attribute a of obj; store[key] is its model value"""
    t, py = a['ctype'], a['py']
    calls_r = ['call ' + f + a['cpp'] for f in reads(a, key[0])]; calls_w = ['call ' + f + a['cpp'] for f in writes(a, key[0])]
    op = rng.choice(['get', 'get', 'set', 'set', 'set', 'bad', 'bad', 'del', 'roundtrip', 'reenter'])
    trace.append('%s %s.%s' % (op, what, py)); c.log()
    drv.op({'k': op + ':' + a['mode'], 'attr': [key[0], py, t], 'trace': trace[-10:]})
    if op == 'get':
        v = getattr(obj, py); expect_log(calls_r, 'reading ' + py)
        check_py(t, v, store[key], what + '.' + py)
        if kind(t) == 'V' and v.getN() is not None: v.setN(-1); c.log()      # a copy: the attribute does not change
        drv.count('reads')
    elif a['mode'] in READONLY:
        try: setattr(obj, py, to_py(t, gen(t))) if op != 'del' else delattr(obj, py)
        except (AttributeError, TypeError): pass
        else: raise Fail('%s.%s is read-only, but %s worked' % (what, py, op))
        expect_log([], 'writing a read-only attribute'); drv.count('readonly')
    elif op == 'del':
        try: delattr(obj, py)
        except (AttributeError, TypeError): pass
        else: raise Fail('del %s.%s worked' % (what, py))
        expect_log([], 'del'); drv.count('deletes')
    elif op in ('set', 'roundtrip'):
        v = gen(t); x = to_py(t, v)
        try: setattr(obj, py, x)
        except Exception as e: raise Fail('setting %s.%s (%s) to %r: %r' % (what, py, t, x, e))
        expect_log(calls_w, 'setting ' + py); store[key] = v; drv.count('writes')
        if kind(t) == 'V': x.setN(-7)
        if op == 'roundtrip':
            del x
            check_py(t, getattr(obj, py), v, what + '.' + py); c.log()
    elif op == 'bad':
        x = bad(t)
        try: setattr(obj, py, x)
        except REJ: pass
        except KeyError as e:
            if 'boom' not in str(e): raise Fail('setting to %r: %r' % (x, e))
        else: raise Fail('setting %s.%s (%s) to %r was accepted' % (what, py, t, x))
        expect_log([], 'rejected value for ' + py); drv.count('rejected_writes')
    elif op == 'reenter':
        # converting the value reads and writes the same attribute
        if not indexable(t): return
        v, w = gen(t), gen(t)
        seen = []
        def hook(): setattr(obj, py, w); seen.append(getattr(obj, py))
        setattr(obj, py, Idx(v, hook)); c.log(); store[key] = v
        for s in seen: check_py(t, s, w, what + '.' + py + ' inside')
        drv.count('reentrant')
    drv.distinct([t, a['mode'], op, a['py'] != a['cpp']])
def step():
    r = rng.random()
    if r < .08 or not insts:
        insts.append(make(rng.choice(list(C)), rng.random() < .4)); look_inst(insts[-1])
    elif r < .12 and len(insts) > 3: insts.pop(rng.randrange(len(insts)))
    elif r < .2:
        i = rng.choice(insts); k = rng.choice(chain(i.name)); al = [a for a in k['attrs'] if not a['mode'].startswith('static')]
        if not al: return
        a = rng.choice(al); v = gen(a['ctype']) if kind(a['ctype']) != 'P' or rng.random() < .7 else None
        push(a['ctype'], v); cls(k['name']).poke(i.py, k['attrs'].index(a)); i.val[k['name'], a['cpp']] = v
        trace.append('C++ writes %s.%s' % (k['name'], a['cpp'])); drv.count('cpp_writes')
    elif r < .25:
        name = rng.choice(list(C)); al = [a for a in C[name]['attrs'] if a['mode'].startswith('static')]
        if not al: return
        a = rng.choice(al); v = gen(a['ctype']); push(a['ctype'], v); cls(name).pokes(C[name]['attrs'].index(a)); STATIC[name, a['cpp']] = v
        trace.append('C++ writes static %s.%s' % (name, a['cpp'])); drv.count('cpp_writes')
    elif r < .5:
        name = rng.choice(list(C)); al = stat_attrs(name)
        if not al: return
        k, a = rng.choice(al); t = cls(name); what = name
        if name in pysub and rng.random() < .5: t = pysub[name]; what = 'Sub(%s)' % name
        if not (k is C[name]) : drv.count('inherited_static')
        access(t, (k['name'], a['cpp']), a, STATIC, what)
        look_static(k['name'])
    elif r < .55 and pysub:
        # attributes of the Python subclass itself
        t = pysub[rng.choice(list(pysub))]
        x = rng.randint(0, 99); t.extra = x
        if t.extra != x: raise Fail('class attribute of a Python subclass reads %r after %r was set' % (t.extra, x))
        t.meth = lambda self, x=x: x
        o = t()
        for _ in range(3):
            if o.meth() != x or o.extra != x: raise Fail('replaced method of a Python subclass not seen')
        del t.meth; gc.collect()
        if hasattr(o, 'meth'): raise Fail('deleted method of a Python subclass still seen')
        t.meth = lambda self: 1; t.__len__ = lambda self: x
        if len(o) != x: raise Fail('special method set on a Python subclass is not used')
        del t.__len__; o.mine = x
        if o.mine != x: raise Fail('instance attribute of a Python subclass')
        drv.count('python_class_attributes')
    else:
        i = rng.choice(insts); al = inst_attrs(i.name)
        if not al: return
        k, a = rng.choice(al)
        if rng.random() < .05:
            d = cls(k['name']).__dict__[a['py']]
            try: d.__get__(M.Val(1), M.Val)
            except TypeError: drv.count('foreign')
            else: raise Fail('descriptor of %s accepted a foreign object' % a['py'])
        access(i.py, (k['name'], a['cpp']), a, i.val, i.name)
        look_inst(i)
        if insts and rng.random() < .2: look_inst(rng.choice(insts))

# ---- enum constants and enum values in calls
WANT = {'': dict(RED=0, GREEN=7, BLUE=8, BELOW=-12, T0=0, T1=1, T255=255, F0=0, FTOP=2**31, FALL=2**32 - 1, ANON_A=51, ANON_B=-52, ONE=61, TWO=62, EXPR=42, NINE=9, DEEP_HIGH=30000, O2_A=91, O2_B=92),
        'ns': dict(M_A=4, M_B=9, ANON_NS=41), 'ns.deep': dict(D_LOW=-30000, D_HIGH=30000, ANON_DEEP=31), 'Holder': dict(K_A=3, K_B=33, K_ANON=71, X=81, Y=82, Z=43)}
def enums():
    drv.op({'k': 'enums'})
    for path, want in WANT.items():
        o = M
        for p in path.split('.') if path else []: o = getattr(o, p)
        for nm, v in want.items():
            g = getattr(o, nm, None)
            if g != v or type(g) is not int: raise Fail('constant %s %s is %r, C++ says %d' % (path, nm, g, v))
            drv.ev(); drv.count('constants')
        for other, w in WANT.items():
            if other != path:
                for nm in w:
                    if nm not in want and hasattr(o, nm): raise Fail('constant %s leaked into %s' % (nm, path or 'the module'))
    def eq(g, w, what):
        drv.ev(); drv.count('enum_calls')
        if g != w: raise Fail('%s: %r, expected %r' % (what, g, w))
    eq(M.addc(M.RED), 7, 'addc'); eq(M.addc(M.BELOW, M.BLUE), -4, 'addc'); eq(M.addc(b=M.BELOW, a=M.RED), -12, 'addc')
    for a in (0, 2**31, 2**32 - 1):
        for b in (0, 2**31, 2**32 - 1): eq(M.fswap(a, b), (a, b), 'fswap')
    for a in (0, 1, 255):
        for b in (0, 1, 255): eq(M.tiny2(a, b), (a + b, b), 'tiny2')
    eq(M.ns.other(M.ns.M_A), 9, 'ns.other'); eq(M.ns.deep.neg(M.ns.deep.D_LOW), 30000, 'ns.deep.neg')
    eq(M.Holder().swapk(M.Holder.K_A), 33, 'swapk'); eq(M.Holder().swapk(33), 3, 'swapk')
    for f, args in ((M.addc, ('x',)), (M.addc, (1.5,)), (M.addc, (2**31,)), (M.fswap, (-1, 0)), (M.fswap, (0, 2**32)), (M.tiny2, (256, 0)), (M.tiny2, (0, 256)), (M.tiny2, (-1, 0)), (M.ns.deep.neg, (40000,)), (M.ns.other, (None,)), (M.Holder().swapk, (2**33,))):
        try: r = f(*args)
        except REJ: drv.count('enum_rejected')
        else: raise Fail('%s%r was accepted: %r' % (f.__name__, args, r))
try: enums()
except Fail as e: drv.violation('enum', str(e))
drv.sample([(s['name'], [(a['py'], a['ctype'], a['mode']) for a in s['attrs']]) for s in spec['classes'][:2]])
dead = False
for it in range(n):
    try: step()
    except Fail as e:
        last = trace[-1].split(' ')[0] if trace else ''
        drv.violation('attr:%s:%s' % (last, str(e).split(':')[0].split(' ')[0][:20]), '%s\n   history: %s' % (e, '; '.join(trace[-8:])), {'trace': trace[-30:], 'seed': drv.SEED})
        dead = True; break
    drv.ev()
    b = c.bad()
    if b[0]: drv.violation('lifetime', '%s after %s' % (b[1], trace[-3:])); dead = True; break
for s in spec['classes']:
    t = cls(s['name'])
    for a in s['attrs']:
        if not (a['py'] in dir(t) if not a['mode'].startswith('static') else hasattr(t, a['py'])): drv.violation('missing', '%s has no %s' % (s['name'], a['py']))
if not dead:
    nstat = sum(1 for s in spec['classes'] for a in s['attrs'] if a['mode'].startswith('static') and kind(a['ctype']) == 'V')
    psum = sum(1 for (k, n2), v in STATIC.items() for a in C[k]['attrs'] if a['cpp'] == n2 and kind(a['ctype']) == 'P' and v is not None)
    del insts[:]; gc.collect()
    if c.live('Val') != nstat: drv.violation('leak', '%d Val instances live at the end, %d static ones exist' % (c.live('Val'), nstat))
    if c.live('Sp') != psum: drv.violation('leak', '%d Sp instances live at the end, %d are held by static attributes' % (c.live('Sp'), psum))
    if c.live('Attrs'): drv.violation('leak', '%d instances left' % c.live('Attrs'))
drv.done()
'''

MODES = ['direct', 'direct', 'const', 'methods', 'methods', 'getter', 'getter+direct', 'direct+setter', 'custom', 'customget', 'template', 'static', 'static', 'staticconst']


def make_spec(rng, types):
    classes = []
    names = ['Ca', 'Cb', 'Cc', 'Cd', 'Ce']
    types = list(types)
    for i, n in enumerate(names):
        base = rng.choice([None] + names[:i]) if i else None
        outer = rng.choice([None, None, None] + [x for x in names[:i] if x != base and not any(c['name'] == x and c['outer'] for c in classes)]) if i and not base else None
        attrs = []
        pool = rng.sample(NAMES, rng.randint(3, 9))
        taken = set(a['py'] for c in classes for a in c['attrs']) | set(a['cpp'] for c in classes for a in c['attrs'])
        for nm in pool:
            if nm in taken:
                nm = nm + n[1]
            t = types.pop() if types else rng.choice(SCALARS + EXTRA)
            attrs.append({'cpp': nm, 'py': 'py_%s' % nm if rng.random() < .15 else nm, 'ctype': t, 'mode': rng.choice(MODES)})
        for a in attrs:
            if a['mode'].startswith('static'):
                a['py'] = a['cpp']
        sub = rng.random() < .5
        if base:
            sub = sub or [c for c in classes if c['name'] == base][0]['sub']
        classes.append({'name': n, 'base': base, 'outer': outer, 'attrs': attrs, 'sub': sub, 'virt': sub and rng.random() < .5})
    return {'classes': classes, 'sub': rng.random() < .5}


def full(spec, c):
    o = c['outer']
    return c['name'] if not o else o + '::' + c['name']


def header(spec):
    h, impl, late = HEADER, '', ''
    by = {c['name']: c for c in spec['classes']}
    # nested classes are defined inside their outer class: emit them when the outer one is emitted
    def emit(c, ind=''):
        o = 'struct %s%s {\n' % (c['name'], ' : ' + full(spec, by[c['base']]) if c['base'] else '')
        for k in spec['classes']:
            if k['outer'] == c['name']:
                o += emit(k)
        if not c['base']:
            o += '    vf::Track a_track;\n'
        init = ['%s()' % a['cpp'] for a in c['attrs'] if not a['mode'].startswith('static')]
        for a in c['attrs']:
            t, n = a['ctype'], a['cpp']
            if a['mode'].startswith('static'):
                o += '    static %s %s;\n' % (t, n)
                continue
            o += '    unsigned char before_%s; %s %s; unsigned char after_%s;\n' % (n, t, n, n)
            o += '    %s get_%s() const { vf::call("get_%s"); return %s; }\n    void set_%s(%s v) { vf::call("set_%s"); %s = v; }\n' % (t, n, n, n, n, t if sum(map(ord, n)) % 2 else 'const %s &' % t, n, n)
        if not c['base']:
            init.insert(0, 'a_track("Attrs")')
        o += '    %s()%s { %s }\n' % (c['name'], ' : ' + ', '.join(init) if init else '', ' '.join('before_%s = 171; after_%s = 205;' % (a['cpp'], a['cpp']) for a in c['attrs'] if not a['mode'].startswith('static')))
        o += '    virtual ~%s() {}\n' % c['name']
        o += '    virtual int hook() { return 5; }\n'
        o += '    void peek() const {\n'
        for a in c['attrs']:
            if not a['mode'].startswith('static'):
                o += '        X::out("%s.%s", %s); if (before_%s != 171 || after_%s != 205) vf::ev("neighbour-of %s");\n' % (c['name'], a['cpp'], a['cpp'], a['cpp'], a['cpp'], a['cpp'])
        o += '    }\n    static void peeks() {\n'
        for a in c['attrs']:
            if a['mode'].startswith('static'):
                o += '        X::out("%s.%s", %s);\n' % (c['name'], a['cpp'], a['cpp'])
        o += '    }\n    void poke(int i) { switch (i) {\n'
        for i, a in enumerate(c['attrs']):
            if not a['mode'].startswith('static'):
                o += '        case %d: %s = X::IO<%s >::take(); break;\n' % (i, a['cpp'], a['ctype'])
        o += '    default: break; } }\n    static void pokes(int i) { switch (i) {\n'
        for i, a in enumerate(c['attrs']):
            if a['mode'].startswith('static'):
                o += '        case %d: %s = X::IO<%s >::take(); break;\n' % (i, a['cpp'], a['ctype'])
        o += '    default: break; } }\n};\n'
        return o
    for c in spec['classes']:
        if not c['outer']:
            h += emit(c)
    for c in spec['classes']:
        F = full(spec, c)
        for a in c['attrs']:
            n, t, p = a['cpp'], a['ctype'], '%s_%s' % (c['name'], a['cpp'])
            if a['mode'].startswith('static'):
                impl += '%s %s::%s = %s();\n' % (t, F, n, t if t.replace('_', 'a').isidentifier() or '::' in t else 'vfi')
                impl = impl.replace('= vfi();', '= {};')
            elif a['mode'] in ('custom', 'customget'):
                h += 'inline %s fget_%s(%s &o) { vf::call("fget_%s"); return o.%s; }\ninline void fset_%s(%s &o, %s v) { vf::call("fset_%s"); o.%s = v; }\n' % (t, p, F, p, n, p, F, t, p, n)
            elif a['mode'] == 'template':
                h += 'template <class T, int K> inline T tget_%s(%s &o) { vf::call("tget_%s"); return K == 3 ? o.%s : T(); }\ntemplate <class T> inline void tset_%s(%s &o, T v) { vf::call("tset_%s"); o.%s = v; }\n' % (p, F, p, n, p, F, p, n)
    return h, impl


def main():
    ck = Check('C13', 'distinct (C++ type, access mode, operation) combinations on attributes')
    nmod = 8 if not THOROUGH else 24
    n = 2500 if not THOROUGH else 30000

    def one(i):
        name = 'att%d' % i
        rng = random.Random('C13/%s/%d' % (SEED, i))
        types = SCALARS + EXTRA * 2
        rng.shuffle(types)
        spec = make_spec(rng, types)
        d = os.path.join(scratch(), name)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        h, impl = header(spec)
        try:
            handmod.build(d, name, h, GEN, impl=impl)
        except Exception as e:
            return name, e
        r = drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, name, str(n)], timeout=850)
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        return name, r
    def some(i):
        return one(i) if i < nmod else ('enum%d' % i, enums.run('enum%d' % i, random.Random('C13e/%s/%d' % (SEED, i))))
    for name, r in pmap(some, range(nmod + (6 if not THOROUGH else 40))):
        if isinstance(r, Exception):
            ck.build_failed(r, 'attributes')
        else:
            ck.absorb(r, name)
    for k, m in (('reads', 1500), ('writes', 1500), ('rejected_writes', 700), ('readonly', 500), ('deletes', 300), ('cpp_writes', 800), ('constants', 150), ('enum_calls', 100), ('inherited_static', 150), ('python_class_attributes', 300), ('reentrant', 50)):
        ck.require(k, m)
    ck.finish()


main()
