"""C04: overload resolution: the first registered overload whose parameters accept the arguments runs, nothing else does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *

TYPES = ['int', 'short', 'long', 'long long', 'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char',
         'signed char', 'double', 'float', 'bool', 'char', 'std::string', 'const char*', 'A&', 'B&', 'C&', 'A*', 'C*', 'B', 'C const&', 'E']
WEIGHT = ['int', 'double', 'std::string', 'A&', 'const char*', 'bool', 'C&', 'long', 'unsigned short']
DEFAULTS = {'int': ('5', 'I5'), 'long': ('-7', 'I-7'), 'double': ('0.5', 'D3fe0000000000000'), 'std::string': ('std::string("dd")', 'S6464'), 'bool': ('true', 'B1'),
            'unsigned short': ('3', 'I3'), 'short': ('-2', 'I-2'), 'unsigned int': ('9', 'I9'), 'E': ('E_TWO', 'I2'), 'long long': ('11', 'I11')}
NAMES = ['x', 'y', 'count', 'name', 'w', 'alpha']


def canon(t):
    return t.replace('&', '').replace('const', '').strip() if t != 'const char*' and '*' not in t else t


def make_sets(rng, prefix, kinds):
    """overload sets: {'name', 'how': 'cpp'|'custom', 'kind', 'ovs': [[(type, name, default)...]...]}"""
    out = []
    for i, kind in enumerate(kinds):
        how = 'cpp' if kind == 'ctor' or rng.random() < .6 else 'custom'
        n = rng.randint(2, 6)
        ovs, seen = [], set()
        for _ in range(50):
            if len(ovs) == n:
                break
            ts = [rng.choice(WEIGHT if rng.random() < .5 else TYPES) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
            key = tuple(canon(t) for t in ts)
            if how == 'cpp' and key in seen:
                continue
            seen.add(key)
            names = rng.sample(NAMES, len(ts))
            if rng.random() < .4:
                names = NAMES[:len(ts)]
            dn = 0
            if rng.random() < .35:
                while dn < len(ts) and ts[len(ts) - 1 - dn] in DEFAULTS and rng.random() < .7:
                    dn += 1
            ovs.append({'ps': [(t, nm, j >= len(ts) - dn) for j, (t, nm) in enumerate(zip(ts, names))], 'throws': rng.random() < .3})
        out.append({'name': '%s%d' % (prefix, i), 'how': how, 'kind': kind, 'ovs': ovs})
    return out


def cpp(sets, cls=None):
    o = ''
    for s in sets:
        for k, ov in enumerate(s['ovs']):
            tag = '%s#%d' % (s['name'], k)
            ps = ', '.join('%s %s' % (t, n) for t, n, d in ov['ps'])
            body = 'vf::call("%s");' % tag
            for t, n, d in ov['ps']:
                if t == 'E':
                    body += ' vf::in("%s", (int) %s);' % (n, n)
                elif t[0] in 'ABC' and t[1:2] in ('', '&', '*', ' '):
                    body += ' vf::in("%s", %s%sid);' % (n, n, '->' if '*' in t else '.')
                else:
                    body += ' vf::in("%s", %s);' % (n, n)
            if ov['throws']:
                body += ' if (g_throw) { g_throw = 0; throw std::out_of_range("tag %s"); }' % tag
            nm = s['name'] if s['how'] == 'cpp' else '%s_cpp%d' % (s['name'], k)
            if s['kind'] == 'ctor':
                o += '    %s(%s) { %s }\n' % (s['name'], ps, body)
            else:
                o += '    %sint %s(%s) { %s return %d; }\n' % ({'function': 'inline ', 'static': 'static ', 'method': ''}[s['kind']], nm, ps, body, k)
    return o


GEN = r'''
import json, sys, os
outdir = sys.argv[1]
spec = json.load(open(os.path.join(outdir, 'spec.json')))
from pybindgen import Module, param, retval, FileCodeSink
DEFAULTS = spec['defaults']
mod = Module(spec['module'])
mod.add_include('"spec.h"')
exc = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()')
A = mod.add_class('A', allow_subclassing=True); A.add_constructor([param('int', 'id')])
B = mod.add_class('B', parent=A, allow_subclassing=True); B.add_constructor([param('int', 'id')]); B.add_copy_constructor()
C = mod.add_class('C'); C.add_constructor([param('int', 'id')]); C.add_copy_constructor()
mod.add_enum('E', ['E_ONE', 'E_TWO'])
def P(t, n, d):
    kw = {}
    if t.endswith('*') and t[0] in 'ABC':
        kw['transfer_ownership'] = False
    if t.endswith('&') and t[0] in 'ABC' and 'const' not in t:
        from pybindgen import Parameter
        kw['direction'] = Parameter.DIRECTION_IN
    if d:
        kw['default_value'] = DEFAULTS[t][0]
    return param(t, n, **kw)
def add(s, target, how):
    for k, ov in enumerate(s['ovs']):
        ps = [P(*p) for p in ov['ps']]
        kw = {'throw': [exc]} if ov['throws'] else {}
        if s['kind'] == 'ctor':
            target.add_constructor(ps, **kw)
            continue
        nm = s['name']
        if s['how'] == 'custom':
            nm = '%s_cpp%d' % (s['name'], k)
            kw['custom_name'] = s['name']
        if s['kind'] == 'function':
            target.add_function(nm, retval('int'), ps, **kw)
        else:
            target.add_method(nm, retval('int'), ps, is_static=s['kind'] == 'static', **kw)
for s in spec['functions']:
    add(s, mod, 0)
K = mod.add_class('K', allow_subclassing=True); K.add_constructor([])
D = mod.add_class('D', parent=K, allow_subclassing=True); D.add_constructor([])
for s in spec['methods']:
    add(s, K, 0)
for s in spec['ctors']:
    c = mod.add_class(s['name'], allow_subclassing=bool(s.get('sub')))
    if s.get('sub'):
        c.add_method('virt', None, [], is_virtual=True)
    add(s, c, 0)
with open(os.path.join(outdir, spec['module'] + '.cc'), 'w') as f:
    f.write('#include "vflog_impl.h"\n')
    mod.generate(FileCodeSink(f))
'''

DRIVER = r'''
import sys, random, json, os, struct, importlib
from vf import drv
from vf.sigdrv import parse_log
n = int(sys.argv[3])
sys.path.insert(0, sys.argv[1])
spec = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
mod = importlib.import_module(sys.argv[2])
c = drv.CSide(mod)
import ctypes
g_throw = ctypes.c_int.in_dll(c.lib, 'g_throw')
rng = random.Random('%s/%s' % (drv.SEED, sys.argv[2]))

class IntSub(int): pass
class Idx:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
    def __repr__(self): return 'Idx(%d)' % self.v
class BadIdx:
    def __index__(self): raise RuntimeError('bad index')
    def __float__(self): raise RuntimeError('bad float')
    def __bool__(self): raise RuntimeError('bad bool')
    def __repr__(self): return 'BadIdx()'
class Flt:
    def __float__(self): return 2.5
    def __repr__(self): return 'Flt()'
class PyA(mod.A): pass
class PyB(mod.B): pass
_id = [100]
def inst(cls):
    _id[0] += 1
    o = cls(_id[0])
    o_ids[id(o)] = _id[0]
    keep.append(o)
    return o
o_ids, keep = {}, []

SIGNED = {'short': 16, 'int': 32, 'long': 64, 'long long': 64, 'signed char': 8, 'E': 32}
UCHK = {'unsigned short': 16, 'unsigned char': 8}
UMOD = {'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64}
REJ = object()
def as_index(v):
    if isinstance(v, int): return int(v)
    if isinstance(v, Idx): return v.v
    return None
def accept(t, v):
    """the value C++ must see, or REJ"""
    if t in SIGNED or t in UCHK:
        i = as_index(v)
        if i is None: return REJ
        if t in SIGNED:
            h = 1 << (SIGNED[t] - 1)
            return 'I%d' % i if -h <= i < h else REJ
        return 'I%d' % i if 0 <= i < (1 << UCHK[t]) else REJ
    if t in UMOD:
        i = as_index(v)
        if i is None or (t != 'unsigned int' and not isinstance(v, int)): return REJ
        return 'I%d' % (i % (1 << UMOD[t]))
    if t in ('double', 'float'):
        if isinstance(v, float): f = v
        elif isinstance(v, Flt): f = 2.5
        else:
            i = as_index(v)
            if i is None: return REJ
            try: f = float(i)
            except OverflowError: return REJ
        if t == 'double': return 'D%016x' % struct.unpack('Q', struct.pack('d', f))[0]
        try: return 'F%08x' % struct.unpack('I', struct.pack('f', f))[0]
        except OverflowError: return 'F7f800000' if f > 0 else 'Fff800000'
    if t == 'bool':
        if isinstance(v, BadIdx): return REJ
        return 'B%d' % bool(v)
    if t == 'char':
        return 'c%d' % v[0] if isinstance(v, (bytes, bytearray)) and len(v) == 1 else REJ
    if t in ('std::string', 'const char*'):
        if isinstance(v, bytes) and t == 'std::string': return 'S' + v.hex()
        if not isinstance(v, str): return REJ
        try: b = v.encode()
        except UnicodeEncodeError: return REJ
        if t == 'const char*' and b'\0' in b: return REJ
        return 'S' + b.hex()
    cls = getattr(mod, t[0])
    return 'I%d' % o_ids[id(v)] if isinstance(v, cls) else REJ

def pool():
    r = rng.random()
    if r < .35:
        k = rng.choice([7, 8, 15, 16, 31, 32, 63, 64, 65])
        v = rng.choice([0, 1, 2, 3, -1, 100, 200, (1 << k) + rng.randint(-2, 2), -(1 << k) + rng.randint(-2, 2)])
        w = rng.random()
        return IntSub(v) if w < .1 else Idx(v) if w < .2 else v
    if r < .5: return rng.choice([0.5, -1.25, 3.0, 1e30, float('inf')])
    if r < .65: return rng.choice(['', 'a', 'text', '\u00e9', 'nul\0in', '\ud800', 'z' * 40])
    if r < .72: return rng.choice([b'', b'q', b'two', bytearray(b'k')]) if rng.random() < .9 else b'\0'
    if r < .78: return rng.choice([None, True, False, [], (1, 2), object, {'a': 1}])
    if r < .82: return rng.choice([BadIdx(), Flt()])
    return inst(rng.choice([mod.A, mod.B, mod.C, PyA, PyB]))

def good(t):
    if t[0] in 'ABC' and t[1:2] in ('', '&', '*', ' '):
        return inst(rng.choice({'A': [mod.A, mod.B, PyA, PyB], 'B': [mod.B, PyB], 'C': [mod.C]}[t[0]]))
    for _ in range(5000):
        v = pool()
        if t == 'std::string' and isinstance(v, bytearray): continue
        if accept(t, v) is not REJ: return v
    raise RuntimeError(t)

def bind(ps, args, kw):
    """-> list of (name, enc) the C++ side must see, or None when this overload does not accept the call"""
    if len(args) + len(kw) > len(ps) or len(args) > len(ps): return None
    names = [p[1] for p in ps]
    if any(k not in names for k in kw): return None
    out = []
    for i, (t, nm, d) in enumerate(ps):
        if i < len(args):
            if nm in kw: return None
            v = args[i]
        elif nm in kw: v = kw[nm]
        elif d:
            out.append((nm, spec['defaults'][t][1])); continue
        else: return None
        if t == 'std::string' and isinstance(v, bytearray): return None
        e = accept(t, v)
        if e is REJ: return None
        out.append((nm, e))
    return out

def make_call(s):
    ov = rng.choice(s['ovs'])
    args = [good(t) for t, nm, d in ov['ps']]
    names = [p[1] for p in ov['ps']]
    kw = {}
    r = rng.random()
    if r < .3:
        k = rng.randint(0, len(args))
        kw = dict(zip(names[k:], args[k:])); args = args[:k]
        if kw and rng.random() < .5:
            items = list(kw.items()); rng.shuffle(items); kw = dict(items)
    elif r < .4 and args:
        args = args[:rng.randint(0, len(args))]
    r = rng.random()
    if r < .25 and args: args[rng.randrange(len(args))] = pool()
    elif r < .32 and kw: kw[rng.choice(list(kw))] = pool()
    elif r < .38: args.append(pool())
    elif r < .42: kw['bogus'] = 1
    elif r < .46 and args: kw[rng.choice(['x', 'y', 'name'])] = pool()
    elif r < .50: args = [pool() for _ in range(rng.randint(0, 3))]; kw = {}
    return args, kw

def run(s, callee, check_ret):
    for k in range(n):
        args, kw = make_call(s)
        want = None
        for i, ov in enumerate(s['ovs']):
            b = bind(ov['ps'], args, kw)
            if b is not None:
                want = (i, b); break
        thr = want is not None and s['ovs'][want[0]]['throws'] and rng.random() < .4
        c.log()
        g_throw.value = 1 if thr else 0
        drv.op({'k': s['kind'], 's': s['name'], 'args': repr(args), 'kw': repr(kw)})
        exc = got = None
        try: got = callee(*args, **kw)
        except BaseException as e: exc = e
        log = parse_log(c.log())
        g_throw.value = 0
        drv.ev()
        desc = '%s called with %r %r; overloads %s' % (s['name'], args, kw, [[(p[0], p[1]) + (('opt',) if p[2] else ()) for p in o['ps']] for o in s['ovs']])
        W = s['kind'] + '-'
        if want is None:
            if log: drv.violation(W + 'ran-unacceptable', desc + ': no overload accepts this, yet C++ ran %r' % (log,)); continue
            if exc is None: drv.violation(W + 'no-error', desc + ': returned %r' % (got,)); continue
            if not isinstance(exc, TypeError) or len(exc.args) != 1 or type(exc.args[0]) is not list or len(exc.args[0]) != len(s['ovs']) \
               or not all(type(x) is str for x in exc.args[0]):
                drv.violation(W + 'error-form', desc + ': error %r' % (exc,)); continue
            drv.count('rejected_ok')
            continue
        tag = '%s#%d' % (s['name'], want[0])
        if [l[0] for l in log] != [tag]:
            drv.violation(W + 'wrong-overload', desc + ': expected %s, C++ ran %r, exception %r' % (tag, [l[0] for l in log], exc)); continue
        if log[0][1] != want[1]:
            drv.violation(W + 'arguments', desc + ': %s saw %r, expected %r' % (tag, log[0][1], want[1])); continue
        if thr:
            if type(exc) is not mod.out_of_range or str(exc) != 'tag ' + tag:
                drv.violation(W + 'cpp-exception', desc + ': %s threw, Python got %r' % (tag, exc)); continue
            drv.count('thrown_ok')
        elif exc is not None:
            drv.violation(W + 'raised', desc + ': raised %r' % (exc,)); continue
        elif check_ret(got, want[0]):
            drv.violation(W + 'result', desc + ': result %r' % (got,)); continue
        drv.count(s['kind'] + '_ok')
        drv.count('depth_%d' % want[0])
        drv.distinct([s['kind'], [[p[0] for p in o['ps']] for o in s['ovs']], want[0], len(args), sorted(kw)])
        if want[0] > 1: drv.sample({'call': desc, 'chosen': tag})

for s in spec['functions']:
    run(s, getattr(mod, s['name']), lambda g, k: g != k)
o, d = mod.K(), mod.D()
class PyD(mod.D): pass
pd = PyD()
for s in spec['methods']:
    for holder in ((o, d, pd) if s['kind'] == 'method' else (mod.K, mod.D, o, PyD)):
        n_, n = n, n // 2
        run(s, getattr(holder, s['name']), lambda g, k: g != k)
        n = n_
for s in spec['ctors']:
    cls = getattr(mod, s['name'])
    run(s, cls, lambda g, k: type(g) is not cls)
    if not s['sub']: continue
    class Sub(cls): pass
    run(s, Sub, lambda g, k: type(g) is not Sub)
drv.done()
'''


def build(i):
    rng = random.Random('C04/%s/%d' % (SEED, i))
    name = 'm%d' % i
    d = os.path.join(scratch(), name)
    spec = {'module': name, 'defaults': DEFAULTS,
            'functions': make_sets(rng, 'f', ['function'] * 8),
            'methods': make_sets(rng, 'g', ['method'] * 5 + ['static'] * 3),
            'ctors': make_sets(rng, 'Q', ['ctor'] * 6)}
    for s in spec['ctors']:
        s['sub'] = rng.random() < .5
    h = '#include "vflog.h"\n#include <stdexcept>\nextern "C" __attribute__((visibility("default"))) int g_throw;\nenum E : int { E_ONE = 1, E_TWO = 2 };\n'
    h += 'struct A { int id; A(int i) : id(i) {} virtual ~A() {} };\nstruct B : A { B(int i) : A(i) {} };\nstruct C { int id; C(int i) : id(i) {} };\n'
    h += cpp(spec['functions'])
    h += 'struct K {\n virtual ~K() {}\n' + cpp(spec['methods']) + '};\nstruct D : K {};\n'
    for s in spec['ctors']:
        h += 'struct %s {\n virtual ~%s() {}\n virtual void virt() {}\n%s};\n' % (s['name'], s['name'], cpp([s]))
    write(os.path.join(d, 'spec.h'), h)
    write(os.path.join(d, 'spec.json'), json.dumps(spec))
    try:
        generate(write(os.path.join(d, 'gen.py'), GEN), d)
        write(os.path.join(d, 'extra.cc'), 'extern "C" __attribute__((visibility("default"))) int g_throw; int g_throw = 0;\n')
        compile_module([os.path.join(d, name + '.cc'), os.path.join(d, 'extra.cc')], os.path.join(d, name + '.so'))
    except Exception as e:
        return e
    r = drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, name, str(60 if not THOROUGH else 400)], timeout=800)
    shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    ck = Check('C04', 'distinct (overload set, chosen overload, call style) combinations whose dispatch was compared with the model')
    n = 8 if not THOROUGH else 64
    for i, r in enumerate(pmap(build, range(n))):
        if isinstance(r, Exception):
            ck.build_failed(r, 'overloads')
        else:
            ck.absorb(r, 'm%d' % i)
    for k in ('function_ok', 'method_ok', 'static_ok', 'ctor_ok', 'rejected_ok', 'thrown_ok', 'depth_0', 'depth_1', 'depth_2'):
        ck.require(k, 100)
    ck.finish()


main()
