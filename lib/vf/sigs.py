"""Random signatures: C++ functions and methods over the types pybindgen handles natively, the
pybindgen registration for them, and the model that says what must be seen on both sides."""
import random, struct

INT = {}


def _i(names, bits, signed):
    for n in names.split('|'):
        INT[n] = (bits, signed)


_i('int|int32_t', 32, True)
_i('unsigned int|uint32_t', 32, False)
_i('long|long int|long signed|long signed int|signed long|signed long int', 64, True)
_i('unsigned long|unsigned long int|long unsigned|long unsigned int', 64, False)
_i('long long|long long int|int64_t', 64, True)
_i('unsigned long long|unsigned long long int|long long unsigned|long long unsigned int|uint64_t', 64, False)
_i('short|short int|int16_t', 16, True)
_i('unsigned short|unsigned short int|uint16_t', 16, False)
_i('signed char|char signed|int8_t', 8, True)
_i('unsigned char|char unsigned|uint8_t', 8, False)
_i('size_t|std::size_t', 64, False)

# base C++ type -> kind
BASE = {n: 'int' for n in INT}
BASE.update({'bool': 'bool', 'float': 'f32', 'double': 'f64', 'char': 'char', 'std::string': 'str'})

VALUE_PARAMS = sorted(INT) + ['bool', 'float', 'double', 'char', 'std::string', 'const char*', 'char*']
REF_ALL = ['bool', 'float', 'double', 'int', 'unsigned int', 'short', 'short int', 'int16_t', 'unsigned short', 'unsigned short int', 'uint16_t',
           'short unsigned int', 'signed char', 'int8_t', 'unsigned char', 'uint8_t', 'std::string']
_i('short unsigned int|short unsigned|unsigned', 16, False)
INT['unsigned'] = (32, False)
BASE.update({n: 'int' for n in ('short unsigned int', 'short unsigned', 'unsigned')})
REF_IN = ['long', 'long int', 'signed long', 'long signed int', 'unsigned long', 'unsigned long int', 'long unsigned int', 'long long', 'long long int', 'int64_t',
          'unsigned long long', 'uint64_t', 'long long unsigned int']
PTR_ALL = ['bool', 'float', 'double', 'int', 'unsigned int', 'uint32_t', 'uint16_t', 'unsigned short int', 'int8_t', 'uint8_t', 'std::string']
RETURNS = ['bool', 'char', 'float', 'double', 'std::string', 'std::string &', 'std::string const &', 'const char*', 'char*', 'int', 'int32_t', 'unsigned int', 'uint32_t', 'long', 'long int', 'signed long', 'long signed int',
           'unsigned long', 'long unsigned int', 'long long', 'long long int', 'int64_t', 'unsigned long long', 'long long unsigned int',
           'uint64_t', 'short', 'short int', 'int16_t', 'unsigned short', 'unsigned short int', 'short unsigned int', 'uint16_t',
           'signed char', 'int8_t', 'unsigned char', 'uint8_t', 'char unsigned', 'size_t', 'std::size_t']
REV_RETURNS = [r for r in RETURNS if '&' not in r]


def all_param_forms():
    """every (ctype, direction) the native handlers advertise for Python -> C++ calls"""
    out = [(t, 'in') for t in VALUE_PARAMS]
    for t in REF_ALL:
        for d in ('in', 'out', 'inout'):
            out.append((t + '&', d))
    out += [('unsigned &', d) for d in ('in', 'out', 'inout')]
    out += [(t + '&', 'in') for t in REF_IN]
    for t in PTR_ALL:
        for d in ('in', 'out', 'inout'):
            out.append((t + '*', d))
    out += [('std::string const &', 'in'), ('const std::string&', 'in')]
    return out


def base_of(ctype):
    """(C++ value type, 'value'|'ref'|'ptr', kind)"""
    c = ctype.strip()
    if c in ('const char*', 'char*'):
        return c, 'value', 'cstr'
    how = 'value'
    if c.endswith('&'):
        how, c = 'ref', c[:-1].strip()
    elif c.endswith('*'):
        how, c = 'ptr', c[:-1].strip()
    b = ' '.join(w for w in c.split() if w != 'const')
    return b, how, BASE[b]


def irange(b):
    bits, signed = INT[b]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def f32(x):
    if x != x:
        return x
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def enc(b, kind, v):
    """how the C++ side writes value v of C++ type b"""
    if kind == 'int':
        return 'I%d' % v
    if kind == 'bool':
        return 'B%d' % bool(v)
    if kind == 'f32':
        return 'F%08x' % struct.unpack('I', struct.pack('f', f32(v)))[0] if v == v else 'Fnan'
    if kind == 'f64':
        return 'D%016x' % struct.unpack('Q', struct.pack('d', v))[0] if v == v else 'Dnan'
    if kind == 'char':
        return 'c%d' % (v[0] if isinstance(v, bytes) else ord(v))
    if kind in ('str', 'cstr'):
        if v is None:
            return 'N'
        return 'S' + (v if isinstance(v, bytes) else v.encode()).hex()
    raise ValueError(kind)


def enc_eq(kind, got, want):
    if want == 'Fnan':
        u = int(got[1:], 16)
        return (u & 0x7f800000) == 0x7f800000 and (u & 0x7fffff) != 0
    if want == 'Dnan':
        u = int(got[1:], 16)
        return (u >> 52) & 0x7ff == 0x7ff and (u & ((1 << 52) - 1)) != 0
    return got == want


def enc_push(b, kind, v):
    e = enc(b, kind, v)
    return {'Fnan': 'F7fc00000', 'Dnan': 'D7ff8000000000000'}.get(e, e)


def py_expected(kind, v):
    """the Python value that stands for C++ value v"""
    if kind == 'f32':
        return f32(v)
    if kind == 'bool':
        return bool(v)
    return v


def same(kind, got, want):
    if kind in ('f32', 'f64'):
        if type(got) is not float:
            return False
        if want != want:
            return got != got
        return struct.pack('d', got) == struct.pack('d', want)
    if kind == 'bool':
        return type(got) is bool and got == want     # a C++ bool is a Python bool
    if kind == 'int':
        return type(got) is int and got == want
    if kind == 'char':
        return type(got) is bytes and got == want       # a C++ char is a byte string of length one
    return type(got) is type(want) and got == want


TEXTS = ['', 'a', 'hello world', '\u00e9t\u00e9', '\u4e2d\u6587 text', '\U0001f600', 'x' * 300, '%s%d%n', '"quoted"\\', 'line1\nline2\t', 'ends with space ']


def value(rng, b, kind, for_c=False):
    """a value that C++ type b can hold exactly (in the sense of the conversion)"""
    if kind == 'int':
        lo, hi = irange(b)
        r = rng.random()
        if r < .45:
            c = [lo, lo + 1, hi, hi - 1, 0, 1, 2, hi // 2, hi // 2 + 1]
            if lo < 0:
                c += [-1, -2, lo // 2]
            for k in (7, 8, 15, 16, 31, 32, 63):
                for d in (-1, 0, 1):
                    if lo <= (1 << k) + d <= hi:
                        c.append((1 << k) + d)
                    if lo <= -(1 << k) + d:
                        c.append(-(1 << k) + d)
            return rng.choice(c)
        if r < .7:
            return rng.randint(lo, hi)
        k = rng.randint(1, INT[b][0])
        return max(lo, min(hi, rng.choice([-1, 1]) * rng.getrandbits(k)))
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'f64':
        r = rng.random()
        if r < .35:
            return rng.choice([0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), float('nan'), 5e-324, -5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1e300])
        if r < .7:
            return struct.unpack('d', struct.pack('Q', rng.getrandbits(64)))[0]
        return rng.uniform(-1e6, 1e6)
    if kind == 'f32':
        r = rng.random()
        if r < .35:
            return f32(rng.choice([0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), float('nan'), 1.401298464324817e-45, 3.4028234663852886e38, 0.1]))
        if r < .6:
            return struct.unpack('f', struct.pack('I', rng.getrandbits(32)))[0]
        if for_c:
            return f32(rng.uniform(-1e6, 1e6))
        return rng.uniform(-1e6, 1e6)          # a double: arrives rounded to float
    if kind == 'char':
        return bytes([rng.randint(0, 255)])
    if kind == 'cstr':
        return rng.choice(TEXTS) if rng.random() < .5 else ''.join(chr(rng.choice([rng.randint(1, 127), rng.randint(0xa0, 0x2ff), rng.randint(0x4e00, 0x9000)])) for _ in range(rng.randint(0, 20)))
    if kind == 'str':
        if rng.random() < .2:
            return rng.choice(['\0', 'a\0b', 'tail\0', '\0\0head', 'mid\0dle\0'])
        return value(rng, b, 'cstr')
    raise ValueError(kind)


def default_for(rng, ctype):
    """(value, C++ expression), or None if no default is used for this form"""
    b, how, kind = base_of(ctype)
    if how == 'ptr':
        return None
    if kind == 'int':
        bits, signed = INT[b]
        v = rng.choice([1, 7, 100, 127])
        if signed:
            v = rng.choice([v, -v])
        if rng.random() < .3:
            v = 0
        return v, str(v)
    if kind == 'bool':
        v = rng.random() < .5
        return v, 'true' if v else 'false'
    if kind in ('f32', 'f64'):
        v = rng.choice([0.5, -2.25, 1024.0])
        return v, repr(v)
    if kind in ('str', 'cstr'):
        v = rng.choice(['dflt', '', 'two words'])
        if kind == 'str':
            return v, 'std::string("%s")' % v
        return v, '"%s"' % v
    return None


# ------------------------------------------------------------------ emission of the C++ side

def cpp_params(ps):
    return ', '.join('%s %s' % (p['ctype'], p['name']) for p in ps)


def cpp_body(name, ret, ps, this=False):
    """body of a C++ function: log what arrived, then hand out what the driver queued"""
    L = ['vf::call("%s");' % name]
    for p in ps:
        b, how, kind = base_of(p['ctype'])
        n = p['name']
        if 'in' in p['dir']:
            L.append('vf::in("%s", %s%s);' % (n, '*' if how == 'ptr' else '', n))
    for p in ps:
        b, how, kind = base_of(p['ctype'])
        if 'out' in p['dir']:
            L.append('%s%s = vf::take<%s >();' % ('*' if how == 'ptr' else '', p['name'], b))
    if ret and ret != 'void':
        L.append(ret_stmt(ret))
    return '\n    '.join(L)


def ret_stmt(ret):
    if ret == 'std::string const &':
        return 'return vf::take_ref();'
    if ret == 'std::string &':
        return 'return const_cast<std::string &>(vf::take_ref());'
    return 'return vf::take<%s >();' % ret.strip()


def cpp_function(fn, decl_only=False, cls=None):
    ret = fn['ret'] or 'void'
    return '%s %s(%s)\n{\n    %s\n}\n' % (ret, fn['name'], cpp_params(fn['params']), cpp_body(fn['name'], ret, fn['params']))


def cpp_method(fn):
    ret = fn['ret'] or 'void'
    return '    %s%s %s(%s)%s\n{\n    %s\n}\n' % ('static ' if fn.get('static') else '', ret, fn['name'], cpp_params(fn['params']), ' const' if fn.get('const') else '',
                                                 cpp_body(fn['name'], ret, fn['params']))


def cpp_virtual(fn):
    """virtual method with a C++ default, and a driver that calls it from C++ with queued arguments"""
    ret = fn['ret'] or 'void'
    o = '    virtual %s %s(%s)\n{\n    %s\n}\n' % (ret, fn['name'], cpp_params(fn['params']), cpp_body('cpp_' + fn['name'], ret, fn['params']))
    L = []
    args = []
    for p in fn['params']:
        b, how, kind = base_of(p['ctype'])
        n = 'a_' + p['name']
        if kind == 'cstr':
            L.append('%s %s = vf::take<%s >();' % (b, n, b))
        elif 'in' in p['dir']:
            L.append('%s %s = vf::take<%s >();' % (b, n, b))
        else:
            L.append('%s %s{};' % (b, n))
        args.append(('&' if how == 'ptr' else '') + n)
    call = 'this->%s(%s)' % (fn['name'], ', '.join(args))
    if ret == 'void':
        L.append(call + ';')
    else:
        L.append('%s a_retval = %s;' % (ret, call))
    L.append('vf::call("back_%s");' % fn['name'])
    if ret != 'void':
        L.append('vf::in("return", a_retval);')
    for p in fn['params']:
        if 'out' in p['dir']:
            L.append('vf::in("%s", a_%s);' % (p['name'], p['name']))
    o += '    void drive_%s()\n{\n    %s\n}\n' % (fn['name'], '\n    '.join(L))
    return o


def cpp_header(spec):
    o = '#ifndef SPEC_H\n#define SPEC_H\n#include "vflog.h"\n'
    for fn in spec.get('functions', []):
        o += 'inline ' + cpp_function(fn)
    for c in spec.get('classes', []):
        o += 'class %s {\npublic:\n' % c['name']
        for i, k in enumerate(c.get('ctors', [])):
            o += '    %s(%s)\n{\n    %s\n}\n' % (c['name'], cpp_params(k['params']), cpp_body('%s::ctor%d' % (c['name'], i), None, k['params']))
        o += '    virtual ~%s() {}\n' % c['name'] if c.get('virtuals') else ''
        for m in c.get('methods', []):
            o += cpp_method(m)
        for m in c.get('virtuals', []):
            o += cpp_virtual(m)
        o += '};\n'
    o += '#endif\n'
    return o


# the generator script: pybindgen from /repo turns the spec into a module
GEN_SCRIPT = r'''
import json, sys, os
sys.path.insert(0, %(lib)r)
outdir = sys.argv[1]
spec = json.load(open(os.path.join(outdir, 'spec.json')))
import pybindgen
from pybindgen import Module, Parameter, ReturnValue, param, retval, FileCodeSink
D = {'in': Parameter.DIRECTION_IN, 'out': Parameter.DIRECTION_OUT, 'inout': Parameter.DIRECTION_INOUT}
def P(p):
    kw = {}
    if p['dir'] != 'in' or p['ctype'].rstrip()[-1] in '&*':
        if 'char*' not in p['ctype'] and 'const' not in p['ctype']:
            kw['direction'] = D[p['dir']]
    if p.get('default'):
        kw['default_value'] = p['default'][1]
    kw.update(p.get('opts', {}))
    return param(p['ctype'], p['name'], **kw)
def R(r):
    if r is None or r == 'void':
        return None
    kw = {}
    if r in ('const char*', 'char*'):
        pass
    return retval(r, **kw)
mod = Module(spec['module'])
mod.add_include('"spec.h"')
for fn in spec.get('functions', []):
    mod.add_function(fn['name'], R(fn['ret']), [P(p) for p in fn['params']], **fn.get('opts', {}))
for c in spec.get('classes', []):
    cls = mod.add_class(c['name'], **c.get('opts', {}))
    for k in c.get('ctors', []):
        cls.add_constructor([P(p) for p in k['params']])
    for m in c.get('methods', []):
        cls.add_method(m['name'], R(m['ret']), [P(p) for p in m['params']], is_static=bool(m.get('static')), is_const=bool(m.get('const')), **m.get('opts', {}))
    for m in c.get('virtuals', []):
        cls.add_method(m['name'], R(m['ret']), [P(p) for p in m['params']], is_virtual=True, **m.get('opts', {}))
        cls.add_method('drive_' + m['name'], None, [])
with open(os.path.join(outdir, spec['module'] + '.cc'), 'w') as f:
    f.write('#include "vflog_impl.h"\n')
    mod.generate(FileCodeSink(f))
'''


def build_spec(spec, outdir, flavour='asan', env=None):
    import json, os
    from . import core
    os.makedirs(outdir, exist_ok=True)
    core.write(os.path.join(outdir, 'spec.json'), json.dumps(spec))
    core.write(os.path.join(outdir, 'spec.h'), cpp_header(spec))
    script = core.write(os.path.join(outdir, 'gen.py'), GEN_SCRIPT % {'lib': core.LIB})
    core.generate(script, outdir, env=env)
    return core.compile_module([os.path.join(outdir, spec['module'] + '.cc')], os.path.join(outdir, spec['module'] + '.so'), flavour)


# ------------------------------------------------------------------ random specs

NAMES = ['x', 'y', 'count', 'name', 'flag', 'n', 'value', 'key', 'msg', 'w', 'alpha', 'b1', 'first', 'second', 'idx', 'mode', 'q']


def random_params(rng, n, forms, defaults=True):
    names = rng.sample(NAMES, n)
    ps = []
    for nm in names:
        ct, d = rng.choice(forms)
        ps.append({'name': nm, 'ctype': ct, 'dir': d})
    if defaults and rng.random() < .6:
        i = n
        # a trailing run of optional parameters; out-only parameters may stand between them
        k = rng.randint(0, n)
        while i > k:
            i -= 1
            p = ps[i]
            if 'in' not in p['dir']:
                continue
            b, how, kind = base_of(p['ctype'])
            if how != 'value' or p['dir'] != 'in' or 'const' in p['ctype'] and kind != 'cstr':
                break
            dv = default_for(rng, p['ctype'])
            if dv is None:
                break
            p['default'] = dv
    return ps


def random_fn(rng, name, maxn=5, forms=None, rets=None, defaults=True, minn=0):
    forms = forms or all_param_forms()
    ret = rng.choice([None] + 3 * [rng.choice(rets or RETURNS)])
    return {'name': name, 'ret': ret, 'params': random_params(rng, rng.randint(minn, maxn), forms, defaults)}
