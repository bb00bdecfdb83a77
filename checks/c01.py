"""C01: value fidelity.  Every native scalar/string type form, both directions of call."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import sigs

DRIVER = r'''
import sys, random
from vf import drv, sigdrv
which, seed, n = sys.argv[2], sys.argv[3], int(sys.argv[4])
m = sigdrv.SigModule(sys.argv[1], sys.argv[5])
rng = random.Random('%s/%s/%s' % (seed, which, sys.argv[5]))
def key(fn):
    return '|'.join([fn['ret'] or 'void'] + ['%s:%s' % (p['ctype'], p['dir']) for p in fn['params']])
if which == 'fwd':
    for fn in m.spec['functions']:
        for k in range(n):
            b = sigdrv.call_forward(m, rng, fn, getattr(m.mod, fn['name']), use_defaults=False)
            if b:
                drv.violation('forward-%s:%s' % (b[0], key(fn)), b[1])
            else:
                drv.count('forward_ok')
        drv.distinct('fwd ' + key(fn))
    drv.sample({'forward': [key(f) for f in m.spec['functions'][:4]], 'values_each': n})
else:
    for c in m.spec['classes']:
        fn = c['virtuals'][0]
        rec = sigdrv.Recorder()
        o = sigdrv.make_subclass(getattr(m.mod, c['name']), [fn['name']], rec)()
        m.c.log()
        for k in range(n):
            b = sigdrv.call_reverse(m, rng, fn, o, rec)
            if b:
                drv.violation('virtual-%s:%s' % (b[0], key(fn)), b[1])
            else:
                drv.count('virtual_ok')
        drv.distinct('rev ' + key(fn))
    drv.sample({'virtual': [key(c['virtuals'][0]) for c in m.spec['classes'][:4]], 'values_each': n})
drv.done()
'''

# what the random-value generator above does not cover: enums, arrays, constants of the
# extreme, int* with a NULL default, PyObject* identity
EXTRA_H = r'''
#include "vflog.h"
#include <Python.h>
enum Colour { RED = -3, GREEN = 0, BLUE = 7, HUGE_C = 2000000000 };
namespace ns { enum Mode { M_A, M_B = 5, M_C }; 
class Scope { public: enum Level { LOW = 1, HIGH = 100, NEG = -100 };
  Level level(Level x) { vf::call("level"); vf::ev("in x " + vf::enc((int) x)); return (Level) atoi(vf::pop().c_str()+1); }
  virtual Level vlevel(Level x) { return x; }
  void drive_vlevel() { Level a = (Level) atoi(vf::pop().c_str()+1); Level r = vlevel(a); vf::call("back"); vf::ev("in return " + vf::enc((int) r)); }
  virtual ~Scope() {} };
inline Mode mode(Mode x) { vf::call("mode"); vf::ev("in x " + vf::enc((int) x)); return (Mode) atoi(vf::pop().c_str()+1); } }
inline Colour colour(Colour x) { vf::call("colour"); vf::ev("in x " + vf::enc((int) x)); return (Colour) atoi(vf::pop().c_str()+1); }
inline Colour colour_d(int n, Colour x = BLUE) { vf::call("colour_d"); vf::in("n", n); vf::ev("in x " + vf::enc((int) x)); return GREEN; }
#define ARR(T, N) inline void arr_##N##_in(T *p) { vf::call("arr"); vf::in_arr("p", p, 3); } \
 inline void arr_##N##_out(T *p) { vf::call("arr"); for (int i = 0; i < 3; i++) p[i] = vf::take<T>(); } \
 inline void arr_##N##_io(T *p) { vf::call("arr"); vf::in_arr("p", p, 3); for (int i = 0; i < 3; i++) p[i] = vf::take<T>(); } \
 inline int arr_##N##_two(T *p, T *q) { vf::call("arr"); vf::in_arr("p", p, 3); vf::in_arr("q", q, 2); return 5; }
ARR(float, f) ARR(unsigned int, u)
inline int nullable(int *p) { vf::call("nullable"); if (!p) { vf::ev("in p N"); return 0; } vf::in("p", *p); *p = vf::take<int>(); return 1; }
inline PyObject *pyid(PyObject *o) { vf::call("pyid"); Py_INCREF(o); return o; }
'''
EXTRA_GEN = r'''
import sys, os
from pybindgen import *
out = sys.argv[1]
m = Module('ext'); m.add_include('"ext.h"')
m.add_enum('Colour', ['RED', 'GREEN', 'BLUE', 'HUGE_C'])
m.add_function('colour', retval('Colour'), [param('Colour', 'x')])
m.add_function('colour_d', retval('Colour'), [param('int', 'n'), param('Colour', 'x', default_value='BLUE')])
ns = m.add_cpp_namespace('ns')
ns.add_enum('Mode', ['M_A', 'M_B', 'M_C'])
ns.add_function('mode', retval('ns::Mode'), [param('ns::Mode', 'x')])
s = ns.add_class('Scope', allow_subclassing=True)
s.add_enum('Level', ['LOW', 'HIGH', 'NEG'])
s.add_constructor([])
s.add_method('level', retval('ns::Scope::Level'), [param('ns::Scope::Level', 'x')])
s.add_method('vlevel', retval('ns::Scope::Level'), [param('ns::Scope::Level', 'x')], is_virtual=True)
s.add_method('drive_vlevel', None, [])
I, O, IO = Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT
for t, n in (('float*', 'f'), ('unsigned int*', 'u')):
    m.add_function('arr_%s_in' % n, None, [param(t, 'p', direction=I, array_length=3)])
    m.add_function('arr_%s_out' % n, None, [param(t, 'p', direction=O, array_length=3)])
    m.add_function('arr_%s_io' % n, None, [param(t, 'p', direction=IO, array_length=3)])
    m.add_function('arr_%s_two' % n, retval('int'), [param(t, 'p', direction=I, array_length=3), param(t, 'q', direction=I, array_length=2)])
m.add_function('nullable', retval('int'), [param('int*', 'p', direction=IO, default_value='NULL')])
m.add_function('pyid', retval('PyObject*', caller_owns_return=True), [param('PyObject*', 'o', transfer_ownership=False)])
with open(os.path.join(out, 'ext.cc'), 'w') as f:
    f.write('#include "vflog_impl.h"\n')
    m.generate(FileCodeSink(f))
'''
EXTRA_DRIVER = r'''
import sys, random
sys.path.insert(0, sys.argv[1])
from vf import drv, sigs
import ext
c = drv.CSide(ext); c.log()
rng = random.Random('x%d' % drv.SEED)
N = int(sys.argv[2])
def expect(mech, got, want):
    drv.ev()
    if got != want or type(got) is not type(want):
        drv.violation('extra-' + mech, '%s: got %r, expected %r' % (mech, got, want))
    else:
        drv.count('extra_ok')
consts = {'RED': -3, 'GREEN': 0, 'BLUE': 7, 'HUGE_C': 2000000000}
for k, v in consts.items():
    expect('enum-constant', getattr(ext, k), v)
for k, v in {'M_A': 0, 'M_B': 5, 'M_C': 6}.items():
    expect('enum-constant', getattr(ext.ns, k), v)
for k, v in {'LOW': 1, 'HIGH': 100, 'NEG': -100}.items():
    expect('enum-constant', getattr(ext.ns.Scope, k), v)
def enum(mech, f, vals):
    for i in range(N):
        a, r = rng.choice(vals), rng.choice(vals)
        c.push('I%d' % r); drv.op({'k': mech, 'a': a})
        got = f(a) if rng.random() < .7 else f(x=a)
        expect(mech + '-return', got, r)
        expect(mech + '-arg', c.log()[1], 'in x I%d' % a)
        drv.distinct((mech, a, r))
enum('enum', ext.colour, list(consts.values()))
enum('enum-ns', ext.ns.mode, [0, 5, 6])
enum('enum-class', ext.ns.Scope().level, [1, 100, -100])
ext.colour_d(4); expect('enum-default', c.log()[2], 'in x I7')
ext.colour_d(4, ext.RED); expect('enum-default', c.log()[2], 'in x I-3')
class S(ext.ns.Scope):
    def vlevel(self, x):
        self.got = x
        return self.ret
o = S()
for i in range(N):
    a, o.ret = rng.choice([1, 100, -100]), rng.choice([1, 100, -100])
    c.log(); c.push('I%d' % a); drv.op({'k': 'enum-virtual'}); o.drive_vlevel()
    expect('enum-virtual-arg', o.got, a)
    expect('enum-virtual-return', c.log()[1], 'in return I%d' % o.ret)
for n, b, kind in (('f', 'float', 'f32'), ('u', 'unsigned int', 'int')):
    for i in range(N):
        a = [sigs.value(rng, b, kind) for _ in range(3)]
        o3 = [sigs.value(rng, b, kind, for_c=True) for _ in range(3)]
        want = 'in p A' + ','.join(sigs.enc(b, kind, v) for v in a)
        def seen(l):
            ok = len(l) == 2 and len(l[1][6:].split(',')) == 3 and all(sigs.enc_eq(kind, g, sigs.enc(b, kind, v)) for g, v in zip(l[1][6:].split(','), a))
            drv.ev()
            if not ok: drv.violation('extra-array-arg-' + n, '%r arrived as %r' % (a, l))
            else: drv.count('extra_ok')
        def out(got):
            drv.ev()
            if not (type(got) is list and len(got) == 3 and all(sigs.same(kind, g, v) for g, v in zip(got, o3))):
                drv.violation('extra-array-result-' + n, 'expected %r, got %r' % (o3, got))
            else: drv.count('extra_ok')
        drv.op({'k': 'array', 'n': n}); c.log()
        getattr(ext, 'arr_%s_in' % n)(a); seen(c.log())
        for v in o3: c.push(sigs.enc_push(b, kind, v))
        out(getattr(ext, 'arr_%s_out' % n)()); c.log()
        for v in o3: c.push(sigs.enc_push(b, kind, v))
        out(getattr(ext, 'arr_%s_io' % n)(a)); seen(c.log())
        q = [sigs.value(rng, b, kind) for _ in range(2)]
        expect('array-two', getattr(ext, 'arr_%s_two' % n)(a, q), 5)
        l = c.log()
        if not all(sigs.enc_eq(kind, g, sigs.enc(b, kind, v)) for g, v in zip(l[2][6:].split(','), q)):
            drv.violation('extra-array-second-' + n, '%r arrived as %r' % (q, l))
        drv.distinct(('array', n, i))
for i in range(N):
    v, w = sigs.value(rng, 'int', 'int'), sigs.value(rng, 'int', 'int')
    c.log(); c.push('I%d' % w)
    expect('nullable', ext.nullable(v), (1, w)); expect('nullable-arg', c.log()[1], 'in p I%d' % v)
    expect('nullable-null', ext.nullable(), (0, None)); expect('nullable-null-arg', c.log()[1], 'in p N')
    c.qclear()
    x = rng.choice([object(), 'str', 12, None, [1]])
    if ext.pyid(x) is not x: drv.violation('extra-pyobject', 'PyObject* did not come back as the same object')
    drv.count('extra_ok')
drv.done()
'''


def main():
    ck = Check('C01', 'distinct (C type, direction, call direction) forms and enum/array value combinations whose values were compared on both sides')
    forms = sigs.all_param_forms()
    n = 60 if not THOROUGH else 1500
    nr = 40 if not THOROUGH else 700
    fns = [{'name': 'f%d' % i, 'ret': None, 'params': [{'name': 'x', 'ctype': ct, 'dir': d}]} for i, (ct, d) in enumerate(forms)]
    fns += [{'name': 'r%d' % i, 'ret': ct, 'params': []} for i, ct in enumerate(sigs.RETURNS)]
    cls = [{'name': 'V%d' % i, 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}],
            'virtuals': [{'name': 'f', 'ret': None, 'params': [{'name': 'x', 'ctype': ct, 'dir': d}]}]} for i, (ct, d) in enumerate(forms)]
    cls += [{'name': 'W%d' % i, 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}],
             'virtuals': [{'name': 'f', 'ret': ct, 'params': []}]} for i, ct in enumerate(sigs.REV_RETURNS)]
    jobs = [('fwd', 'mf', {'functions': fns}, n)]
    k = (len(cls) + 6) // 7
    for i in range(0, len(cls), k):
        jobs.append(('rev', 'mr%d' % (i // k), {'classes': cls[i:i + k]}, nr))

    def one(job):
        which, name, spec, cnt = job
        d = os.path.join(scratch(), name)
        spec['module'] = name
        try:
            sigs.build_spec(spec, d)
        except Exception as e:
            return e
        drv = write(os.path.join(d, 'driver_.py'), DRIVER)
        return drive(drv, d, 'asan', [d, which, str(SEED), str(cnt), name], timeout=800)

    def extra(_):
        d = os.path.join(scratch(), 'ext')
        try:
            os.makedirs(d)
            write(os.path.join(d, 'ext.h'), EXTRA_H)
            generate(write(os.path.join(d, 'gen.py'), EXTRA_GEN), d)
            compile_module([os.path.join(d, 'ext.cc')], os.path.join(d, 'ext.so'))
        except Exception as e:
            return e
        return drive(write(os.path.join(d, 'driver_.py'), EXTRA_DRIVER), d, 'asan', [d, str(30 if not THOROUGH else 500)], timeout=800)

    jobs.append(('extra', None, None, 0))
    for job, r in zip(jobs, pmap(lambda j: extra(j) if j[0] == 'extra' else one(j), jobs)):
        if isinstance(r, Exception):
            ck.build_failed(r, job[1] or 'extra')
        else:
            ck.absorb(r, job[1] or 'extra')
    ck.extra['forms_forward'] = len(fns)
    ck.extra['forms_virtual'] = len(cls)
    ck.require('forward_ok', len(fns) * n // 2)
    ck.require('virtual_ok', len(cls) * nr // 2)
    ck.require('extra_ok', 300)
    ck.finish()


main()
