"""Random signatures over object types: classes in every form, smart pointers, enums, containers, with defaults (part of C03)."""
import json, os, random

HEADER = r'''
#include <memory>
struct A { vf::Track track; int v; int copied; A(int v_) : track("A"), v(v_), copied(0) {} A() : track("A"), v(0), copied(0) {} A(const A &o) : track("A"), v(o.v), copied(o.copied + 1) {} A &operator=(const A &o) { v = o.v; copied = o.copied + 1; return *this; } virtual ~A() {} virtual const char *k() const { return "A"; } };
struct B : A { std::string pad; B(int v_) : A(v_), pad("0123456789012345678901234567890") {} const char *k() const { return "B"; } };
struct R { vf::Track track; int v; int refs; R(int v_) : track("R"), v(v_), refs(1) {} void ref() { track.use(); refs++; } void unref() { track.use(); if (!--refs) delete this; } };
struct S { vf::Track track; int v; S(int v_) : track("S"), v(v_) {} };
struct W; struct X { int v; X(int v_) : v(v_) {} };
struct W { int v; bool conv; W(int v_ = 0) : v(v_), conv(false) {} W(const X &x) : v(x.v), conv(true) {} };
enum E { E_a = 3, E_b = -4, E_c = 70000 };
inline A &globA() { static A *a = new A(71); return *a; } inline R *globR() { static R *r = new R(72); return r; } inline std::shared_ptr<S> globS() { static std::shared_ptr<S> *s = new std::shared_ptr<S>(new S(73)); return *s; }
inline std::string N(long v) { char b[30]; snprintf(b, sizeof b, "%ld", v); return b; }
inline std::string sh(const A &a, bool val) { a.track.use(); return std::string(a.k()) + N(a.v) + (val ? "" : "c" + N(a.copied)); }
inline std::string sh(const A *a) { return a ? sh(*a, false) : "null"; }
inline std::string sh(R *r) { if (!r) return "null"; r->track.use(); return "R" + N(r->v); }
inline std::string sh(const std::shared_ptr<S> &s) { if (!s) return "null"; s->track.use(); return "S" + N(s->v); }
inline std::string sh(const W &w) { return std::string(w.conv ? "x" : "w") + N(w.v); }
inline std::string sh(E e) { return "e" + N(e); }
inline std::string sh(int i) { return "i" + N(i); }
inline std::string sh(const std::string &s) { return "'" + s + "'"; }
inline std::string sh(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += N(v[i]) + ","; return s + "]"; }
inline std::string sh(PyObject *o) { return o == Py_None ? "None" : PyLong_Check(o) ? "o" + N(PyLong_AsLong(o)) : "other"; }
'''

# id: C++ type, python parameter declaration, [(default expression, how it is logged)], log expression, values
K = {
    'aval': ('A', "param('A', 'NM'DF)", [('A(7)', 'A7'), ('globA()', 'A71')], 'sh(NM, true)'),
    'aref': ('A &', "param('A&', 'NM'DF)", [('globA()', 'A71c0')], 'sh(NM, false)'),
    'acref': ('const A &', "param('const A&', 'NM'DF)", [('A(8)', 'A8c0'), ('globA()', 'A71c0')], 'sh(NM, false)'),
    'acref2': ('A const &', "param('A const &', 'NM'DF)", [('A(9)', 'A9c0')], 'sh(NM, false)'),
    'adt': ('A &', "param('A&', 'NM', default_value_type='A'DF)", [('A(10)', 'A10c0')], 'sh(NM, false)'),
    'aptr': ('A *', "param('A*', 'NM', transfer_ownership=FalseDF)", [('NULL', 'null'), ('&globA()', 'A71c0')], 'sh(NM)'),
    'anull': ('A *', "param('A*', 'NM', transfer_ownership=False, null_ok=TrueDF)", [('NULL', 'null'), ('&globA()', 'A71c0'), ('0', 'null')], 'sh(NM)'),
    'acptr': ('const A *', "param('const A*', 'NM', transfer_ownership=FalseDF)", [('&globA()', 'A71c0'), ('NULL', 'null')], 'sh(NM)'),
    'acnull': ('A const *', "param('A const *', 'NM', transfer_ownership=False, null_ok=TrueDF)", [('&globA()', 'A71c0')], 'sh(NM)'),
    'atake': ('A *', "param('A*', 'NM', transfer_ownership=TrueDF)", [('NULL', 'null')], 'sh(NM)'),
    'ainout': ('A &', "param('A&', 'NM', direction=INOUT)", [], 'sh(NM, false)'),
    'rptr': ('R *', "param('R*', 'NM', transfer_ownership=FalseDF)", [('globR()', 'R72'), ('NULL', 'null')], 'sh(NM)'),
    'rnull': ('R *', "param('R*', 'NM', transfer_ownership=False, null_ok=TrueDF)", [('globR()', 'R72'), ('NULL', 'null')], 'sh(NM)'),
    'rtake': ('R *', "param('R*', 'NM', transfer_ownership=TrueDF)", [('NULL', 'null')], 'sh(NM)'),
    'sp': ('std::shared_ptr<S>', "param('std::shared_ptr< S >', 'NM'DF)", [('globS()', 'S73'), ('std::shared_ptr<S>()', 'null')], 'sh(NM)'),
    'spnull': ('std::shared_ptr<S>', "param('std::shared_ptr< S >', 'NM', null_ok=TrueDF)", [('globS()', 'S73'), ('NULL', 'null')], 'sh(NM)'),
    'wval': ('W', "param('W', 'NM'DF)", [('W(5)', 'w5')], 'sh(NM)'),
    'wcref': ('const W &', "param('const W&', 'NM')", [], 'sh(NM)'),
    'enum': ('E', "param('E', 'NM'DF)", [('E_b', 'e-4'), ('(E) 70000', 'e70000')], 'sh(NM)'),
    'int': ('int', "param('int', 'NM'DF)", [('-3', 'i-3'), ('globA().v + 1', 'i72')], 'sh(NM)'),
    'str': ('std::string', "param('std::string', 'NM'DF)", [('"dd"', "'dd'"), ('std::string(3, 120)', "'xxx'")], 'sh(NM)'),
    'vec': ('std::vector<int>', "param('std::vector< int >', 'NM')", [], 'sh(NM)'),
    'vcref': ('const std::vector<int> &', "param('const std::vector< int > &', 'NM'DF)", [('std::vector<int>(3, 9)', '[9,9,9,]')], 'sh(NM)'),
    'pyobj': ('PyObject *', "param('PyObject*', 'NM', transfer_ownership=False)", [], 'sh(NM)'),
    'iout': ('int *', "param('int*', 'NM', direction=OUT)", [], None),
}
DEFS = [k for k in K if K[k][2]]
RETS = {None: ('void', 'None', ''), 'int': ('int', "retval('int')", 'return 41;'), 'A': ('A', "retval('A')", 'return A(61);'), 'A*': ('A *', "retval('A*', caller_owns_return=True)", 'return new B(62);'), 'R*': ('R *', "retval('R*', caller_owns_return=False)", 'return globR();'),
        'S': ('std::shared_ptr<S>', "retval('std::shared_ptr< S >')", 'return globS();'), 'vec': ('std::vector<int>', "retval('std::vector< int >')", 'return std::vector<int>(2, 5);'), 'null': ('A *', "retval('A*', caller_owns_return=True)", 'return NULL;')}


def make(rng, n):
    fns = []
    for i in range(n):
        what = ['function', 'method', 'static', 'ctor'][i % 4]
        ps = []
        have_default = False
        for j in range(rng.randint(1, 5)):
            if not have_default and rng.random() < .35: have_default = True
            k = rng.choice(DEFS if have_default else list(K))
            if what == 'ctor' and k == 'iout': k = 'aval'
            ps.append({'k': k, 'n': 'p%d' % j, 'd': list(rng.choice(K[k][2])) if have_default else None})
        fns.append({'what': what, 'i': i, 'ps': ps, 'ret': rng.choice(list(RETS)) if what != 'ctor' else None})
    return fns


def header(fns):
    o = HEADER
    for f in fns:
        ps = ', '.join('%s %s' % (K[p['k']][0], p['n']) for p in f['ps'])
        body = 'vf::ev("f%d"%s); ' % (f['i'], ''.join(' + std::string(" ") + ' + K[p['k']][3].replace('NM', p['n']) for p in f['ps'] if K[p['k']][3]))
        n = 0
        for p in f['ps']:
            if p['k'] == 'iout': body += '*%s = %d; ' % (p['n'], 900 + n); n += 1
            if p['k'] == 'ainout': body += '%s.v++; ' % p['n']
            if p['k'] == 'atake': body += 'delete %s; ' % p['n']
            if p['k'] == 'rtake': body += 'if (%s) %s->unref(); ' % (p['n'], p['n'])
        rt, _, rb = RETS[f['ret']]
        if f['what'] == 'function': o += 'inline %s f%d(%s) { %s%s }\n' % (rt, f['i'], ps, body, rb)
        elif f['what'] == 'method': o += 'struct M%d { int z; M%d() : z(1) {} %s f%d(%s) { %s%s } };\n' % (f['i'], f['i'], rt, f['i'], ps, body, rb)
        elif f['what'] == 'static': o += 'struct M%d { int z; M%d() : z(1) {} static %s f%d(%s) { %s%s } };\n' % (f['i'], f['i'], rt, f['i'], ps, body, rb)
        else: o += 'struct M%d { int z; M%d(%s) : z(1) { %s } };\n' % (f['i'], f['i'], ps, body)
    return o


def gen(fns, registry):
    o = r'''
settings.wrapper_registry = %s
mod = new_module()
A = mod.add_class('A', allow_subclassing=True); A.add_constructor([param('int', 'v')]); A.add_copy_constructor(); A.add_instance_attribute('v', 'int')
B = mod.add_class('B', parent=A); B.add_constructor([param('int', 'v')])
R = mod.add_class('R', memory_policy=ReferenceCountingMethodsPolicy('ref', 'unref')); R.add_constructor([param('int', 'v')]); R.add_instance_attribute('v', 'int')
S = mod.add_class('S', memory_policy=StdSharedPtr('::S')); S.add_constructor([param('int', 'v')]); S.add_instance_attribute('v', 'int')
X = mod.add_class('X'); X.add_constructor([param('int', 'v')]); W = mod.add_class('W'); W.add_constructor([param('int', 'v')]); X.implicitly_converts_to(W)
mod.add_enum('E', ['E_a', 'E_b', 'E_c'])
mod.add_container('std::vector< int >', 'int', 'vector')
''' % ('StdMapWrapperRegistry' if registry else 'NullWrapperRegistry')
    for f in fns:
        ps = '[' + ', '.join(K[p['k']][1].replace('NM', p['n']).replace('DF', ', default_value=%r' % p['d'][0] if p['d'] else '') for p in f['ps']) + ']'
        ret = RETS[f['ret']][1]
        if f['what'] == 'function': o += "mod.add_function('f%d', %s, %s)\n" % (f['i'], ret, ps)
        else:
            o += "M = mod.add_class('M%d')\n" % f['i']
            if f['what'] == 'ctor': o += 'M.add_constructor(%s)\n' % ps
            else: o += "M.add_constructor([])\nM.add_method('f%d', %s, %s, is_static=%s)\n" % (f['i'], ret, ps, f['what'] == 'static')
    return o + 'emit(mod)\n'


DRIVER = r'''
import sys, os, json, random, gc
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1])); c = drv.CSide(M)
fns = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
n = int(sys.argv[2])
rng = random.Random('%s/%s' % (drv.SEED, os.path.basename(sys.argv[1])))
class P(M.A): pass
def value(k):
    """(python value, how C++ logs it)"""
    v = rng.randint(-99, 9999)
    if k[0] == 'a':
        if k in ('anull', 'acnull') and rng.random() < .3: return None, 'null'
        t = rng.choice([M.A, M.B] if k == 'atake' else [M.A, M.B, P])
        return t(v), '%s%d%s' % ('A' if k == 'aval' or t is not M.B else 'B', v, '' if k == 'aval' else 'c0')
    if k[0] == 'r':
        if k == 'rnull' and rng.random() < .3: return None, 'null'
        return M.R(v), 'R%d' % v
    if k[:2] == 'sp':
        if k == 'spnull' and rng.random() < .3: return None, 'null'
        return M.S(v), 'S%d' % v
    if k[0] == 'w': return (M.W(v), 'w%d' % v) if rng.random() < .5 else (M.X(v), 'x%d' % v)
    if k == 'enum': x = rng.choice([3, -4, 70000]); return x, 'e%d' % x
    if k == 'int': return v, 'i%d' % v
    if k == 'str': return str(v), "'%d'" % v
    if k[0] == 'v': l = [rng.randint(-9, 9) for _ in range(rng.randint(0, 4))]; return l, '[' + ''.join('%d,' % x for x in l) + ']'
    if k == 'pyobj': return rng.choice([(None, 'None'), (v, 'o%d' % v), ('s', 'other')])
def show(x):
    if x is None or isinstance(x, int): return x
    if isinstance(x, tuple): return tuple(show(y) for y in x)
    if hasattr(x, 'v'): return (type(x).__name__, x.v)
    return list(x)
RET = {None: None, 'int': 41, 'A': ('A', 61), 'A*': ('A', 62), 'R*': ('R', 72), 'S': ('S', 73), 'vec': [5, 5], 'null': None}
for f in fns:
    i = f['i']
    sig = '%s(%s)' % (f['what'], ', '.join(p['k'] + ('=' + p['d'][0] if p['d'] else '') for p in f['ps']))
    if f['what'] == 'function': fn = getattr(M, 'f%d' % i)
    elif f['what'] == 'method': fn = getattr(getattr(M, 'M%d' % i)(), 'f%d' % i)
    elif f['what'] == 'static': fn = getattr(getattr(M, 'M%d' % i), 'f%d' % i)
    else: fn = getattr(M, 'M%d' % i)
    for r in range(n):
        args, kw, log, kwonly = [], {}, [], False
        vals = []
        omitted = 0
        for p in f['ps']:
            if p['k'] == 'iout': continue
            if p['d'] and rng.random() < .4: log.append(p['d'][1]); kwonly = True; omitted += 1; continue
            v, l = value(p['k']); log.append(l); vals.append((p['k'], v))
            if kwonly or rng.random() < .3: kw[p['n']] = v; kwonly = True
            else: args.append(v)
        drv.op({'k': sig, 'args': repr(args)[:200], 'kw': repr(kw)[:200]}); drv.ev(); c.log()
        before = [v.v for k, v in vals if k == 'ainout']
        try: got = fn(*args, **kw)
        except Exception as e: got = '%s: %s' % (type(e).__name__, e)
        l = [x for x in c.log() if x.startswith('f')]
        want = []
        if f['ret'] is not None: want.append(RET[f['ret']])
        outs = [p for p in f['ps'] if p['k'] == 'iout']
        want += [900 + q for q in range(len(outs))]
        want = None if not want else want[0] if len(want) == 1 else tuple(want)
        if f['what'] == 'ctor':
            if type(got) is not fn: drv.violation('object-ctor', '%s with %r %r gave %r' % (sig, args, kw, got))
        elif isinstance(got, str) or show(got) != want: drv.violation('object-result:' + f['what'], '%s with %r %r gave %r instead of %r' % (sig, args, kw, got, want))
        if l != ['f%d %s' % (i, ' '.join(log)) if log else 'f%d' % i]: drv.violation('object-args:' + ('omitted' if omitted else 'all'), '%s with %r %r: C++ saw %s instead of %s' % (sig, args, kw, l, log))
        else: drv.count('object_calls')
        if omitted: drv.count('object_defaults', omitted)
        if [v.v for k, v in vals if k == 'ainout'] != [b + 1 for b in before]: drv.violation('object-inout', '%s: inout object unchanged' % sig)
    drv.distinct(sig)
del args, kw, vals, got, fn
v = None
gc.collect()
for t, keep in (('A', 1), ('R', 1), ('S', 1)):
    if c.live(t) > keep: drv.violation('object-leak', '%d instances of %s left' % (c.live(t), t))
b = c.bad()
if b[0]: drv.violation('object-life', b[1])
drv.sample(sig)
drv.done()
'''
