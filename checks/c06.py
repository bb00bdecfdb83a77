"""C06: calls leave nothing behind: Python references, Python blocks and C heap are neutral on every path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import sigs, objs

COMMON = r'''
import sys, gc, random, json, os, importlib, warnings
from vf import drv
ROUNDS, N = (4, 60) if not drv.THOROUGH else (5, 150)
def refs(watch): return [sys.getrefcount(w) for w in watch]
def sizes(watch): return None
def measure(fn, heap, watch, n, rounds, warm):
    for _ in range(warm): fn()
    gc.collect()
    best = None
    for _ in range(rounds):
        r0 = refs(watch); b0 = sys.getallocatedblocks(); h0 = heap()
        for _i in range(n): fn()
        gc.collect()
        b1 = sys.getallocatedblocks(); h1 = heap(); r1 = refs(watch)
        cur = [(b1 - b0) / n, (h1 - h0) / n] + [(y - x) / n for x, y in zip(r0, r1)]
        best = cur if best is None else [min(x, y, key=abs) for x, y in zip(best, cur)]
    return best
def bad(m):
    w = []
    if m[0] > .5: w.append('blocks')
    if m[1] >= 12: w.append('heap')
    if m[0] < -.5 : w.append('overfree')
    for k, x in enumerate(m[2:]):
        if abs(x) > .5: w.append('refs%s' % ('+' if x > 0 else '-'))
    return sorted(set(w))
def neutral(key, desc, fn, heap, watch=()):
    """fn, repeated, must leave nothing behind and take nothing away"""
    drv.op({'k': key, 'd': desc[:300]})
    import ctypes
    # keep the watched objects far from deallocation, so that an excess decref shows as a number
    for w in watch:
        for _ in range(3000): ctypes.pythonapi.Py_IncRef(ctypes.py_object(w))
    m = measure(fn, heap, watch, N, ROUNDS, 12)
    if bad(m):
        m = measure(fn, heap, watch, N * 4, 3, 5)     # a real leak goes on for ever
    b = bad(m)
    drv.ev(N * ROUNDS); drv.count('paths'); drv.count('calls', N * ROUNDS); drv.distinct(key + desc)
    if b: drv.violation('%s:%s' % (key, '+'.join(b)), '%s: per call %s' % (desc, dict(zip(['python blocks', 'heap bytes'] + ['refs of %.60r' % (w,) for w in watch], m))), {'what': desc})
    else: drv.count('neutral')
    return not b
def outcome(fn, exc=None):
    """fn once, to know that the path is the one that is meant"""
    try: fn()
    except Exception as e: return type(e)
    return None
def raising(fn, *exc):
    """a path that ends in an exception"""
    def run():
        try: fn()
        except exc: return
        raise AssertionError('the call was expected to raise %r' % (exc,))
    return run
'''

SIG = COMMON + r'''
from vf import sigdrv, sigs
m = sigdrv.SigModule(sys.argv[1], sys.argv[2])
rng = random.Random('%s/%s' % (drv.SEED, sys.argv[2]))
class Bad(object): pass
class RaisesErr(object):
    def __index__(self): raise KeyError('index')
    def __float__(self): raise KeyError('float')
    def __bool__(self): raise KeyError('bool')
BAD, RERR = Bad(), RaisesErr()
LONG = 'a string that is too long for the small string buffer ' * 4
def big(kind, v):
    if kind in ('str', 'cstr'): return LONG[:-1] + str(len(v))
    if kind == 'int' and v > 300: return v
    return v
def sig(fn): return '%s(%s)' % (fn['ret'], ', '.join(p['dir'] + ' ' + p['ctype'] for p in fn['params']))
def forward(fn, callee):
    args, pushes = [], []
    for p in fn['params']:
        b, how, kind = sigs.base_of(p['ctype'])
        if 'in' in p['dir']: args.append(big(kind, sigs.value(rng, b, kind)))
        if 'out' in p['dir']: pushes.append(sigs.enc_push(b, kind, big(kind, sigs.value(rng, b, kind, for_c=True))))
    if fn.get('ret') and fn['ret'] != 'void':
        b, how, kind = sigs.base_of(fn['ret'])
        v = big(kind, sigs.value(rng, b, kind, for_c=True))
        pushes.append(sigs.enc_push(b, kind, v))
    c = m.c
    pushes = [p.encode() for p in pushes]
    push, take, clear = c.lib.vf_push, c.lib.vf_take_log, c.lib.vf_queue_clear
    def call(a=None, **kw):
        for p in pushes: push(p)
        try: return callee(*(args if a is None else a), **kw)
        finally: take(); clear()
    watch = [a for a in args if type(a) in (str, bytes) and len(a) > 1]
    watch = list({id(w): w for w in watch}.values())[:3]
    d = sig(fn)
    neutral('call', d, lambda: call(), c.heap, watch)
    for i in range(len(args)):
        a = list(args); a[i] = rng.choice([BAD, RERR])
        if outcome(lambda: call(a)) is None: a[i] = RERR
        t = outcome(lambda: call(a))
        if t is None: continue
        drv.count('rejections_seen')
        neutral('rejected', '%s rejecting argument %d' % (d, i), raising(lambda: call(a), t), c.heap, watch + [BAD, RERR])
    neutral('arity', '%s with too many arguments' % d, raising(lambda: call(args + [1]), TypeError), c.heap, watch)
    if args:
        neutral('keyword', '%s with an unknown keyword' % d, raising(lambda: call(args[:-1], nosuch=args[-1]), TypeError), c.heap, watch)
def reverse(fn, obj, rec):
    pushes, rets = [], []
    if fn.get('ret') and fn['ret'] != 'void':
        b, how, kind = sigs.base_of(fn['ret'])
        rets.append((kind, big(kind, sigs.value(rng, b, kind))))
    for p in fn['params']:
        b, how, kind = sigs.base_of(p['ctype'])
        if 'in' in p['dir']: pushes.append(sigs.enc_push(b, kind, big(kind, sigs.value(rng, b, kind, for_c=True))).encode())
        if 'out' in p['dir']: rets.append((kind, big(kind, sigs.value(rng, b, kind))))
    if any(k == 'cstr' for k, v in rets): return     # C++ gets a pointer into the Python string
    push, take, clear = m.c.lib.vf_push, m.c.lib.vf_take_log, m.c.lib.vf_queue_clear
    name = 'drive_' + fn['name']
    # the queue must also hold what the base implementation takes when the override fails
    extra = []
    for p in fn['params']:
        b, how, kind = sigs.base_of(p['ctype'])
        if 'out' in p['dir']: extra.append(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)).encode())
    if fn.get('ret') and fn['ret'] != 'void':
        b, how, kind = sigs.base_of(fn['ret']); extra.append(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)).encode())
    def call():
        for p in pushes: push(p)
        for p in extra: push(p)
        del rec.calls[:]
        try: getattr(obj, name)()
        finally: take(); clear(); del rec.calls[:]
    vals = [v for k, v in rets]
    whole = None if not vals else vals[0] if len(vals) == 1 else tuple(vals)
    watch = [v for v in vals if type(v) in (str, bytes) and len(v) > 1][:2]
    d = 'virtual ' + sig(fn)
    rec.exc = None; rec.ret = whole
    neutral('virtual', d, call, m.c.heap, watch)
    rec.exc = KeyError('from the override')
    def raiser(): rec.exc = KeyError('from the override'); call(); rec.exc = None
    neutral('virtual-raises', d, raiser, m.c.heap, watch)
    rec.exc = None
    for i in range(len(vals)):
        v = list(vals); v[i] = RERR if rets[i][0] != 'str' else BAD
        rec.ret = v[0] if len(v) == 1 else tuple(v)
        neutral('virtual-badvalue', '%s with a bad result %d' % (d, i), call, m.c.heap, watch + [BAD, RERR])
    rec.ret = (1, 2, 3, 4, 5, 6, 7, 8, 9, LONG)
    neutral('virtual-badshape', d, call, m.c.heap, watch + [LONG, rec.ret])
for fn in m.spec['functions']: forward(fn, getattr(m.mod, fn['name']))
V, K = m.spec['classes'][:2]
o = m.mod.K()
for fn in K['methods']: forward(fn, getattr(o, fn['name']))
for cn in m.spec['ctor_classes']:
    cc = [x for x in m.spec['classes2'] if x['name'] == cn][0]
    forward({'name': cn, 'ret': None, 'params': cc['ctors'][0]['params']}, getattr(m.mod, cn))
rec = sigdrv.Recorder()
sys.excepthook = drv.quiet_hook
o = sigdrv.make_subclass(m.mod.V, [f['name'] for f in V['virtuals']], rec)()
for fn in V['virtuals']: reverse(fn, o, rec)
drv.done()
'''

OBJ = COMMON + r'''
import copy
sys.path.insert(0, sys.argv[1])
import objs as M
NAME = sys.argv[2]
policy, SUB = json.load(open(os.path.join(sys.argv[1], 'configs.json')))[NAME]
c = drv.CSide(M); heap = c.heap
T = getattr(M, NAME); F = lambda n: getattr(M, NAME + '_' + n)
SMART = policy in ('boost', 'std')
BAD = object()
sys.excepthook = drv.quiet_hook
if SUB:
    class Sub(T):
        def __init__(self, *a): super(Sub, self).__init__(*a); self.extra = [1, 2]
        def hook(self, x): return x + 1
T0 = T(5)
def P(key, fn, *watch): neutral('%s:%s' % (policy, key), '%s %s' % (NAME, key), fn, heap, [T, T0] + list(watch))
def R(key, exc, fn, *watch): P(key, raising(fn, *(exc if isinstance(exc, tuple) else (exc,))), *watch)
P('construct', lambda: T(1))
P('construct-default', lambda: T())
R('construct-throws', M.out_of_range, lambda: T(1, True))
R('construct-rejected', TypeError, lambda: T(BAD), BAD)
R('construct-arity', TypeError, lambda: T(1, 2, 3, 4, 5))
if not SUB:
    P('construct-function', lambda: T(1, False, True, False))
if not SMART:
    P('copy-construct', lambda: T(T0)); P('copy', lambda: copy.copy(T0))
P('method', lambda: T0.getId())
R('method-arity', TypeError, lambda: T0.getId(1))
R('method-unbound', TypeError, lambda: T.getId(BAD), BAD)
P('getattr', lambda: T0.setId)
P('fill-drop', lambda: (F('fill')(0, 3), F('drop')(0)))
P('value', lambda: F('val')(T0)); R('value-rejected', TypeError, lambda: F('val')(BAD), BAD)
P('ref', lambda: F('rf')(T0)); R('ref-rejected', TypeError, lambda: F('rf')(BAD), BAD)
P('cref', lambda: F('cref_in')(T0)); P('ptr', lambda: F('ptr')(T0)); R('ptr-rejected', TypeError, lambda: F('ptr')(BAD), BAD)
P('nullok', lambda: F('nullok')(None)); P('nullok-obj', lambda: F('nullok')(T0)); P('nullok-omitted', lambda: F('nullok')())
R('nullok-rejected', TypeError, lambda: F('nullok')(BAD), BAD)
P('ident', lambda: F('ident')(T0)); R('throwing', M.out_of_range, lambda: F('throwing')(T0))
P('make', lambda: F('make')(7)); P('make-null', lambda: F('make')(-1)); P('outptr', lambda: F('outptr')(5)); P('outptr-null', lambda: F('outptr')(-1))
def transfer(): o = T(2); F('keep')(o, 1); del o; F('drop')(1)
P('keep', transfer)
if SMART or policy in ('refm', 'reff'):
    def keeprel():
        o = T(2); F('keep')(o, 1); r = F('release')(1); return (o, r)
    P('keep-release', keeprel)
    def peek(): o = T(2); F('keep')(o, 1); r = F('peek')(1); del o; r2 = F('peek')(1); F('drop')(1); return (r, r2)
    P('keep-peek', peek)
    R('keep-rejected', (TypeError), lambda: F('keepchk')(T0, BAD), BAD); 
    def overflow():
        try: F('keepchk')(T0, 1 << 20)
        except (OverflowError, ValueError): return
        raise AssertionError
    P('keep-then-range', overflow)
if not SMART:
    P('make-value', lambda: F('makev')(3)); P('out-ref', lambda: F('outp')(4)); R('out-ref-rejected', TypeError, lambda: F('outp')(BAD), BAD)
    F('fill')(3, 9)
    if not SUB: P('construct-existing', lambda: T('tag', 3)); P('construct-existing-used', lambda: T('tag', 3).getSerial())
    P('return-cref', lambda: F('cref')(3)); P('return-ref', lambda: F('iref')(3)); P('borrow', lambda: F('borrow')(3))
    if policy in ('refm', 'reff'): P('peek', lambda: F('peek')(3)); P('cpeek', lambda: F('cpeek')(3))
    P('pass', lambda: F('pass')(T(4)))
    Vis = getattr(M, NAME + 'Visitor')
    for mode in ('good', 'raise', 'badret', 'keep'):
        class V(Vis):
            def one(self, x):
                if mode == 'raise': raise KeyError('x' * 100)
                if mode == 'badret': return BAD
                if mode == 'keep': self.kept = x
            onptr = onval = oncref = onref = one
            def onown(self, x): return None
            def give(self):
                if mode == 'raise': raise KeyError('y')
                if mode == 'badret': return BAD
                return T(6)
            def giveval(self):
                if mode == 'raise': raise KeyError('y')
                if mode == 'badret': return BAD
                return T0
        v = V()
        P('visitor-construct', lambda: V())
        for n, a in (('ptr', 3), ('val', 1), ('refslot', 3), ('ref', 1), ('cref', 1), ('giveval', None), ('give', 2), ('own', 4)):
            if n == 'ptr' and policy in ('plain', 'free'): pass
            f = getattr(v, 'do_' + n); args = () if a is None else (a,)
            def run():
                f(*args)
                v.kept = None
            P('virtual-%s-%s' % (n, mode), run, BAD)
    F('drop')(2)
if SUB:
    P('subclass', lambda: Sub(3), Sub)
    def subcycle():
        o = Sub(3); o.me = o
    P('subclass-cycle', subcycle, Sub)
    P('subclass-hook', lambda: Sub(3).callHook(4), Sub)
    def subkeep():
        o = Sub(4); F('keep')(o, 1); r = F('hookslot')(1, 5); del o; F('drop')(1)
    P('subclass-keep', subkeep, Sub)
    R('subclass-fails', M.out_of_range, lambda: Sub(1, True), Sub)
gc.collect(); 
for s in range(4): F('drop')(s)
drv.count('live_at_end', c.live_total())
drv.done()
'''

HEADER = r'''
#include <map>
#include <set>
#include <list>
#include <deque>
struct Err { std::string text; Err(std::string t) : text(t) {} const char *what() const { return text.c_str(); } };
struct Err2 : Err { Err2(std::string t) : Err(t) {} };
// PyObject*
inline PyObject *&held() { static PyObject *o = 0; return o; }
inline void po_borrow(PyObject *o, std::string s) { (void) o; (void) s; }
inline void po_steal(PyObject *o, unsigned char n) { (void) n; Py_DECREF(o); }
inline void po_steal2(PyObject *o, std::string s, PyObject *p) { Py_DECREF(o); Py_DECREF(p); }
inline int po_two(PyObject *o, PyObject *p) { return o == p; }
inline PyObject *po_new(int n) { if (n < 0) { PyErr_SetString(PyExc_LookupError, "no object"); return NULL; } return PyList_New(n); }
inline PyObject *po_new2(int n, int *k, std::string *s) { *k = n; *s = std::string(300, 'z'); return PyList_New(n); }
inline PyObject *po_lent() { static PyObject *o = PyList_New(2); return o; }
inline PyObject *po_throw(PyObject *o, std::string s) { throw Err(s); }
inline PyObject *po_steal_throw(PyObject *o, std::string s) { Py_DECREF(o); throw Err(s); }
// exceptions
inline std::string ex(std::string s, int n) { if (n == 1) throw Err(s); if (n == 2) throw Err2(s); if (n == 3) throw std::out_of_range(s); return s + s; }
inline int exo(std::string s, int n, std::string *out) { *out = s; if (n == 1) throw Err(s); return n; }
inline std::string exu(std::string s, int n) { if (n == 1) throw Err(s); return s; }
inline char *fac(std::string s) { return strdup(s.c_str()); }
inline char *dup_inout(char *p) { return p; }
// overloads
inline int ov(int n) { return n; }
inline int ov(std::string s) { return (int) s.size(); }
inline int ov(std::string s, std::vector<std::string> v) { return (int) v.size(); }
inline int dep(std::string s) { return (int) s.size(); }
struct Val {
    vf::Track track; std::string s; int n;
    Val() : track("Val"), n(0) {}
    Val(std::string t) : track("Val"), s(t), n((int) t.size()) {}
    Val(const Val &o) : track("Val"), s(o.s), n(o.n) {}
    Val &operator=(const Val &o) { s = o.s; n = o.n; return *this; }
    bool operator<(const Val &o) const { return s < o.s; }
    bool operator==(const Val &o) const { return s == o.s; }
    bool operator!=(const Val &o) const { return !(s == o.s); }
    Val operator+(const Val &o) const { return Val(s + o.s); }
    Val operator-() const { return Val(std::string(s.rbegin(), s.rend())); }
    Val &operator+=(const Val &o) { s += o.s; if (s.size() > 2000) s.resize(100); return *this; }
    std::string get() const { return s; }
    int size() const { return 4; }
    std::string item(int i) const { if (i < 0 || i >= 4) throw std::out_of_range("index"); return s; }
    static std::string label; static int num;
    Val twice(std::string x) const { return Val(s + x); }
    operator int() const { return n; }
};
inline std::ostream &operator<<(std::ostream &o, const Val &v) { return o << v.s; }
struct Conv { std::string s; Conv() {} Conv(std::string t) : s(t) {} Conv(const Val &v) : s(v.s) {} };
inline int conv_val(Conv c) { return (int) c.s.size(); }
inline int conv_ref(const Conv &c, unsigned char n) { return (int) c.s.size(); }
struct Holder { std::string name; int n; Val val; std::vector<std::string> names; Val *p; short sh; double d; bool b; char ch; 
    Holder() : n(0), p(0), sh(0), d(0), b(false), ch('a') {} 
    std::string getName() const { return name; } void setName(std::string x) { name = x; } };
typedef std::vector<std::string> Strs;
typedef std::map<std::string, Strs> StrMap;
typedef std::list<Val> Vals;
typedef std::set<std::string> StrSet;
inline Strs strs(int n) { return Strs(n, std::string(100, 'q')); }
inline int strs_in(Strs v) { return (int) v.size(); }
inline int strs_ref(const Strs &v) { return (int) v.size(); }
inline void strs_inout(Strs &v) { v.push_back("more and more and more and more text"); }
inline int strs_out(Strs &v, unsigned char n) { v.assign(n, "some text that is longer than the buffer"); return n; }
inline void strs_outp(Strs *v, unsigned char n) { v->assign(n, "some text that is longer than the buffer"); }
inline void strs_outp_throw(Strs *v, unsigned char n) { v->assign(n, "some text that is longer than the buffer"); if (n > 3) throw Err("too long for me, this is a text that is longer than the buffer"); }
inline int val_outs(Val &v, unsigned char n, std::string &s) { v = Val(std::string(100, 'v')); s = std::string(100, 's'); if (n > 3) throw Err(s); return n; }
inline int strs_two(Strs a, Strs b, unsigned char n) { return n; }
inline StrMap map_id(StrMap m) { return m; }
inline Vals vals(int n) { return Vals(n, Val("value value value value value")); }
inline int vals_in(Vals v) { return (int) v.size(); }
inline StrSet set_id(StrSet s) { return s; }
enum Color { RED, GREEN = 7 };
inline Color col(Color c) { return c; }
struct Cust { vf::Track track; Cust() : track("Cust") {} void take(Val *v) {} Val *give() { return &inner; } Val inner; };
struct Vf {
    virtual ~Vf() {}
    virtual PyObject *obj(PyObject *o) { Py_INCREF(Py_None); return Py_None; }
    virtual std::string str(const std::string &a, Val v) { return a; }
    virtual Strs list(Strs v) { return v; }
    virtual Val val(int n, std::string *out) { *out = "base"; return Val("x"); }
    virtual void listref(Strs &v) { v.clear(); }
    PyObject *do_obj() { PyObject *l = PyList_New(1); Py_INCREF(Py_None); PyList_SET_ITEM(l, 0, Py_None); PyObject *r = obj(l); Py_DECREF(l); return r; }
    int do_str(std::string a) { return (int) str(a, Val(a)).size(); }
    int do_list(int n) { return (int) list(strs(n)).size(); }
    int do_val(int n) { std::string o; Val v = val(n, &o); return v.n; }
    int do_listref(int n) { Strs s = strs(n); listref(s); return (int) s.size(); }
};
'''

IMPL = 'std::string Val::label = "label"; int Val::num = 3;\n'

GEN = r'''
mod = new_module()
mod.add_include('<iostream>')
err = mod.add_exception('Err', message_rvalue='%(EXC)s.what()')
err2 = mod.add_exception('Err2', parent=err, message_rvalue='%(EXC)s.what()')
oor = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()', custom_name='IndexError', is_standard_error=True)
S = lambda n='s': param('std::string', n)
F = mod.add_function
F('po_borrow', None, [param('PyObject*', 'o', transfer_ownership=False), S()])
F('po_steal', None, [param('PyObject*', 'o', transfer_ownership=True), param('unsigned char', 'n')])
F('po_steal2', None, [param('PyObject*', 'o', transfer_ownership=True), S(), param('PyObject*', 'p', transfer_ownership=True)])
F('po_two', retval('int'), [param('PyObject*', 'o', transfer_ownership=False), param('PyObject*', 'p', transfer_ownership=False)])
F('po_new', retval('PyObject*', caller_owns_return=True), [param('int', 'n')])
F('po_new2', retval('PyObject*', caller_owns_return=True), [param('int', 'n'), param('int*', 'k', direction=OUT), param('std::string*', 's', direction=OUT)])
F('po_lent', retval('PyObject*', caller_owns_return=False), [])
F('po_throw', retval('PyObject*', caller_owns_return=True), [param('PyObject*', 'o', transfer_ownership=False), S()], throw=[err])
F('po_steal_throw', retval('PyObject*', caller_owns_return=True), [param('PyObject*', 'o', transfer_ownership=True), S()], throw=[err])
F('ex', retval('std::string'), [S(), param('int', 'n')], throw=[err2, err, oor])
F('exo', retval('int'), [S(), param('int', 'n'), param('std::string*', 'out', direction=OUT)], throw=[err])
F('exu', retval('std::string'), [S(), param('int', 'n')], throw=[err], unblock_threads=True)
F('fac', retval('char*', free_after_copy=True) if False else retval('char*'), [S()]) if False else None
F('ov', retval('int'), [param('int', 'n')]); F('ov', retval('int'), [S()])
strs = mod.add_container('Strs', retval('std::string'), 'vector')
F('ov', retval('int'), [S(), param('std::vector<std::string>' if False else 'Strs', 'v')])
F('dep', retval('int'), [S()], deprecated='old')
Val = mod.add_class('Val'); Conv = mod.add_class('Conv'); Holder = mod.add_class('Holder')
Val.add_constructor([]); Val.add_constructor([S()]); Val.add_copy_constructor()
Val.add_method('get', retval('std::string'), [], is_const=True)
Val.add_method('twice', retval('Val'), [S('x')], is_const=True)
Val.add_method('size', retval('int'), [], is_const=True, custom_name='__len__')
Val.add_method('item', retval('std::string'), [param('int', 'i')], is_const=True, custom_name='__getitem__', throw=[oor])
for o in ('<', '==', '!='): Val.add_binary_comparison_operator(o)
Val.add_binary_numeric_operator('+'); Val.add_unary_numeric_operator('-'); Val.add_inplace_numeric_operator('+=')
Val.add_output_stream_operator()
Val.add_static_attribute('label', retval('std::string')); Val.add_static_attribute('num', retval('int'))
Conv.add_constructor([]); Conv.add_constructor([S()])
Val.implicitly_converts_to(Conv)
F('conv_val', retval('int'), [param('Conv', 'c')]); F('conv_ref', retval('int'), [param('const Conv &', 'c'), param('unsigned char', 'n')])
Holder.add_constructor([])
for n, t in (('name', 'std::string'), ('n', 'int'), ('val', 'Val'), ('names', 'Strs'), ('sh', 'short'), ('d', 'double'), ('b', 'bool'), ('ch', 'char')):
    Holder.add_instance_attribute(n, retval(t))
Holder.add_instance_attribute('prop', retval('std::string'), getter='getName', setter='setName')
mod.add_container('StrMap', (retval('std::string'), retval('Strs')), 'map')
mod.add_container('Vals', retval('Val'), 'list')
mod.add_container('StrSet', retval('std::string'), 'set')
i = lambda n: param('int', n); u8 = param('unsigned char', 'n')
F('strs', retval('Strs'), [i('n')]); F('strs_in', retval('int'), [param('Strs', 'v')]); F('strs_ref', retval('int'), [param('const Strs &', 'v')])
F('strs_inout', None, [param('Strs &', 'v', direction=INOUT)]); F('strs_out', retval('int'), [param('Strs &', 'v', direction=OUT), u8])
F('strs_outp', None, [param('Strs *', 'v', direction=OUT), param('unsigned char', 'n')])
F('strs_outp_throw', None, [param('Strs *', 'v', direction=OUT), param('unsigned char', 'n')], throw=[err])
F('val_outs', retval('int'), [param('Val &', 'v', direction=OUT), u8, param('std::string &', 's', direction=OUT)], throw=[err])
F('strs_two', retval('int'), [param('Strs', 'a'), param('Strs', 'b'), param('unsigned char', 'n')])
F('map_id', retval('StrMap'), [param('StrMap', 'm')]); F('vals', retval('Vals'), [i('n')]); F('vals_in', retval('int'), [param('Vals', 'v')]); F('set_id', retval('StrSet'), [param('StrSet', 's')])
mod.add_enum('Color', ['RED', 'GREEN']); F('col', retval('Color'), [param('Color', 'c')])
Cust = mod.add_class('Cust', allow_subclassing=True); Cust.add_constructor([])
Cust.add_method('take', None, [param('Val*', 'v', transfer_ownership=False)], custodian=None) if False else None
Cust.add_method('give', retval('Val*', reference_existing_object=True, custodian=0), [])
Vf = mod.add_class('Vf', allow_subclassing=True); Vf.add_constructor([])
Vf.add_method('obj', retval('PyObject*', caller_owns_return=True), [param('PyObject*', 'o', transfer_ownership=False)], is_virtual=True)
Vf.add_method('str', retval('std::string'), [param('const std::string &', 'a'), param('Val', 'v')], is_virtual=True)
Vf.add_method('list', retval('Strs'), [param('Strs', 'v')], is_virtual=True)
Vf.add_method('val', retval('Val'), [i('n'), param('std::string*', 'out', direction=OUT)], is_virtual=True)
Vf.add_method('listref', None, [param('Strs &', 'v', direction=INOUT)], is_virtual=True)
Vf.add_method('do_obj', retval('PyObject*', caller_owns_return=True), [])
Vf.add_method('do_str', retval('int'), [param('std::string', 'a')])
for n in ('list', 'val', 'listref'): Vf.add_method('do_' + n, retval('int'), [i('n')])
emit(mod)
'''

HAND = COMMON + r'''
sys.path.insert(0, sys.argv[1])
import leak as M
c = drv.CSide(M); heap = c.heap
sys.excepthook = drv.quiet_hook
BAD = object(); LS = 'long string ' * 30; O = [1, 2, 3]; O2 = {1: 2}
def P(key, fn, *watch): neutral(key, key, fn, heap, list(watch))
def R(key, exc, fn, *watch): P(key, raising(fn, *(exc if isinstance(exc, tuple) else (exc,))), *watch)
P('pyobject-borrow', lambda: M.po_borrow(O, LS), O, LS)
R('pyobject-borrow-rejected', TypeError, lambda: M.po_borrow(O, BAD), O, LS)
P('pyobject-transfer', lambda: M.po_steal(O, 3), O)
R('pyobject-transfer-rejected', TypeError, lambda: M.po_steal(O, BAD), O)
R('pyobject-transfer-range', (ValueError, OverflowError, TypeError), lambda: M.po_steal(O, 999), O)
P('pyobject-transfer2', lambda: M.po_steal2(O, LS, O2), O, O2)
R('pyobject-transfer2-rejected', TypeError, lambda: M.po_steal2(O, BAD, O2), O, O2)
P('pyobject-two', lambda: M.po_two(O, O2), O, O2)
P('pyobject-new', lambda: M.po_new(3)); R('pyobject-null', LookupError, lambda: M.po_new(-1)); P('pyobject-new-out', lambda: M.po_new2(3))
P('pyobject-lent', lambda: M.po_lent(), M.po_lent())
R('pyobject-throw', M.Err, lambda: M.po_throw(O, LS), O, LS); R('pyobject-steal-throw', M.Err, lambda: M.po_steal_throw(O, LS), O, LS)
P('ex-none', lambda: M.ex(LS, 0), LS)
for n, e in ((1, M.Err), (2, M.Err2), (3, IndexError)): R('ex-%d' % n, e, lambda: M.ex(LS, n), LS, e)
R('ex-out', M.Err, lambda: M.exo(LS, 1), LS); P('ex-out-ok', lambda: M.exo(LS, 0), LS)
R('ex-unblock', M.Err, lambda: M.exu(LS, 1), LS); P('ex-unblock-ok', lambda: M.exu(LS, 0), LS)
P('overload-1', lambda: M.ov(5)); P('overload-2', lambda: M.ov(LS), LS); P('overload-3', lambda: M.ov(LS, [LS]), LS)
R('overload-none', TypeError, lambda: M.ov(BAD), BAD); R('overload-none3', TypeError, lambda: M.ov(LS, [LS, BAD]), BAD, LS)
def dep():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); M.dep(LS)
P('deprecated', dep, LS)
def deperr():
    with warnings.catch_warnings():
        warnings.simplefilter('error'); M.dep(LS)
R('deprecated-error', DeprecationWarning, deperr, LS)
V = M.Val(LS); W = M.Val('w')
P('operator-compare', lambda: (V < W, V == W, V != W), V, W)
def cmpbad():
    try: V < BAD
    except TypeError: pass
    V == BAD; V != BAD
P('operator-compare-other', cmpbad, V, BAD)
P('operator-add', lambda: V + W, V, W); R('operator-add-other', TypeError, lambda: V + BAD, V, BAD); R('operator-radd-other', TypeError, lambda: BAD + V, V, BAD)
P('operator-neg', lambda: -V, V)
def iadd():
    global X
    X = M.Val('x'); X += V
P('operator-iadd', iadd, V)
def iaddbad():
    x = M.Val('x'); x += BAD
R('operator-iadd-other', TypeError, iaddbad, BAD)
P('str', lambda: str(V)); P('len', lambda: len(V)); P('item', lambda: V[2]); R('item-out', IndexError, lambda: V[9]); P('iterate', lambda: list(V)); P('contains', lambda: BAD in V, BAD)
P('value-return', lambda: V.twice(LS), V, LS)
P('static-get', lambda: M.Val.label)
def setstatic(): M.Val.label = LS + 'x'; M.Val.num = 77
P('static-set', setstatic, LS)
def setstaticbad(): M.Val.label = BAD
R('static-set-bad', TypeError, setstaticbad, BAD)
P('convert', lambda: M.conv_val(V), V); P('convert-ref', lambda: M.conv_ref(V, 3), V); R('convert-other', TypeError, lambda: M.conv_val(BAD), BAD)
R('convert-ref-later', (TypeError, ValueError, OverflowError), lambda: M.conv_ref(V, 999), V); R('convert-ref-later2', TypeError, lambda: M.conv_ref(V, BAD), V, BAD)
h = M.Holder()
for n, good in (('name', LS), ('n', 70000), ('val', V), ('names', [LS, LS]), ('sh', 700), ('d', 3.5), ('b', True), ('ch', b'z'), ('prop', LS)):
    P('get-' + n, lambda: getattr(h, n))
    P('set-' + n, lambda: setattr(h, n, good), good, h)
    if n != 'b': R('set-bad-' + n, (TypeError,), lambda: setattr(h, n, BAD), BAD)
R('set-range', (OverflowError, ValueError), lambda: setattr(h, 'sh', 1 << 17)); R('set-names-bad', TypeError, lambda: setattr(h, 'names', [LS, BAD]), BAD, LS)
L = [LS, LS + '2', 'k']
P('container-new', lambda: M.Strs(L), L, LS); P('container-empty', lambda: M.Strs()); R('container-bad', TypeError, lambda: M.Strs(BAD), BAD); R('container-bad-item', TypeError, lambda: M.Strs([LS, BAD]), BAD, LS)
K = M.Strs(L)
P('container-copy', lambda: M.Strs(K), K); P('container-iterate', lambda: list(K), K); P('container-abandon', lambda: next(iter(K)), K)
P('container-iter-outlives', lambda: list(iter(M.Strs(L))))
P('container-in-list', lambda: M.strs_in(L), L, LS); P('container-in', lambda: M.strs_in(K), K); P('container-ref', lambda: M.strs_ref(K), K)
R('container-in-bad', TypeError, lambda: M.strs_in([LS, BAD]), BAD, LS); R('container-ref-bad', TypeError, lambda: M.strs_ref(BAD), BAD)
P('container-return', lambda: M.strs(5)); P('container-inout', lambda: M.strs_inout(L), L); P('container-out', lambda: M.strs_out(4)); P('container-outp', lambda: M.strs_outp(4))
R('container-out-rejected', TypeError, lambda: M.strs_out(BAD), BAD); R('container-outp-rejected', TypeError, lambda: M.strs_outp(BAD), BAD)
R('container-outp-range', (TypeError, ValueError, OverflowError), lambda: M.strs_outp(999))
P('container-outp-ok', lambda: M.strs_outp_throw(2)); R('container-outp-throw', M.Err, lambda: M.strs_outp_throw(9))
P('object-out', lambda: M.val_outs(2)); R('object-out-throw', M.Err, lambda: M.val_outs(9)); R('object-out-rejected', TypeError, lambda: M.val_outs(BAD), BAD); R('object-out-range', ValueError, lambda: M.val_outs(999)); R('object-out-arity', TypeError, lambda: M.val_outs(1, 2))
R('container-two', TypeError, lambda: M.strs_two(K, [LS, BAD], 3), K, BAD); R('container-two-range', (ValueError, OverflowError, TypeError), lambda: M.strs_two(K, L, 999), K, L)
D = [(LS, L), ('k', [LS])]
P('map', lambda: M.map_id(D), LS, L); P('map-iterate', lambda: list(M.StrMap(D)), LS)
for b in ([(LS, [BAD])], [(BAD, [LS])], [(LS,)], [LS], [(LS, LS)]): R('map-bad', TypeError, lambda: M.map_id([(LS, [LS])] + b), LS, BAD)
P('objects', lambda: M.vals(4)); P('objects-in', lambda: M.vals_in([V, W]), V, W); R('objects-bad', TypeError, lambda: M.vals_in([V, BAD]), V, BAD); P('objects-iter', lambda: list(M.vals(3)))
P('set', lambda: M.set_id(L), LS); P('set-iter', lambda: sorted(M.set_id(L)))
P('enum', lambda: M.col(M.RED)); R('enum-bad', TypeError, lambda: M.col(BAD), BAD)
def two_wards():
    cu = M.Cust(); cu.give(); cu.give()  # a custodian keeps both until it dies
P('custodian', lambda: M.Cust().give()); P('wards', two_wards)
class VG(M.Vf):
    def obj(self, o): return O
    def str(self, a, v): return a + LS
    def list(self, v): return list(v)
    def val(self, n, *a): return V, LS
    def listref(self, v): return list(v) + [LS]
class VB(M.Vf):
    def obj(self, o): raise KeyError(LS)
    def str(self, a, v): return BAD
    def list(self, v): return [LS, BAD]
    def val(self, n, *a): return V, BAD
    def listref(self, v): return [LS, BAD]
class VB2(M.Vf):
    def str(self, a, v): raise KeyError(LS)
    def list(self, v): return BAD
    def val(self, n, *a): return BAD, LS
    def listref(self, v): raise KeyError(LS)
class VP(M.Vf):
    def obj(self, o): return super(VP, self).obj(o)
    def str(self, a, v): return super(VP, self).str(a, v)
    def list(self, v): return super(VP, self).list(v)
    def val(self, n, *a): return super(VP, self).val(n)
    def listref(self, v): return super(VP, self).listref(v)
for cls in (M.Vf, VG, VB, VB2, VP):
    o = cls()
    P('virtual-new:' + cls.__name__, lambda: cls(), cls)
    for n, a in (('obj', ()), ('str', (LS,)), ('list', (4,)), ('val', (4,)), ('listref', (3,))):
        f = getattr(o, 'do_' + n)
        def one():
            try: f(*a)
            except SystemError: pass
        P('virtual-%s:%s' % (n, cls.__name__), one, LS, BAD, V, O)
drv.done()
'''


def make_spec(name, rng, big):
    fns = [sigs.random_fn(rng, 'f%d' % i, maxn=6) for i in range(12)]
    vf = [sigs.random_fn(rng, 'v%d' % i, rets=sigs.REV_RETURNS, defaults=False) for i in range(6)]
    mf = [sigs.random_fn(rng, 'm%d' % i) for i in range(6)]
    informs = [(t, d) for t, d in sigs.all_param_forms() if d == 'in']
    ctors = [{'name': 'Q%d' % i, 'ctors': [{'params': sigs.random_params(rng, rng.randint(0, 5), informs, False)}]} for i in range(3)]
    for f in fns + mf:
        for p in f['params']:
            p.pop('default', None)
    cl = [{'name': 'V', 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}], 'virtuals': vf},
          {'name': 'K', 'ctors': [{'params': []}], 'methods': mf}] + ctors
    return {'module': name, 'functions': fns, 'classes': cl, 'ctor_classes': [c['name'] for c in ctors], 'classes2': ctors}


def main():
    ck = Check('C06', 'distinct call paths (signature or operation x outcome) repeated until growth of references, blocks or heap is decided')
    jobs = []
    nmod = 6 if not THOROUGH else 40

    def sig_job(i):
        spec = make_spec('m%d' % i, random.Random('C06/%s/%d' % (SEED, i)), THOROUGH)
        d = os.path.join(scratch(), spec['module'])
        try:
            sigs.build_spec(spec, d, 'plain')
        except Exception as e:
            return ('build', e)
        r = drive(write(os.path.join(d, 'driver_.py'), SIG), d, 'plain', [d, spec['module']], timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return (spec['module'], r)

    def obj_job(name, reg):
        d = os.path.join(scratch(), 'o_%s_%s' % (name, reg))
        os.makedirs(d)
        try:
            cfg = objs.build(d, [name], 'plain', reg)
        except Exception as e:
            return ('build', e)
        if name not in cfg:
            return None
        r = drive(write(os.path.join(d, 'driver_.py'), OBJ), d, 'plain', [d, name], timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return ('objs-%s-%s' % (name, reg), r)

    def hand_job():
        d = os.path.join(scratch(), 'leak')
        try:
            handmod.build(d, 'leak', HEADER, GEN, 'plain', IMPL)
        except Exception as e:
            return ('build', e)
        return ('hand', drive(write(os.path.join(d, 'driver_.py'), HAND), d, 'plain', [d], timeout=800))
    todo = [hand_job] + [lambda n=n, r=r: obj_job(n, r) for n in sorted(objs.CONFIGS) for r in ('std', 'null')] + [lambda i=i: sig_job(i) for i in range(nmod)]
    for res in pmap(lambda f: f(), todo):
        if res is None:
            continue
        label, r = res
        if label == 'build':
            ck.build_failed(r, 'module')
        else:
            ck.absorb(r, label)
    ck.require('neutral', 1200)
    ck.require('rejections_seen', 60)
    ck.finish()


main()
