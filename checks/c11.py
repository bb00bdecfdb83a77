"""C11: the GIL: released exactly where declared, held wherever Python is touched; wrappers and overrides under many Python and C++ threads."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod, objsig

POLS = ['plain', 'refm', 'std']
MEET = ['function', 'method', 'const', 'static', 'ctor', 'subctor', 'fac', 'fam', 'call', 'over', 'virtual', 'throw', 'protected', 'inh', 'cinh', 'sinh', 'other']


def make(rng, nf):
    fns = objsig.make(rng, nf)
    for f in fns:
        f['unblock'] = rng.random() < .75
        f['ps'] = [p for p in f['ps'] if p['k'] != 'pyobj' or not f['unblock']]
        f['ret'] = 'text'
        f['throw'] = rng.random() < .4
        f['over'] = rng.random() < .3 and f['what'] != 'ctor'
        f['const'] = rng.random() < .3
        if f['what'] == 'method' and rng.random() < .3: f['what'] = 'fam'
    # 'glob': settings.unblock_threads is the default
    return {'fns': fns, 'glob': rng.random() < .4, 'meet': {k: rng.random() < .85 for k in MEET}, 'reg': rng.choice(['Std', 'Null']), 'narrow': rng.random() < .5}


def header(spec):
    o = '#include <thread>\n#include <atomic>\n#include <chrono>\n#include <condition_variable>\n' + objsig.HEADER + r'''
struct Err { vf::Track track; std::string m; Err(const std::string &s) : track("E"), m(s) {} };
inline std::atomic<long> &progress() { static std::atomic<long> n(0); return n; }
inline void gil(bool unblocked, const char *what) { progress()++; if (PyGILState_Check() == (unblocked ? 1 : 0)) vf::ev(std::string("GIL ") + what + (unblocked ? " runs with the GIL" : " runs without the GIL")); }
inline int &in_calls() { static thread_local int n = 0; return n; }
inline int &thr() { static thread_local int t = 0; return t; }
inline void mt(const std::string &s) { if (thr()) { thr() = 0; throw Err(s); } }
inline void nap(unsigned h) { if (h % 3 == 0) std::this_thread::yield(); else if (h % 3 == 1) std::this_thread::sleep_for(std::chrono::microseconds(h % 97)); }
// two callers meet: neither returns before the other has arrived
struct Room { std::mutex m; std::condition_variable c; int in = 0, round = 0; bool broken = false; };
inline Room &room(int i) { static Room r[64]; return r[i]; }
inline int meet(int i) {
    Room &r = room(i); progress()++;
    std::unique_lock<std::mutex> l(r.m);
    if (r.broken) return -1;
    int mine = r.round;
    if (++r.in == 2) { r.in = 0; r.round++; r.c.notify_all(); return mine; }
    if (!r.c.wait_for(l, std::chrono::seconds(25), [&] { return r.round != mine || r.broken; })) { r.broken = true; r.c.notify_all(); vf::ev("MEET nobody else came"); return -1; }
    progress()++;
    return r.broken ? -1 : mine;
}
extern "C" inline __attribute__((used, visibility("default"))) void set_throw(int k) { thr() = k; }
extern "C" inline __attribute__((used, visibility("default"))) void warm() { globA(); globR(); globS(); }
'''
    U = spec['meet']
    g = lambda k: 'gil(%d, "meet %s"); ' % (U[k], k)
    # meeting while the GIL is not released would be a deadlock by the program's own fault
    m = lambda k, e='i': (g(k) + 'int r = meet(%s);' % e) if U[k] else g(k) + 'int r = 0; (void) i;'
    o += 'inline int m_function(int i) { %s return r; }\n' % m('function')
    o += 'inline int m_over(int i) { %s return r; } inline int m_over2(const std::string &, int) { return -7; }\n' % m('over')
    o += 'inline int m_throw(int i) { %s if (r >= -1) throw Err("met"); return r; }\n' % m('throw')
    o += 'struct Mt { int r; Mt() : r(0) {} Mt(int i) { %s this->r = r; } virtual ~Mt() {} ' % m('ctor')
    o += 'int method(int i) { %s return r; } int cmethod(int i) const { %s return r; } static int st(int i) { %s return r; } int operator()(int i) { %s return r; } virtual int virt(int i) { %s return r; }\n' % tuple(m(k) for k in ('method', 'const', 'static', 'call', 'virtual'))
    o += ' protected: virtual int prot(int i) { %s return r; } };\n' % m('protected')
    # several bases: the inherited methods are wrapped again
    o += 'struct Mz { virtual ~Mz() {} }; struct Ma : virtual Mz { int minh(int i) { %s return r; } int mcinh(int i) const { %s return r; } static int msinh(int i) { %s return r; } }; struct Mb : virtual Mz { int mother(int i) { %s return r; } }; struct Mc : Ma, Mb { Mc() {} };\n' % tuple(m(k) for k in ('inh', 'cinh', 'sinh', 'other'))
    o += 'struct Ms { int r; Ms(int i) { %s this->r = r; } virtual ~Ms() {} virtual int vv() { return r; } };\n' % m('subctor')
    o += 'struct Mf { int r; Mf() : r(0) {} }; inline Mf *m_fac(int i) { Mf *p = new Mf; %s p->r = r; return p; }\n' % m('fac')
    o += 'inline int m_fam(Mt &, int i) { %s return r; }\n' % m('fam')
    for f in spec['fns']:
        ps = ', '.join('%s %s' % (objsig.K[p['k']][0], p['n']) for p in f['ps'])
        i = f['i']
        body = 'gil(%d, "f%d"); std::string t_ = "f%d"; ' % (f['unblock'], i, i)
        n = 0
        if f['unblock']: body += 'nap((unsigned) (size_t) &t_ >> 4); '
        for p in f['ps']:
            e = objsig.K[p['k']][3]
            if e: body += 't_ += std::string(" ") + %s; ' % e.replace('NM', p['n'])
            if f['unblock']: body += 'nap((unsigned) t_.size()); '
        for p in f['ps']:
            if p['k'] == 'iout': body += '*%s = %d; ' % (p['n'], 900 + n); n += 1
            if p['k'] == 'ainout': body += '%s.v++; ' % p['n']
            if p['k'] == 'atake': body += 'delete %s; ' % p['n']
            if p['k'] == 'rtake': body += 'if (%s) %s->unref(); ' % (p['n'], p['n'])
        body += 'mt(t_); '
        if f['what'] == 'function':
            o += 'inline std::string f%d(%s) { %sreturn t_; }\n' % (i, ps, body)
        else:
            o += 'struct M%d { vf::Track track{"M"}; std::string t; M%d() {} ' % (i, i)
            if f['what'] == 'ctor' and ps: o += 'M%d(%s) { %st = t_; } ' % (i, ps, body)
            o += '~M%d() {} std::string text() { return t; } ' % i
            if f['what'] == 'method': o += 'std::string f%d(%s) %s{ %sreturn t_; } ' % (i, ps, 'const ' if f['const'] else '', body)
            if f['what'] == 'static': o += 'static std::string f%d(%s) { %sreturn t_; } ' % (i, ps, body)
            o += '%s int f%do(bool, bool, bool, bool, bool, bool, bool) { return 77; } };\n' % ('static' if f['what'] == 'static' else '', i)
            if f['what'] == 'fam': o += 'inline std::string f%d(%sM%d &self_%s) { (void) self_; %sreturn t_; }\n' % (i, 'const ' if f['const'] else '', i, ', ' + ps if ps else '', body)
        if f['what'] == 'function' and f['over']: o += 'inline int f%do(bool, bool, bool, bool, bool, bool, bool) { return 77; }\n' % i
    for p in POLS:
        o += r'''
struct W_P { vf::Track track; std::atomic<int> refs; int mark;
    // an inherited implementation, in a call by C++ without the GIL: only the Python class Up calls it from Python
    void base(bool up, const char *w) { track.use(); progress()++; if (in_calls()) gil(!(up && mark >= 1000) || GLOB, w); }
    W_P(int m) : track("W_P"), refs(1), mark(m) {} W_P(const W_P &o) : track("W_P"), refs(1), mark(o.mark) {} virtual ~W_P() {}
    void ref() { track.use(); refs++; } void unref() { track.use(); if (!--refs) delete this; } int peek() { return refs; }
    int getMark() const { track.use(); return mark; }
    virtual int vi(int x) { base(1, "vi"); return -x; }
    virtual void vv(int x, int *out) { base(1, "vv"); *out = -x; }
    virtual void vn(int x) { base(1, "vn"); }
    virtual std::string vs(const std::string &s) { base(1, "vs"); return "base " + s; }
    virtual A va(A a) { base(0, "va"); return A(-a.v); }
    virtual int vp(A *a) { base(0, "vp"); return -a->v; }
    virtual std::vector<int> vl(std::vector<int> v) { base(0, "vl"); return std::vector<int>(v.rbegin(), v.rend()); }
    int go(int x) { return vi(x); } void gon(int x) { vn(x); } std::string gos(const std::string &s) { return vs(s); } };
inline void kill(W_P *w) { KILL }
typedef PTR W_P_t;
// what a round of virtual calls on w must give: over: overridden in Python
inline void W_P_calls(W_P *w, bool over, int from, int k) {
    int mark = w->mark; char b[100]; struct In { In() { in_calls()++; } ~In() { in_calls()--; } } in;
    for (int x = from; x < from + k; x++) {
        int bad = 0; std::string s = N(x); std::vector<int> v(x % 5 + 1, x);
        bool fails = over && x % 7 == 0;        // an override that raises: the inherited implementation takes over
        bool base = !over || fails;
        switch (x % 7 == 0 ? x / 7 % 6 : x % 6) {
            case 0: bad = w->vi(x) != (base ? -x : x * 3 + mark); break;
            case 1: { int out = 12345; w->vv(x, &out); bad = out != (fails ? 12345 : over ? x * 3 + mark : -x); break; }
            case 2: bad = w->vs(s) != (base ? "base " + s : s + "/" + N(mark)); break;
            case 3: bad = w->va(A(x)).v != (base ? -x : x * 3 + mark); break;
            case 4: { A a(x); bad = w->vp(&a) != (base ? -x : x * 3 + mark); break; }
            case 5: { v.push_back(7); w->vn(x); std::vector<int> got = w->vl(v), want(v.rbegin(), v.rend()); if (!base) { want = v; want.push_back(mark); } bad = got != want; break; }
        }
        if (bad) { snprintf(b, sizeof b, "MISMATCH case %d for %d, overridden %d", x % 6, x, over); vf::ev(b); }
        if (PyGILState_Check()) vf::ev("HELD after a virtual call");
    }
}
inline void W_P_run(W_P_t w, bool over, int n, int k) {
    gil(true, "run");
    std::vector<std::thread> t;
    W_P *p = &*w;
    for (int i = 0; i < n; i++) t.emplace_back([=] { W_P_calls(p, over, i * k + 1, k); });
    W_P_calls(p, over, n * k + 1, k);
    for (auto &x : t) x.join();
}
struct W_P_pool { std::mutex m; std::vector<W_P_t> v; };
inline W_P_pool &pool_P() { static W_P_pool *p = new W_P_pool; return *p; }
inline void W_P_put(W_P_t w) { std::lock_guard<std::mutex> g(pool_P().m); pool_P().v.push_back(w); }
// C++ threads use up the pool: the instances die there, whatever Python state they have
inline int W_P_drain(int n, bool over, int k) {
    gil(true, "drain");
    std::atomic<int> count(0); std::vector<std::thread> t;
    auto work = [&](int i) { for (;;) { W_P_t w{}; { std::lock_guard<std::mutex> g(pool_P().m); if (pool_P().v.empty()) return; w = pool_P().v.back(); pool_P().v.pop_back(); }
        if (k % 2) W_P_calls(&*w, over, i * k + 1, k);
        else { W_P *q = &*w; std::thread other([=] { W_P_calls(q, over, i * k + 5, k); }); W_P_calls(q, over, i * k + 1, k); other.join(); }     // two threads at once
        count++; DROP } };
    for (int i = 0; i < n; i++) t.emplace_back(work, i);
    for (auto &x : t) x.join();
    return count;
}
inline W_P_t &slot_P(int i) { static W_P_t s[8]; return s[i]; }
inline void W_P_store(int i, int m) { if (!slot_P(i)) slot_P(i) = W_P_t(new W_P(m)); }
inline W_P_t W_P_get(int i) { gil(GETU, "get"); return slot_P(i); }
inline int W_P_mark(W_P_t w) { gil(true, "mark"); return w->mark; }
'''.replace('KILL', {'plain': 'delete w;', 'refm': 'w->unref();', 'std': ''}[p]).replace('DROP', 'w.reset();' if p == 'std' else 'kill(w);').replace('PTR', 'std::shared_ptr<W_P>' if p == 'std' else 'W_P *').replace('GETU', '1').replace('GLOB', '1' if spec['glob'] else '0').replace('_P', p)
    return o + '#include "vfgil.h"\n'


def gen(spec):
    return objsig.gen([], spec['reg']).replace('emit(mod)\n', '') + r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
K, POLS = %r, %r
GLOB = spec['glob']
settings.unblock_threads = GLOB
def un(flag):
    """keyword arguments that make a call (not) release the GIL"""
    return {} if flag == GLOB else {'unblock_threads': flag}
err = mod.add_exception('Err', message_rvalue='%%(EXC)s.m.c_str()')
U = spec['meet']
i = lambda: [param('int', 'i')]
I = retval('int')
mod.add_function('m_function', I, i(), **un(U['function']))
mod.add_function('m_over', I, i(), **un(U['over'])); mod.add_function('m_over2', I, [param('std::string', 's'), param('int', 'x')], custom_name='m_over')
mod.add_function('m_throw', I, i(), throw=[err], **un(U['throw']))
Mt = mod.add_class('Mt', allow_subclassing=True); Mt.add_constructor([]); Mt.add_constructor(i(), **un(U['ctor'])); Mt.add_instance_attribute('r', 'int')
Mt.add_method('method', I, i(), **un(U['method'])); Mt.add_method('cmethod', I, i(), is_const=True, **un(U['const'])); Mt.add_method('st', I, i(), is_static=True, **un(U['static']))
Mt.add_method('operator()', I, i(), custom_name='__call__', **un(U['call'])); Mt.add_method('virt', I, i(), is_virtual=True, **un(U['virtual']))
Mt.add_method('prot', I, i(), is_virtual=True, visibility='protected', **un(U['protected']))
Mt.add_function_as_method('m_fam', I, [param('Mt &', 'self')] + i(), custom_name='fam', **un(U['fam']))
Mz = mod.add_class('Mz'); Ma = mod.add_class('Ma', parent=Mz); Mb = mod.add_class('Mb', parent=Mz)
Ma.add_method('minh', I, i(), **un(U['inh'])); Ma.add_method('mcinh', I, i(), is_const=True, **un(U['cinh'])); Ma.add_method('msinh', I, i(), is_static=True, **un(U['sinh'])); Mb.add_method('mother', I, i(), **un(U['other']))
Mc = mod.add_class('Mc', parent=[Ma, Mb]); Mc.add_constructor([])
Ms = mod.add_class('Ms', allow_subclassing=True); Ms.add_constructor(i(), **un(U['subctor'])); Ms.add_instance_attribute('r', 'int'); Ms.add_method('vv', I, [], is_virtual=True)
Mf = mod.add_class('Mf'); Mf.add_function_as_constructor('m_fac', ReturnValue.new('Mf*', caller_owns_return=True), i(), **un(U['fac'])); Mf.add_instance_attribute('r', 'int')
for f in spec['fns']:
    i = f['i']
    ps = eval('[' + ', '.join(K[p['k']][1].replace('NM', p['n']).replace('DF', ', default_value=%%r' %% p['d'][0] if p['d'] else '') for p in f['ps']) + ']')
    ret = retval('std::string')
    kw = dict(un(f['unblock']), throw=[err])
    ob = lambda: [param('bool', 'b%%d' %% q) for q in range(7)]
    if f['what'] == 'function':
        mod.add_function('f%%d' %% i, ret, ps, **kw)
        if f['over']: mod.add_function('f%%do' %% i, retval('int'), ob(), custom_name='f%%d' %% i)
        continue
    M = mod.add_class('M%%d' %% i)
    M.add_method('text', ret, [])
    M.add_constructor([])
    if f['what'] == 'ctor':
        if ps: M.add_constructor(ps, **kw)
        continue
    if f['what'] == 'method': kw['is_const'] = f['const']
    if f['what'] == 'static': kw['is_static'] = True
    if f['what'] == 'fam': M.add_function_as_method('f%%d' %% i, ret, [param(('const ' if f['const'] else '') + 'M%%d &' %% i, 'self')] + ps, **kw)
    else: M.add_method('f%%d' %% i, ret, ps, **kw)
    if f['over']: M.add_method('f%%do' %% i, retval('int'), ob(), custom_name='f%%d' %% i, is_static=f['what'] == 'static')
for p in POLS:
    n = 'W' + p
    w = mod.add_class(n, allow_subclassing=p != 'std', automatic_type_narrowing=spec['narrow'], memory_policy={'plain': None, 'refm': cppclass.ReferenceCountingMethodsPolicy('ref', 'unref', 'peek'), 'std': StdSharedPtr('::' + n)}[p])
    w.add_constructor([param('int', 'm')])
    w.add_method('getMark', I, [], is_const=True)
    v = lambda nm, r, *ps: w.add_method(nm, r, list(ps), is_virtual=p != 'std')
    x = param('int', 'x')
    v('vi', I, param('int', 'x')); v('vn', None, param('int', 'x')); v('vv', None, param('int', 'x'), param('int*', 'out', direction=OUT)); v('vs', retval('std::string'), param('const std::string &', 's'))
    v('va', retval('A'), param('A', 'a')); v('vp', I, param('A*', 'a', transfer_ownership=False)); v('vl', retval('std::vector< int >'), param('std::vector< int >', 'v'))
    w.add_method('go', I, [param('int', 'x')]); w.add_method('gon', None, [param('int', 'x')], **un(True)); w.add_method('gos', retval('std::string'), [param('const std::string &', 's')], **un(True))
    P = 'std::shared_ptr< %%s >' %% n if p == 'std' else n + ' *'
    nt = {} if p == 'std' else {'transfer_ownership': False}
    tr = {} if p == 'std' else {'transfer_ownership': True}
    mod.add_function(n + '_run', None, [param(P, 'w', **nt), param('bool', 'over'), param('int', 'n'), param('int', 'k')], **un(True))
    mod.add_function(n + '_put', None, [param(P, 'w', **tr)])
    mod.add_function(n + '_drain', I, [param('int', 'n'), param('bool', 'over'), param('int', 'k')], **un(True))
    mod.add_function(n + '_store', None, [param('int', 'i'), param('int', 'm')])
    mod.add_function(n + '_get', retval(P, **({} if p == 'std' else {'reference_existing_object': True} if p == 'plain' else {'caller_owns_return': False})), [param('int', 'i')], **un(True))
    mod.add_function(n + '_mark', I, [param(P, 'w', **nt)], **un(True))
emit(mod)
''' % (objsig.K, POLS)


IMPL = r'''
#include <unistd.h>
#include <fcntl.h>
#include <Python.h>
// how often this thread holds the GIL through PyGILState_Ensure (1: not at all, beyond its own)
extern "C" __attribute__((visibility("default"))) int gil_depth() { return PyGILState_GetThisThreadState()->gilstate_counter; }
extern "C" __attribute__((visibility("default"))) long get_progress() { return progress(); }
// a process in which nothing moves any more is a violation: it would wait forever
extern "C" __attribute__((visibility("default"))) void start_watch(const char *path, int secs) {
    static std::string p = path;
    std::thread([=] { long last = -1; int still = 0;
        for (;;) { std::this_thread::sleep_for(std::chrono::seconds(1)); long n = progress(); if (n == last) still++; else still = 0; last = n;
            if (still >= secs) { std::string m = "{\"violation\": {\"mech\": \"deadlock\", \"msg\": \"no thread makes progress any more\", \"replay\": null}}\n";
                int fd = open(p.c_str(), O_WRONLY | O_APPEND); if (fd >= 0) { if (write(fd, m.data(), m.size())) {} close(fd); } _exit(3); } } }).detach();
}
'''

DRIVER = objsig.DRIVER[:objsig.DRIVER.index('for f in fns:')].replace("fns = json.load(open(os.path.join(sys.argv[1], 'spec.json')))", "spec = json.load(open(os.path.join(sys.argv[1], 'spec.json'))); fns = spec['fns']") + r'''
import ctypes, threading, time, weakref
L = c.lib
L.set_throw.restype = None; L.warm.restype = None; L.start_watch.restype = None; L.start_watch.argtypes = [ctypes.c_char_p, ctypes.c_int]
L.warm()
MODE = sys.argv[3]
class Fail(Exception): pass
held = ctypes.pythonapi.PyGILState_Check
stop = []
NT = 6
def fail(mech, msg):
    stop.append(1); drv.violation(mech, msg)
sys.setswitchinterval(1e-5)
L.start_watch(os.environ['VF_OUT'].encode(), 60)
printed = []
def hook(t, v, tb):
    printed.append(t)
    if t is not KeyError: sys.__excepthook__(t, v, tb)
sys.excepthook = hook
sys.unraisablehook = lambda u: fail('unraisable', '%r in %r' % (u.exc_value, u.object))
def depth(what):
    if L.gil_depth() != 1: fail('depth', '%s leaves the GIL acquired %d times' % (what, L.gil_depth()))
def problems(what):
    for l in c.log():
        k = l.split(' ')[0]
        if k == 'MEET' and stop: continue       # the partner gave up because of something else
        if k in ('NOGIL', 'GIL', 'MEET', 'MISMATCH', 'HELD', 'QUEUE-EMPTY'): fail(k + ':' + ' '.join(l.split(' ')[1:3]), '%s: %s' % (what, l))
    n, m = c.bad()
    if n: fail('lifetime', '%s: %s' % (what, m))
dead = []       # what the life of the instances ends with: (thread holds the GIL)
class Ghost(object):
    """dies with the instance that owns it"""
    def __del__(self):
        dead.append(1)
        if held() != 1: fail('del', 'a destructor runs without the GIL')
def mk(p):
    base = getattr(M, 'W' + p)
    if p == 'std': return base, base, base, base        # smart pointers do not go with subclassing
    nap = [0]
    class V(base):
        def __init__(self, m):
            base.__init__(self, m)
            self.m = m; self.calls = 0; self.ghost = Ghost()
        def _in(self, x):
            self.calls += 1
            if held() != 1: fail('override', 'an override runs without the GIL')
            if self.getMark() != self.m: fail('self', 'self is another instance')
            if x % 7 == 0: raise KeyError(x)
            nap[0] += 1
            if nap[0] % 5 == 0: time.sleep(0)
            if nap[0] % 31 == 0: time.sleep(1e-4)
            if x % 5 == 0: getattr(M, 'W%s_mark' % p)(own[p])       # a nested call that releases the GIL
        def vi(self, x): self._in(x); return x * 3 + self.m
        def vv(self, x): self._in(x); return x * 3 + self.m
        def vn(self, x): self._in(x)
        def vs(self, s): self._in(int(s)); return s + '/%d' % self.m
        def va(self, a): self._in(a.v); return M.A(a.v * 3 + self.m)
        def vp(self, a): self._in(a.v); return a.v * 3 + self.m
        def vl(self, v):
            l = list(v); self._in(l[0]); return l + [self.m]
    class Plain(base):
        def other(self): pass
    class Up(base):
        def __init__(self, m): base.__init__(self, m + 1000)
        def vi(self, x): return base.vi(self, x)
        def vv(self, x): return base.vv(self, x)
        def vs(self, s): return base.vs(self, s)
        def vn(self, x): return base.vn(self, x)
    return base, V, Plain, Up
POLS = ['plain', 'refm', 'std']
CL = {p: mk(p) for p in POLS}
own = {p: getattr(M, 'W' + p)(5) for p in POLS}
tl = threading.local()

def op_fn(t, f):
    i = f['i']
    args, kw, log, kwonly, vals = [], {}, [], False, []
    for p in f['ps']:
        if p['k'] == 'iout': continue
        if p['d'] and rng.random() < .4: log.append(p['d'][1]); kwonly = True; continue
        v, l = value(p['k']); log.append(l); vals.append((p['k'], v))
        if kwonly or rng.random() < .3: kw[p['n']] = v; kwonly = True
        else: args.append(v)
    v = None
    fn, got = None, None
    C = getattr(M, 'M%d' % i, None)
    what = '%s(%s)%s%s' % (f['what'], ', '.join(p['k'] for p in f['ps']), ' overloaded' if f['over'] else '', ' unblock' if f['unblock'] else '')
    if f['what'] == 'function': fn = getattr(M, 'f%d' % i)
    elif f['what'] == 'ctor':
        if not args and not kw: return
        fn = C
    elif f['what'] == 'static': fn = getattr(C, 'f%d' % i)
    else: fn = getattr(C(), 'f%d' % i)
    before = [v.v for k, v in vals if k == 'ainout']; v = None
    throw = rng.random() < .25
    if throw: L.set_throw(1)
    want = ' '.join(['f%d' % i] + log)
    try: got = fn(*args, **kw)
    except M.Err as e:
        if not throw: return fail('raise', '%s raises %r' % (what, e))
        if str(e) != want: return fail('message', '%s raises %r instead of %r' % (what, e, want))
        drv.count('thrown')
    else:
        if throw: return fail('noraise', '%s does not raise' % what)
        if f['what'] == 'ctor': got = got.text()
        outs = len([1 for p in f['ps'] if p['k'] == 'iout'])
        extra = tuple(p if p == 'o' else None for p in ())
        if type(got) is tuple:
            if list(x for x in got[1:] if type(x) is int) != [900 + q for q in range(outs)]: return fail('outs', '%s gives %r' % (what, got))
            got = got[0]
        if got != want: return fail('result', '%s gives %r instead of %r' % (what, got, want))
    if [v.v for k, v in vals if k == 'ainout'] != [b + 1 for b in before]: return fail('inout', '%s: lost' % what)
    depth(what); drv.count('calls'); drv.distinct(['fn', what, throw])

def op_virtual(t):
    p = rng.choice(POLS); base, V, Plain, Up = CL[p]
    k = rng.choice([base, V, Plain, Up])
    w = k(rng.randint(1, 99)); x = rng.randint(1, 200); over = k is V and p != 'std'
    if over: x += x % 7 == 0
    m = w.getMark()
    if w.go(x) != (x * 3 + m if over else -x): fail('go', 'go(%d) on %s' % (x, k.__name__))
    w.gon(x)
    if w.gos(str(x)) != ('%d/%d' % (x, m) if over else 'base %d' % x): fail('gos', 'gos(%d) on %s' % (x, k.__name__))
    depth('virtual'); drv.count('virtual'); drv.distinct(['virtual', p, k.__name__])

def op_run(t):
    p = rng.choice(POLS); base, V, Plain, Up = CL[p]
    w = shared[p] if rng.random() < .5 else rng.choice([base, V, Plain, Up])(rng.randint(1, 99))
    n, k = rng.randint(1, 4), rng.randint(5, 25)
    getattr(M, 'W%s_run' % p)(w, isinstance(w, V) and p != 'std', n, k)
    depth('run'); drv.count('cpp_threads', n); drv.count('virtual_in_threads', (n + 1) * k); drv.distinct(['run', p, type(w).__name__, n, w is shared[p]])

def op_pool(t):
    """instances made by a Python thread, used and destroyed by C++ threads"""
    p = rng.choice(POLS); base, V, Plain, Up = CL[p]
    with poollock[p]:
        over = rng.random() < .6 and p != 'std'
        k = rng.randint(1, 6)
        for i in range(k):
            w = (V if over else rng.choice([base, Plain, Up]))(rng.randint(1, 99))
            getattr(M, 'W%s_put' % p)(w)
        if p != 'plain' and rng.random() < .5: kept = w
        w = None
        n = getattr(M, 'W%s_drain' % p)(rng.randint(1, 4), over, rng.randint(3, 12))
        if n != k: fail('pool', '%d of %d instances used' % (n, k))
    depth('pool'); drv.count('pool', k); drv.distinct(['pool', p, over, k])

def op_get(t):
    p = rng.choice(POLS); i = rng.randint(0, 7)
    a = getattr(M, 'W%s_get' % p)(i); b = getattr(M, 'W%s_get' % p)(i)
    if spec['reg'] == 'Std' and a is not b: fail('identity', 'two wrappers of one instance')
    if a.getMark() != 100 + i or getattr(M, 'W%s_mark' % p)(b) != 100 + i: fail('get', 'another instance')
    if p == 'plain' and spec['reg'] == 'Null': pass
    depth('get'); drv.count('get')

class MtSub(M.Mt):
    def other(self): pass
class MtOver(M.Mt):
    def virt(self, i): return M.Mt.virt(self, i)
class MsSub(M.Ms): pass
MEET = {
    'function': lambda i: M.m_function(i), 'method': lambda i: M.Mt().method(i), 'const': lambda i: M.Mt().cmethod(i), 'static': lambda i: M.Mt.st(i), 'ctor': lambda i: rng.choice([M.Mt, MtSub])(i).r, 'subctor': lambda i: rng.choice([M.Ms, MsSub])(i).r,
    'fac': lambda i: M.Mf(i).r, 'fam': lambda i: M.Mt().fam(i), 'call': lambda i: M.Mt()(i), 'over': lambda i: M.m_over(i), 'virtual': lambda i: rng.choice([M.Mt, MtSub, MtOver])().virt(i), 'protected': lambda i: MtSub().prot(i)}
MEET.update({'inh': lambda i: M.Mc().minh(i), 'cinh': lambda i: M.Mc().mcinh(i), 'sinh': lambda i: M.Mc.msinh(i), 'other': lambda i: M.Mc().mother(i)})
def m_throw(i):
    try: M.m_throw(i)
    except M.Err as e: return 0
    return fail('throw', 'no exception')
MEET['throw'] = m_throw
def op_meet(t, seq):
    """pairs of threads call the same function, which returns only when both are inside"""
    for what in seq:
        if stop: break
        r = MEET[what](t // 2)
        if r is None or r < 0: break
        depth('meet ' + what); drv.count('met'); drv.distinct(['meet', what])

def worker(t):
    try:
        srng = random.Random('%s/%s/%d' % (drv.SEED, os.path.basename(sys.argv[1]), t // 2))
        for r in range(n):
            if stop: break
            op_meet(t, [srng.choice(sorted(MEET)) for _ in range(6)])
            for _ in range(12):
                if stop: break
                q = rng.random()
                if q < .5: op_fn(t, rng.choice(fns))
                elif q < .65: op_virtual(t)
                elif q < .8: op_run(t)
                elif q < .9: op_pool(t)
                else: op_get(t)
                drv.ev()
            if t == 0: gc.collect()
            if t == 1: problems('round %d' % r)
    except BaseException as e:
        import traceback
        fail('thread:' + type(e).__name__, traceback.format_exc())

for p in POLS:
    for i in range(8): getattr(M, 'W%s_store' % p)(i, 100 + i)
shared = {p: CL[p][1](50) for p in POLS}
poollock = {p: threading.Lock() for p in POLS}
# refcounted policies: the collector looks at the counts, which C++ threads change
gc.collect(); problems('start')
live = {x: c.live(x) for x in ['A', 'R', 'S', 'M', 'E', 'Wplain', 'Wrefm', 'Wstd']}
base_dead = len(dead)
ths = [threading.Thread(target=worker, args=(t,)) for t in range(NT)]
for t in ths: t.start()
for t in ths: t.join()
for q in ('last_type', 'last_value', 'last_traceback', 'last_exc'):
    if hasattr(sys, q): delattr(sys, q)
for _ in range(3): gc.collect()
problems('end')
if not stop:
    now = {x: c.live(x) for x in live}
    if now != live: fail('leak', 'live instances %r become %r' % (live, now))
if printed and set(printed) != {KeyError}: fail('printed', '%r printed' % set(printed))
drv.count('overrides', sum(getattr(s, 'calls', 0) for s in shared.values())); drv.count('override_raised', len(printed)); drv.count('destroyed_in_threads', len(dead))
drv.done()
os._exit(0)     # the watcher does not end
'''


def main():
    ck = Check('C11', 'distinct (kind of call, signature, thrown or not), (kind of rendezvous), (policy, class, number of threads) combinations')
    n = 5 if not THOROUGH else 24

    def one(j):
        rng = random.Random('c11/%s/%d' % (SEED, j))
        spec = make(rng, 24)
        d = os.path.join(scratch(), 'n%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        try:
            handmod.build(d, 'n%d' % j, header(spec), gen(spec), impl=IMPL)
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, '25' if not THOROUGH else '100', ''], timeout=600)
    for j, r in pmap(one, range(n), jobs=4):
        if isinstance(r, Exception):
            ck.build_failed(r, 'n%d' % j)
        else:
            ck.absorb(r, 'n%d' % j)
    ck.require('calls', n * 200)
    ck.require('met', n * 200)
    ck.require('virtual_in_threads', n * 200)
    ck.require('pool', n * 50)
    ck.finish()


main()
