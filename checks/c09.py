"""C09: Python state and cyclic garbage of wrappers: random object graphs through wrappers, Python objects and the C++ side, against a reachability model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import objs, handmod

HEADER = objs.HEAD.split('#define SPEC_H')[1].replace('%(boost)s', '').replace('#include "vflog.h"', '#include <vector>') + r'''
template <int K> struct Base9 : public Tracked {
    mutable int rc; int id;
    Base9(int i) : Tracked("x"), rc(1), id(i) {}
    Base9(const Base9 &o) : Tracked(o), rc(1), id(o.id) {}
    void Ref() const { track.use(); rc++; }
    void Unref() const { track.use(); if (--rc == 0) delete this; }
    int Refs() const { track.use(); return rc; }
    int getSerial() const { track.use(); return serial; }
    int getId() const { track.use(); return id; }
};
#define K9(N, K) struct N : public Base9<K> { N(int i = 0) : Base9<K>(i) {} N(const N &o) : Base9<K>(o) {} };
#define KV9(N, K) struct N : public Base9<K> { N(int i = 0) : Base9<K>(i) {} N(const N &o) : Base9<K>(o) {} \
    virtual int hook(int x) { track.use(); return x + id; } virtual ~N() {} };
K9(A, 1) KV9(V, 2) KV9(R, 3) KV9(Q, 4) K9(RX, 5) K9(Z, 6) K9(P, 7) K9(FX, 8)
struct VD : public V { VD(int i = 0) : V(i) {} VD(const VD &o) : V(o) {} virtual int more(int x) { return x + 7; } };
struct PC : public P { PC(int i = 0) : P(i) {} PC(const PC &o) : P(o) {} };
// a second kind of hierarchy: root not subclassable at all, refcounted
inline void q_ref(const Q *p) { p->Ref(); }
inline void q_unref(const Q *p) { p->Unref(); }
inline int q_refs(const Q *p) { return p->Refs(); }
inline void fx_free(FX *p) { if (p) { p->track.use(); delete p; } }
// a class that can be iterated over
struct C : public Base9<9> {
    std::vector<int> v; C(int i = 0) : Base9<9>(i), v(3, i) {} C(const C &o) : Base9<9>(o), v(o.v) {}
    typedef std::vector<int>::iterator iterator; typedef std::vector<int>::const_iterator const_iterator;
    iterator begin() { track.use(); return v.begin(); } iterator end() { track.use(); return v.end(); }
};
// kill says how the C++ side gives up what it owns
#define SLOTS(N, kill) \
inline N *&N##_slot(int i) { static N *s[3]; return s[i]; } \
inline void N##_drop(int i) { N *p = N##_slot(i); N##_slot(i) = 0; if (p) { kill; } } \
inline void N##_keep(N *x, int i) { N##_drop(i); N##_slot(i) = x; } \
inline N *N##_release(int i) { N *p = N##_slot(i); N##_slot(i) = 0; return p; } \
inline N *N##_borrow(int i) { return N##_slot(i); } \
inline N *N##_ident(N *x) { return x; } \
inline N *N##_make(int id) { return new N(id); } \
inline N N##_makev(int id) { return N(id); } \
inline int N##_use(int i) { return N##_slot(i) ? N##_slot(i)->getSerial() : 0; } \
inline N *N##_take(N *x) { return x; }
#define HOOK(N) inline int N##_hookslot(int i, int x) { return N##_slot(i)->hook(x); } inline int N##_hook(N *p, int x) { return p->hook(x); }
SLOTS(A, delete p) SLOTS(V, delete p) SLOTS(VD, delete p) SLOTS(P, delete p) SLOTS(PC, delete p) SLOTS(FX, delete p) SLOTS(C, delete p)
SLOTS(R, p->Unref()) SLOTS(Q, p->Unref()) SLOTS(RX, p->Unref())
HOOK(V) HOOK(VD) HOOK(R) HOOK(Q)
typedef std::shared_ptr<Z> Z_p;
inline Z_p &Z_slot(int i) { static Z_p s[3]; return s[i]; }
inline void Z_drop(int i) { Z_slot(i).reset(); }
inline void Z_keep(Z_p x, int i) { Z_slot(i) = x; }
inline Z_p Z_release(int i) { Z_p p; p.swap(Z_slot(i)); return p; }
inline Z_p Z_borrow(int i) { return Z_slot(i); }
inline Z_p Z_ident(Z_p x) { return x; }
inline Z_p Z_make(int id) { return Z_p(new Z(id)); }
inline Z_p Z_makev(int id) { return Z_p(new Z(id)); }
inline int Z_use(int i) { return Z_slot(i) ? Z_slot(i)->getSerial() : 0; }
inline std::vector<int> vec(int n) { return std::vector<int>(3, n); }
extern "C" __attribute__((visibility("default"))) const char *vf_alive_list();
'''

GEN = r'''
settings.wrapper_registry = StdMapWrapperRegistry
mod = new_module()
mod.add_container('std::vector<int>', 'int', 'vector')
pols = {'R': lambda: ReferenceCountingMethodsPolicy('Ref', 'Unref', 'Refs'), 'RX': lambda: ReferenceCountingMethodsPolicy('Ref', 'Unref', 'Refs'),
        'Q': lambda: ReferenceCountingFunctionsPolicy('q_ref', 'q_unref', 'q_refs'), 'Z': lambda: StdSharedPtr('::Z'), 'FX': lambda: FreeFunctionPolicy('fx_free')}
K = {}
for N in ('A', 'V', 'VD', 'R', 'Q', 'RX', 'Z', 'P', 'PC', 'FX', 'C'):
    kw = {}
    if N in pols: kw['memory_policy'] = pols[N]()
    if N in ('VD', 'PC'): kw['parent'] = K[{'VD': 'V', 'PC': 'P'}[N]]
    K[N] = c = mod.add_class(N, allow_subclassing=(N != 'P'), **kw)
    c.add_constructor([param('int', 'i')])
    c.add_copy_constructor()
    if N == 'C':
        c.add_container_traits(retval('int'), begin_method='begin', end_method='end', iterator_type='iterator')
    if N not in ('VD', 'PC'):
        for m in ('getSerial', 'getId'): c.add_method(m, retval('int'), [], is_const=True)
    if N in ('V', 'R', 'Q'): c.add_method('hook', retval('int'), [param('int', 'x')], is_virtual=True)
    if N == 'VD': c.add_method('more', retval('int'), [param('int', 'x')], is_virtual=True)
    F = lambda n, r, p: mod.add_function(N + '_' + n, r, p)
    i = lambda n: param('int', n)
    F('drop', None, [i('i')]); F('use', retval('int'), [i('i')])
    if N == 'Z':
        P = 'std::shared_ptr< Z >'
        F('keep', None, [param(P, 'x'), i('i')]); F('ident', retval(P), [param(P, 'x')])
        for n in ('release', 'borrow', 'make', 'makev'): F(n, retval(P), [i('i')])
        continue
    P = N + '*'
    F('keep', None, [param(P, 'x', transfer_ownership=True), i('i')])
    F('release', retval(P, caller_owns_return=True), [i('i')])
    F('borrow', retval(P, reference_existing_object=True), [i('i')])
    F('ident', retval(P, reference_existing_object=True), [param(P, 'x', transfer_ownership=False)])
    F('make', retval(P, caller_owns_return=True), [i('id')]); F('makev', retval(N), [i('id')])
    if N in ('V', 'VD', 'R', 'Q'):
        F('hookslot', retval('int'), [i('i'), i('x')]); F('hook', retval('int'), [param(P, 'x', transfer_ownership=False), i('n')])
mod.add_function('vec', retval('std::vector<int>'), [param('int', 'n')])
emit(mod)
'''

DRIVER = r'''
import sys, random, gc, copy, os, functools, ctypes, weakref
from vf import drv
sys.path.insert(0, sys.argv[1])
seed, nhist, nops = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
import g9 as M
c = drv.CSide(M)
c.lib.vf_alive_list.restype = ctypes.c_char_p
gc.disable()
class Fail(Exception): pass
def no_unraisable(u): UNRAISABLE.append(repr(u.exc_value))
UNRAISABLE = []
sys.unraisablehook = no_unraisable

NAMES = ['A', 'V', 'VD', 'R', 'Q', 'RX', 'Z', 'P', 'PC', 'FX', 'C']
COUNTED = ('R', 'Q', 'RX', 'Z')
VIRT = ('V', 'VD', 'R', 'Q')
F = lambda k, n: getattr(M, k + '_' + n)

# ---- what finalizers do
FIN = []        # (nid) in order of finalization
LAZARUS = []
HOOK = [None]
def finalize(self):
    if not hasattr(self, 'nid'): return
    FIN.append(self.nid)
    beh = getattr(self, 'beh', None)
    if getattr(self, 'own', 0):
        if self.getSerial() != self.serial: raise RuntimeError('finalizer sees another instance')
    if beh == 'gc': gc.collect()
    elif beh == 'lazarus' and not hasattr(self, 'risen'): self.risen = 1; LAZARUS.append(self)
    elif beh == 'peek':
        # whatever wrapper C++ gives out at this point must be usable
        for k in NAMES:
            for i in range(3):
                if F(k, 'use')(i):
                    w = F(k, 'borrow')(i)
                    if w.getSerial() != F(k, 'use')(i): raise RuntimeError('peek')
                    for a in ('nid', 'e0', 'e1', 'e2'): repr(type(getattr(w, a, None)))
    elif beh == 'churn':
        for k in NAMES: F(k, 'make')(1); getattr(M, k)(2)
class PyObj(object):
    __del__ = finalize
    def hook(self): pass
def mkclasses():
    r = {}
    for k in NAMES:
        if k == 'P': continue
        T = getattr(M, k)
        def body(T=T, k=k):
            class S(T):
                def __init__(self, *a): super(S, self).__init__(*a); self.mark = self.getSerial()
                if k in VIRT:
                    def hook(self, x): return x + 1000 + getattr(self, 'mark', -5000)
                if k == 'VD':
                    def more(self, x): return x
                def bound(self): pass
            class D(S):
                __del__ = finalize
            class Sl(S):
                __slots__ = ('s0',)
            return S, D, Sl
        r[k] = body()
    return r
PY = mkclasses()

class Inst(object):
    def __init__(self, serial, id, helper): self.serial, self.id, self.helper, self.slots = serial, id, helper, set()
class Node(object):
    """model of one Python object; inst is None for plain objects and for wrappers whose instance is gone or given away"""
    def __init__(self, nid, kind, flavour):
        self.nid, self.kind, self.flavour = nid, kind, flavour
        self.inst = None; self.edges = {}; self.fin = False; self.dyn = None; self.beh = None; self.fixed = []; self.dict = True; self.borrowed = False; self.risen = False
    def __repr__(self): return '<%d %s %s>' % (self.nid, self.kind, self.flavour)

def wrap(form, o):
    if form == 'direct': return o
    if form == 'list': return [1, [o]]
    if form == 'tuple': return (o,)
    if form == 'dict': return {'k': o}
    if form == 'closure': return lambda x=o: x
    if form == 'bound': return o.getSerial if hasattr(o, 'getSerial') else o.hook
    if form == 'pybound': return o.bound if hasattr(o, 'bound') else [1, [o]]
    if form == 'partial': return functools.partial(print, o)
    if form == 'iter': return iter([o, o])
    if form == 'weak': return o
def unwrap(form, w):
    if form in ('direct', 'weak'): return w
    if form == 'list': return w[1][0]
    if form == 'tuple': return w[0]
    if form == 'dict': return w['k']
    if form == 'closure': return w.__defaults__[0]
    if form == 'bound': return w.__self__
    if form == 'pybound': return w.__self__ if hasattr(w, '__self__') else w[1][0]
    if form == 'partial': return w.args[0]
    if form == 'iter': return w.__reduce__()[1][0][0]
FORMS = ['direct', 'direct', 'list', 'tuple', 'dict', 'closure', 'bound', 'pybound', 'partial', 'iter']

class H(object):
    def __init__(self, rng, auto):
        self.rng, self.auto = rng, auto
        self.nodes = {}; self.insts = {}; self.held = {}; self.n = 0; self.trace = []
        self.slot = {}          # (kind, i) -> Inst
        self.wof = {}           # serial -> Node: the wrapper Python has
        del FIN[:], LAZARUS[:], UNRAISABLE[:]
        self.finseen = 0
    # ---- model
    def roots(self):
        return [self.nodes[n] for n in self.held] + [self.wof[i.serial] for i in self.insts.values() if i.helper and i.slots and i.serial in self.wof]
    def reach(self):
        seen = {}; todo = list(self.roots())
        while todo:
            n = todo.pop()
            if n.nid in seen: continue
            seen[n.nid] = n
            todo += [t for f, t in n.edges.values()] + n.fixed
        return seen
    def expected(self):
        r = self.reach()
        a = set(n.inst.serial for n in r.values() if n.inst is not None and not n.borrowed)
        a |= set(i.serial for i in self.insts.values() if i.slots)
        return r, a
    def alive(self): return set(int(x) for x in c.lib.vf_alive_list().split())
    def check(self, what, exact=False):
        bad, msg = c.bad()
        if bad: raise Fail('lifetime: ' + msg)
        if UNRAISABLE: raise Fail('finalizer failed: ' + UNRAISABLE[0])
        r, must = self.expected()
        for nid in FIN[self.finseen:]:
            if nid in r and not self.nodes[nid].risen and not any(p.nid == nid for p in LAZARUS): raise Fail('finalizer of reachable object %r ran after %s' % (self.nodes[nid], what))
            self.finseen += 1
        a = self.alive()
        if must - a: raise Fail('destroyed though reachable: instances %s after %s' % (sorted(must - a), what))
        if exact and a - must: raise Fail('garbage not collected: instances %s after %s' % (sorted(a - must), what))
        drv.count('states_compared')
        return r
    def collect(self, what='gc.collect'):
        for _ in range(6):
            gc.collect(); gc.collect()
            self.lazarus()
            if not LAZARUS: break
        gc.collect(); self.lazarus(); gc.collect()
        r = self.check(what, True)
        if len(FIN) != len(set(FIN)): raise Fail('finalized twice: %s' % FIN)
        for nid in [n for n in self.nodes if n not in r]:
            n = self.nodes.pop(nid)
            if n.inst is not None and self.wof.get(n.inst.serial) is n: del self.wof[n.inst.serial]
            if n.dyn is not None and n.dyn() is not None: raise Fail('class of collected object %r is still alive' % n)
            if n.flavour in ('del', 'obj') and nid not in FIN: raise Fail('finalizer of %r did not run' % n)
            drv.count('nodes_collected')
        for s in [s for s in self.insts if s not in self.alive()]: del self.insts[s]
        self.walk()
        drv.count('collections')
    def lazarus(self):
        while LAZARUS:
            p = LAZARUS.pop(); n = self.nodes[p.nid]
            todo = [n]; seen = set()      # whatever came back with it was finalized, too
            while todo:
                m = todo.pop()
                if m.nid in seen: continue
                seen.add(m.nid); m.risen = True
                todo += [t for f, t in m.edges.values()] + m.fixed
            drv.count('resurrected'); self.held[n.nid] = p
    def walk(self):
        """compare everything Python can reach with the model"""
        seen = set()
        def go(o, n):
            if n.nid in seen: return
            seen.add(n.nid)
            self.same(o, n)
            for a, (form, t) in list(n.edges.items()):
                if a == 'cls': w = type(o).ref
                elif a == 's0': w = o.s0
                else: w = getattr(o, a)
                if t.kind == 'it':
                    x = next(w, None)
                    if x is not None and x != t.val: raise Fail('iterator gives %r' % x)
                    continue
                go(unwrap(form, w), t)
        for nid, o in list(self.held.items()):
            go(o, self.nodes[nid])
        # objects C++ keeps alive
        for (k, i), inst in self.slot.items():
            if inst.helper:
                n = self.wof[inst.serial]
                if k in VIRT:
                    got = F(k, 'hookslot')(i, 3)
                    if got != 1003 + inst.serial: raise Fail('virtual call on an instance held by C++ gives %r' % got)
                go(self.borrow(k, i), n)
        drv.count('walks')
    def same(self, o, n):
        if n.kind == 'it': return
        if n.dict:
            if getattr(o, 'nid', None) != n.nid: raise Fail('Python state lost: %r has nid %r' % (n, getattr(o, 'nid', None)))
            want = set(a for a in n.edges if a not in ('cls', 's0'))
            have = set(a for a in ('e0', 'e1', 'e2') if hasattr(o, a))
            if want != have: raise Fail('Python state of %r: attributes %s instead of %s' % (n, sorted(have), sorted(want)))
        if n.inst is not None:
            if o.getSerial() != n.inst.serial: raise Fail('%r wraps instance %d instead of %d' % (n, o.getSerial(), n.inst.serial))
            if n.kind in VIRT and n.inst.helper and F(n.kind, 'hook')(o, 1) != 1001 + n.inst.serial: raise Fail('virtual call on %r' % n)
        drv.count('nodes_compared')
    # ---- helpers
    def new(self, py, kind, flavour):
        n = Node(self.n, kind, flavour); self.n += 1
        self.nodes[n.nid] = n
        if kind != 'obj':
            s = py.getSerial()
            if s not in self.insts: self.insts[s] = Inst(s, py.getId(), flavour != 'exact' and kind in VIRT)
            n.inst = self.insts[s]
            self.wof[s] = n
            n.dict = kind != 'P'
        if n.dict:
            py.nid = n.nid
            if n.inst: py.serial = n.inst.serial; py.own = True
        self.held[n.nid] = py
        return n
    def fetch(self):
        """a random reachable object, by a random path from a root"""
        if not self.held: return None, None
        nid = self.rng.choice(sorted(self.held)); o, n = self.held[nid], self.nodes[nid]
        for _ in range(self.rng.randrange(6)):
            e = sorted(a for a in n.edges if n.edges[a][1].kind != 'it')
            if not e: break
            a = self.rng.choice(e); form, t = n.edges[a]
            w = type(o).ref if a == 'cls' else o.s0 if a == 's0' else getattr(o, a)
            o, n = unwrap(form, w), t
        self.same(o, n)
        return o, n
    def setown(self, o, n, own):
        if n.dict: o.own = own
    def adopt(self, py, k, serial, owned):
        """C++ gave out a wrapper of instance serial"""
        if py is None: raise Fail('None')
        if py.getSerial() != serial: raise Fail('instance %d instead of %d' % (py.getSerial(), serial))
        n = self.wof.get(serial)
        if n is not None and n.inst is None: n = None
        mine = getattr(py, 'nid', None)
        reach = self.reach()
        if n is not None and n.nid in reach:
            if mine is not None and mine != n.nid or n.dict and mine is None: raise Fail('another wrapper (nid %r) for the instance of %r' % (mine, n))
        elif n is not None and mine is not None:
            if mine != n.nid: raise Fail('wrapper')
            drv.count('garbage_revived')
        else:
            n = self.new(py, k, 'exact')
        if not owned and not n.inst.helper and k not in COUNTED: n.borrowed = True
        self.setown(py, n, not n.borrowed)
        self.held[n.nid] = py
        return n
    def borrow(self, k, i):
        return F(k, 'borrow')(i)

    # ---- operations
    def op_new(self):
        rng = self.rng; k = rng.choice(NAMES); i = rng.randint(1, 99)
        T = getattr(M, k)
        fl = rng.choice(['exact', 'sub', 'del', 'del', 'slots', 'dyn', 'dyn']) if k != 'P' else 'exact'
        dyn = None
        if fl == 'exact':
            how = rng.choice(['T', 'make', 'makev', 'copy'])
            if how == 'T': py = T(i)
            elif how == 'copy' and k != 'Z': py = copy.copy(T(i))
            else: py = F(k, 'make' if how == 'make' else 'makev')(i)
        elif fl == 'sub': py = PY[k][0](i)
        elif fl == 'del': py = PY[k][1](i)
        elif fl == 'slots': py = PY[k][2](i)
        else:
            D = type('Dyn', (PY[k][0],), {}); py = D(i); dyn = weakref.ref(D); del D
        n = self.new(py, k, fl); n.dyn = dyn
        if fl == 'del':
            n.beh = rng.choice([None, 'gc', 'gc', 'lazarus', 'peek', 'churn'])
            if n.beh: py.beh = n.beh
        return 'new %r' % n
    def op_newobj(self):
        py = PyObj(); n = self.new(py, 'obj', 'obj'); n.beh = self.rng.choice([None, 'gc', 'peek', 'lazarus', 'churn'])
        if n.beh: py.beh = n.beh
        return 'new %r' % n
    def op_link(self):
        o, n = self.fetch(); p, t = self.fetch()
        if o is None or not n.dict: return
        a = self.rng.choice(['e0', 'e1', 'e2'] + (['cls'] if n.flavour == 'dyn' else []) + (['s0'] if n.flavour == 'slots' else []))
        form = self.rng.choice(FORMS)
        if form == 'bound' and t.kind == 'obj': form = 'list'
        if form == 'pybound' and t.flavour in ('exact', 'obj'): form = 'dict'
        if a == 's0' or a[0] == 'e': setattr(o, a, wrap(form, p))
        else: type(o).ref = wrap(form if form not in ('closure', 'bound', 'pybound') else 'list', p); form = form if form not in ('closure', 'bound', 'pybound') else 'list'
        n.edges[a] = (form, t)
        return '%d.%s = %s %d' % (n.nid, a, form, t.nid)
    def op_iter(self):
        o, n = self.fetch(); p, t = self.fetch()
        if o is None or not n.dict or t.kind != 'C' or t.inst is None: return
        it = Node(self.n, 'it', 'it'); self.n += 1; self.nodes[it.nid] = it; it.fixed = [t]; it.val = t.inst.id; it.dict = False
        a = self.rng.choice(['e0', 'e1', 'e2'])
        setattr(o, a, iter(p)); n.edges[a] = ('direct', it)
        return '%d.%s = iter(%d)' % (n.nid, a, t.nid)
    def op_unlink(self):
        o, n = self.fetch()
        if o is None: return
        l = sorted(n.edges)
        if not l: return
        a = self.rng.choice(l)
        if a == 'cls': del type(o).ref
        else: delattr(o, a)
        del n.edges[a]
        return 'del %d.%s' % (n.nid, a)
    def op_hold(self):
        o, n = self.fetch()
        if o is None or n.nid in self.held: return
        self.held[n.nid] = o; return 'hold %d' % n.nid
    def op_drop(self):
        if not self.held: return
        nid = self.rng.choice(sorted(self.held)); o = self.held.pop(nid); del o
        return 'drop %d' % nid
    def op_gc(self):
        self.collect(); return 'gc'
    def op_ident(self):
        o, n = self.fetch()
        if o is None or n.inst is None: return
        r = F(n.kind, 'ident')(o)
        if r is not o: raise Fail('ident gives another object')
        return 'ident'
    def op_keep(self):
        o, n = self.fetch()
        if o is None or n.inst is None or n.borrowed or n.kind == 'C': return     # (iterators would dangle)
        k = n.kind; i = self.rng.randrange(3)
        inst = n.inst
        if k not in COUNTED and inst.slots: return
        if self.slot.get((k, i)) is inst: return
        self.cdrop(k, i)
        if n.inst is None or (k, i) in self.slot: return
        helper = inst.helper
        if k not in COUNTED: self.setown(o, n, False)
        F(k, 'keep')(o, i)
        self.slot[k, i] = inst; inst.slots.add((k, i))
        if k not in COUNTED:
            if helper: o = F(k, 'borrow')(i); n.borrowed = True     # C++ gives the same wrapper back; it can be used again then
            else: n.inst = None; self.wof.pop(inst.serial, None)
        return 'C++ keeps %d in %s slot %d' % (n.nid, k, i)
    def kill_borrowed(self, inst):
        """wrappers that merely borrow the instance become void"""
        n = self.wof.get(inst.serial)
        if n is not None and n.borrowed:
            self.void(n)
    def void(self, n):
        o = self.held.get(n.nid)
        n.inst = None; n.borrowed = False
    def cdrop(self, k, i):
        inst = self.slot.get((k, i))
        if inst is None: return
        n = self.wof.get(inst.serial)
        if k not in COUNTED and n is not None and n.borrowed and not inst.helper: return     # would leave a dangling reference: outside the contract
        if k not in COUNTED and n is not None and inst.helper: self.void(n); self.wof.pop(inst.serial)
        del self.slot[k, i]; inst.slots.discard((k, i))
        F(k, 'drop')(i)
    def op_cdrop(self):
        if not self.slot: return
        k, i = self.rng.choice(sorted(self.slot))
        inst = self.slot[k, i]; n = self.wof.get(inst.serial)
        if k not in COUNTED and n is not None and n.borrowed and not inst.helper: return
        self.cdrop(k, i)
        return 'C++ drops %s slot %d' % (k, i)
    def op_release(self):
        if not self.slot: return
        k, i = self.rng.choice(sorted(self.slot)); inst = self.slot[k, i]
        n = self.wof.get(inst.serial)
        if k not in COUNTED and n is not None and n.borrowed and not inst.helper: return
        py = F(k, 'release')(i)
        # the wrapper is looked up before the model gives up the slot: the slot was a root
        if n is not None and inst.helper:
            if getattr(py, 'nid', None) != n.nid: raise Fail('released object lost its Python identity')
            self.held[n.nid] = py; n.borrowed = False; self.setown(py, n, True)
        del self.slot[k, i]; inst.slots.discard((k, i))
        if not (n is not None and inst.helper): self.adopt(py, k, inst.serial, True)
        return 'release %s slot %d' % (k, i)
    def op_borrow(self):
        if not self.slot: return
        k, i = self.rng.choice(sorted(self.slot)); inst = self.slot[k, i]
        self.adopt(self.borrow(k, i), k, inst.serial, False)
        return 'borrow %s slot %d' % (k, i)
    def op_dying(self):
        """a wrapper dies while C++ still has its instance; the finalizer of something it holds asks C++ for it"""
        k = self.rng.choice(['R', 'Q', 'RX', 'Z']); i = self.rng.randrange(3)
        self.cdrop(k, i)
        py = getattr(M, k)(self.rng.randint(1, 99)) if self.rng.random() < .5 else PY[k][0](self.rng.randint(1, 99)) if k in ('RX', 'Z') else F(k, 'make')(3)
        n = self.new(py, k, 'exact' if type(py) is getattr(M, k) else 'sub')
        o = PyObj(); t = self.new(o, 'obj', 'obj'); o.beh = t.beh = 'peek'
        py.e0 = o; n.edges['e0'] = ('direct', t)
        F(k, 'keep')(py, i); self.slot[k, i] = n.inst; n.inst.slots.add((k, i))
        if self.rng.random() < .3: py.e1 = py; n.edges['e1'] = ('direct', n)
        del self.held[t.nid], self.held[n.nid]
        del o, py
        return 'new %d in %s slot %d with %d, both dropped' % (n.nid, k, i, t.nid)
    def op_ring(self):
        """tie a few reachable objects into a ring and let go of them"""
        l = [self.fetch() for _ in range(self.rng.randint(1, 4))]
        l = [(o, n) for o, n in l if o is not None and n.dict]
        if not l: return
        for j in range(len(l)):
            o, n = l[j]; p, t = l[(j + 1) % len(l)]
            o.e2 = p; n.edges['e2'] = ('direct', t)
        for o, n in l: self.held.pop(n.nid, None)
        return 'ring of %s' % [n.nid for o, n in l]

    def run(self, nops):
        ops = [(getattr(self, n), n[3:]) for n in sorted(dir(self)) if n.startswith('op_')]
        ops += [(self.op_new, 'new'), (self.op_new, 'new'), (self.op_new, 'new'), (self.op_link, 'link'), (self.op_link, 'link'), (self.op_link, 'link'), (self.op_drop, 'drop'), (self.op_drop, 'drop'), (self.op_keep, 'keep'), (self.op_ring, 'ring'), (self.op_iter, 'iter')]
        if self.auto: gc.set_threshold(self.rng.choice([1, 3, 7, 20]), 2, 2); gc.enable()
        what = '?'
        try:
            for _ in range(nops):
                f, what = self.rng.choice(ops)
                drv.op({'k': what, 'trace': self.trace[-25:]})
                t = f()
                if t is None: continue
                self.trace.append(t); drv.ev(); drv.count('op_' + what)
                self.lazarus()
                self.check(t)
                r = self.reach()
                drv.distinct([what, sorted((n.kind, n.flavour, len(n.edges), bool(n.inst)) for n in r.values())])
            what = 'end'
            self.held.clear()
            self.collect('dropping everything')
            for _ in range(5):
                for k, i in sorted(self.slot): self.cdrop(k, i)
                self.held.clear(); self.collect('C++ dropped everything')
            while self.held:            # the risen
                self.held.clear(); self.collect('the end')
            if self.alive(): raise Fail('garbage not collected: %s at the end' % sorted(self.alive()))
            drv.count('histories')
            return True
        except Fail as e:
            drv.violation('%s:%s' % (what, str(e).split(':')[0][:40]), '%s\n   history: %s' % (e, '; '.join(self.trace[-40:])), self.trace)
            return False
        finally:
            gc.disable()

for h in range(nhist):
    if not H(random.Random('%s/%s/%d' % (drv.SEED, seed, h)), h % 3 == 2).run(nops): break

drv.done()
'''


def main():
    ck = Check('C09', 'distinct (operation, shape of the reachable object graph) combinations')
    d = os.path.join(scratch(), 'g9')
    try:
        handmod.build(d, 'g9', HEADER, GEN, impl=objs.IMPL)
    except Exception as e:
        ck.build_failed(e, 'g9')
        ck.finish()
    drvf = write(os.path.join(d, 'driver_.py'), DRIVER)
    jobs = list(range(8 if not THOROUGH else 24))
    one = lambda j: drive(drvf, d, 'asan', [d, str(j), str(20 if not THOROUGH else 120), '70'], timeout=800)
    for j, r in zip(jobs, pmap(one, jobs)):
        ck.absorb(r, 'job %d' % j)
    ck.require('histories', len(jobs) * 15)
    ck.require('nodes_collected', 2000)
    ck.require('walks', 500)
    ck.require('nodes_compared', 5000)
    ck.finish()


main()
