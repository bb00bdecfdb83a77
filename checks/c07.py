"""C07: objects from C++ arrive as their most specific known class: random hierarchies, hidden classes, every way out of C++."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

PLACES = ['', '', 'na', 'na::nb', 'nc', 'Box']
ORDER = {'': 0, 'Box': 0, 'na': 1, 'na::nb': 2, 'nc': 3}


def make(rng, j):
    cl, groups = [], []
    spec = {'classes': cl, 'registry': rng.random() < .4, 'setting': rng.random() < .3, 'abi': j % 5 != 4}
    for g, policy in enumerate(['plain', 'plain', 'refm', 'reff', 'free', 'std', 'boost']):
        smart = policy in ('std', 'boost')
        grp = {'policy': policy, 'sub': rng.random() < .6 and not smart, 'root': len(cl)}
        if policy == 'boost' and not os.path.exists('/usr/include/boost/shared_ptr.hpp'): continue
        groups.append(grp)
        mine = []
        # half of the trees begin with a narrowing chain of known and unknown classes
        skel = rng.choice([['reg', 'reg', 'hidden', 'hidden'], ['reg', 'hidden', 'reg', 'hidden', 'hidden'], ['reg', 'reg', 'hidden', 'reg', 'hidden', 'hmi']]) if rng.random() < .5 and not smart else []
        for _ in range(rng.randint(5, 8)):
            i = len(cl)
            b = None if not mine else mine[-1] if rng.random() < .6 else rng.choice(mine)
            kind = 'reg' if b is None or (rng.random() < .5 and not smart) else rng.choice(['hidden'] * 6 + ['hmi', 'hoff', 'hvirt'])
            if skel and len(mine) < len(skel):
                if mine: b = mine[-1]
                kind = skel[len(mine)]
            # a class below one that is not at the start of the object cannot be declared
            if b is not None and cl[b]['kind'] in ('hoff', 'hvirt') and kind == 'reg': kind = 'hidden'
            if b is not None and any(cl[x]['kind'] in ('hoff', 'hvirt') for x in up(cl, b)) and kind == 'reg': kind = 'hidden'
            rb = next((x for x in up(cl, b) if cl[x]['kind'] == 'reg'), None) if b is not None else None
            c = {'i': i, 'n': 'C%d' % i, 'g': g, 'base': b, 'rbase': rb, 'kind': kind, 'policy': policy, 'sub': grp['sub'], 'magic': rng.randint(1, 10**9), 'fill': rng.choice(['int', 'double', 'std::string', 'char'])}
            if kind == 'reg':
                c['place'] = rng.choice([p for p in PLACES if rb is None or ORDER[p] >= ORDER[cl[rb]['place']]])
                c['nar'] = rng.choice([True, True, True, False, None]) if rb is None else rng.choice([None] * 6 + [True, False])
                if len(mine) < len(skel): c['nar'] = None if mine else True
                if smart: c['nar'] = rng.random() < .7
                c['virt'] = rng.random() < .4 and not smart and grp['sub']
            else: c['place'] = rng.choice(['', 'hid'])
            cl.append(c)
            mine.append(i)
    spec['groups'] = groups
    for c in cl:
        if c['kind'] == 'reg':
            c['isnar'] = c['nar'] if c['nar'] is not None else cl[c['rbase']]['isnar'] if c['rbase'] is not None else spec['setting']
    return spec


def up(cl, i):
    while i is not None:
        yield i
        i = cl[i]['base']


def expected(spec, s, d):
    """class of the wrapper for an instance of class d handed out as class s"""
    cl = spec['classes']
    if not cl[s]['isnar']: return s

    def root(k):
        while cl[k]['rbase'] is not None and cl[cl[k]['rbase']]['isnar']: k = cl[k]['rbase']
        return k
    r = root(s)
    if not spec['abi']:
        return d if cl[d]['kind'] == 'reg' and cl[d]['isnar'] and root(d) == r else s
    for x in up(cl, d):
        if x == s: return s
        if cl[x]['kind'] == 'reg' and cl[x]['isnar'] and root(x) == r: return x
        # several or virtual bases: only the class itself can be known, not where its bases are
        if cl[x]['kind'] in ('hmi', 'hoff', 'hvirt'): return s
    return s


def full(c):
    return (c['place'] + '::' if c['place'] else '') + c['n']


def down(cl, s):
    return [c['i'] for c in cl if s in up(cl, c['i'])]


PTR = {'std': 'std::shared_ptr< %s >', 'boost': 'boost::shared_ptr< %s >'}


def cpp(spec):
    cl = spec['classes']
    o = '#include <memory>\n#include <typeinfo>\n'
    if any(c['policy'] == 'boost' for c in cl): o += '#include <boost/shared_ptr.hpp>\n'
    o += 'struct Other { long pad; Other() : pad(77) {} virtual ~Other() {} virtual void oth() {} };\n'
    o += 'struct Box { Box() {} %s };\n' % ' '.join('struct %s;' % c['n'] for c in cl if c['place'] == 'Box')
    for c in cl:
        F, n, i = full(c), c['n'], c['i']
        ns = [p for p in c['place'].split('::') if p and p != 'Box']
        o += ''.join('namespace %s { ' % p for p in ns)
        b = cl[c['base']] if c['base'] is not None else None
        bases = ''
        if b:
            k = c['kind']
            bases = ' : ' + {'hmi': 'public ::%s, public Other', 'hoff': 'public Other, public ::%s', 'hvirt': 'public virtual ::%s'}.get(k, 'public ::%s') % full(b)
        o += 'struct %s%s {\n' % (n if ns else F, bases)
        if not b:
            o += '  vf::Track track; mutable int refs; int mut; %s() : track("%s"), refs(1), mut(0) {} %s(const %s &o) : track("%s"), refs(1), mut(o.mut) {} virtual ~%s() {}\n' % (n, n, n, n, n, n)
            o += '  int refcnt() const { return refs; } void ref() const { track.use(); refs++; } void unref() const { track.use(); if (!--refs) delete this; }\n'
        else:
            o += '  %s() {}\n' % n
        o += '  %s fill%d = %s(); int magic%d = %d;\n' % (c['fill'], i, c['fill'], i, c['magic'])
        o += '  virtual int kind() const { return %d; }\n' % i
        # the chain of levels, as seen from this class
        o += '  int level%d() { track.use(); return magic%d == %d ? %d : -1; }\n' % (i, i, c['magic'], i)
        o += '  virtual int vm%d() { track.use(); return magic%d == %d ? %d : -1; }\n' % (i, i, c['magic'], i)
        o += '};\n' + '}' * len(ns) + '\n'
        if not b and c['policy'] == 'reff': o += 'inline void ref_%s(const %s *x) { x->ref(); } inline void unref_%s(const %s *x) { x->unref(); }\n' % (n, F, n, F)
        if not b and c['policy'] == 'free': o += 'inline void free_%s(%s *x) { vf::ev("free"); delete x; }\n' % (n, F)
    o2 = ''
    for c in cl:
        if c['kind'] != 'reg': continue
        F, n, i = full(c), c['n'], c['i']
        cases = ''.join('case %d: return new ::%s; ' % (d, full(cl[d])) for d in down(cl, i))
        o += 'inline %s *make_%s(int k) { switch (k) { %s default: return NULL; } }\n' % (F, n, cases)
        o += 'inline std::map<int, %s*> &store_%s() { static std::map<int, %s*> m; return m; }\n' % (F, n, F)
        o += 'inline %s *get_%s(int k) { if (k < 0) return NULL; %s *&p = store_%s()[k]; if (!p) p = make_%s(k); return p; }\n' % (F, n, F, n, n)
        o += 'inline int kind_%s(const %s &x) { return x.kind(); } inline int pkind_%s(%s *x) { return x->kind() * 10 + (x->magic%d == %d); }\n' % (n, F, n, F, i, c['magic'])
        un = {'plain': 'delete i->second', 'free': 'free_%s(i->second)' % cl[spec['groups'][c['g']]['root']]['n'], 'std': 'delete i->second', 'boost': 'delete i->second'}.get(c['policy'], 'i->second->unref()')
        o += 'inline void drop_%s() { for (std::map<int, %s*>::iterator i = store_%s().begin(); i != store_%s().end(); ++i) if (i->second) { %s; } store_%s().clear(); }\n' % (n, F, n, n, un, n)
        o += 'inline int mutof_%s(int k) { return get_%s(k)->mut; } inline int muts_%s(%s *x) { return ++x->mut; }\n' % (n, n, n, F)
        if c['policy'] in PTR:
            P = PTR[c['policy']] % F
            o += 'inline %s sp_%s(int k) { return %s(make_%s(k)); }\n' % (P, n, P, n)
            o += 'inline int spkind_%s(%s x) { return x ? x->kind() : -5; }\n' % (n, P)
            o += 'struct V%d { V%d() {} virtual ~V%d() {} int n = 0; virtual void sp(%s x) { n++; } virtual %s rsp() { return %s(); } void go_sp(int k) { sp(sp_%s(k)); } int go_rsp() { %s p = rsp(); return p ? p->kind() : -5; } };\n' % (i, i, i, P, P, P, n, P)
            continue
        rc = c['policy'] in ('refm', 'reff')
        keep = '->ref()' if rc else ''
        o += 'inline %s *own_%s(int k) { return make_%s(k); } inline const %s *cown_%s(int k) { return make_%s(k); }\n' % (F, n, n, F, n, n)
        o += 'inline %s *bor_%s(int k) { return get_%s(k); } inline const %s *cbor_%s(int k) { return get_%s(k); }\n' % (F, n, n, F, n, n)
        o += 'inline %s &rf_%s(int k) { return *get_%s(k); } inline %s const &crf_%s(int k) { return *get_%s(k); }\n' % (F, n, n, F, n, n)
        o += 'struct H%d { H%d() : at(NULL), val() {} ~H%d() {} %s *at; %s val; %s *m_own(int k) { return make_%s(k); } %s *m_bor(int k) const { return get_%s(k); } static %s *s_own(int k) { return make_%s(k); } %s &m_rf(int k) { return *get_%s(k); } void fill(int k) { at = get_%s(k); } };\n' % (i, i, i, F, F, F, n, F, n, F, n, F, n, n)
        # virtual methods: every way an object is given to an override
        o += 'struct V%d { V%d() : n(0), got(0) {} virtual ~V%d() {} int n; int got;\n' % (i, i, i)
        o += '  virtual void own(%s *x) { n++; if (x) { %s; } }\n' % (F, {'plain': 'delete x', 'free': 'free_%s(x)' % cl[spec['groups'][c['g']]['root']]['n']}.get(c['policy'], 'x->unref()'))
        o += '  virtual void bor(%s *x) { n++; } virtual void cbor(const %s *x) { n++; } virtual void io(%s *x) { n++; if (x) x->mut++; } virtual void rf(%s &x) { n++; } virtual void crf(const %s &x) { n++; } virtual void rio(%s &x) { n++; x.mut++; } virtual void val(%s x) { n++; }\n' % ((F,) * 7)
        o += '  virtual int bor2(%s *x, int y, %s *z) { return y; }\n' % (F, F)
        o += '  void go_own(int k) { own(make_%s(k)); } void go_bor(int k) { bor(get_%s(k)); } void go_cbor(int k) { cbor(get_%s(k)); } void go_io(int k) { io(get_%s(k)); } void go_rf(int k) { rf(*get_%s(k)); } void go_crf(int k) { crf(*get_%s(k)); } void go_rio(int k) { rio(*get_%s(k)); } void go_val(int k) { val(*get_%s(k)); } int go_bor2(int k, int y, int l) { return bor2(get_%s(k), y, get_%s(l)); }\n' % ((n,) * 10)
        o += '};\n'
    o += 'inline void drop_all() { %s }\n' % ' '.join('drop_%s();' % c['n'] for c in cl if c['kind'] == 'reg')
    return o


GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
cl = spec['classes']
settings.wrapper_registry = StdMapWrapperRegistry if spec['registry'] else NullWrapperRegistry
settings.automatic_type_narrowing = spec['setting']
settings.gcc_rtti_abi_complete = spec['abi']
mod = new_module()
na = mod.add_cpp_namespace('na'); nb = na.add_cpp_namespace('nb'); nc = mod.add_cpp_namespace('nc')
Box = mod.add_class('Box', automatic_type_narrowing=False); Box.add_constructor([])
K = {}
PTR = {'std': 'std::shared_ptr< %s >', 'boost': 'boost::shared_ptr< %s >'}
def full(c): return (c['place'] + '::' if c['place'] else '') + c['n']
for c in cl:
    if c['kind'] != 'reg': continue
    n = c['n']
    kw = {}
    if c['nar'] is not None: kw['automatic_type_narrowing'] = c['nar']
    if c['rbase'] is not None: kw['parent'] = K[c['rbase']]
    else:
        kw['allow_subclassing'] = c['sub']
        p = c['policy']
        if p == 'refm': kw['memory_policy'] = ReferenceCountingMethodsPolicy('ref', 'unref', 'refcnt')
        if p == 'reff': kw['memory_policy'] = ReferenceCountingFunctionsPolicy('ref_' + n, 'unref_' + n)
        if p == 'free': kw['memory_policy'] = FreeFunctionPolicy('free_' + n)
        if p == 'std': kw['memory_policy'] = StdSharedPtr('::' + full(c))
        if p == 'boost': kw['memory_policy'] = BoostSharedPtr('::' + full(c))
    if c['place'] == 'Box': k = mod.add_class(n, outer_class=Box, **kw)
    else: k = {'': mod, 'na': na, 'na::nb': nb, 'nc': nc}[c['place']].add_class(n, **kw)
    K[c['i']] = k
    k.add_constructor([])
    k.add_copy_constructor()
    k.add_method('level%d' % c['i'], retval('int'), [])
    k.add_method('kind', retval('int'), [], is_const=True)
    k.add_instance_attribute('mut', 'int')
    if c['virt']: k.add_method('vm%d' % c['i'], retval('int'), [], is_virtual=True)
    else: k.add_method('vm%d' % c['i'], retval('int'), [])
for c in cl:
    if c['kind'] != 'reg': continue
    F, n, i = full(c), c['n'], c['i']
    rc = c['policy'] in ('refm', 'reff')
    k1 = [param('int', 'k')]
    mod.add_function('kind_' + n, retval('int'), [param('const %s&' % F, 'x')])
    if c['policy'] in PTR:
        P = PTR[c['policy']] % F
        mod.add_function('sp_' + n, retval(P), k1)
        mod.add_function('spkind_' + n, retval('int'), [param(P, 'x', null_ok=True)])
        V = mod.add_class('V%d' % i, allow_subclassing=True, automatic_type_narrowing=False); V.add_constructor([])
        V.add_method('sp', None, [param(P, 'x')], is_virtual=True); V.add_method('go_sp', None, k1)
        V.add_method('rsp', retval(P), [], is_virtual=True); V.add_method('go_rsp', retval('int'), [])
        continue
    mod.add_function('pkind_' + n, retval('int'), [param(F + '*', 'x', transfer_ownership=False)])
    mod.add_function('muts_' + n, retval('int'), [param(F + '*', 'x', transfer_ownership=False)])
    mod.add_function('mutof_' + n, retval('int'), k1)
    H = mod.add_class('H%d' % i, automatic_type_narrowing=False); H.add_constructor([])
    bk = {'caller_owns_return': False} if rc else {'reference_existing_object': True}
    for w, pre in ((mod, 'own_' + n), (mod, 'c'), (H, 'm_own'), (H, 's_own')):
        if pre == 'c': mod.add_function('cown_' + n, retval('const %s*' % F, caller_owns_return=True), k1)
        elif w is mod: mod.add_function(pre, retval(F + '*', caller_owns_return=True), k1)
        else: H.add_method(pre, retval(F + '*', caller_owns_return=True), k1, is_static=pre == 's_own')
    mod.add_function('bor_' + n, retval(F + '*', **bk), k1)
    mod.add_function('cbor_' + n, retval('const %s *' % F, **bk), k1)
    H.add_method('m_bor', retval(F + '*', **bk), k1, is_const=True)
    mod.add_function('cpy_' + n, retval(F + '*', caller_owns_return=False), k1, foreign_cpp_namespace='') if 0 else mod.add_function('bor_' + n, retval(F + '*', caller_owns_return=False), k1, custom_name='cpy_' + n)
    mod.add_function('rf_' + n, retval(F + '&', reference_existing_object=True), k1)
    mod.add_function('crf_' + n, retval('%s const &' % F, reference_existing_object=True), k1)
    H.add_method('m_rf', retval(F + '&', reference_existing_object=True), k1)
    H.add_method('fill', None, k1)
    if rc: H.add_instance_attribute('at', retval(F + '*', caller_owns_return=False))
    else: H.add_instance_attribute('at', retval(F + '*', reference_existing_object=True))
    H.add_instance_attribute('val', retval(F, reference_existing_object=True) if 0 else F)
    V = mod.add_class('V%d' % i, allow_subclassing=True, automatic_type_narrowing=False); V.add_constructor([])
    pp = lambda d, **kw: [param(d % F, 'x', **kw)]
    V.add_method('own', None, pp('%s*', transfer_ownership=True), is_virtual=True)
    V.add_method('bor', None, pp('%s*', transfer_ownership=False, null_ok=True), is_virtual=True)
    V.add_method('cbor', None, pp('const %s*', transfer_ownership=False), is_virtual=True)
    V.add_method('io', None, pp('%s*', transfer_ownership=False, direction=INOUT), is_virtual=True)
    V.add_method('rf', None, pp('%s&'), is_virtual=True)
    V.add_method('crf', None, pp('%s const &'), is_virtual=True)
    V.add_method('rio', None, pp('%s &', direction=INOUT), is_virtual=True)
    V.add_method('val', None, pp('%s'), is_virtual=True)
    V.add_method('bor2', retval('int'), [param(F + '*', 'x', transfer_ownership=False), param('int', 'y'), param(F + '*', 'z', transfer_ownership=False)], is_virtual=True)
    for q in ('own', 'bor', 'cbor', 'io', 'rf', 'crf', 'rio', 'val'): V.add_method('go_' + q, None, k1)
    V.add_method('go_bor2', retval('int'), k1 + [param('int', 'y'), param('int', 'l')])
mod.add_function('drop_all', None, [])
emit(mod)
'''

DRIVER = r'''
import sys, os, json, random, gc
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1])); c = drv.CSide(M)
spec = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
cl = spec['classes']; EXP = spec['exp']; DOWN = spec['down']
rng = random.Random('%s/%s' % (drv.SEED, os.path.basename(sys.argv[1])))
class Fail(Exception): pass
def at(path):
    o = M
    for p in path.split('::') if path else []: o = getattr(o, p)
    return o
T = dict((k['i'], getattr(at(k['place']), k['n'])) for k in cl if k['kind'] == 'reg')
NAR = dict((t, i) for i, t in T.items())
def ups(i):
    while i is not None:
        yield i
        i = cl[i]['rbase']
sys.excepthook = lambda t, v, tb: ERR.append('%s: %s' % (t.__name__, v))
ERR = []
def levels(what, o, i, dyn):
    """o has to be usable as every class it is an instance of"""
    for u in ups(i):
        if getattr(o, 'level%d' % u)() != u: raise Fail('%s: level%d() does not find its own object' % (what, u))
        if getattr(o, 'vm%d' % u)() != u: raise Fail('%s: vm%d() does not find its own object' % (what, u))
        if not isinstance(o, T[u]): raise Fail('%s: is not an instance of C%d' % (what, u))
        if getattr(M, 'kind_C%d' % u)(o) != dyn: raise Fail('%s: C++ sees kind %r' % (what, getattr(M, 'kind_C%d' % u)(o)))
        if cl[u]['policy'] not in ('std', 'boost'):
            r = getattr(M, 'pkind_C%d' % u)(o)
            if r != dyn * 10 + 1: raise Fail('%s: pkind_C%d gives %r' % (what, u, r))
    if o.kind() != dyn: raise Fail('%s: kind() gives %r' % (what, o.kind()))
def check(what, o, s, d, want, dyn=None, same=()):
    """want: acceptable classes"""
    drv.op({'k': what}); drv.ev(); drv.distinct([what, s, d])
    if d < 0:
        if o is not None: raise Fail('%s: %r instead of None for a NULL pointer' % (what, o))
        drv.count('nulls')
        return
    if type(o) not in [T[w] for w in want]: raise Fail('%s: an instance of C%d seen as C%d arrives as %s instead of %s' % (what, d, s, type(o).__name__, '/'.join('C%d' % w for w in want)))
    if NAR[type(o)] != s: drv.count('narrowed')
    if cl[d]['kind'] != 'reg': drv.count('hidden')
    levels('%s (C%d as C%d)' % (what, d, s), o, NAR[type(o)], d if dyn is None else dyn)
def returns(s, d):
    k, n, x = cl[s], cl[s]['n'], EXP['%d/%d' % (s, d)] if d >= 0 else s
    H = getattr(M, 'H%d' % s)() if k['policy'] not in ('std', 'boost') else None
    rc = k['policy'] in ('refm', 'reff')
    if H is None:
        o = getattr(M, 'sp_' + n)(d); check('sp', o, s, d, [x])
        if getattr(M, 'spkind_' + n)(o) != (d if d >= 0 else -5): raise Fail('sp_%s(%d): passes back as %r' % (n, d, getattr(M, 'spkind_' + n)(o)))
        return
    for w, f in (('own', getattr(M, 'own_' + n)), ('cown', getattr(M, 'cown_' + n)), ('m_own', H.m_own), ('s_own', H.s_own), ('s_own2', type(H).s_own)):
        a = f(d); b = f(d)
        check(w, a, s, d, [x]); check(w, b, s, d, [x])
        if d >= 0:
            if a is b: raise Fail('%s: two instances, one wrapper' % w)
            a.mut = 5
            if b.mut or getattr(M, 'muts_' + n)(a) != 6: raise Fail('%s: not the object itself' % w)
    both = [x] if rc else [s, x]
    fs = [('bor', getattr(M, 'bor_' + n)), ('cbor', getattr(M, 'cbor_' + n)), ('m_bor', H.m_bor)]
    if d >= 0: fs += [('rf', getattr(M, 'rf_' + n)), ('crf', getattr(M, 'crf_' + n)), ('m_rf', H.m_rf)]
    def viaat(k):
        H.fill(k)
        return H.at
    fs.append(('at', viaat))
    kept = None
    for w, f in fs:
        o = f(d); check(w, o, s, d, both)
        if d >= 0:
            v = getattr(M, 'mutof_' + n)(d)
            o.mut = v + 1
            if getattr(M, 'mutof_' + n)(d) != v + 1: raise Fail('%s: a change through the wrapper does not reach the object' % w)
            if kept is not None and spec['registry'] and kept is not o: raise Fail('%s: a second wrapper for one instance, with a wrapper registry' % w)
            kept = o
    del o
    kept = None
    if not rc:
        o = getattr(M, 'cpy_' + n)(d); check('cpy', o, s, d, [s], s)
        if d >= 0:
            v = getattr(M, 'mutof_' + n)(d); o.mut = v + 9
            if getattr(M, 'mutof_' + n)(d) != v: raise Fail('cpy: not a copy')
    check('val', H.val, s, s, [s])
def overrides(s, d):
    k, n, x = cl[s], cl[s]['n'], EXP['%d/%d' % (s, d)] if d >= 0 else s
    V = getattr(M, 'V%d' % s)
    rc = k['policy'] in ('refm', 'reff')
    if k['policy'] in ('std', 'boost'):
        class P(V):
            def sp(self, o): check('sp arg', o, s, d, [x]); got.append(o)
            def rsp(self): return got[0]
        got = []
        p = P(); p.go_sp(d)
        if ERR: raise Fail('override of sp: ' + ERR[0])
        if len(got) != 1: raise Fail('the override of sp ran %d times' % len(got))
        if d >= 0:
            levels('sp arg, later', got[0], NAR[type(got[0])], d)
            if p.go_rsp() != d: raise Fail('returned smart pointer of kind %d' % d)
        if ERR: raise Fail('override of rsp: ' + ERR[0])
        return
    keep = rng.random() < .5
    got = []; kept = []
    copy = dict(want=[s], dyn=s)
    class P(V):
        def take(self, w, o, want, dyn=None):
            check(w, o, s, d, want, dyn)
            got.append(w)
            if keep: kept.append((w, o, dyn))
            elif o is not None: o.mut = o.mut + 3
        def own(self, o): self.take('own arg', o, [x])
        def bor(self, o): self.take('bor arg', o, [x]) if rc else self.take('bor arg', o, [s], s)
        def cbor(self, o): self.take('cbor arg', o, [x]) if rc else self.take('cbor arg', o, [s], s)
        def io(self, o):
            self.take('io arg', o, [x] if rc else [s, x])
            if o is not None: o.mut = 1000
        def rf(self, o): self.take('rf arg', o, [s, x], s if type(o) is T[s] and o.kind() == s else None)
        crf = rf
        def rio(self, o):
            self.take('rio arg', o, [s, x]); o.mut = 2000
        def val(self, o): self.take('val arg', o, [s], s)
        def bor2(self, a, y, z):
            if (a is None) != (d < 0) or z is not None or y != 55: raise Fail('bor2 got %r' % ((a, y, z),))
            return 66
    p = P()
    for w in ('own', 'bor', 'cbor', 'io') + (('rf', 'crf', 'rio', 'val') if d >= 0 else ()):
        drv.op({'k': 'override', 'w': w, 's': s, 'd': d, 'keep': keep})
        del got[:]
        getattr(p, 'go_' + w)(d)
        if ERR: raise Fail('override of %s (C%d as C%d): %s' % (w, d, s, ERR[0]))
        if len(got) != 1: raise Fail('the override of %s ran %d times' % (w, len(got)))
        if d >= 0:
            m = getattr(M, 'mutof_' + n)(d)
            if w == 'io' and m != 1000: raise Fail('io: what the override does to an inout pointer argument is lost')
            if w == 'rio' and m != 2000: raise Fail('rio: what the override does to an inout reference argument is lost')
        drv.count('override_calls')
    if p.go_bor2(d, 55, -1) != 66 or ERR: raise Fail('bor2: %s' % ERR)
    # what was kept stays usable (temporary wrappers got a copy of their own)
    for w, o, dyn in kept:
        if o is None: continue
        drv.op({'k': 'kept ' + w, 's': s, 'd': d})
        i = NAR[type(o)]
        if w.startswith(('io', 'rio')) and not rc: dyn = o.kind()
        for u in ups(i):
            if getattr(o, 'level%d' % u)() != u: raise Fail('%s, kept: level%d() does not find its own object' % (w, u))
        if dyn is not None and o.kind() != dyn: raise Fail('%s, kept: of kind %d' % (w, o.kind()))
        o.mut = 4
        drv.count('kept')
def pysub(s):
    """Python subclass instances come back as they are"""
    k = cl[s]
    if not k['sub'] or k['policy'] in ('std', 'boost'): return
    class P(T[s]): pass
    p = P(); p.x = 1
    levels('Python subclass', p, s, s)
def clean(what):
    gc.collect(); M.drop_all(); gc.collect(); c.log()
    if c.live_total(): raise Fail('%s: %d instances left' % (what, c.live_total()))
    n, m = c.bad()
    if n: raise Fail('%s: %s' % (what, m))
try:
    for r in range(int(sys.argv[2])):
        for s in sorted(T):
            for d in DOWN[str(s)] + [-1]:
                returns(s, d)
                clean('returns C%d as C%d' % (d, s))
                overrides(s, d)
                clean('overrides C%d as C%d' % (d, s))
            pysub(s)
        clean('all')
except Fail as e:
    drv.violation(str(e).split(':')[0].split('(')[0][:50], str(e), {'classes': [(k['n'], k['base'], k['kind'], k['policy'], k.get('nar')) for k in cl], 'registry': spec['registry'], 'setting': spec['setting']})
drv.sample([(k['n'], k['base'], k['kind'], k['policy']) for k in cl][:8])
drv.done()
'''


def main():
    ck = Check('C07', 'distinct (way out of C++, declared class, dynamic class) combinations')
    n = 7 if not THOROUGH else 40

    def one(j):
        rng = random.Random('c07/%s/%d' % (SEED, j))
        spec = make(rng, j)
        cl = spec['classes']
        regs = [c['i'] for c in cl if c['kind'] == 'reg']
        spec['down'] = {s: down(cl, s) for s in regs}
        spec['exp'] = {'%d/%d' % (s, d): expected(spec, s, d) for s in regs for d in down(cl, s)}
        d = os.path.join(scratch(), 'n%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        try:
            handmod.build(d, 'n%d' % j, cpp(spec), GEN)
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, '1' if not THOROUGH else '3'], timeout=800)
    for j, r in pmap(one, range(n)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'n%d' % j)
        else:
            ck.absorb(r, 'n%d' % j)
    ck.require('narrowed', n * 100)
    ck.require('hidden', n * 100)
    ck.require('nulls', n * 50)
    ck.require('override_calls', n * 100)
    ck.require('kept', n * 50)
    ck.finish()


main()
