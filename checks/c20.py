"""C20: types shared by several extension modules behave as one type: random hierarchies spread over three modules."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

PLACES = ['', '', 'na', 'na::nb', 'nc']
ORDER = {'': 0, 'na': 1, 'na::nb': 2, 'nc': 3}


def make(rng, j):
    cl = []
    spec = {'classes': cl, 'registry': j % 3 != 2, 'boxat': rng.choice(['', 'na'])}
    for g, policy in enumerate(['plain', 'plain', 'refm', 'plain', 'std']):
        smart = policy == 'std'
        sub = rng.random() < .8 and not smart
        nar = rng.random() < .75 if not smart else rng.random() < .5
        mine = []
        for x in range(rng.randint(4, 6)):
            i = len(cl)
            b = None if not mine else mine[-1] if rng.random() < .6 else rng.choice(mine)
            kind = 'reg' if b is None or rng.random() < .75 else 'hidden'
            rb = next((x for x in up(cl, b) if cl[x]['kind'] == 'reg'), None) if b is not None else None
            c = {'i': i, 'n': 'C%d' % i, 'base': b, 'rbase': rb, 'kind': kind, 'policy': policy, 'sub': sub, 'nar': nar,
                 'magic': rng.randint(1, 10**9), 'key': rng.random() < .5, 'place': '', 'mod': -1, 'py': None, 'virt': False}
            if kind == 'reg':
                lo = 0 if rb is None else cl[rb]['mod']
                c['mod'] = rng.choice([0, 0, 0, 1]) if rb is None else rng.choice([m for m in range(3) if m >= lo])
                # the base has to be set up before the class
                at = lambda p: ORDER[spec['boxat'] if p == 'Box' else p]
                ok = [p for p in PLACES + ['Box'] * 3 if rb is None or at(p) >= at(cl[rb]['place'])]
                c['place'] = rng.choice([p for p in ok if p != 'Box' or (g == 3 and c['mod'] == 0)])
                if c['place'] == 'Box': pass
                elif rng.random() < .3: c['py'] = 'Py%d' % i
                c['virt'] = rng.random() < .6 and sub
            cl.append(c)
            mine.append(i)
    spec['visible'] = vis = []
    for m in range(3):
        v = set(c['i'] for c in cl if c['kind'] == 'reg' and c['mod'] == m)
        v |= set(c['i'] for c in cl if c['kind'] == 'reg' and c['mod'] < m and rng.random() < .65)
        for i in list(v):
            x = cl[i]['rbase']
            while x is not None:
                v.add(x)
                x = cl[x]['rbase']
        vis.append(sorted(v))
    # Box is declared where classes nested in it are
    spec['order'] = rng.choice([[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1], [0, 2, 1]])
    spec['conv'] = [(m, i) for m in range(3) for i in vis[m] if cl[i]['policy'] == 'plain' and rng.random() < .4]
    return spec


def up(cl, i):
    while i is not None:
        yield i
        i = cl[i]['base']


def down(cl, s):
    return [c['i'] for c in cl if s in up(cl, c['i'])]


def expected(cl, s, d, loaded):
    """class of the wrapper for an instance of class d handed out as class s, with these modules imported"""
    if not cl[s]['nar']: return s
    for x in up(cl, d):
        if x == s or (cl[x]['kind'] == 'reg' and cl[x]['mod'] in loaded): return x


def full(c, spec):
    pl = c['place']
    if pl == 'Box': pl = (spec['boxat'] + '::' if spec['boxat'] else '') + 'Box'
    return (pl + '::' if pl else '') + c['n']


def cpp(spec):
    cl = spec['classes']
    o = '#include <memory>\n#include <typeinfo>\nenum Col { RED = 3, GREEN, BLUE = 40 };\n'
    imp = ''
    ba = spec['boxat']
    box = 'struct Box { Box() {} int tag() const { return 4711; } enum Kind { K1 = 2, K2 = 9 }; %s };' % ' '.join('struct %s;' % c['n'] for c in cl if c['place'] == 'Box')
    o += ('namespace %s { %s }\n' % (ba, box)) if ba else box + '\n'
    for c in cl:
        F, n, i = full(c, spec), c['n'], c['i']
        ns = F.split('::')[:-1] if c['place'] != 'Box' else ba.split('::') if ba else []
        o += ''.join('namespace %s { ' % p for p in ns)
        b = cl[c['base']] if c['base'] is not None else None
        o += 'struct %s%s {\n' % ('Box::' + n if c['place'] == 'Box' else n, ' : public ::' + full(b, spec) if b else '')
        if not b:
            o += '  vf::Track track; mutable int refs; int mut; %s() : track("%s"), refs(1), mut(0) {} %s(const %s &o) : track("%s"), refs(1), mut(o.mut) {} virtual ~%s() {}\n' % (n, n, n, n, n, n)
            o += '  int refcnt() const { return refs; } void ref() const { track.use(); refs++; } void unref() const { track.use(); if (!--refs) delete this; }\n'
        else:
            o += '  %s() {}\n' % n
        o += '  int magic%d = %d;\n' % (i, c['magic'])
        if c['key']:        # typeinfo lives in the shared library; otherwise every module has its own
            o += '  virtual int kind() const;\n'
            imp += 'int %s::kind() const { return %d; }\n' % (F, i)
        else:
            o += '  virtual int kind() const { return %d; }\n' % i
        o += '  int level%d() { track.use(); return magic%d == %d ? %d : -1; }\n' % (i, i, c['magic'], i)
        o += '  virtual int vm%d(int x) { track.use(); return magic%d == %d ? %d + x : -1; }\n' % (i, i, c['magic'], i * 1000)
        o += '};\n' + '}' * len(ns) + '\n'
    for c in cl:
        if c['kind'] != 'reg': continue
        F, n, i = full(c, spec), c['n'], c['i']
        o += '%s *make_%s(int k); std::map<int, %s*> &store_%s(); %s *get_%s(int k);\n' % (F, n, F, n, F, n)
        cases = ''.join('case %d: return new ::%s; ' % (d, full(cl[d], spec)) for d in down(cl, i))
        imp += '%s *make_%s(int k) { switch (k) { %s default: return NULL; } }\n' % (F, n, cases)
        imp += 'std::map<int, %s*> &store_%s() { static std::map<int, %s*> m; return m; }\n' % (F, n, F)
        imp += '%s *get_%s(int k) { if (k < 0) return NULL; %s *&p = store_%s()[k]; if (!p) p = make_%s(k); return p; }\n' % (F, n, F, n, n)
        o += 'inline int kind_%s(const %s &x) { return x.kind(); } inline int pkind_%s(%s *x) { return x->kind() * 10 + (x->magic%d == %d); }\n' % (n, F, n, F, i, c['magic'])
        o += 'inline int valmut_%s(%s x) { return x.mut; } inline int callvm_%s(%s *x, int a) { return x->vm%d(a); }\n' % (n, F, n, F, i)
        un = {'plain': 'delete i->second', 'std': 'delete i->second'}.get(c['policy'], 'i->second->unref()')
        o += 'void drop_%s();\n' % n
        imp += 'void drop_%s() { for (std::map<int, %s*>::iterator i = store_%s().begin(); i != store_%s().end(); ++i) if (i->second) { %s; } store_%s().clear(); }\n' % (n, F, n, n, un, n)
        o += 'inline int mutof_%s(int k) { return get_%s(k)->mut; } inline int muts_%s(%s *x) { return ++x->mut; }\n' % (n, n, n, F)
        for m in range(3):
            if i not in spec['visible'][m]: continue
            L = 'L%d_%d' % (i, m)
            if c['policy'] == 'plain':
                o += 'struct %s { int v; %s(int x) : v(x) {} operator %s() const { %s r; r.mut = v; return r; } };\n' % (L, L, F, F)
            if c['policy'] == 'std':
                o += 'struct V%d_%d { V%d_%d() {} virtual ~V%d_%d() {} int n = 0; virtual void sp(std::shared_ptr< %s > x) { n++; } void go_sp(int k) { sp(std::shared_ptr< %s >(make_%s(k))); } };\n' % (i, m, i, m, i, m, F, F, n)
                continue
            o += 'struct H%d_%d { H%d_%d() : at(NULL), val() {} ~H%d_%d() {} %s *at; %s val; void fill(int k) { at = get_%s(k); } };\n' % (i, m, i, m, i, m, F, F, n)
            o += 'struct V%d_%d { V%d_%d() : n(0) {} virtual ~V%d_%d() {} int n; virtual void bor(%s *x) { n++; } virtual void val(%s x) { n++; } virtual void own(%s *x) { n++; if (x) { %s; } } virtual %s rval() { return %s(); }\n' % (
                i, m, i, m, i, m, F, F, F, 'delete x' if c['policy'] == 'plain' else 'x->unref()', F, F)
            o += '  void go_bor(int k) { bor(get_%s(k)); } void go_val(int k) { val(*get_%s(k)); } void go_own(int k) { own(make_%s(k)); } int go_rval() { return rval().mut; } };\n' % (n, n, n)
        if c['policy'] == 'std':
            P = 'std::shared_ptr< %s >' % F
            o += 'inline %s sp_%s(int k) { return %s(make_%s(k)); } inline int spkind_%s(%s x) { return x ? x->kind() : -5; }\n' % (P, n, P, n, n, P)
            o += '%s &cell_%s(); inline void keep_%s(%s x) { cell_%s() = x; } inline %s kept_%s() { return cell_%s(); }\n' % (P, n, n, P, n, P, n, n)
            imp += '%s &cell_%s() { static %s p; return p; }\n' % (P, n, P)
            continue
        rc = c['policy'] == 'refm'
        o += 'inline %s *own_%s(int k) { return make_%s(k); } inline %s *bor_%s(int k) { return get_%s(k); } inline %s &rf_%s(int k) { return *get_%s(k); } inline %s const &crf_%s(int k) { return *get_%s(k); } inline %s val_%s(int k) { %s r; r.mut = k; return r; }\n' % (F, n, n, F, n, n, F, n, n, F, n, n, F, n, F)
        o += '%s *&cell_%s(); inline %s *kept_%s() { return cell_%s(); }\n' % (F, n, F, n, n)
        o += 'inline void keep_%s(%s *x) { cell_%s() = x; } inline int vec_%s(std::vector< %s > const &v) { int r = 0; for (size_t i = 0; i < v.size(); i++) r = r * 10 + v[i].mut; return r; } inline std::vector< %s > rvec_%s(int k) { std::vector< %s > v(k); for (int i = 0; i < k; i++) v[i].mut = i; return v; }\n' % (n, F, n, n, F, F, n, F)
        o += 'inline void take_%s(%s *x) { delete get_cell_%s(x); }\n' % (n, F, n) if 0 else ''
        imp += '%s *&cell_%s() { static %s *p = NULL; return p; }\n' % (F, n, F)
    o += 'inline void drop_all() { %s }\n' % ' '.join('drop_%s();' % c['n'] + ('cell_%s().reset();' % c['n'] if c['policy'] == 'std' else 'cell_%s() = NULL;' % c['n']) for c in cl if c['kind'] == 'reg')
    o += 'inline Col col(Col c) { return c == RED ? GREEN : c == GREEN ? BLUE : RED; }\n'
    B = (ba + '::' if ba else '') + 'Box'
    o += 'inline int boxtag(%s const &b) { return b.tag(); } inline %s mkbox() { return %s(); } inline %s::Kind bk(%s::Kind k) { return k == %s::K1 ? %s::K2 : %s::K1; }\n' % (B, B, B, B, B, B, B, B)
    return o, imp


GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
cl = spec['classes']; ME = __ME__; NAMES = spec['names']
settings.wrapper_registry = StdMapWrapperRegistry if spec['registry'] else NullWrapperRegistry
mod = new_module(NAMES[ME])
SUB = {'': mod}
def place(p):
    if p not in SUB:
        up, _, last = p.rpartition('::')
        SUB[p] = place(up).add_cpp_namespace(last)
    return SUB[p]
for p in ('na', 'na::nb', 'nc'): place(p)
def home(m, p): return '.'.join([NAMES[m]] + [x for x in p.split('::') if x])
def full(c):
    pl = c['place']
    if pl == 'Box': pl = (spec['boxat'] + '::' if spec['boxat'] else '') + 'Box'
    return (pl + '::' if pl else '') + c['n']
ba = spec['boxat']
Box = place(ba).add_class('Box', **({} if ME == 0 else {'import_from_module': home(0, ba)}))
Box.add_constructor([]); Box.add_copy_constructor(); Box.add_method('tag', retval('int'), [], is_const=True)
mod.add_enum('Col', ['RED', 'GREEN', 'BLUE'], **({} if ME == 0 else {'import_from_module': NAMES[0]}))
place(ba).add_enum('Kind', ['K1', 'K2'], outer_class=Box, **({} if ME == 0 else {'import_from_module': home(0, ba)}))
K = {}
vis = spec['visible'][ME]
for c in cl:
    if c['i'] not in vis: continue
    n = c['n']
    kw = {'automatic_type_narrowing': c['nar']}
    if c['rbase'] is not None: kw['parent'] = K[c['rbase']]
    else: kw['allow_subclassing'] = c['sub']
    if c['rbase'] is None:
        if c['policy'] == 'refm': kw['memory_policy'] = ReferenceCountingMethodsPolicy('ref', 'unref', 'refcnt')
        if c['policy'] == 'std': kw['memory_policy'] = StdSharedPtr('::' + full(c))
    if c['mod'] != ME:
        kw['import_from_module'] = home(c['mod'], ba if c['place'] == 'Box' else c['place'])
        if c['py']: kw['import_from_module'] += ' named ' + c['py']
    elif c['py']: kw['custom_name'] = c['py']
    if c['place'] == 'Box': k = place(ba).add_class(n, outer_class=Box, **kw)
    else: k = place(c['place']).add_class(n, **kw)
    K[c['i']] = k
    k.add_constructor([])
    k.add_copy_constructor()
    k.add_method('level%d' % c['i'], retval('int'), [])
    k.add_method('kind', retval('int'), [], is_const=True)
    k.add_instance_attribute('mut', 'int')
    k.add_method('vm%d' % c['i'], retval('int'), [param('int', 'x')], is_virtual=c['virt'])
for c in cl:
    if c['i'] not in vis: continue
    F, n, i = full(c), c['n'], c['i']
    rc = c['policy'] == 'refm'
    k1 = [param('int', 'k')]
    if [ME, i] in spec['conv']:
        L = mod.add_class('L%d_%d' % (i, ME)); L.add_constructor([param('int', 'x')]); L.implicitly_converts_to(K[i])
    mod.add_function('kind_' + n, retval('int'), [param('const %s&' % F, 'x')])
    mod.add_function('valmut_' + n, retval('int'), [param(F, 'x')])
    mod.add_function('drop_' + n, None, [])
    if c['policy'] == 'std':
        P = 'std::shared_ptr< %s >' % F
        mod.add_function('sp_' + n, retval(P), k1)
        mod.add_function('spkind_' + n, retval('int'), [param(P, 'x')])
        mod.add_function('keep_' + n, None, [param(P, 'x')])
        mod.add_function('kept_' + n, retval(P), [])
        V = mod.add_class('V%d_%d' % (i, ME), allow_subclassing=True); V.add_constructor([])
        V.add_method('sp', None, [param(P, 'x')], is_virtual=True); V.add_method('go_sp', None, k1)
        continue
    mod.add_function('pkind_' + n, retval('int'), [param(F + '*', 'x', transfer_ownership=False)])
    mod.add_function('callvm_' + n, retval('int'), [param(F + '*', 'x', transfer_ownership=False), param('int', 'a')])
    mod.add_function('muts_' + n, retval('int'), [param(F + '*', 'x', transfer_ownership=False)])
    mod.add_function('mutof_' + n, retval('int'), k1)
    bk = {'caller_owns_return': False} if rc else {'reference_existing_object': True}
    mod.add_function('own_' + n, retval(F + '*', caller_owns_return=True), k1)
    mod.add_function('bor_' + n, retval(F + '*', **bk), k1)
    mod.add_function('rf_' + n, retval(F + '&', reference_existing_object=True), k1)
    mod.add_function('crf_' + n, retval('%s const &' % F, reference_existing_object=True), k1)
    mod.add_function('val_' + n, retval(F), k1)
    mod.add_function('keep_' + n, None, [param(F + '*', 'x', transfer_ownership=False)])
    mod.add_function('kept_' + n, retval(F + '*', **bk), [])
    mod.add_container('std::vector< %s >' % F, retval(F), 'vector')
    mod.add_function('vec_' + n, retval('int'), [param('std::vector< %s > const &' % F, 'v')])
    mod.add_function('rvec_' + n, retval('std::vector< %s >' % F), k1)
    H = mod.add_class('H%d_%d' % (i, ME)); H.add_constructor([]); H.add_method('fill', None, k1)
    H.add_instance_attribute('at', retval(F + '*', **bk))
    H.add_instance_attribute('val', F)
    V = mod.add_class('V%d_%d' % (i, ME), allow_subclassing=True); V.add_constructor([])
    V.add_method('bor', None, [param(F + '*', 'x', transfer_ownership=False, null_ok=True)], is_virtual=True)
    V.add_method('own', None, [param(F + '*', 'x', transfer_ownership=True)], is_virtual=True)
    V.add_method('val', None, [param(F, 'x')], is_virtual=True)
    V.add_method('rval', retval(F), [], is_virtual=True)
    for q in ('bor', 'val', 'own'): V.add_method('go_' + q, None, k1)
    V.add_method('go_rval', retval('int'), [])
mod.add_function('drop_all', None, [])
mod.add_function('col', retval('Col'), [param('Col', 'c')])
B = (ba + '::' if ba else '') + 'Box'
mod.add_function('boxtag', retval('int'), [param(B + ' const &', 'b')])
mod.add_function('mkbox', retval(B), [])
mod.add_function('bk', retval(B + '::Kind'), [param(B + '::Kind', 'k')])
emit(mod, impl=False)
'''

DRIVER = r'''
import sys, os, json, random, gc, importlib
from vf import drv
sys.path.insert(0, sys.argv[1])
c = drv.CSide(os.path.join(sys.argv[1], 'libcommon.so'))
spec = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
cl = spec['classes']; VIS = spec['visible']
rng = random.Random('%s/%s' % (drv.SEED, os.path.basename(sys.argv[1])))
class Fail(Exception): pass
ERR = []
sys.excepthook = lambda t, v, tb: ERR.append('%s: %s' % (t.__name__, v))
# what is loaded when: a module loads the modules it imports types from
NEEDS = [set([m]) for m in range(3)]
for m in range(3):
    NEEDS[m] |= set([0] if m else []) | set(cl[i]['mod'] for i in VIS[m])
for _ in range(3):
    for m in range(3):
        for x in list(NEEDS[m]): NEEDS[m] |= NEEDS[x]
M = [None] * 3
T = {}
loaded = set()
def load(m):
    importlib.import_module(spec['names'][m])
    for x in NEEDS[m]:
        loaded.add(x)
        M[x] = sys.modules.get(spec['names'][x])
        if M[x] is None: raise Fail('module %d does not load module %d' % (m, x))
    for k in cl:
        if k['kind'] != 'reg' or k['mod'] not in loaded: continue
        pl = k['place'] if k['place'] != 'Box' else (spec['boxat'] + '::' if spec['boxat'] else '') + 'Box'
        o = M[k['mod']]
        for p in pl.split('::') if pl else []: o = getattr(o, p)
        T[k['i']] = getattr(o, k['py'] or k['n'])
    drv.count('imports')
def ups(i):
    while i is not None:
        yield i
        i = cl[i]['base']
def rups(i):
    while i is not None:
        yield i
        i = cl[i]['rbase']
def down(s): return [k['i'] for k in cl if s in ups(k['i'])]
def expected(s, d):
    if not cl[s]['nar']: return s
    for x in ups(d):
        if x == s or (cl[x]['kind'] == 'reg' and cl[x]['mod'] in loaded): return x
def f(m, name): return getattr(M[m], name)
def knows(s): return [m for m in sorted(loaded) if s in VIS[m]]
def levels(what, o, i, dyn):
    """o has to be usable as every class it is an instance of, in every module that knows the class"""
    for u in rups(i):
        if getattr(o, 'level%d' % u)() != u: raise Fail('%s: level%d() does not find its own object' % (what, u))
        if getattr(o, 'vm%d' % u)(3) != u * 1000 + 3: raise Fail('%s: vm%d() does not find its own object' % (what, u))
        if not isinstance(o, T[u]): raise Fail('%s: is not an instance of C%d' % (what, u))
        for m in knows(u):
            if m != cl[i]['mod']: drv.count('foreign_args')
            r = f(m, 'kind_C%d' % u)(o)
            if r != dyn: raise Fail('%s: as a C%d, the C++ code of module %d sees kind %r' % (what, u, m, r))
            if cl[u]['policy'] == 'std':
                if f(m, 'spkind_C%d' % u)(o) != dyn: raise Fail('%s: as a smart pointer to C%d, module %d sees kind %r' % (what, u, m, f(m, 'spkind_C%d' % u)(o)))
                continue
            r = f(m, 'pkind_C%d' % u)(o)
            if r != dyn * 10 + 1: raise Fail('%s: pkind_C%d of module %d gives %r' % (what, u, m, r))
            o.mut = 7
            if f(m, 'muts_C%d' % u)(o) != 8 or o.mut != 8: raise Fail('%s: module %d does not get the object itself' % (what, m))
            if f(m, 'valmut_C%d' % u)(o) != 8: raise Fail('%s: module %d gets another value' % (what, m))
def check(what, m, o, s, d, want, dyn=None):
    drv.op({'k': what, 'm': m, 's': s, 'd': d}); drv.ev(); drv.distinct([what, cl[s]['mod'] == m, cl[d]['mod'] == m if d >= 0 else None, cl[d]['kind'] if d >= 0 else None, cl[s]['policy'], cl[s]['place'], s, d])
    if d < 0:
        if o is not None: raise Fail('%s: %r instead of None for a NULL pointer' % (what, o))
        return
    if type(o) not in [T[w] for w in want]: raise Fail('%s: an instance of C%d seen as C%d arrives from module %d as %r instead of %s (loaded: %s)' % (what, d, s, m, type(o), '/'.join('%r' % T[w] for w in want), sorted(loaded)))
    i = [w for w in want if T[w] is type(o)][0]
    if cl[i]['mod'] != m: drv.count('foreign_results')
    if i != s: drv.count('narrowed')
    if i != s and cl[i]['mod'] != m: drv.count('foreign_narrowed')
    levels('%s of module %d (C%d as C%d)' % (what, m, d, s), o, i, d if dyn is None else dyn)
def results(m, s, d):
    n, k = cl[s]['n'], cl[s]
    x = expected(s, d) if d >= 0 else s
    both = [x] if k['policy'] == 'refm' else [s, x]
    if k['policy'] == 'std':
        o = f(m, 'sp_' + n)(d)
        check('sp', m, o, s, d, [x])
        if o is None: return
        for m2 in knows(s):
            f(m2, 'keep_' + n)(o)
            for m3 in knows(s):
                b = f(m3, 'kept_' + n)()
                check('kept', m3, b, s, d, [x])
                b.mut = 31
                if o.mut != 31: raise Fail('kept_%s of module %d: another object' % (n, m3))
        return
    for w in ('own', 'bor', 'rf', 'crf'):
        if d < 0 and w in ('rf', 'crf'): continue
        o = f(m, '%s_%s' % (w, n))(d)
        check(w, m, o, s, d, [x] if w == 'own' else both)
        if o is None: continue
        if w != 'own':
            for m2 in knows(s):
                p = f(m2, 'bor_' + n)(d)
                if p is not o and spec['registry']: raise Fail('%s: modules %d and %d give two wrappers of one object, with a wrapper registry' % (w, m, m2))
                p.mut = 17
                if o.mut != 17: raise Fail('%s: module %d gives another object' % (w, m2))
                drv.count('identity')
        else:
            for m2 in knows(s):
                f(m2, 'keep_' + n)(o)
                for m3 in knows(s):
                    b = f(m3, 'kept_' + n)()
                    if b is not o and spec['registry']: raise Fail('kept: modules %d and %d give two wrappers of one object, with a wrapper registry' % (m2, m3))
                    b.mut = 18
                    if o.mut != 18: raise Fail('kept: module %d gives another object' % m3)
                    drv.count('identity')
    if d == s:
        o = f(m, 'val_' + n)(41); check('val', m, o, s, s, [s])
        o = f(m, 'val_' + n)(41)
        if o.mut != 41: raise Fail('val: another value')
        H = getattr(M[m], 'H%d_%d' % (s, m))()
        for src in list(knows(s)):
            o = f(src, 'val_' + n)(5)
            H.val = o; H.val.mut = 9; o.mut = 3
            if H.val.mut not in (5, 9): raise Fail('attribute: another value')
            check('attr', m, H.val, s, s, [s])
    H = getattr(M[m], 'H%d_%d' % (s, m))()
    H.fill(d); check('at', m, H.at, s, d, both)
def containers(m, s):
    n = cl[s]['n']
    if cl[s]['policy'] == 'std': return
    for m2 in knows(s):
        v = f(m2, 'rvec_' + n)(4)
        l = list(v)
        if [type(o) for o in l] != [T[s]] * 4 or [o.mut for o in l] != [0, 1, 2, 3]: raise Fail('elements of a container of module %d: %r' % (m2, l))
        if f(m, 'vec_' + n)(l) != 123: raise Fail('container: module %d gets other elements' % m)
        mine = [f(x, 'val_' + n)(x + 1) for x in knows(s)] + [T[s]()]
        want = 0
        for o in mine: want = want * 10 + o.mut
        if f(m, 'vec_' + n)(mine) != want: raise Fail('container: module %d gets other elements' % m)
        drv.count('containers')
    if f(m2, 'vec_' + n)(v) != 123: raise Fail('container of its own')
def overrides(m, s, d):
    k, n = cl[s], cl[s]['n']
    x = expected(s, d)
    V = getattr(M[m], 'V%d_%d' % (s, m))
    got = []
    class P(V):
        def sp(self, o): check('arg sp', m, o, s, d, [x]); got.append(1)
        def bor(self, o): check('arg bor', m, o, s, d, [x] if k['policy'] == 'refm' else [s], None if k['policy'] == 'refm' else s); got.append(1)
        def own(self, o): check('arg own', m, o, s, d, [x]); got.append(1)
        def val(self, o): check('arg val', m, o, s, d, [s], s); got.append(1)
        def rval(self): got.append(1); return R
    p = P()
    for w in ('sp',) if k['policy'] == 'std' else ('bor', 'own', 'val'):
        del got[:]
        getattr(p, 'go_' + w)(d)
        if ERR: raise Fail('override of %s: %s' % (w, ERR[0]))
        if len(got) != 1: raise Fail('override of %s ran %d times' % (w, len(got)))
        drv.count('override_calls')
    if k['policy'] != 'std':
        for m2 in knows(s):
            R = f(m2, 'val_' + n)(61)
            if p.go_rval() != 61 or ERR: raise Fail('override of rval with a value of module %d: %s' % (m2, ERR))
def pysub(s):
    """Python subclasses: overrides are called whatever module makes the call; the instances come back as they are"""
    k, n = cl[s], cl[s]['n']
    if not k['sub']: return
    virt = [u for u in rups(s) if cl[u]['virt']]
    class P(T[s]):
        def __init__(self, v): super().__init__(); self.v = v
    for u in virt:
        setattr(P, 'vm%d' % u, lambda self, x, u=u: self.v + u + x)
    p = P(500000)
    for u in rups(s):
        for m in knows(u):
            r = f(m, 'callvm_C%d' % u)(p, 2)
            want = 500000 + u + 2 if u in virt else u * 1000 + 2
            # the override is known to the module that made the instance's class
            if r != want: raise Fail('Python subclass of C%d (module %d): module %d calls vm%d and gets %r instead of %r' % (s, k['mod'], m, u, r, want))
            if u in virt:
                drv.count('python_overrides')
                if m != k['mod']: drv.count('foreign_overrides')
            if f(m, 'kind_C%d' % u)(p) != s: raise Fail('kind of a Python subclass instance')
            f(m, 'keep_C%d' % u)(p)
            for m2 in knows(u):
                b = f(m2, 'kept_C%d' % u)()
                if spec['registry'] and b is not p: raise Fail('Python subclass of C%d: kept as C%d by module %d, module %d gives back %r' % (s, u, m, m2, b))
                if f(m2, 'callvm_C%d' % u)(b, 2) != want: raise Fail('Python subclass of C%d: a wrapper from module %d calls something else' % (s, m2))
                drv.count('identity')
                del b
    for u in virt:
        base = getattr(T[u], 'vm%d' % u)
        if base(p, 4) != u * 1000 + 4: raise Fail('explicit call of vm%d of the parent class gives %r' % (u, base(p, 4)))
    # a Python subclass that overrides nothing
    class Q(T[s]): pass
    q = Q()
    for u in rups(s):
        for m in knows(u):
            if f(m, 'callvm_C%d' % u)(q, 1) != u * 1000 + 1: raise Fail('Python subclass without overrides')
def refused(m):
    """objects of an unrelated class are refused"""
    for s in VIS[m]:
        for u in T:
            if s in rups(u) or (s, u) in CONV: continue
            if cl[u]['policy'] != 'std' and rng.random() < .7: continue
            o = T[u]()
            try: r = f(m, 'kind_C%d' % s)(o)
            except TypeError: drv.count('refused')
            else: raise Fail('module %d takes a C%d for a C%d: %r' % (m, u, s, r))
            if isinstance(o, T[s]): raise Fail('isinstance(C%d(), C%d)' % (u, s))
CONV = ()
def conversions():
    for m, s in spec['conv']:
        if m not in loaded: continue
        o = getattr(M[m], 'L%d_%d' % (s, m))(1234)
        for m2 in knows(s):
            # only the module that declares the conversion has to know it
            try: r = f(m2, 'valmut_C%d' % s)(o)
            except TypeError:
                if m2 == m: raise Fail('implicit conversion to C%d of module %d in module %d does not happen' % (s, cl[s]['mod'], m))
                continue
            if r != 1234: raise Fail('implicit conversion to C%d: %r' % (s, r))
        drv.count('conversions')
def surface():
    A = M[0]
    B = getattr(getattr(A, spec['boxat']) if spec['boxat'] else A, 'Box')
    for m in loaded:
        if [M[m].col(A.RED), M[m].col(A.GREEN), M[m].col(A.BLUE)] != [A.GREEN, A.BLUE, A.RED]: raise Fail('enum of module 0 in module %d' % m)
        if M[m].bk(B.K1) != B.K2: raise Fail('nested enum of module 0 in module %d' % m)
        if M[m].boxtag(B()) != 4711 or type(M[m].mkbox()) is not B or M[m].mkbox().tag() != 4711: raise Fail('Box in module %d' % m)
        for i in VIS[m]:
            # a module that imports a type does not define another one
            o = M[m]
            pl = cl[i]['place'] if cl[i]['place'] != 'Box' else (spec['boxat'] + '::' if spec['boxat'] else '') + 'Box'
            try:
                for p in pl.split('::') if pl else []: o = getattr(o, p)
                mine = getattr(o, cl[i]['py'] or cl[i]['n'])
            except AttributeError: continue
            if mine is not T[i]: raise Fail('module %d has a C%d of its own' % (m, i))
    for i in T:
        for u in T:
            if issubclass(T[i], T[u]) != (u in rups(i)): raise Fail('issubclass(C%d, C%d)' % (i, u))
def clean(what):
    gc.collect(); M[min(loaded)].drop_all()
    for m in loaded:
        for i in VIS[m]: f(m, 'drop_C%d' % i)()
    gc.collect(); c.log()
    if c.live_total(): raise Fail('%s: %d instances left' % (what, c.live_total()))
    n, m = c.bad()
    if n: raise Fail('%s: %s' % (what, m))
try:
    for step in spec['order']:
        before = set(loaded)
        drv.op({'k': 'import', 'm': step})
        load(step)
        if loaded == before: continue
        for r in range(int(sys.argv[2])):
            surface()
            for s in sorted(T):
                for m in knows(s):
                    for d in down(s) + [-1]:
                        if d >= 0 or cl[s]['policy'] != 'std': results(m, s, d)
                        clean('results C%d as C%d' % (d, s))
                        if d >= 0: overrides(m, s, d)
                        clean('overrides C%d as C%d' % (d, s))
                    containers(m, s)
                pysub(s)
                clean('C%d' % s)
            for m in sorted(loaded): refused(m)
            conversions()
            clean('all')
except Fail as e:
    drv.violation(str(e).split(':')[0].split('(')[0][:50], str(e), {'classes': [(k['n'], k['base'], k['kind'], k['policy'], k['mod'], k['place'], k['nar'], k['sub']) for k in cl], 'visible': VIS, 'registry': spec['registry'], 'order': spec['order']})
drv.sample([(k['n'], k['base'], k['kind'], k['policy'], k['mod'], k['place']) for k in cl][:8])
drv.done()
'''


def main():
    ck = Check('C20', 'distinct (way in or out of C++, declared class, dynamic class, where they are defined) combinations')
    n = 6 if not THOROUGH else 40

    def one(j):
        rng = random.Random('c20/%s/%d' % (SEED, j))
        spec = make(rng, j)
        spec['names'] = ['xm%da' % j, 'xm%db' % j, 'xm%dc' % j]
        d = os.path.join(scratch(), 'n%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        h, imp = cpp(spec)
        try:
            handmod.build_multi(d, h, [(spec['names'][m], GEN.replace('__ME__', str(m))) for m in range(3)], imp)
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, '1' if not THOROUGH else '2'], timeout=800)
    for j, r in pmap(one, range(n)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'n%d' % j)
        else:
            ck.absorb(r, 'n%d' % j)
    ck.require('foreign_args', n * 200)
    ck.require('foreign_results', n * 50)
    ck.require('foreign_narrowed', n * 3)
    ck.require('python_overrides', n * 5)
    ck.require('foreign_overrides', n * 2)
    ck.require('identity', n * 50)
    ck.require('refused', n * 20)
    ck.require('containers', n * 10)
    ck.finish()


main()
