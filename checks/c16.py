"""C16: C type expressions: every spelling of a type is understood as the type the C++ compiler sees."""
import os, sys, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod, objsig, ctypes_

SPELL = 6

# what the real code makes of the spellings, as JSON; runs in the generator's interpreter
PROBE = r'''
import json, sys, os
from pybindgen.typehandlers.ctypeparser import normalize_type_string, TypeTraits, parse_type
here = os.path.dirname(os.path.abspath(__file__))
out = []
for spellings in json.load(open(os.path.join(here, 'types.json'))):
    l = []
    for s in spellings:
        try:
            n = normalize_type_string(s)
            t = TypeTraits(s)
            d = {'n': n, 'again': normalize_type_string(n), 'ctype': str(t.ctype), 'const': t.type_is_const, 'ref': t.type_is_reference, 'ptr': t.type_is_pointer, 'tconst': t.target_is_const,
                 'target': None if t.target is None else str(t.target), 'nomod': str(t.ctype_no_modifiers), 'noconst': str(t.ctype_no_const), 'noconstref': str(t.ctype_no_const_no_ref)}
            t.make_const()
            d['mkconst'] = str(t.ctype) if not t.type_is_reference else None
            t.make_const()
            d['mkconst2'] = str(t.ctype) if not t.type_is_reference else None
            t = TypeTraits(s)
            if t.type_is_pointer or t.type_is_reference:
                t.make_target_const(); d['mktarget'] = str(t.ctype); d['mktarget_nc'] = str(t.ctype_no_const); d['tconst2'] = t.target_is_const
            l.append(d)
        except Exception as e:
            l.append({'error': '%s: %s' % (type(e).__name__, e)})
    out.append(l)
json.dump(out, open(os.path.join(here, 'seen.json'), 'w'))
'''

CXX = r'''
#include "spec.h"
#include <cstdio>
#include <typeinfo>
#include <type_traits>
template <class T> struct id {};
template <class T> struct strip { typedef T type; };
template <class T> struct strip<const T> { typedef typename strip<T>::type type; };
template <class T> struct strip<volatile T> { typedef typename strip<T>::type type; };
template <class T> struct strip<const volatile T> { typedef typename strip<T>::type type; };
template <class T> struct strip<T *> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T *const> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T *volatile> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T *const volatile> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T &> { typedef typename strip<T>::type &type; };
template <class T> struct tgt { typedef typename std::remove_pointer<T>::type type; };
template <class T> struct tgt<T &> { typedef T type; };
template <class T, bool R = std::is_reference<T>::value, bool P = std::is_pointer<T>::value> struct tconst { typedef T type; };
template <class T> struct tconst<T &, true, false> { typedef const T &type; };
template <class T, bool R> struct tconst<T, R, true> { typedef const typename std::remove_pointer<T>::type *plain; typedef typename std::conditional<std::is_const<T>::value, const plain, plain>::type c; typedef typename std::conditional<std::is_volatile<T>::value, volatile c, c>::type type; };
template <class T> void k(int l) { printf("%d\t%s\n", l, typeid(id<T>).name()); }
template <class T> void facts(int l)
{
    typedef typename tgt<T>::type G; typedef typename std::remove_const<T>::type NC;
    printf("%d\tF\t%d\t%d\t%d\t%d\t%s\t%s\t%s\t%s\t%s\t%s\t%s\n", l, (int) std::is_const<T>::value, (int) std::is_reference<T>::value, (int) std::is_pointer<T>::value, (int) (!std::is_same<G, T>::value && std::is_const<G>::value),
        typeid(id<typename strip<G>::type>).name(), typeid(id<typename strip<T>::type>).name(), typeid(id<NC>).name(), typeid(id<typename std::remove_reference<NC>::type>).name(), typeid(id<typename std::add_const<T>::type>).name(),
        typeid(id<typename tconst<T>::type>).name(), typeid(id<typename tconst<NC>::type>).name());
}
'''


class Keys(object):
    """type identities and facts of C++ type expressions, from the compiler"""
    def __init__(self, d, exprs, factual):
        exprs = list(exprs)
        lines = ['k<%s>(%d);' % (e, i) for i, e in enumerate(exprs)] + ['facts<%s>(%d);' % (e, len(exprs) + i) for i, e in enumerate(factual)]
        self.key, self.facts, self.bad = {}, {}, {}
        dead = set()
        jobs = 6
        write(os.path.join(d, 'spec.h'), ctypes_.HEADER)

        def chunk(w):
            mine = [i for i in range(len(lines)) if i % jobs == w]
            for attempt in range(3):
                src = CXX + 'int main() {\n#line 1 "list"\n' + '\n'.join(lines[i] if i not in dead else '' for i in mine) + '\n}\n'
                p = write(os.path.join(d, 'keys%d_%d.cc' % (w, attempt)), src)
                exe = os.path.join(d, 'keys%d' % w)
                rc, out, err = run(['g++', '-std=gnu++14', '-w', '-O0', '-fmax-errors=0', '-I', d, p, '-o', exe])
                if rc == 0: return run([exe])[1]
                bad = set(mine[int(x) - 1] for x in re.findall(r'^list:(\d+):.*error', err, re.M))
                if not bad: break
                dead.update(bad)
            raise Inconclusive('the list of types does not compile: ' + err[-1500:])
        for out in pmap(chunk, range(jobs), jobs):
            for l in out.splitlines():
                f = l.split('\t')
                if f[1] == 'F': self.facts[factual[int(f[0]) - len(exprs)]] = f[2:]
                else: self.key[exprs[int(f[0])]] = f[1]


def expressions(ck, j, n):
    d = os.path.join(scratch(), 'x%d' % j)
    os.makedirs(d)
    rng = random.Random('c16/%s/%d' % (SEED, j))
    types, seen = [], set()
    while len(types) < n:
        t = ctypes_.gen(rng, rng.choice([1, 2, 2, 3]))
        s = ctypes_.spell(random.Random(0), t)
        if s in seen: continue
        seen.add(s)
        types.append([ctypes_.spell(rng, t) for _ in range(SPELL)])
    write(os.path.join(d, 'types.json'), json.dumps(types))
    generate(write(os.path.join(d, 'probe.py'), PROBE), d)
    real = json.load(open(os.path.join(d, 'seen.json')))
    exprs = set(x for l in types for x in l)
    for l in real:
        for r in l: exprs |= set(v for k, v in r.items() if isinstance(v, str) and k != 'error')
    K = Keys(d, sorted(exprs), [l[0] for l in types])
    bynorm = {}
    for l, rs in zip(types, real):
        src = K.key.get(l[0])
        if src is None or any(K.key.get(s) != src for s in l): raise Inconclusive('the generator of spellings is wrong: %r' % l)
        f = K.facts[l[0]]
        for s, r in zip(l, rs):
            ck.ev()
            bad = lambda mech, msg: ck.violation('ctype:' + mech, '%r: %s' % (s, msg), {'type': s, 'other spellings': l, 'what the library makes of it': r})
            if 'error' in r:
                bad('error', r['error']); continue
            if r['n'] != rs[0].get('n'): bad('spelling', 'normalised to %r, but its other spelling %r to %r' % (r['n'], l[0], rs[0].get('n')))
            if K.key.get(r['n']) != src: bad('meaning', 'normalised to %r, which is another type' % r['n'])
            if r['again'] != r['n']: bad('idempotent', 'normalised to %r, and that to %r' % (r['n'], r['again']))
            if r['ctype'] != r['n']: bad('traits-ctype', 'TypeTraits has %r' % r['ctype'])
            o = bynorm.setdefault(r['n'], (src, s))
            if o[0] != src: bad('distinct', 'normalised to %r like the different type %r' % (r['n'], o[1]))
            for a, x in (('const', 0), ('ref', 1), ('ptr', 2), ('tconst', 3)):
                if int(r[a]) != int(f[x]): bad('traits-' + a, 'TypeTraits says %s is %r' % (a, r[a]))
            if (r['target'] is None) != (f[1] == '0' and f[2] == '0'): bad('traits-target', 'target is %r' % r['target'])
            for a, x in (('target', 4), ('nomod', 5), ('noconst', 6), ('noconstref', 7), ('mkconst', 8), ('mkconst2', 8), ('mktarget', 9), ('mktarget_nc', 10)):
                if r.get(a) is not None:
                    if K.key.get(r[a]) != f[x]: bad('traits-' + a, '%s is %r' % (a, r[a]))
            if r.get('tconst2') is False: bad('traits-tconst', 'the target is not const after make_target_const')
            ck.count('spellings')
        ck.distinct(src)
    ck.count('types', len(types))



# ---- what is declared under one spelling is found under every other one, in built modules ----

T = lambda n, *a: ('tmpl', n, list(a), None)
N = lambda n: ('name', n)
CLASSES = [N('A'), N('n1::A'), N('n1::B'), N('n1::B::A'), N('n1::n2::A'), N('n2::A'), N('const_A'), N('A_const'), N('constA'),
           T('V', N('A')), T('V', N('n1::A')), T('V', ('*', ('cv', 'const', N('n1::A')))), T('V', ('*', N('n1::A'))), T('V', ('*', ('*', N('A')))), T('V', ('int', 'unsigned int')), T('V', T('V', T('n1::V', N('n2::A')))), T('n1::V', N('A')), T('n1::V', ('&', ('cv', 'const', N('A')))),
           T('M', N('A'), ('int', 'char')), T('M', N('n1::A'), T('V', N('A'))), T('M', T('V', N('A')), N('n1::A')), T('n1::n2::M', N('A'), ('int', 'char')), T('Num', ('num', '3')), T('Num', ('num', '-1')), T('TN', N('A'), ('num', "'a'")),
           T('Any', ('*', ('fn', ('cv', 'const', ('int', 'int')), [N('n1::A'), ('&', ('cv', 'const', N('A')))]))), T('Any', ('fn', ('&', ('cv', 'const', N('A'))), [('int', 'int')])), T('Any', N('A'), N('n1::A'), N('n2::A'))]
SHARED = [N('n1::n2::n3::S'), N('S')]
ENUMS = [N('E'), N('n1::E'), N('n1::n2::E')]
CONTAINERS = [(T('std::vector', N('A')), 'vector'), (T('std::vector', N('n1::A')), 'vector'), (T('std::vector', T('V', N('n1::A'))), 'vector'), (T('std::map', N('std::string'), N('n1::A')), 'map'), (T('std::list', ('int', 'unsigned int')), 'list'), (T('std::vector', T('std::vector', N('n2::A'))), 'vector')]
MORE = r"""
#include <list>
#include <typeinfo>
struct S { int v; S() : v(0) {} }; namespace n1 { namespace n2 { namespace n3 { struct S { int v; S() : v(0) {} }; } } }
template <class T> struct cid {};
template <class T> int val(const T &t) { return t.v; }
template <class T> int val(const std::vector<T> &t) { return t.empty() ? -1 : val(t[0]); }
template <class K, class T> int val(const std::map<K, T> &t) { return t.empty() ? -1 : val(t.begin()->second); }
inline int val(const std::list<unsigned int> &t) { return t.empty() ? -1 : (int) t.front(); }
inline int val(E e) { return e; } inline int val(n1::E e) { return e; } inline int val(n1::n2::E e) { return e; }
template <class T> std::string see(const T &t) { return std::string(typeid(cid<T>).name()) + "/" + std::to_string(val(t)); }
template <class T> struct fresh { static T &get(int v) { static T t; t.v = v; return t; } };
template <class T> struct fresh<std::vector<T> > { static std::vector<T> &get(int v) { static std::vector<T> t; t.assign(1, fresh<T>::get(v)); return t; } };
template <class T> struct fresh<std::map<std::string, T> > { static std::map<std::string, T> &get(int v) { static std::map<std::string, T> t; t["k"] = fresh<T>::get(v); return t; } };
template <> struct fresh<std::list<unsigned int> > { static std::list<unsigned int> &get(int v) { static std::list<unsigned int> t; t.assign(1, v); return t; } };
template <> struct fresh<E> { static E &get(int) { static E e = E_x; return e; } }; template <> struct fresh<n1::E> { static n1::E &get(int) { static n1::E e = n1::E_y; return e; } }; template <> struct fresh<n1::n2::E> { static n1::n2::E &get(int) { static n1::n2::E e = n1::n2::E_z; return e; } };
template <class T> T *leak(int v) { T *t = new T(); t->v = v; return t; }
"""


def e2e_make(rng, n):
    spec = []
    for i in range(n):
        kind = rng.choice(['class', 'class', 'class', 'class', 'enum', 'container', 'shared', 'alias', 'attr', 'alias'])
        if kind in ('class', 'attr'): x = rng.randrange(len(CLASSES)); t = CLASSES[x]
        elif kind == 'enum': x = rng.randrange(len(ENUMS)); t = ENUMS[x]
        elif kind == 'container': x = rng.randrange(len(CONTAINERS)); t = CONTAINERS[x][0]
        elif kind == 'alias': x = rng.randrange(len(CLASSES)); t = CLASSES[x]
        else: x = rng.randrange(len(SHARED)); t = T('std::shared_ptr', SHARED[x])
        ct = ('cv', 'const', t)
        ret = rng.random() < .4
        if kind == 'attr': form = 'attr'
        elif kind == 'alias':
            form = rng.choice(['v', 'cr', 'p', 'cp'])
        elif ret: form = rng.choice({'class': ['v', 'r', 'cr', 'p', 'cp'], 'enum': ['v'], 'container': ['v'], 'shared': ['v']}[kind])
        else: form = rng.choice({'class': ['v', 'cv', 'r', 'cr', 'p', 'cp', 'cpc', 'pc'], 'enum': ['v', 'cv', 'cr'], 'container': ['v', 'cr', 'r'], 'shared': ['v', 'cv']}[kind])
        tree = {'v': t, 'cv': ct, 'r': ('&', t), 'cr': ('&', ct), 'p': ('*', t), 'cp': ('*', ct), 'pc': ('cv', 'const', ('*', t)), 'cpc': ('cv', 'const', ('*', ct)), 'attr': t}[form]
        f = {'i': i, 'kind': kind, 'x': x, 'form': form, 'ret': ret and kind != 'attr', 'cxx': ctypes_.spell(random.Random(0), tree), 'base': ctypes_.spell(random.Random(0), t), 'spelled': ctypes_.spell(rng, tree), 'alias': None}
        if kind == 'alias':
            # the name of a typedef of the whole type or of the class, given as alias of one spelling, used in another
            f['alias'] = ctypes_.spell(rng, {'v': t, 'cr': ('&', t), 'p': ('*', t), 'cp': ('*', t)}[form])
            al = N('T%d' % i) if i % 2 else N('n1::T%d' % i)
            f['aliasname'] = al[1]
            f['aliasdecl'] = ctypes_.spell(rng, {'v': al, 'cr': ('&', al), 'p': ('*', al), 'cp': ('*', al)}[form])
            f['spelled'] = ctypes_.spell(rng, {'v': al, 'cr': ('&', ('cv', 'const', al)), 'p': ('*', al), 'cp': ('*', ('cv', 'const', al))}[form])
        spec.append(f)
    return spec


def e2e_header(spec):
    o = ctypes_.HEADER + MORE
    for f in spec:
        if f['alias']: o += ('typedef %s T%d;\n' if f['i'] % 2 else 'typedef %s TG%d; namespace n1 { typedef TG%d T%d; }\n') % ((f['base'], f['i']) if f['i'] % 2 else (f['base'],) + (f['i'],) * 3)
    for f in spec:
        i, star = f['i'], '*' if f['form'] in ('p', 'cp', 'pc', 'cpc') else ''
        if f['kind'] == 'attr': o += 'struct H%d { %s a; };\n' % (i, f['cxx'])
        elif f['ret']:
            if f['kind'] == 'shared': o += 'inline %s f%d() { %s p = std::make_shared<%s>(); p->v = %d; return p; }\n' % (f['cxx'], i, f['base'], ctypes_.spell(random.Random(0), SHARED[f['x']]), i)
            else: o += 'inline %s f%d() { return %sfresh<%s>::get(%d); }\n' % (f['cxx'], i, '&' if star else '', f['base'], i)
        else: o += 'inline std::string f%d(%s p) { return see(%sp); }\n' % (i, f['cxx'], star or ('*' if f['kind'] == 'shared' else ''))
    o += 'inline std::string tag(int i) { switch (i) {\n'
    for n, l in ((0, CLASSES), (100, SHARED), (200, ENUMS), (300, [c[0] for c in CONTAINERS])):
        for j, t in enumerate(l): o += 'case %d: return typeid(cid< %s >).name();\n' % (n + j, ctypes_.spell(random.Random(0), t))
    return o + '} return ""; }\n'


def e2e_gen(rng, spec):
    """declarations in other spellings than the uses"""
    sp = lambda t: ctypes_.spell(rng, t)
    o = "mod = new_module()\nreg = {}\nns = {'': mod}\nfor p in ('n1', 'n2'): ns[p] = mod.add_cpp_namespace(p)\nns['n1::n2'] = ns['n1'].add_cpp_namespace('n2'); ns['n1::n2::n3'] = ns['n1::n2'].add_cpp_namespace('n3')\nfrom pybindgen.typehandlers.base import add_type_alias\n"
    order = list(range(len(CLASSES)))
    for i in order:
        t = CLASSES[i]
        scope, _, n = t[1].rpartition('::')
        if t[0] == 'name':
            if scope == 'n1::B': o += "c = ns['n1'].add_class(%r, outer_class=reg[2], custom_name='K%d')\n" % (n, i)
            else: o += "c = ns[%r].add_class(%r, custom_name='K%d')\n" % (scope, n, i)
        else: o += "c = ns[%r].add_class(%r, template_parameters=%r, custom_name='K%d')\n" % (scope, n, [sp(a) for a in t[2]], i)
        o += "reg[%d] = c; c.add_constructor([]); c.add_copy_constructor(); c.add_instance_attribute('v', 'int')\n" % i
    for i, t in enumerate(SHARED):
        scope, _, n = t[1].rpartition('::')
        o += "c = ns[%r].add_class(%r, custom_name='S%d', memory_policy=StdSharedPtr(%r)); c.add_constructor([]); c.add_instance_attribute('v', 'int')\n" % (scope, n, i, '::' + t[1])
    for i, t in enumerate(ENUMS): o += "ns[%r].add_enum(%r, [%r])\n" % (t[1].rpartition('::')[0], t[1].rpartition('::')[2], ['E_x', 'E_y', 'E_z'][i])
    order = list(range(len(CONTAINERS)))
    o += "mod.add_container(%r, %r, 'vector', custom_name='Inner')\n" % (sp(T('std::vector', N('n2::A'))), sp(N('n2::A')))
    for i in order:
        t, k = CONTAINERS[i]
        o += "mod.add_container(%r, %s, %r, custom_name='C%d')\n" % (sp(t), repr(sp(t[2][0])) if k != 'map' else repr((sp(t[2][0]), sp(t[2][1]))), k, i)
    for f in spec:
        i = f['i']
        if f['alias']: o += "add_type_alias(%r, %r)\n" % (f['alias'], f['aliasdecl'])
        if f['kind'] == 'attr': o += "c = mod.add_class('H%d'); c.add_constructor([]); c.add_instance_attribute('a', %r)\n" % (i, f['spelled'])
        elif f['ret']: o += "mod.add_function('f%d', retval(%r%s), [])\n" % (i, f['spelled'], ', reference_existing_object=True' if f['form'] in ('p', 'cp', 'r') else '')
        else: o += "mod.add_function('f%d', 'std::string', [param(%r, 'p'%s)])\n" % (i, f['spelled'], ', transfer_ownership=False' if f['form'] in ('p', 'cp', 'pc', 'cpc') else '')
    return o + "mod.add_function('tag', 'std::string', [param('int', 'i')])\nemit(mod)\n"


E2E = r"""
import sys, os, json
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1]))
spec = json.load(open(os.path.join(sys.argv[1], 'spec.json'))); NC, NS, NE, NK = json.loads(sys.argv[2])
def find(name):
    todo = [M]
    while todo:
        m = todo.pop()
        if hasattr(m, name): return getattr(m, name)
        todo += [x for x in vars(m).values() if type(x) is type(sys) or isinstance(x, type)]
K = [find('K%d' % i) for i in range(NC)]; S = [find('S%d' % i) for i in range(NS)]; C = [find('C%d' % i) for i in range(NK)]
def obj(cls, v):
    o = cls(); o.v = v
    return o
def cont(i, v):
    if i == 0: return [obj(K[0], v)]
    if i == 1: return [obj(K[1], v)]
    if i == 2: return [obj(K[10], v)]
    if i == 3: return [('k', obj(K[1], v))]
    if i == 4: return [v]
    if i == 5: x = M.Inner(); return [[obj(K[5], v)]]
def elem(x):
    while not hasattr(x, 'v') and not isinstance(x, int): x = list(x)[0]; x = x[1] if isinstance(x, tuple) else x
    return x if isinstance(x, int) else x.v
for f in spec:
    drv.op({'k': f['kind'] + ':' + f['form'], 'type': f['spelled']}); drv.ev()
    v = 1000 + f['i']
    k = 'class' if f['kind'] in ('alias', 'attr') else f['kind']
    cls = {'class': K, 'shared': S, 'container': C, 'enum': [int] * NE}[k][f['x']]
    what = '%s declared as %r (C++: %s)%s' % (f['kind'], f['spelled'], f['cxx'], ' with %r as alias of %r' % (f['aliasdecl'], f['alias']) if f['alias'] else '')
    bad = lambda mech, msg: drv.violation('use:' + mech, what + ': ' + msg, f)
    try:
        if f['kind'] == 'attr':
            h = getattr(M, 'H%d' % f['i'])(); h.a = obj(cls, v)
            if type(h.a) is not cls or h.a.v != v: bad('attribute', 'read %r' % h.a)
            for o in K:
                if o is not cls:
                    try: h.a = o()
                    except TypeError: pass
                    else: bad('accepts', 'accepts %r' % o)
        elif f['ret']:
            r = getattr(M, 'f%d' % f['i'])()
            if k == 'enum': ok = r == 0
            elif k == 'container': ok = type(r) is cls and elem(r) == f['i']
            else: ok = type(r) is cls and r.v == f['i']
            if not ok: bad('result', 'got %r' % (r,))
            else: drv.count('results')
        else:
            fn = getattr(M, 'f%d' % f['i'])
            a = obj(cls, v) if k in ('class', 'shared') else 0 if k == 'enum' else cont(f['x'], v)
            want = '%s/%d' % (M.tag({'class': 0, 'shared': 100, 'enum': 200, 'container': 300}[k] + f['x']), 0 if k == 'enum' else v)
            got = fn(a if k != 'container' or f['form'] != 'r' else C[f['x']](a))
            if got != want: bad('argument', 'C++ saw %r instead of %r' % (got, want))
            else: drv.count('arguments')
            if k in ('class', 'shared'):
                for o in K + S:
                    if o is not cls:
                        try: fn(o())
                        except TypeError: drv.count('rejected')
                        else: bad('accepts', 'accepts %r' % o)
    except Exception as e:
        bad('exception', '%s: %s' % (type(e).__name__, e))
    drv.distinct(f['kind'] + f['form'] + str(f['ret']) + str(f['x']))
drv.sample(f['spelled'])
drv.done()
"""


def uses(ck, j, n):
    rng = random.Random('c16u/%s/%d' % (SEED, j))
    spec = e2e_make(rng, n)
    d = os.path.join(scratch(), 'u%d' % j)
    os.makedirs(d)
    write(os.path.join(d, 'spec.json'), json.dumps(spec))
    try:
        handmod.build(d, 'u%d' % j, e2e_header(spec), e2e_gen(rng, spec))
    except Exception as e:
        return j, e
    return j, drive(write(os.path.join(d, 'driver_.py'), E2E), d, 'asan', [d, json.dumps([len(CLASSES), len(SHARED), len(ENUMS), len(CONTAINERS)])], timeout=300)


def main():
    ck = Check('C16', 'distinct C++ types (by compiler identity), and (kind of declaration, form, class) combinations used in built modules')
    for j in range(2 if not THOROUGH else 12):
        expressions(ck, j, 500 if not THOROUGH else 1500)
    for j, r in pmap(lambda j: uses(ck, j, 150), range(4 if not THOROUGH else 24), jobs=4):
        if isinstance(r, Exception): ck.build_failed(r, 'u%d' % j)
        else: ck.absorb(r, 'u%d' % j)
    ck.require('spellings', 5000)
    ck.require('arguments', 100)
    ck.require('results', 50)
    ck.require('rejected', 1000)
    ck.finish()


main()
