"""C15: class relations: random hierarchies in random places, passed to every kind of parameter; implicit conversions."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

PLACES = ['', 'na', 'na::nb', 'nc', 'BoxA', 'BoxB', 'BoxB::In']


def make(rng):
    """groups of classes: single inheritance trees of one memory policy, one family with several bases, one with implicit conversions"""
    classes, groups = [], []
    nk = [0]

    def new(group, bases, **kw):
        i = nk[0]; nk[0] += 1
        c = {'i': i, 'name': 'K%d' % i, 'group': group['g'], 'bases': bases, 'place': rng.choice([p for p in PLACES if all(init_order(p) >= init_order(classes[b]['place']) for b in bases)]), 'poly': group['poly'], 'policy': group['policy'], 'sub': group['sub'],
             'methods': [], 'magic': rng.randint(10**6, 2 * 10**9), 'fill': rng.choice(['', 'int', 'double', 'std::string'])}
        chain = list(ancestors(classes, bases))
        c['methods'].append({'n': 'own%d' % i, 'st': False})
        if rng.random() < .4: c['methods'].append({'n': 'st%d' % i, 'st': True})
        if not bases or rng.random() < .5: c['methods'].append({'n': 'who', 'st': False})
        if (not bases or rng.random() < .4): c['methods'].append({'n': 'swho', 'st': True})
        if not bases or rng.random() < .4: c['ovl'] = rng.sample([['int'], ['std::string'], ['int', 'int'], ['double', 'std::string']], rng.randint(1, 3))
        c['at'] = rng.random() < .5
        c['sat'] = rng.random() < .3
        c['order'] = rng.random()
        c.update(kw)
        classes.append(c)
        return c
    for g, (policy, poly) in enumerate([('plain', True), ('plain', False), ('ref', True), ('shared', rng.random() < .5), ('plain', True)]):
        grp = {'g': g, 'policy': policy, 'poly': poly, 'sub': rng.random() < .7 and not (policy == 'shared' and poly)}
        groups.append(grp)
        mine = []
        for _ in range(rng.randint(3, 6)):
            mine.append(new(grp, [rng.choice(mine)['i']] if mine and policy != 'shared' else []))
    # several bases: the members of two trees, then classes below
    grp = {'g': 5, 'policy': 'plain', 'poly': True, 'sub': rng.random() < .7}
    groups.append(grp)
    # (CPython demands a common root; C++ then needs it to be a virtual base)
    root = new(grp, [], mi=True)
    mids = [new(grp, [root['i']], mi=True, virt=True) for _ in range(rng.randint(2, 3))]
    bs = [m['i'] for m in rng.sample(mids, rng.randint(2, len(mids)))]
    d = new(grp, bs, mi=True)
    # which one is meant must be clear in C++
    if sum(any(m['n'] == 'who' for m in classes[b]['methods']) for b in bs) > 1 and not any(m['n'] == 'who' for m in d['methods']):
        d['methods'].append({'n': 'who', 'st': False})
    if sum('ovl' in classes[b] for b in bs) > 1:
        d.setdefault('ovl', [['int']])
    e = new(grp, [d['i']], mi=True)
    if rng.random() < .5: new(grp, [rng.choice([d, e])['i']], mi=True)
    return classes, groups


def init_order(place):
    """the position of the module's initialisation (see known_findings.txt for bases that come later)"""
    return {'na': 1, 'na::nb': 2, 'nc': 3}.get(place, 0)


def ancestors(classes, bases):
    for b in bases:
        yield b
        for x in ancestors(classes, classes[b]['bases']): yield x


def full(c):
    return (c['place'] + '::' if c['place'] else '') + c['name']


def cpp(classes, conv):
    o = r'''
#include <memory>
#include <typeinfo>
inline void say(const std::string &s) { vf::ev(s); }
inline std::string S(long n) { char b[30]; snprintf(b, sizeof b, "%ld", n); return b; }
'''
    # forward declarations of the members of boxes
    o += 'struct BoxA { BoxA() {} %s };\n' % ' '.join('struct %s;' % c['name'] for c in classes if c['place'] == 'BoxA')
    o += 'struct BoxB { BoxB() {} struct In { In() {} %s }; %s };\n' % (' '.join('struct %s;' % c['name'] for c in classes if c['place'] == 'BoxB::In'), ' '.join('struct %s;' % c['name'] for c in classes if c['place'] == 'BoxB'))
    impl = ''
    for c in classes:
        n, F, i = c['name'], full(c), c['i']
        ns = [p for p in c['place'].split('::') if p and not p.startswith('Box') and p != 'In']
        o += ''.join('namespace %s { ' % p for p in ns)
        o += 'struct %s%s {\n' % (n if ns else F, ' : ' + ', '.join('public %s::' % ('virtual ' if c.get('virt') else '') + full(classes[b]) for b in c['bases']) if c['bases'] else '')
        if not c['bases']:
            o += '  vf::Track track; int id; %s\n' % ('int refs; void ref() { refs++; } void unref() { if (!--refs) delete this; }' if c['policy'] == 'ref' else '')
            o += '  %s(int id_) : track("%s"), id(id_)%s {}\n  %s(const %s &o) : track("%s"), id(o.id)%s, magic%d(%d) {}\n' % (n, n, ', refs(1)' if c['policy'] == 'ref' else '', n, n, n, ', refs(1)' if c['policy'] == 'ref' else '', i, c['magic'])
            if c['poly']: o += '  virtual ~%s() {}\n' % n
        else:
            vroot = [x for x in ancestors(classes, c['bases']) if c.get('mi') and not classes[x]['bases']][:1]
            o += '  %s(int id_) : %s {}\n' % (n, ', '.join('%s(id_)' % full(classes[b]) for b in vroot + [b for b in c['bases'] if b not in vroot]))
        if c['fill']: o += '  %s fill%d = %s();\n' % (c['fill'], i, c['fill'])
        o += '  int magic%d = %d;\n' % (i, c['magic'])
        # what the object looks like through this type
        o += '  std::string look() const { std::string s; ' + ''.join('s += %s::look() + "+"; ' % full(classes[b]) for b in c['bases'])
        if not c['bases']: o += 'track.use(); s += S(id) + "/"; '
        o += 's += magic%d == %d ? "%s" : "BAD"; return s; }\n' % (i, c['magic'], n)
        for m in c['methods']:
            if m['st']: o += '  static int %s(int a) { say("%s.%s " + S(a)); return a + %d; }\n' % (m['n'], n, m['n'], i)
            else: o += '  int %s(int a) { say("%s.%s " + S(a) + " " + look()); return a + %d; }\n' % (m['n'], n, m['n'], i)
        for k, ps in enumerate(c.get('ovl', [])):
            o += '  int ovl(%s) { say("%s.ovl%d " + look()); return %d; }\n' % (', '.join('%s p%d' % (t, q) for q, t in enumerate(ps)), n, k, i)
        if c['at']: o += '  int at%d = %d;\n' % (i, i)
        if c['sat']:
            o += '  static int sat%d;\n' % i
            impl += 'int %s::sat%d = %d;\n' % (F, i, i)
        o += '};\n' + '}' * len(ns) + '\n'
    for c in classes:
        n, F = c['name'], full(c)
        dyn = ' + " " + typeid(%s).name()' if c['poly'] else ' + " -%.0s"'
        o += 'inline const char *ty_%s() { return typeid(%s).name(); }\n' % (n, F)
        if c['policy'] == 'plain': o += 'inline void val_%s(%s x) { say("val_%s " + x.look()); }\n' % (n, F, n)
        if c['policy'] != 'shared':
            o += 'inline void ref_%s(%s &x) { say("ref_%s " + x.look()%s); }\n' % (n, F, n, dyn % 'x')
            o += 'inline void ptr_%s(%s *x) { say("ptr_%s " + (x ? x->look()%s : "null")); }\n' % (n, F, n, dyn % '*x')
            o += 'inline void cptr_%s(const %s *x) { say("cptr_%s " + x->look()%s); }\n' % (n, F, n, dyn % '*x')
            o += 'inline int ov(int k, %s &x) { say("ov_%s " + x.look()%s); return %d; }\n' % (F, n, dyn % 'x', c['i'])
        else:
            o += 'inline void sp_%s(std::shared_ptr<%s> x) { say("sp_%s " + x->look()%s); }\n' % (n, F, n, dyn % '*x')
        o += 'inline void cref_%s(const %s &x) { say("cref_%s " + x.look()%s); }\n' % (n, F, n, dyn % 'x')
    # implicit conversions
    for c in conv:
        n = c['n']
        if c['kind'] == 'S':
            o += 'struct %s%s { ' % (n, ' : ' + c['base'] if c['base'] else '')
            if not c['base']: o += 'vf::Track track; int v; %s(int v_) : track("%s"), v(v_) {} %s' % (n, n, 'virtual ~%s() {} ' % n if c['poly'] else '')
            else: o += '%s(int v_) : %s(v_) {} ' % (n, c['base'])
            o += '};\n'
        else:
            o += 'struct %s%s { ' % (n, ' : ' + c['base'] if c['base'] else '')
            if not c['base']:
                o += 'vf::Track track; std::string v; %s() : track("%s"), v("none") {} %s(int k) : track("%s"), v(S(k)) {} ' % (n, n, n, n)
                for s in c['from']: o += '%s(const %s &s) : track("%s"), v("%s(" + S(s.v) + ")") { s.track.use(); } ' % (n, s, n, s)
                if c['poly']: o += 'virtual ~%s() {} ' % n
                o += '%s std::string look() const { track.use(); return "%s:" + v; } ' % ('virtual' if c['poly'] else '', n)
            else:
                o += '%s() {} %s(int k) : %s(k) {} ' % (n, n, c['base'])
                o += 'std::string look() const { return "%s:" + v; } ' % n
            o += '};\n'
    for c in conv:
        n = c['n']
        if c['kind'] == 'T':
            o += 'inline void cval_%s(%s x) { say("cval_%s " + x.look()); }\ninline void ccref_%s(const %s &x) { say("ccref_%s " + x.look()); }\n' % ((n,) * 6)
            o += 'inline void cdval_%s(int a, %s x = %s(77)) { say("cdval_%s " + x.look()); }\n' % (n, n, n, n)
            o += 'inline void cref2_%s(%s &x) { say("cref2_%s " + x.look()); x.v += "!"; }\ninline void cptr2_%s(%s *x) { say("cptr2_%s " + x->look()); }\n' % ((n,) * 6)
            o += 'inline void cpair_%s(const %s &x, %s y) { say("cpair_%s " + x.look() + " " + y.look()); }\n' % ((n,) * 4)
            o += 'struct H%s { std::string t; H%s(const %s &x) : t(x.look()) { say("H%s " + x.look()); } void set(%s x) { say("H%s.set " + x.look()); } static void sset(const %s &x) { say("H%s.sset " + x.look()); } };\n' % ((n,) * 8)
    for i, ovl in enumerate(conv_overloads(conv)):
        for k, (t, how) in enumerate(ovl):
            o += 'inline int cov%d_%d(%s x) { say("cov%d_%d " + S((long) sizeof(x) * 0 + %d)); return %d; }\n' % (i, k, {'val': t, 'cref': 'const %s &' % t}[how], i, k, k, k)
    return o, impl


def conv_overloads(conv):
    return conv[-1]['ovl'] if conv and 'ovl' in conv[-1] else []


def make_conv(rng):
    out = []
    src = []
    for i in range(rng.randint(2, 4)):
        base = rng.choice([None] + src) if src else None
        out.append({'kind': 'S', 'n': 'S%d' % i, 'base': base, 'poly': rng.random() < .5 if base is None else next(c['poly'] for c in out if c['n'] == base), 'sub': rng.random() < .6})
        src.append('S%d' % i)
    tg = []
    for i in range(rng.randint(2, 4)):
        base = rng.choice([None, None] + tg) if tg else None
        # only classes that are not derived from each other, so that C++ has no ambiguity
        roots = [c['n'] for c in out if c['kind'] == 'S']
        frm = [] if base else rng.sample(roots, rng.randint(1, len(roots)))
        out.append({'kind': 'T', 'n': 'T%d' % i, 'base': base, 'from': frm, 'poly': rng.random() < .6 if base is None else next(c['poly'] for c in out if c['n'] == base), 'sub': rng.random() < .6})
        tg.append('T%d' % i)
    ovl = []
    for _ in range(4):
        ts = rng.sample(src + tg, rng.randint(2, min(4, len(src + tg))))
        ovl.append([[t, rng.choice(['val', 'cref'])] for t in ts])
    out[-1]['ovl'] = ovl
    return out


GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
settings.wrapper_registry = StdMapWrapperRegistry if spec['registry'] else NullWrapperRegistry
mod = new_module()
na = mod.add_cpp_namespace('na'); nb = na.add_cpp_namespace('nb'); nc = mod.add_cpp_namespace('nc')
BoxA = mod.add_class('BoxA'); BoxA.add_constructor([]); BoxB = mod.add_class('BoxB'); BoxB.add_constructor([]); In = mod.add_class('In', outer_class=BoxB); In.add_constructor([])
K = []
for c in spec['classes']:
    kw = {}
    if c['bases']: kw['parent'] = [K[b] for b in c['bases']] if len(c['bases']) > 1 or c['order'] < .5 else K[c['bases'][0]]
    else:
        kw['allow_subclassing'] = c['sub']
        if c['policy'] == 'ref': kw['memory_policy'] = ReferenceCountingMethodsPolicy('ref', 'unref')
    F = (c['place'] + '::' if c['place'] else '') + c['name']
    if c['policy'] == 'shared': kw['memory_policy'] = StdSharedPtr('::' + F)
    p = c['place']
    if p.startswith('Box'): k = mod.add_class(c['name'], outer_class={'BoxA': BoxA, 'BoxB': BoxB, 'BoxB::In': In}[p], **kw)
    else: k = {'': mod, 'na': na, 'na::nb': nb, 'nc': nc}[p].add_class(c['name'], **kw)
    K.append(k)
    k.add_constructor([param('int', 'id')])
    if c['policy'] == 'plain': k.add_copy_constructor()
    for m in c['methods']: k.add_method(m['n'], retval('int'), [param('int', 'a')], is_static=m['st'])
    for ps in c.get('ovl', []): k.add_method('ovl', retval('int'), [param(t, 'p%d' % q) for q, t in enumerate(ps)])
    k.add_method('look', retval('std::string'), [], is_const=True)
    if c['at']: k.add_instance_attribute('at%d' % c['i'], 'int')
    if c['sat']: k.add_static_attribute('sat%d' % c['i'], 'int')
for c in spec['classes']:
    F = (c['place'] + '::' if c['place'] else '') + c['name']
    n = c['name']
    if c['policy'] == 'plain': mod.add_function('val_' + n, None, [param(F, 'x')])
    if c['policy'] != 'shared':
        mod.add_function('ref_' + n, None, [param(F + '&', 'x')])
        mod.add_function('ptr_' + n, None, [param(F + '*', 'x', transfer_ownership=False, null_ok=c['order'] < .3)])
        mod.add_function('cptr_' + n, None, [param('const %s *' % F, 'x')] if c['order'] < .5 else [param(F + ' const*', 'x', transfer_ownership=False)])
    else: mod.add_function('sp_' + n, None, [param('std::shared_ptr< %s >' % F, 'x')])
    mod.add_function('cref_' + n, None, [param('const %s &' % F, 'x')])
    mod.add_function('ty_' + n, retval('const char*'), [])
for i in spec['ovs']:
    c = spec['classes'][i]
    mod.add_function('ov', retval('int'), [param('int', 'k'), param(((c['place'] + '::' if c['place'] else '') + c['name']) + '&', 'x')])
C = {}
for c in spec['conv']:
    kw = {'parent': C[c['base']]} if c['base'] else {'allow_subclassing': c['sub']}
    k = C[c['n']] = mod.add_class(c['n'], **kw)
    k.add_constructor([param('int', 'k')]); k.add_copy_constructor()
    if c['kind'] == 'T': k.add_constructor([]); k.add_instance_attribute('v', 'std::string')
for c in spec['conv']:
    for s in c.get('from', []): C[s].implicitly_converts_to(C[c['n']])
for c in spec['conv']:
    n = c['n']
    if c['kind'] == 'T':
        mod.add_function('cval_' + n, None, [param(n, 'x')]); mod.add_function('ccref_' + n, None, [param('const %s &' % n, 'x')])
        mod.add_function('cdval_' + n, None, [param('int', 'a'), param(n, 'x', default_value='%s(77)' % n)])
        mod.add_function('cref2_' + n, None, [param(n + '&', 'x', direction=INOUT)]); mod.add_function('cptr2_' + n, None, [param(n + '*', 'x', transfer_ownership=False)])
        mod.add_function('cpair_' + n, None, [param('const %s &' % n, 'x'), param(n, 'y')])
        h = mod.add_class('H' + n); h.add_constructor([param('const %s &' % n, 'x')]); h.add_method('set', None, [param(n, 'x')]); h.add_method('sset', None, [param('%s const&' % n, 'x')], is_static=True)
for i, ovl in enumerate(spec['conv'][-1]['ovl']):
    for k, (t, how) in enumerate(ovl):
        mod.add_function('cov%d_%d' % (i, k), retval('int'), [param({'val': t, 'cref': 'const %s &' % t}[how], 'x')], custom_name='cov%d' % i)
emit(mod)
'''

DRIVER = r'''
import sys, os, json, random, gc
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1])); c = drv.CSide(M)
spec = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
classes, conv = spec['classes'], spec['conv']
rng = random.Random('%s/%s' % (drv.SEED, os.path.basename(sys.argv[1])))
rounds = int(sys.argv[2])
class Fail(Exception): pass
def at(path):
    o = M
    for p in path.split('::') if path else []: o = getattr(o, p)
    return o
KT = [getattr(at(k['place']), k['name']) for k in classes]
TY = {k['name']: getattr(M, 'ty_' + k['name'])() for k in classes}
NAME = dict((v, k) for k, v in TY.items())
c.log()
def anc(i):
    """the class and everything above, in the order of attribute lookup"""
    return [classes[int(t.__name__[1:])] for t in KT[i].__mro__ if t.__name__[:1] == 'K']
def up(i):
    out = [i]
    for b in classes[i]['bases']: out += up(b)
    return out
def first_chain(i):
    """classes whose part of the object is at its start"""
    out = [i]
    while classes[i]['bases'] and not classes[i].get('virt'): i = classes[i]['bases'][0]; out.append(i)
    return out
def look(i, ident):
    """what C++ says about the object seen as class i"""
    k = classes[i]
    s = ''.join(look(b, ident) + '+' for n, b in enumerate(k['bases']))
    if not k['bases']: s += '%d/' % ident
    return s + k['name']
def run(what, fn, want, log):
    drv.op({'k': what}); drv.ev(); c.log()
    try: got = ('ok', fn())
    except TypeError as e: got = ('TypeError', str(e)[:60])
    except Exception as e: got = (type(e).__name__, str(e))
    l = c.log()
    l = [' '.join(NAME.get(w, w) for w in x.split(' ')) for x in l if not x.startswith(('+', '~'))]
    if want == 'TypeError':
        drv.count('refused')
        if got[0] != 'TypeError' or l: raise Fail('%s gave %r, C++ saw %s; expected a TypeError' % (what, got, l))
    else:
        drv.count('accepted')
        if got != ('ok', want) or l != log: raise Fail('%s gave %r and C++ saw %s; expected %r and %s' % (what, got, l, want, log))
    drv.distinct(what.split('(')[0])
KF = {}
def known(key, fn):
    """a listed finding: observed, not judged here"""
    KF[key] = KF.get(key, 0) + 1

def objects(i):
    ident = rng.randint(1, 900)
    yield KT[i](ident), ident, 'K%d' % i
    if classes[i]['sub'] and all(classes[j]['sub'] for j in up(i)):
        class P(KT[i]): pass
        class Q(P):
            def extra(self): return 5
        ident = rng.randint(1, 900)
        yield P(ident), ident, 'P(K%d)' % i
        q = Q(ident); q.attr = 1
        yield q, ident, 'Q(P(K%d))' % i
        class R(object): pass
        class Z(P, R): pass
        yield Z(ident), ident, 'Z(P(K%d), R)' % i

def relations():
    for i, k in enumerate(classes):
        for j, k2 in enumerate(classes):
            if issubclass(KT[i], KT[j]) != (j in up(i)): raise Fail('issubclass(%s, %s) is %s' % (k['name'], k2['name'], issubclass(KT[i], KT[j])))
        if [t for t in KT[i].__bases__ if t is not object] != [KT[b] for b in k['bases']]: raise Fail('bases of %s are %s instead of %s' % (k['name'], KT[i].__bases__, k['bases']))
        drv.ev(); drv.count('relations')

def members(i, o, ident, what):
    seen = set()
    for k in [classes[i]] if classes[i].get('virt') else anc(i):
        for m in k['methods']:
            if m['n'] in seen: continue
            seen.add(m['n'])
            a = rng.randint(-99, 99)
            if m['st']:
                for t, tn in ((o, what), (type(o), 'type(%s)' % what)):
                    run('%s.%s(%d)' % (tn, m['n'], a), lambda: getattr(t, m['n'])(a), a + k['i'], ['%s.%s %d' % (k['name'], m['n'], a)])
            else:
                run('%s.%s(%d)' % (what, m['n'], a), lambda: getattr(o, m['n'])(a), a + k['i'], ['%s.%s %d %s' % (k['name'], m['n'], a, look(k['i'], ident))])
    # overloads: those of the first class that declares any, as in C++
    own = [k for k in ([classes[i]] if classes[i].get('virt') else anc(i)) if 'ovl' in k][:1]
    for k in own:
        for args, ps in (((1,), ['int']), (('x',), ['std::string']), ((1, 2), ['int', 'int']), ((1.5, 'x'), ['double', 'std::string'])):
            if ps in k['ovl']: run('%s.ovl%r' % (what, args), lambda: o.ovl(*args), k['i'], ['%s.ovl%d %s' % (k['name'], k['ovl'].index(ps), look(k['i'], ident))])
            else: run('%s.ovl%r' % (what, args), lambda: o.ovl(*args), 'TypeError', [])
    for j in first_chain(i):
        k = classes[j]
        for m in k['methods']:
            a = rng.randint(-99, 99)
            if m['st']: continue
            run('K%d.%s(%s, %d)' % (j, m['n'], what, a), lambda: getattr(KT[j], m['n'])(o, a), a + j, ['%s.%s %d %s' % (k['name'], m['n'], a, look(j, ident))])
        if k['at']:
            v = rng.randint(-999, 999)
            setattr(o, 'at%d' % j, v)
            run('%s.at%d' % (what, j), lambda: getattr(o, 'at%d' % j), v, [])
        if k['sat']:
            v = rng.randint(-999, 999)
            setattr(KT[j], 'sat%d' % j, v)
            run('%s.sat%d' % (what, j), lambda: getattr(type(o), 'sat%d' % j), v, [])
    # an unbound method refuses objects that are not of its class
    for j in rng.sample(range(len(classes)), 4):
        if j not in up(i):
            m = [m for m in classes[j]['methods'] if not m['st']][0]
            run('K%d.%s(%s)' % (j, m['n'], what), lambda: getattr(KT[j], m['n'])(o, 1), 'TypeError', [])
    run('%s.look()' % what, lambda: o.look(), look(i, ident), [])

def kinds(k):
    out = ['cref']
    if k['policy'] == 'plain': out.append('val')
    return out + (['sp'] if k['policy'] == 'shared' else ['ref', 'ptr', 'cptr'])
def passing(i, o, ident, what):
    ok = first_chain(i)
    for j, k in enumerate(classes):
        if j in up(i) and j not in ok: continue         # see known_findings.txt
        for kind in kinds(k):
            fn = getattr(M, '%s_K%d' % (kind, j))
            if j in ok:
                dyn = ('' if kind == 'val' else ' K%d' % i if k['poly'] else ' -')
                run('%s_K%d(%s)' % (kind, j, what), lambda: fn(o), None, ['%s_K%d %s%s' % (kind, j, look(j, ident), dyn)])
                run('%s_K%d(x=%s)' % (kind, j, what), lambda: fn(x=o), None, ['%s_K%d %s%s' % (kind, j, look(j, ident), dyn)])
            else:
                run('%s_K%d(%s)' % (kind, j, what), lambda: fn(o), 'TypeError', [])
    want = [j for j in spec['ovs'] if j in up(i)]
    if not any(j in up(i) and j not in ok for j in spec['ovs']):
        if want: run('ov(%s)' % what, lambda: M.ov(0, o), want[0], ['ov_K%d %s%s' % (want[0], look(want[0], ident), ' K%d' % i if classes[i]['poly'] else ' -')])
        else: run('ov(%s)' % what, lambda: M.ov(0, o), 'TypeError', [])
def rubbish():
    for j, k in enumerate(classes):
        for kind in kinds(k):
            fn = getattr(M, '%s_K%d' % (kind, j))
            for x in (None, 1, 'K', KT[j], object(), [], M.BoxA()):
                if x is None and kind == 'ptr' and k['order'] < .3: run('ptr_K%d(None)' % j, lambda: fn(None), None, ['ptr_K%d null' % j])
                else: run('%s_K%d(%s)' % (kind, j, type(x).__name__), lambda: fn(x), 'TypeError', [])

# ---------------------------------------------------------------- implicit conversions
CV = {k['n']: k for k in conv}
def cup(n):
    while n: yield n; n = CV[n]['base']
def conversions():
    def things():
        for n in CV:
            t = getattr(M, n)
            yield n, t, n
            if all(CV[u]['sub'] for u in list(cup(n))[-1:]):
                class P(t): pass
                yield n, P, 'P(%s)' % n
    for n, t, tn in things():
        kind = CV[n]['kind']
        for tg in conv:
            if tg['kind'] != 'T': continue
            T = tg['n']
            v = rng.randint(1, 999)
            # by value (a derived object is sliced, its look() is then that of T), and by reference (the object itself)
            def expect(x_is, ref):
                if kind == 'T':
                    if T in cup(n): return '%s:%d' % ((n if ref and CV[n]['poly'] else T), v)
                else:
                    # the first declared source class the object belongs to: declaration order, most derived classes are not preferred
                    for s in conv:
                        if s['kind'] == 'S' and s['n'] in cup(n) and s['n'] in tg['from']:
                            first = next(x for x in declared_order(T) if x in cup(n))
                            return '%s:%s(%d)' % (T, first, v)
            def go(fname, fn, text, pre=''):
                o = t(v)
                w = expect(n, fname.startswith(('ccref', 'H_ctor', 'sset')))
                if w is None: run('%s(%s)' % (fname, tn), lambda: fn(o), 'TypeError', [])
                else: run('%s(%s)' % (fname, tn), lambda: fn(o), None, [pre + w])
            go('cval_' + T, getattr(M, 'cval_' + T), '', 'cval_%s ' % T)
            go('ccref_' + T, getattr(M, 'ccref_' + T), '', 'ccref_%s ' % T)
            go('cdval_' + T, lambda o: getattr(M, 'cdval_' + T)(1, o), '', 'cdval_%s ' % T)
            go('cdval_k' + T, lambda o: getattr(M, 'cdval_' + T)(x=o, a=1), '', 'cdval_%s ' % T)
            H = getattr(M, 'H' + T)
            go('H_ctor' + T, lambda o: H(o) and None, '', 'H%s ' % T)
            c.log(); h = H(getattr(M, T)(1)); c.log()
            go('set' + T, h.set, '', 'H%s.set ' % T)
            go('sset' + T, H.sset, '', 'H%s.sset ' % T)
            # no conversion for non-const references and pointers
            o = t(v)
            if kind == 'T' and T in cup(n):
                w = '%s:%d' % (n if CV[n]['poly'] else T, v)
                run('cref2_%s(%s)' % (T, tn), lambda: getattr(M, 'cref2_' + T)(o), None, ['cref2_%s %s' % (T, w)])
                if o.v != '%d!' % v: raise Fail('cref2_%s(%s) did not change its argument: %r' % (T, tn, o.v))
                run('cptr2_%s(%s)' % (T, tn), lambda: getattr(M, 'cptr2_' + T)(o), None, ['cptr2_%s %s!' % (T, w)])
            else:
                run('cref2_%s(%s)' % (T, tn), lambda: getattr(M, 'cref2_' + T)(o), 'TypeError', [])
                run('cptr2_%s(%s)' % (T, tn), lambda: getattr(M, 'cptr2_' + T)(o), 'TypeError', [])
            a, b = expect(n, True), expect(n, False)
            o = t(v)
            if a is None: run('cpair_%s(%s)' % (T, tn), lambda: getattr(M, 'cpair_' + T)(o, o), 'TypeError', [])
            else:
                run('cpair_%s(%s)' % (T, tn), lambda: getattr(M, 'cpair_' + T)(o, o), None, ['cpair_%s %s %s' % (T, a, b)])
                for bad in (None, 3, 'x', M.BoxA()):
                    run('cpair_%s(%s, %r)' % (T, tn, bad), lambda: getattr(M, 'cpair_' + T)(o, bad), 'TypeError', [])
                    run('cpair_%s(%r, %s)' % (T, bad, tn), lambda: getattr(M, 'cpair_' + T)(bad, o), 'TypeError', [])
        for i, ovl in enumerate(conv[-1]['ovl']):
            o = t(7)
            ok = [k for k, (pt, how) in enumerate(ovl) if pt in cup(n) or CV[pt]['kind'] == 'T' and any(s in cup(n) for s in CV[pt].get('from', []))]
            f = getattr(M, 'cov%d' % i)
            if ok: run('cov%d(%s)' % (i, tn), lambda: f(o), ok[0], ['cov%d_%d %d' % (i, ok[0], ok[0])])
            else: run('cov%d(%s)' % (i, tn), lambda: f(o), 'TypeError', [])
    for tg in conv:
        if tg['kind'] == 'T': run('cdval_%s()' % tg['n'], lambda: getattr(M, 'cdval_' + tg['n'])(1), None, ['cdval_%s %s:77' % (tg['n'], tg['n'])])
def declared_order(T): return CV[T]['from']
try:
    relations()
    rubbish()
    for r in range(rounds):
        for i in range(len(classes)):
            for o, ident, what in objects(i):
                members(i, o, ident, what)
                passing(i, o, ident, what)
        conversions()
        del o; gc.collect()
except Fail as e:
    drv.violation(str(e).split('(')[0][:60], str(e), {'classes': [(k['name'], k['bases'], k['place'], k['policy'], k['poly']) for k in classes], 'conv': conv})
drv.sample([(k['name'], k['bases'], k['place'], k['policy']) for k in classes][:8])
drv.done()
'''


# ---- the recorded findings, each in a module of its own (what it does beyond them is a violation as usual)
KF_HEADER = r'''
struct VRoot { vf::Track track; int r; VRoot() : track("VRoot"), r(11) {} int root() { return r; } };
struct VMid1 : public virtual VRoot { int a; VMid1() : a(21) {} int mid1() { return a; } };
struct VMid2 : public virtual VRoot { int b; VMid2() : b(31) {} int mid2() { return b; } };
struct VMix : public VMid1, public VMid2 { int c; VMix() : c(41) {} int mix() { return c; } };
inline int see_root(VRoot &x) { return x.r; } inline int see_mid1(VMid1 &x) { return x.a; } inline int see_mid2(VMid2 &x) { return x.b; } inline int see_mix(VMix &x) { return x.c; }
struct NRoot { int n; NRoot() : n(51) {} int nroot() { return n; } };
struct NPoly : public NRoot { int p; NPoly() : p(61) {} virtual ~NPoly() {} int npoly() { return p; } };
inline int see_n(NRoot &x) { return x.n; }
namespace late { struct L0 { vf::Track track; L0() : track("L0") {} int l0() { return 71; } }; struct L1 : public L0 { int l1() { return 72; } }; }
struct L2 : public late::L1 { int l2() { return 73; } };
inline int see_l0(late::L0 &x) { return 74; }
'''
KF_GEN = r'''
mod = new_module()
kw = dict(allow_subclassing=False)
VRoot = mod.add_class('VRoot', **kw); VMid1 = mod.add_class('VMid1', parent=VRoot); VMid2 = mod.add_class('VMid2', parent=VRoot); VMix = mod.add_class('VMix', parent=[VMid1, VMid2])
for k, n in ((VRoot, 'root'), (VMid1, 'mid1'), (VMid2, 'mid2'), (VMix, 'mix')):
    k.add_constructor([]); k.add_method(n, retval('int'), [])
    mod.add_function('see_' + n, retval('int'), [param(k.name + '&', 'x')])
NRoot = mod.add_class('NRoot', **kw); NRoot.add_constructor([]); NRoot.add_method('nroot', retval('int'), [])
NPoly = mod.add_class('NPoly', parent=NRoot); NPoly.add_constructor([]); NPoly.add_method('npoly', retval('int'), [])
mod.add_function('see_n', retval('int'), [param('NRoot&', 'x')])
late = mod.add_cpp_namespace('late')
L0 = late.add_class('L0', **kw); L0.add_constructor([]); L0.add_method('l0', retval('int'), [])
L1 = late.add_class('L1', parent=L0); L1.add_constructor([]); L1.add_method('l1', retval('int'), [])
L2 = mod.add_class('L2', parent=L1); L2.add_constructor([]); L2.add_method('l2', retval('int'), [])
mod.add_function('see_l0', retval('int'), [param('late::L0&', 'x')])
emit(mod)
'''
KF_DRIVER = r'''
import sys, os
from vf import drv
sys.path.insert(0, sys.argv[1])
M = __import__(os.path.basename(sys.argv[1])); c = drv.CSide(M)
def t(key, what, fn, want):
    drv.op({'k': what}); drv.ev(); drv.count('finding_cases')
    try: got = fn()
    except Exception as e: got = type(e).__name__
    if got != want: drv.violation(key, '%s gives %r instead of %r' % (what, got, want))
v = M.VMix()
for n, w in (('root', 11), ('mid1', 21), ('mid2', 31), ('mix', 41)): t('mixed-method', 'VMix().%s()' % n, lambda: getattr(v, n)(), w)
t('own-method', 'VMid1().mid1()', lambda: M.VMid1().mid1(), 21)
t('first-base', 'see_mid1(VMix())', lambda: M.see_mid1(v), 21); t('first-base', 'see_mix(VMix())', lambda: M.see_mix(v), 41)
t('base-at-an-offset', 'VMid1().root()', lambda: M.VMid1().root(), 11)
t('base-at-an-offset', 'see_root(VMix())', lambda: M.see_root(v), 11)
t('base-at-an-offset', 'see_mid2(VMix())', lambda: M.see_mid2(v), 31)
t('base-at-an-offset', 'NPoly().nroot()', lambda: M.NPoly().nroot(), 51)
t('base-at-an-offset', 'see_n(NPoly())', lambda: M.see_n(M.NPoly()), 51)
l = M.L2()
t('own-method', 'L2().l2()', lambda: l.l2(), 73); t('later-module', 'L2().l1()', lambda: l.l1(), 72)
t('later-module', 'L2().l0()', lambda: l.l0(), 71); t('later-module', 'issubclass(L2, L0)', lambda: issubclass(M.L2, M.late.L0), True); t('later-module', 'see_l0(L2())', lambda: M.see_l0(l), 74)
drv.done()
'''


def main():
    ck = Check('C15', 'distinct (operation, class, object kind) combinations')
    n = 6 if not THOROUGH else 40

    def one(j):
        rng = random.Random('c15/%s/%d' % (SEED, j))
        cl, groups = make(rng)
        conv = make_conv(rng)
        ovs = [c['i'] for c in cl if c['policy'] != 'shared']
        rng.shuffle(ovs)
        d = os.path.join(scratch(), 'h%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps({'classes': cl, 'conv': conv, 'ovs': ovs[:rng.randint(3, 8)], 'registry': rng.random() < .5}))
        h, impl = cpp(cl, conv)
        try:
            handmod.build(d, 'h%d' % j, h, GEN, impl=impl)
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, '1' if not THOROUGH else '3'], timeout=800)
    for j, r in pmap(one, range(n)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'h%d' % j)
        else:
            ck.absorb(r, 'h%d' % j)
    handmod.simple(ck, 'findings', KF_HEADER, KF_GEN, KF_DRIVER)
    ck.require('finding_cases', 10)
    ck.require('accepted', n * 500)
    ck.require('refused', n * 500)
    ck.require('relations', n * 15)
    ck.finish()


main()
