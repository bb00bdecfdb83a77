"""C08: virtual dispatch between C++ and Python: random class hierarchies and Python subclasses against a model of who must run."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

# signature kinds: (return, parameters)
SIGS = [('int', ['int']), ('int', ['int', 'int']), ('void', ['int']), ('void', []), ('std::string', ['std::string']), ('double', ['int', 'int']),
        ('int', ['std::string']), ('std::string', ['int']), ('double', ['std::string', 'int']), ('bool', ['int'])]


def make(rng):
    """a random hierarchy: list of classes {'name','parent','methods':[{'name','ret','ps','vis','pure','const','tag','nested':[...],'k'}]}"""
    classes = []
    names = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta']
    ncls = rng.randint(3, 6)
    free = list(names)
    decided = {}
    for i in range(ncls):
        parent = None if i == 0 else rng.randrange(max(0, i - 3), i)
        c = {'name': 'K%d' % i, 'parent': parent, 'methods': [], 'copies': rng.random() < .5}
        chain, p = [], parent
        while p is not None:
            chain.append(classes[p]); p = classes[p]['parent']
        known = {}
        for k in reversed(chain):
            for m in k['methods']:
                known[m['name'], tuple(m['ps'])] = m
        # overrides of inherited methods: all overloads of the name or none (C++ would hide the others)
        for nm in sorted(set(n for n, s in known)):
            mine = [known[k] for k in sorted(known) if k[0] == nm]
            if rng.random() < .4:
                for m in mine:
                    c['methods'].append(dict(m, pure=m['pure'] and rng.random() < .2, intro=False))
        # new ones
        inherited = set(n for n, s in known)
        for _ in range(rng.randint(1, 3) if i == 0 else rng.choice([0, 0, 1, 2])):
            cand = [n for n in free if n not in inherited and not any(m['name'] == n for m in c['methods'])]
            if not cand:
                break
            nm = rng.choice(cand)
            sigs = rng.sample(SIGS, 1 if rng.random() < .65 else 2)
            if len(sigs) == 2 and sigs[0][1] == sigs[1][1]:
                sigs = sigs[:1]
            vis = rng.choice(['public', 'public', 'public', 'protected', 'private'])
            # siblings that introduce the same name do it with the same signatures
            sigs, vis, const = decided.setdefault(nm, (sigs, vis, [rng.random() < .3 for s in sigs]))
            for (ret, ps), cst in zip(sigs, const):
                c['methods'].append({'name': nm, 'ret': ret, 'ps': ps, 'vis': vis, 'pure': rng.random() < .15, 'const': cst, 'intro': True})
        classes.append(c)
    # bodies
    idx = {n: i for i, n in enumerate(names)}
    for i, c in enumerate(classes):
        avail, p = [], i
        while p is not None:
            avail += [m for m in classes[p]['methods']]
            p = classes[p]['parent']
        for j, m in enumerate(c['methods']):
            m['k'] = (i + 1) * 100 + j
            m['tag'] = '%s.%s#%d' % (c['name'], m['name'], SIGS.index((m['ret'], m['ps'])))
            m['key'] = '%s#%d' % (m['name'], SIGS.index((m['ret'], m['ps'])))
            m['nested'] = []
            if not m['pure']:
                cand = sorted(set((x['name'], SIGS.index((x['ret'], x['ps']))) for x in avail if idx[x['name']] > idx[m['name']]
                                  and (x['vis'] != 'private' or x in c['methods']) and (x['const'] or not m['const'])))
                # a private method can only be called from the class that declares it
                for n, s in rng.sample(cand, min(len(cand), rng.choice([0, 0, 1, 2]))):
                    m['nested'].append(['%s#%d' % (n, s)])
    return classes


ARG = {'int': 'i', 'std::string': 's'}


def cpp(classes):
    o = r'''
inline void note(const std::string &s) { vf::ev(s); }
inline std::string S(int i) { char b[20]; snprintf(b, sizeof b, "%d", i); return b; }
inline std::string S(const std::string &s) { return s; }
inline std::string S(bool b) { return b ? "1" : "0"; }
inline std::string S(double d) { char b[30]; snprintf(b, sizeof b, "%.1f", d); return b; }
'''
    for c in classes:
        o += 'class %s%s {\n' % (c['name'], ' : public ' + classes[c['parent']]['name'] if c['parent'] is not None else '')
        o += 'public:\n'
        if c['parent'] is None:
            o += '  int fill; %s() : fill(7) {} virtual ~%s() {}\n' % (c['name'], c['name'])
        else:
            o += '  int fill_%s; %s() : fill_%s(9) {}\n' % (c['name'], c['name'], c['name'])
        for m in c['methods']:
            ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(m['ps']))
            con = ' const' if m['const'] else ''
            o += '%s:\n  virtual %s %s(%s)%s' % (m['vis'], m['ret'], m['name'], ps, con)
            if m['pure']:
                o += ' = 0;\n'
            else:
                b = 'note(std::string("%s")%s);' % (m['tag'], ''.join(' + " " + S(a%d)' % i for i in range(len(m['ps']))))
                add = []
                for k, (key,) in enumerate(m['nested']):
                    n, s = key.split('#')
                    ret, ps2 = SIGS[int(s)]
                    args = ', '.join(('%d' % (k + 2)) if t == 'int' else 'std::string("n%d")' % k for t in ps2)
                    call = 'this->%s(%s)' % (n, args)
                    if ret == 'void':
                        b += ' %s;' % call
                    else:
                        b += ' std::string r%d = S(%s);' % (k, call)
                        add.append(k)
                # every result is made from a text: the tag constant, the arguments and the nested results
                b += ' std::string t = "%d"%s%s;' % (m['k'], ''.join(' + ("," + S(a%d))' % i for i in range(len(m['ps']))), ''.join(' + ("/" + r%d)' % k for k in add))
                b = b.replace('std::string t = "', 'std::string t = std::string("').replace('t = std::string("%d"' % m['k'], 't = std::string("%d")' % m['k'])
                b += {'void': '', 'int': ' return (int) t.size() * 1000 + %d;' % m['k'], 'std::string': ' return t;',
                      'double': ' return t.size() + 0.5;', 'bool': ' return t.size() %% 2 == 0;' % () if False else ' return t.size() % 2 == 0;'}[m['ret']]
                o += ' { %s }\n' % b
            if m['intro']:
                call = '%s(%s)' % (m['name'], ', '.join('a%d' % i for i in range(len(m['ps']))))
                o += 'public:\n  %s call_%s(%s)%s { %s%s; }\n' % (m['ret'], m['key'].replace('#', '_'), ps, con, '' if m['ret'] == 'void' else 'return ', call)
        o += '};\n'
    for c in classes:
        for m in c['methods']:
            if m['intro']:
                ps = ''.join(', %s a%d' % (t, i) for i, t in enumerate(m['ps']))
                kk = m['key'].replace('#', '_')
                call = 'o%%scall_%s(%s)' % (kk, ', '.join('a%d' % i for i in range(len(m['ps']))))
                r = '' if m['ret'] == 'void' else 'return '
                o += 'inline %s ptr_%s_%s(%s *o%s) { %s%s; }\n' % (m['ret'], c['name'], kk, c['name'], ps, r, call % '->')
                o += 'inline %s ref_%s_%s(%s &o%s) { %s%s; }\n' % (m['ret'], c['name'], kk, c['name'], ps, r, call % '.')
        o += 'inline %s *&held_%s() { static %s *p; return p; }\n' % ((c['name'],) * 3)
        o += 'inline void keep_%s(%s *p) { delete held_%s(); held_%s() = p; }\n' % ((c['name'],) * 4)
        o += 'inline %s *look_%s() { return held_%s(); }\n' % ((c['name'],) * 3)
    for i, c in enumerate(classes):
        if not abstract(classes, i):
            p = i
            while p is not None:
                o += 'inline %s *make_%s_as_%s() { return new %s; }\n' % (classes[p]['name'], c['name'], classes[p]['name'], c['name'])
                p = classes[p]['parent']
    return o


def abstract(classes, i):
    seen, p = {}, i
    while p is not None:
        for m in classes[p]['methods']:
            seen.setdefault(m['key'], m['pure'])
        p = classes[p]['parent']
    return any(seen.values())


GEN = r'''
import json
classes = json.load(open(os.path.join(outdir, 'spec.json')))
mod = new_module()
K = []
for c in classes:
    k = mod.add_class(c['name'], **({'allow_subclassing': True} if c['parent'] is None else {'parent': K[c['parent']]}))
    K.append(k)
for c, k in zip(classes, K):
    k.add_constructor([])
    for m in c['methods']:
        ps = lambda: [param(t, 'a%d' % i) for i, t in enumerate(m['ps'])]
        ret = lambda: None if m['ret'] == 'void' else retval(m['ret'])
        kw = {'visibility': m['vis']} if m['vis'] != 'public' else {}
        k.add_method(m['name'], ret(), ps(), is_virtual=True, is_pure_virtual=m['pure'], is_const=m['const'], **kw)
        if m['intro']:
            kk = m['key'].replace('#', '_')
            k.add_method('call_' + kk, ret(), ps(), is_const=m['const'])
for c, k in zip(classes, K):
    for m in c['methods']:
        if m['intro']:
            ps = lambda: [param(t, 'a%d' % i) for i, t in enumerate(m['ps'])]
            ret = lambda: None if m['ret'] == 'void' else retval(m['ret'])
            kk = c['name'] + '_' + m['key'].replace('#', '_')
            mod.add_function('ptr_' + kk, ret(), [param(c['name'] + '*', 'o', transfer_ownership=False)] + ps())
            mod.add_function('ref_' + kk, ret(), [param(c['name'] + '&', 'o')] + ps())
    mod.add_function('keep_' + c['name'], None, [param(c['name'] + '*', 'p', transfer_ownership=True, null_ok=True)])
    mod.add_function('look_' + c['name'], retval(c['name'] + '*', reference_existing_object=True), [])
for n in json.load(open(os.path.join(outdir, 'makes.json'))):
    mod.add_function(n, retval(n.split('_as_')[1] + '*', caller_owns_return=True), [])
emit(mod)
'''

DRIVER = r'''
import sys, random, gc, os, json, functools
from vf import drv
sys.path.insert(0, sys.argv[1])
seed, rounds = sys.argv[2], int(sys.argv[3])
classes = json.load(open(os.path.join(sys.argv[1], 'spec.json')))
SIGS = json.load(open(os.path.join(sys.argv[1], 'sigs.json')))
M = __import__(os.path.basename(sys.argv[1]))
c = drv.CSide(M)
import ctypes
c.lib.vf_note.argtypes = [ctypes.c_char_p]; c.lib.vf_note.restype = None
class Fail(Exception): pass
HOOK = [0]
def hook(*a): HOOK[0] += 1
sys.excepthook = hook
class Quiet(object):
    def write(self, s): pass
    def flush(self): pass
sys.setrecursionlimit(600)

# ---------------------------------------------------------------- the model
def chain(i):
    while i is not None: yield classes[i]; i = classes[i]['parent']
KEYS = {}
for k in classes:
    for m in k['methods']: KEYS[m['key']] = m
def decls(i, key): return [m for k in chain(i) for m in k['methods'] if m['key'] == key]
def decls_at(i, key): return [(k, m) for k in chain(i) for m in k['methods'] if m['key'] == key]
def keyof(i, name, args):
    """the overload of the name that takes these arguments"""
    for key in sorted(KEYS):
        n, s = key.split('#')
        ps = SIGS[int(s)][1]
        if n == name and decls(i, key) and len(ps) == len(args) and all((t == 'int') == (type(a) is int) for t, a in zip(ps, args)): return key
class Boom(Exception): pass         # a Python exception, in the model and for real
class Budget(Exception): pass
class Model(object):
    def __init__(self): self.log = []; self.hooks = 0; self.n = 0
    def note(self, s):
        self.log.append(s); self.n += 1
        if self.n > 400: raise Budget()
    def text(self, k, args, nested): return str(k) + ''.join(',' + fmt(a) for a in args) + ''.join('/' + fmt(r) for r in nested)
    def finish(self, ret, k, text):
        if ret == 'void': return None
        if ret == 'int': return len(text) * 1000 + k
        if ret == 'std::string': return text
        if ret == 'double': return len(text) + 0.5
        return len(text) % 2 == 0
    def cpp_impl(self, obj, m, args):
        self.note(m['tag'] + ''.join(' ' + fmt(a) for a in args))
        nested = []
        for k, (key,) in enumerate(m['nested']):
            ret, ps = SIGS[int(key.split('#')[1])]
            r = self.vcall(obj, key, [k + 2 if t == 'int' else 'n%d' % k for t in ps])
            if ret != 'void': nested.append(r)
        return self.finish(m['ret'], m['k'], self.text(m['k'], args, nested))
    def vcall(self, obj, key, args):
        """C++ calls the virtual method"""
        name = key.split('#')[0]
        if obj.py is not None:
            found = obj.lookup(name)
            if found is not None:
                try: return self.override(obj, found, name, args)
                except Boom:
                    self.hooks += 1
                    if KEYS[key]['ret'] == 'void': return None
                    # nothing to fall back to: documented to end the process
                    if decls(obj.cls, key)[0]['pure'] or KEYS[key]['vis'] == 'private': raise Budget()
        return self.cpp_impl(obj, decls(obj.cls, key)[0], args)
    def pycall(self, obj, name, args, after=None):
        """Python evaluates obj.name(*args), or super().name(*args) in class 'after'"""
        found = obj.lookup(name, after) if obj.py is not None else None
        if found is not None: return self.override(obj, found, name, args)
        key = keyof(obj.cls, name, args)
        return self.cpp_impl(obj, decls(obj.cls, key)[0], args)
    def override(self, obj, found, name, args):
        key = keyof(obj.cls, name, args)
        ov = found[1]
        self.note('%s.%s' % (found[0], name) + ''.join(' ' + fmt(a) for a in args))
        nested = []
        for act in ov['acts']:
            if act[0] == 'super': r = self.pycall(obj, name, args, found[0])
            elif act[0] == 'base':
                r = self.cpp_impl(obj, decls(act[1], key)[0], args)
            elif act[0] == 'call': r = self.pycall(obj, act[1], act[2])
            elif act[0] == 'tramp': r = self.vcall(obj, keyof(obj.cls, act[1], act[2]), act[2])
            elif act[0] == 'raise': raise Boom()
            if r is not None: nested.append(r)
        return self.finish(KEYS[key]['ret'], ov['k'], self.text(ov['k'], args, nested))
def fmt(a):
    if a is True: return '1'
    if a is False: return '0'
    return '%.1f' % a if isinstance(a, float) else str(a)
MODEL = Model()

# ---------------------------------------------------------------- real Python classes made from the same description
def finish_py(i, name, args, k, nested):
    key = keyof(i, name, args)
    return MODEL.finish(KEYS[key]['ret'], k, MODEL.text(k, args, nested))
def make_override(pname, name, ov, holder):
    """holder['cls'] is the class the function lives in (for super)"""
    def f(self, *args):
        if type(self) is not holder['type'] and not issubclass(type(self), holder['type']): raise RuntimeError('wrong self')
        if holder['expect'] is not None and self is not holder['expect'][0]: c.lib.vf_note(b'WRONG SELF')
        c.lib.vf_note(('%s.%s' % (pname, name) + ''.join(' ' + fmt(a) for a in args)).encode())
        nested = []
        for act in ov['acts']:
            if act[0] == 'super': r = getattr(super(holder['type'], self), name)(*args)
            elif act[0] == 'base': r = getattr(getattr(M, 'K%d' % act[1]), name)(self, *args)
            elif act[0] == 'call': r = getattr(self, act[1])(*act[2])
            elif act[0] == 'tramp': r = getattr(self, 'call_' + keyof(PYCLS[pname]['cls'], act[1], act[2]).replace('#', '_'))(*act[2])
            elif act[0] == 'raise': raise Boom()
            if r is not None: nested.append(r)
        return finish_py(PYCLS[pname]['cls'], name, args, ov['k'], nested)
    st = ov['style']
    if st == 'def': return f
    g = functools.partial(f, holder['fake'])    # leaf styles that get no self
    if st == 'static': return staticmethod(g)
    if st == 'class': return classmethod(lambda cls, *a: g(*a))
    if st == 'callable': 
        class Callable(object):
            def __call__(self, *a): return g(*a)
        return Callable()
    if st == 'partial': return g
    if st == 'property': return property(lambda self: lambda *a: f(self, *a))
    if st == 'lambda': return lambda self, *a: f(self, *a)

class Obj(object):
    """model of one object"""
    def __init__(self, real, cls, py): self.real, self.cls, self.py = real, cls, py; self.inst = {}
    def lookup(self, name, after=None):
        """the Python override found by attribute lookup, or None if that finds a C++ method (or nothing)"""
        if after is None and name in self.inst: return self.inst[name]
        mro = self.py['mro']
        if after is not None: mro = mro[mro.index(after) + 1:]
        for pn in mro:
            if pn == 'C++':
                if any(m['name'] == name and (m['vis'] == 'public' or m['vis'] == 'protected' and not decls(self.cls, m['key'])[0]['pure']) for k in chain(self.cls) for m in k['methods']): return None
            elif name in PYCLS[pn]['ov']: return (pn, PYCLS[pn]['ov'][name])

PYCLS = {}
EXPECT = [None]
def all_names(i): return sorted(set(m['name'] for k in chain(i) for m in k['methods']))
ORDER = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta']
def rand_args(rng, key):
    return [rng.randint(-50, 50) if t == 'int' else rng.choice(['', 'ab', 'x y', 'q' * 20]) for t in SIGS[int(key.split('#')[1])][1]]
def rand_override(rng, i, name, mro_after_has_impl, must_leaf=False):
    acts = []
    later = [k for k in sorted(KEYS) if ORDER.index(k.split('#')[0]) > ORDER.index(name) and decls(i, k)]
    sup_ok = mro_after_has_impl
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = rng.random()
        if r < .45 and sup_ok: acts.append(('super',))
        elif r < .6 and sup_ok:
            # explicit call of a base class implementation (protected methods only by super)
            keys = [k for k in KEYS if k.split('#')[0] == name]
            ks = [j for j, k in enumerate(classes) if k in list(chain(i)) and all(decls(j, key) and not decls(j, key)[0]['pure'] for key in keys)]
            if ks and KEYS[keys[0]]['vis'] == 'public': acts.append(('base', rng.choice(ks)))
        elif later:
            k = rng.choice(later)
            if rng.random() < .5 and KEYS[k]['vis'] != 'private': acts.append(('call', k.split('#')[0], rand_args(rng, k)))
            else: acts.append(('tramp', k.split('#')[0], rand_args(rng, k)))
    pure = any(decls(i, k)[0]['pure'] or KEYS[k]['vis'] == 'private' for k in KEYS if k.split('#')[0] == name and decls(i, k))
    if rng.random() < .08 and not pure: acts.append(('raise',))
    style = 'def'
    if not acts or must_leaf:
        acts = []
        style = rng.choice(['def', 'static', 'class', 'callable', 'partial', 'property', 'lambda'])
    return {'acts': acts, 'style': style, 'k': rng.randint(5000, 9999)}

NP = [0]
def build_class(rng):
    """a random Python class over a random C++ class, perhaps via other Python classes and mixins"""
    NP[0] += 1
    i = rng.randrange(len(classes))
    pn = 'P%d' % NP[0]
    kind = rng.choice(['plain', 'plain', 'two', 'three', 'mixin_first', 'mixin_last', 'diamond'])
    base = getattr(M, classes[i]['name'])
    layers = {'plain': [pn], 'two': [pn, pn + 'b'], 'three': [pn, pn + 'b', pn + 'c'], 'mixin_first': [pn, pn + 'mix'], 'mixin_last': [pn, pn + 'mix'], 'diamond': [pn, pn + 'l', pn + 'r']}[kind]
    mro = {'plain': [pn, 'C++'], 'two': [pn, pn + 'b', 'C++'], 'three': [pn, pn + 'b', pn + 'c', 'C++'], 'mixin_first': [pn, pn + 'mix', 'C++'], 'mixin_last': [pn, 'C++', pn + 'mix'],
           'diamond': [pn, pn + 'l', pn + 'r', 'C++']}[kind]
    names = all_names(i)
    need = [n for n in names if any(decls(i, k)[0]['pure'] or KEYS[k]['vis'] == 'private' for k in KEYS if k.split('#')[0] == n and decls(i, k))]
    ovs = {}
    for li in reversed(range(len(layers))):
        ly = layers[li]
        o = ovs[ly] = {}
        for n in names:
            must = n in need and li == 0
            if must or rng.random() < .45:
                if kind == 'mixin_last' and ly.endswith('mix') : o[n] = rand_override(rng, i, n, False); continue
                after = mro[mro.index(ly) + 1:]
                has = any(n in ovs.get(a, {}) for a in after if a != 'C++' and not (kind == 'mixin_last' and a.endswith('mix'))) or n not in need
                o[n] = rand_override(rng, i, n, has)
    made = {}
    holders = []
    def mk(ly, bases):
        h = {'type': None, 'expect': None, 'fake': None}
        holders.append(h)
        t = type(ly, bases, {})
        h['type'] = t
        class Fake(t): pass
        PYCLS[ly] = {'ov': ovs[ly], 'mro': mro, 'cls': i, 'h': h, 't': t}
        for n, ov in ovs[ly].items(): setattr(t, n, make_override(ly, n, ov, h))
        return t
    if kind == 'plain': T = mk(pn, (base,))
    elif kind == 'two': T = mk(pn, (mk(pn + 'b', (base,)),))
    elif kind == 'three': T = mk(pn, (mk(pn + 'b', (mk(pn + 'c', (base,)),)),))
    elif kind == 'mixin_first': T = mk(pn, (mk(pn + 'mix', (object,)), base))
    elif kind == 'mixin_last': T = mk(pn, (base, mk(pn + 'mix', (object,))))
    else: T = mk(pn, (mk(pn + 'l', (base,)), mk(pn + 'r', (base,))))
    if [x.__name__ if x.__name__ in layers else 'C++' for x in T.__mro__ if x is not object and (x.__name__ in layers or x is base)] != mro: raise Fail('mro %s' % (T.__mro__,))
    return PYCLS[pn], T, holders, layers

def styles_without_self(o): return o['style'] in ('static', 'class', 'callable', 'partial')

def compare(what, obj, fn, model_fn):
    global MODEL
    drv.op({'k': what})
    MODEL = m = Model()
    try: want = ('ok', model_fn(m))
    except Boom: want = ('exc', 'Boom')
    except Budget: return
    c.log(); HOOK[0] = 0
    try: got = ('ok', fn())
    except Boom: got = ('exc', 'Boom')
    except Exception as e: got = ('exc', '%s: %s' % (type(e).__name__, e))
    log = c.log()
    drv.ev(); drv.count('calls'); drv.count('events', len(log))
    if len(set(l.split('.')[0][0] for l in log)) > 1: drv.count('mixed_traces')
    desc = '%s\n   object: class %s%s' % (what, classes[obj.cls]['name'], '' if obj.py is None else ', Python classes %s with overrides %s' % (obj.py['mro'], {p: {n: (o['style'], o['acts']) for n, o in PYCLS[p]['ov'].items()} for p in obj.py['mro'] if p != 'C++'}))
    if got != want or type(got[1]) is not type(want[1]): raise Fail('result %r instead of %r: %s\n   ran:      %s\n   expected: %s' % (got, want, desc, log, m.log))
    if log != m.log: raise Fail('wrong implementations ran: %s\n   ran:      %s\n   expected: %s' % (desc, log, m.log))
    if HOOK[0] != m.hooks: raise Fail('%d errors reported instead of %d: %s' % (HOOK[0], m.hooks, desc))
    drv.distinct([what.split('(')[0], [l.split(' ')[0].split('#')[0] for l in log][:6]])
    drv.count('hooks', m.hooks)

def exercise(rng, obj, n):
    i = obj.cls
    o = obj.real
    keys = [k for k in sorted(KEYS) if decls(i, k)]
    if not keys: return
    for _ in range(n):
        key = rng.choice(keys); name = key.split('#')[0]
        args = rand_args(rng, key)
        how = rng.choice(['tramp', 'ptr', 'ref', 'py', 'keep'])
        at = [(j, m) for j, k in enumerate(classes) if k in list(chain(i)) for m in k['methods'] if m['key'] == key and m['intro']]
        kk = key.replace('#', '_')
        cn = classes[at[0][0]]['name']
        if how == 'py':
            vis = KEYS[key]['vis']
            if vis == 'public' or obj.py is not None and vis == 'protected' and not decls(i, key)[0]['pure']:
                compare('%s(%s)' % (name, args), obj, lambda: getattr(o, name)(*args), lambda m: m.pycall(obj, name, args))
            elif obj.py is None and vis == 'protected':
                try: getattr(o, name)(*args)
                except (TypeError, AttributeError): drv.count('protected_refused')
                else: raise Fail('protected method %s of %s can be called' % (name, classes[i]['name']))
            elif obj.py is None and vis == 'private' and hasattr(o, name): raise Fail('private method %s of %s is wrapped' % (name, classes[i]['name']))
        elif how == 'tramp': compare('call_%s(%s)' % (kk, args), obj, lambda: getattr(o, 'call_' + kk)(*args), lambda m: m.vcall(obj, key, args))
        elif how in ('ptr', 'ref'): compare('%s_%s_%s(%s)' % (how, cn, kk, args), obj, lambda: getattr(M, '%s_%s_%s' % (how, cn, kk))(o, *args), lambda m: m.vcall(obj, key, args))
        elif how == 'keep' and obj.py is not None and not obj.kept:
            # C++ takes the object over; later calls go through what it gives back
            j = i
            getattr(M, 'keep_' + classes[j]['name'])(o)
            r = getattr(M, 'look_' + classes[j]['name'])()
            if r is not o: raise Fail('C++ gives back another object: %r' % (r,))
            obj.kept = classes[j]['name']
            drv.count('kept')

def abstract(i): return any(decls(i, k)[0]['pure'] for k in KEYS if decls(i, k))
sys.stderr_, sys.stderr = sys.stderr, Quiet()
try:
    rng0 = random.Random('%s/%s' % (drv.SEED, seed))
    for i, k in enumerate(classes):
        drv.op({'k': 'exact ' + k['name']})
        if abstract(i):
            try: getattr(M, k['name'])()
            except TypeError: drv.count('abstract_refused')
            else: raise Fail('abstract class %s was constructed' % k['name'])
        else:
            ob = Obj(getattr(M, k['name'])(), i, None); ob.kept = 0
            exercise(rng0, ob, 15)
            for j, b in enumerate(classes):
                n = 'make_%s_as_%s' % (k['name'], b['name'])
                if hasattr(M, n):
                    ob = Obj(getattr(M, n)(), i, None); ob.kept = 0; ob.real_as = j
                    # the wrapper is of the declared class; C++ dispatches to the real one
                    keys = [x for x in sorted(KEYS) if decls(j, x)]
                    for key in keys:
                        args = rand_args(rng0, key)
                        compare('%s().call_%s(%s)' % (n, key, args), ob, lambda: getattr(ob.real, 'call_' + key.replace('#', '_'))(*args), lambda m: m.vcall(ob, key, args))
                        if KEYS[key]['vis'] == 'public':
                            compare('%s().%s(%s)' % (n, key, args), ob, lambda: getattr(ob.real, key.split('#')[0])(*args), lambda m: m.pycall(ob, key.split('#')[0], args))
    for r in range(rounds):
        rng = random.Random('%s/%s/%d' % (drv.SEED, seed, r))
        P, T, holders, layers = build_class(rng)
        o = T()
        for h in holders: h['fake'] = o; h['type_'] = T
        # styles without self use the object under test
        for ly in layers:
            h = PYCLS[ly]['h']; h['fake'] = o
            for n, ov in PYCLS[ly]['ov'].items(): setattr(h['type'], n, make_override(ly, n, ov, h))
        obj = Obj(o, P['cls'], P); obj.kept = 0
        exercise(rng, obj, 20)
        # overrides come and go
        for _ in range(3):
            ly = rng.choice(layers); ovs = PYCLS[ly]['ov']; t = PYCLS[ly]['t']
            need = [n for n in all_names(P['cls']) if any(decls(P['cls'], k)[0]['pure'] or KEYS[k]['vis'] == 'private' for k in KEYS if k.split('#')[0] == n and decls(P['cls'], k))]
            n = rng.choice(all_names(P['cls'])) if all_names(P['cls']) else None
            if n is None or n in need: continue
            if n in ovs: del ovs[n]; delattr(t, n); drv.count('overrides_removed')
            else:
                ovs[n] = rand_override(rng, P['cls'], n, False, must_leaf=True)
                setattr(t, n, make_override(ly, n, ovs[n], PYCLS[ly]['h'])); drv.count('overrides_added')
            exercise(rng, obj, 4)
        # an override on the instance itself
        n = rng.choice(all_names(P['cls'])) if all_names(P['cls']) else None
        if n and not any(PYCLS[ly]['ov'].get(n, {}).get('style') == 'property' for ly in layers):
            k = rng.randint(5000, 9999)
            found = ('inst', {'acts': [], 'style': 'def', 'k': k})
            obj.inst[n] = found
            def ov(*args, n=n, k=k):
                c.lib.vf_note(('inst.%s' % n + ''.join(' ' + fmt(a) for a in args)).encode())
                return finish_py(P['cls'], n, args, k, [])
            setattr(o, n, ov)
            exercise(rng, obj, 6)
            delattr(o, n); del obj.inst[n]
            exercise(rng, obj, 3)
        drv.count('python_classes')
        del o, obj
        for k in classes: getattr(M, 'keep_' + k['name'])(None)
        gc.collect()
except Fail as e:
    drv.violation(str(e).split(':')[0][:60], str(e), {'spec': classes})
except BaseException:
    sys.stderr = sys.stderr_; sys.excepthook = sys.__excepthook__
    raise
drv.sample({'classes': [[k['name'], k['parent'], [(m['tag'], m['vis'], m['pure']) for m in k['methods']]] for k in classes]})
drv.done()
'''


def main():
    ck = Check('C08', 'distinct (way of calling, sequence of implementations that ran) pairs')
    n = 16 if not THOROUGH else 80

    def one(j):
        import random
        rng = random.Random('c08/%s/%d' % (SEED, j))
        cl = make(rng)
        d = os.path.join(scratch(), 'v%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(cl))
        write(os.path.join(d, 'sigs.json'), json.dumps(SIGS))
        makes = []
        for i, c in enumerate(cl):
            p = i
            while p is not None and not abstract(cl, i):
                makes.append('make_%s_as_%s' % (c['name'], cl[p]['name']))
                p = cl[p]['parent']
        write(os.path.join(d, 'makes.json'), json.dumps(makes))
        try:
            handmod.build(d, 'v%d' % j, cpp(cl) + 'extern "C" __attribute__((visibility("default"))) void vf_note(const char *);\n', GEN, impl='void vf_note(const char *s) { vf::ev(s); }\n')
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, str(j), '25' if not THOROUGH else '80'], timeout=600)
    for j, r in pmap(one, range(n)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'v%d' % j)
        else:
            ck.absorb(r, 'v%d' % j)
    ck.require('calls', n * 300)
    ck.require('mixed_traces', n * 40)
    ck.require('python_classes', n * 15)
    ck.finish()


main()
