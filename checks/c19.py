"""C19: names: modules whose declarations use hostile and nearly colliding names compile, and every name reaches the entity it names."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

# names of parameters: what the generated wrappers call their own variables, parameters, members, types
PARAMS = ('self args kwargs retval py_retval keywords exceptions return_exception obj i name value type std string vector x_std x_len x_ptr py_x x_value '
          'x m py_self self_obj_before _self tmp_value py_method py_boolretval _save __py_gil_state py_gil_state wrapper iter list str exc_type traceback '
          'error_list pylist element result inst wrapper_lookup_iter flags none_ok copy module dict key item container arg helper size cls klass self2 '
          'args2 kwargs2 retval2 py_retval2 x2 x3 keywords2 return_exception2 self3 _args _kwargs _dummy dummy exc py_Foo py_Foo2 Foo2 m_pyself m_pylent '
          'm_pycalls py_thread_state value2 std2 x_len2 py_B_ptr ptr out m_ a b n p1').split()
# (C++ path, of a class): near collisions once flattened into C identifiers
CLUSTERS = [
    ['na::B', 'NaB', 'naB'],
    ['A', 'A::Bq', 'ABq', 'aBq'],
    ['Foo', 'foo', 'FooMeta', 'FooIter'],
    ['C_', 'C'],
    ['D_e', 'D'],
    ['x::y::Z', 'x::YZ', 'XYZ', 'x::yZ'],
    ['obj', 'list', 'Module', 'type'],
    ['na::Outer', 'na::Outer::In', 'na::OuterIn'],
    ['na::P', 'P', 'x::P', 'x::y::P', 'b::P', 'A::P'],
]
FUNCS = 'f g b_f na_f x_f x_y_f y_f f__0 f__1 f_0 f_1 f2 init_ Foo_f self keywords exceptions submodule obj2 wrap_f PyFoo_f'.split()
METHODS = ('f g b_f e_f _f get_x set_x _get_x _set_x get_s _get_s set_y _set_y _tp_init tp_init _copy__ copy__ tp_dealloc _tp_dealloc _tp_clear _tp_richcompare f__0 f__1 '
           'self args retval obj keywords e_get_x method_tp_init methods kwargs f_2').split()
ATTRS = 'x y s self args obj retval value name m_pyself e_x'.split()
NAMESPACES = ['na', 'x', 'x::y', 'b', 'A_', 'x_']
HELPER = r'''
inline int vsum(std::vector<int> const &v) { int r = 0; for (size_t i = 0; i < v.size(); i++) r += v[i]; return r; }
'''


def related(name):
    """names that variables of the wrapper may get for a parameter of that name, or whose variables may be called like it"""
    out = [name + x for x in ('2', '_', '_len', '_ptr', '_value', '_std')] + ['py_' + name] * 3
    out += [name[3:]] * 4 if name.startswith('py_') and len(name) > 3 and not name[3:] == 'retval' else []
    return out + [name[:-len(x)] for x in ('2', '_len', '_ptr', '_value') if name.endswith(x) and len(name) > len(x)] * 3


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.nid = 0
        self.spec = []          # callables
        self.attrs = []
        self.gen = []
        self.names = {}         # scope -> set of names
        self.kinds = ['int', 'int', 'string', 'bool', 'vector', 'enum']
        self.collisions = set()

    def take(self, scope, pool):
        used = self.names.setdefault(scope, set())
        free = [n for n in pool if n not in used]
        if not free: return None
        n = self.rng.choice(free); used.add(n)
        return n

    def params(self, extra=(), most=4, ptr=True, defaults=True):
        rng, out, used = self.rng, [], set()
        n = rng.choice([1, 1, 2, 2, 3, most])
        for i in range(n):
            k = rng.choice(self.kinds + (['class'] * 3 if self.usable else []))
            p = {'kind': k}
            if k == 'class':
                p['cls'] = rng.choice(self.usable)
                p['how'] = rng.choice(['', ' const &', ' *'] if ptr else ['', ' const &'])
            pool = PARAMS + list(extra)
            if k == 'class' and rng.random() < .4:
                c = p['cls'].split('::')
                pool = [c[-1], c[0], 'Py' + c[-1], 'Py' + ''.join(x[0].upper() + x[1:] for x in c)]
            elif k == 'enum' and rng.random() < .4: pool = ['Enum', 'EA']
            elif extra and rng.random() < .3: pool = list(extra)
            elif used and rng.random() < .5: pool = [d for u in sorted(used) for d in related(u)]
            for _ in range(10):
                nm = rng.choice(pool)
                if nm not in used: break
            else: nm = 'z%d' % i
            used.add(nm); p['name'] = nm
            out.append(p)
        if defaults and rng.random() < .6:
            for p in out[rng.randrange(len(out)):]:
                d = {'int': ('5', 5), 'string': ('std::string("qw")', 2), 'bool': ('true', 1), 'enum': ('EB', 1)}.get(p['kind'])
                if p['kind'] == 'class' and p['how'] != ' *': d = ('::%s()' % p['cls'], self.default_k[p['cls']])
                if d is None:
                    for q in out: q.pop('default', None)
                else: p['default'] = list(d)
        seen = False
        for p in out:           # only trailing ones
            if seen and 'default' not in p:
                for q in out: q.pop('default', None)
                break
            seen = seen or 'default' in p
        return out

    @staticmethod
    def ctype(p, glob=False):
        if p['kind'] == 'class': return ('::' if glob else '') + p['cls'] + p['how']
        return {'int': 'int', 'string': 'std::string', 'bool': 'bool', 'vector': 'std::vector<int>', 'enum': 'Enum'}[p['kind']]

    def sig(self, ps): return ', '.join('%s p%d' % ('::Enum' if p['kind'] == 'enum' else self.ctype(p, True), i) for i, p in enumerate(ps))

    def formula(self, ident, ps):
        e = {'int': 'p%d', 'string': '(int) p%d.size()', 'bool': '(p%d ? 1 : 0)', 'vector': '::vsum(p%d)', 'enum': '(int) p%d'}
        return '%d%s' % (ident * 10007, ''.join(' + %d * (%s)' % (i + 2, (('p%d->kk' if p['how'] == ' *' else 'p%d.kk') if p['kind'] == 'class' else e[p['kind']]) % i) for i, p in enumerate(ps)))

    def plist(self, ps):
        return '[%s]' % ', '.join('param(%r, %r%s%s)' % (self.ctype(p), p['name'], ', transfer_ownership=False' if p.get('how') == ' *' else '',
                                                        ', default_value=%r' % p['default'][0] if 'default' in p else '') for p in ps)

    def ident(self):
        self.nid += 1
        return self.nid

    def overloads(self, extra, **kw):
        ps = self.params(extra, **kw)
        if self.rng.random() < .35:
            for p in ps: p.pop('default', None)
            second = self.params(extra, defaults=False, **kw)
            while len(second) <= len(ps): second.append({'kind': 'int', 'name': self.rng.choice([n for n in PARAMS if n not in [q['name'] for q in second]])})
            return [ps, second]
        return [ps]

    def pair(self, ptr=True, defaults=True):
        """parameters with related names only"""
        rng = self.rng
        ps = self.params((), most=4, ptr=ptr, defaults=defaults)
        while len(ps) < 2: ps = self.params((), most=4, ptr=ptr, defaults=defaults)
        ps = ps[:3]
        base = rng.choice(PARAMS)
        names = [base] + rng.sample(sorted(set(related(base)) - set([base])), len(ps) - 1)
        rng.shuffle(names)
        for p, n in zip(ps, names): p['name'] = n
        return ps

    def make(self):
        rng = self.rng
        classes = []
        for c in CLUSTERS:
            if rng.random() < .75:
                classes += [x for x in c if rng.random() < .85 or '%s::' % x in ' '.join(c)]
        have = set(classes)
        classes = [c for c in classes if '::' not in c or c.rsplit('::', 1)[0] in NAMESPACES or c.rsplit('::', 1)[0] in have]
        order = list(classes); rng.shuffle(order)
        done = []
        while order:            # outer classes first
            for c in list(order):
                if c.rsplit('::', 1)[0] not in order or '::' not in c: done.append(c); order.remove(c)
        classes = done
        outer = lambda c: c.rsplit('::', 1)[0] if '::' in c else ''
        nested = dict((c, [d for d in classes if outer(d) == c]) for c in classes)
        for c in classes: self.names.setdefault(outer(c), set()).add(c.split('::')[-1])
        for n in NAMESPACES: self.names.setdefault(outer(n), set()).add(n.split('::')[-1])
        self.names['' ] |= {'Enum', 'EA', 'EB', 'EC', 'std', 'vsum', 'Err', 'NaErr', 'VirtA', 'VirtB'}
        self.names.setdefault('na', set()).add('Err')
        self.default_k = dict((c, rng.randrange(1, 50)) for c in classes)
        virt = ['VirtA', 'b::VirtB'][:rng.choice([1, 2])]
        self.usable = [c for c in classes if not nested[c] and outer(c) not in classes]
        decl, body, late = {}, {}, []
        g = self.gen
        # C++: classes in an order that has types complete before they are used by value: bodies are defined after all classes
        for c in classes:
            me = c.split('::')[-1]
            self.names.setdefault(c, set()).update([me, 'kk', 'f0'] + [d.split('::')[-1] for d in nested[c]])
            mem = ['int kk;', '%s() : kk(%d) {}' % (me, self.default_k[c])]
            gl = ['C.add_constructor([])', 'C.add_copy_constructor()', "C.add_instance_attribute('kk', 'int')"]
            ps = [{'kind': 'int', 'name': rng.choice(PARAMS)}] + [q for q in self.params([me, 'Py' + me], defaults=False)]
            if len(set(q['name'] for q in ps)) == len(ps):
                i = self.ident()
                mem.append('%s(%s);' % (me, self.sig(ps)))
                late.append('inline %s::%s(%s) : kk(%s) {}' % (c, me, self.sig(ps), self.formula(i, ps)))
                gl.append('C.add_constructor(%s)' % self.plist(ps))
                self.spec.append({'path': c.split('::'), 'what': 'constructor', 'id': i, 'ps': ps})
            for _ in range(rng.choice([1, 2, 4])):
                at = self.take(c, ATTRS)
                if at is None: break
                st = rng.random() < .4
                ro = rng.random() < .2
                v = rng.randrange(1000)
                if st:
                    mem.append('static int %s;' % at); late.append('int %s::%s = %d;' % (c, at, v))
                else:
                    mem.append('int %s = %d;' % (at, v))
                gl.append("C.add_%s_attribute(%r, 'int'%s)" % ('static' if st else 'instance', at, ', is_const=True' if ro else ''))
                self.attrs.append({'path': c.split('::'), 'name': at, 'static': st, 'const': ro, 'value': v})
            for _ in range(rng.choice([2, 4, 6])):
                n = self.take(c, METHODS)
                if n is None: break
                what = rng.choice(['method', 'method', 'method', 'static'])
                for ps in self.overloads([n, me]):
                    i = self.ident()
                    mem.append('%sint %s(%s);' % ('static ' if what == 'static' else '', n, self.sig(ps)))
                    late.append('inline int %s::%s(%s) { return %s; }' % (c, n, self.sig(ps), self.formula(i, ps)))
                    gl.append("C.add_method(%r, 'int', %s%s)" % (n, self.plist(ps), ', is_static=True' if what == 'static' else ''))
                    self.spec.append({'path': c.split('::'), 'name': n, 'what': what, 'id': i, 'ps': ps})
            decl[c] = mem
            body[c] = gl
        for c in virt:
            me = c.split('::')[-1]
            mem = ['int kk;', '%s() : kk(3) {}' % me, 'virtual ~%s() {}' % me]
            gl = ['C.add_constructor([])', "C.add_instance_attribute('kk', 'int')"]
            for k in range(rng.choice([2, 3, 5])):
                n = 'virt%d' % k
                ps = self.params([n, me, 'call_' + n, 'Py' + me, me + '__PythonHelper', 'Py' + me + '__PythonHelper'], ptr=False, defaults=False)
                if rng.random() < .5: ps = self.pair(ptr=False, defaults=False)
                i = self.ident()
                vis = rng.choice(['public', 'public', 'protected'])
                mem.append('%s: virtual int %s(%s); public: int call_%s(%s);' % (vis, n, self.sig(ps), n, self.sig(ps)))
                late.append('inline int %s::%s(%s) { return %s; }' % (c, n, self.sig(ps), self.formula(i, ps)))
                late.append('inline int %s::call_%s(%s) { return %s(%s); }' % (c, n, self.sig(ps), n, ', '.join('p%d' % q for q in range(len(ps)))))
                gl.append("C.add_method(%r, 'int', %s, is_virtual=True%s)" % (n, self.plist(ps), ', visibility="protected"' if vis == 'protected' else ''))
                gl.append("C.add_method('call_%s', 'int', %s)" % (n, self.plist(ps)))
                self.spec.append({'path': c.split('::'), 'name': n, 'what': 'virtual', 'vis': vis, 'id': i, 'ps': ps})
            decl[c], body[c] = mem, gl
        # text of the classes
        def text(c):
            inner = ''.join(text(d) for d in nested.get(c, []))
            return 'struct %s {\n%s%s\n};\n' % (c.split('::')[-1], inner, '\n'.join(decl[c]))
        h = ['#include <string>', '#include <vector>', '#include <exception>', 'enum Enum { EA, EB, EC };', HELPER]
        h += ['struct NaErr : std::exception {}; struct Err : std::exception {}; namespace na { struct Err : std::exception {}; }']
        top = [c for c in classes + virt if outer(c) not in classes]
        inns = lambda ns, t: ''.join('namespace %s { ' % x for x in ns.split('::') if x) + t + ' }' * len([x for x in ns.split('::') if x])
        h += [inns(outer(c), 'struct %s;' % c.split('::')[-1]) for c in top]
        h += [inns(outer(c), text(c)) for c in top]
        h += late
        # functions
        fg = []
        for k in range(16):
            ps, i = self.pair(), self.ident()
            h.append('inline int pair%d(%s) { return %s; }' % (k, self.sig(ps), self.formula(i, ps)))
            fg.append('mod.add_function(%r, %r, %s)' % ('pair%d' % k, 'int', self.plist(ps)))
            self.spec.append({'path': [], 'name': 'pair%d' % k, 'what': 'function', 'id': i, 'ps': ps, 'throw': None})
        for _ in range(rng.choice([6, 10, 14])):
            ns = rng.choice([''] * 2 + NAMESPACES)
            n = self.take(ns, [f for f in FUNCS if not ns or not f.startswith(ns.split('::')[-1] + '_')])   # (that prefix is stripped)
            if n is None: continue
            thrown = rng.choice([None, None, 'na::Err', 'NaErr', 'Err'])
            for ps in self.overloads([n, 'Err', 'NaErr'] + ([ns.split('::')[0]] if ns else [])):
                i = self.ident()
                t = ''
                if thrown and ps[0]['kind'] == 'int': t = 'if (p0 == -77) throw ::%s(); ' % thrown
                h.append(inns(ns, 'inline int %s(%s) { %sreturn %s; }' % (n, self.sig(ps), t, self.formula(i, ps))))
                fg.append("%s.add_function(%r, 'int', %s%s)" % ('N[%r]' % ns, n, self.plist(ps), ', throw=[E[%r]]' % thrown if t else ''))
                self.spec.append({'path': [x for x in ns.split('::') if x], 'name': n, 'what': 'function', 'id': i, 'ps': ps, 'throw': thrown.split('::') if t else None})
        excs = ["E['na::Err'] = N['na'].add_exception('Err')", "E['NaErr'] = mod.add_exception('NaErr')", "E['Err'] = mod.add_exception('Err')"]
        rng.shuffle(excs)
        g += ['mod = new_module()', "N = {'': mod}; K = {}; E = {}"]
        g += ["N[%r] = N[%r].add_cpp_namespace(%r)" % (n, outer(n), n.split('::')[-1]) for n in NAMESPACES]
        g += excs
        g += ["mod.add_enum('Enum', ['EA', 'EB', 'EC'])", "mod.add_container('std::vector<int>', 'int', 'vector')"]
        for c in classes + virt:
            o = outer(c)
            if o in classes: g.append("K[%r] = mod.add_class(%r, outer_class=K[%r])" % (c, c.split('::')[-1], o) if '::' not in o else "K[%r] = N[%r].add_class(%r, outer_class=K[%r])" % (c, outer(o), c.split('::')[-1], o))
            else: g.append("K[%r] = N[%r].add_class(%r%s)" % (c, o, c.split('::')[-1], ', allow_subclassing=True' if c in virt else ''))
        mems = [(c, body[c]) for c in classes + virt]
        rng.shuffle(mems)
        for c, gl in mems: g += ['C = K[%r]' % c] + gl
        g += fg + ['emit(mod)']
        if sorted(fl(c) for c in classes) != sorted(set(fl(c) for c in classes)): self.collisions.add('classes')
        return '\n'.join(h), '\n'.join(g) + '\n', {'calls': self.spec, 'attrs': self.attrs, 'classes': classes, 'defaults': self.default_k, 'usable': self.usable, 'virt': virt}


def fl(c): return ''.join(x[0].upper() + x[1:] for x in c.split('::'))


DRIVER = r'''
import sys; sys.path.insert(0, sys.argv[1])
import random, json, gc
from vf import drv
import MODULE as m
S = json.loads(SPEC)
rng = random.Random(sys.argv[2]); steps = int(sys.argv[3])
def at(path):
    o = m
    for p in path: o = getattr(o, p)
    return o
def value(p):
    """a Python value and the number it stands for"""
    k = p['kind']
    if k == 'int': v = rng.randrange(-50, 1000); return v, v
    if k == 'string': n = rng.randrange(9); return 'abcdefghij'[:n], n
    if k == 'bool': b = rng.random() < .5; return b, int(b)
    if k == 'vector': v = [rng.randrange(99) for i in range(rng.randrange(4))]; return v, sum(v)
    if k == 'enum': i = rng.randrange(3); return (m.EA, m.EB, m.EC)[i], i
    o = at(p['cls'].split('::'))(); o.kk = rng.randrange(1000)
    return o, o.kk
def split(ps, vals):
    n = rng.randrange(len(ps) + 1)
    kw = list(range(n, len(ps))); rng.shuffle(kw)
    return [vals[i] for i in range(n)], dict((ps[i]['name'], vals[i]) for i in kw)
def plain(v, p):
    """the number that a value received by a Python method stands for"""
    k = p['kind']
    if k == 'string': return len(v)
    if k == 'vector': return sum(v)
    if k == 'class': return v.kk
    return int(v)
names = set()
for c in S['classes'] + S['virt']:
    cls = at(c.split('::'))
    drv.ev(); drv.count('class_names')
    if cls in names: drv.violation('same-class', '%s is another class' % c)
    names.add(cls)
    if cls.__name__ != c.split('::')[-1]: drv.violation('class-name', '%s is called %s' % (c, cls.__name__))
    if c in S['defaults'] and cls().kk != S['defaults'][c]: drv.violation('wrong-class', '%s() has kk %r instead of %r' % (c, cls().kk, S['defaults'][c]))
group = {}
for c in S['calls']: group.setdefault((tuple(c['path']), c.get('name'), c['what'] == 'constructor'), []).append(c)
by_what = {}
for c in S['calls']: by_what.setdefault(c['what'], []).append(c)
for step in range(steps):
    if rng.random() < .2 and S['attrs']:
        a = rng.choice(S['attrs'])
        cls = at(a['path']); o = cls if a['static'] else cls()
        drv.op({'attr': a}); drv.ev(); drv.count('attributes'); drv.distinct(['attr', a['name'], a['static'], a['const']])
        got = getattr(o, a['name'])
        if got != a['value']: drv.violation('attribute', '%s.%s is %r instead of %r' % ('::'.join(a['path']), a['name'], got, a['value']), a)
        v = rng.randrange(10000)
        try: setattr(o, a['name'], v)
        except (AttributeError, TypeError) as e:
            if not a['const']: drv.violation('attribute', '%s.%s cannot be set: %s' % ('::'.join(a['path']), a['name'], e), a)
            continue
        if a['const']: drv.violation('attribute', '%s.%s is constant and was set' % ('::'.join(a['path']), a['name']), a); continue
        if getattr(o, a['name']) != v: drv.violation('attribute', '%s.%s does not keep a value' % ('::'.join(a['path']), a['name']), a)
        if a['static']: a['value'] = v
        continue
    c = rng.choice(by_what[rng.choice(sorted(by_what))])
    ps = c['ps']
    vals = [value(p) for p in ps]
    if c.get('throw') and rng.random() < .3: vals[0] = (-77, -77)
    use = len(ps)
    while use and 'default' in ps[use - 1] and rng.random() < .4: use -= 1
    full = [v[1] for v in vals[:use]] + [p['default'][1] for p in ps[use:]]
    want = c['id'] * 10007 + sum((i + 2) * v for i, v in enumerate(full))
    pos, kw = split(ps[:use], [v[0] for v in vals[:use]])
    name = '::'.join(c['path'] + [c.get('name') or '']); what = c['what']
    drv.op({'call': name, 'what': what, 'params': [[p['kind'], p['name']] for p in ps], 'keywords': sorted(kw)})
    drv.ev(); drv.count(what); drv.count('keyword_arguments', len(kw))
    for p in ps: drv.distinct([what, p['kind'] + p.get('how', ''), p['name']])
    obj = None
    try:
        if what == 'function': fn = getattr(at(c['path']), c['name'])
        elif what == 'static': fn = getattr(at(c['path']) if rng.random() < .5 else at(c['path'])(), c['name'])
        elif what == 'method': obj = at(c['path'])(); fn = getattr(obj, c['name'])
        elif what == 'constructor': fn = lambda *a, **k: at(c['path'])(*a, **k).kk
        else:
            cls = at(c['path'])
            mode = rng.choice(['plain', 'override', 'parent'])
            seen = []
            ns = {}
            if mode == 'override': ns[c['name']] = lambda self, *a: (seen.append([plain(x, p) for x, p in zip(a, ps)]), 4321)[1]
            if mode == 'parent': ns[c['name']] = lambda self, *a: getattr(cls, c['name'])(self, *a) + 1
            sub = type('SubClass', (cls,), ns)
            obj = sub(); fn = getattr(obj, 'call_' + c['name'])
            drv.count('virtual_' + mode)
            r = fn(*pos, **kw)
            if mode == 'override':
                if seen != [full] or r != 4321: drv.violation('virtual', '%s: the method received %r instead of %r, result %r' % (name, seen, full, r), c)
            elif r != want + (mode == 'parent'): drv.violation('wrong-result', '%s returned %r instead of %r' % (name, r, want + (mode == 'parent')), c)
            continue
        r = fn(*pos, **kw)
    except Exception as e:
        if c.get('throw') and full[0] == -77:
            drv.count('thrown')
            if type(e) is not at(c['throw']): drv.violation('exception', '%s raised %r instead of %s' % (name, e, '::'.join(c['throw'])), c)
        else: drv.violation('raised', '%s(%s) raised %s: %s' % (name, ', '.join(p['name'] for p in ps), type(e).__name__, str(e)[:300]), c)
        continue
    if c.get('throw') and full[0] == -77: drv.violation('exception', '%s did not raise' % name, c); continue
    if r != want: drv.violation('wrong-result', '%s(%s) returned %r instead of %r' % (name, ', '.join(p['name'] for p in ps), r, want), c)
    # a name that no parameter has
    if rng.random() < .15 and kw:
        bad = rng.choice(sorted(kw)) + rng.choice(['2', '_', '3'])
        others = group[(tuple(c['path']), c.get('name'), what == 'constructor')]
        if not any(bad == p['name'] for o in others for p in o['ps']):
            k2 = dict(kw); k = rng.choice(sorted(kw)); k2[bad] = k2.pop(k)
            drv.count('unknown_keywords')
            try: fn(*pos, **k2)
            except TypeError: pass
            except Exception as e: drv.violation('keyword', '%s with the keyword %s raised %r' % (name, bad, e), c)
            else: drv.violation('keyword', '%s accepted the keyword %s' % (name, bad), c)
drv.done()
'''


def one(ck, j):
    label = 'g%d' % j
    g = Gen(random.Random('c19/%s/%d' % (SEED, j)))
    header, gen, spec = g.make()
    d = os.path.join(scratch(), label)
    if g.collisions: ck.count('modules_with_colliding_classes')
    try: handmod.build(d, label, header, gen)
    except Exception as e: return ck.build_failed(e, label)
    handmod.run_driver(ck, label, d, DRIVER.replace('MODULE', label).replace('SPEC', repr(json.dumps(spec))), args=['%s/%d' % (SEED, j), 1500 if not THOROUGH else 6000])


def main():
    ck = Check('C19', 'distinct (kind of callable, kind of parameter, name)')
    n = 32 if not THOROUGH else 120
    pmap(lambda j: one(ck, j), range(n), jobs=8)
    ck.require('function', n * 100); ck.require('method', n * 100); ck.require('constructor', n * 50); ck.require('virtual', n * 5)
    ck.require('attributes', n * 50); ck.require('keyword_arguments', n * 500); ck.require('class_names', n * 5)
    ck.finish()


if __name__ == '__main__':
    main()
