"""C22: custodians keep their wards: histories of calls with custodian/ward relations against a model of who keeps whom."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

LIB = r'''
#include <map>
#include <vector>
#include <exception>
namespace lib {
inline std::map<int, int> &reg() { static std::map<int, int> *m = new std::map<int, int>; return *m; }
inline int &next() { static int n = 0; return n; }
inline int &wrong() { static int n = 0; return n; }
inline int born() { int i = ++next(); reg()[i] = 1; return i; }
inline void dies(int i) { if (reg()[i] != 1) wrong() += 1; reg()[i] = 0; }
}
inline bool is_alive(int i) { return lib::reg()[i] == 1; }
inline int count_alive() { int n = 0; for (std::map<int, int>::iterator i = lib::reg().begin(); i != lib::reg().end(); ++i) n += i->second == 1; return n; }
inline int wrong() { return lib::wrong(); }
struct Err : std::exception { const char *what() const throw() { return "thrown"; } };
'''
# class: C++ body; its policy; features
CLASSES = r'''
struct Plain { int id; Plain() : id(lib::born()) {} Plain(const Plain &) : id(lib::born()) {} ~Plain() { lib::dies(id); id = -1; } int ident() const { return id; } bool operator==(const Plain &) const { return true; } Plain &operator=(const Plain &) { return *this; } CONS };
struct Sub { int id; Sub() : id(lib::born()) {} Sub(const Sub &) : id(lib::born()) {} ~Sub() { lib::dies(id); id = -1; } int ident() const { return id; } bool operator==(const Sub &) const { return true; } bool operator!=(const Sub &) const { return false; } Sub &operator=(const Sub &) { return *this; } CONS };
struct Deriv : Sub { Deriv() {} Deriv(const Deriv &o) : Sub(o) {} CONS };
struct Virt { int id; Virt() : id(lib::born()) {} Virt(const Virt &) : id(lib::born()) {} virtual ~Virt() { lib::dies(id); id = -1; } int ident() const { return id; } virtual int val() { return 1; } Virt &operator=(const Virt &) { return *this; } CONS };
struct Ref { int id; int rc; Ref() : id(lib::born()), rc(1) {} Ref(const Ref &) : id(lib::born()), rc(1) {} ~Ref() { lib::dies(id); id = -1; } void inc() { ++rc; } void dec() { if (--rc == 0) delete this; } int refs() { return rc; } int ident() const { return id; } Ref &operator=(const Ref &) { return *this; } CONS };
struct Right : virtual Root { int id; Right() : id(lib::born()) {} Right(const Right &) : id(lib::born()) {} ~Right() { lib::dies(id); id = -1; } int ident() const { return id; } Right &operator=(const Right &) { return *this; } CONS };
'''
NAMES = ['Plain', 'Sub', 'Deriv', 'Virt', 'Ref', 'Right']
CUST = ['Sub', 'Deriv', 'Virt', 'Ref', 'Right']          # instances have a dictionary


class Gen(object):
    def __init__(self, rng, label):
        self.rng, self.label = rng, label
        self.bodies = dict((c, []) for c in NAMES)
        self.free, self.gen, self.spec, self.n = [], [], [], 0
        self.registry = rng.random() < .4
        self.ctors = set()

    def relations(self, objs, ret, me, fn):
        """random (custodian, ward, when); objs: {number: class}"""
        rng = self.rng
        nodes = dict(objs)
        if me: nodes[0] = me
        if ret: nodes[-1] = ret
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            c = rng.choice(sorted(k for k, v in nodes.items() if v in CUST) or [None])
            if c is None: break
            w = rng.choice(sorted(nodes))
            if (c, w) in [x[:2] for x in out]: continue
            when = None if -1 in (c, w) else rng.choice([None, True, False])
            out.append((c, w, when))
        return out

    def function(self, where, overload_of=None):
        """where: function, method, static, constructor, asmethod"""
        rng = self.rng
        self.n += 1
        name = overload_of or '%s%d' % ({'function': 'f', 'method': 'm', 'static': 's', 'constructor': 'c', 'asmethod': 'a'}[where], self.n)
        me = rng.choice(NAMES) if where != 'function' else None
        if where == 'constructor' and me in self.ctors: return self.function(rng.choice(['function', 'method']))   # more would be ambiguous
        if where == 'constructor': self.ctors.add(me)
        return self.build(where, name, me, tag=self.n)

    def build(self, where, name, me, tag, nobj=None):
        rng = self.rng
        strict = nobj is not None       # overloads: told apart by the number of arguments
        params, decl, cargs, call, objs = [], [], [], [], {}
        shift = 0
        if where == 'asmethod':      # the first parameter is self
            shift = 1
            objs[1] = me
            cargs.append('%s *self_' % me); decl.append("param('%s *', 'self_', transfer_ownership=False)" % me)
        nobj = rng.choice([0, 1, 1, 2, 3]) if nobj is None else nobj
        order = ['obj'] * nobj + ['int'] * (0 if strict else rng.choice([0, 0, 1, 2]))
        rng.shuffle(order)
        if where == 'constructor': order.insert(0, 'int')       # not the default or the copy constructor
        optional = False
        for i, k in enumerate(order):
            no = i + 1 + shift
            if k == 'int':
                params.append({'k': 'int'})
                cargs.append('int a%d' % no); decl.append("param('int', 'a%d'%s)" % (no, ", default_value='0'" if optional else ''))
                continue
            c = rng.choice(NAMES)
            form = rng.choice(['*', '*', '*', '&'])
            p = {'k': 'obj', 'c': c, 'null': False, 'opt': False}
            kw = ''
            if form == '*':
                kw = ', transfer_ownership=False'
                if optional or (not strict and rng.random() < .2 and order.index('obj') == i and 'int' not in order[i:]):
                    optional = True; p['opt'] = p['null'] = True; kw += ", null_ok=True, default_value='NULL'"
                elif not strict and rng.random() < .25: p['null'] = True; kw += ', null_ok=True'
            elif optional: form = '*'; p['opt'] = p['null'] = True; kw = ", transfer_ownership=False, null_ok=True, default_value='NULL'"
            p['form'] = form
            objs[no] = c
            cargs.append('%s %sa%d' % (c, form, no)); decl.append("param('%s %s', 'a%d'%s)" % (c, form, no, kw))
            params.append(p)
        # the result
        ret, rk, of = None, 'none', None
        if where != 'constructor':
            rk = rng.choice(['none', 'new', 'new', 'ref', 'value', 'null'])
            refs = [n for n in objs if n > shift and not params[n - 1 - shift]['null']] + ([0] if where == 'method' else [])
            if rk == 'ref':
                if not refs: rk = 'new'
                else: of = rng.choice(refs); ret = objs[of] if of else me
            if rk in ('new', 'null'): ret = rng.choice(NAMES)
            if rk == 'value': ret = rng.choice(['Plain', 'Sub', 'Deriv'])
        rel = self.relations(objs, ret, me if where in ('method', 'constructor') else None, name)
        if rk == 'ref' and ret not in ('Ref',) and (-1, of, None) not in rel and ret in CUST and rng.random() < .9: rel.append((-1, of, None))
        throws = rng.random() < .25
        body = 'if (throwing()) throw Err(); ' if throws else ''
        kw = ''
        if rk == 'new': rt, rdecl, body = ret + ' *', "retval('%s *', caller_owns_return=True)" % ret, body + 'return new %s;' % ret
        elif rk == 'null': rt, rdecl, body = ret + ' *', "retval('%s *', caller_owns_return=True)" % ret, body + 'return NULL;'
        elif rk == 'value': rt, rdecl, body = ret, "retval('%s')" % ret, body + 'return %s();' % ret
        elif rk == 'ref':
            rt = ret + ' *'
            extra = ''
            if of == 0 and (-1, 0, None) in rel and rng.random() < .5: extra = ', return_internal_reference=True'; rel.remove((-1, 0, None)); inside = [(-1, 0, None)]
            else: extra, inside = ', reference_existing_object=True', []
            if ret == 'Ref': extra = ', caller_owns_return=False' if not inside else extra
            rdecl = "retval('%s *'%s)" % (ret, extra)
            isptr = of and params[of - 1 - shift]['form'] == '*'
            body += 'return %s;' % ('this' if of == 0 else ('' if isptr else '&') + 'a%d' % of)
        else: rt, rdecl, inside = 'void', 'None', []
        if rk != 'ref': inside = []
        if inside and 1 in objs and objs[1] in CUST and rng.random() < .5 and (1, -1, None) not in rel: rel.append((1, -1, None))
        # some relations are written as custodian= of the ward
        rest = []
        custodians = {}
        for c, w, when in rel:
            if when is None and w not in custodians and rng.random() < .6 and w != 0:
                if w > shift and params[w - 1 - shift]['form'] == '*' or w == -1 and c >= 0 and rt.endswith('*') and rk in ('new', 'null', 'ref'):
                    custodians[w] = c
                    continue
            rest.append((c, w, when))
        for w, c in custodians.items():
            if w == -1: rdecl = rdecl[:-1] + ', custodian=%d)' % c
            else: decl[w - 1] = decl[w - 1][:-1] + ', custodian=%d)' % c
        var = 'w%d' % tag
        thr = ', throw=[err]' if throws else ''
        args = ', '.join(cargs)
        dargs = '[%s]' % ', '.join(decl)
        if where == 'function':
            self.free.append('inline %s %s(%s) { %s }' % (rt, name, args, body))
            self.gen.append("%s = mod.add_function('%s', %s, %s%s)" % (var, name, rdecl, dargs, thr))
        elif where == 'asmethod':
            self.free.append('inline %s x_%s(%s) { %s }' % (rt, name, args, body))
            self.gen.append("%s = k['%s'].add_function_as_method('x_%s', %s, %s, custom_name='%s'%s)" % (var, me, name, rdecl, dargs, name, thr))
        elif where == 'constructor':
            self.bodies[me].append('%s(%s)%s { %s }' % (me, args, ' : Sub()' if me == 'Deriv' else ' : id(lib::born())' + (', rc(1)' if me == 'Ref' else ''), body.replace('throw Err', 'throw Err') if me == 'Deriv' else body.replace('throw Err();', '{ lib::dies(id); throw Err(); }')))
            self.gen.append("%s = k['%s'].add_constructor(%s%s)" % (var, me, dargs, thr))
        else:
            self.bodies[me].append('%s%s %s(%s) { %s }' % ('static ' if where == 'static' else '', rt, name, args, body))
            self.gen.append("%s = k['%s'].add_method('%s', %s, %s%s%s)" % (var, me, name, rdecl, dargs, ', is_static=True' if where == 'static' else '', thr))
        for c, w, when in rest:
            self.gen.append('%s.add_custodian_and_ward(%d, %d%s)' % (var, c, w, '' if when is None else ', postcall=%r' % when))
        allrel = [(c, w, -1 in (c, w) if when is None else when) for c, w, when in rel + inside]
        self.spec.append({'where': where, 'name': name, 'me': me, 'params': params, 'rk': rk, 'ret': ret, 'of': of, 'shift': shift, 'rel': allrel, 'throws': throws})

    def make(self):
        rng = self.rng
        self.gen.append("settings.wrapper_registry = %s\nmod = new_module()\nerr = mod.add_exception('Err', message_rvalue='%%(EXC)s.what()')\nk = {}" % ('StdMapWrapperRegistry' if self.registry else 'NullWrapperRegistry'))
        for f, r, p in (('is_alive', 'bool', "[param('int', 'i')]"), ('count_alive', 'int', '[]'), ('wrong', 'int', '[]'), ('set_throwing', None, "[param('bool', 'b')]")): self.gen.append('mod.add_function(%r, %s, %s)' % (f, repr(r), p))
        self.gen.append("k['Root'] = mod.add_class('Root', allow_subclassing=True)\nk['Root'].add_constructor([])\nk['Left'] = mod.add_class('Left', allow_subclassing=True, parent=k['Root'])\nk['Left'].add_constructor([])")
        for c in NAMES:
            kw = 'allow_subclassing=%r' % (c != 'Plain')
            if c == 'Deriv': kw += ", parent=k['Sub']"
            if c == 'Right': kw += ", parent=k['Root']"
            if c == 'Ref': kw += ", memory_policy=ReferenceCountingMethodsPolicy(incref_method='inc', decref_method='dec', peekref_method='refs')"
            self.gen.append("k['%s'] = mod.add_class('%s', %s)" % (c, c, kw))
            self.gen.append("k['%s'].add_constructor([])" % c)
            if c in ('Plain', 'Sub', 'Deriv'): self.gen.append("k['%s'].add_copy_constructor()" % c)
            if c != 'Deriv': self.gen.append("k['%s'].add_method('ident', 'int', [], is_const=True)" % c)
            if c in ('Plain', 'Sub') and rng.random() < .5: self.gen.append("k['%s'].add_binary_comparison_operator('==')" % c)
            if c == 'Virt': self.gen.append("k['Virt'].add_method('val', 'int', [], is_virtual=True)")
        self.gen.append("k['Mix'] = mod.add_class('Mix', allow_subclassing=True, parent=[k['Left'], k['Right']])\nk['Mix'].add_constructor([])")
        for _ in range(16):
            self.function(rng.choice(['function', 'function', 'method', 'method', 'static', 'constructor', 'asmethod']))
        for i in range(2):        # overloads told apart by the number of objects
            self.n += 1
            where, me, name = rng.choice([('function', None), ('method', rng.choice(NAMES))]) + ('o%d' % self.n,)
            for q in (0, 1, 2):
                self.n += 1
                self.build(where, name, me, self.n, nobj=q)
        # one name in several classes, overloads that are inherited
        self.n += 1
        name, where = 'j%d' % self.n, rng.choice(['method', 'method', 'asmethod'])
        for me, q in (('Sub', 0), ('Sub', 1), ('Virt', 2), ('Right', 2), ('Right', 0), ('Right', 1), ('Ref', 1)):
            self.n += 1
            self.build(where, name, me, self.n, nobj=q)
        fwd = 'inline bool &throwing_() { static bool b = false; return b; }\ninline bool throwing() { return throwing_(); }\ninline void set_throwing(bool b) { throwing_() = b; }\nstruct Plain; struct Sub; struct Deriv; struct Virt; struct Ref; struct Right;\nstruct Root { Root() {} };\n'
        # bodies use each other's classes: declared in the class, defined below
        classes, defs = [], []
        for line, c in zip(CLASSES.strip().split('\n'), NAMES):
            inside = []
            for b in self.bodies[c]:
                i = b.index('{')
                ctor = b.startswith(c + '(')
                head = b[:i]
                if ctor: head = b[:b.index(') :') + 1] if ') :' in b[:i] else head
                inside.append(head.strip() + ';')
                sig = b[7:] if b.startswith('static ') else b
                nm = c if ctor else sig[:sig.index('(')].split(' ')[-1]
                pre = sig[:sig.index('(')]
                defs.append('inline ' + pre[:len(pre) - len(nm)] + c + '::' + nm + sig[sig.index('('):])
            classes.append(line.replace('CONS', ' '.join(inside)))
        classes.append('struct Left : virtual Root { int pad; Left() : pad(-3) {} };\nstruct Mix : Left, Right { Mix() {} };')
        return LIB + fwd + '\n'.join(classes + defs + self.free), '\n'.join(self.gen) + '\nemit(mod)\n'


DRIVER = r'''
import sys, json, random, gc
sys.path.insert(0, sys.argv[1])
from vf import drv
import MODULE as m
fns = json.loads(SPEC)
rng = random.Random(sys.argv[2])
gc.disable()
NAMES = ['Plain', 'Sub', 'Deriv', 'Virt', 'Ref', 'Right']
DERIVED = {'Sub': ['Sub', 'Deriv']}
class Node(object):
    def __init__(self, obj, cls, holds, lazy):
        self.addr, self.cls, self.holds, self.lazy, self.wards = id(obj), cls, holds, lazy, set()
pool = []                 # [(obj, node)]: what the program holds on to
nodes = []                # all that were not found dead
def reach():
    seen, todo = set(), [n for _, n in pool]
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        todo += n.wards
    return seen
def cyclic(dead):
    """needs the collector: on a cycle, or kept by one; or freed by the collector only"""
    bad = set()
    for n in dead:
        seen, todo = set(), list(n.wards)
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo += x.wards
        if n in seen or n.lazy: bad.add(n); bad |= seen
    return bad
log, wrongs = [], [0]
def settle(collect=False):
    global nodes
    if collect: gc.collect()
    live = reach()
    dead = [n for n in nodes if n not in live]
    late = set() if collect else cyclic(dead)
    held = set(n.holds for n in live | late)
    drv.ev()
    for n in live:
        if n.holds and not m.is_alive(n.holds):
            drv.violation('ward-died', '%s %d was destroyed though its custodian lives' % (n.cls, n.holds), log[-12:])
            drv.done(); sys.exit(0)
    for n in dead:
        if n.holds and n.holds not in held and m.is_alive(n.holds):
            drv.violation('ward-kept' if not collect else 'ward-leaked', '%s %d is alive though nothing keeps it (%s)' % (n.cls, n.holds, 'after a collection' if collect else 'no cycle'), log[-12:])
            n.holds = None
    if m.wrong() > wrongs[0]: wrongs[0] = m.wrong(); drv.violation('destroyed-twice', '%d objects destroyed twice' % m.wrong(), log[-12:])
    drv.count('kept_only_by_custodian', len([n for n in live if n not in set(x for _, x in pool)]))
    drv.count('released', len(dead) - len(late))
    nodes = list(live) + list(late)
    return late
class Fussy(object):
    """methods that are in the way"""
    def __getattr__(self, name): return None
    def __setattr__(self, name, value): raise RuntimeError('no attributes')
    def __eq__(self, other): return True
    def __hash__(self): return 1
    def __bool__(self): return False
subs = {}
for c in NAMES[1:] + ['Mix']:
    C = getattr(m, c)
    def S(C=C):
        class Simple(C): pass
        class Slots(C): __slots__ = ('x',)
        class Fuss(C):
            __getattr__, __setattr__, __eq__, __hash__, __bool__ = Fussy.__getattr__, Fussy.__setattr__, Fussy.__eq__, Fussy.__hash__, Fussy.__bool__
        class Raise(C):
            def __eq__(self, other): raise RuntimeError('not comparable')
            __hash__ = None
            def __getattr__(self, name): raise KeyError(name)
        return [Simple, Slots, Fuss, Raise]
    subs[c] = S()
def enter(obj, cls, holds):
    for n in nodes:
        if n.addr == id(obj): return n
    n = Node(obj, cls, holds, cls == 'Virt' and type(obj) is not m.Virt)
    nodes.append(n)
    return n
def ident(obj): return m.Plain.ident(obj) if isinstance(obj, m.Plain) else [getattr(m, c) for c in ('Sub', 'Virt', 'Ref', 'Mix', 'Right') if isinstance(obj, getattr(m, c))][0].ident(obj)
def pick(c, fresh=.3):
    have = [x for x in pool if x[1].cls in DERIVED.get(c, [c]) and x[1].holds]
    if have and rng.random() > fresh: return rng.choice(have)
    return create(c)
def create(c):
    c = rng.choice(DERIVED.get(c, [c]))
    C = getattr(m, c)
    if c != 'Plain' and rng.random() < .5: C = rng.choice(subs[c])
    o = C()
    x = (o, enter(o, c, ident(o)))
    pool.append(x)
    return x
def call(f):
    objs, args, entry = {}, [], {'f': f['name'], 'rel': f['rel']}
    if f['me'] and f['where'] not in ('constructor', 'static'): objs[0] = objs[f['shift']] = pick('Mix' if f['me'] == 'Right' and rng.random() < .5 else f['me'])
    short = False
    for i, p in enumerate(f['params']):
        if p['k'] == 'int': args.append(rng.randint(0, 5)); continue
        r = rng.random()
        if p['opt'] and r < .3: short = True; break
        if p['null'] and r < .5: args.append(None); continue
        x = pick(p['c'])
        objs[i + 1 + f['shift']] = x
        args.append(x[0])
    throw = f['throws'] and rng.random() < .4
    m.set_throwing(bool(throw))
    entry['throws'] = throw
    log.append(entry)
    where = f['where']
    if where == 'function': fn = getattr(m, f['name'])
    elif where == 'static': fn = getattr(getattr(m, f['me']), f['name'])
    elif where == 'constructor':
        C = fn = getattr(m, f['me'])
        if f['me'] != 'Plain' and rng.random() < .5: C = rng.choice(subs[f['me']])
        fn = C
    else:
        cls = getattr(m, objs[0][1].cls if f['me'] in ('Sub', 'Right') else f['me'])
        fn = lambda *a: getattr(cls, f['name'])(objs[0][0], *a)
    before = m.count_alive()
    drv.op({'f': f['name'], 'where': where, 'rel': f['rel'], 'n': len(log)})
    try: r = fn(*args)
    except m.Err:
        r = None
        if not throw: drv.violation('raised', '%s threw' % f['name'], log[-5:])
        drv.count('calls_raised')
    except BaseException as e:
        drv.violation('raised', '%s (%s): %s: %s' % (f['name'], f['where'], type(e).__name__, e), log[-5:])
        m.set_throwing(False)
        return
    else:
        if throw: drv.violation('raised', '%s did not throw' % f['name'], log[-5:])
    m.set_throwing(False)
    drv.ev(); drv.count('calls'); drv.count('calls_' + where)
    node = None
    discard = False
    if where == 'constructor':
        if r is not None: node = enter(r, f['me'], ident(r))
        else:       # the instance that was not constructed takes part in what comes before the call
            shell = Node(None, f['me'], None, f['me'] == 'Virt')
            shell.addr = 0
            nodes.append(shell)
        objs[0] = (r, node or shell)
    elif r is not None:
        if f['rk'] in ('new', 'value'): node = enter(r, f['ret'], ident(r))
        else:
            ref = objs[f['of']][1]
            node = enter(r, f['ret'], ref.holds if f['ret'] == 'Ref' else None)
            discard = node is not ref and f['ret'] != 'Ref' and [-1, f['of'], True] not in f['rel']
        objs[-1] = (r, node)
    elif not throw and f['rk'] not in ('none', 'null'): drv.violation('result', '%s gave None' % f['name'])
    entry['objs'] = dict((n, '%s %s %s' % (type(x[0]).__name__, x[1].cls, x[1].holds)) for n, x in objs.items())
    for c, w, post in f['rel']:
        if throw and post: continue
        if c in objs and w in objs:
            objs[c][1].wards.add(objs[w][1])
            drv.count('relations')
            drv.distinct('%s/%s/%s/%s/%s' % (where, c, w, objs[c][1].cls, objs[w][1].cls))
    if node is not None and not discard: pool.append((r, node))
def step():
    r = rng.random()
    if r < .5: call(rng.choice(fns))
    elif r < .62: create(rng.choice(NAMES))
    elif pool: pool.pop(rng.randrange(len(pool)))
    if len(pool) > 14: pool.pop(rng.randrange(len(pool)))
for i in range(int(sys.argv[3])):
    step()
    settle()
    if rng.random() < .05: settle(True)
    if rng.random() < .02:
        del pool[:]
        settle(); settle(True)
        if m.count_alive(): drv.violation('leaked', '%d objects alive though nothing is held' % m.count_alive(), log[-12:]); break
drv.done()
'''

NODICT = r"""
import sys; sys.path.insert(0, sys.argv[1])
from vf import drv
import MODULE as m, gc
for what, f in (('result', lambda: m.A().get()), ('parameter', lambda: m.f(m.In(), m.A())), ('constructor', lambda: m.In(m.A()))):
    for i in range(3):
        drv.ev(); drv.count('no_dictionary')
        try: r = f()
        except SystemError as e: drv.violation('no-dictionary', '%s: %s' % (what, e))
        except Exception as e: pass
        else:
            # then it has to be kept
            if m.alive() == 0: drv.violation('no-dictionary', '%s: neither refused nor kept' % what)
        r = None
        gc.collect()
        if m.alive(): drv.violation('no-dictionary', '%s: %d objects are left' % (what, m.alive())); break
drv.done()
"""


def nodict(ck):
    """a custodian whose instances have no dictionary: kept, or refused with a proper exception"""
    handmod.simple(ck, 'nodict', '''
inline int &n() { static int x = 0; return x; }
struct A; struct In { In() {} In(A *) {} };
struct A { In *in; A() : in(new In) { n()++; } ~A() { n()--; delete in; } In *get() { return in; } private: A(const A &); };
inline void f(In *i, A *a) {}
inline int alive() { return n(); }
''', '''
mod = new_module()
I = mod.add_class('In'); A = mod.add_class('A')
I.add_constructor([]); I.add_constructor([param('A *', 'a', transfer_ownership=False)]).add_custodian_and_ward(0, 1)
A.add_constructor([])
A.add_method('get', retval('In *', return_internal_reference=True), [])
mod.add_function('f', None, [param('In *', 'i', transfer_ownership=False), param('A *', 'a', transfer_ownership=False, custodian=1)])
mod.add_function('alive', 'int', [])
emit(mod)
''', NODICT.replace('MODULE', 'nodict'), name='nodict')


def one(ck, j):
    label = 'g%d' % j
    g = Gen(random.Random('c22/%s/%d' % (SEED, j)), label)
    header, gen = g.make()
    d = os.path.join(scratch(), label)
    try: handmod.build(d, label, header, gen)
    except Exception as e: return ck.build_failed(e, label)
    for i in range(2 if not THOROUGH else 6):
        handmod.run_driver(ck, label, d, DRIVER.replace('MODULE', label).replace('SPEC', repr(json.dumps(g.spec))), args=['%s/%d/%d' % (SEED, j, i), 900 if not THOROUGH else 4000])


def main():
    ck = Check('C22', 'distinct (kind of wrapper, custodian, ward, classes)')
    n = 16 if not THOROUGH else 64
    nodict(ck)
    pmap(lambda j: one(ck, j), range(n), jobs=8)
    ck.require('calls', n * 200); ck.require('relations', n * 100); ck.require('kept_only_by_custodian', n * 50); ck.require('released', n * 100)
    ck.finish()


if __name__ == '__main__':
    main()
