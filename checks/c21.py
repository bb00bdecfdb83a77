"""C21: the Python module has exactly the names that were declared, and each is the declared thing."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod

WORDS = ['a', 'b', 'f', 'g', 'ab', 'a_b', 'b_a', 'f_g', 'n', 'na', 'n_f', 'nab', 'x1', 'value', 'Thing', 'get', 'data', 'tp', 'T', 'AB', 'A', 'B', 'Na', 'N', 'init', 'object', 'list', 'Filter', 'Config', 'Type', 'm_f', 'py', 'iter']
DOCS = ['plain words', 'two\nlines', 'say "hi"', "it's 100% fine: %s %d", 'tab\there', 'trailing\n', '/* not */ a // comment', '', 'ünïcode ✓', '#include <x>', '??/ trigraph', 'f(a) -> b\n\nlong text' * 20, '"', 'ends with "quote"']


class Gen(object):
    """one module tree: C++ header, generator code and what has to be seen from Python"""
    def __init__(self, rng, j, member_tails=('', '', '_', '2')):
        self.member_tails = member_tails
        self.rng, self.id, self.cxx, self.gen, self.n = rng, 1000, [], [], 0
        self.j = j
        self.base = 'm%d' % j
        pkg = self.pkg = rng.choice(['', '', 'pk', 'pk.sub'])
        self.name = (pkg + '.' if pkg else '') + self.base
        self.file = rng.choice([None, None, '_' + self.base]) if not pkg else None
        ns = rng.choice([None, '::', 'root', 'root::inner'])
        self.doc = self.docstring()
        self.gen.append('mod = new_module(%r, docstring=%r, cpp_namespace=%r)' % (self.name, self.doc, ns))
        self.root = {'kind': 'module', 'path': self.name, 'doc': self.doc, 'names': {}}
        self.cscopes, self.keys = {}, set()
        self.header_open = []
        self.scope('mod', self.root, [] if ns in (None, '::') else ns.split('::'), 0, self.name)

    def docstring(self):
        return self.rng.choice(DOCS) if self.rng.random() < .4 else None

    def free(self, *parts):
        """the generated C identifiers of two wrappers may coincide when only '_', '::' or the case
        of a letter tell their full names apart: not what this property is about"""
        key = ''.join(parts).replace('_', '').replace('.', '').lower()
        if key in self.keys: return False
        self.keys.add(key)
        return True

    def new_id(self):
        self.id += 1
        return self.id

    def var(self):
        self.n += 1
        return 'v%d' % self.n

    def cname(self, ns, first=None):
        """a C++ name that is free in the namespace"""
        used = self.cscopes.setdefault('::'.join(ns), set())
        while True:
            w = first or self.rng.choice(WORDS)
            if first is None and self.rng.random() < .5: w += self.rng.choice(['', '_', '1', '2', 'x', '_f'])
            first = None
            if w not in used and self.free(*(ns + [w])):
                used.add(w)
                return w

    def emit(self, ns, text):
        self.cxx.append(' '.join('namespace %s {' % n for n in ns) + ' ' + text + ' ' + '}' * len(ns))

    def pyname(self, seen, w):
        return w not in seen and not w.startswith('_')

    def scope(self, var, me, ns, depth, name):
        rng, names = self.rng, me['names']
        strip = name + '_'
        transform = rng.choice(['default', 'default', 'default', 'prefix', 'upper'])
        if transform == 'prefix':
            strip = 'zz_'
            self.gen.append("%s.set_strip_prefix('zz_')" % var)
        elif transform == 'upper': self.gen.append("%s.set_c_function_name_transformer(lambda n: n.upper() + '_u')" % var)
        def public(c):
            if transform == 'upper': return c.upper() + '_u'
            return c[len(strip):] if c.startswith(strip) else c
        for _ in range(rng.randint(8, 16)):
            kind = rng.choice(['fn'] * 5 + ['class'] * 4 + ['enum', 'exc', 'overload', 'template', 'foreign', 'container', 'sub', 'sub'])
            if kind == 'sub':
                if depth >= 3: continue
                c = rng.choice(WORDS)
                own = rng.random() < .3      # a submodule with a name of its own
                py = c + '_sub' if own else c
                if not self.free(me['path'], py) or py in names or (c in self.cscopes.setdefault('::'.join(ns), set())): continue
                self.cscopes.setdefault('::'.join(ns), set()).add(c)
                v = self.var()
                doc = self.docstring() if own else None
                if own: self.gen.append('%s = pybindgen.module.SubModule(%r, %s, docstring=%r, cpp_namespace=%r)' % (v, py, var, doc, c))
                else:
                    self.gen.append('%s = %s.add_cpp_namespace(%r)' % (v, var, c))
                    if rng.random() < .5: self.gen.append('assert %s.add_cpp_namespace(%r) is %s and %s.get_submodule(%r) is %s' % (var, c, v, var, c, v))
                sub = names[py] = {'kind': 'module', 'path': me['path'] + '.' + py, 'doc': doc, 'names': {}}
                self.scope(v, sub, ns + [c], depth + 1, py)
                continue
            if kind in ('fn', 'overload', 'template', 'foreign'):
                fns = ns if kind != 'foreign' else ['elsewhere', 'e%d' % self.new_id()]
                c = self.cname(fns, rng.choice(['', '', '', 'q', 'q_', strip]) + strip + rng.choice(WORDS) + str(self.n) if rng.random() < .3 and transform != 'upper' and '.' not in strip else None)
                custom = rng.choice(WORDS) + rng.choice(['', '_c']) if rng.random() < .35 else None
                py = custom or public(c) + ('__lt__int__gt__' if kind == 'template' else '')
                if py in names or py.startswith('_') or not self.free(me['path'], custom or c): continue
                i, k, doc = self.new_id(), self.new_id(), self.docstring()
                extra = ''
                if custom: extra += ', custom_name=%r' % custom
                if doc is not None: extra += ', docstring=%r' % doc
                if kind == 'foreign': extra += ', foreign_cpp_namespace=%r' % '::'.join(fns)
                if kind == 'template':
                    extra += ", template_parameters=['int']"
                    self.emit(fns, 'template <class T__> T__ %s() { return (T__) %d; }' % (c, i))
                else: self.emit(fns, 'inline int %s() { return %d; }' % (c, i))
                first = second = extra      # one of the overloads may be the one with the docstring
                if kind == 'overload' and doc is not None and rng.random() < .6:
                    bare = extra.replace(', docstring=%r' % doc, '')
                    first, second = (bare, extra) if rng.random() < .6 else (extra, bare)
                self.gen.append('%s.add_function(%r, %r, []%s)' % (var, c, 'int', first))
                calls = [[[], i]]
                if kind == 'overload':
                    self.emit(fns, 'inline int %s(int x, std::string const &s) { return x + %d + (int) s.size(); }' % (c, k))
                    self.gen.append("%s.add_function(%r, 'int', [param('int', 'x'), param('std::string', 's')]%s)" % (var, c, second))
                    calls.append([[7, 'abc'], k + 10])
                names[py] = {'kind': 'function', 'calls': calls, 'doc': doc, 'sig': py + '(' if kind != 'overload' else None}
                continue
            if kind == 'enum':
                c = self.cname(ns)
                pre = rng.choice(['', '', 'E_'])
                vals = [w for w in ('%s%d' % (rng.choice(['one', 'two', 'X', 'a']), self.n * 10 + q) for q in range(3)) if w not in names]
                self.n += 1
                ids = [self.new_id() for _ in vals]
                self.emit(ns, 'enum %s { %s };' % (c, ', '.join('%s%s = %d' % (pre, v, i) for v, i in zip(vals, ids))))
                pairs = rng.random() < .3
                full = ''.join(n + '::' for n in ns) + pre
                self.gen.append('%s.add_enum(%r, %r, values_prefix=%r)' % (var, c, [(v, full + v) for v in vals] if pairs else vals, '' if pairs else pre))
                for v, i in zip(vals, ids): names[v] = {'kind': 'int', 'value': i}
                continue
            if kind == 'exc':
                c = self.cname(ns)
                custom = rng.choice(WORDS) + 'Error' if rng.random() < .4 else None
                py = custom or c
                i = self.new_id()
                t = self.cname(ns, 'throw%d' % i)
                if py in names or public(t) in names: continue
                self.emit(ns, 'struct %s { const char *what() const { return "e%d"; } }; inline void %s() { throw %s(); }' % (c, i, t, c))
                v = self.var()
                self.gen.append("%s = %s.add_exception(%r, custom_name=%r, message_rvalue='%%(EXC)s.what()')\n%s.add_function(%r, None, [], throw=[%s])" % (v, var, c, custom, var, t, v))
                names[py] = {'kind': 'exception', 'thrower': public(t), 'text': 'e%d' % i}
                names[public(t)] = {'kind': 'thrower'}
                continue
            if kind == 'container':
                i = self.new_id()
                c = self.cname(ns, 'El%d' % i)
                py = rng.choice(WORDS) + 'List%d' % i
                f = 'list%d' % i
                if transform == 'upper' or c in names: continue
                self.emit(ns, 'struct %s { int v; %s(int v_ = 0) : v(v_) {} }; inline std::vector<%s> %s() { return std::vector<%s>(3, %s(%d)); }' % (c, c, c, f, c, c, i))
                full = '::'.join(ns + [c])
                self.gen.append("e = %s.add_class(%r); e.add_constructor([]); e.add_copy_constructor(); e.add_instance_attribute('v', 'int')\n%s.add_container('std::vector< %s >', %r, 'vector', custom_name=%r)\n%s.add_function(%r, 'std::vector< %s >', [])" % (var, c, var, full, full, py, var, f, full))
                names[c] = {'kind': 'element'}
                names[py] = {'kind': 'container', 'from': f, 'value': i}
                names[py + 'Iter'] = {'kind': 'iter'}
                names[f] = {'kind': 'thrower'}
                continue
            self.klass(var, me, ns, names, None, 0)

    def klass(self, var, me, ns, names, outer, depth):
        """a class in a module, or in another class; returns the C++ text of a nested one"""
        rng = self.rng
        foreign = outer is None and rng.random() < .1
        cns = ['elsewhere', 'e%d' % self.new_id()] if foreign else ns
        def fresh(): return self.cname(cns, None if '' in self.member_tails else '%s_k%d' % (rng.choice(WORDS), self.new_id()))
        c = fresh()
        while outer and c == cns[-1]: c = fresh()
        tmpl = outer is None and rng.random() < .15
        custom = rng.choice(WORDS) + rng.choice(['', 'C']) if tmpl or rng.random() < .3 else None
        py = custom or c
        if py in names or py == (outer or {}).get('py') or py in (outer or {}).get('statics', {}): return ''
        i = self.new_id()
        doc = self.docstring()
        v = self.var()
        members, text, later = {}, [], []
        full = '::'.join(cns + [c]) + ('<int>' if tmpl else '')
        self.gen.append('%s = %s.add_class(%r%s%s%s%s%s)' % (v, var, c, ', custom_name=%r' % custom if custom else '', ', docstring=%r' % doc if doc is not None else '', ", template_parameters=['int']" if tmpl else '',
                        ', foreign_cpp_namespace=%r' % '::'.join(cns) if foreign else '', ', outer_class=%s' % outer['var'] if outer else ''))
        self.gen.append('%s.add_constructor([])' % v)
        me_ = {'kind': 'class', 'id': i, 'doc': doc, 'names': members, 'py': py, 'var': v, 'who': None}
        used = {c}
        def member():
            for _ in range(20):
                w = rng.choice(WORDS) + rng.choice(self.member_tails)
                if w not in used and self.free(*(cns + [c, w])):
                    used.add(w)
                    return w
        for _ in range(rng.randint(2, 7)):
            k, w = rng.choice(['method', 'method', 'static', 'attr', 'sattr', 'overload', 'enum', 'nested']), member()
            if w is None: continue
            cu = 'p_' + w if rng.random() < .25 else None
            p = cu or w
            if p in members or w in members or p in me_.get('statics', {}): continue
            q = self.new_id()
            mdoc = self.docstring() if k in ('method', 'static', 'overload') else None
            dd = ', docstring=%r' % mdoc if mdoc is not None else ''
            cc = ', custom_name=%r' % cu if cu else ''
            if k in ('method', 'overload'):
                text.append('int %s() { return %d + id; }' % (w, q))
                last = k == 'overload' and rng.random() < .5
                self.gen.append("%s.add_method(%r, 'int', []%s%s)" % (v, w, cc, '' if last else dd))
                calls = [[[], q + i]]
                if k == 'overload':
                    text.append('int %s(int x) { return %d + x; }' % (w, q))
                    self.gen.append("%s.add_method(%r, 'int', [param('int', 'x')]%s%s)" % (v, w, cc, dd if last else ''))
                    calls.append([[5], q + 5])
                members[p] = {'kind': 'method', 'calls': calls, 'doc': mdoc, 'sig': p + '(' if k == 'method' else None}
            elif k == 'static':
                text.append('static int %s(int arg_) { return %d + arg_; }' % (w, q))
                self.gen.append("%s.add_method(%r, 'int', [param('int', 'arg_')], is_static=True%s%s)" % (v, w, cc, dd))
                members[p] = {'kind': 'static', 'calls': [[[3], q + 3]], 'doc': mdoc, 'sig': p + '('}
            elif k == 'attr':
                text.append('int %s = %d;' % (w, q))
                self.gen.append("%s.add_instance_attribute(%r, 'int'%s)" % (v, w, cc))
                members[p] = {'kind': 'attr', 'value': q}
            elif k == 'sattr':
                text.append('static const int %s = %d;' % (w, q))
                self.gen.append("%s.add_static_attribute(%r, 'int', is_const=True)" % (v, w))
                me_.setdefault('statics', {})[w] = q
                if tmpl: later.append('template <class Tpl__> const int %s<Tpl__>::%s;' % (c, w))
                else: later.append('const int %%s::%s;' % w)
            elif k == 'enum' and not tmpl:
                vals = [x for x in ('V%d' % q, 'W%d' % q)]
                text.append('enum %s { %s = %d, %s = %d };' % (w, vals[0], q, vals[1], q + 100000))
                self.gen.append('%s.add_enum(%r, %r, outer_class=%s)' % (var, w, vals, v))
                members[vals[0]] = {'kind': 'int', 'value': q}; members[vals[1]] = {'kind': 'int', 'value': q + 100000}
            elif k == 'nested' and depth < 2 and not tmpl and not foreign:
                before = len(self.gen)
                t = self.klass(var, me, cns + [c], members, me_, depth + 1)
                text.append(t)
        body = 'struct %s { int id; %s() : id(%d) {} int who_() { return id; } %s };' % (c, c, i, ' '.join(text))
        if tmpl: body = 'template <class Tpl__> ' + body + ' ' + ' '.join(later)
        self.gen.append("%s.add_instance_attribute('id', 'int')" % v)
        members['id'] = {'kind': 'attr', 'value': i}
        names[py] = me_
        if not tmpl: self.defs = getattr(self, 'defs', []) + [x % full for x in later]
        if outer: return body
        self.emit(cns, body)
        if rng.random() < .2 and not foreign:
            al = self.cname(ns, '%s%d' % (rng.choice(WORDS), self.new_id()))
            if al not in names:
                self.emit(ns, 'typedef %s %s;' % (c + ('<int>' if tmpl else ''), al))
                self.gen.append('%s.add_typedef(%s, %r)' % (var, v, al))
                names[al] = {'kind': 'alias', 'of': py}
                f = self.cname(ns, 'alias%d' % self.new_id())
                self.emit(ns, 'inline int %s(const %s &x) { return x.id; }' % (f, al))
                self.gen.append('%s.add_function(%r, %r, [param(%r, "x")], custom_name=%r)' % (var, f, 'int', 'const ' + '::'.join(ns + [al]) + ' &', f))
                names[f] = {'kind': 'takes', 'cls': py, 'value': i}
        return ''


DRIVER = r'''
import sys, os, json, importlib, types
from vf import drv
d = sys.argv[1]
sys.path.insert(0, d)
info = json.load(open(os.path.join(d, 'spec.json')))
name, spec = info['import'], info['root']
M = importlib.import_module(name)
def v(mech, msg, rep=None): drv.violation(mech, msg, rep)
def public(names): return set(n for n in names if not n.startswith('_'))
def same(what, path, got, want):
    if type(got) is type(want) and got == want: drv.count(what)
    else: v(what, '%s is %r instead of %r' % (path, got, want))
def docs(e, obj, path):
    if e.get('doc') is not None:
        if (obj.__doc__ or '') != e['doc']: v('doc', '%s has the docstring %r instead of %r' % (path, obj.__doc__, e['doc']))
        else: drv.count('docstrings')
    elif e.get('sig') and not (obj.__doc__ or '').startswith(e['sig']): v('doc-default', '%s has the docstring %r' % (path, obj.__doc__))
def calls(e, fn, path):
    for args, want in e['calls']:
        drv.ev(); drv.op({'k': 'call', 'what': path})
        try: got = fn(*args)
        except Exception as x: got = '%s: %s' % (type(x).__name__, x)
        if got != want: v('call', '%s%r gave %r instead of %r' % (path, tuple(args), got, want))
        else: drv.count('calls')
def module(m, e, path):
    drv.ev(); drv.op({'k': 'module', 'what': path})
    if not isinstance(m, types.ModuleType): return v('module', '%s is %r' % (path, m))
    have, want = public(vars(m)), set(e['names'])
    if have != want: v('module-names', '%s lacks %r and has the undeclared %r' % (path, sorted(want - have), sorted(have - want)), sorted(have))
    else: drv.count('modules')
    if path != name and info['types'] == name:
        if importlib.import_module(path) is not m: v('module-import', 'import %s gives another module' % path)
        if m.__name__ != path: v('module-name', '%s has __name__ %r' % (path, m.__name__))
    if e['doc'] is not None and (m.__doc__ or '') != e['doc']: v('doc', 'module %s has the docstring %r instead of %r' % (path, m.__doc__, e['doc']))
    for n, x in sorted(e['names'].items()):
        if n not in have: continue
        o, p, k = getattr(m, n), path + '.' + n, x['kind']
        drv.ev(); drv.distinct(k + str(len(n)) + n[:2])
        if k == 'module': module(o, x, p)
        elif k == 'function': docs(x, o, p); calls(x, o, p); (o.__name__ == n) or v('function-name', '%s has __name__ %r' % (p, o.__name__))
        elif k == 'int': same('value', p, o, x['value'])
        elif k == 'alias': same('alias', p, o, getattr(m, x['of'], None))
        elif k == 'takes':
            try: got = o(getattr(m, x['cls'])())
            except Exception as q: got = repr(q)
            if got != x['value']: v('alias-use', '%s gave %r instead of %r' % (p, got, x['value']))
        elif k == 'exception':
            try: getattr(m, x['thrower'])()
            except Exception as q:
                if type(q) is not o or str(q) != x['text'] or not issubclass(o, Exception): v('exception', '%s: C++ exception %r arrived as %r' % (p, x['text'], q))
                else: drv.count('exceptions')
            else: v('exception', '%s: nothing raised' % p)
            if (o.__name__, o.__module__) != (n, info['types'] + path[len(name):]): v('type-name', '%s is named %s.%s' % (p, o.__module__, o.__name__))
        elif k == 'container':
            l = getattr(m, x['from'])()
            if type(l) is not o or [y.v for y in l] != [x['value']] * 3: v('container', '%s: %r' % (p, l))
            if type(iter(l)) is not getattr(m, n + 'Iter'): v('container', '%s: iterator is %r' % (p, iter(l)))
        elif k == 'class': klass(o, x, p, path, n)
def klass(c, e, path, mod, n):
    drv.op({'k': 'class', 'what': path})
    if not isinstance(c, type): return v('class', '%s is %r' % (path, c))
    if c.__name__ != n: v('type-name', '%s has __name__ %r' % (path, c.__name__))
    if mod and c.__module__ != info['types'] + mod[len(name):]: v('type-name', '%s has __module__ %r' % (path, c.__module__))
    have, want = public(vars(c)), set(e['names'])
    if have != want: v('class-names', '%s lacks %r and has the undeclared %r' % (path, sorted(want - have), sorted(have - want)), sorted(have))
    else: drv.count('classes')
    docs(dict(e, sig=e['py'] + '('), c, path)
    have_s = public(vars(type(c))) - public(vars(type)) if type(c) is not type else set()
    if have_s != set(e.get('statics', {})): v('class-statics', '%s has static attributes %r instead of %r' % (path, sorted(have_s), sorted(e.get('statics', {}))))
    try: o = c()
    except Exception as x: return v('class', '%s() raised %r' % (path, x))
    for s, val in e.get('statics', {}).items():
        try:
            if getattr(c, s) != val: v('static', '%s.%s is %r instead of %r' % (path, s, getattr(c, s), val))
            else: drv.count('statics')
        except AttributeError as x: v('static', '%s.%s: %s' % (path, s, x))
    for w, x in sorted(e['names'].items()):
        if w not in have: continue
        drv.ev()
        p, k = path + '.' + w, x['kind']
        if k == 'method': docs(x, getattr(c, w), p); calls(x, getattr(o, w), p)
        elif k == 'static': docs(x, getattr(c, w), p); calls(x, getattr(c, w), p); calls(x, getattr(o, w), p)
        elif k == 'attr': same('attribute', p, getattr(o, w), x['value'])
        elif k == 'int': same('value', p, getattr(c, w), x['value'])
        elif k == 'class': klass(getattr(c, w), x, p, None, w)
module(M, spec, name)
drv.sample(sorted(public(vars(M))))
drv.done()
'''


def one(ck, j):
    r = run(Gen(random.Random('c21/%s/%d' % (SEED, j)), j), 's%d' % j)
    return j, r if isinstance(r, Exception) else r[0]


def run(g, label):
    """build and look at the module; -> what the driver said and what the generator wrote to stderr, or the failure"""
    d = os.path.join(scratch(), label)
    os.makedirs(os.path.join(d, *g.pkg.split('.')) if g.pkg else d, exist_ok=True)
    p = ''
    for x in g.pkg.split('.') if g.pkg else []:
        p = os.path.join(p, x)
        write(os.path.join(d, p, '__init__.py'), '')
    imp = g.file or g.name
    write(os.path.join(d, 'spec.json'), json.dumps({'import': imp, 'types': g.name, 'root': g.root}))
    emit = "from pybindgen import module\nemit(mod)\n" if not g.file else "with open(os.path.join(outdir, NAME + '.cc'), 'w') as f:\n    f.write('#include \"vflog_impl.h\"\\n')\n    mod.generate(FileCodeSink(f), %r)\n" % g.file
    hdr = '#include <vector>\n#include <string>\n' + '\n'.join(g.cxx)
    try:
        _, err = handmod.build(d, label, hdr, '\n'.join(g.gen) + '\n' + emit + getattr(g, 'after', ''), impl='\n'.join(getattr(g, 'defs', [])))
        os.rename(os.path.join(d, label + '.so'), os.path.join(d, *imp.split('.')) + '.so')
    except Exception as e:
        return e
    return drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d], timeout=300), err


def main():
    ck = Check('C21', 'distinct (kind, name) combinations')
    n = 32 if not THOROUGH else 128
    for j, r in pmap(lambda j: one(ck, j), range(n), jobs=8):
        if isinstance(r, Exception): ck.build_failed(r, 's%d' % j)
        else: ck.absorb(r, 's%d' % j)
    ck.require('calls', n * 20)
    ck.require('modules', n)
    ck.require('classes', n * 2)
    ck.finish()


if __name__ == '__main__':
    main()
