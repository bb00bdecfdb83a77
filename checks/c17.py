"""C17: what is generated depends on the declarations only: not on how the code is split into files,
not on the process that writes it, and not on declarations that cannot be wrapped and are skipped."""
import os, sys, json, random, re, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
from vf import core, handmod
import c21

HERE = os.path.dirname(os.path.abspath(__file__))
# checks whose modules are built once more in sections, and generated again by processes with other hash seeds
SPLIT = ['c01', 'c08', 'c10', 'c14', 'c21'] if not THOROUGH else ['c%02d' % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 21)]


def inner(name, **env):
    """another check, as it is, in a process of its own; -> rc, its violations, its report"""
    ev = os.path.join(scratch(), 'ev-%s-%s' % (name, '-'.join(sorted(env))))
    os.makedirs(ev, exist_ok=True)
    e = dict(os.environ, VF_EVIDENCE=ev, VERIF_TIER='quick', VERIF_SEED=str(SEED), VF_SCRATCH_BASE=scratch(), **env)
    p = subprocess.run([sys.executable, os.path.join(HERE, name + '.py')], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    out = p.stdout.decode('utf-8', 'replace')
    seen, report = [], {}
    for f in sorted(os.listdir(ev)):
        with open(os.path.join(ev, f)) as fh: d = json.load(fh)
        if re.fullmatch(r'C\d+\.json', f): report = d
        else: seen.append(d)
    return p.returncode, seen, report, out


def split(ck, name):
    """the oracle of the other check, on modules that were split; what also fails unsplit is not ours"""
    rc, seen, report, out = inner(name, VF_MULTI='%s/%d' % (name, SEED), VF_REPEAT='1,77')
    if rc not in (0, 1): return ck.inconc('%s in sections: %s' % (name, out[-1500:]))
    ours = [v for v in seen if v['mech'].startswith('build:determinism')]
    rest = [v for v in seen if v not in ours]
    if rest:
        rc2, seen2, _, out2 = inner(name)
        if rc2 == 0: ours += rest
        else: ck.count('also_unsplit', len(rest))
    for v in ours:
        what = 'determinism' if v['mech'].startswith('build:determinism') else 'split'
        ck.violation('%s:%s:%s' % (what, name, v['mech'][:60]), 'modules of %s: %s' % (name, v['msgs'][0]), {'check': name, 'violation': v, 'environment': 'VF_MULTI=%s/%d VF_REPEAT=1,77' % (name, SEED)})
    ck.ev(report.get('coverage', {}).get('evaluations', 0))
    ck.count('split_checks')
    ck.count('split_distinct_states', report.get('coverage', {}).get('distinct_nontrivial', 0))
    ck.distinct('split/' + name)


# ---- declarations that cannot be wrapped

HANDLER = '''
import re
class Handler(settings.ErrorHandler):
    def __init__(self): self.seen = []
    def handle_error(self, wrapper, exception, traceback_):
        self.seen.append((str(getattr(wrapper, 'function_name', None) or getattr(wrapper, 'method_name', None) or getattr(wrapper, 'wrapper_name', None) or ''), type(exception).__name__))
        return True
handler = settings.error_handler = Handler()
def bad(reported, f, *args, **kw):
    """something that cannot be wrapped; 'now': when it is declared, or later"""
    before = len(handler.seen)
    f(*args, **kw)
    if reported == 'now' and len(handler.seen) == before: print('UNREPORTED %r %r %r' % (f.__name__, args, kw), file=sys.stderr)
    if reported != 'now': late.append(reported)
late = []
'''
UNKNOWN = ['Unknown', 'Unknown *', 'std::vector<Unknown>', 'Unknown const &', 'Unknown &', 'int (*)(int)', 'std::map<int, Unknown>', 'elsewhere::El *', 'unsigned Unknown', 'Foo<NoCopy>', 'boost::shared_ptr<Unknown>']
# needs NoCopy: known, not copyable
LATE_RESULT = ["'NoCopy'", "retval('NoCopy &', caller_owns_return=False)", "retval('NoCopy *')", "retval('const NoCopy &')"]
LATE_CONTAINER = ['std::vector<nocopy::NoCopy>', 'std::map<int, nocopy::NoCopy> const &', 'std::vector<nocopy::NoCopy> &', 'std::list< std::vector<nocopy::NoCopy> >']
CONTAINERS = [('std::vector<nocopy::NoCopy>', 'nocopy::NoCopy', 'vector'), ('std::map<int, nocopy::NoCopy>', ('int', 'nocopy::NoCopy'), 'map'), ('std::list< std::vector<nocopy::NoCopy> >', 'std::vector<nocopy::NoCopy>', 'list')]
LATE_PARAM = ["param('NoCopy *', 'x')", "param('int *', 'x')"]       # not configured


class Bad(object):
    def __init__(self, rng): self.rng, self.n, self.lines = rng, 0, 0

    def declaration(self, var, kind, existing):
        """a line with a declaration that cannot be wrapped, in the module or class 'var'; existing: a (function, call prefix) already declared there"""
        rng = self.rng
        self.n += 1
        self.lines += 1
        name = 'bad%d' % self.n
        extra = ''
        fn = 'add_function' if kind == 'module' else 'add_method'
        if existing and rng.random() < .4: name, extra = existing
        if kind == 'class' and not extra and rng.random() < .15:
            if rng.random() < .5: return "bad('now', %s.add_constructor, [param(%r, 'x')])" % (var, rng.choice(UNKNOWN))
            return "bad('now', %s.add_%s_attribute, %r, %r)" % (var, rng.choice(['instance', 'static']), name, rng.choice(UNKNOWN))
        if not extra and kind == 'class': extra = rng.choice(['', '', ', is_static=True', ', is_virtual=True'])
        how = rng.choice(['unknown-param', 'unknown-result', 'late-result', 'late-param', 'late-container'])
        good = rng.choice(['', "param('int', 'a'), ", "param('std::string', 's'), "])
        if how == 'unknown-param': return "bad('now', %s.%s, %r, 'int', [%sparam(%r, 'x')]%s)" % (var, fn, name, good, rng.choice(UNKNOWN), extra)
        if how == 'unknown-result': return "bad('now', %s.%s, %r, %r, [%s]%s)" % (var, fn, name, rng.choice(UNKNOWN), good, extra)
        if how == 'late-param': return "bad('now', %s.%s, %r, 'int', [%s]%s)" % (var, fn, name, good + rng.choice(LATE_PARAM), extra)
        if how == 'late-container' and rng.random() < .6: return "bad(%r, %s.%s, %r, 'int', [%sparam(%r, 'x')]%s)" % (name, var, fn, name, good, rng.choice(LATE_CONTAINER), extra)
        if how == 'late-container': return "bad(%r, %s.%s, %r, %r, [%s]%s)" % (name, var, fn, name, rng.choice(LATE_CONTAINER), good, extra.replace(', is_virtual=True', ''))
        if 'virtual' in extra: extra = ''      # an override would return it by value, and C++ may allow that
        return "bad(%r, %s.%s, %r, %s, [%s]%s)" % (name, var, fn, name, rng.choice(LATE_RESULT), good, extra)


def spoil(g, rng):
    """puts declarations that cannot be wrapped between those of a module tree"""
    b, out, known = Bad(rng), [], {}
    for line in g.gen:
        out += [line]
        for l in line.split('\n'):
            m = re.match(r'(mod|v\d+) = ', l)
            if m: known[m.group(1)] = ['class' if '.add_class(' in l else 'module' if 'new_module' in l or 'SubModule' in l or 'add_cpp_namespace' in l else None, []]
            m = re.match(r"(mod|v\d+)\.add_(?:function|method)\('(\w+)'(.*)", l)
            if m:
                more = re.search(r", custom_name='\w+'", m.group(3))
                if 'template_parameters' not in m.group(3):
                    known[m.group(1)][1].append((m.group(2), (', is_static=True' if 'is_static=True' in m.group(3) else '') + (more.group(0) if more else '')))
        if rng.random() < .3:
            var = rng.choice(sorted(k for k, x in known.items() if x[0]))
            kind, fns = known[var]
            out.append(b.declaration(var, kind, rng.choice(fns) if fns else None))
    g.gen = out
    return b


def relax(e):
    """the default docstring of a function is not promised when a namesake was skipped"""
    if 'sig' in e: e['sig'] = None
    for x in e.get('names', {}).values(): relax(x)


def skipped(ck, j):
    rng = random.Random('c17/%s/%d' % (SEED, j))
    g = c21.Gen(rng, j, *([('_k', '_m')] if j % 2 else []))     # helper classes inherit the members' names
    g.gen.insert(1, "nc = mod.add_class('NoCopy', foreign_cpp_namespace='nocopy'); nc.add_constructor([]); nc.add_method('who', 'int', [])" + ''.join('; mod.add_container(%r, %r, %r)' % c for c in CONTAINERS))
    g.root['names'].pop('NoCopy', None)
    first, rest = g.gen[:2], g.gen[2:]
    g.gen = [first[0]] + rest
    b = spoil(g, rng)
    g.gen = [first[0], first[1]] + g.gen[1:]
    g.gen = [HANDLER + ('settings.allow_subclassing = True\n' if j % 2 else '')] + [re.sub(r"'NoCopy", "'nocopy::NoCopy", l).replace("add_class('nocopy::NoCopy'", "add_class('NoCopy'") for l in g.gen]
    g.root['names']['NoCopy'] = {'kind': 'thrower'}
    relax(g.root)
    g.cxx.insert(0, 'namespace nocopy { struct NoCopy { NoCopy() {} int who() { return 1; } private: NoCopy(const NoCopy &); }; }')
    g.after = "\nfor n in late:\n    if not [x for x in handler.seen if n in x[0]]: print('UNREPORTED %s' % n, file=sys.stderr)\nprint('SEEN %d' % len(handler.seen), file=sys.stderr)\n"
    return g, b


def one(ck, j):
    g, b = skipped(ck, j)
    return j, b.lines, c21.run(g, 's%d' % j)


ABSTRACT = r'''
import sys, json, itertools
sys.path.insert(0, sys.argv[1])
from vf import drv
import MODULE as m
for c in json.loads(SPEC):
    C = getattr(m, c['name'])
    def v(mech, msg): drv.violation('abstract:' + mech, '%s: %s' % (c['why'], msg), c)
    drv.ev(); drv.distinct('abstract/%s/%s' % (c['why'], bool(c['sub'])))
    obj = None
    try: obj = C()
    except TypeError as e:
        if c['make']: v('not-constructible', 'construction raised %s' % e)
    else:
        if not c['make']: v('constructible', 'an abstract class was constructed')
    for o in [obj, getattr(m, 'get_' + c['name'])()]:
        if o is None: continue
        drv.count('abstract_calls')
        num = c['num'] if o is obj else c['leaf']
        if o.num() != num or o.plain() != num + 1000 or getattr(m, 'call')(o) != num: v('call', 'num() %r, plain() %r, C++ sees %r, expected %r' % (o.num(), o.plain(), m.call(o), num))
        if hasattr(o, 'bad'): v('bad', 'has the method that cannot be wrapped')
        if not isinstance(o, m.K0): v('bases', 'not an instance of its base class')
    if c['override']:
        class P(C):
            def num(self): return 4242
        p = P()
        drv.count('abstract_overrides')
        if p.plain() != 5242 or m.call(p) != 4242: v('override', 'the override is not called: %r %r' % (p.plain(), m.call(p)))
drv.done()
'''


def abstract(ck, j):
    """chains of classes with a pure virtual method that cannot be wrapped: only the classes that do not implement it are abstract"""
    rng = random.Random('c17/abstract/%s/%d' % (SEED, j))
    n = rng.randint(2, 5)
    p = rng.randint(0, n - 1)
    q = rng.randint(p + 1, n)
    sub = rng.random() < .5
    bads = rng.choice([('Un', 'Un u', "'Un', [param('Un', 'u')]"), ('void', 'Un *u', "None, [param('Un *', 'u')]"), ('Un', 'int a', "'Un', [param('int', 'a')]"), ('int', 'int a, const Un &b', "'int', [param('int', 'a'), param('const Un &', 'b')]")])
    const = rng.random() < .5
    cxx = ['struct Un { int q; };']
    gen = [HANDLER, 'settings.allow_subclassing = %r\n' % sub, 'mod = new_module()\n']
    spec = []
    for i in range(n):
        def bad(tail): return 'virtual %s bad(%s) %s%s' % (bads[0], bads[1], 'const ' if const else '', tail)
        m = ['K%d() {}' % i, 'virtual int num() { return %d; }' % (i + 1)]
        if i == 0: m += ['virtual ~K0() {}', 'int plain() { return 1000 + num(); }']
        g = ["k%d.add_constructor([])" % i, "k%d.add_method('num', 'int', [], is_virtual=True)" % i]
        if i == 0: g.append("k0.add_method('plain', 'int', [])")
        declare = "bad('now', k%d.add_method, 'bad', %s, is_virtual=True%s%s)" % (i, bads[2], ', is_const=True' if const else '', ', is_pure_virtual=True' if i == p else '')
        if i == p: m.append(bad('= 0;')); g.insert(rng.randint(0, len(g)), declare)
        if i == q or i > q and rng.random() < .4: m.append(bad('{ throw 1; }')); g.insert(rng.randint(0, len(g)), declare)
        cxx.append('struct K%d%s { %s };' % (i, ' : K%d' % (i - 1) if i else '', ' '.join(m)))
        gen.append('k%d = mod.add_class(%r%s)\n' % (i, 'K%d' % i, ', parent=k%d' % (i - 1) if i else '') + '\n'.join(g) + '\n')
        spec.append({'name': 'K%d' % i, 'why': 'before' if i < p else 'pure' if i < q else 'implemented', 'sub': sub, 'make': i < p or i >= q, 'num': i + 1, 'leaf': 77, 'override': sub and i < p})
    last = 'K%d' % (n - 1)
    cxx.append('struct Leaf : %s { virtual int num() { return 77; } %s };' % (last, bad('{ throw 1; }')))
    for i in range(n):
        cxx.append('inline K%d *get_K%d() { static Leaf l; return &l; }' % (i, i))
        gen.append("mod.add_function('get_K%d', retval('K%d *', reference_existing_object=True), [])\n" % (i, i))
    cxx.append('inline int call(K0 *k) { return k->num(); }')
    gen.append("mod.add_function('call', 'int', [param('K0 *', 'k', transfer_ownership=False)])\nemit(mod)\n")
    label = 'abs%d' % j
    handmod.simple(ck, label, '\n'.join(cxx), ''.join(gen), ABSTRACT.replace('MODULE', label).replace('SPEC', repr(json.dumps(spec))), name=label)


RAISE = r'''
class No(settings.ErrorHandler):
    def handle_error(self, wrapper, exception, traceback_): return False
import io
from pybindgen.typehandlers.base import TypeLookupError, TypeConfigurationError, CodeGenerationError, NotSupportedError
def attempt(k, how, stmt, n):
    settings.error_handler = {'none': None, 'false': No()}[how]
    m = Module('r%d' % n)
    A = m.add_class('A%d' % n, allow_subclassing=(n % 2 == 0)); A.add_constructor([])
    N = m.add_class('N%d' % n); N.add_constructor([])
    try:
        exec(stmt.replace('NoCopy', 'N%d' % n), dict(m=m, A=A, N=N, param=param, retval=retval))
        with open(os.path.join(outdir, 'raise.cc'), 'w') as f: m.generate(FileCodeSink(f))
    except (TypeLookupError, TypeConfigurationError, CodeGenerationError, NotSupportedError) as e:
        print('raised %s %s %s' % (how, k, type(e).__name__))
    except Exception as e: print('other %s %s %r' % (how, k, e))
    else: print('silent %s %s' % (how, k))
for n, (k, how, stmt) in enumerate(%s): attempt(k, how, stmt, n)
'''


def raising(ck):
    """without a handler, or with one that declines, the error ends the generation"""
    cases = []
    def add(k, stmt):
        for how in ('none', 'false'): cases.append((k, how, stmt))
    for i, t in enumerate(UNKNOWN):
        add('function-param-%d' % i, "m.add_function('f', 'int', [param(%r, 'x')])" % t)
        add('function-result-%d' % i, "m.add_function('f', %r, [])" % t)
        add('method-param-%d' % i, "A.add_method('f', 'int', [param(%r, 'x')], is_virtual=True)" % t)
        add('method-result-%d' % i, "A.add_method('f', %r, [], is_static=True)" % t)
        add('constructor-%d' % i, "A.add_constructor([param(%r, 'x')])" % t)
        add('attribute-%d' % i, "A.add_instance_attribute('f', %r)" % t)
    for i, t in enumerate(LATE_RESULT[:1]):
        add('late-function-%d' % i, "m.add_function('f', %s, [])" % t)
        add('late-overload-%d' % i, "m.add_function('f', %s, []); m.add_function('f', 'int', [param('int', 'x')])" % t)
        add('late-method-%d' % i, "A.add_method('f', %s, [])" % t)
        add('late-virtual-%d' % i, "A.add_method('f', %s, [], is_virtual=True)" % t)
        add('late-attribute-%d' % i, "A.add_instance_attribute('f', 'NoCopy')")
    for i, t in enumerate(LATE_PARAM):
        add('late-param-%d' % i, "m.add_function('f', None, [%s])" % t)
    d = os.path.join(scratch(), 'raise')
    os.makedirs(d, exist_ok=True)
    try: out, err = core.generate(handmod.gen_script(d, 'r', RAISE.replace('%s):', repr(cases) + '):', 1)), d)
    except Exception as e: return ck.build_failed(e, 'raise')
    got = [l.split(' ', 3) for l in out.split('\n') if l.split(' ')[0] in ('raised', 'silent', 'other')]
    for l in got:
        ck.ev(); ck.distinct('raise/' + l[2])
        if l[0] == 'raised': ck.count('raised')
        else: ck.violation('not-raised', 'error handler %s: %s: %s' % (l[1], l[2], ' '.join(l)), l)
    if len(got) != len(cases): ck.violation('not-raised', 'only %d of %d errors seen\n%s' % (len(got), len(cases), err[-800:]))


def main():
    ck = Check('C17', 'modules built in two ways, kinds of declarations that were skipped')
    n = 16 if not THOROUGH else 96
    for j, lines, r in pmap(lambda j: one(ck, j), range(n), jobs=8):
        if isinstance(r, Exception):
            ck.build_failed(r, 's%d' % j)
            continue
        res, err = r
        ck.absorb(res, 's%d' % j)
        for l in err.split('\n'):
            if l.startswith('UNREPORTED'): ck.violation('unreported', 's%d: skipped without a word to the error handler: %s' % (j, l))
            if l.startswith('SEEN'): ck.count('reported', int(l.split()[1]))
        ck.count('skipped', lines)
    pmap(lambda j: abstract(ck, j), range(12 if not THOROUGH else 64))
    raising(ck)
    pmap(lambda name: split(ck, name), SPLIT, jobs=3)
    ck.require('skipped', n * 10); ck.require('reported', n * 10); ck.require('raised', 100); ck.require('split_checks', len(SPLIT))
    ck.finish()


if __name__ == '__main__':
    main()
