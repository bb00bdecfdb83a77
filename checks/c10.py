"""C10: declared C++ exceptions become the declared Python exceptions: random exception hierarchies, signatures and throw lists."""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import handmod, objsig

ORDER = {'': 0, 'Box': 0, 'na': 1, 'na::nb': 2, 'nc': 3}
STD = ['exception', 'runtime_error', 'logic_error', 'out_of_range']
STDBASE = {'exception': None, 'runtime_error': 0, 'logic_error': 0, 'out_of_range': 2}
BUILTIN = ['ValueError', 'KeyError', 'RuntimeError', 'ZeroDivisionError', 'OSError', 'LookupError', 'StopIteration']


def make(rng, j, nf):
    ex = []
    for s in STD:
        ex.append({'i': len(ex), 'n': s, 'base': STDBASE[s], 'place': 'std', 'std': True, 'decl': rng.random() < .7, 'msg': rng.choice(['what', 'what', None, 'lit']), 'builtin': None, 'py': None})
    for _ in range(10):
        i = len(ex)
        b = rng.choice([None, None, 0, 1, 2, 3] + list(range(4, i)) * 2)
        std = b is not None and ex[b]['std']
        e = {'i': i, 'n': 'E%d' % i, 'base': b, 'std': std, 'decl': rng.random() < .75, 'builtin': rng.choice(BUILTIN) if rng.random() < .2 else None,
             'py': 'Py%d' % i if rng.random() < .2 else None, 'msg': rng.choice(['msg', 'msg', 'm', 'lit', None] + ['what'] * std)}
        ex.append(e)
    for e in ex:
        x = e['base']
        while x is not None and not ex[x]['decl']: x = ex[x]['base']
        e['pybase'] = x if rng.random() < .85 else None
        if e['place' if 'place' in e else 'n'] == 'std': continue
        lo = ORDER[ex[e['pybase']]['place']] if e['pybase'] is not None and ex[e['pybase']]['place'] != 'std' else 0
        e['place'] = rng.choice([p for p in ['', '', 'na', 'na::nb', 'nc', 'Box'] if ORDER[p] >= lo])
    decl = [e['i'] for e in ex if e['decl']]
    fns = objsig.make(rng, nf)
    for f in fns:
        f['throw'] = rng.sample(decl, rng.randint(1, min(4, len(decl))))
        f['unblock'] = rng.random() < .4 and not any(p['k'] == 'pyobj' for p in f['ps'])
        f['pol'] = rng.choice(['plain', 'plain', 'sub', 'refm', 'std'])
        f['over'] = rng.random() < .3 and f['what'] != 'ctor'
        f['const'] = rng.random() < .3
        if f['what'] == 'method' and rng.random() < .3 and f['pol'] != 'std': f['what'] = 'fam'       # a function as method
    virt = []
    for i in range(8):
        virt.append({'i': i, 'throw': rng.sample(decl, rng.randint(1, min(3, len(decl)))), 'ret': rng.choice(['void', 'int', 'std::string', 'A']), 'unblock': rng.random() < .5, 'const': rng.random() < .4, 'pure': rng.random() < .2, 'mid': rng.random() < .5})
    return {'ex': ex, 'fns': fns, 'virt': virt}


def full(e):
    return (e['place'] + '::' if e['place'] else '') + e['n']


def anc(ex, i):
    while i is not None:
        yield i
        i = ex[i]['base']


def cases(spec, throw):
    """[(thrown class, class it is expected to be caught as)]"""
    ex = spec['ex']
    out = []
    for e in ex:
        for t in throw:
            if t in anc(ex, e['i']):
                out.append((e['i'], t))
                break
    return out


def header(spec):
    ex = spec['ex']
    o = objsig.HEADER + '#include <stdexcept>\n'
    o += 'struct Box { Box() {} int z = 5; %s };\n' % ' '.join('struct %s;' % e['n'] for e in ex if e['place'] == 'Box')
    for e in ex:
        if e['place'] == 'std': continue
        F, n = full(e), e['n']
        ns = [p for p in e['place'].split('::') if p and p != 'Box']
        o += ''.join('namespace %s { ' % p for p in ns)
        b = ex[e['base']] if e['base'] is not None else None
        d = n if ns else F
        own = b is None or b['place'] == 'std'
        init = []
        if b is not None: init.append('%s(%s)' % (full(b) if b['place'] == 'std' else '::' + full(b), '' if b['n'] == 'exception' else 's'))
        if own: init += ['track("E")', 'm(s)']
        o += 'struct %s%s { %s %s(const std::string &s)%s {} const char *msg%d() const { %sreturn m.c_str(); } ~%s() noexcept {} };\n' % (
            d, ' : public ::' + full(b) if b is not None else '', 'vf::Track track; std::string m;' if own else '', n, ' : ' + ', '.join(init) if init else '', e['i'], 'track.use(); ', n)
        if b is not None and b['place'] == 'std' and b['n'] == 'exception':
            o = o.rstrip()[:-2] + ' const char *what() const noexcept { return m.c_str(); } };\n'
        o += '}' * len(ns) + '\n'
    o += 'inline int &thr() { static int t = -1; return t; } inline std::string &thrmsg() { static std::string s; return s; }\n'
    o += 'inline void mt() { int k = thr(); thr() = -1; switch (k) { %s default: ; } }\n' % ' '.join(
        'case %d: throw %s(%s);' % (e['i'], full(e), '' if full(e) == 'std::exception' else 'thrmsg()') for e in ex)
    o += 'inline void gil(bool unblocked) { if (PyGILState_Check() == (unblocked ? 1 : 0)) vf::ev("GIL"); }\n'
    o += 'extern "C" inline __attribute__((used, visibility("default"))) void set_throw(int k, const char *s) { thr() = k; thrmsg() = s; }\n'
    o += 'extern "C" inline __attribute__((used, visibility("default"))) void warm() { globA(); globR(); globS(); }\n'
    for f in spec['fns']:
        ps = ', '.join('%s %s' % (objsig.K[p['k']][0], p['n']) for p in f['ps'])
        body = 'gil(%d); vf::ev("f%d"%s); ' % (f['unblock'], f['i'], ''.join(' + std::string(" ") + ' + objsig.K[p['k']][3].replace('NM', p['n']) for p in f['ps'] if objsig.K[p['k']][3]))
        n = 0
        for p in f['ps']:
            if p['k'] == 'iout': body += '*%s = %d; ' % (p['n'], 900 + n); n += 1
            if p['k'] == 'ainout': body += '%s.v++; ' % p['n']
            if p['k'] == 'atake': body += 'delete %s; ' % p['n']
            if p['k'] == 'rtake': body += 'if (%s) %s->unref(); ' % (p['n'], p['n'])
        body += 'mt(); '
        rt, _, rb = objsig.RETS[f['ret']]
        i = f['i']
        ctor = 'M%d() : z(1), refs(1) {}' % i if f['what'] != 'ctor' else 'M%d(%s) : z(1), refs(1) { %s }' % (i, ps, body)
        if f['what'] != 'function':
            m = {'method': '%s f%d(%s) %s{ %s%s }' % (rt, i, ps, 'const ' if f['const'] else '', body, rb), 'static': 'static %s f%d(%s) { %s%s }' % (rt, i, ps, body, rb), 'ctor': '', 'fam': ''}[f['what']]
            over = '%s int f%do(bool, bool, bool, bool, bool, bool, bool) { return 77; }' % ('static' if f['what'] == 'static' else '', i)
            o += 'struct M%d { vf::Track track{"M"}; int z, refs; %s virtual ~M%d() {} virtual int vv() { return z; } void ref() { refs++; } void unref() { if (!--refs) delete this; } %s %s };\n' % (i, ctor, i, m, over if f['over'] else '')
            if f['what'] == 'fam': o += 'inline %s f%d(%sM%d &self_%s) { (void) self_.z; %s%s }\n' % (rt, i, 'const ' if f['const'] else '', i, ', ' + ps if ps else '', body, rb)
        else:
            o += 'inline %s f%d(%s) { %s%s }\n' % (rt, i, ps, body, rb)
            if f['over']: o += 'inline int f%do(bool, bool, bool, bool, bool, bool, bool) { return 77; }\n' % i
    for v in sorted(spec['virt'], key=lambda v: v['unblock']):
        i, r = v['i'], v['ret']
        c = ' const' if v['const'] else ''
        rv = {'void': '', 'int': 'return 41;', 'std::string': 'return "v";', 'A': 'return A(61);'}[r]
        sp = ' throw (%s)' % ', '.join(full(spec['ex'][t]) for t in v['throw']) if i % 2 else ''
        o += 'struct V%d { V%d() {} virtual ~V%d() {} virtual %s vm(int x)%s%s%s %s go(int x)%s { return vm(x); } };\n' % (
            i, i, i, r, c, sp, ' = 0;' if v['pure'] else ' { vf::ev("vm"); mt(); %s }' % rv, r, c)
        if v['mid'] or v['pure']:
            o += 'struct W%d : V%d { W%d() {} virtual %s vm(int x)%s%s { vf::ev("wm"); mt(); %s } };\n' % (i, i, i, r, c, sp, rv)
    return o


def gen(spec, registry):
    return objsig.gen([], registry).replace('emit(mod)\n', '') + r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
K, RETS = %r, %r
ex = spec['ex']
na = mod.add_cpp_namespace('na'); nb = na.add_cpp_namespace('nb'); nc = mod.add_cpp_namespace('nc')
PL = {'': mod, 'na': na, 'na::nb': nb, 'nc': nc, 'Box': mod, 'std': mod}
Box = mod.add_class('Box'); Box.add_constructor([])
X = {}
for e in ex:
    if not e['decl']: continue
    kw = {}
    if e['pybase'] is not None: kw['parent'] = X[e['pybase']]
    if e['place'] == 'Box': kw['outer_class'] = Box
    if e['place'] == 'std': kw['foreign_cpp_namespace'] = 'std'
    if e['builtin']: kw['is_standard_error'] = True; kw['custom_name'] = e['builtin']
    elif e['py']: kw['custom_name'] = e['py']
    if e['msg']: kw['message_rvalue'] = {'what': '%%(EXC)s.what()', 'msg': '%%(EXC)s.msg' + str(e['i']) + '()', 'm': '%%(EXC)s.m.c_str()', 'lit': '"fixed 100%%%% ' + e['n'] + '"'}[e['msg']]
    X[e['i']] = PL[e['place']].add_exception(e['n'], **kw)
for f in spec['fns']:
    i = f['i']
    ps = eval('[' + ', '.join(K[p['k']][1].replace('NM', p['n']).replace('DF', ', default_value=%%r' %% p['d'][0] if p['d'] else '') for p in f['ps']) + ']')
    ret = eval(RETS[f['ret']][1])
    kw = {'throw': [X[t] for t in f['throw']], 'unblock_threads': f['unblock']}
    ob = lambda: [param('bool', 'b%%d' %% q) for q in range(7)]
    if f['what'] == 'function':
        mod.add_function('f%%d' %% i, ret, ps, **kw)
        if f['over']: mod.add_function('f%%do' %% i, retval('int'), ob(), custom_name='f%%d' %% i)
        continue
    ck = {'plain': {}, 'sub': {'allow_subclassing': True}, 'refm': {'memory_policy': ReferenceCountingMethodsPolicy('ref', 'unref')}, 'std': {'memory_policy': StdSharedPtr('::M%%d' %% i)}}[f['pol']]
    M = mod.add_class('M%%d' %% i, **ck)
    M.add_method('vv', retval('int'), [], is_virtual=f['pol'] == 'sub')
    if f['what'] == 'ctor': M.add_constructor(ps, **kw); continue
    M.add_constructor([])
    if f['what'] == 'method': kw['is_const'] = f['const']
    if f['what'] == 'static': kw['is_static'] = True
    if f['what'] == 'fam': M.add_function_as_method('f%%d' %% i, ret, [param(('const ' if f['const'] else '') + 'M%%d &' %% i, 'self')] + ps, **kw)
    else: M.add_method('f%%d' %% i, ret, ps, **kw)
    if f['over']: M.add_method('f%%do' %% i, retval('int'), ob(), custom_name='f%%d' %% i, is_static=f['what'] == 'static')
for v in spec['virt']:
    r = None if v['ret'] == 'void' else retval(v['ret'])
    kw = {'throw': [X[t] for t in v['throw']], 'is_const': v['const']}
    V = mod.add_class('V%%d' %% v['i'], allow_subclassing=True); V.add_constructor([])
    V.add_method('vm', r, [param('int', 'x')], is_virtual=True, is_pure_virtual=v['pure'], **kw)
    V.add_method('go', r, [param('int', 'x')], unblock_threads=v['unblock'], **kw)
    if v['mid'] or v['pure']:
        W = mod.add_class('W%%d' %% v['i'], parent=V); W.add_constructor([])
        W.add_method('vm', r, [param('int', 'x')], is_virtual=True, **kw)
emit(mod)
''' % (objsig.K, objsig.RETS)


DRIVER = objsig.DRIVER[:objsig.DRIVER.index('for f in fns:')].replace("fns = json.load(open(os.path.join(sys.argv[1], 'spec.json')))", "spec = json.load(open(os.path.join(sys.argv[1], 'spec.json'))); fns = spec['fns']; ex = spec['ex']") + r'''
import ctypes, builtins
c.lib.set_throw.argtypes = [ctypes.c_int, ctypes.c_char_p]; c.lib.set_throw.restype = None
class Fail(Exception): pass
c.lib.warm.restype = None; c.lib.warm()
ERR = []
sys.excepthook = lambda t, v, tb: (ERR.append((t, v)), sys.__excepthook__(t, v, tb))
T = {}
for e in ex:
    if not e['decl']: continue
    if e['builtin']: T[e['i']] = getattr(builtins, e['builtin']); continue
    o = M
    path = M.__name__
    for p in e['place'].split('::') if e['place'] not in ('', 'std') else []: o = getattr(o, p); path += '.' + p
    T[e['i']] = t = getattr(o, e['py'] or e['n'])
    if t.__name__ != (e['py'] or e['n']): raise SystemExit('name %r' % t.__name__)
    if t.__module__ != path: drv.violation('name', 'exception %s has module %r' % (t, t.__module__))
for i, t in T.items():
    if ex[i]['builtin']: continue
    b = ex[i]['pybase']
    if t.__bases__ != (T[b] if b is not None else Exception,): drv.violation('hierarchy', '%r has the bases %r' % (t, t.__bases__))
    drv.count('classes')
def text():
    return rng.choice(['', 'x', '100%', '%s %d %n', 'caf\u00e9 \u4e2d', 'a' * 300, 'line\nline', "quo'te\"", '%(EXC)s'])
def thrown(e, t, what, exc, msg):
    """exc is what the throw of e (caught as t) has to become"""
    k = ex[t]['msg']
    real = ex[e]
    want = {None: (), 'lit': ('fixed 100%% %s' % ex[t]['n'],)}.get(k, (msg,))
    if k == 'what' and (real['place'], real['n']) == ('std', 'exception'): want = None
    if type(exc) is not T[t]: raise Fail('%s: a C++ %s arrives as %r instead of %r' % (what, real['n'], type(exc), T[t]))
    if want is not None and exc.args != want: raise Fail('%s: a C++ %s arrives with %r instead of %r' % (what, real['n'], exc.args, want))
    drv.count('thrown')
    if e != t: drv.count('caught_as_base')
    drv.distinct([what.split(' ')[0], real['n'], ex[t]['n'], k, ex[t]['place'], bool(ex[t]['builtin'])])
def run(f, fn, cs, sub=None):
    i = f['i']
    sig = '%s(%s)%s%s%s' % (f['what'], ', '.join(p['k'] + ('=' + p['d'][0] if p['d'] else '') for p in f['ps']), ' -> ' + f['ret'] if f['ret'] else '', ' overloaded' if f['over'] else '', ' unblock' if f['unblock'] else '')
    args, kw, log, kwonly, vals = [], {}, [], False, []
    for p in f['ps']:
        if p['k'] == 'iout': continue
        if p['d'] and rng.random() < .4: log.append(p['d'][1]); kwonly = True; continue
        v, l = value(p['k']); log.append(l); vals.append((p['k'], v))
        if kwonly or rng.random() < .3: kw[p['n']] = v; kwonly = True
        else: args.append(v)
    v = None
    e, t = rng.choice(cs) if rng.random() < .8 else (-1, None)
    msg = text()
    if ex[e]['msg'] == 'what' and e >= 0 and ex[e]['n'] == 'exception': msg = 'std::exception'
    drv.op({'k': sig, 'throws': e, 'args': repr(args)[:200], 'kw': repr(kw)[:200]}); drv.ev(); c.log()
    before = [v.v for k, v in vals if k == 'ainout']; v = None
    if f['what'] == 'ctor' and fn.__bases__ != (object,): gc.collect()
    live = [c.live(x) for x in 'ARSM']
    refs = [sys.getrefcount(x) for x in args] + [sys.getrefcount(x) for x in kw.values()]; x = None
    c.lib.set_throw(e, msg.encode())
    exc = got = None
    try: got = fn(*args, **kw)
    except Exception as x: exc = x
    if exc is not None: exc.__traceback__ = None
    l = c.log()
    if 'GIL' in l: raise Fail('%s: runs %s the GIL' % (sig, 'with' if f['unblock'] else 'without'))
    l = [x for x in l if x.startswith('f')]; x = None
    if l != ['f%d %s' % (i, ' '.join(log)) if log else 'f%d' % i]: raise Fail('%s with %r %r: C++ saw %s instead of %s (%r)' % (sig, args, kw, l, log, exc))
    if e < 0:
        if exc is not None: raise Fail('%s: raises %r although nothing was thrown' % (sig, exc))
        drv.count('not_thrown')
    else:
        if exc is None: raise Fail('%s: returns %r although C++ threw %s' % (sig, got, ex[e]['n']))
        thrown(e, t, sig, exc, msg)
    if [v.v for k, v in vals if k == 'ainout'] != [b + 1 for b in before]: raise Fail('%s: inout object lost' % sig)
    v = got = exc = None
    if f['what'] == 'ctor' and fn.__bases__ != (object,): gc.collect()
    after = [sys.getrefcount(x) for x in args] + [sys.getrefcount(x) for x in kw.values()]; x = None
    # None and small numbers and the like belong to others, too
    for b, a, x in zip(refs, after, list(args) + list(kw.values())):
        if a != b and hasattr(x, 'v'): raise Fail('%s: %d references of a %s become %d' % (sig, b, type(x).__name__, a))
    x = None
    takes = [k for k, v in vals if k in ('atake', 'rtake') and v is not None]; v = None
    want = list(live); want[0] -= takes.count('atake')
    now = [c.live(x) for x in 'ARSM']
    if c.live('E'): raise Fail('%s: %d exception objects left' % (sig, c.live('E')))
    if now != want: raise Fail('%s: live instances of A, R, S, M were %r, now %r instead of %r after %s' % (sig, live, now, want, ex[e]['n'] if e >= 0 else 'a return'))
    n, m = c.bad()
    if n: raise Fail('%s: %s' % (sig, m))
try:
    for f in fns:
        i = f['i']
        cs = f['cases']
        if f['what'] == 'function': fs = [getattr(M, 'f%d' % i)]
        else:
            C = getattr(M, 'M%d' % i)
            if f['pol'] == 'sub':
                class Sub(C):
                    def vv(self): return 8
            if f['what'] == 'ctor':
                fs = [C] + ([Sub] if f['pol'] == 'sub' else [])
                if f['pol'] == 'sub':
                    # an instance whose constructor failed can be constructed again
                    class Twice(C):
                        def __init__(self, *a, **k):
                            try: C.__init__(self, *a, **k)
                            except Exception as x:
                                self.failed = True
                                raise
                    fs.append(Twice)
            elif f['what'] == 'static': fs = [getattr(C, 'f%d' % i), getattr(C(), 'f%d' % i)]
            else: fs = [getattr(C(), 'f%d' % i)] + ([getattr(Sub(), 'f%d' % i)] if f['pol'] == 'sub' else [])
        for fn in fs:
            for r in range(n): run(f, fn, cs)
        if f['over']:
            if fs[0](*[True] * 7) != 77: raise Fail('the other overload')
        del fs, fn
    for v in sorted(spec['virt'], key=lambda v: v['unblock']):
        V = getattr(M, 'V%d' % v['i']); W = getattr(M, 'W%d' % v['i'], None)
        good = {'void': None, 'int': 41, 'std::string': 'v', 'A': 61}[v['ret']]
        un = lambda x: x.v if v['ret'] == 'A' and x is not None else x
        for B in (W,) if v['pure'] else (V,) + ((W,) if W else ()):
            class Plain(B): pass
            class Other(B):
                def vx(self): pass
            seen = []
            class Up(B):
                def vm(self, x):
                    try: r = B.vm(self, x)
                    except Exception as e2: seen.append(e2); e2.__traceback__ = None; return {'void': None, 'int': 9, 'std::string': 'caught', 'A': M.A(99)}[v['ret']]
                    return r
            caught = {'void': None, 'int': 9, 'std::string': 'caught', 'A': 99}[v['ret']]
            class Raises(B):
                def vm(self, x): raise ValueError(7)
            for r in range(n):
                for cls in (B, Plain, Other, Up):
                    o = cls()
                    for how in ('vm', 'go', 'base'):
                        e, t = rng.choice(v['cases']) if rng.random() < .7 else (-1, None)
                        msg = 'std::exception' if e >= 0 and ex[e]['n'] == 'exception' and ex[e]['place'] == 'std' else text()
                        what = 'virtual %s %s through %s%s' % (v['ret'], cls.__name__, how, ' unblocked' if v['unblock'] else '')
                        drv.op({'k': what, 'v': v, 'throws': e}); drv.ev(); c.log()
                        c.lib.set_throw(e, msg.encode())
                        exc = got = None
                        before = sys.getrefcount(o)
                        try: got = {'vm': o.vm, 'go': o.go, 'base': lambda x: B.vm(o, x)}[how](3)
                        except Exception as x: exc = x; exc.__traceback__ = None
                        impl = [x for x in c.log() if x in ('vm', 'wm')]; x = None
                        if impl != ['wm' if B is W else 'vm']: raise Fail('%s: ran %r' % (what, impl))
                        if ERR: raise Fail('%s: %r printed' % (what, ERR))
                        if cls is Up and how != 'base':
                            if exc is not None: raise Fail('%s: %r leaves an override that caught it' % (what, exc))
                            if un(got) != (good if e < 0 else caught): raise Fail('%s: gives %r' % (what, got))
                            if e >= 0:
                                if len(seen) != 1: raise Fail('%s: the override saw %r' % (what, seen))
                                thrown(e, t, what, seen.pop(), msg)
                        elif e < 0:
                            if exc is not None or un(got) != good: raise Fail('%s: gives %r, %r' % (what, got, exc))
                        else:
                            if exc is None: raise Fail('%s: returns %r although C++ threw' % (what, got))
                            thrown(e, t, what, exc, msg)
                        exc = got = None
                        if sys.getrefcount(o) != before: raise Fail('%s: references of the instance %d -> %d' % (what, before, sys.getrefcount(o)))
                        drv.count('virtual')
                        if c.lib.gil_depth() != 1: raise Fail('%s: leaves the GIL acquired %d times' % (what, c.lib.gil_depth()))
                    # the instance is still good
                    c.lib.set_throw(-1, b'')
                    if un(o.vm(1)) != good: raise Fail('%s: the instance is broken after an exception' % cls.__name__)
    del v
except Fail as e:
    drv.violation(str(e).split(':')[0].split('(')[0].split(' ')[0], str(e), {'exceptions': [(x['n'], x['base'], x['place'], x['decl'], x['builtin'], x['msg']) for x in ex]})
args = kw = vals = o = None
gc.collect()
drv.sample([(x['n'], x['base'], x['place']) for x in ex if x['decl']])
drv.done()
'''


def main():
    ck = Check('C10', 'distinct (kind of call, thrown class, class it is caught as, message, place) combinations')
    n = 6 if not THOROUGH else 40

    def one(j):
        rng = random.Random('c10/%s/%d' % (SEED, j))
        spec = make(rng, j, 40)
        for f in spec['fns'] + spec['virt']: f['cases'] = cases(spec, f['throw'])
        d = os.path.join(scratch(), 'n%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        try:
            handmod.build(d, 'n%d' % j, header(spec), gen(spec, j % 2), impl=r"""
#include <Python.h>
// how often this thread holds the GIL through PyGILState_Ensure (1: not at all, beyond the interpreter's own)
extern "C" __attribute__((visibility("default"))) int gil_depth() { return PyGILState_GetThisThreadState()->gilstate_counter; }
""")
        except Exception as e:
            return j, e
        return j, drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, '12' if not THOROUGH else '40'], timeout=600)
    for j, r in pmap(one, range(n)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'n%d' % j)
        else:
            ck.absorb(r, 'n%d' % j)
    ck.require('thrown', n * 300)
    ck.require('caught_as_base', n * 20)
    ck.require('not_thrown', n * 50)
    ck.require('virtual', n * 100)
    ck.finish()


main()
