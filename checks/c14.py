"""C14: operators and special methods compute what the C++ operators compute."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *

SCAL = {'int': 'int', 'long': 'int', 'short': 'int', 'unsigned char': 'int', 'double': 'dbl', 'float': 'flt', 'bool': 'bool', 'std::string': 'str'}
CMP = ['==', '!=', '<', '<=', '>', '>=']

GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
mod = new_module()
oor = mod.add_exception('Oor', custom_name='IndexError', is_standard_error=True)
bad = mod.add_exception('Bad', message_rvalue='%(EXC)s.what()')
space = mod.add_cpp_namespace('zone')
K = {}
for c in spec['classes']:
    pol = {'plain': None, 'shared': StdSharedPtr(c['full']), 'ref': ReferenceCountingMethodsPolicy('Ref', 'Unref')}[c['policy']] if not c['base'] else None
    kw = dict(allow_subclassing=c['sub'])
    if c['base']: kw['parent'] = K[c['base']]
    k = K[c['name']] = (space if c['ns'] else mod).add_class(c['name'], memory_policy=pol, **kw)
    k.add_constructor([param('int', 'n')])
    if c['copy']: k.add_copy_constructor()
    if not c['base']:
        k.add_method('get', retval('int'), [], is_const=True)
        k.add_method('setText', None, [param('std::string', 's')])
    if c['str']: k.add_output_stream_operator()
    for o in c['cmp']: k.add_binary_comparison_operator(o)
FULL = {c['name']: c['full'] for c in spec['classes']}
for c in spec['classes']:
    k = K[c['name']]
    for o in c['ops']:
        if o['kind'] == 'bin':
            if o['plain']: k.add_binary_numeric_operator(o['sym'])
            else: k.add_binary_numeric_operator(o['sym'], K[o['ret']], K[o['left']], K[o['right']] if o['right'] in K else o['right'] if o['bare'] else param(o['right'], 'right'))
        elif o['kind'] == 'inp':
            if o['plain']: k.add_inplace_numeric_operator(o['sym'])
            else: k.add_inplace_numeric_operator(o['sym'], right=FULL.get(o['right'], o['right']) if o['bare'] else param(FULL.get(o['right'], o['right']) + (' const &' if o['right'] in K else ''), 'right'))
        elif o['kind'] == 'un':
            if o['plain']: k.add_unary_numeric_operator('-')
            else: k.add_unary_numeric_operator('-', K[o['ret']], k)
for s in spec['seqs']:
    n = s['name']
    if s['base']:
        k = K[n] = mod.add_class(n, parent=K[s['base']], allow_subclassing=s['sub'] or None); k.add_constructor([]); continue
    k = K[n] = mod.add_class(n, allow_subclassing=s['sub'], memory_policy=StdSharedPtr(n) if s['shared'] else None)
    k.add_constructor([]); k.add_copy_constructor()
    k.add_method('push', None, [param(s['T'], 'x')]); k.add_method('dump', None, [], is_const=True); k.add_method('poison', None, [param('bool', 'on')])
    def meth(py, ret, params, throw, const=False):
        if py not in s['methods']: return
        how = s['methods'][py]; cname = 'm' + py.strip('_')
        if how == 'method': k.add_method(cname, ret, params(), custom_name=py, throw=throw, is_const=const)
        elif how == 'function': k.add_function_as_method('f_' + cname, ret, [param('%s %s &' % (n, 'const' if const else ''), 'self')] + params(), custom_name=py, throw=throw)
        elif how == 'overload':
            k.add_method(cname, ret, params(), custom_name=py, throw=throw, is_const=const)
            k.add_method(cname + '2', ret, [param('Dummy *', 'd', transfer_ownership=False)], custom_name=py)
    if not K.get('Dummy'):
        K['Dummy'] = mod.add_class('Dummy'); K['Dummy'].add_constructor([])
    P = lambda *a: (lambda: [param(t, nm) for t, nm in a])
    meth('__len__', retval(s['lent']), P(), [bad], True)
    meth('__getitem__', retval(s['T']), P((s['idx'], 'i')), [oor, bad], True)
    meth('__setitem__', retval('int'), P((s['idx'], 'i'), (s['T'], 'x')), [oor, bad])
    meth('__contains__', retval(s['hast']), P((s['T'], 'x')), [bad], True)
    meth('__add__', retval(n), P((n + ' const &', 'o')), [bad], True)
    meth('__mul__', retval(n), P((s['idx'], 'k')), [bad], True)
    meth('__iadd__', retval(n), P((n + ' const &', 'o')), [bad])
    meth('__imul__', retval(n), P((s['idx'], 'k')), [bad])
    if '__call__' in s['methods']:
        k.add_method('c1', retval('int'), [param('int', 'a'), param('int', 'b', default_value='7')], custom_name='__call__', throw=[bad])
        if s['methods']['__call__'] == 'overload':
            k.add_method('c2', retval('int'), [param('std::string', 's')], custom_name='__call__', throw=[bad])
emit(mod)
'''

DRIVER = r'''
import sys, json, os, random, gc, copy, operator, struct
from vf import drv
D, NAME, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.path.insert(0, D)
import importlib
M = importlib.import_module(NAME)
c = drv.CSide(M)
spec = json.load(open(os.path.join(D, 'spec.json')))
rng = random.Random('%s/%s' % (drv.SEED, NAME))
class Fail(Exception): pass
REJ = (TypeError, ValueError, OverflowError)
C = {k['name']: k for k in spec['classes']}
S = {k['name']: k for k in spec['seqs']}
def cls(nm): return getattr(M.zone if nm in C and C[nm]['ns'] else M, nm)
SCAL = spec['scal']; RANGE = {'int': 31, 'long': 63, 'short': 15}
class Idx(object):
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
class Sub(object): pass
PY = {}
for nm in list(C) + list(S):
    t = cls(nm)
    if (C.get(nm) or S.get(nm))['sub']: PY[nm] = type('Py' + nm, (t,), {})
def chain(nm):
    o = []
    while nm: o.append(nm); nm = C[nm]['base']
    return o
class V(object):
    """an operand and what we know about it"""
    def __init__(self, py, nm, val): self.py, self.nm, self.val = py, nm, val
def new(nm):
    v = rng.randint(0, 1000)
    t = PY[nm] if nm in PY and rng.random() < .25 else cls(nm)
    return V(t(v), nm, v)
def scalar(t):
    k = SCAL[t]
    if k == 'int':
        b = RANGE.get(t); lo, hi = (0, 255) if b is None else (-2**b, 2**b - 1)
        v = rng.choice([0, 1, lo, hi, rng.randint(lo, hi)])
        return V(Idx(v) if rng.random() < .1 else v, t, v)
    if k in ('dbl', 'flt'): v = rng.choice([0.0, 0.25, -1.5, 1e6, rng.randint(-10**4, 10**4) / 8.0]); return V(v, t, v)
    if k == 'bool': v = rng.random() < .5; return V(v, t, v)
    v = ''.join(rng.choice('abc\0\xe9\u20ac') for _ in range(rng.randint(0, 6))); return V(v, t, v)
def conv(x, t):
    """(convertible, integer the C++ side makes of it)"""
    if t in C: return (isinstance(x.py, cls(t)), x.val)
    k, p = SCAL[t], x.py
    if k == 'int':
        if isinstance(p, Idx): p = p.v
        if not isinstance(p, int): return (False, 0)
        b = RANGE.get(t); lo, hi = (0, 255) if b is None else (-2**b, 2**b - 1)
        return (lo <= p <= hi, p)
    if k in ('dbl', 'flt'):
        if isinstance(p, Idx): p = p.v
        if not isinstance(p, (int, float)): return (False, 0)
        p = float(p)
        if k == 'flt' and abs(p) < 2**40: p = struct.unpack('f', struct.pack('f', p))[0]
        return (True, int(p * 8) if abs(p) < 2**40 else None)
    if k == 'bool': return (True, int(bool(p)))
    if isinstance(p, str): p = p.encode('utf-8')
    return (isinstance(p, bytes), sum(p) if isinstance(p, bytes) else 0)
def mix(a, b, i): return (a * 3 + b * 5 + i * 7) % 10007
def slot(x, kind, sym):
    """the class whose operator function sits in this type slot"""
    if x.nm not in C: return None
    for k in chain(x.nm):
        if kind == 'cmp':
            if C[k]['cmp']: return k
        elif any(o['kind'] == kind and o['sym'] == sym for o in C[k]['ops']): return k
def apply(k, kind, sym, a, b):
    for o in C[k]['ops']:
        if o['kind'] == kind and o['sym'] == sym:
            (oka, va), (okb, vb) = conv(a, o['left']), conv(b, o['right']) if b is not None else (True, 0)
            if oka and okb: return o, va, vb
    return None
def check_result(r, o, va, vb, what):
    want = mix(va, vb, o['id'])
    log = c.log()
    if log != ['call op%d %d %d' % (o['id'], va, vb)]: raise Fail('%s: C++ saw %r, expected operator %d on %d and %d' % (what, log, o['id'], va, vb))
    if type(r) is not cls(o['ret']): raise Fail('%s: result has type %s, expected %s' % (what, type(r), o['ret']))
    if r.get() != want: raise Fail('%s: result is %d, C++ computed %d' % (what, r.get(), want))
def intact(*xs):
    for x in xs:
        if x.nm in C and x.py.get() != x.val: raise Fail('operand changed from %d to %d' % (x.val, x.py.get()))
OP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '/=': operator.itruediv,
      '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
def other():
    r = rng.random()
    if r < .7: return new(rng.choice(list(C)))
    if r < .95: return scalar(rng.choice(list(SCAL)))
    return V(rng.choice([None, [], object(), 1j, 2**80]), '?', 0)
def order(a, b, kind, sym):
    sa, sb = slot(a, kind, sym), slot(b, kind, sym)
    if type(a.py) is type(b.py) or sb == sa: sb = None
    l = [sa, sb]
    if sa and sb and issubclass(type(b.py), type(a.py)): l.reverse()
    return [k for k in l if k]
def binary(a, b, sym):
    for k in order(a, b, 'bin', sym):
        r = apply(k, 'bin', sym, a, b)
        if r: return r
def run(what, f):
    c.log()
    try: return True, f()
    except Exception as e: return False, e
def numeric():
    inplace = rng.random() < .35
    sym = rng.choice('+-*/')
    cand = [(k, o) for k in C for o in C[k]['ops'] if o['kind'] == ('inp' if inplace else 'bin')]
    if cand and rng.random() < .8:
        k, o = rng.choice(cand); sym = o['sym'][0]
        subs = [x for x in C if o['left'] in chain(x)]
        a = new(rng.choice(subs)); b = scalar(o['right']) if o['right'] in SCAL else new(rng.choice([x for x in C if o['right'] in chain(x)]))
        if rng.random() < .1: b = other()
        if rng.random() < .05: a = other()
    else: a, b = new(rng.choice(list(C))), other()
    if rng.random() < .06: b = a
    if rng.random() < .1: a, b = b, a
    full = sym + '=' if inplace else sym
    what = '%s(%r) %s %s(%r)' % (type(a.py).__name__, a.val, full, type(b.py).__name__, b.val)
    drv.op(what)
    if a.nm not in C and b.nm not in C: return
    e = None
    if inplace and slot(a, 'inp', full): e = apply(slot(a, 'inp', full), 'inp', full, a, b)
    if e is None: e = binary(a, b, sym)
    if e and (e[1] is None or e[2] is None): return          # a float too large for the model
    # CPython also reaches the operator of a Python subclass through sq_inplace_concat, where NotImplemented has no meaning
    if e is None and full == '+=' and type(a.py).__name__[:2] == 'Py' and slot(a, 'inp', full): return
    ok, r = run(what, lambda: OP[full](a.py, b.py))
    if e is None:
        if ok: raise Fail('%s: gave %r, no declared operator fits' % (what, r))
        if type(r) is not TypeError: raise Fail('%s: raised %r, expected TypeError' % (what, r))
        if c.log(): raise Fail('%s: C++ ran although no declared operator fits' % what)
        drv.count('refused')
    else:
        if not ok: raise Fail('%s: raised %r, operator %d fits' % (what, r, e[0]['id']))
        check_result(r, e[0], e[1], e[2], what); drv.count('inplace' if inplace else 'binary')
        drv.distinct([e[0]['kind'], e[0]['sym'], e[0]['right'] if e[0]['right'] in SCAL else 'class', a.nm == e[0]['left'], type(a.py).__name__[:2] == 'Py', b.nm == e[0]['right']])
    intact(b) if inplace else intact(a, b)
def unary():
    a = new(rng.choice(list(C)))
    k = slot(a, 'un', '-')
    what = '-%s(%d)' % (type(a.py).__name__, a.val)
    drv.op(what)
    ok, r = run(what, lambda: -a.py)
    if k is None:
        if ok or type(r) is not TypeError: raise Fail('%s: %r, not declared' % (what, r))
        drv.count('refused')
    else:
        if not ok: raise Fail('%s: raised %r' % (what, r))
        o = [o for o in C[k]['ops'] if o['kind'] == 'un'][0]
        check_result(r, o, a.val, 0, what); drv.count('unary'); drv.distinct(['un', o['ret'] == k, a.nm == k])
    intact(a)
def cmpval(op, a, b): return ((a * 31 + b * 17 + spec['cmpops'].index(op) * 11) // 3) % 2 == 0
def compare():
    a = new(rng.choice(list(C))); b = new(rng.choice([a.nm] * 3 + list(C))) if rng.random() < .85 else other()
    if rng.random() < .1: b = a
    if rng.random() < .05: a, b = b, a
    sym = rng.choice(spec['cmpops'])
    what = '%s(%r) %s %s(%r)' % (type(a.py).__name__, a.val, sym, type(b.py).__name__, b.val)
    drv.op(what)
    ok, r = run(what, lambda: OP[sym](a.py, b.py)); log = c.log()
    def try_(x, op, y):
        k = slot(x, 'cmp', op)
        return k if k and op in C[k]['cmp'] and isinstance(y.py, cls(k)) else None
    plan = [(a, sym, b), (b, SWAP[sym], a)]
    if type(a.py) is not type(b.py) and issubclass(type(b.py), type(a.py)): plan.reverse()
    plan = [(x, o, y, try_(x, o, y)) for x, o, y in plan]
    plan = [p for p in plan if p[3]]
    if not plan:
        if log: raise Fail('%s: C++ ran (%r), the operator is not declared' % (what, log))
        if sym in ('==', '!='):
            if not ok or r is not ((a.py is b.py) == (sym == '==')): raise Fail('%s: %r' % (what, r))
        elif ok or type(r) is not TypeError: raise Fail('%s: %r, expected TypeError' % (what, r))
        drv.count('refused')
    else:
        x, o, y, k = plan[0]
        if not ok: raise Fail('%s: raised %r' % (what, r))
        want = cmpval(o, x.val, y.val)
        if r is not want: raise Fail('%s: %r, C++ says %r' % (what, r, want))
        if log != ['call cmp%s %s %d %d' % (o, k, x.val, y.val)]: raise Fail('%s: C++ saw %r' % (what, log))
        drv.count('comparisons'); drv.distinct(['cmp', o, x is a, type(a.py) is type(b.py), a.nm == k])
    intact(*[x for x in (a, b) if x.nm in C])
def misc():
    a = new(rng.choice(list(C))); k = C[a.nm]; r = rng.random(); drv.op('misc ' + a.nm)
    if r < .4:
        if not any(C[x]['str'] for x in chain(a.nm)): return
        txt = ''.join(rng.choice(['a', 'Z', '%', '\n', '\0', '\xe9', '\u20ac', '\U0001f600']) for _ in range(rng.randint(0, 12)))
        a.py.setText(txt)
        top = [x for x in chain(a.nm) if C[x]['str']][0]
        want = '%s:%d:%s' % (top, a.val, txt)
        got = str(a.py)
        if got != want: raise Fail('str() is %r, C++ writes %r' % (got, want))
        if '%s' % a.py != want or format(a.py) != want: raise Fail('formatting differs from str()')
        drv.count('str')
    elif r < .8:
        top = [x for x in chain(a.nm) if C[x]['copy']]
        if not top: return
        a.py.setText('orig'); b = copy.copy(a.py)
        if type(b) is not cls(top[0]): raise Fail('copy of %s is a %s' % (a.nm, type(b)))
        if b is a.py or b.get() != a.val: raise Fail('copy has value %d, original %d' % (b.get(), a.val))
        b.setText('copy'); 
        s = [x for x in chain(a.nm) if C[x]['str']]
        if s and not str(a.py).endswith(':orig'): raise Fail('changing a copy changed the original')
        v = a.val; a.py = None; gc.collect()
        if b.get() != v: raise Fail('copy changed when the original died')
        drv.count('copies'); drv.distinct(['copy', k['policy'], top[0] == a.nm])
    else:
        if any(C[x]['cmp'] for x in chain(a.nm)): return
        if hash(a.py) != hash(a.py) or {a.py: 5}[a.py] != 5: raise Fail('hash is not stable')
        drv.count('hashes')
# ---- sequences
seqs = []
class Q(object): pass
def val(t):
    if t == 'int': return rng.choice([0, 1, -5, 2**31 - 1, -2**31, rng.randint(-9, 9)])
    return ''.join(rng.choice('xy\0\xe9') for _ in range(rng.randint(0, 3)))
def enc(t, v): return 'I%d' % v if t == 'int' else 'S' + v.encode('utf-8').hex()
def badval(t): return rng.choice([object(), None, 1.5] + (['x', 2**31, -2**31 - 1] if t == 'int' else [5, '\ud800']))
def root(s): return root(S[s['base']]) if s['base'] else s
def mkq():
    nm = rng.choice(list(S)); q = Q(); s = S[nm]
    q.t = PY[nm] if nm in PY and rng.random() < .4 else cls(nm)
    q.py = q.t(); q.model = []; q.s = root(s); q.T = q.s['T']; q.has = q.s['methods']; q.poison = False; q.rt = cls(q.s['name'])
    for _ in range(rng.randint(0, 5)):
        v = val(q.T); q.py.push(v); q.model.append(v)
    c.log()
    return q
def wrap(q, py, model):
    r = Q(); r.t = type(py); r.py = py; r.model = model; r.s = q.s; r.T = q.T; r.has = q.has; r.poison = False; r.rt = q.rt
    return r
def dump(q):
    c.log(); q.py.dump(); l = c.log(); want = ['seq ' + ','.join(enc(q.T, v) for v in q.model)]
    if l != want: raise Fail('sequence holds %r, expected %r' % (l, want))
def expect(f, exc, what, log=None):
    c.log()
    try: r = f()
    except exc: pass
    except Exception as e: raise Fail('%s raised %r' % (what, e))
    else: raise Fail('%s was accepted: %r' % (what, r))
    if log is not None and c.log() != log: raise Fail('%s: unexpected C++ calls' % what)
    drv.count('seq_errors')
def lim(t): return 63 if t in ('long', 'int64_t') else 31
def sequence():
    if not seqs or rng.random() < .08:
        q = mkq(); seqs.append(q)
        if len(seqs) > 8: seqs.pop(rng.randrange(8))
    c.log(); q = rng.choice(seqs); m = q.model; L = len(m); B = lim(q.s['idx'])
    op = rng.choice(list(q.has) + ['iter', 'poison', 'push', 'dump']); drv.op('%s on %s' % (op, q.s['name']))
    drv.distinct(['seq', op, q.has.get(op), q.t is cls(q.s['name']), q.T, q.s['idx'], q.poison, q.s['shared']])
    haslen = '__len__' in q.has
    Bad = M.Bad
    if op == 'push' and len(m) < 40: v = val(q.T); q.py.push(v); m.append(v); c.log()
    elif op == 'dump': dump(q)
    elif op == 'poison': q.poison = rng.random() < .3; q.py.poison(q.poison); c.log()
    elif op == '__len__':
        if q.poison: expect(lambda: len(q.py), Bad, 'len() of an object whose C++ method throws'); return
        if len(q.py) != L: raise Fail('len() is %d, C++ says %d' % (len(q.py), L))
        if bool(q.py) is not bool(m): raise Fail('truth value of a sequence of %d elements is wrong' % L)
        if q.py.__len__() != L: raise Fail('__len__')
        drv.count('seq')
    elif op == '__getitem__':
        if q.poison:
            expect(lambda: q.py[0], Bad, 'item of an object whose C++ method throws'); return
        i = rng.choice([rng.randint(0, max(0, L - 1)), rng.randint(-L - 2, L + 2), L, -L - 1, 2**31 - 1, -2**31, 2**31, 2**32, 2**32 + 1, -2**32, 2**62, 2**33 - 1])
        eff = i + L if i < 0 and haslen else i
        if B == 31 and not -2**31 <= eff < 2**31: expect(lambda: q.py[i], REJ + (IndexError,), 'index %d' % i, []); return
        if 0 <= eff < L:
            g = q.py[i]
            if g != m[eff] or type(g) is not type(m[eff]): raise Fail('item %d is %r, C++ holds %r' % (i, g, m[eff]))
            l = c.log()
            if l != ['call get %d' % eff]: raise Fail('reading item %d: C++ saw %r' % (i, l))
            drv.count('seq')
        else: expect(lambda: q.py[i], IndexError, 'index %d of %d' % (i, L), ['call get %d' % eff])
        if rng.random() < .2: expect(lambda: q.py[rng.choice(['a', None, 1.0, slice(0, 1)])], TypeError, 'an index that is no integer', [])
        if rng.random() < .1: expect(lambda: q.py[2**70], IndexError, 'a huge index', [])
    elif op == 'iter' and '__getitem__' in q.has and not q.poison:
        if list(q.py) != m: raise Fail('iteration gives %r, expected %r' % (list(q.py), m))
        if haslen and list(reversed(q.py)) != m[::-1]: raise Fail('reversed() is wrong')
        it = iter(q.py); out = []
        for x in it:
            out.append(x)
            if len(out) == 1 and len(m) < 40 and rng.random() < .3: v = val(q.T); q.py.push(v); m.append(v)
        if out != m: raise Fail('iteration gives %r, expected %r' % (out, m))
        c.log(); drv.count('seq')
    elif op == '__setitem__':
        v = val(q.T)
        i = rng.choice([rng.randint(0, max(0, L - 1)), rng.randint(-L - 2, L + 2), L, 2**32, -2**33, 2**31 - 1])
        eff = i + L if i < 0 and haslen else i
        def st(i=i, v=v): q.py[i] = v
        if q.poison: expect(st, Bad if -2**31 <= i < 2**31 else (Bad,) + REJ + (IndexError,), 'assignment when C++ throws'); return
        if B == 31 and not -2**31 <= eff < 2**31: expect(st, REJ + (IndexError,), 'index %d' % i, [])
        elif 0 <= eff < L:
            st(); m[eff] = v; l = c.log()
            if l != ['call set %d %s' % (eff, enc(q.T, v))]: raise Fail('assignment: C++ saw %r' % l)
            drv.count('seq')
        else: expect(st, IndexError, 'assignment to index %d of %d' % (i, L), ['call set %d %s' % (eff, enc(q.T, v))])
        if rng.random() < .3:
            b = badval(q.T)
            expect(lambda: st(0, b), REJ + (IndexError,), 'assignment of %r' % (b,), [])
        def de(): del q.py[rng.choice([0, -1, 5])]
        if rng.random() < .3: expect(de, (TypeError, AttributeError, IndexError), 'del', [])
        dump(q)
    elif op == '__contains__':
        v = rng.choice(m) if m and rng.random() < .6 else val(q.T)
        if q.poison: expect(lambda: v in q.py, Bad, 'membership test when C++ throws'); return
        a, b = v in q.py, v not in q.py
        if a is not (v in m) or b is not (v not in m): raise Fail('%r in it is %r, not in it is %r, C++ counts %d' % (v, a, b, m.count(v)))
        if c.log() != ['call has %s' % enc(q.T, v)] * 2: raise Fail('membership test: wrong C++ calls')
        b = badval(q.T); drv.count('seq')
        if rng.random() < .3: expect(lambda: b in q.py, REJ + (RuntimeError,), 'membership test of %r' % (b,), [])
    elif op in ('__add__', '__iadd__'):
        others = [x for x in seqs if x.s is q.s]; o = rng.choice(others); f = operator.add if op == '__add__' else operator.iadd
        if rng.random() < .15: expect(lambda: f(q.py, rng.choice([[], None, 5, 'x'] + ([] if q.has[op] == 'overload' else [M.Dummy()]))), TypeError, 'concatenation with a foreign object', []); return
        if q.poison: expect(lambda: f(q.py, o.py), Bad, 'concatenation when C++ throws'); return
        if L + len(o.model) > 60: return
        r = f(q.py, o.py); want = m + o.model
        if type(r) is not q.rt: raise Fail('concatenation gives a %s' % type(r))
        if op == '__iadd__': m[:] = want
        seqs.append(wrap(q, r, list(want))); dump(seqs[-1]); dump(q); dump(o); drv.count('seq')
    elif op in ('__mul__', '__imul__'):
        k = rng.choice([0, 1, 2, 3, -1, 2**31 - 1, 2**32, 2**32 + 1, -2**40]); f = operator.mul if op == '__mul__' else operator.imul
        if rng.random() < .15: expect(lambda: f(q.py, rng.choice([None, 1.5, 'x'])), TypeError, 'repetition by no integer', []); return
        if B == 31 and not -2**31 <= k < 2**31: expect(lambda: f(q.py, k), REJ, 'repetition by %d' % k, []); return
        if q.poison: expect(lambda: f(q.py, k), Bad, 'repetition when C++ throws'); return
        if L > 20: return
        c.log(); r = f(q.py, k) if op == '__imul__' or rng.random() < .6 else k * q.py
        l = c.log()
        if l != ['call rep %d' % k]: raise Fail('repetition by %d: C++ saw %r' % (k, l))
        want = m * k if -5 < k < 5 else []
        if type(r) is not q.rt: raise Fail('repetition gives a %s' % type(r))
        if op == '__imul__': m[:] = want
        seqs.append(wrap(q, r, list(want))); dump(seqs[-1]); dump(q); drv.count('seq')
    elif op == '__call__':
        a, b = rng.randint(-2**31, 2**31 - 1), rng.randint(-9, 9)
        form = rng.choice([((a,), {}), ((a, b), {}), ((), dict(a=a)), ((), dict(b=b, a=a)), ((a,), dict(b=b))])
        bb = b if len(form[0]) + len(form[1]) == 2 else 7
        if q.poison: expect(lambda: q.py(*form[0], **form[1]), Bad, 'call when C++ throws'); return
        r = q.py(*form[0], **form[1])
        if r != L * 10 + bb or c.log() != ['call c1 %d %d' % (a, bb)]: raise Fail('calling the object gave %r' % (r,))
        drv.count('calls')
        if q.has['__call__'] == 'overload':
            if q.py('abc') != 3 or q.py(s='\0\xe9') != 3: raise Fail('overload of __call__')
        expect(lambda: q.py(*rng.choice([(), (1, 2, 3), ([],), (2**31,)])), TypeError if q.has['__call__'] == 'overload' else REJ, 'call with unsuitable arguments')
        expect(lambda: q.py(1, c=2), TypeError, 'call with an unknown keyword')
drv.sample([(k['name'], k['base'], k['cmp'], [(o['kind'], o['sym'], o['left'], o['right'], o['ret']) for o in k['ops']]) for k in spec['classes']])
dead = False
for it in range(n):
    try: rng.choice([numeric, numeric, compare, unary, misc, sequence, sequence, sequence])()
    except Fail as e: drv.violation(str(e).split(':')[0][:24] if 'C++' not in str(e)[:10] else 'op', str(e)); dead = True; break
    drv.ev()
    b = c.bad()
    if b[0]: drv.violation('lifetime', b[1]); dead = True; break
if not dead:
    del seqs[:]; gc.collect()
    for t in ('K', 'Q'):
        if c.live(t): drv.violation('leak', '%d C++ objects are alive at the end' % c.live(t))
drv.done()
'''

HEAD = r'''
#include <memory>
#include <ostream>
#include <sstream>
struct Oor {}; struct Bad { const char *what() const { return "poisoned"; } };
struct Dummy { };
inline long long sc(long long v) { return v; } inline long long sc(int v) { return v; } inline long long sc(long v) { return v; } inline long long sc(short v) { return v; } inline long long sc(unsigned char v) { return v; } inline long long sc(bool v) { return v; }
inline long long sc(double v) { return (long long) (v * 8); } inline long long sc(float v) { return (long long) ((double) v * 8); }
inline long long sc(const std::string &v) { long long s = 0; for (size_t i = 0; i < v.size(); i++) s += (unsigned char) v[i]; return s; }
inline int mix(long long a, long long b, int i) { long long v = (a % 10007 * 3 + b % 10007 * 5 + i * 7) % 10007; return (int) (v < 0 ? v + 10007 : v); }
inline int opcall(int id, long long a, long long b) { char t[90]; snprintf(t, sizeof t, "op%d %lld %lld", id, a, b); vf::call(t); return mix(a, b, id); }
inline bool cmpcall(const char *o, const char *k, int a, int b, int i) { char t[90]; snprintf(t, sizeof t, "cmp%s %s %d %d", o, k, a, b); vf::call(t); return ((a * 31 + b * 17 + i * 11) / 3) % 2 == 0; }
inline void call1(const char *n, long long a) { char t[90]; snprintf(t, sizeof t, "%s %lld", n, a); vf::call(t); }
'''


def make_spec(rng):
    classes, oid = [], [0]
    for i in range(rng.randint(3, 5)):
        base = rng.choice([None] + [c['name'] for c in classes]) if i else None
        b = [c for c in classes if c['name'] == base]
        pol = b[0]['policy'] if b else rng.choice(['plain', 'plain', 'shared', 'ref'])
        ns = bool(b) and b[0]['ns'] or rng.random() < .3       # (C15 looks at hierarchies that leave a submodule)
        classes.append({'name': 'K%d' % i, 'full': ('zone::' if ns else '') + 'K%d' % i, 'ns': ns, 'base': base, 'policy': pol, 'sub': (b and b[0]['sub']) or rng.random() < .4, 'copy': rng.random() < .7, 'str': rng.random() < .5,
                        'cmp': rng.sample(CMP, rng.randint(1, 6)) if rng.random() < .7 else [], 'ops': []})
    names = [c['name'] for c in classes]
    for c in classes:
        if rng.random() < .25 and c['base'] is None and len(classes) > 3:
            # a class whose only numeric operator is the unary one
            c['ops'].append({'kind': 'un', 'sym': '-', 'left': c['name'], 'right': 'int', 'ret': c['name'], 'plain': True, 'bare': False})
            continue
        for sym in '+-*/':
            if rng.random() < .6:
                seen = set()
                for _ in range(rng.randint(1, 4)):
                    plain = rng.random() < .3
                    o = {'kind': 'bin', 'sym': sym, 'left': c['name'] if plain or rng.random() < .75 else rng.choice(names), 'right': c['name'] if plain else rng.choice(names + list(SCAL)), 'ret': c['name'] if plain else rng.choice(names), 'plain': plain, 'bare': rng.random() < .5}
                    if (o['left'], o['right']) not in seen:
                        seen.add((o['left'], o['right']))
                        c['ops'].append(o)
            if rng.random() < .4:
                seen = set()
                for _ in range(rng.randint(1, 2)):
                    plain = rng.random() < .4
                    r = c['name'] if plain else rng.choice(names + list(SCAL))
                    if r not in seen:
                        seen.add(r)
                        c['ops'].append({'kind': 'inp', 'sym': sym + '=', 'left': c['name'], 'right': r, 'ret': c['name'], 'plain': plain, 'bare': rng.random() < .5})
        if rng.random() < .6:
            plain = rng.random() < .6
            c['ops'].append({'kind': 'un', 'sym': '-', 'left': c['name'], 'right': 'int', 'ret': c['name'] if plain else rng.choice(names), 'plain': plain, 'bare': False})
        rng.shuffle(c['ops'])
    # one C++ operator per (kind, symbol, left, right): the same operator may be declared in two classes
    ids, rets = {}, {}
    for c in classes:
        for o in c['ops']:
            key = (o['kind'], o['sym'], o['left'], o['right'])
            o['ret'] = rets.setdefault(key, o['ret'])
            if o['plain'] and o['ret'] != c['name']:
                o['plain'] = False
            o['id'] = ids.setdefault(key, len(ids))
            for k in classes:
                if k['name'] == o['ret']:
                    k['copy'] = True        # operator results are returned by value
    seqs = []
    M = ['__len__', '__getitem__', '__setitem__', '__contains__', '__add__', '__mul__', '__iadd__', '__imul__', '__call__']
    for i in range(3):
        ms = M if i == 0 else [m for m in M if rng.random() < .7] or ['__len__']
        seqs.append({'name': 'Q%d' % i, 'base': None, 'sub': rng.random() < .5, 'T': rng.choice(['int', 'std::string']), 'idx': rng.choice(['long', 'int', 'int64_t']), 'lent': rng.choice(['int', 'size_t', 'unsigned int', 'long']), 'hast': rng.choice(['int', 'bool', 'long']),
                     'shared': rng.random() < .3, 'methods': {m: rng.choice(['method', 'method', 'function', 'overload']) for m in ms}})
    seqs.append(dict(seqs[0], name='Q3', base='Q0', sub=seqs[0]['sub']))
    return {'classes': classes, 'seqs': seqs, 'scal': SCAL, 'cmpops': CMP}


def header(spec):
    h = HEAD
    full = {c['name']: c['full'] for c in spec['classes']}
    for c in spec['classes']:
        n = c['name']
        if c['ns']:
            h += 'namespace zone {\n'
        if c['base']:
            h += 'struct %s : %s { explicit %s(int k = 0) : %s(k) {} };\n' % (n, '::' + full[c['base']], n, '::' + full[c['base']])
        else:
            h += '''struct %s { vf::Track track; int n; std::string text; int rc; explicit %s(int k = 0) : track("K"), n(k), rc(1) {} %s(const %s &o) : track("K"), n(o.n), text(o.text), rc(1) {}
    %s &operator=(const %s &o) { track.use(); o.track.use(); n = o.n; text = o.text; return *this; } int get() const { track.use(); return n; } void setText(std::string s) { text = s; } void Ref() { rc++; } void Unref() { if (!--rc) delete this; } };\n''' % ((n,) * 6)
        for o in c['cmp']:
            h += 'inline bool operator%s(const %s &a, const %s &b) { return cmpcall("%s", "%s", a.get(), b.get(), %d); }\n' % (o, n, n, o, n, CMP.index(o))
        if c['str']:
            h += 'inline std::ostream &operator<<(std::ostream &s, const %s &a) { s << "%s:" << a.get() << ":"; return s.write(a.text.data(), a.text.size()); }\n' % (n, n)
        if c['ns']:
            h += '}\n'
    done = set()
    F = lambda t: '::' + full[t] if t in full else t
    for c in spec['classes']:
        for o in c['ops']:
            key = (o['kind'], o['sym'], o['left'], o['right'])
            if key in done:
                continue
            done.add(key)
            l, r, ret = F(o['left']), F(o['right']), F(o['ret'])
            rv = 'b.get()' if o['right'] in full else 'sc(b)'
            rt = 'const %s &' % r if o['right'] in full or o['right'] == 'std::string' else r
            where = [c2 for c2 in spec['classes'] if c2['name'] == o['left']][0]['ns']
            if where:
                h += 'namespace zone {\n'
            if o['kind'] == 'bin':
                h += 'inline %s operator%s(const %s &a, %s b) { return %s(opcall(%d, a.get(), %s)); }\n' % (ret, o['sym'], l, rt, ret, o['id'], rv)
            elif o['kind'] == 'inp':
                h += 'inline %s &operator%s(%s &a, %s b) { a.n = opcall(%d, a.get(), %s); return a; }\n' % (l, o['sym'], l, rt, o['id'], rv)
            else:
                h += 'inline %s operator-(const %s &a) { return %s(opcall(%d, a.get(), 0)); }\n' % (ret, l, ret, o['id'])
            if where:
                h += '}\n'
    for s in spec['seqs']:
        n, T, I = s['name'], s['T'], s['idx']
        if s['base']:
            h += 'struct %s : %s { };\n' % (n, s['base'])
            continue
        h += '''struct %(n)s { vf::Track track; std::vector<%(T)s> v; bool bad; %(n)s() : track("Q"), bad(false) {} %(n)s(const %(n)s &o) : track("Q"), v(o.v), bad(false) {} %(n)s &operator=(const %(n)s &o) { v = o.v; return *this; }
    void push(%(T)s x) { v.push_back(x); } void poison(bool on) { bad = on; } void chk() const { track.use(); if (bad) throw Bad(); }
    void dump() const { std::string s = "seq "; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += vf::enc(v[i]); } vf::ev(s); }
    %(L)s mlen() const { chk(); return (%(L)s) v.size(); }
    %(T)s mgetitem(%(I)s i) const { call1("get", i); chk(); if (i < 0 || i >= (long) v.size()) throw Oor(); return v[i]; }
    int msetitem(%(I)s i, %(T)s x) { char t[40]; snprintf(t, sizeof t, "set %%lld ", (long long) i); vf::call((t + vf::enc(x)).c_str()); chk(); if (i < 0) throw Oor(); if (i >= (long) v.size()) return -1; v[i] = x; return 0; }
    %(H)s mcontains(%(T)s x) const { vf::call(("has " + vf::enc(x)).c_str()); chk(); int c = 0; for (size_t i = 0; i < v.size(); i++) c += v[i] == x; return (%(H)s) c; }
    %(n)s madd(%(n)s const &o) const { chk(); o.track.use(); %(n)s r(*this); r.v.insert(r.v.end(), o.v.begin(), o.v.end()); return r; }
    %(n)s mmul(%(I)s k) const { call1("rep", k); chk(); %(n)s r; if (k < 5) for (%(I)s i = 0; i < k; i++) r.v.insert(r.v.end(), v.begin(), v.end()); return r; }
    %(n)s miadd(%(n)s const &o) { %(n)s r = madd(o); v = r.v; return r; }
    %(n)s mimul(%(I)s k) { %(n)s r = mmul(k); v = r.v; return r; }
    int c1(int a, int b = 7) { char t[60]; snprintf(t, sizeof t, "c1 %%d %%d", a, b); vf::call(t); chk(); return (int) v.size() * 10 + b; } int c2(std::string s) { chk(); return (int) s.size(); }
    %(L)s mlen2(Dummy *) const { return 0; } %(T)s mgetitem2(Dummy *) const { return %(T)s(); } int msetitem2(Dummy *) { return 0; } %(H)s mcontains2(Dummy *) const { return 0; } %(n)s madd2(Dummy *) const { return *this; } %(n)s mmul2(Dummy *) const { return *this; } %(n)s miadd2(Dummy *) { return *this; } %(n)s mimul2(Dummy *) { return *this; }
};
''' % dict(n=n, T=T, I=I, L=s['lent'], H=s['hast'])
        d = dict(n=n, T=T, I=I, L=s['lent'], H=s['hast'])
        h += '''inline %(L)s f_mlen(const %(n)s &s) { return s.mlen(); } inline %(T)s f_mgetitem(const %(n)s &s, %(I)s i) { return s.mgetitem(i); } inline int f_msetitem(%(n)s &s, %(I)s i, %(T)s x) { return s.msetitem(i, x); }
inline %(H)s f_mcontains(const %(n)s &s, %(T)s x) { return s.mcontains(x); } inline %(n)s f_madd(const %(n)s &s, %(n)s const &o) { return s.madd(o); } inline %(n)s f_mmul(const %(n)s &s, %(I)s k) { return s.mmul(k); }
inline %(n)s f_miadd(%(n)s &s, %(n)s const &o) { return s.miadd(o); } inline %(n)s f_mimul(%(n)s &s, %(I)s k) { return s.mimul(k); }
''' % d
    return h


def main():
    ck = Check('C14', 'distinct (operator, operand kinds, path) combinations')
    nmod = 8 if not THOROUGH else 24
    n = 2500 if not THOROUGH else 30000

    def one(i):
        name = 'ops%d' % i
        rng = random.Random('C14/%s/%d' % (SEED, i))
        spec = make_spec(rng)
        d = os.path.join(scratch(), name)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        try:
            handmod.build(d, name, header(spec), GEN)
        except Exception as e:
            return name, e
        r = drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, name, str(n)], timeout=850)
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        return name, r
    for name, r in pmap(one, range(nmod)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'operators')
        else:
            ck.absorb(r, name)
    for k, m in (('binary', 1500), ('inplace', 500), ('unary', 400), ('comparisons', 700), ('refused', 900), ('str', 200), ('copies', 300), ('seq', 1500), ('seq_errors', 900), ('calls', 200)):
        ck.require(k, m)
    ck.finish()


main()
