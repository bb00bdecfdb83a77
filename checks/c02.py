"""C02: unsuitable arguments are rejected with a Python exception before any C++ code runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import sigs

DRIVER = r'''
import sys, random
from vf import drv, sigdrv, sigs
from vf.sigs import base_of, irange, INT
m = sigdrv.SigModule(sys.argv[1], sys.argv[2])
n = int(sys.argv[3])
rng = random.Random('%s/%s' % (drv.SEED, sys.argv[2]))
NICE = (TypeError, ValueError, OverflowError)
class Boom(Exception): pass
class BadIndex(object):
    def __init__(self, e): self.e = e
    def __index__(self): raise self.e
    __int__ = __float__ = __bool__ = __index__
class BadBool(object):
    def __init__(self, e): self.e = e
    def __bool__(self): raise self.e
class BoolType(object):
    def __bool__(self): return 'no'
class BadFloat(object):
    def __init__(self, e): self.e = e
    def __float__(self): raise self.e

def modular(ctype, direction):
    """unsigned forms for which Python's own conversion reduces modulo 2**bits instead of rejecting"""
    b, how, kind = base_of(ctype)
    bits, signed = INT[b]
    return not signed and (bits >= 32 or how != 'value')

def bad_values(ctype, direction):
    """(object, expected): expected = None: any ordinary rejection; an exception: exactly that object;
    ('mod', v): rejected or arrives as v"""
    b, how, kind = base_of(ctype)
    out = []
    if kind == 'int':
        for o in ('5', None, [], 1.0, 2.5, object(), b'1', (1,), int, 3j):
            out.append((o, None))
        lo, hi = irange(b)
        bits = INT[b][0]
        for v in (lo - 1, hi + 1, hi + 2, lo - 2, (hi + 1) * 2 + 1, 1 << 70, -(1 << 70), (1 << bits) + 5, -(1 << bits) + 5, rng.randint(hi + 1, hi * 1000), -rng.randint(-lo + 1, hi * 1000)):
            if not lo <= v <= hi:
                out.append((v, ('mod', v % (1 << bits)) if modular(ctype, direction) else None))
        e = Boom('index')
        if b in ('int', 'long'): out.append((BadIndex(e), e))
    elif kind in ('f32', 'f64'):
        for o in ('1.0', None, [], object(), b'1', 2j, 1 << 2000):
            out.append((o, None))
        e = Boom('float'); out.append((BadFloat(e), e))
    elif kind == 'bool':
        e = Boom('bool'); out.append((BadBool(e), e))
        out.append((BoolType(), None))
    elif kind == 'char':
        for o in ('a', b'', b'ab', 5, None, []):
            out.append((o, None))
    elif kind == 'str':
        for o in (5, None, [], 1.5, ['a'], '\ud800', 'x\udfff'):
            out.append((o, None))
    elif kind == 'cstr':
        for o in (5, None, [], 1.5, b'bytes', '\ud800', 'a\0b', '\0', 'tail\0'):
            out.append((o, None))
    return out

def attempt(what, fn, callee, args, kw, expected, detail):
    drv.op({'k': what, 'f': fn['name'], 'args': repr(args)[:200], 'kw': repr(kw)[:100]})
    for p in fn['params']:
        if 'out' in p['dir']:
            b, how, kind = base_of(p['ctype'])
            m.c.push(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)))
    if fn['ret']:
        b, how, kind = base_of(fn['ret'])
        m.c.push(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)))
    exc = None
    try:
        r = callee(*args, **kw)
    except Exception as e:
        exc = e
    log = m.c.log(); m.c.qclear()
    drv.ev()
    desc = '%s(%s) with %r %r' % (fn['name'], ', '.join('%s:%s' % (p['ctype'], p['dir']) for p in fn['params']), args, kw)
    if isinstance(expected, tuple):
        if exc is None:
            if len([l for l in log if l.startswith('call ')]) != 1:
                drv.violation('modular-calls:' + detail, '%s: C++ log %r' % (desc, log))
            elif not any(l.split()[-1] == 'I%d' % expected[1] for l in log if l.startswith('in ')):
                drv.violation('modular-value:' + detail, '%s: C++ log %r, expected %d' % (desc, log, expected[1]))
            else:
                drv.count('reduced_modulo')
            return
        expected = None
    if exc is None:
        drv.violation('accepted-%s:%s' % (what, detail), '%s was accepted: C++ log %r, result %r' % (desc, log, r))
    elif log:
        drv.violation('rejected-after-call-%s:%s' % (what, detail), '%s raised %r but C++ saw %r' % (desc, exc, log))
    elif isinstance(expected, Exception):
        if exc is not expected:
            drv.violation('error-replaced-%s:%s' % (what, detail), '%s raised %r instead of %r' % (desc, exc, expected))
        else:
            drv.count('rejections')
    elif not isinstance(exc, NICE):
        drv.violation('odd-exception-%s:%s' % (what, detail), '%s raised %r' % (desc, exc))
    else:
        drv.count('rejections')

def good_args(params):
    return [sigs.value(rng, base_of(p['ctype'])[0], base_of(p['ctype'])[2]) for p in params if 'in' in p['dir']]

def check_fn(fn, callee, what):
    ins = [p for p in fn['params'] if 'in' in p['dir']]
    # one bad argument, in turn
    for i, p in enumerate(ins):
        detail = '%s:%s' % (p['ctype'], p['dir'])
        for o, expected in bad_values(p['ctype'], p['dir']):
            a = good_args(fn['params'])
            a[i] = o
            if rng.random() < .6:
                attempt(what, fn, callee, a, {}, expected, detail)
            else:
                attempt(what, fn, callee, a[:i], {q['name']: v for q, v in zip(ins[i:], a[i:])}, expected, detail)
        drv.distinct('%s bad value %s' % (what, detail))
    # counts and names
    for k in range(n):
        a = good_args(fn['params'])
        nreq = max([i + 1 for i, p in enumerate(ins) if not p.get('default')] + [0])
        attempt(what + '-too-many', fn, callee, a + [1] * rng.randint(1, 3), {}, None, 'arity')
        if nreq:
            attempt(what + '-too-few', fn, callee, a[:rng.randint(0, nreq - 1)], {}, None, 'arity')
            drop = rng.choice([i for i in range(nreq) if not ins[i].get('default')])
            attempt(what + '-missing-keyword', fn, callee, [], {p['name']: v for i, (p, v) in enumerate(zip(ins, a)) if i != drop}, None, 'arity')
        attempt(what + '-unknown-keyword', fn, callee, a, {'no_such_argument': 1}, None, 'keyword')
        if ins:
            i = rng.randrange(len(ins))
            attempt(what + '-duplicate', fn, callee, a[:i + 1], {p['name']: v for p, v in list(zip(ins, a))[i:]}, None, 'keyword')
        outs = [p for p in fn['params'] if p['dir'] == 'out']
        if outs:
            attempt(what + '-out-keyword', fn, callee, a, {outs[0]['name']: 1}, None, 'keyword')
    drv.distinct('%s arity %d/%d' % (what, len(ins), len(fn['params'])))

for fn in m.spec['functions']:
    check_fn(fn, getattr(m.mod, fn['name']), 'function')
byname = {c['name']: c for c in m.spec['classes']}
if 'K' in byname:
    o = m.mod.K(); m.c.log()
    for fn in byname['K']['methods']:
        check_fn(fn, getattr(o, fn['name']), 'method')
for cn in m.spec.get('ctor_classes', []):
    ps = byname[cn]['ctors'][0]['params']
    check_fn({'name': cn, 'ret': None, 'params': ps}, getattr(m.mod, cn), 'constructor')
    attempt('unbound', {'name': cn, 'params': [], 'ret': None}, getattr(m.mod, cn).__init__, [], {}, None, 'self')

# what a Python override gives back is checked the same way: it is reported, C++ gets a fallback, nothing else
if 'V' in byname:
    hooked = []
    sys.excepthook = lambda *a: hooked.append(a)
    rec = sigdrv.Recorder()
    V = byname['V']
    obj = sigdrv.make_subclass(m.mod.V, [f['name'] for f in V['virtuals']], rec)()
    m.c.log()
    def push_for(fn, tail=True):
        for p in fn['params']:
            b, how, kind = base_of(p['ctype'])
            if 'in' in p['dir']: m.c.push(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)))
        for p in fn['params']:
            b, how, kind = base_of(p['ctype'])
            if 'out' in p['dir']: m.c.push(sigs.enc_push(b, kind, sigs.value(rng, b, kind, for_c=True)))
        if fn['ret']:
            b, how, kind = base_of(fn['ret'])
            v = sigs.value(rng, b, kind, for_c=True)
            m.c.push(sigs.enc_push(b, kind, v))
            return sigs.enc(b, kind, v), kind
    def attempt_rev(fn, ret, expected, detail, exc=None):
        rec.calls, rec.ret, rec.exc = [], ret, exc
        hooked[:] = []
        want = push_for(fn)
        drv.op({'k': 'override', 'f': fn['name'], 'ret': repr(ret)[:200]})
        raised = None
        try:
            getattr(obj, 'drive_' + fn['name'])()
        except BaseException as e:
            raised = e
        log = sigdrv.parse_log(m.c.log()); m.c.qclear()
        drv.ev()
        desc = 'override of %s %s(%s) giving %r' % (fn['ret'], fn['name'], ', '.join('%s:%s' % (p['ctype'], p['dir']) for p in fn['params']), exc or ret)
        if isinstance(expected, tuple) and not hooked and raised is None:
            back = dict(log[-1][1]) if log else {}
            if 'I%d' % expected[1] not in back.values():
                drv.violation('override-modular:' + detail, '%s: C++ received %r' % (desc, log))
            else:
                drv.count('reduced_modulo')
            return
        if raised is not None:
            drv.violation('override-leaks-error:' + detail, '%s: the call into C++ raised %r' % (desc, raised))
        elif len(hooked) != 1:
            drv.violation('override-accepted:' + detail, '%s: %d errors were reported, C++ log %r' % (desc, len(hooked), log))
        elif (isinstance(expected, Exception) and hooked[0][1] is not expected) or (expected is None and not isinstance(hooked[0][1], NICE)):
            drv.violation('override-odd-error:' + detail, '%s: reported %r' % (desc, hooked[0][1]))
        elif [x[0] for x in log if x[0].startswith('back_')] != ['back_' + fn['name']]:
            drv.violation('override-calls:' + detail, '%s: C++ log %r' % (desc, log))
        elif want and [x[0] for x in log][:1] != ['cpp_' + fn['name']]:
            drv.violation('override-fallback:' + detail, '%s: C++ log %r' % (desc, log))
        elif want and not sigs.enc_eq(want[1], dict(log[-1][1])['return'], want[0]):
            drv.violation('override-fallback-value:' + detail, '%s: C++ log %r, base class gave %r' % (desc, log, want))
        else:
            drv.count('override_rejections')
    for fn in V['virtuals']:
        slots = ([(fn['ret'], 'return')] if fn['ret'] else []) + [(p['ctype'], p['dir']) for p in fn['params'] if 'out' in p['dir']]
        def good():
            return [sigs.value(rng, base_of(t)[0], base_of(t)[2]) for t, d in slots]
        def pack(g):
            return g[0] if len(g) == 1 else tuple(g)
        for i, (t, d) in enumerate(slots):
            for o, expected in bad_values(t, d):
                if isinstance(o, tuple) and len(slots) == 1:
                    pass
                g = good(); g[i] = o
                attempt_rev(fn, pack(g), expected, '%s:%s' % (t, d))
            drv.distinct('override bad value %s:%s' % (t, d))
        if not slots:
            for o in (1, 'x', False, (), [None]):
                attempt_rev(fn, o, None, 'void')
        elif len(slots) > 1:
            for k in range(n):
                g = good()
                attempt_rev(fn, tuple(g[:-1]), None, 'arity')
                attempt_rev(fn, tuple(g + [1]), None, 'arity')
                attempt_rev(fn, None, None, 'arity')
                attempt_rev(fn, 5, None, 'arity')
        e = Boom('override raised')
        attempt_rev(fn, None, e, 'raised', exc=e)
drv.sample({'functions': [[(p['ctype'], p['dir']) for p in f['params']] for f in m.spec['functions'][:3]]})
drv.done()
'''


def main():
    ck = Check('C02', 'distinct (call kind, parameter form) and arity classes whose rejection was observed')
    forms = sigs.all_param_forms()
    specs = []
    specs.append({'module': 'sf', 'functions': [{'name': 'f%d' % i, 'ret': None, 'params': [{'name': 'x', 'ctype': ct, 'dir': d}]} for i, (ct, d) in enumerate(forms)],
                  'classes': []})
    revs = [{'name': 'r%d' % i, 'ret': t, 'params': []} for i, t in enumerate(sigs.REV_RETURNS)]
    revs += [{'name': 'o%d' % i, 'ret': None, 'params': [{'name': 'x', 'ctype': ct, 'dir': d}]} for i, (ct, d) in enumerate(forms) if 'out' in d]
    revs += [{'name': 'nothing', 'ret': None, 'params': []}, {'name': 'nothing2', 'ret': None, 'params': [{'name': 'x', 'ctype': 'int', 'dir': 'in'}]}]
    specs.append({'module': 'sv', 'functions': [], 'classes': [{'name': 'V', 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}], 'virtuals': revs}]})
    nmod = 6 if not THOROUGH else 48
    for i in range(nmod):
        rng = random.Random('C02/%s/%d' % (SEED, i))
        informs = [(t, d) for t, d in forms if d == 'in']
        ctors = [{'name': 'Q%d' % j, 'ctors': [{'params': sigs.random_params(rng, rng.randint(1, 5), informs)}]} for j in range(5)]
        mf = [sigs.random_fn(rng, 'm%d' % j, minn=1) for j in range(14)]
        specs.append({'module': 'r%d' % i, 'functions': [sigs.random_fn(rng, 'f%d' % j, maxn=6, minn=1) for j in range(22)],
                      'classes': [{'name': 'V', 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}],
                                   'virtuals': [sigs.random_fn(rng, 'v%d' % j, rets=sigs.REV_RETURNS, defaults=False) for j in range(12)]},
                                  {'name': 'K', 'ctors': [{'params': []}], 'methods': mf}] + ctors, 'ctor_classes': [c['name'] for c in ctors]})

    def one(spec):
        d = os.path.join(scratch(), spec['module'])
        try:
            sigs.build_spec(spec, d)
        except Exception as e:
            return e
        return drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, spec['module'], str(2 if not THOROUGH else 8)], timeout=800)
    for spec, r in zip(specs, pmap(one, specs)):
        if isinstance(r, Exception):
            ck.build_failed(r, spec['module'][:1])
        else:
            ck.absorb(r, spec['module'])
    ck.require('rejections', 5000)
    ck.require('override_rejections', 1000)
    ck.finish()


main()
