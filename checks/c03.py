"""C03: random signatures: result shape and order, parameter order, keywords, optional parameters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import sigs, objsig, handmod
import json

DRIVER = r'''
import sys, random
from vf import drv, sigdrv
n = int(sys.argv[3])
m = sigdrv.SigModule(sys.argv[1], sys.argv[2])
rng = random.Random('%s/%s' % (drv.SEED, sys.argv[2]))
def sig(fn):
    return '%s(%s)' % (fn['ret'], ', '.join(p['dir'] + ' ' + p['ctype'] + (' = ' + p['default'][1] if p.get('default') else '') for p in fn['params']))
def shape(fn):   # mechanism: what kind of signature, not which one
    k = []
    if fn['ret']: k.append('ret')
    o = sum('out' in p['dir'] for p in fn['params'])
    k.append('%dout' % min(o, 2))
    if any(p.get('default') for p in fn['params']): k.append('defaults')
    return '+'.join(k)
def run(fns, get, what, cname=None):
    for fn in fns:
        for k in range(n):
            b = sigdrv.call_forward(m, rng, fn, get(fn), cname and cname(fn), kw_prob=.5)
            if b:
                drv.violation('%s-%s:%s' % (what, b[0], shape(fn)), '%s: %s' % (sig(fn), b[1]))
            else:
                drv.count(what + '_ok')
        drv.distinct(what + sig(fn))
        drv.sample({what: sig(fn)})
run(m.spec['functions'], lambda f: getattr(m.mod, f['name']), 'function')
V, K = m.spec['classes'][:2]
o = m.mod.K()
m.c.log()
run([f for f in K['methods']], lambda f: getattr(o, f['name']), 'method')
run([f for f in K['methods'] if f.get('static')], lambda f: getattr(m.mod.K, f['name']), 'static')
rec = sigdrv.Recorder()
o = sigdrv.make_subclass(m.mod.V, [f['name'] for f in V['virtuals']], rec)()
m.c.log()
for fn in V['virtuals']:
    for k in range(n):
        b = sigdrv.call_reverse(m, rng, fn, o, rec)
        if b:
            drv.violation('virtual-%s:%s' % (b[0], shape(fn)), '%s: %s' % (sig(fn), b[1]))
        else:
            drv.count('virtual_ok')
    drv.distinct('virtual' + sig(fn))
# constructors: one class per random constructor
for cn in m.spec['ctor_classes']:
    c = [x for x in m.spec['classes2'] if x['name'] == cn][0]
    fn = {'name': cn, 'ret': None, 'params': c['ctors'][0]['params']}
    cls = getattr(m.mod, cn)
    def make(*a, **k):
        r = cls(*a, **k)
        if type(r) is not cls:
            drv.violation('ctor-type', 'constructor returned %r' % (r,))
        return None
    for k in range(n):
        b = sigdrv.call_forward(m, rng, fn, make, '%s::ctor0' % cn, kw_prob=.5)
        if b:
            drv.violation('ctor-%s:%s' % (b[0], shape(fn)), '%s: %s' % (sig(fn), b[1]))
        else:
            drv.count('ctor_ok')
    drv.distinct('ctor' + sig(fn))
drv.done()
'''


def make_spec(name, rng, big):
    fns = [sigs.random_fn(rng, 'f%d' % i, maxn=6) for i in range(40)]
    vf = [sigs.random_fn(rng, 'v%d' % i, rets=sigs.REV_RETURNS, defaults=False) for i in range(14)]
    mf = [sigs.random_fn(rng, 'm%d' % i) for i in range(22)]
    for m in mf:
        m['static'] = rng.random() < .3
        m['const'] = (not m['static']) and rng.random() < .3
    informs = [(t, d) for t, d in sigs.all_param_forms() if d == 'in']
    ctors = [{'name': 'Q%d' % i, 'ctors': [{'params': sigs.random_params(rng, rng.randint(0, 5), informs)}]} for i in range(8)]
    cl = [{'name': 'V', 'opts': {'allow_subclassing': True}, 'ctors': [{'params': []}], 'virtuals': vf},
          {'name': 'K', 'ctors': [{'params': []}], 'methods': mf}] + ctors
    return {'module': name, 'functions': fns, 'classes': cl, 'ctor_classes': [c['name'] for c in ctors], 'classes2': ctors}


def main():
    ck = Check('C03', 'distinct random signatures (types, directions, defaults, return type) whose calls were compared on both sides')
    nmod = 8 if not THOROUGH else 64
    n = 25 if not THOROUGH else 120
    specs = [make_spec('m%d' % i, random.Random('C03/%s/%d' % (SEED, i)), THOROUGH) for i in range(nmod)]

    def one(spec):
        d = os.path.join(scratch(), spec['module'])
        try:
            sigs.build_spec(spec, d)
        except Exception as e:
            return e
        r = drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, spec['module'], str(n)], timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return r
    def objects(j):
        rng = random.Random('C03o/%s/%d' % (SEED, j))
        fns = objsig.make(rng, 60)
        d = os.path.join(scratch(), 'o%d' % j)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(fns))
        try:
            handmod.build(d, 'o%d' % j, objsig.header(fns), objsig.gen(fns, j % 2))
        except Exception as e:
            return e
        r = drive(write(os.path.join(d, 'driver_.py'), objsig.DRIVER), d, 'asan', [d, str(n)], timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return r
    nobj = 2 if not THOROUGH else 24
    for j, r in enumerate(pmap(objects, range(nobj))):
        if isinstance(r, Exception):
            ck.build_failed(r, 'objects')
        else:
            ck.absorb(r, 'o%d' % j)
    ck.require('object_calls', nobj * 60 * n * .8)
    ck.require('object_defaults', nobj * 60 * n * .2)
    for spec, r in zip(specs, pmap(one, specs)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'random')
        else:
            ck.absorb(r, spec['module'])
    for w, k in (('function', 20), ('method', 10), ('virtual', 7), ('ctor', 4), ('static', 1)):
        ck.require(w + '_ok', nmod * n * k)
    ck.finish()


main()
