"""Executes calls against a module built from a sigs spec and compares both sides with the model."""
import gc, importlib, json, os, random, sys
from . import drv, sigs
from .sigs import base_of, value, enc, enc_push, enc_eq, py_expected, same, irange


class Mismatch(Exception):
    pass


class SigModule(object):
    def __init__(self, directory, name):
        sys.path.insert(0, directory)
        self.spec = json.load(open(os.path.join(directory, 'spec.json')))
        self.mod = importlib.import_module(name)
        self.c = drv.CSide(self.mod)
        self.c.log()


def parse_log(lines):
    """[(call name, [(arg, enc)...])]"""
    calls = []
    for l in lines:
        w = l.split(' ')
        if w[0] == 'call':
            calls.append((w[1], []))
        elif w[0] == 'in' and calls:
            calls[-1][1].append((w[1], w[2] if len(w) > 2 else ''))
        else:
            calls.append(('?' + l, []))
    return calls


class IntSub(int):
    pass


def disguise(rng, kind, v):
    """an equivalent Python object for the same C++ value"""
    if kind == 'int' and rng.random() < .15:
        return IntSub(v)
    if kind == 'int' and v in (0, 1) and rng.random() < .1:
        return bool(v)
    if kind in ('f64', 'f32') and v == v and abs(v) < 2 ** 53 and v == int(v) and rng.random() < .3 and not (v == 0 and str(v)[0] == '-'):
        return int(v)
    if kind == 'bool' and rng.random() < .4:
        return rng.choice([1, 7, 'x', [0], 3.5, object()]) if v else rng.choice([0, None, '', [], 0.0])
    return v


def make_args(rng, params, kw_prob=.35, use_defaults=True):
    """choose the arguments of one call. -> (args, kwargs, expected [(name, enc)], outs [(b, kind, v)])"""
    expect, outs = [], []
    ins = [p for p in params if 'in' in p['dir']]
    vals = []
    for p in params:
        b, how, kind = base_of(p['ctype'])
        if 'in' in p['dir']:
            v = value(rng, b, kind)
            p_default = p.get('default')
            vals.append((p, b, kind, v))
        if 'out' in p['dir']:
            outs.append((p['name'], b, kind, value(rng, b, kind, for_c=True)))
    args, kwargs = [], {}
    npos = len(vals)
    if rng.random() < kw_prob:
        npos = rng.randint(0, len(vals))
    used = {}
    rest = []
    first_opt = None
    for i, (p, b, kind, v) in enumerate(vals):
        rest.append((i, p, b, kind, v))
    # positional part (may stop early at a trailing run of optional parameters)
    nreq = 0
    for i, (p, b, kind, v) in enumerate(vals):
        if not p.get('default'):
            nreq = i + 1
    stop = len(vals)
    if use_defaults and nreq < len(vals) and rng.random() < .5:
        stop = rng.randint(nreq, len(vals))
    kwitems = []
    for i, p, b, kind, v in rest:
        pyv = disguise(rng, kind, v)
        if i < npos and i < stop:
            args.append(pyv)
            e = v
        elif i < stop:
            if p.get('default') and use_defaults and rng.random() < .5:
                e = p['default'][0]
            else:
                kwitems.append((p['name'], pyv))
                e = v
        else:
            # omitted from the tail, unless given by keyword
            if rng.random() < .3:
                kwitems.append((p['name'], pyv))
                e = v
            else:
                e = p['default'][0]
        expect.append((p['name'], kind, enc(b, kind, e)))
    rng.shuffle(kwitems)
    kwargs = dict(kwitems)
    return args, kwargs, expect, outs


def expected_result(ret, retv, outs):
    items = []
    if ret and ret != 'void':
        b, how, kind = base_of(ret)
        items.append((kind, py_expected(kind, retv)))
    for n, b, kind, v in outs:
        items.append((kind, py_expected(kind, v)))
    return items


def check_result(got, items):
    """None if got is what a call must return for these C++ values, else (kind of mismatch, text)"""
    if not items:
        return None if got is None else ('shape', 'expected None, got %r' % (got,))
    if len(items) == 1:
        if isinstance(got, tuple):
            return 'shape', 'one value expected bare, got the tuple %r' % (got,)
        if not same(items[0][0], got, items[0][1]):
            return 'value', 'expected %r, got %r' % (items[0][1], got)
        return None
    if type(got) is not tuple or len(got) != len(items):
        return 'shape', 'expected a tuple of %d values %r, got %r' % (len(items), [i[1] for i in items], got)
    bad = [i for i in range(len(items)) if not same(items[i][0], got[i], items[i][1])]
    if bad:
        want = [i[1] for i in items]
        if sorted(map(repr, want)) == sorted(map(repr, got)):
            return 'order', 'expected %r, got %r' % (tuple(want), got)
        return 'value', 'expected %r, got %r (items %s)' % (tuple(want), got, bad)
    return None


def call_forward(m, rng, fn, callee, cname=None, kw_prob=.35, use_defaults=True):
    """one call Python -> C++; -> None or (kind, text)"""
    cname = cname or fn['name']
    args, kwargs, expect, outs = make_args(rng, fn['params'], kw_prob, use_defaults)
    ret = fn.get('ret')
    retv = None
    for n, b, kind, v in outs:
        m.c.push(enc_push(b, kind, v))
    if ret and ret != 'void':
        b, how, kind = base_of(ret)
        retv = value(rng, b, kind, for_c=True)
        if kind == 'cstr' and '\0' in retv:
            retv = retv.replace('\0', '')
        m.c.push(enc_push(b, kind, retv))
    drv.op({'k': 'call', 'f': fn['name'], 'sig': [(p['ctype'], p['dir']) for p in fn['params']], 'ret': ret, 'args': repr(args), 'kw': repr(kwargs)})
    desc = '%s(%s) -> %s called with %r %r' % (fn['name'], ', '.join('%s %s:%s' % (p['ctype'], p['name'], p['dir']) for p in fn['params']), ret, args, kwargs)
    exc = None
    try:
        got = callee(*args, **kwargs)
    except Exception as e:
        exc = e
    log = parse_log(m.c.log())
    m.c.qclear()
    drv.ev()
    drv.count('forward_calls')
    if exc is not None:
        return 'raised', '%s raised %r' % (desc, exc)
    if [c[0] for c in log] != [cname]:
        return 'calls', '%s made the C++ calls %r' % (desc, log)
    seen = log[0][1]
    if [n for n, _ in seen] != [n for n, _, _ in expect]:
        return 'calls', '%s: C++ saw %r' % (desc, seen)
    for (n, e), (_, kind, want) in zip(seen, expect):
        if not enc_eq(kind, e, want):
            return 'argument', '%s: argument %s arrived as %s, expected %s' % (desc, n, e, want)
        drv.count('values_to_cpp')
    items = expected_result(ret, retv, outs)
    bad = check_result(got, items)
    drv.count('values_to_python', len(items))
    if bad:
        return bad[0], '%s: %s' % (desc, bad[1])
    return None


class Recorder(object):
    """what a Python override was called with, and what it is to return"""
    def __init__(self):
        self.calls = []
        self.ret = None
        self.exc = None


def make_subclass(cls, methods, rec, name='Sub'):
    def mk(n):
        def override(self, *args):
            rec.calls.append((n, args))
            if rec.exc is not None:
                raise rec.exc
            return rec.ret
        return override
    return type(name, (cls,), {n: mk(n) for n in methods})


def call_reverse(m, rng, fn, obj, rec):
    """one virtual call C++ -> Python override"""
    ins, outs = [], []
    for p in fn['params']:
        b, how, kind = base_of(p['ctype'])
        if 'in' in p['dir'] :
            v = value(rng, b, kind, for_c=True)
            m.c.push(enc_push(b, kind, v))
            ins.append((p['name'], kind, py_expected(kind, v)))
        if 'out' in p['dir']:
            outs.append((p['name'], b, kind, value(rng, b, kind)))
    ret = fn.get('ret')
    expect = []
    pyret = []
    if ret and ret != 'void':
        b, how, kind = base_of(ret)
        rv = value(rng, b, kind)
        expect.append(('return', kind, enc(b, kind, rv)))
        pyret.append(disguise(rng, kind, rv))
    for n, b, kind, v in outs:
        expect.append((n, kind, enc(b, kind, v)))
        pyret.append(disguise(rng, kind, v))
    rec.calls = []
    rec.exc = None
    rec.ret = None if not pyret else pyret[0] if len(pyret) == 1 else tuple(pyret)
    drv.op({'k': 'virtual', 'f': fn['name'], 'sig': [(p['ctype'], p['dir']) for p in fn['params']], 'ret': ret, 'pyret': repr(rec.ret)})
    desc = 'virtual %s %s(%s) with %r, override returning %r' % (ret, fn['name'], ', '.join('%s %s:%s' % (p['ctype'], p['name'], p['dir']) for p in fn['params']), [i[2] for i in ins], rec.ret)
    exc = None
    try:
        getattr(obj, 'drive_' + fn['name'])()
    except Exception as e:
        exc = e
    log = parse_log(m.c.log())
    m.c.qclear()
    drv.ev()
    drv.count('virtual_calls')
    if exc is not None:
        return 'raised', '%s raised %r' % (desc, exc)
    if [c[0] for c in rec.calls] != [fn['name']]:
        return 'dispatch', '%s: the override saw the calls %r' % (desc, rec.calls)
    got = rec.calls[0][1]
    if len(got) != len(ins):
        return 'shape', '%s: override got %r' % (desc, got)
    for (n, kind, want), g in zip(ins, got):
        if not same(kind, g, want):
            return 'argument', '%s: override got %r for %s, expected %r' % (desc, g, n, want)
        drv.count('values_to_python')
    if [c[0] for c in log] != ['back_' + fn['name']]:
        return 'calls', '%s: C++ log %r' % (desc, log)
    seen = log[0][1]
    if [n for n, _ in seen] != [n for n, _, _ in expect]:
        return 'calls', '%s: C++ log %r' % (desc, log)
    for (n, e), (_, kind, want) in zip(seen, expect):
        if not enc_eq(kind, e, want):
            return 'result', '%s: C++ received %s = %s, expected %s' % (desc, n, e, want)
        drv.count('values_to_cpp')
    return None
