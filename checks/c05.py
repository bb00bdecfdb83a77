"""C05: life cycle and ownership of wrapped instances under every memory policy: random histories against an ownership model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *
from vf import objs

DRIVER = r'''
import sys, random, gc, copy, json, os, ctypes, importlib
from vf import drv
sys.path.insert(0, sys.argv[1])
N, seed, nhist, nops, REG = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
policy, SUB = json.load(open(os.path.join(sys.argv[1], 'configs.json')))[N]
import objs as M
c = drv.CSide(M)
c.lib.vf_alive_list.restype = ctypes.c_char_p
T = getattr(M, N)
F = lambda n: getattr(M, N + '_' + n)
REFC = policy in ('refm', 'reff')
SMART = policy in ('boost', 'std')
SHARED = REFC or SMART
gc.disable()
class Fail(Exception): pass

class PySub0(object): pass
WITHIN = []
def within(call, o, f):
    """f() while an override of the instance runs"""
    r = []
    WITHIN.append(lambda: r.append(f()))
    if call(5) != 1005 + o.serial: raise Fail('virtual call')
    if WITHIN or not r: raise Fail('the override was not called')
    return r.pop()
if SUB:
    class PySub(T):
        def __init__(self, *a):
            super(PySub, self).__init__(*a)
            self.mark = self.getSerial()
        def hook(self, x):
            if WITHIN: WITHIN.pop()()
            return x + 1000 + self.mark
else: PySub = None

class O(object):
    """model of one C++ instance"""
    def __init__(self, serial, id, helper=False):
        self.serial, self.id, self.helper = serial, id, helper
        self.slots = set(); self.ext = 0; self.w = None     # w: None, 'owned', 'borrowed', 'void'
    def alive(self):
        return self.w == 'owned' or bool(self.slots)
    def usable(self): return self.ext > 0 and self.w in ('owned', 'borrowed')

class H(object):
    """one random history"""
    def __init__(self, rng):
        self.rng = rng
        self.objs = {}
        self.held = []          # [pyobj, O or None when the wrapper is void]
        self.slot = [None] * 4
        self.trace = []

    # ---- observation
    def alive(self): return set(int(x) for x in c.lib.vf_alive_list().split())
    def expected(self):
        must = set(s for s, o in self.objs.items() if o.alive() and not self.pending(o))
        may = must | set(s for s, o in self.objs.items() if o.alive())
        return must, may
    def pending(self, o):
        return o.helper and o.w == 'owned' and o.ext == 0 and not o.slots
    def check(self, what):
        a = self.alive(); must, may = self.expected()
        bad, msg = c.bad()
        if bad: raise Fail('lifetime: ' + msg)
        if must - a: raise Fail('destroyed too early: instances %s after %s' % (sorted(must - a), what))
        if a - may: raise Fail('never destroyed: instances %s after %s' % (sorted(a - may), what))
        drv.count('states_compared')
    def collect(self):
        gc.collect()
        for o in list(self.objs.values()):
            if self.pending(o): o.w = None; self.forget(o)
        self.check('gc.collect')
    def forget(self, o):
        if not o.alive() and o.ext == 0: self.objs.pop(o.serial, None)

    # ---- model moves
    def got(self, py, o, how=None):
        """Python received py, which must be a wrapper of instance o"""
        if py is None: raise Fail('None returned')
        for p, q in self.held:
            if q is o and p is not py and (REG == 'std' or o.helper): raise Fail('second wrapper for the same instance')
            if q is not o and q is not None and p is py: raise Fail('one wrapper for two instances')
        if py.getSerial() != o.serial: raise Fail('wrapper of instance %d instead of %d' % (py.getSerial(), o.serial))
        if py.getId() != o.id: raise Fail('instance state: id %d instead of %d' % (py.getId(), o.id))
        if o.helper and (type(py) is not PySub or py.mark != o.serial): raise Fail('lost its Python identity: %r' % (py,))
        if not o.helper and type(py) is not T: raise Fail('type %r' % (type(py),))
        if how and (o.w != 'owned'): o.w = how
        o.ext += 1
        self.held.append([py, o])
    def fresh(self, py, id, helper=False):
        """py must be the owning wrapper of a new instance"""
        if py is None: raise Fail('None returned')
        s = py.getSerial()
        if s in self.objs: raise Fail('wrapper of existing instance %d where a new one is due' % s)
        o = self.objs[s] = O(s, id, helper)
        o.w = 'owned'
        self.got(py, o)
        if REFC and py.getRc() != 1: raise Fail('reference count of a fresh instance is %d' % py.getRc())
        return o
    def release_ext(self, i):
        p, o = self.held.pop(i)
        del p
        if o is None: return
        o.ext -= 1
        if o.ext == 0 and not o.helper: o.w = None
        self.forget(o)
    def unslot(self, k):
        """the C++ side gives up what slot k holds (model part)"""
        o = self.slot[k]
        self.slot[k] = None
        if o is None: return
        o.slots.discard(k)
        if not o.alive():
            for e in self.held:
                if e[1] is o: e[1] = None
            o.ext = 0; o.w = None
        self.forget(o)
    def before_kill(self, k):
        """no borrowed wrapper may outlive its instance: the program under test drops them first"""
        o = self.slot[k]
        if o is not None and not SHARED and o.w == 'borrowed':
            for i in range(len(self.held) - 1, -1, -1):
                if self.held[i][1] is o:
                    del self.held[i]
                    o.ext -= 1
            if not o.helper: o.w = None
    def rc(self, o):
        if REG == 'null' and not o.helper: return len(set(id(p) for p, q in self.held if q is o)) + len(o.slots)
        return (1 if o.w in ('owned', 'borrowed') else 0) + len(o.slots)
    def pick(self, pred=lambda o: True):
        l = [e for e in self.held if e[1] is not None and e[1].usable() and pred(e[1])]
        return self.rng.choice(l) if l else (None, None)
    def full(self):
        l = [k for k in range(4) if self.slot[k] is not None]
        return self.rng.choice(l) if l else None

    # ---- operations; each returns what it did, or None when it does not apply
    def op_new(self):
        i = self.rng.randint(1, 99)
        self.fresh(T(i) if self.rng.random() < .8 else self.via_args(i), i); return 'T(%d)' % i
    def via_args(self, i): return T(i, False) if SUB or self.rng.random() < .5 else T(i, True, False, True)
    def op_newshared(self):
        """a constructor that gives access to an instance of the C++ side"""
        if SUB: return
        k = self.full()
        if k is None: return
        o = self.slot[k]
        if REG == 'std' and o.w is not None: return         # there is a wrapper already
        py = T('x', k)
        if o.w is None: o.w = 'owned' if SHARED else 'borrowed'
        self.got(py, o)
        return 'T(slot %d)' % k
    def op_newsub(self):
        if not SUB: return
        i = self.rng.randint(1, 99)
        self.fresh(PySub(i), i, True); return 'PySub(%d)' % i
    def op_newfail(self):
        for cls in [T] + ([PySub] if SUB else []):
            try: cls(5, True)
            except M.out_of_range: pass
            else: raise Fail('constructor did not raise')
            try: cls('nonsense')
            except TypeError: pass
            else: raise Fail('constructor did not raise')
        if SUB: gc.collect(); self.collect()
        return 'failing constructors'
    def op_drop(self):
        if not self.held: return
        i = self.rng.randrange(len(self.held)); self.release_ext(i); return 'del'
    def op_alias(self):
        p, o = self.pick()
        if o is None: return
        o.ext += 1; self.held.append([p, o]); return 'alias'
    def op_gc(self):
        if not SUB: return
        self.collect(); return 'gc'
    def op_copy(self):
        p, o = self.pick()
        if o is None or SMART: return
        self.fresh(copy.copy(p) if self.rng.random() < .5 else T(p), o.id); return 'copy of %d' % o.serial
    def op_call(self):
        p, o = self.pick()
        if o is None: return
        which = self.rng.choice(['val', 'rf', 'cref_in', 'ptr', 'cptr', 'nullok', 'kw', 'none', 'throwing', 'method', 'bad'])
        if which == 'val':
            if F('val')(p) == o.serial: raise Fail('by-value argument was not copied')
        elif which == 'rf':
            if F('rf')(p) != o.serial: raise Fail('wrong instance passed by reference')
            o.id += 1
        elif which in ('cref_in', 'ptr'):
            if F(which)(p) != o.serial: raise Fail('wrong instance passed by ' + which)
        elif which == 'cptr' and not SMART:
            if F('cptr')(p) != o.serial: raise Fail('wrong instance passed by const pointer')
        elif which == 'nullok':
            if F('nullok')(p) != o.serial: raise Fail('wrong instance passed by nullok')
        elif which == 'none':
            if F('nullok')(None) != -1 or F('nullok')() != -1: raise Fail('None is not NULL')
        elif which == 'kw':
            if F('ptr')(x=p) != o.serial: raise Fail('wrong instance passed by keyword')
        elif which == 'throwing':
            try: F('throwing')(p)
            except M.out_of_range: pass
            else: raise Fail('no exception')
        elif which == 'bad':
            for bad in (None, 5, 'x', object()):
                for f in ('val', 'rf', 'cref_in', 'ptr'):
                    try: F(f)(bad)
                    except TypeError: pass
                    else: raise Fail('%s accepted %r' % (f, bad))
        else:
            n = self.rng.randint(1, 99); p.setId(n); o.id = n
            if p.getId() != n: raise Fail('setId')
        if REFC and p.getRc() != self.rc(o): raise Fail('reference count %d, expected %d' % (p.getRc(), self.rc(o)))
        return '%s(%d)' % (which, o.serial)
    def op_keep(self):
        p, o = self.pick(lambda o: SHARED or o.w == 'owned')
        if o is None: return
        k = self.rng.randrange(4)
        if self.slot[k] is o and REFC is False and not SMART: return
        how = self.rng.choice(['keep', 'keep', 'keepchk', 'range', 'type'] + ([] if SMART else ['keepn', 'keepnone']))
        if how == 'keepnone':
            self.before_kill(k); self.unslot(k)
            F('keepn')(k, *self.rng.choice([(None,), ()]))
            return 'keepn(None, slot %d)' % k
        if how == 'range':
            try: F('keepchk')(p, 70000)
            except ValueError: pass
            else: raise Fail('no ValueError')
            return 'keepchk(%d, 70000)' % o.serial
        if how == 'type':
            try: F('keep')(p, 'slot')
            except TypeError: pass
            else: raise Fail('no TypeError')
            return 'keep(%d, "slot")' % o.serial
        self.before_kill(k)
        if self.slot[k] is not o: self.unslot(k); F('drop')(k)
        elif REFC: pass
        give = lambda: F(how)(*((k, p) if how == 'keepn' else (p, k)))
        inside = o.helper and self.rng.random() < .5
        if inside: within(p.callHook, o, give); drv.count('given_within')
        else: give()
        if self.slot[k] is o: return 'keep again'     # replaced its own reference
        self.slot[k] = o; o.slots.add(k)
        if not SHARED:
            o.w = 'void' if o.helper else None
            if o.helper: self.held = [e for e in self.held if e[1] is not o]    # C++ may give the same wrapper back
            for e in self.held:
                if e[1] is o: e[1] = None       # these references may only be dropped from now on
            self.zomb(o)
        return '%s(%d, slot %d)' % (how, o.serial, k)
    def zomb(self, o): o.ext = 0
    def op_release(self):
        k = self.full()
        if k is None: return
        o = self.slot[k]
        if o.helper and self.rng.random() < .5: py = within(lambda x: F('hookslot')(k, x), o, lambda: F('release')(k)); drv.count('got_within')
        else: py = F('release')(k)
        self.slot[k] = None; o.slots.discard(k)
        o.w = 'owned'
        self.got(py, o)
        if F('release')(k) is not None: raise Fail('NULL is not None')
        return 'release(slot %d) -> %d' % (k, o.serial)
    def shared_get(self, f, k, o):
        if o.helper and self.rng.random() < .5: py = within(lambda x: F('hookslot')(k, x), o, lambda: F(f)(k)); drv.count('got_within')
        else: py = F(f)(k)
        if o.w is None or o.w == 'void': o.w = 'owned' if SHARED else 'borrowed'
        self.got(py, o)
    def op_peek(self):
        k = self.full()
        if k is None: return
        o = self.slot[k]
        f = self.rng.choice(['peek', 'cpeek']) if not SMART else 'peek'
        if SHARED or o.helper or o.w == 'borrowed': self.shared_get(f, k, o)
        else: self.fresh(F(f)(k), o.id)
        return '%s(slot %d)' % (f, k)
    def op_borrow(self):
        k = self.full()
        if k is None or SMART: return
        o = self.slot[k]
        self.shared_get(self.rng.choice(['borrow', 'iref', 'cborrow', 'ciref']), k, o)
        return 'borrow(slot %d) -> %d' % (k, o.serial)
    def op_cref(self):
        k = self.full()
        if k is None or SMART: return
        self.fresh(F('cref')(k), self.slot[k].id); return 'cref(slot %d)' % k
    def op_cdrop(self):
        k = self.full()
        if k is None: return
        self.before_kill(k)
        F('drop')(k); self.unslot(k); return 'C++ drops slot %d' % k
    def op_fill(self):
        k = self.rng.randrange(4); i = self.rng.randint(1, 99)
        self.before_kill(k); self.unslot(k)
        F('fill')(k, i)
        s = F('use')(k)
        o = self.objs[s] = O(s, i); o.slots.add(k); self.slot[k] = o
        return 'C++ creates %d in slot %d' % (s, k)
    def op_use(self):
        k = self.full()
        if k is None: return
        if F('use')(k) != self.slot[k].serial: raise Fail('slot')
        if SUB and self.slot[k].helper and not SMART:
            o = self.slot[k]
            if F('hookslot')(k, 5) != 1005 + o.serial: raise Fail('virtual call on an instance held by C++ gives %r' % F('hookslot')(k, 5))
        return 'C++ uses slot %d' % k
    def op_make(self):
        i = self.rng.randint(1, 99)
        fs = ['make', 'outptr'] + ([] if SMART else ['makev', 'outp'])
        f = self.rng.choice(fs)
        if f == 'outptr':
            r = F('outptr')(i)
            if type(r) is not tuple or len(r) != 2 or r[1] != 2 * i: raise Fail('result %r' % (r,))
            self.fresh(r[0], i)
            r = F('outptr')(-i)
            if r != (None, -2 * i): raise Fail('NULL result with an out parameter gives %r instead of (None, %d)' % (r, -2 * i))
        else: self.fresh(F(f)(i), i)
        if F('make')(-1) is not None: raise Fail('NULL is not None')
        return '%s(%d)' % (f, i)
    def op_ident(self):
        p, o = self.pick()
        if o is None: return
        self.got(F('ident')(p), o); return 'ident(%d)' % o.serial
    def op_pass(self):
        p, o = self.pick(lambda o: SHARED or o.w == 'owned')
        if o is None or SMART: return
        if REFC or o.helper:
            self.got(F('pass')(p), o); return 'pass(%d)' % o.serial
        py = F('pass')(p)
        for e in self.held:
            if e[1] is o: e[1] = None
        o.ext = 0
        self.got(py, o); return 'pass(%d)' % o.serial

    # ---- C++ calls Python
    def visitor(self, beh):
        h = self
        class V(getattr(M, N + 'Visitor')):
            def note(self, x):
                self.seen = (x.getSerial(), x.getId())
                if beh == 'keep': self.kept = x
                if beh == 'raise': raise KeyError('deliberate')
                if beh == 'keepraise': self.kept = x; raise KeyError('deliberate')
            def onptr(self, x): self.note(x)
            def onown(self, x): self.note(x)
            def onval(self, x): self.note(x)
            def oncref(self, x): self.note(x)
            def onref(self, x):
                x.setId(x.getId() + 1); self.note(x)
            def give(self):
                if beh == 'raise': raise KeyError('deliberate')
                return self.ret
            giveval = give
        v = V(); v.seen = None; v.kept = None; v.ret = None
        return v
    def op_visit(self):
        if SMART: return
        rng = self.rng
        beh = rng.choice(['plain', 'keep', 'raise', 'keepraise'])
        f = rng.choice(['ptr', 'own', 'val', 'ref', 'refslot', 'cref', 'give', 'giveval'])
        if f == 'own' and 'raise' in beh: beh = 'keep'
        drv.op({'k': 'visit', 'N': N, 'f': f, 'beh': beh, 'trace': self.trace[-25:]})
        i = rng.randint(1, 99)
        k = self.full()
        if f in ('ptr', 'refslot'):
            if k is None: return
            o = self.slot[k]
        v = self.visitor(beh)
        if f == 'ptr':
            was = o.w
            v.do_ptr(k)
            same = SHARED or o.helper or was == 'borrowed'
            if v.seen is None or v.seen[1] != o.id or (v.seen[0] == o.serial) != same: raise Fail('onptr saw %r' % (v.seen,))
            if v.kept is not None:
                if same:
                    if o.w in (None, 'void'): o.w = 'owned' if SHARED else 'borrowed'
                    self.got(v.kept, o)
                else: self.fresh(v.kept, o.id)
            elif o.helper and not SHARED and o.w == 'void': o.w = 'borrowed'
        elif f == 'own':
            s = v.do_own(i)
            if v.seen != (s, i): raise Fail('onown saw %r' % (v.seen,))
            if v.kept is not None: self.fresh(v.kept, i)
        elif f in ('val', 'cref'):
            getattr(v, 'do_' + f)(i)
            if v.seen is None or v.seen[1] != i: raise Fail('on%s saw %r' % (f, v.seen))
            if v.kept is not None: self.fresh(v.kept, i)
        elif f == 'ref':
            r = v.do_ref(i)
            if r != i + 1: raise Fail('in/out reference: C++ sees id %d instead of %d' % (r, i + 1))
            if v.kept is not None: self.fresh(v.kept, i + 1)
        elif f == 'refslot':
            o.id += 1
            r = v.do_refslot(k)
            if r != o.id: raise Fail('in/out reference: C++ sees id %d instead of %d' % (r, o.id))
            if v.kept is not None: self.fresh(v.kept, o.id)
        elif f in ('give', 'giveval'):
            p, o = self.pick()
            if o is None: return
            v.ret = p if beh != 'keepraise' else rng.choice([None, 7, 'x'])
            want = o.id if beh in ('plain', 'keep') else 77 if f == 'give' else 78
            if f == 'giveval':
                r = v.do_giveval()
            else:
                k = rng.randrange(4)
                if REFC and self.slot[k] is o: k = (k + 1) % 4
                self.before_kill(k)
                if not o.usable() or self.slot[k] is o: v.ret = None; return 'nothing'
                self.unslot(k); F('drop')(k)
                r = v.do_give(k)
                s = F('use')(k)
                if REFC and want == o.id and beh in ('plain', 'keep'):
                    if s != o.serial: raise Fail('give: instance %d instead of %d' % (s, o.serial))
                    n = o
                else:
                    if s in self.objs: raise Fail('give: existing instance %d' % s)
                    n = self.objs[s] = O(s, want)
                n.slots.add(k); self.slot[k] = n
            if r != want: raise Fail('%s: id %d instead of %d' % (f, r, want))
        v.kept = None; v.ret = None
        p = None
        del v
        for n in ('last_type', 'last_value', 'last_traceback', 'last_exc'):     # PyErr_Print keeps the frames alive here
            if hasattr(sys, n): delattr(sys, n)
        # the visitor itself is a subclass instance: only the collector frees it
        gc.collect()
        for o in list(self.objs.values()):
            if self.pending(o): o.w = None; self.forget(o)
        drv.count('visits')
        return 'visit %s %s' % (f, beh)

    def run(self, nops):
        ops = [(getattr(self, n), n[3:]) for n in dir(self) if n.startswith('op_')]
        ops += [(self.op_keep, 'keep'), (self.op_release, 'release'), (self.op_borrow, 'borrow'), (self.op_newsub, 'newsub'), (self.op_drop, 'drop'), (self.op_call, 'call')]
        what = '?'
        try:
            for _ in range(nops):
                f, what = self.rng.choice(ops)
                drv.op({'k': what, 'N': N, 'trace': self.trace[-25:]})
                t = f()
                if t is None: continue
                self.trace.append(t)
                drv.ev(); drv.count('op_' + what)
                self.check(t)
                a = sorted((o.helper, str(o.w), len(o.slots), min(o.ext, 2)) for o in self.objs.values())
                drv.distinct([REG, N, what, a])
            what = 'end'
            while self.held: self.release_ext(len(self.held) - 1)
            self.check('dropping every reference')
            for k in range(4):
                F('drop')(k); self.unslot(k)
            self.collect()
            if self.alive(): raise Fail('never destroyed: %s at the end' % sorted(self.alive()))
            drv.count('histories')
            return True
        except Fail as e:
            drv.violation('%s:%s:%s' % (N, what, str(e).split(':')[0][:40]), '%s: %s\n   history: %s' % (N, e, '; '.join(self.trace[-30:])), self.trace)
            return False

import io
class Quiet(object):
    def write(self, s): pass
    def flush(self): pass
sys.stderr_, sys.stderr = sys.stderr, Quiet()
sys.unraisablehook = lambda *a: None
try:
    for h in range(nhist):
        if not H(random.Random('%s/%s/%s/%d' % (drv.SEED, N, seed, h))).run(nops): break   # the C++ state is no longer known
except BaseException:
    sys.stderr = sys.stderr_
    raise
drv.sample({'config': N, 'policy': policy, 'subclassing': SUB, 'counters': drv.counters})
drv.done()
'''


def main():
    ck = Check('C05', 'distinct (policy, operation, ownership state of all instances) combinations reached')
    regs = {}

    def mk(reg):
        d = os.path.join(scratch(), 'o' + reg)
        # without a registry several wrappers of one instance are normal, and only the counting policies say who owns it then
        cfg = objs.build(d, None if reg == 'std' else [n for n, (pol, sub) in objs.CONFIGS.items() if pol not in ('plain', 'free')], registry=reg)
        return reg, d, cfg
    try:
        for reg, d, cfg in pmap(mk, ['std', 'null']):
            regs[reg] = (d, cfg, write(os.path.join(d, 'driver_.py'), DRIVER))
    except Exception as e:
        ck.build_failed(e, 'objs')
        ck.finish()
    jobs = [(reg, n, s) for reg in regs for n in sorted(regs[reg][1]) for s in range(1 if not THOROUGH else 6)]

    def one(j):
        d, cfg, drvf = regs[j[0]]
        return drive(drvf, d, 'asan', [d, j[1], str(j[2]), str((60 if j[0] == 'std' else 30) if not THOROUGH else 300), str(60), j[0]], timeout=800)
    for j, r in zip(jobs, pmap(one, jobs)):
        ck.absorb(r, j[0] + ' ' + j[1])
    ck.require('histories', len(jobs) * 30)
    ck.require('states_compared', 10000)
    ck.require('visits', 300)
    ck.finish()


main()
