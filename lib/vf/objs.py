"""Families of wrapped classes, one per ownership policy, with the functions that move instances between
Python and C++ in every supported way.  Used by the checks on life cycle, identity and collection."""
from . import core
import json, os

# name -> (policy, allow_subclassing, peekref known)
CONFIGS = {
    'PN': ('plain', False), 'PS': ('plain', True),
    'MN': ('refm', False), 'MS': ('refm', True),
    'FN': ('reff', False), 'FS': ('reff', True),
    'XN': ('free', False),
    'BN': ('boost', False), 'SN': ('std', False),
}

HEAD = r'''
#ifndef SPEC_H
#define SPEC_H
#include "vflog.h"
#include <memory>
#include <stdexcept>
%(boost)s
// every instance has a serial number; the alive set is what the lifetime model is compared with
inline std::map<int, std::string> &alive_map() { static std::map<int, std::string> m; return m; }
inline int next_serial() { static int n = 0; return ++n; }
extern "C" __attribute__((visibility("default"))) const char *vf_alive_list();
struct Tracked {
    vf::Track track; int serial;
    Tracked(const char *tag) : track(tag), serial(next_serial()) { alive_map()[serial] = tag; }
    Tracked(const Tracked &o) : track(o.track), serial(next_serial()) { alive_map()[serial] = o.track.tag; }
    Tracked &operator=(const Tracked &) { return *this; }
    virtual ~Tracked() { alive_map().erase(serial); }
};
'''
IMPL = r'''
const char *vf_alive_list() { static std::string s; s.clear(); char b[32];
  for (auto &p : alive_map()) { snprintf(b, sizeof b, "%d ", p.first); s += b; } return s.c_str(); }
'''

CLASS = r'''
class %(N)s : public Tracked {
public:
    int id; mutable int rc;
    %(N)s() : Tracked("%(N)s"), id(0), rc(1) {}
    explicit %(N)s(int i) : Tracked("%(N)s"), id(i), rc(1) {}
    %(N)s(int i, bool fail) : Tracked("%(N)s"), id(i), rc(1) { if (fail) throw std::out_of_range("ctor"); }
    %(N)s(const %(N)s &o) : Tracked(o), id(o.id), rc(1) {}
    virtual ~%(N)s() {}
    void Ref() const { track.use(); rc++; }
    void Unref() const { track.use(); if (--rc == 0) delete this; }
    int GetRefs() const { track.use(); return rc; }
    int getId() const { track.use(); return id; }
    void setId(int i) { track.use(); id = i; }
    int getSerial() const { track.use(); return serial; }
    int getRc() const { track.use(); return rc; }
    virtual int hook(int x) { track.use(); return x + id; }
    int callHook(int x) { track.use(); return hook(x); }
};
inline void %(N)s_ref(const %(N)s *p) { p->Ref(); }
inline void %(N)s_unref(const %(N)s *p) { p->Unref(); }
inline int %(N)s_getrefs(const %(N)s *p) { return p->GetRefs(); }
inline void %(N)s_free(%(N)s *p) { if (p) { p->track.use(); delete p; } }
'''

RAW = r'''
// the C++ side's own store: it owns what is in it
inline %(N)s *&%(N)s_slot(int i) { static %(N)s *s[4]; return s[i]; }
inline void %(N)s_kill(%(N)s *p) { if (p) { %(kill)s } }
inline void %(N)s_keep(%(N)s *x, int slot) { %(N)s_kill(%(N)s_slot(slot)); %(N)s_slot(slot) = x; }
inline void %(N)s_keepchk(%(N)s *x, unsigned short slot) { %(N)s_kill(%(N)s_slot(slot)); %(N)s_slot(slot) = x; }
inline void %(N)s_keepn(int slot, %(N)s *x = 0) { %(N)s_kill(%(N)s_slot(slot)); %(N)s_slot(slot) = x; }
inline %(N)s *%(N)s_release(int slot) { %(N)s *p = %(N)s_slot(slot); %(N)s_slot(slot) = 0; return p; }
inline %(N)s *%(N)s_peek(int slot) { return %(N)s_slot(slot); }
inline const %(N)s *%(N)s_cpeek(int slot) { return %(N)s_slot(slot); }
inline %(N)s *%(N)s_borrow(int slot) { return %(N)s_slot(slot); }
inline const %(N)s *%(N)s_cborrow(int slot) { return %(N)s_slot(slot); }
inline const %(N)s &%(N)s_ciref(int slot) { return *%(N)s_slot(slot); }
inline void %(N)s_drop(int slot) { %(N)s_kill(%(N)s_slot(slot)); %(N)s_slot(slot) = 0; }
inline int %(N)s_use(int slot) { return %(N)s_slot(slot) ? %(N)s_slot(slot)->getSerial() : 0; }
inline int %(N)s_hookslot(int slot, int x) { return %(N)s_slot(slot)->callHook(x); }
inline void %(N)s_fill(int slot, int id) { %(N)s_drop(slot); %(N)s_slot(slot) = new %(N)s(id); }
inline %(N)s *%(N)s_make(int id) { return id < 0 ? 0 : new %(N)s(id); }
inline %(N)s %(N)s_makev(int id) { return %(N)s(id); }
inline const %(N)s &%(N)s_cref(int slot) { return *%(N)s_slot(slot); }
inline %(N)s &%(N)s_iref(int slot) { return *%(N)s_slot(slot); }
inline %(N)s *%(N)s_create(int id, bool, bool, bool) { return new %(N)s(id); }
inline %(N)s *%(N)s_shared(const std::string &, int slot) { return %(N)s_slot(slot); }
inline void %(N)s_outp(%(N)s &out, int id) { out.setId(id); }
inline int %(N)s_val(%(N)s x) { return x.getSerial(); }
inline int %(N)s_rf(%(N)s &x) { x.setId(x.id + 1); return x.getSerial(); }
inline int %(N)s_cref_in(const %(N)s &x) { return x.getSerial(); }
inline int %(N)s_ptr(%(N)s *x) { return x->getSerial(); }
inline int %(N)s_cptr(const %(N)s *x) { return x->getSerial(); }
inline int %(N)s_nullok(%(N)s *x = 0) { return x ? x->getSerial() : -1; }
inline %(N)s *%(N)s_pass(%(N)s *x) { return x; }
inline %(N)s *%(N)s_ident(%(N)s *x) { return x; }
inline %(N)s *%(N)s_outptr(int id, int *n) { *n = id * 2; return id < 0 ? 0 : new %(N)s(id); }
inline void %(N)s_throwing(%(N)s *x) { (void) x->getSerial(); throw std::out_of_range("thrown"); }
// C++ calls into Python with instances
class %(N)sVisitor {
public:
    virtual ~%(N)sVisitor() {}
    virtual void onptr(%(N)s *x) { (void) x; }
    virtual void onown(%(N)s *x) { %(N)s_kill(x); }
    virtual void onval(%(N)s x) { x.getSerial(); }
    virtual void onref(%(N)s &x) { x.getSerial(); }
    virtual void oncref(const %(N)s &x) { x.getSerial(); }
    virtual %(N)s *give() { return new %(N)s(77); }
    virtual %(N)s giveval() { return %(N)s(78); }
    int do_ptr(int slot) { onptr(%(N)s_slot(slot)); return %(N)s_slot(slot)->getSerial(); }
    int do_own(int id) { %(N)s *p = new %(N)s(id); int s = p->getSerial(); onown(p); return s; }
    int do_val(int id) { %(N)s v(id); int s = v.getSerial(); onval(v); return s; }
    int do_ref(int id) { %(N)s v(id); onref(v); v.track.use(); return v.getId(); }
    int do_refslot(int slot) { onref(*%(N)s_slot(slot)); return %(N)s_slot(slot)->getId(); }
    int do_cref(int id) { const %(N)s v(id); oncref(v); return v.getId(); }
    int do_give(int slot) { %(N)s *p = give(); int s = p ? p->getId() : -1; %(N)s_kill(%(N)s_slot(slot)); %(N)s_slot(slot) = p; return s; }
    int do_giveval() { %(N)s v = giveval(); return v.getId(); }
};
'''

SMART = r'''
typedef %(ns)s::shared_ptr<%(N)s> %(N)s_p;
inline %(N)s_p &%(N)s_slot(int i) { static %(N)s_p s[4]; return s[i]; }
inline void %(N)s_keep(%(N)s_p x, int slot) { %(N)s_slot(slot) = x; }
inline void %(N)s_keepchk(%(N)s_p x, unsigned short slot) { %(N)s_slot(slot) = x; }
inline %(N)s_p %(N)s_release(int slot) { %(N)s_p p = %(N)s_slot(slot); %(N)s_slot(slot).reset(); return p; }
inline %(N)s_p %(N)s_peek(int slot) { return %(N)s_slot(slot); }
inline void %(N)s_drop(int slot) { %(N)s_slot(slot).reset(); }
inline int %(N)s_use(int slot) { return %(N)s_slot(slot) ? %(N)s_slot(slot)->getSerial() : 0; }
inline void %(N)s_fill(int slot, int id) { %(N)s_slot(slot).reset(new %(N)s(id)); }
inline %(N)s_p %(N)s_create(int id, bool, bool, bool) { return %(N)s_p(new %(N)s(id)); }
inline %(N)s_p %(N)s_shared(const std::string &, int slot) { return %(N)s_slot(slot); }
inline %(N)s_p %(N)s_make(int id) { return id < 0 ? %(N)s_p() : %(N)s_p(new %(N)s(id)); }
inline int %(N)s_val(%(N)s x) { return x.getSerial(); }
inline int %(N)s_rf(%(N)s &x) { x.setId(x.id + 1); return x.getSerial(); }
inline int %(N)s_cref_in(const %(N)s &x) { return x.getSerial(); }
inline int %(N)s_ptr(%(N)s_p x) { return x->getSerial(); }
inline int %(N)s_nullok(%(N)s_p x) { return x ? x->getSerial() : -1; }
inline %(N)s_p %(N)s_ident(%(N)s_p x) { return x; }
inline %(N)s_p %(N)s_outptr(int id, int *n) { *n = id * 2; return %(N)s_make(id); }
inline void %(N)s_throwing(%(N)s_p x) { (void) x->getSerial(); throw std::out_of_range("thrown"); }
'''

GEN = r'''
import json, sys, os
outdir = sys.argv[1]
CONFIGS = json.load(open(os.path.join(outdir, 'configs.json')))
from pybindgen import Module, param, retval, ReturnValue, FileCodeSink, Parameter, cppclass
from pybindgen.typehandlers.smart_ptr import BoostSharedPtr, StdSharedPtr
from pybindgen import settings
from pybindgen.wrapper_registry import NullWrapperRegistry, StdMapWrapperRegistry
settings.wrapper_registry = {'std': StdMapWrapperRegistry, 'null': NullWrapperRegistry}[os.environ.get('VF_REG', 'std')]
mod = Module('objs')
mod.add_include('"spec.h"')
exc = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()')
IN, OUT, INOUT = Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT
for N, (policy, sub) in sorted(CONFIGS.items()):
    pol = {'plain': lambda: None, 'refm': lambda: cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref', 'GetRefs'),
           'reff': lambda: cppclass.ReferenceCountingFunctionsPolicy(N + '_ref', N + '_unref', N + '_getrefs'),
           'free': lambda: cppclass.FreeFunctionPolicy(N + '_free'),
           'boost': lambda: BoostSharedPtr('::' + N), 'std': lambda: StdSharedPtr('::' + N)}[policy]()
    c = mod.add_class(N, memory_policy=pol, allow_subclassing=sub)
    smart = policy in ('boost', 'std')
    c.add_constructor([])
    c.add_constructor([param('int', 'id')])
    c.add_constructor([param('int', 'id'), param('bool', 'fail')], throw=[exc])
    P = {'boost': 'boost::shared_ptr< %s >', 'std': 'std::shared_ptr< %s >'}.get(policy, '%s*') % N
    if not sub:
        # functions that construct: one makes an instance, the other one gives access to one that C++ keeps
        ps = [param('int', 'id')] + [param('bool', n) for n in 'bcd']
        c.add_function_as_constructor(N + '_create', ReturnValue.new(P, **({} if smart else {'caller_owns_return': True})), ps)
        c.add_function_as_constructor(N + '_shared', ReturnValue.new(P, **({} if smart else {'caller_owns_return': False})), [param('std::string', 'tag'), param('int', 'slot')])
    if not smart:
        c.add_copy_constructor()
    for m in ('getId', 'getSerial', 'getRc'):
        c.add_method(m, retval('int'), [], is_const=True)
    c.add_method('setId', None, [param('int', 'i')])
    if sub:
        c.add_method('hook', retval('int'), [param('int', 'x')], is_virtual=True)
        c.add_method('callHook', retval('int'), [param('int', 'x')])
    F = lambda name, ret, ps, **kw: mod.add_function(N + '_' + name, ret, ps, **kw)
    i = lambda n: param('int', n)
    F('drop', None, [i('slot')]); F('use', retval('int'), [i('slot')]); F('fill', None, [i('slot'), i('id')])
    F('val', retval('int'), [param(N, 'x')])
    F('rf', retval('int'), [param(N + '&', 'x', direction=INOUT)])
    F('cref_in', retval('int'), [param(N + ' const &', 'x')])
    if smart:
        P = {'boost': 'boost::shared_ptr< %s >', 'std': 'std::shared_ptr< %s >'}[policy] % N
        F('keep', None, [param(P, 'x'), i('slot')]); F('keepchk', None, [param(P, 'x'), param('unsigned short', 'slot')])
        for n in ('release', 'peek', 'make'):
            F(n, retval(P), [i('slot')])
        F('ptr', retval('int'), [param(P, 'x')])
        F('nullok', retval('int'), [param(P, 'x', null_ok=True, default_value='0')])
        F('ident', retval(P), [param(P, 'x')])
        F('outptr', retval(P), [i('id'), param('int*', 'n', direction=OUT)])
        F('throwing', None, [param(P, 'x')], throw=[exc])
        continue
    if sub:
        F('hookslot', retval('int'), [i('slot'), i('x')])
    P = N + '*'
    F('keep', None, [param(P, 'x', transfer_ownership=True), i('slot')])
    F('keepchk', None, [param(P, 'x', transfer_ownership=True), param('unsigned short', 'slot')])
    F('keepn', None, [i('slot'), param(P, 'x', transfer_ownership=True, null_ok=True, default_value='NULL')])
    F('release', retval(P, caller_owns_return=True), [i('slot')])
    F('peek', retval(P, caller_owns_return=False), [i('slot')])
    F('cpeek', retval('const ' + P), [i('slot')])
    F('borrow', retval(P, reference_existing_object=True), [i('slot')])
    F('make', retval(P, caller_owns_return=True), [i('id')])
    F('makev', retval(N), [i('id')])
    F('cref', retval('const %s &' % N), [i('slot')])
    F('cborrow', retval('const ' + P, reference_existing_object=True), [i('slot')])
    F('ciref', retval('const ' + N + ' &', reference_existing_object=True), [i('slot')])
    F('iref', retval(N + ' &', reference_existing_object=True), [i('slot')])
    F('outp', None, [param(N + '&', 'out', direction=OUT), i('id')])
    F('ptr', retval('int'), [param(P, 'x', transfer_ownership=False)])
    F('cptr', retval('int'), [param('const ' + P, 'x')])
    F('nullok', retval('int'), [param(P, 'x', transfer_ownership=False, null_ok=True, default_value='NULL')])
    F('pass', retval(P, caller_owns_return=True), [param(P, 'x', transfer_ownership=True)])
    F('ident', retval(P, reference_existing_object=True), [param(P, 'x', transfer_ownership=False)])
    F('outptr', retval(P, caller_owns_return=True), [i('id'), param('int*', 'n', direction=OUT)])
    F('throwing', None, [param(P, 'x', transfer_ownership=False)], throw=[exc])
    v = mod.add_class(N + 'Visitor', allow_subclassing=True)
    v.add_constructor([])
    v.add_method('onptr', None, [param(P, 'x', transfer_ownership=False)], is_virtual=True)
    v.add_method('onown', None, [param(P, 'x', transfer_ownership=True)], is_virtual=True)
    v.add_method('onval', None, [param(N, 'x')], is_virtual=True)
    v.add_method('onref', None, [param(N + '&', 'x', direction=INOUT)], is_virtual=True)
    v.add_method('oncref', None, [param('const %s &' % N, 'x')], is_virtual=True)
    v.add_method('give', retval(P, caller_owns_return=True), [], is_virtual=True)
    v.add_method('giveval', retval(N), [], is_virtual=True)
    for n, a in (('ptr', ['slot']), ('own', ['id']), ('val', ['id']), ('ref', ['id']), ('refslot', ['slot']), ('cref', ['id']), ('give', ['slot']), ('giveval', [])):
        v.add_method('do_' + n, retval('int'), [i(k) for k in a])
with open(os.path.join(outdir, 'objs.cc'), 'w') as f:
    f.write('#include "vflog_impl.h"\n')
    mod.generate(FileCodeSink(f))
'''

KILL = {'plain': 'delete p;', 'refm': 'p->Unref();', 'reff': 'p->Unref();', 'free': 'delete p;'}


def have_boost():
    return os.path.exists('/usr/include/boost/shared_ptr.hpp')


def build(outdir, configs=None, flavour='asan', registry='std'):
    cfg = {k: v for k, v in CONFIGS.items() if configs is None or k in configs}
    if not have_boost():
        cfg = {k: v for k, v in cfg.items() if v[0] != 'boost'}
    h = HEAD % {'boost': '#include <boost/shared_ptr.hpp>' if any(v[0] == 'boost' for v in cfg.values()) else ''}
    for n, (pol, sub) in sorted(cfg.items()):
        h += CLASS % {'N': n}
        if pol in ('boost', 'std'):
            h += SMART % {'N': n, 'ns': pol}
        else:
            h += RAW % {'N': n, 'kill': KILL[pol]}
    h += '#endif\n'
    core.write(os.path.join(outdir, 'spec.h'), h)
    core.write(os.path.join(outdir, 'configs.json'), json.dumps(cfg))
    core.write(os.path.join(outdir, 'extra.cc'), '#include "spec.h"\n' + IMPL)
    core.generate(core.write(os.path.join(outdir, 'gen.py'), GEN), outdir, env=core.base_env(VF_REG=registry))
    core.compile_module([os.path.join(outdir, 'objs.cc'), os.path.join(outdir, 'extra.cc')], os.path.join(outdir, 'objs.so'), flavour)
    return cfg
