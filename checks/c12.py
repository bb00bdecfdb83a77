"""C12: STL containers: contents, order, copies, iterators and rejection, against Python models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import *

ELEMS = ['int', 'unsigned char', 'short', 'int64_t', 'uint32_t', 'double', 'float', 'bool', 'std::string', 'Color', 'Val']
KEYS = ['int', 'short', 'std::string', 'unsigned char', 'int64_t']
ORDERED = ['int', 'unsigned char', 'short', 'int64_t', 'std::string', 'double', 'Val', 'Color', 'bool']

HEADER = r'''
#include <list>
#include <set>
#include <map>
#include <deque>
#include <unordered_map>
#include <algorithm>
enum Color { RED, GREEN = 7, BLUE };
struct Val {
    vf::Track track; int n;
    Val() : track("Val"), n(0) {}
    Val(int n_) : track("Val"), n(n_) {}
    Val(const Val &o) : track("Val"), n(o.n) {}
    Val &operator=(const Val &o) { track.use(); n = o.n; return *this; }
    bool operator<(const Val &o) const { return n < o.n; }
    int getN() const { track.use(); return n; }
};
template <class T> struct Enc { static std::string f(const T &v) { return vf::enc(v); } };
template <> struct Enc<Val> { static std::string f(const Val &v) { char b[30]; snprintf(b, sizeof b, "V%d", v.getN()); return b; } };
template <> struct Enc<Color> { static std::string f(const Color &v) { return vf::enc((int) v); } };
template <class C> std::string encseq(const C &c) { std::string s = "["; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { if (i != c.begin()) s += ","; s += Enc<typename C::value_type>::f(*i); } return s + "]"; }
template <class C> std::string encmap(const C &c, bool sorted) {
    std::vector<std::string> v;
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) v.push_back(Enc<typename C::key_type>::f(i->first) + "=" + Enc<typename C::mapped_type>::f(i->second));
    if (sorted) std::sort(v.begin(), v.end());
    std::string s = "{"; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += v[i]; } return s + "}"; }
template <> struct Enc<std::vector<bool> > { static std::string f(const std::vector<bool> &c) { std::string s = "["; for (size_t i = 0; i < c.size(); i++) { if (i) s += ","; s += vf::enc((bool) c[i]); } return s + "]"; } };
template <class T> struct Enc<std::vector<T> > { static std::string f(const std::vector<T> &c) { return encseq(c); } };
template <class T> struct Enc<std::list<T> > { static std::string f(const std::list<T> &c) { return encseq(c); } };
template <class T> struct Enc<std::deque<T> > { static std::string f(const std::deque<T> &c) { return encseq(c); } };
template <class T> struct Enc<std::set<T> > { static std::string f(const std::set<T> &c) { return encseq(c); } };
template <class T> struct Enc<std::multiset<T> > { static std::string f(const std::multiset<T> &c) { return encseq(c); } };
template <class K, class T> struct Enc<std::map<K, T> > { static std::string f(const std::map<K, T> &c) { return encmap(c, false); } };
template <class K, class T> struct Enc<std::unordered_map<K, T> > { static std::string f(const std::unordered_map<K, T> &c) { return encmap(c, true); } };
template <class C> inline void log(const char *f, const C &c) { vf::call(f); vf::ev("in c " + Enc<C>::f(c)); }
'''
ONE = r'''
%(typedef)s
inline %(C)s &%(N)s_st() { static %(C)s c; return c; }
inline void %(N)s_store(const %(C)s &c) { log("store", c); %(N)s_st() = c; }
inline void %(N)s_value(%(C)s c) { log("value", c); }
inline void %(N)s_value2(%(C)s c, %(C)s d, unsigned char n) { log("value2", c); log("value2", d); }
inline void %(N)s_ref(%(C)s &c) { log("ref", c); }
inline %(C)s %(N)s_inout(%(C)s &c) { log("inout", c); %(C)s o = c; c = %(N)s_st(); return o; }
inline int %(N)s_out(int k, %(C)s &c) { vf::call("out"); c = %(N)s_st(); return k; }
inline void %(N)s_outp(%(C)s *c) { vf::call("outp"); *c = %(N)s_st(); }
inline void %(N)s_ptr(%(C)s *c) { log("ptr", *c); }
inline void %(N)s_ptrown(%(C)s *c) { log("ptrown", *c); delete c; }
inline %(C)s %(N)s_get() { return %(N)s_st(); }
inline const %(C)s &%(N)s_getcref() { return %(N)s_st(); }
inline void %(N)s_wipe() { %(N)s_st() = %(C)s(); }
inline std::string %(N)s_over(int n) { return "int"; }
inline std::string %(N)s_over(const %(C)s &c) { log("over", c); return "container"; }
struct %(N)s_H { %(C)s a; int pad; %(H)s
    std::string look() const { return Enc<%(C)s >::f(a); } 
    const %(C)s &getA() const { return a; } void setA(const %(C)s &v) { vf::call("setA"); a = v; } };
struct %(N)s_V { virtual ~%(N)s_V() {}
    virtual %(C)s cb(%(C)s v) { log("base", v); return v; }
    virtual void cbref(%(C)s &v) { log("base", v); }
    virtual int cbcref(int k, const %(C)s &v) { log("base", v); return k; }
    void do_cb() { log("cb", cb(%(N)s_st())); }
    void do_cbref() { %(C)s c = %(N)s_st(); cbref(c); log("cbref", c); }
    int do_cbcref(int k) { return cbcref(k, %(N)s_st()); } };
'''

GEN = r'''
import json
spec = json.load(open(os.path.join(outdir, 'spec.json')))
mod = new_module()
mod.add_enum('Color', ['RED', 'GREEN', 'BLUE'])
Val = mod.add_class('Val'); Val.add_constructor([]); Val.add_constructor([param('int', 'n')]); Val.add_copy_constructor()
Val.add_method('getN', retval('int'), [], is_const=True)
F = mod.add_function
for s in spec:
    N, C = s['name'], s['ctype']
    vt = (retval(s['key']), retval(s['value'])) if s['key'] else retval(s['value'])
    outer = None
    H = mod.add_class(N + '_H'); H.add_constructor([])
    if s['where'] == 'class':
        cont = H.add_container_traits if False else None
    kw = {}
    if s['custom']: kw['custom_name'] = s['py']
    mod.add_container(C, vt, s['kind'], **kw)
    i = lambda n: param('int', n)
    F(N + '_store', None, [param('const %s &' % C, 'c')]); F(N + '_value', None, [param(C, 'c')]); F(N + '_value2', None, [param(C, 'c'), param(C, 'd'), param('unsigned char', 'n')])
    F(N + '_ref', None, [param(C + ' &', 'c')]); F(N + '_inout', retval(C), [param(C + ' &', 'c', direction=INOUT)])
    F(N + '_out', retval('int'), [i('k'), param(C + ' &', 'c', direction=OUT)]); F(N + '_outp', None, [param(C + ' *', 'c', direction=OUT)])
    F(N + '_ptr', None, [param(C + ' *', 'c', transfer_ownership=False)]); F(N + '_ptrown', None, [param(C + ' *', 'c', transfer_ownership=True)])
    F(N + '_get', retval(C), []); F(N + '_wipe', None, [])
    F(N + '_getcref', retval('const %s &' % C), [])
    F(N + '_over', retval('std::string'), [i('n')]); F(N + '_over', retval('std::string'), [param('const %s &' % C, 'c')])
    H.add_instance_attribute('a', retval(C)); H.add_method('look', retval('std::string'), [], is_const=True)
    H.add_instance_attribute('prop', retval(C), getter='getA', setter='setA')
    V = mod.add_class(N + '_V', allow_subclassing=True); V.add_constructor([])
    V.add_method('cb', retval(C), [param(C, 'v')], is_virtual=True)
    V.add_method('cbref', None, [param(C + ' &', 'v', direction=INOUT)], is_virtual=True)
    V.add_method('cbcref', retval('int'), [i('k'), param('const %s &' % C, 'v')], is_virtual=True)
    V.add_method('do_cb', None, []); V.add_method('do_cbref', None, []); V.add_method('do_cbcref', retval('int'), [i('k')])
emit(mod)
'''

DRIVER = r'''
import sys, json, os, random, gc, struct
from vf import drv, sigs
D, NAME, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.path.insert(0, D)
import importlib
M = importlib.import_module(NAME)
c = drv.CSide(M)
spec = json.load(open(os.path.join(D, 'spec.json')))
byctype = {s['ctype']: s for s in spec}
rng = random.Random('%s/%s' % (drv.SEED, NAME))
sys.excepthook = drv.quiet_hook
class Bad(object): pass
class Boom(object):
    def __index__(self): raise KeyError('boom')
    def __float__(self): raise KeyError('boom')
    def __bool__(self): raise KeyError('boom')
class Fail(Exception): pass

# ---- model values: plain Python data; a Val is ('V', n)
def gen(t, k=5):
    if t in byctype: return contents(byctype[t], rng.randint(0, 3))
    if t == 'Val': return ('V', rng.randint(-9, 99))
    if t == 'Color': return rng.choice([0, 7, 8])
    b, how, kind = sigs.base_of(t)
    v = sigs.value(rng, b, kind)
    if kind in ('f32', 'f64') and v != v: v = 1.5
    return sigs.py_expected(kind, v)
def contents(s, size):
    if s['key']: return [(gen(s['key']), gen(s['value'])) for _ in range(size)]
    return [gen(s['value']) for _ in range(size)]
def key(t, v): 
    if t == 'std::string': return v.encode() if isinstance(v, str) else v
    return v
def settle(s, v):
    """what the C++ container holds after the elements v were added"""
    k = s['kind']
    vt = s['value']
    if s['key']:
        d = {}
        for a, b in v:
            if a not in d: d[a] = b
        return sorted(d.items(), key=lambda i: key(s['key'], i[0]))
    if k == 'set':
        out = []
        for x in sorted(v, key=lambda i: key(vt, i)):
            if not out or key(vt, out[-1]) != key(vt, x): out.append(x)
        return out
    if k == 'multiset': return sorted(v, key=lambda i: key(vt, i))
    return [settle(byctype[vt], x) for x in v] if vt in byctype else list(v)
def enc1(t, v):
    if t in byctype: return enc(byctype[t], v)
    if t == 'Val': return 'V%d' % v[1]
    if t == 'Color': return 'I%d' % v
    b, how, kind = sigs.base_of(t)
    return sigs.enc(b, kind, v)
def enc(s, v):
    if s['key']:
        items = [enc1(s['key'], a) + '=' + enc1(s['value'], settle(byctype[s['value']], b) if s['value'] in byctype else b) for a, b in settle(s, v)]
        if s['kind'] == 'unordered_map': items.sort()
        return '{' + ','.join(items) + '}'
    return '[' + ','.join(enc1(s['value'], x) for x in settle(s, v)) + ']'
def to_py1(t, v):
    if t in byctype: return to_py(byctype[t], v)
    if t == 'Val': return M.Val(v[1])
    return v
class L(list): pass
def to_py(s, v, form=None):
    if s['key']: l = [(to_py1(s['key'], a), to_py1(s['value'], b)) for a, b in v]
    else: l = [to_py1(s['value'], x) for x in v]
    form = form or rng.choice(['list', 'list', 'sub', 'container'])
    return l if form == 'list' else L(l) if form == 'sub' else getattr(M, s['py'])(l)
def same1(t, got, want):
    if t in byctype: return type(got) is getattr(M, byctype[t]['py']) and same(byctype[t], got, want)
    if t == 'Val': return type(got) is M.Val and got.getN() == want[1]
    if t == 'Color': return got == want
    b, how, kind = sigs.base_of(t)
    return sigs.same(kind, got, want)
def same(s, got, want):
    """does iterating got yield exactly want, in order"""
    got = list(got)
    want = settle(s, want)
    if len(got) != len(want): return False
    if s['key']:
        if not all(type(g) is tuple and len(g) == 2 for g in got): return False
        if s['kind'] == 'unordered_map': got.sort(key=lambda i: key(s['key'], i[0]))
        return all(same1(s['key'], g[0], w[0]) and same1(s['value'], g[1], w[1]) for g, w in zip(got, want))
    return all(same1(s['value'], g, w) for g, w in zip(got, want))
def show(got):
    try: return repr([ (x if not hasattr(x, 'getN') else 'V%d' % x.getN()) for x in got])
    except Exception as e: return repr(got)
def cxx(s, f, v, times=1, more=()):
    """the C++ side must have seen exactly v, in f"""
    log = c.log()
    want = ['call ' + f, 'in c ' + enc(s, v)] * times + list(more)
    if log != want: raise Fail('C++ saw %s, expected %s' % (log, want))
    drv.count('contents_in_cpp')
def holds(s, got, want, what=''):
    T = getattr(M, s['py'])
    if type(got) is not T: raise Fail('%s is %r, not a %s' % (what, got, s['py']))
    if not same(s, got, want): raise Fail('%s holds %s, expected %s' % (what, show(got), settle(s, want)))
    drv.count('contents_in_python')
def bad_input(s):
    """something that is not acceptable, and the elements before it"""
    w = rng.randint(0, 7)
    if w == 0: return rng.choice([Bad(), 3, None, 'text', (1, 2), {1: 2}, iter([])]), 'object'
    good = to_py(s, contents(s, rng.randint(0, 4)), 'list')
    vt = s['value']
    badv = [Bad()]
    if vt in ('unsigned char', 'short', 'int'): badv += [1 << 40, -(1 << 40), Boom()]
    if vt in ('std::string',): badv += [3, '\ud800']
    if vt == 'Val': badv += [3, None]
    if vt in byctype: badv += [3, None]
    if vt == 'bool': badv = [Boom()]
    b = rng.choice(badv)
    if s['key']:
        k = gen(s['key'])
        b = rng.choice([(k, b), (k, b), (Bad(), to_py1(vt, gen(vt))), (k,), (k, to_py1(vt, gen(vt)), 1), [k, to_py1(vt, gen(vt))], Bad()])
    good.insert(rng.randint(0, len(good)), b)
    return good, 'element'
REJ = (TypeError, ValueError, OverflowError, KeyError)

def scenario(s, what):
    N = s['name']; F = lambda f: getattr(M, N + '_' + f)
    T = getattr(M, s['py'])
    v = contents(s, rng.choice([0, 1, 2, 3, 5, 8]))
    w = contents(s, rng.choice([0, 1, 2, 4]))
    c.log()
    if what == 'construct':
        holds(s, T(to_py(s, v)), v, 'T(x)'); holds(s, T(), [], 'T()'); holds(s, T(arg=to_py(s, v)), v, 'T(arg=x)')
    elif what == 'pass':
        f = rng.choice(['value', 'ref', 'ptr', 'ptrown', 'store'])
        p = to_py(s, v)
        F(f)(p); cxx(s, f, v)
        if not same(s, p, v) and type(p) is T: raise Fail('the argument of %s changed to %s' % (f, show(p)))
        if type(p) is not T and s['kind'] not in ('set', 'multiset') and not s['key'] and len(p) != len(v): raise Fail('the list given to %s changed' % f)
    elif what == 'pass2':
        F('value2')(to_py(s, v), to_py(s, w), 5)
        log = c.log()
        if log != ['call value2', 'in c ' + enc(s, v), 'call value2', 'in c ' + enc(s, w)]: raise Fail('C++ saw %s' % log)
        drv.count('contents_in_cpp')
    elif what == 'return':
        F('store')(to_py(s, v)); c.log()
        f = rng.choice(['get', 'getcref'])
        r = F(f)(); r2 = F(f)()
        F('wipe')()
        holds(s, r, v, f + '()'); holds(s, r2, v, f + '()')
        F('store')(r); cxx(s, 'store', v)
    elif what == 'out':
        F('store')(to_py(s, v)); c.log()
        k = rng.randint(-5, 5)
        r = F('out')(k)
        if type(r) is not tuple or len(r) != 2 or r[0] != k: raise Fail('out returned %r' % (r,))
        F('wipe')()
        holds(s, r[1], v, 'out parameter')
        F('store')(to_py(s, w)); holds(s, F('outp')(), w, 'out pointer'); holds(s, r[1], v, 'out parameter, later')
    elif what == 'inout':
        F('store')(to_py(s, w)); c.log()
        p = to_py(s, v)
        r = F('inout')(p); cxx(s, 'inout', v)
        if type(r) is not tuple or len(r) != 2: raise Fail('inout returned %r' % (r,))
        holds(s, r[0], v, 'returned value'); holds(s, r[1], w, 'inout parameter')
        if type(p) is T: holds(s, p, v, 'the argument')
    elif what == 'attribute':
        h = getattr(M, N + '_H')()
        p = to_py(s, v)
        h.a = p
        if h.look() != enc(s, v): raise Fail('attribute set to %s, expected %s' % (h.look(), enc(s, v)))
        g = h.a
        holds(s, g, v, 'attribute'); holds(s, h.prop, v, 'property')
        h.prop = to_py(s, w)
        if h.look() != enc(s, w): raise Fail('attribute set through the setter to %s, expected %s' % (h.look(), enc(s, w)))
        holds(s, g, v, 'the value got before')
        b, kind = bad_input(s)
        try: setattr(h, rng.choice(['a', 'prop']), b)
        except REJ: pass
        else: raise Fail('attribute accepted %r' % (b,))
        if h.look() != enc(s, w): raise Fail('a rejected value changed the attribute to %s, was %s' % (h.look(), enc(s, w)))
        drv.count('rejections')
        del h; gc.collect()
        holds(s, g, v, 'the value got before, after the object died')
    elif what == 'reject':
        b, kind = bad_input(s)
        f = rng.choice(['value', 'ref', 'ptr', 'ptrown', 'store', 'inout', 'value2', 'value2', 'T'])
        try:
            if f == 'T': T(b)
            elif f == 'value2': F(f)(*rng.choice([(to_py(s, v), b, 3), (b, to_py(s, v), 3), (to_py(s, v), to_py(s, w), 1 << 20)]))
            else: F(f)(b)
        except REJ as e: pass
        else: raise Fail('%s accepted %r' % (f, b))
        log = c.log()
        if log: raise Fail('%s(%r) was rejected, yet C++ ran: %s' % (f, b, log))
        drv.count('rejections')
    elif what == 'overload':
        k = rng.randint(0, 2)
        if k == 0:
            if F('over')(5) != 'int': raise Fail('over(5)')
        elif k == 1:
            if F('over')(to_py(s, v)) != 'container': raise Fail('over(list)')
            cxx(s, 'over', v)
        else:
            b, kind = bad_input(s)
            if type(b) is int: return
            try: F('over')(b)
            except TypeError: pass
            else: raise Fail('over accepted %r' % (b,))
            if c.log(): raise Fail('C++ ran')
            drv.count('rejections')
    elif what == 'iterate':
        t = T(to_py(s, v)); want = settle(s, v)
        its = [iter(t) for _ in range(3)]
        got = [[], [], []]; done = [False] * 3
        if s['kind'] == 'unordered_map': want = [(a, b) for a, b in list_plain(s, t)]
        while not all(done):
            i = rng.randint(0, 2)
            try: got[i].append(next(its[i]))
            except StopIteration:
                if len(got[i]) != len(want): raise Fail('iterator ended after %d of %d' % (len(got[i]), len(want)))
                done[i] = True
            if iter(its[i]) is not its[i]: raise Fail('iter(iterator) is another object')
        for i in range(3):
            try: next(its[i]); raise Fail('an exhausted iterator went on')
            except StopIteration: pass
        for g in got:
            if len(g) != len(want): raise Fail('iteration yielded %d of %d elements' % (len(g), len(want)))
        if s['kind'] != 'unordered_map':
            if not all(same(s, g, v) for g in got): raise Fail('interleaved iterators yielded %s, expected %s' % ([show(g) for g in got], want))
        it = iter(t); del t; its = None; gc.collect()
        rest = list(it)
        if len(rest) != len(want) or (s['kind'] != 'unordered_map' and not same(s, rest, v)): raise Fail('iterator outliving its container yielded %s' % show(rest))
        drv.count('contents_in_python'); drv.count('iterators', 4)
    elif what == 'element-copies':
        if s['value'] != 'Val' or s['key']: return
        vals = [M.Val(x[1]) for x in v]
        t = T(vals); del vals; gc.collect()
        elems = list(t); del t; gc.collect()
        if not same(s, elems, v): raise Fail('elements after the container died: %s' % show(elems))
        drv.count('contents_in_python')
    elif what == 'virtual':
        F('store')(to_py(s, v)); c.log()
        kind = rng.choice(['good', 'good', 'bad', 'raise', 'none'])
        seen = []
        b = bad_input(s)[0]
        def ret(x):
            if kind == 'raise': raise KeyError('override')
            return b if kind == 'bad' else to_py(s, w)
        class V(getattr(M, N + '_V')):
            if kind != 'none':
                def cb(self, x): seen.append(x); return ret(x)
                def cbref(self, x): seen.append(x); return ret(x)
                def cbcref(self, k, x): seen.append(x); return k + 1 if kind != 'bad' else 'no'
        o = V()
        which = rng.choice(['cb', 'cbref', 'cbcref'])
        if which == 'cbcref' and kind == 'raise': kind = 'good'
        if which == 'cbcref':
            r = o.do_cbcref(3)
            exp = 4 if kind == 'good' else 3
            if r != exp: raise Fail('do_cbcref returned %r with override %s' % (r, kind))
        else: getattr(o, 'do_' + which)()
        log = c.log()
        if kind != 'none':
            if len(seen) != 1: raise Fail('the override saw %r' % (seen,))
            holds(s, seen[0], v, 'argument of the override')
        base = ['call base', 'in c ' + enc(s, v)]
        if which == 'cbcref':
            want = [] if kind == 'good' else base
        elif kind == 'good': want = ['call ' + which, 'in c ' + enc(s, w)]
        elif which == 'cb' or kind == 'none': want = base + ['call ' + which, 'in c ' + enc(s, v)]
        else:
            # a failing override without a result: C++ goes on, with the value as it was
            want = (base if kind == 'none' else []) + ['call ' + which, 'in c ' + enc(s, v)]
        if log != want: raise Fail('%s with override %s: C++ log %s, expected %s' % (which, kind, log, want))
        drv.count('virtual_' + ('ok' if kind in ('good', 'none') else 'rejected'))
        F('wipe')(); del o; gc.collect()
        for x in seen: holds(s, x, v, 'argument of the override, later')
    elif what == 'mutate-while-converting':
        # an element whose conversion runs Python code that shortens the list
        if s['key'] or s['value'] not in ('int', 'short', 'unsigned char', 'bool', 'double', 'float', 'int64_t'): return
        lst = []
        class Evil(object):
            def go(self): del lst[:]; lst.extend([]); gc.collect(); return 1
            __index__ = __int__ = go
            def __float__(self): self.go(); return 1.0
            def __bool__(self): self.go(); return True
        lst.extend([1, 1, Evil()] + [object() for _ in range(20)])
        try: F('value')(lst)
        except REJ: pass
        log = c.log()
        if log and log[0] != 'call value': raise Fail('log %s' % log)
        drv.count('mutations')
    elif what == 'impostor':
        # an object that only claims to be a container
        class Fake(object):
            __class__ = property(lambda self: T)
        f = rng.choice(['value', 'ref', 'T'])
        try: (T if f == 'T' else F(f))(Fake())
        except TypeError: pass
        else: raise Fail('%s accepted an object that only claims to be a %s' % (f, s['py']))
        if c.log(): raise Fail('C++ ran')
        drv.count('rejections')
def list_plain(s, t): return [x for x in t]

KINDS = ['construct', 'pass', 'pass', 'pass2', 'return', 'out', 'inout', 'attribute', 'reject', 'reject', 'overload', 'iterate', 'element-copies', 'virtual', 'virtual', 'mutate-while-converting', 'impostor']
for s in spec:
    for i in range(n):
        for what in sorted(set(KINDS)):
            drv.op({'k': what, 'container': s['ctype'], 'kind': s['kind'], 'i': i})
            st = rng.getstate()
            try: scenario(s, what)
            except Fail as e:
                drv.violation('%s:%s' % (what, s['kind']), '%s: %s' % (s['ctype'], e), {'container': s, 'what': what})
            drv.ev(); drv.count('did_' + what)
        bad = c.bad()
        if bad[0]: drv.violation('lifetime:' + s['kind'], '%s %s' % (s['ctype'], bad[1]))
    drv.distinct([s['ctype'], s['kind'], s['key'], s['value']]); drv.sample({'container': s['ctype'], 'kind': s['kind']})
for s in spec: getattr(M, s['name'] + '_wipe')()
gc.collect()
if c.live('Val'): drv.violation('leak', '%d Val instances are left' % c.live('Val'))
drv.done()
'''


def make_spec(name, rng, forced):
    spec = []
    for i, (kind, key, value) in enumerate(forced):
        n = 'c%d' % i
        if key:
            raw = 'std::%s< %s, %s >' % (kind, key, value)
        else:
            raw = 'std::%s< %s >' % (kind, value)
        named = rng.random() < .5
        custom = not named or rng.random() < .4
        ctype = 'T%d' % i if named else raw
        spec.append({'name': n, 'kind': kind, 'key': key, 'value': value, 'ctype': ctype, 'raw': raw, 'py': 'P%d' % i if custom else ctype, 'custom': custom,
                     'typedef': 'typedef %s %s;' % (raw, ctype) if named else '', 'where': 'module'})
    # nested: a container whose elements are another container
    inner = rng.choice([s for s in spec if s['kind'] in ('vector', 'list', 'deque', 'map', 'set')])
    for kind, key in (('vector', None), ('map', rng.choice(KEYS)), ('list', None)):
        i = len(spec)
        raw = 'std::%s< %s >' % (kind, (key + ', ' if key else '') + inner['ctype'])
        spec.append({'name': 'c%d' % i, 'kind': kind, 'key': key, 'value': inner['ctype'], 'ctype': 'T%d' % i, 'raw': raw, 'py': 'T%d' % i, 'custom': False, 'typedef': 'typedef %s T%d;' % (raw, i), 'where': 'module'})
    return spec


def main():
    ck = Check('C12', 'distinct container types (kind x element types) put through every way a container crosses the boundary')
    rng = random.Random('C12/%s' % SEED)
    combos = []
    for k in ('vector', 'list', 'deque'):
        combos += [(k, None, e) for e in ELEMS]
    for k in ('set', 'multiset'):
        combos += [(k, None, e) for e in ORDERED]
    for k in ('map', 'unordered_map'):
        combos += [(k, key, e) for key in KEYS for e in ELEMS]
    rng.shuffle(combos)
    if not THOROUGH:
        # every kind and every element type at least once, the rest at random
        combos.sort(key=lambda c: 0 if c[0] not in ('map', 'unordered_map') else 1)
        combos = combos[:33] + rng.sample(combos[33:], 15)
        rng.shuffle(combos)
    nmod = 8
    parts = [combos[i::nmod] for i in range(nmod)]
    n = 12 if not THOROUGH else 120

    def one(i):
        name = 'con%d' % i
        r = random.Random('C12/%s/%d' % (SEED, i))
        spec = make_spec(name, r, parts[i])
        d = os.path.join(scratch(), name)
        os.makedirs(d)
        write(os.path.join(d, 'spec.json'), json.dumps(spec))
        h = HEADER
        for s in spec:
            h += ONE % {'N': s['name'], 'C': s['ctype'], 'typedef': s['typedef'], 'H': '%s_H() : pad(0) {}' % s['name']}
        try:
            handmod.build(d, name, h, GEN)
        except Exception as e:
            return name, e
        r = drive(write(os.path.join(d, 'driver_.py'), DRIVER), d, 'asan', [d, name, str(n)], timeout=850)
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        return name, r
    for name, r in pmap(one, range(nmod)):
        if isinstance(r, Exception):
            ck.build_failed(r, 'containers')
        else:
            ck.absorb(r, name)
    for k, m in (('contents_in_cpp', 3000), ('contents_in_python', 6000), ('rejections', 1500), ('iterators', 1500), ('virtual_ok', 300), ('virtual_rejected', 150)):
        ck.require(k, m)
    ck.finish()


main()
