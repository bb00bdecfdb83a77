"""Random C++ types and their spellings (part of C16).

A type is a tree: ('name', 'n1::A'), ('int', 'unsigned int'), ('tmpl', 'n1::V', args, member or None), ('num', text),
('cv', 'const'|'volatile', T), ('*', T), ('&', T), ('fn', R, args).  spell() writes it in one of the ways C++ allows."""

HEADER = r'''
#include <vector>
#include <map>
#include <string>
#include <memory>
#include <utility>
struct A { int v; }; struct const_A { int v; }; struct A_const { int v; }; enum E { E_x }; struct constA { int v; };
template <class T> struct V { struct In { int v; }; typedef T value_type; template <class U> struct X { struct Deep { int v; }; int v; }; int v; };
template <class T, class U = int> struct M { int v; struct In { int v; }; };
template <int N> struct Num { int v; };
template <class T, int N> struct TN { int v; };
template <class... T> struct Any { int v; };
namespace n1 { struct A { int v; }; struct B { struct A { int v; }; int v; }; enum E { E_y }; const int K = 7; template <class T> struct V { struct In { int v; }; int v; };
  namespace n2 { struct A { int v; }; template <class T, class U = int> struct M { int v; struct In { int v; }; }; enum E { E_z }; } }
namespace n2 { struct A { int v; }; }
'''
NAMES = ['A', 'const_A', 'A_const', 'E', 'constA', 'n1::A', 'n1::B', 'n1::B::A', 'n1::E', 'n1::n2::A', 'n1::n2::E', 'n2::A', 'std::string']
INTS = ['int', 'char', 'bool', 'double', 'float', 'long', 'unsigned int', 'unsigned char', 'long long', 'unsigned long long', 'signed char', 'short']
TMPL1 = ['V', 'n1::V', 'std::vector', 'M', 'n1::n2::M', 'std::shared_ptr', 'Any']
TMPL2 = ['M', 'n1::n2::M', 'std::pair', 'std::map', 'Any']
NUMS = ['3', '0', '-1', "'a'", '0x1F', 'n1::K', 'true', 'sizeof(int)', '12u']


def gen(rng, depth=2, top=True, ptr=True):
    """a random type; class-like at the bottom, pointers, references and cv around it"""
    r = rng.random()
    if depth <= 0 or r < .42: t = ('name', rng.choice(NAMES))
    elif r < .55: t = ('int', rng.choice(INTS))
    else:
        q = rng.random()
        arg = lambda: gen(rng, depth - 1, False)
        if q < .5: t = ('tmpl', rng.choice(TMPL1), [arg()], None)
        elif q < .75: t = ('tmpl', rng.choice(TMPL2), [arg(), arg()], None)
        elif q < .83: t = ('tmpl', 'Num', [('num', rng.choice(NUMS))], None)
        elif q < .9: t = ('tmpl', 'TN', [arg(), ('num', rng.choice(NUMS))], None)
        else: t = ('tmpl', 'Any', [arg() for _ in range(rng.randint(0, 4))], None)
        if t[1] in ('V', 'n1::V', 'n1::n2::M') and rng.random() < .35: t = t[:3] + ('In',)
        elif t[1] == 'V' and rng.random() < .2: t = t[:3] + (('X', [arg()], rng.choice([None, None, 'Deep'])),)
    if not top and rng.random() < .1:
        args = [gen(rng, depth - 1, False) for _ in range(rng.randint(0, 2))]
        return ('*', ('fn', wrap(rng, t), args)) if rng.random() < .5 else ('fn', wrap(rng, t), args)
    return wrap(rng, t)


def cv(rng, t, p=.35):
    if rng.random() < p: t = ('cv', 'const', t)
    if rng.random() < .07: t = ('cv', 'volatile', t)
    return t


def wrap(rng, t):
    t = cv(rng, t)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2, 3])): t = cv(rng, ('*', t), .25)
    if rng.random() < .25: t = ('&', t)
    return t


def cvs(t):
    q = []
    while t[0] == 'cv':
        q.append(t[1]); t = t[2]
    return q, t


def sp(rng, must=False):
    if must: return rng.choice([' ', ' ', ' ', '  ', '\t'])
    return rng.choice(['', '', '', ' ', ' ', '  '])


def join(rng, words):
    """words with the white space C++ needs between names, and any elsewhere"""
    o = ''
    name = lambda c: c.isalnum() or c == '_'
    for w in words:
        if not w: continue
        if o and name(o[-1]) and (name(w[0]) or w[0] == ':'): o += sp(rng, True)
        elif o: o += sp(rng)
        o += w
    return o


def spell(rng, t, plain=False):
    q, b = cvs(t)
    rng.shuffle(q)
    if b[0] in '*&':
        if b[1][0] == 'fn':     # pointer to function
            f = b[1]
            return join(rng, [spell(rng, f[1]), '(', b[0], join(rng, q), ')', '(' + sp(rng) + (sp(rng) + ',' + sp(rng)).join(spell(rng, a) for a in f[2]) + sp(rng) + ')'])
        return join(rng, [spell(rng, b[1]), b[0]] + q)
    if b[0] == 'fn':
        return join(rng, [spell(rng, b[1]), '(' + sp(rng) + (sp(rng) + ',' + sp(rng)).join(spell(rng, a) for a in b[2]) + sp(rng) + ')'])
    if b[0] == 'num': return b[1]
    if b[0] == 'int': words = b[1].split()
    else:
        words = [('::' if rng.random() < .3 else '') + b[1]]
        if b[0] == 'tmpl':
            words[0] += args(rng, b[2])
            if b[3]:
                words[0] += '::' + (b[3] if isinstance(b[3], str) else 'X' + args(rng, b[3][1]) + ('::' + b[3][2] if b[3][2] else ''))
    # cv-qualifiers before, after, or between the words of a fundamental type
    slots = [[] for _ in range(len(words) + 1)]
    for x in q: (slots[0] if rng.random() < .5 else slots[-1] if len(words) == 1 or rng.random() < .8 else rng.choice(slots)).append(x)
    out = []
    for i, w in enumerate(words):
        out += slots[i] + [w]
    return join(rng, out + slots[-1])


def args(rng, l):
    o = sp(rng) + '<' + (sp(rng) + ',').join(sp(rng) + spell(rng, a) for a in l)
    return o + (sp(rng)) + '>'
