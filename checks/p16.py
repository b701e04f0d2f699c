import os, random
from driver import Job, Violation, CheckError, sh, VERIF

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: typeName of generated types, its text given back to the compiler (is_same) and compared between types'
NOTE = ('Random type expressions over the fundamental types, strings, pointers, const, references, arrays, containers, smart pointers, std::function and generated classes, enums and class templates (type, value and pack parameters, '
        'specialisations, nested namespaces). A first program prints the names; a second asserts that each names the very type it was asked for. Distinct types must have distinct names.')
RULE = 'a type made of more than one part (something other than a fundamental type or a plain class); distinct by standard and type'
ASSUMPTIONS = ['function types are named <function>, and rvalue references as the type they refer to', 'default allocators, comparators and deleters', 'no volatile; long long from C++11 on or with HAVE_LONGLONG',
               'value parameters of templates are integers or bool; no members of class templates', 'names are read with the rules of C++11 (>> closes two lists)']

FUND = ['bool', 'char', 'short', 'int', 'long', 'signed char', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'float', 'double', 'long double', 'long long', 'unsigned long long',
        'wchar_t', 'std::string', 'std::wstring']

HEADER = '''#ifndef TYPES_H
#define TYPES_H
#include <string>
struct Plain {int a;};
class Klass {public: int a;};
enum Colour {red, green};
namespace N
{
  struct Plain {int b;};
  enum Colour {blue=3};
  namespace Inner
  {
    class Deep {public: int c; struct Nested {int d; enum E {e1,e2}; E e;}; Nested n;};
    template <class T> struct InTempl {T t;};
  }
  template <typename K, typename V> class Two {public: K k; V v;};
}
namespace M {struct Plain {int b;};}
template <class T> struct One {T t;};
template <class T, class U=int> struct Dflt {T t; U u;};
template <class T, int N> struct Arr {T t;};
template <unsigned long N=3, bool B=true> struct Vals {int k;};
template <int A, class T, long C> struct Mixed {T t;};
template <class classy, short shorty> struct Names {classy t;};
template <class T> struct Spec {T t;};
template <> struct Spec<int> {int t;};
template <class T> struct Spec<T*> {int u;};
template <class T> struct Spec<N::Two<T,int> > {int w;};
template <class T, int I> struct Part {T t;};
template <class T> struct Part<T,3> {int t;};
template <int I> struct Part<double,I> {int t;};
%s
#endif
'''
HEADER11 = '''template <class... A> struct Pack {int a;};
template <class T, class... A> struct Pack1 {T a;};
enum class Scoped {x, y};
enum class Small: unsigned char {p, q};
namespace N {enum class Colour2: short {c1};}
'''


class Gen:
    def __init__(self, seed, std):
        self.r = random.Random(seed)
        self.std = std
        self.cxx11 = std != 'c++98'

    def leaf(self):
        r = self.r
        k = r.randrange(10)
        if k < 6:
            l = [x for x in FUND if self.cxx11 or 'long long' not in x] + (['char16_t', 'char32_t'] if self.cxx11 else [])
            return r.choice(l)
        l = ['Plain', 'Klass', 'Colour', 'N::Plain', 'N::Colour', 'M::Plain', 'N::Inner::Deep', 'N::Inner::Deep::Nested', 'N::Inner::Deep::Nested::E']
        if self.cxx11:
            l += ['Scoped', 'Small', 'N::Colour2']
        return '::' + r.choice(l)

    def num(self, signed=True):
        r = self.r
        return str(r.choice([0, 1, 2, 3, 7, 255, 1000, 30000] + ([-1, -5] if signed else [])))

    def obj(self, d):
        """an object type without cv"""
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.leaf()
        e = lambda: self.obj(d - 1)
        forms = [lambda: 'std::vector<%s >' % e(), lambda: 'std::list<%s >' % e(), lambda: 'std::deque<%s >' % e(), lambda: 'std::set<%s >' % e(), lambda: 'std::multiset<%s >' % e(),
                 lambda: 'std::map<%s,%s >' % (e(), e()), lambda: 'std::multimap<%s,%s >' % (e(), e()), lambda: 'std::pair<%s,%s >' % (e(), e()),
                 lambda: '::One<%s >' % self.targ(d - 1), lambda: '::One<%s >' % self.targ(d - 1), lambda: '::Dflt<%s >' % self.targ(d - 1), lambda: '::Dflt<%s,%s >' % (self.targ(d - 1), self.targ(d - 1)),
                 lambda: '::Arr<%s,%s >' % (self.targ(d - 1), self.num()), lambda: '::Vals<%s,%s >' % (self.num(False), r.choice(['true', 'false'])), lambda: '::Vals<>',
                 lambda: '::Mixed<%s,%s,%s >' % (self.num(), self.targ(d - 1), self.num()), lambda: '::Names<%s,%s >' % (self.targ(d - 1), self.num()),
                 lambda: '::Spec<%s >' % self.targ(d - 1), lambda: '::Spec<int>', lambda: '::Spec<::N::Two<%s,int> >' % self.targ(d - 1),
                 lambda: '::Part<%s,%s >' % (self.targ(d - 1), self.num()), lambda: '::Part<%s,3 >' % {'double': 'float'}.get(*[self.targ(d - 1)] * 2),
                 lambda: '::N::Two<%s,%s >' % (self.targ(d - 1), self.targ(d - 1)), lambda: '::N::Inner::InTempl<%s >' % self.targ(d - 1),
                 lambda: 'classdesc::shared_ptr<%s >' % e(), lambda: 'PTR', lambda: 'PTR', lambda: 'PTR', lambda: 'classdesc::Enum_handle<::Colour>']
        if self.std != 'c++17':
            forms += [lambda: 'std::auto_ptr<%s >' % e()]
        if self.cxx11:
            forms += [lambda: 'std::unique_ptr<%s >' % e(), lambda: 'std::weak_ptr<%s >' % e(), lambda: 'std::array<%s,%d>' % (e(), r.choice([1, 2, 5, 77])), lambda: 'std::unordered_set<%s >' % e(),
                      lambda: 'std::unordered_multiset<%s >' % e(), lambda: 'std::unordered_map<%s,%s >' % (e(), e()), lambda: 'std::unordered_multimap<%s,%s >' % (e(), e()),
                      lambda: 'std::tuple<%s >' % ','.join(self.targ(d - 1) for i in range(r.randrange(1, 4))),
                      lambda: '::Pack<%s >' % ','.join(self.targ(d - 1) for i in range(r.randrange(1, 4))), lambda: '::Pack1<%s >' % ','.join(self.targ(d - 1) for i in range(r.randrange(2, 4)))]
        t = r.choice(forms)()
        return self.ptr(d) if t == 'PTR' else t

    def ptr(self, d):
        r = self.r
        t = self.obj(d - 1) if r.random() < .9 else 'void'
        if r.random() < .35:
            t = t + ' const'
        t += '*'
        while r.random() < .3:
            t += r.choice(['*', ' const*', ' const*'])
        return t

    def targ(self, d):
        """a template argument: anything"""
        r = self.r
        t = self.obj(d)
        if r.random() < .2:
            t += ' const'
        if r.random() < .12:
            t += '&'
        elif r.random() < .12:
            t += ''.join('[%d]' % r.choice([1, 2, 3, 12]) for i in range(r.choice([1, 1, 2, 3])))
        return t


def programs(std, types):
    gen = '#include "types.h"\n#include "classdesc.h"\n#include <vector>\n#include <list>\n#include <deque>\n#include <set>\n#include <map>\n#include <memory>\n' + \
        ('#include <array>\n#include <tuple>\n#include <unordered_set>\n#include <unordered_map>\n#include <type_traits>\n' if std != 'c++98' else '')
    p1 = gen + '#include "types.cd"\n#include "typeName_epilogue.h"\n#include "classdesc_epilogue.h"\n#include <stdio.h>\n#include <map>\nint main()\n{\n' + \
        ''.join('  puts(classdesc::typeName< %s >().c_str());\n' % t for t in types) + '  return 0;\n}\n'
    return p1


def names(ctx, std, types, tag):
    j = Job('names' + tag, 'main.cc', {'main.cc': programs(std, types), 'types.h': HEADER % (HEADER11 if std != 'c++98' else '')},
            [('types.cd', ['-nodef', '-typeName', '-i', 'types.h', 'dump'])], std=std, asan=False, opt='-O0', xdr=False)
    j.sources['main.cc'] = j.sources['main.cc'].replace('#include "types.cd"', '#include "dump_base.h"\n#include "types.cd"\n#include "dump_epilogue.h"')
    exe = ctx.build(j)
    rc, o, e = sh([exe], timeout=60)
    lines = o.split('\n')[:-1]
    if rc != 0 or len(lines) != len(types):
        raise Violation('typeName program of %d types: status %s, %d names' % (len(types), rc, len(lines)), dict(kind='names', std=std, types=types))
    return j, lines


def spelled(ctx, j, std, pairs):
    """indices of the pairs whose name is not the type"""
    text = j.sources['main.cc'].split('#include "dump_base.h"')[0]
    text = '#include <tuple>\n#include <type_traits>\n' + text
    text += ''.join('static_assert(std::is_same< %s,%s >::value,"#%d#");\n' % (t, n, k) for k, (t, n) in enumerate(pairs)) + 'int main() {}\n'
    src = os.path.join(j.dir, 'same%s.cc' % os.getpid())
    with open(src, 'w') as f:
        f.write(text)
    s2 = 'c++17' if std == 'c++17' else 'c++11'
    cmd = ['g++', '-std=' + s2, '-w', '-fsyntax-only', '-fmax-errors=0', '-I.', '-I' + ctx.stage.dir, '-I' + os.path.join(VERIF, 'lib/json5stub'), '-I' + os.path.join(VERIF, 'lib'), src]
    rc, o, e = sh(cmd, timeout=300, cwd=j.dir)
    os.unlink(src)
    return rc == 0, e


def test(ctx, std, types, tag, count=True):
    rec = lambda ts: dict(kind='names', std=std, types=ts)
    try:
        j, ns = names(ctx, std, types, tag)
    except Violation as v:
        if len(types) == 1:
            raise Violation('typeName<%s> (%s): %s' % (types[0], std, v.message), rec(types))
        # which of them?
        h = len(types) // 2
        test(ctx, std, types[:h], tag + 'l', False)
        test(ctx, std, types[h:], tag + 'r', False)
        raise v
    # distinct types, distinct names
    seen = {}
    for t, n in zip(types, ns):
        if n in seen and seen[n] != t:
            # same type spelt twice by the generator?
            ok, e = spelled(ctx, j, std, [(t, seen[n])])
            if not ok:
                raise Violation('%s and %s are both named %s (%s)' % (t, seen[n], n, std), rec([t, seen[n]]))
        seen[n] = t
    pairs = list(zip(types, ns))
    ok, e = spelled(ctx, j, std, pairs)
    while not ok and len(pairs) > 1:
        h = len(pairs) // 2
        ok, e = spelled(ctx, j, std, pairs[:h])
        if not ok:
            pairs = pairs[:h]
        else:
            pairs = pairs[h:]
            ok, e = spelled(ctx, j, std, pairs)
    if not ok:
        raise Violation('typeName<%s> (%s) is "%s", which is not that type' % (pairs[0][0], std, pairs[0][1]), rec([pairs[0][0]]))
    if count:
        for t, n in zip(types, ns):
            nt = '<' in t or '*' in t or '[' in t or '&' in t or 'const' in t
            ctx.count(std + t, nt, case=std, sample='%s -> %s' % (t, n), labels=[l for l, c in (('pointer', '*' in t), ('const', 'const' in t), ('array', '[' in t), ('reference', '&' in t), ('template', '<' in t)) if c])


def replay(ctx, rec):
    test(ctx, rec['std'], rec['types'], 'replay')


def shrink_type(ctx, v):
    return v


def run(ctx):
    def batch(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][i % 4]
        g = Gen('p16/%d/%d' % (ctx.seed, i), std)
        types = []
        while len(types) < ctx.n(150, 200):
            t = g.targ(g.r.choice([0, 1, 1, 2, 2, 3])).replace('<::', '< ::')
            if t not in types:
                types.append(t)
        test(ctx, std, types, str(i))
    ctx.pmap(batch, list(range(ctx.n(16, 240))))
