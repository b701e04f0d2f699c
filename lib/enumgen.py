"""random enum declarations, and the tables a compiler gives for them"""
import random


class Enum:
    """text: the declaration; qual: qualified name; names: (enumerator, expression for it)"""


IDENT = ['a', 'b', 'red', 'x1', 'value_2', 'Foo_bar', 'CAPS', '_u', 'enumerator', 'classy', 'structure', 'constant', 'publicity', 'operatorx', 'E1', 'z', 'off', 'on', 'In', 'Out']


def ws(r):
    return r.choice([' ', ' ', ' ', '\n  ', '  ', '\t', ' /* a, b = 1 } ; */ ', ' // x, y }\n ', ''])


def sep(r):
    w = ws(r)
    return w or ' '


class Gen:
    def __init__(self, seed, cxx11):
        self.r = random.Random(seed)
        self.cxx11 = cxx11

    def value(self, prev, small, last):
        """a constant expression; small: must lie in 0..127"""
        r = self.r
        forms = [lambda: str(r.randrange(100)), lambda: hex(r.randrange(127)), lambda: "'%s'" % r.choice(['a', 'Z', '0', ',', '}', ';', '{', '"', '=', '(', '\\n', '\\\'', '\\\\']),
                 lambda: '1%s<<%s%d' % (ws(r), ws(r), r.randrange(6)), lambda: '(%d)' % r.randrange(100), lambda: '(%d+%d)*2' % (r.randrange(20), r.randrange(20)),
                 lambda: 'sizeof(int)', lambda: '%d ? %d : %d' % (r.randrange(2), r.randrange(99), r.randrange(99)), lambda: 'int(%d)' % r.randrange(99),
                 lambda: 'vConst', lambda: '::vConst', lambda: 'vNs::vConst2 + 1', lambda: 'vT<1,2>::value', lambda: 'sizeof(vT<1, 2>)', lambda: 'VMACRO(3,4)', lambda: '(vT<3,4>::value)',
                 lambda: '%d /* , other */' % r.randrange(99), lambda: '(3 > 2) + 1', lambda: '0%o' % r.randrange(64), lambda: '7 & 3', lambda: "sizeof(\"a,b}\")", lambda: 'true']
        if self.cxx11:
            forms += [lambda: 'int{%d}' % r.randrange(99), lambda: 'vF(%d, 2)' % r.randrange(20), lambda: 'static_cast<int>(%d)' % r.randrange(99), lambda: 'vF(vF(1,2),3)', lambda: 'int(vS{1,2}.a)']
        if not small:
            forms += [lambda: '-%d' % r.randrange(1000), lambda: str(r.randrange(-2**30, 2**30)), lambda: '~0', lambda: '%dL' % r.randrange(10**6), lambda: '-(%d)' % r.randrange(99)]
            if last:
                forms += [lambda: '0x7fffffff', lambda: '-2147483647-1']
        if prev:
            p = r.choice(prev)
            if not small:
                forms += [lambda: p + ' + 1', lambda: p + '-%d' % r.randrange(9)]
            forms += [lambda: p]
            forms += [lambda: p]
        return r.choice(forms)()

    def enum(self, i, depth=0):
        r = self.r
        e = Enum()
        cls = self.cxx11 and r.random() < .4
        under = ''
        small = False
        kwd = r.choice(['class', 'class', 'class', 'struct'])
        if self.cxx11 and r.random() < .5:
            under = r.choice(['int', 'unsigned', 'short', 'unsigned char', 'signed char', 'char', 'long', 'unsigned long long', 'std::uint8_t', 'std::int16_t', 'vNs::Int'])
            small = under not in ('int', 'long', 'vNs::Int')
        kw = 'enum' + (sep(r) + kwd if cls else '')
        e.name = 'E%d' % i
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 12])
        # names unique over the family, except in enum classes
        names = r.sample(IDENT, min(n, len(IDENT)))
        if not cls:
            names = ['%s_%d' % (x, i) for x in names]
        body, prev, e.names = [], [], []
        for k, x in enumerate(names):
            t = x
            if r.random() < .55:
                v = self.value(prev, small, k == len(names) - 1)
                t += ws(r) + '=' + ws(r) + v
            if self.cxx11 and r.random() < .06 and self.std17:
                t = t.replace(x, x + ' [[maybe_unused]]', 1)
            body.append(t)
            prev.append(x)
            e.names.append(x)
        text = kw + sep(r) + e.name + (ws(r) + ':' + ws(r) + under if under else '') + ws(r) + '{' + ws(r)
        text += (ws(r) + ',' + ws(r)).join(body)
        if body and self.cxx11 and r.random() < .3:
            text += ws(r) + ','
        text += ws(r) + '}' + ws(r) + ';\n'
        if under and r.random() < .15 or (cls and r.random() < .1):
            text = kw + ' ' + e.name + (': ' + under if under else '') + ';\n' + text
        e.cls, e.text = cls, text
        return e

    std17 = False

    def scope(self, i):
        """one part of the header: an enum in some scope. (text, [(qualified name, [(name, expr)])])"""
        r = self.r
        e = self.enum(i)
        k = r.randrange(8)
        if k == 0:
            text, q = e.text, ''
        elif k == 1:
            q = r.choice(['N', 'M'])
            text = 'namespace %s {\n%s}\n' % (q, e.text)
        elif k == 2:
            q = 'N::Inner'
            text = 'namespace N {\nnamespace Inner\n{\n%s}\n}\n' % e.text
        elif k in (3, 4):
            q = 'C%d' % i
            key = r.choice(['struct', 'class'])
            text = '%s %s {\n%sint m;\n%s %s v; int k(int x) const {return x;}\n};\n' % (key, q, 'public:\n' if key == 'class' else '', e.text, e.name)
        elif k == 5:
            # the same class and enum names in two namespaces
            f = self.enum(i)
            text = 'namespace N {\nstruct C%d {\n%s %s v;\n};\n}\nnamespace M {\nstruct C%d {\n%s %s v;\n};\n}\n' % (i, e.text, e.name, i, f.text, f.name)
            return text, [self.rows('N::C%d' % i, e), self.rows('M::C%d' % i, f)]
        elif k == 6:
            q = 'C%d::D' % i
            text = 'struct C%d {\nstruct D {\nint n; %s %s v;\n};\nD d;\n};\n' % (i, e.text, e.name)
        else:
            q = 'M'
            text = 'namespace M {\nstruct Fwd%d;\n%s\nstruct Fwd%d {%s x;};\n}\n' % (i, e.text, i, e.name)
        return text, [self.rows(q, e)]

    @staticmethod
    def rows(q, e):
        qual = (q + '::' if q else '') + e.name
        return qual, [(x, '%s::%s' % (qual, x) if e.cls else '%s::%s' % (q, x) if q else x) for x in e.names]


PRELUDE = '''#include <cstddef>
%s
const int vConst=5;
#define VMACRO(x,y) (x+y)
template <int A, int B> struct vT {enum {value=A*10+B}; char c[A];};
namespace vNs {const int vConst2=7; typedef int Int;}
%s
'''


def header(parts, cxx11):
    pre = PRELUDE % ('#include <cstdint>' if cxx11 else '', 'constexpr int vF(int a, int b) {return a+b;}\nstruct vS {int a, b;};' if cxx11 else '')
    return '#ifndef TYPES_H\n#define TYPES_H\n' + pre + ''.join(t for t, enums in parts) + '#endif\n'


def table(parts):
    t, reg = '', ''
    for k, (q, rows) in enumerate(e for text, enums in parts for e in enums):
        if rows:
            t += 'static const Row rows%d[]={%s};\n' % (k, ', '.join('{"%s",int(%s)}' % (n, x) for n, x in rows))
            reg += '  entries.push_back(new EntryT< %s >("%s",rows%d,%d));\n' % (q, q, k, len(rows))
        # an empty enum has no table
    return t + 'static void registerAll()\n{\n%s}\n' % reg
