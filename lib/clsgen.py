"""Generates class definitions together with what a descriptor of them has to visit."""
import random, re

TYPES = ['int', 'unsigned', 'unsigned long', 'double', 'char', 'bool', 'long double', 'short int', 'signed char', 'std::string', 'std::vector<int>', 'std::vector<std::string >',
         'std::map<int,std::vector<std::string> >', 'std::pair<int,double>', 'std::list<std::pair<int,int> >', '::Outer', 'Outer', 'struct Outer', 'Outer::In', 'outer::Deep', 'class outer::Deep',
         'outer::inner::Deeper', 'Tmpl<int>', '::Tmpl<std::vector<int> >', 'Tmpl<Tmpl<char> >', 'outer::T2<int, 3>', 'enum Hue', 'Hue', 'const char*', 'int*', 'Outer *', 'const Outer* const*', 'void*',
         'std::set<int, std::greater<int> >', 'std::vector<int>::size_type', 'outer::T2<Outer::In,(5>4)>']
TYPES11 = ['std::array<int, 3>', 'std::vector<std::vector<int>>', 'std::shared_ptr<Outer>', 'std::map<int,std::map<int,std::vector<int>>>', 'long long', 'std::tuple<int,Tmpl<Tmpl<int>>>', 'decltype(0)',
           'std::function<int(int)>', 'std::unique_ptr<int[]>']
HEADER = '''#include <string>
#include <vector>
#include <map>
#include <list>
#include <set>
#include <iostream>
#include <functional>
#include <stdexcept>
#if __cplusplus>=201103L
#include <array>
#include <memory>
#include <tuple>
#endif
enum Hue {red,green,blue};
struct Outer {int o; struct In {int i;}; enum Shade {dark,light};};
template <class T> struct Tmpl {T t;};
namespace outer
{
  struct Deep {int d;};
  template <class T, int N> struct T2 {T t[N+1];};
  namespace inner {class Deeper {public: int e;};}
}
int aFunction(int);
extern int aGlobal;
'''


class Part:
    """a stretch of a class body. visits: what it adds to what is visited."""
    def __init__(self, text, visits=(), label='', after='', access=None, needs='', inner=()):
        self.inner = list(inner)   # nested classes: name and visits
        self.text, self.visits, self.label, self.after, self.access, self.needs = text, list(visits), label, after, access, needs


class Cls:
    def __init__(self, name, key='struct', parts=(), bases=(), ns=(), templ=None, args='', basetext='', label='', after=''):
        self.name, self.key, self.parts, self.bases, self.ns, self.templ, self.args, self.basetext = name, key, list(parts), list(bases), tuple(ns), templ, args, basetext
        self.label, self.after = label, after
        self.baseacc = []
        self.form = 'plain'
        self.sibs = []   # further specialisations: template header, arguments, of an instance, member

    def spelled(self):
        return '::' + '::'.join(self.ns + ((self.outer,) if self.form == 'member' else ()) + (self.name,)) + (' ' + self.args if self.args else '')


class Gen:
    def __init__(self, seed, cxx11, overload=False, respect=False):
        self.r = random.Random(seed)
        self.cxx11, self.overload, self.respect = cxx11, overload, respect
        self.n = 0
        self.skip = set()
        self.short = set()
        self.cxx17 = False

    def nm(self, p='m'):
        self.n += 1
        r = self.r
        if r.random() < .15:
            # names containing keywords
            return r.choice(['class', 'enum', 'operator', 'static', 'const', 'virtual', 'public', 'private', 'struct', 'friend', 'union', 'using', 'template', 'typedef', 'is_array', 'arg', 'desc']) + r.choice(['_', 'x']) + '%s%d' % (p, self.n)
        return r.choice([p, '_' + p, p.upper(), p + '_x']) + str(self.n)

    def type(self):
        return self.r.choice(TYPES + (TYPES11 if self.cxx11 else []))

    def args(self, named=None, defaults=True):
        """parameters, as declared and (without default arguments) as defined"""
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3])
        out, plain = [], []
        dflt = False
        for i in range(n):
            t = r.choice(['int', 'const std::string&', 'std::map<int,int>', 'double*', 'const Outer&', 'Hue', 'Outer', 'unsigned long', 'const std::vector<std::string>&', 'std::pair<int,int>&'])
            d = ''
            if defaults and (dflt or r.random() < .2):
                for k, v in (('int', ['0', '1', '(2,3)', 'sizeof(int)*2', 'aFunction(1)', '1<2', '8>>1']), ('unsigned', ['0', '1', '(2,3)', 'sizeof(std::pair<int,int>)']), ('Hue', ['red', 'Hue(1)']), ('double*', ['0']), ('std::map', ['std::map<int,int>()']),
                             ('const std::string', ['std::string("a,b){")', '"="', 'std::string(3,\',\')']), ('Outer', ['Outer()']), ('const Outer', ['Outer()'])):
                    if t.startswith(k):
                        d = '=' + r.choice(v)
                        dflt = True
                if dflt and not d:
                    break
            if r.random() < .7 if named is None else named:
                t += ' ' + self.nm('a')
            elif d:
                d = ' ' + d
            out.append(t + d)
            plain.append(t)
        return r.choice([',', ', ']).join(out), ','.join(plain)

    def stmt(self, d=2):
        r = self.r
        f = ['', 'aFunction(1);', 'int x=1; if (x) {x++;} else {--x;}', 'const char* s="}{\\"(;"; (void)s;', "char c='{', e='\\''; (void)c; (void)e;", '/* } */', '// }\n', 'for (int i=0; i<3; ++i) {aFunction(i);}',
             'struct Local {int a; void f() {}} l; (void)l;', 'enum {p,q}; (void)p;', 'try {aFunction(2);} catch (const std::exception&) {} catch (...) {throw;}', 'class K {public: int z;}; K k; k.z=1;',
             'int a[]={1,2,3}; (void)a;', 'std::map<int,std::vector<int> > m; m[1].push_back(a_<b_ && a_>c_);'.replace('a_', '1').replace('b_', '2').replace('c_', '3'), 'switch (1) {case 1: break; default: {}}',
             'aGlobal>>=1; aGlobal=aGlobal<<2; aGlobal=aGlobal>aGlobal;', 'do {aGlobal--;} while (aGlobal>0);', 'static int n=0; ++n;', 'using namespace std; typedef vector<int> V; V v; (void)v;', 'goto end; end: ;']
        if self.cxx11:
            f += ['auto l=[](int x) {return x;}; (void)l(1);', 'for (auto i: {1,2}) aFunction(i);', 'auto l=[=]() mutable ->int {struct A {}; return 1;}; (void)l;', 'using W=int; W t{1}; (void)t;', 'const char* r="//"; (void)r;', 'static_assert(1<2,"a;b");']
        return ' '.join('{%s}' % x if r.random() < .5 or 'int a[]' in x or ' n=0' in x else x for x in r.sample(f, r.choice([0, 1, 1, 2])))

    # ---- parts
    def p_scalar(self):
        t, n = self.type(), self.nm()
        return Part('%s %s;' % (t, n), [('member', n)])

    def p_quals(self):
        n = self.nm()
        t = self.r.choice(['mutable int', 'volatile int', 'const int*', 'mutable std::vector<int>', 'std::vector<const int*>', 'unsigned const char*', 'int const*'])
        return Part('%s %s;' % (t, n), [('member', n)])

    def p_multi(self):
        r = self.r
        ns = [self.nm() for i in range(r.choice([2, 2, 3]))]
        t = r.choice(['int', 'std::string', 'Outer', 'std::map<int,int>', 'double', 'Tmpl<Tmpl<int> >'])
        decl, vis = [], []
        for n in ns:
            k = r.random()
            if k < .2:
                decl.append('*' + n)
                vis.append(('member', n))
            elif k < .35:
                decl.append(n + '[3]')
                vis.append(('array', n, ['3']))
            elif k < .5 and self.cxx11 and t == 'int':
                decl.append(n + r.choice(['=1', '=sizeof(int)', '{3}', '=(1,2)', '=aFunction(1)', '={}']))
                vis.append(('member', n))
            else:
                decl.append(n)
                vis.append(('member', n))
        return Part('%s %s;' % (t, r.choice([',', ', ', ' , ', ',\n    ']).join(decl)), vis)

    def p_init(self):
        r = self.r
        n = self.nm()
        t = r.choice(['int x=1;', 'int x{1};', 'int x={1};', 'int x=aFunction(3);', 'double x=1e3;', 'std::string x="a;b,c{(";', "char x='{';", "char x=';';", 'std::vector<int> x={1,2,3};', 'std::vector<int> x{1,2,3};',
                      'std::map<int,std::string> x={{1,"}"},{2,";"}};', 'int x=1<2;', 'int x=sizeof(std::pair<int,int>);', 'Outer x=Outer();', 'Outer x={4};', 'int* x=nullptr;', 'int x=(1>0)? 3: 4;', 'bool x=3>2;',
                      'int x=Tmpl<int>().t;', 'std::function<int(int)> x=[](int y) {return y;};', 'int x=aGlobal>>1;', 'int x=aGlobal<<1;', 'const int x=4;', 'std::pair<int,int> x{1,2};', 'unsigned x=~0u;', 'int x=outer::T2<int,3>().t[1];',
                      'std::string x=std::string(3,\'x\');', 'int x=std::pair<int,int>(1,2).first;', 'int x{aFunction(1)};', 'Hue x=Hue::red;', 'int x=0, y=2;', 'std::map<int,int> x=std::map<int,int>();', 'double x=.5;', 'int x=0x1f;'])
        vis = [('member', n)]
        if ' y=' in t:
            m = self.nm()
            t = t.replace(' y=', ' %s=' % m)
            vis.append(('member', m))
        return Part(t.replace(' x', ' ' + n, 1), vis)

    def p_array(self):
        r = self.r
        n = self.nm()
        dims = [r.choice(['1', '2', '3', '2+1', 'sizeof(int)', '(2*2)', 'blue+1', '0x2', "'\\2'", '3*(1+1)']) for i in range(r.choice([1, 1, 1, 2, 2, 3]))]
        t = r.choice([x for x in TYPES if 'const*' not in x] + ['const char*', 'Outer*'])
        init = r.choice(['', '', '={}', '{}']) if self.cxx11 else ''
        d = r.choice(['', '', ' ']) + r.choice(['', ' ']).join('[%s]' % d for d in dims)
        k = r.random()
        if k < .1:
            # no const of class types, which would need an initialiser
            if k < .05:
                t = r.choice(['int', 'double', 'const char*', 'std::string', 'Hue', 'std::vector<int>'])
                init = ''.join('{' for x in dims) + ('"a"' if 'str' in t or 'char' in t else 'red' if t == 'Hue' else 'std::vector<int>(2)' if 'vec' in t else '1') + ''.join('}' for x in dims)
                return Part('static const %s %s%s;' % (t, n, d), [('array', n, dims)], after='TEMPL const %s QUAL::%s%s=%s;' % (t, n, d, init))
            return Part('static %s %s%s;' % (t, n, d), [('array', n, dims)], after='TEMPL %s QUAL::%s%s;' % (t, n, d))
        return Part('%s %s%s%s;' % (t, n, d, init), [('array', n, dims)])

    def p_static(self):
        n = self.nm()
        t = self.type()
        return Part('static %s %s;' % (t, n), [('member', n)], after='TEMPL %s QUAL::%s;' % (t, n))

    def p_static_const(self):
        r = self.r
        n = self.nm()
        f = ['static const int %s=3;', 'const static int %s=sizeof(int)*(1+2);', 'static const Hue %s=green;', 'static const unsigned long %s=1;', "static const char %s='{';", 'static const bool %s=true;', 'static int const %s=1;', 
             'static const int %s=blue>red;']
        if self.cxx11:
            f += ['static const int %s{4};', 'static const int %s=(1,2);']
        f = r.choice(f)
        t = re.sub(r'\b(static|const)\b', '', f[:f.index('%s')]).strip()
        return Part(f % n, [('const', n)], after='TEMPL const %s QUAL::%s;' % (t, n))

    def p_method(self):
        r = self.r
        n = self.nm('f')
        ret = r.choice(['void', 'int', 'std::string', 'const std::string&', 'std::map<int,int>', 'Outer*', 'const Outer&', 'std::vector<std::vector<int> >', 'unsigned long', 'Tmpl<int>', 'Hue', 'Outer::In', 'outer::Deep', 'const char*', 'outer::inner::Deeper&'])
        pre = r.choice(['', '', '', 'inline ', 'virtual ', 'virtual '])
        post = r.choice(['', '', ' const', ' const', ' throw()', ' const throw()']) if not self.cxx11 else r.choice(['', '', ' const', ' const'] + ([] if self.overload else [' noexcept', ' const noexcept', ' noexcept(true)']))
        a, ad = self.args()
        if r.random() < .5:
            body = '{' + self.stmt() + r.choice([' throw 1;', ' abort();', ' throw std::runtime_error("}");']) + '}'
            if r.random() < .3:
                body += ';'
            return Part('%s%s %s(%s)%s %s' % (pre, ret, n, a, post, body), [('method', n)])
        return Part('%s%s %s(%s)%s;' % (pre.replace('inline ', ''), ret, n, a, post), [('method', n)], after='TEMPL %s QUAL::%s(%s)%s {throw 1;}' % (ret, n, ad, post))

    def p_trailing(self):
        n = self.nm('f')
        r = self.r
        return Part(r.choice(['auto %s(int x) const -> std::vector<int> {return {x};}', 'auto %s() -> int {return 1;}', '[[noreturn]] void %s(int x) {for (;;);}', 'constexpr int %s() const {return 1;}',
                              'virtual int %s() const {return 3;}', 'int %s(std::initializer_list<int> x={1,2}) {return x.size();}', 'int %s() const {return 1;}', 'void %s(std::function<int(int)> f=[](int x) {return x;}) {}',
                              'auto %s(std::vector<std::vector<int>> x) {return x;}' if False else 'std::vector<std::vector<int>> %s(std::map<int,std::vector<int>>& m) {return {};}']) % n, [('method', n)])

    def p_self(self):
        # parameters and return values of the type of the class
        n = self.nm('f')
        return Part(self.r.choice(['void %s(const CLS_& a, int n) {}', 'CLS_& %s(CLS_& a, CLS_* b) const {throw 1;}', 'CLS_* %s() {return 0;}', 'const CLS_& %s(int n, const CLS_& a=*new CLS_) {return a;}' if False else 'const CLS_& %s(int n, const CLS_* a=0) {throw n;}',
                                   'void %s(const std::vector<CLS_*>& v, std::map<int,CLS_*>& m) {}', 'std::vector<CLS_*> %s(CLS_& CLS_x) {throw 1;}', 'int %s(CLS_* x, CLS_ * y, CLS_** z) const {return 1;}', 'bool %s(const CLS_* , const CLS_&) {return 1;}']).replace('%s', n), [('method', n)], label='self')

    def p_static_method(self):
        r = self.r
        n = self.nm('f')
        return Part(r.choice(['static int %s() {return 1;}', 'static void %s(int x) {if (x) {}}', 'static inline std::string %s(const std::string& x, int y=2) {return x;}', 'inline static Outer* %s(int x, const Outer& y) {return 0;}']) % n, [('static', n)])

    def p_overloads(self):
        r = self.r
        n = self.nm('f')
        k = r.choice([2, 2, 3])
        sigs = r.sample(['()', '(int x)', '(const std::string& x)', '(int x,int y)', '(Outer*)'], k)
        txt, vis = [], []
        for s in sigs:
            txt.append('int %s%s {return 1;}' % (n, s))
            vis.append(('method', n, 'int (CLS::*)%s' % s.replace(' x', '').replace(' y', '')))
        if r.random() < .4:
            s = r.choice(sigs)
            txt.append('int %s%s const {return 1;}' % (n, s))
            vis.append(('method', n, 'int (CLS::*)%s const' % s.replace(' x', '').replace(' y', '')))
        return Part('\n  '.join(txt), vis if self.overload else [])

    def p_template_method(self):
        r = self.r
        n = self.nm('f')
        return Part(r.choice(['template <class Q> void %s(Q x) {}', 'template <class Q, int M> Q %s(const Q (&x)[M]) {return x[0];}', 'template <class Q> Q %s();', 'template <class Q> std::vector<Q> %s(const std::vector<Q>& x) const {return x;}',
                              'template <typename Q> static Q %s(Q x) {return x;}']) % n)

    def p_operator(self):
        r = self.r
        f = ['bool operator==(const CLS_& x) const {return true;}', 'int operator()(int x) const {return x;}', 'int operator()() {return 1;}', 'int& operator[](int i) {static int x; return x;}', 'operator bool() const {return true;}',
             'CLS_& operator+=(const CLS_& x) {return *this;}', 'bool operator<(const CLS_& x) const;', 'bool operator!() const {return false;}', 'CLS_ operator++(int);', 'CLS_& operator++() {return *this;}',
             'operator const char*() const {return "}";}', 'CLS_* operator->() {return this;}', 'bool operator>=(const CLS_&) const;', 'void operator<<(int) {}', 'void operator>>(int) const {}', 'operator std::vector<int>() const {return std::vector<int>();}',
             'static void* operator new(size_t,int) {return 0;}', 'bool operator>(int x) const {return x>1;}', 'CLS_ operator-() const;', 'void operator,(int) {}', 'int operator*() const {return 1;}', 'bool operator&&(int) {return true;}']
        return Part(r.choice(f), [], needs='self')

    def p_ctor(self):
        r = self.r
        if self.overload:
            return self.p_scalar()
        f = ['explicit CLS_(const std::string& x): %s {}', 'CLS_(int x, int y=3): %s {if (x) {y++;}}', 'CLS_(Outer* x);', 'CLS_(const std::pair<int,int>& x, double) {}', 'CLS_(const std::vector<std::vector<int> >& x) : %s {}']
        if self.cxx11:
            f += ['CLS_(std::initializer_list<char> x): %s {}', 'explicit CLS_(double&& x) noexcept: %s {}', 'CLS_(const std::map<int,int>&)=delete;', 'CLS_(const std::map<std::string,int>& x): MEMI{1} {}', 'CLS_(const std::map<std::string,double>& x): MEMI{1}, MEMI2(3) {(void)x;}']
        return Part(r.choice(f), [], needs='ctor')

    def p_dtor(self):
        p = Part(self.r.choice(['~CLS_() {}', 'virtual ~CLS_() {aFunction(2);}', '~CLS_();', 'virtual ~CLS_()=default;' if self.cxx11 else '~CLS_() throw() {}']), [], needs='dtor')
        if p.text == '~CLS_();':
            p.after = 'TEMPL QUAL::~CLS_() {}'
        return p

    def p_friend(self):
        r = self.r
        n = self.nm('g')
        return Part(r.choice(['friend class ::Outer;', 'friend struct outer::Deep;', 'friend void %s(int);' % n, 'friend std::ostream& operator<<(std::ostream& o, const CLS_& x);', 'friend std::ostream& operator<<(std::ostream& o, const CLS_& x) {return o;}',
                              'friend bool operator==(const CLS_&, const CLS_&) {if (1) {} return true;}', 'friend int %s(int x=3) {return x;}' % n if False else 'friend int ::aFunction(int);', 'template <class Q> friend struct Tmpl;', 'template <class Q> friend void %s(Q);' % n,
                              'friend void %s(int x) {struct L {int a;} l; l.a=x;}' % n]), [])

    def p_enum(self):
        r = self.r
        n, a, b = self.nm('E'), self.nm('e'), self.nm('e')
        k = r.randrange(6 + 2 * self.cxx11)
        if k == 2 and not self.cxx11:
            k = 3
        if k == 0:
            return Part('enum %s {%s, %s=5};' % (n, a, b))
        if k == 1:
            return Part('enum {%s, %s=sizeof(int)};' % (a, b))
        if k == 2:
            m = self.nm()
            return Part('enum %s {%s, %s=(1,2)}; %s %s;' % (n, a, b, n, m), [('member', m)])
        if k == 3:
            m = self.nm()
            return Part('enum %s {%s} %s;' % (n, a, m), [('member', m)])
        if k == 4:
            m, m2 = self.nm(), self.nm()
            return Part('enum %s {%s} %s, %s[2];' % (n, a, m, m2), [('member', m), ('array', m2, ['2'])])
        if k == 5:
            m = self.nm()
            return Part('enum Outer::Shade %s;' % m, [('member', m)])
        if k == 6:
            m = self.nm()
            return Part('enum class %s: char {%s, %s}; %s %s;' % (n, a, b, n, m), [('member', m)])
        m = self.nm()
        return Part('enum class %s {%s}; %s %s=%s::%s;' % (n, a, n, m, n, a), [('member', m)])

    def p_nested(self):
        r = self.r
        n, a, m = self.nm('N'), self.nm(), self.nm()
        k = r.randrange(8)
        key = r.choice(['struct', 'class'])
        pub = 'public: ' if key == 'class' else ''
        if k == 0:
            return Part('%s %s {%sint %s; int f() const {return 1;}}; %s %s;' % (key, n, pub, a, n, m), [('member', m)], inner=[(n, [('member', a), ('method', 'f')])])
        if k == 1:
            return Part('%s %s;' % (key, n))
        if k == 2:
            return Part('struct %s {int %s;} %s;' % (n, a, m), [('member', m)], inner=[(n, [('member', a)])])
        if k == 3:
            return Part('union %s {int %s; char b[4];}; %s %s;' % (n, a, n, m), [('member', m)])
        if k == 4:
            return Part('union {int %s; char %s[4];} %s;' % (a, self.nm(), m), [('union', m)])
        if k == 5:
            return Part('typedef std::map<int,int> %s; %s %s;' % (n, n, m), [('member', m)])
        if k == 6:
            return Part('typedef int (*%s)(int,int); %s %s;' % (n, n, m), [('member', m)])
        return Part('struct %s {int %s; struct Q {int z;} q;}; std::vector<%s> %s;' % (n, a, n, m), [('member', m)], inner=[(n, [('member', a), ('member', 'q')]), (n + '::Q', [('member', 'z')])])

    def p_nested_template(self):
        n, m = self.nm('N'), self.nm()
        return Part('template <class Q> struct %s {Q q; void f() {}}; %s<int> %s;' % (n, n, m), [('member', m)])

    def p_fptr(self):
        # treated like a method
        n = self.nm()
        if self.r.random() < .3:
            # but not a pointer to an array
            return Part(self.r.choice(['int (*%s)[2];', 'const int (*%s)[3][2];', 'std::vector<int> (*%s) [4];', 'Outer (* %s)[2];']) % n, [('member', n)])
        return Part(self.r.choice(['int (*%s)(int);', 'void (*%s)();', 'const char* (*%s)(int,const std::string&);']) % n, [('method', n)])

    def p_misc11(self):
        n = self.nm()
        r = self.r
        f = [Part('using %s=std::vector<int>; %s v%s;' % (n, n, n), [('member', 'v' + n)]), Part('static_assert(sizeof(int)==4,"int;{");'), Part('static_assert(1,"");'), Part('static constexpr int %s=4;' % n, [('const', n)], after='TEMPL constexpr int QUAL::%s;' % n),
             Part('alignas(8) int %s;' % n, [('member', n)]), Part('[[maybe_unused]] int %s;' % n if False else '[[deprecated]] int %s;' % n, [('member', n)]), Part('decltype(aFunction(1)) %s;' % n, [('member', n)]),
             Part('template <class Q> using %s=std::vector<Q>; %s<int> v%s;' % (n, n, n), [('member', 'v' + n)]), Part('constexpr static int %s=3;' % n, [('const', n)], after='TEMPL constexpr int QUAL::%s;' % n)]
        return r.choice(f)

    def p_access(self):
        a = self.r.choice(['public', 'private', 'protected'])
        return Part('%s%s' % (a, self.r.choice([':', ' :'])), access=a)

    def p_noise(self):
        return Part(self.r.choice([';', '// int x;\n', '/* int y; } */', '\n', '#define ZZ%d {\n' % self.n, '#if 0\n#endif\n', '/* // */', "/* ' \" */", '// \' "\n']))

    def part(self):
        r = self.r
        f = [self.p_scalar] * 5 + [self.p_quals, self.p_multi, self.p_multi, self.p_array, self.p_array, self.p_static, self.p_static_const, self.p_method, self.p_method, self.p_method, self.p_static_method, self.p_overloads,
                                   self.p_template_method, self.p_operator, self.p_operator, self.p_ctor, self.p_friend, self.p_enum, self.p_nested, self.p_nested_template, self.p_self, self.p_fptr, self.p_access, self.p_noise]
        if self.cxx11:
            f += [self.p_init, self.p_init, self.p_trailing, self.p_misc11]
        f = [x for x in f if x.__name__ not in self.skip]
        x = r.choice(f)
        p = x()
        p.label = x.__name__[2:]
        return p

    def cls(self, nparts=None, plain=False):
        r = self.r
        c = Cls(self.nm('C'), r.choice(['struct', 'struct', 'class']), ns=r.choice([(), (), (), ('ns1',), ('ns1', 'ns2')]))
        if r.random() < .12:
            # names that are parts of the names of types in use
            n = r.choice(['s', 'st', 'td', 'n', 'vec', 'H', 'Ou', 'D', 'dou', 'Tm', 'p', 'inn'])
            if n not in self.short:
                self.short.add(n)
                c.name = n
        if r.random() < .2 and not plain:
            c.templ, c.args = r.choice([('<class T>', '<int>'), ('<class T, class U>', '<int,std::string >'), ('<typename T>', '<std::vector<int> >'), ('<class T, int N>', '<char,3>'), ('<class T=int>', '<double>'), ('<class T, class U=std::vector<int> >', '<int,char>'),
                                        ('<template <class Z> class T>', '<Tmpl>') if False else ('<class T, bool B=false>', '<double,true>')])
        nb = r.choice([0, 0, 0, 1, 1, 2, 3])
        avail = ['Outer', '::outer::Deep', 'Tmpl<int>', 'outer::T2<int,3>', 'outer::inner::Deeper', 'Tmpl< Tmpl<char> >', 'std::vector<int>', '::Outer::In', 'Tmpl<std::map<int,std::vector<int> > >'] + (['Tmpl<std::vector<std::vector<int>>>', 'Tmpl<Tmpl<int>>'] if self.cxx11 else [])
        if c.templ and r.random() < .5:
            avail = [a for a in avail if 'Tmpl<' not in a and 'vector' not in a] + ['Tmpl<T>', 'std::vector<T>']
        bs = r.sample(avail, nb)
        c.bases = bs
        # bases that are not public cannot be cast to, so need -respect_private
        acc = ['public ', 'public ', 'virtual public ', 'public virtual '] + (['private ', 'protected ', 'virtual protected ', 'private virtual '] if self.respect else [])
        if c.key == 'struct' or self.respect:
            acc += ['', '', 'virtual ']
        c.baseacc = [r.choice(acc) for b in bs]
        c.basetext = r.choice([',', ', ', ' , ']).join(a + b for a, b in zip(c.baseacc, bs))
        n = nparts if nparts is not None else r.choice([0, 1, 2, 3, 5, 8, 12])
        seen = set()
        for i in range(n):
            p = self.part()
            if p.needs in ('self', 'ctor', 'dtor') or p.label == 'friend':
                # no two the same
                k = p.text.split('(')[1][:14] if p.needs == 'ctor' else p.text
                if p.needs == 'dtor':
                    k = 'dtor'
                if k in seen:
                    continue
                seen.add(k)
            c.parts.append(p)
        if r.random() < .15:
            p = self.p_dtor()
            p.label = 'dtor'
            c.parts.append(p)
        if any(p.needs == 'ctor' for p in c.parts):
            mi, mj = self.nm('mi'), self.nm('mj')
            t = r.choice(['%s(1), %s(2)', '%s(1)', '%s(aFunction(1)), %s((1,2))', '%s(sizeof(Tmpl<int>)), %s(2)'])
            init = t % ((mi, mj) if t.count('%s') == 2 else (mi,))
            for p in c.parts:
                if p.needs == 'ctor':
                    p.text = p.text.replace('MEMI2', mj).replace('MEMI', mi)
                    if '%s' in p.text:
                        p.text = p.text % init
            c.parts.append(Part('CLS_() {}', label='ctor'))
            c.parts.insert(0, Part('int %s, %s;' % (mi, mj), [('member', mi), ('member', mj)], label='init members'))
        if self.respect:
            # for objects to be created
            for p in c.parts:
                if p.text.startswith(('~CLS_', 'virtual ~CLS_', 'CLS_() {}')):
                    p.text, p.access = r.choice(['public: ', 'public:', 'public\n :']) + p.text, 'public'
        self.form(c)
        for p in c.parts:
            p.text = p.text.replace('CLS_', c.name)
            p.after = p.after.replace('CLS_', c.name)
        return c


def form(self, c):
    """how the class is introduced"""
    r = self.r
    k = r.random()
    own = any('CLS_' in p.text or p.after for p in c.parts)
    if c.templ:
        if k < .25 and '=' not in c.templ:
            c.form = 'special'
            c.partial = r.random() < .6
            if c.partial:
                first = c.templ[1:-1].split(',')[0].split()[-1]
                c.special = '<%s>' % ','.join([x.split()[-1] + ('*' if i == 0 else '') for i, x in enumerate(c.templ[1:-1].split(','))])
                a = c.args[1:-1]
                c.args = '<' + a.split(',', 1)[0].rstrip() + '*' + (',' + a.split(',', 1)[1] if ',' in a else '') + '>'
                if a.startswith('std::vector'):
                    c.args = '<std::vector<int>*>'
            else:
                c.special = c.args
                c.bases, c.basetext, c.baseacc = [], '', []
            # further specialisations, of which the arguments differ in punctuation
            first, rest = (c.args[1:-1].split(',', 1) + [''])[:2]
            first, rest = first.strip(), rest and ',' + rest
            sfirst, srest = (c.special[1:-1].split(',', 1) + [''])[:2]
            sfirst, srest = sfirst.strip(), srest and ',' + srest
            strip = lambda x: x[:-1] if c.partial else x
            for q in r.sample(['&', '**', '[2]', '()', '*&', '(*)()'] + ([] if c.partial else ['*']) + (['&&'] if self.cxx11 else []), r.choice([1, 2, 3])):
                c.sibs.append((c.templ if c.partial else '<>', '<%s %s%s>' % (strip(sfirst), q, srest), '<%s %s%s>' % (strip(first), q, rest), self.nm('sib')))
        return
    if k < .1 and self.cxx11:
        c.form = 'final'
    elif k < .15 and self.cxx11:
        c.form = 'attribute'
    elif k < .25:
        if not own or r.random() < .5:
            c.form = 'typedef'
            c.tag = '_tag' if own or r.random() < .5 else ''
            if own:
                c.parts = [p for p in c.parts if not ('CLS_' in p.text or p.after or p.label == 'init members')]
            if not c.tag and c.parts:
                c.parts = [p for p in c.parts if p.label in ('scalar', 'quals', 'multi', 'array', 'fptr', 'init', 'noise', 'access')]
            if not c.tag:
                c.bases, c.basetext, c.baseacc = [], '', []
    elif k < .35:
        c.form = 'declarator'
    elif k < .45:
        c.form, c.outer = 'member', self.nm('O')
    elif k < .6 and len(c.ns) == 2 and self.cxx17:
        c.form = 'nsjoined'


Gen.form = form


def render(c, pub=True):
    """text of a class"""
    s = ''
    if c.form == 'nsjoined':
        s = 'namespace %s {\n' % '::'.join(c.ns)
    else:
        for n in c.ns:
            s += 'namespace %s {\n' % n
    if c.templ:
        s += 'template %s ' % c.templ
    if c.form == 'special':
        s = s.replace('template %s ' % c.templ, 'template %s %s %s;\ntemplate %s ' % (c.templ, c.key, c.name, c.templ if c.partial else '<>')) if c.templ else s
    if c.form == 'member':
        s += 'struct %s {public: %s %s;};\n' % (c.outer, c.key, c.name)
    if c.form == 'typedef':
        s += 'typedef '
    s += c.key + ' '
    if c.form == 'attribute':
        s += 'alignas(16) '
    if c.form == 'member':
        s += c.outer + '::'
    if c.form != 'typedef' or c.tag:
        s += c.name + (c.tag if c.form == 'typedef' else '')
    if c.form == 'special':
        s += c.special
    if c.form == 'final':
        s += ' final'
    if c.bases:
        s += ': ' + c.basetext
    s += '\n{\n'
    for p in c.parts:
        s += '  ' + p.text + '\n'
    s += '}%s;\n' % (' ' + c.name if c.form == 'typedef' else ' global%s, *pointer%s' % (c.name, c.name) if c.form == 'declarator' else '')
    for t, sp, a, m in c.sibs:
        s += 'template %s %s %s%s {public: int %s;};\n' % (t, c.key, c.name, sp, m)
    return s + '}' * (1 if c.form == 'nsjoined' else len(c.ns)) + '\n'


def qualified(c):
    """(template header, name): how members are defined outside of the class"""
    ps, templ = [], ''
    if c.templ:
        # parameters without their defaults
        templ = 'template ' + re.sub(r'=(std::vector<int>|[a-z]+)', '', c.templ)
        ps = [x.split()[-1] for x in re.sub(r'=(std::vector<int>|[a-z]+)', '', c.templ)[1:-1].split(',')]
    qual = c.name + ('<%s>' % ','.join(ps) if ps else '')
    if c.form == 'member':
        qual = c.outer + '::' + qual
    if c.form == 'special':
        qual = c.name + c.special
        if not c.partial:
            templ = ''
    return templ, qual


def fullname(c):
    return '::'.join(tuple(c.ns) + ((c.outer,) if c.form == 'member' else ()) + (c.name + (c.tag if c.form == 'typedef' else ''),))


def definitions(c):
    """what goes after the class: definitions of its members"""
    templ, qual = qualified(c)
    s = ''
    for p in c.parts:
        if p.after:
            s += p.after.replace('TEMPL', templ).replace('QUAL', qual).strip() + '\n'
    if not s:
        return ''
    return ''.join('namespace %s {\n' % n for n in c.ns) + s + '}' * len(c.ns) + '\n'


def visible(c):
    """(part, access) of each part"""
    a = 'private' if c.key == 'class' else 'public'
    for p in c.parts:
        if p.access:
            a = p.access
        yield p, a


def expected(c, objname, respect=False):
    """C++ statements that build the expected log e of object o of type C"""
    C = c.spelled()
    s = ''
    bases = list(c.bases)
    for b, acc in zip(bases, c.baseacc):
        bb = b
        if respect and not ('public' in acc or c.key == 'struct' and 'p' not in acc):
            continue
        if c.templ:
            first = c.args.strip()[1:-1].split(',')[0].strip()
            if c.form == 'special' and c.partial:
                first = first.rstrip('*')
            bb = b.replace('<T>', '<%s >' % first)
        s += '  vis::base(e,"",static_cast< %s& >(o));\n' % bb
    for p, a in visible(c):
        if respect and a != 'public':
            continue
        for v in p.visits:
            s += visit(v, C)
    return s


def visit(v, C):
    k, n = v[0], v[1]
    if k == 'member':
        return '  vis::member(e,".%s",o.%s);\n' % (n, n)
    if k == 'array':
        return '  {std::ostringstream b; b<<%s; vis::array(e,".%s",o.%s%s,b.str());}\n' % ("<<','<<".join('int(%s)' % d for d in v[2]), n, n, '[0]' * len(v[2]))
    if k == 'const':
        return '  vis::constStatic(e,".%s",%s::%s);\n' % (n, C, n)
    if k == 'method':
        if len(v) > 2:
            return '  {%s=&%s::%s; vis::method(e,".%s",o,f);}\n' % (v[2].replace('CLS::*', C + '::*f'), C, n, n)
        return '  vis::method(e,".%s",o,&%s::%s);\n' % (n, C, n)
    if k == 'static':
        return '  vis::staticMethod(e,".%s",&%s::%s);\n' % (n, C, n)
    if k == 'union':
        return '  {std::ostringstream b; b<<sizeof(o.%s); vis::array(e,".%s",reinterpret_cast<char&>(o.%s),b.str());}\n' % (n, n, n)
    raise ValueError(k)


def copy(c, **kw):
    n = Cls('')
    n.__dict__.update(vars(c))
    n.parts = list(c.parts)
    n.__dict__.update(kw)
    return n
