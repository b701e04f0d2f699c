"""Rewrites C++ source without changing what it says."""
import random, re

PP = re.compile(r'[ \t]*\#(?:[^\n\\]|\\.|\\\n)*', re.S)
TOK = re.compile(r'''(?P<com>//(?:[^\n\\]|\\.|\\\n)*|/\*.*?\*/)
|(?P<ws>(?:\s|\\\n)+)
|(?P<raw>(?:u8|[uUL])?R"(?P<d>[^()\\\s"]*)\(.*?\)(?P=d)")
|(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
|(?P<attr>\[\[.*?\]\])
|(?P<num>\.?[0-9](?:[eEpP][+-]|'?[A-Za-z0-9_.])*)
|(?P<id>[A-Za-z_]\w*)
|(?P<op><<=|>>=|\.\.\.|->\*|::|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\#\#|.)''', re.X | re.S)


def lex(text):
    """[(kind, text)], comments as ws"""
    res, pos, start = [], 0, True     # start: of a line
    while pos < len(text):
        m = PP.match(text, pos) if start else None
        k = 'pp'
        if not m:
            m = TOK.match(text, pos)
            k = m.lastgroup
        pos = m.end()
        if k == 'd':
            k = 'raw'
        if k == 'com':
            k = 'ws'
        start = '\n' in m.group() if k == 'ws' and not start else start and k in ('ws', 'pp') or k == 'pp'
        res.append((k, m.group()))
    return res


COMMENTS = ['/**/', '/* } */', '/* { */', '/* class Foo { */', "/* don't */", '/* " */', '/* // */', '/* a\n b { */', '// }\n', '// {\n', "// it's\n", '// "\n', '// struct A {int x;\n', '// /*\n', '/* * / */', '/***/', '/*/ } */', '// x \\\n }\n', '/* ; */',
            '// [[\n', '/* [[ */', '/* #pragma omit x */', '//\n', '/* \\ */', '/*****/', '// \xc3\xa9\n', '/* private: */', '/*class*/', '/* template < */']
PPS = ['#define JNK%d }', '#define JNK%d(x) {x', '#define JNK%d \\\n  struct Q {\\\n', '#if 1\n#endif', '#ifdef JNK%d\n#endif', '# define JNK%d "}"', '#define JNK%d /* {\n class { */ 1', '#undef JNK%d', "#define JNK%d '{'", '#define JNK%d class Foo {', '#ifndef JNK%d\n#define JNK%d\n#endif',
      '#define JNK%d // class {', '#line %d', '  #define JNK%d (', '#', '#pragma GCC poison jnk%d', '#define JNK%d [[', '#define JNK%d "//"', '#if 1 /* { */\n#else\n#endif // {', "#define JNK%d 'a' // don't", '#define JNK%d "/*"', '#define JNK%d // /*']


def space(r, must):
    k = r.random()
    if k < .35 and not must:
        return ''
    if k < .6:
        return r.choice([' ', ' ', '\n', '\t', '  ', '\r\n', '\n\n', '\f', '\v'])
    if k < .7:
        return r.choice([' \\\n', '\\\n ', ' \\\n\t'])
    if k < .93:
        return r.choice(['', ' ', '\n']) + r.choice(COMMENTS) + r.choice(['', ' ', '\n'])
    return '\n' + (r.choice(PPS).replace('%d', str(r.randrange(1, 10**6)))) + '\n'


def relayout(text, seed, density=.3, crlf=False):
    r = random.Random(seed)
    toks = [t for t in lex(text)]
    out = []
    prev = None
    hadws = False
    for k, t in toks:
        if k == 'ws':
            hadws = True
            continue
        if k == 'pp':
            out.append('\n' + t.strip(' ') + '\n')
            prev, hadws = None, False
            continue
        if prev is not None:
            merge = hadws
            if hadws and [x for x in lex(prev[1] + t)] == [prev, (k, t)] and not (prev[1] == '<' and t[0] == ':') and not (prev[1] == '[' and t == '['):
                merge = False
            if not hadws and (prev[1], t) in (('[', '['), (']', ']')):
                pass
            elif r.random() < density or (hadws and merge and r.random() < .5):
                s = space(r, merge)
                if s.startswith('/') and out[-1].endswith('/') or s.startswith('*') and out[-1].endswith('/'):
                    s = ' ' + s
                if prev[1] == '/' or (out[-1].endswith('\\')):
                    s = ' ' + s
                out.append(s)
            elif hadws:
                out.append(' ')
        out.append(t)
        prev, hadws = (k, t), False
    s = ''.join(out) + '\n'
    if crlf:
        s = s.replace('\r\n', '\n').replace('\n', '\r\n')
    return s


class Junk:
    """declarations at namespace scope that describe nothing"""
    def __init__(self, seed, std):
        self.r = random.Random(seed)
        self.std = std
        self.n = 0

    def one(self):
        r = self.r
        self.n += 1
        n = 'junk%d' % self.n
        f = ['int %s(int x);', 'inline int %s(int x) {return x;}', 'static const char* %s="}{;class X {";', "static char %s='{';", "static char %s='\\'';", 'typedef int %s;', 'typedef std::map<int,std::vector<int> > %s;', 'typedef int (*%s)(struct Outer*);',
             'extern int %s[3];', 'inline void %s() {struct Local {int a; void f() {}}; Local l; (void)l; class K {public: int z;}; enum {p,q}; enum E {s,t}; E e=s; (void)e;}', 'struct Outer %s(const struct Outer& x);', 'template <class T> T %s(T x) {return x;}',
             'template <class T, int N> struct Outer %s(T (&x)[N], class std::vector<T>* y=0);', 'using namespace std;', 'namespace %s {}', 'namespace %s {int x(); namespace y {inline int z() {struct W {int b;}; return W().b;}}}', 'extern "C" int %s(int);',
             'extern "C" {int %s(int); int %sb();}', 'namespace {int %s;}', 'namespace %s=outer;', 'template class Tmpl<%s*>;' if False else 'template struct Tmpl<short[%d]>;' % self.n, 'struct %s;', 'class %s;', 'template <class T> class %s;', 'static int %s[]={1,2,3};',
             'static struct Outer %s={1};', 'static int %s=(1,2);' if self.std != 'c++98' else 'static int %s=2;', 'inline bool operator==(const Tmpl<char[%d]>&, const Tmpl<char[%d]>&) {return true;}' % (self.n, self.n), 'static bool %s=1<2 && 3>2;', ';',
             'inline int %s(int x) {if (x) {return 1;} else {for (;;) {break;}} try {x++;} catch (...) {} return 0;}', 'extern struct Outer %s, *%sp;', 'static int %s=sizeof(struct Outer);', 'static unsigned %s=1e3;', 'static const char* %s="\\"}";', 'static const char* %s="\\\\";',
             'inline int %s() {const char* s="// {"; (void)s; /* } */ return 0;} // {', 'int (*%s(int))(int);', 'template <class T> void %s() {typename T::x y; struct Z {T t;};}', 'static const char* %s="/*";', 'static double %s=.5;', 'static const char* %s="a" "{" "b";', 'static int %s[2][2]={{1,2},{3,4}};',
             'enum Hue %s();', 'inline enum Hue %s(enum Hue x=red) {return x;}', 'static const char %s[]={\'"\',\'}\'};', 'static const char* %s="[[";']
        if self.std != 'c++98':
            f += ['static_assert(1,"{");', 'using %s=std::vector<int>;', 'template <class T> using %s=std::map<T,std::vector<T>>;', 'constexpr int %s=3;', 'inline auto %s() -> std::vector<std::vector<int>> {return {};}', 'static auto %s=[](int x) {struct L {int a;}; return L{x}.a;};',
                  'static std::vector<int> %s{1,2,3};', 'template <class... A> void %s(A... a) {}', 'static const char* %s=R"(})";', 'static const char* %s=R"x({ " class Y {)x";', '[[noreturn]] void %s();', 'inline namespace %s {}', 'static int %s{sizeof(struct Outer)};', 'static const char* %s=u8"}";',
                  'extern template struct Tmpl<long[%d]>;' % self.n, 'struct Outer %s() noexcept(true);', 'void* %s=nullptr;' if False else 'static void* %s=nullptr;', 'inline int %s() noexcept {class Q {int z;}; return 1;}', 'static const char* %s=R"(")";', 'alignas(16) static int %s;', 'inline decltype(auto) %s() {return 1;}' if self.std == 'c++17' else ';']
        if self.std == 'c++17':
            f += ["static int %s=1'000;", "static int %s=0x1'0;", 'namespace %s::b::c {inline int d() {return 1;}}', 'inline constexpr int %s=2;', "static long %s=1'000'000;"]
        t = r.choice(f)
        return t.replace('%s', n)

    def some(self, n=None):
        return '\n'.join(self.one() for i in range(self.r.choice([0, 1, 2, 4]) if n is None else n)) + '\n'
