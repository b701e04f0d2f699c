"""Classes with static data members, described plainly (namespace A) and through member pointers (namespace B), serialise alike (P20)."""
import random

TYPES = {'int': '%d', 'short': '%d', 'unsigned char': '%d', 'double': '%d.5', 'std::string': '"s%d"', 'bool': '%d>500', 'long long': '%dLL'}
EXTRA = ['std::vector<int>', 'std::map<int,std::string>', 'In']


class Gen:
    def __init__(self, seed, std, xsd):
        self.r = random.Random(seed)
        self.xsd = xsd       # not a friend of classes with private members
        self.std = std
        self.n = 0

    def cls(self):
        self.n += 1
        r = self.r
        ms = []
        for k in range(r.randrange(1, 8)):
            f = r.choice(['member', 'member', 'static', 'static', 'staticarray', 'array', 'const', 'method', 'mutable'])
            t = r.choice(list(TYPES) + (EXTRA if f in ('member', 'static') else []))
            ms.append((f, t, 'm%d_%d' % (self.n, k), r.randrange(1000)))
        return dict(name='K%d' % self.n, members=ms, base=r.random() < .3 and self.n > 1 and 'K%d' % r.randrange(1, self.n), access='struct' if self.xsd else r.choice(['struct', 'class', 'protected']))


def describe(c):
    return c['name'] + '{' + ' '.join('%s %s %s;' % (f, t, n) for f, t, n, v in c['members']) + '}' + (':' + c['base'] if c['base'] else '')


def decls(cs):
    d, names = '', [c['name'] for c in cs]
    o = ''
    for c in cs:
        q = ' : public %s' % c['base'] if c['base'] in names else ''
        d += '  struct %s%s {\n' % (c['name'], q) if c['access'] == 'struct' else '  class %s%s {\n    CLASSDESC_ACCESS(%s);\n  %s:\n' % (c['name'], q, c['name'], 'private' if c['access'] == 'class' else 'protected')
        fill = ''
        for f, t, n, v in c['members']:
            if f in ('member', 'mutable'):
                d += '    %s%s %s;\n' % ('mutable ' if f == 'mutable' else '', t, n)
            elif f == 'array':
                d += '    %s %s[3];\n' % (t, n)
            elif f == 'method':
                d += '    %s %s(int) const {typedef %s R; return R();}\n    static %s s%s(double) {typedef %s R; return R();}\n' % (t, n, t, t, n, t)
            elif f == 'const':
                d += '    static const %s %s;\n' % (t, n)
                o += '  const %s %s::%s=%s;\n' % (t, c['name'], n, TYPES[t] % v)
            elif f == 'static':
                d += '    static %s %s;\n' % (t, n)
                o += '  %s %s::%s;\n' % (t, c['name'], n)
            else:
                d += '    static %s %s[2];\n' % (t, n)
                o += '  %s %s::%s[2];\n' % (t, c['name'], n)
            if f in ('array', 'staticarray'):
                fill += ' fill(%s[0],%d+o); fill(%s[1],%d+o);%s' % (n, v, n, v + 1, ' fill(%s[2],o);' % n if f == 'array' else '')
            elif f in ('member', 'mutable', 'static'):
                fill += ' fill(%s,%d+o);' % (n, v)
        d += '  public:\n    void init(int o) {%s%s}\n' % ('%s::init(o);' % c['base'] if q else '', fill)
        d += '    int print(int o) {return 0;}\n  };\n'
    return d, o


SUPPORT = '''
inline void fill(int& x, int v) {x=v;} inline void fill(short& x, int v) {x=v;} inline void fill(unsigned char& x, int v) {x=v;}
inline void fill(double& x, int v) {x=v+.5;} inline void fill(bool& x, int v) {x=v&1;} inline void fill(long long& x, int v) {x=v*123456789LL;}
inline void fill(std::string& x, int v) {x=std::string(v%5,'a'+v%26);}
inline void fill(std::vector<int>& x, int v) {x.assign(v%4,v);}
inline void fill(std::map<int,std::string>& x, int v) {x.clear(); for (int i=0; i<v%3; ++i) x[v+i]=std::string(i,'z');}
'''
MAIN = r'''#include "classdesc_access.h"
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include "pack_base.h"
#include "pack_stl.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "xsd_generate_base.h"
%s
namespace A {
#include "a.h"
}
namespace B {
#include "b.h"
}
#include "a.cd"
#include "b.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
std::string bytes(const pack_t& b) {return std::string(b.data(),b.size());}
std::string xml(const std::string& s) // without the names of the two namespaces
{std::string t=s; for (size_t p; (p=t.find("__A__"))!=std::string::npos || (p=t.find("__B__"))!=std::string::npos;) t.erase(p,5); return t;}
int bad(const char* n, const char* what, std::string a, std::string b)
{
  for (size_t p; (p=a.find('\n'))!=std::string::npos;) a[p]=' ';
  for (size_t p; (p=b.find('\n'))!=std::string::npos;) b[p]=' ';
  size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) ++i;
  if (i>100) {a=a.substr(i-60); b=b.substr(i-60);}
  std::cout<<n<<": "<<what<<" differ: "<<a<<" and through member pointers "<<b<<std::endl; return 1;}
template <class X, class Y> int test(const char* n)
{
  for (int o=0; o<3; ++o)
    {
      X x; Y y; x.init(o); y.init(o);
      pack_t p, q; p<<x; q<<y;
      if (bytes(p)!=bytes(q)) {std::ostringstream s, t; s<<p.size(); t<<q.size(); return bad(n,"bytes",s.str(),t.str());}
      std::ostringstream s, t;
      {xml_pack_t u(s), v(t); xml_pack(u,"doc",x); xml_pack(v,"doc",y);}
      if (xml(s.str())!=xml(t.str())) return bad(n,"documents",s.str(),t.str());
#ifdef XSD
      xsd_generate_t g, h; xsd_generate(g,"root",x); xsd_generate(h,"root",y);
      std::ostringstream s1, t1; g.output(s1,"urn:n"); h.output(t1,"urn:n");
      if (xml(s1.str())!=xml(t1.str())) return bad(n,"schemas",s1.str(),t1.str());
#endif
      // reading: first into other values
      x.init(o+1); y.init(o+1);
      p>>x; q>>y;
      if (p.pos()!=p.size() || q.pos()!=q.size()) return bad(n,"what is left","","");
      pack_t p1, q1; p1<<x; q1<<y;
      if (bytes(p1)!=bytes(p)) return bad(n,"the round trip through bytes","","");
      if (bytes(q1)!=bytes(q)) return bad(n,"the round trip through bytes","","");
      x.init(o+2); y.init(o+2);
      std::istringstream is(s.str()), it(t.str());
      xml_unpack_t u(is), v(it); xml_unpack(u,"doc",x); xml_unpack(v,"doc",y);
      pack_t p2, q2; p2<<x; q2<<y;
      if (bytes(p2)!=bytes(q2)) return bad(n,"what is read","","");
      if (bytes(p2)!=bytes(p)) return bad(n,"the round trip through XML","","");
    }
  return 0;
}
int main()
{
%s  return 0;
}
'''


def program(cs, std, flags, xsd):
    d, o = decls(cs)
    ins = '  struct In {int a; std::string b;};\n  inline void fill(In& x, int v) {x.a=v; ::fill(x.b,v);}\n  using ::fill;\n'
    src = {'main.cc': MAIN % (SUPPORT, ''.join('  if (test<A::%s,B::%s>("%s")) return 1;\n' % ((c['name'],) * 3) for c in cs))}
    for n in 'ab':
        src[n + '.h'] = ins + d + o
        src['n%s.h' % n] = 'namespace %s {\n%s}\n' % (n.upper(), ins + d)
    ds = ['pack', 'unpack', 'xml_pack', 'xml_unpack'] + ['xsd_generate'] * xsd
    return dict(name='st', sources=src, std=std, xdr=True, flags=['-DXSD'] * xsd, cds=[('a.cd', ['-nodef', '-typeName'] + flags + ['-i', 'na.h'] + ds), ('b.cd', ['-nodef', '-typeName', '-use_mbr_pointers'] + flags + ['-i', 'nb.h'] + ds)])
