"""Programs about classdesc::Exclude."""
import random, re

# type -> initial value, another value
FUND = {'int': ['3', '-17'], 'unsigned': ['5u', '77u'], 'long': ['100000L', '-2L'], 'double': ['1.5', '-2.25'], 'float': ['0.5f', '3.25f'], 'bool': ['true', 'false'], 'char': ["'x'", "'y'"], 'short': ['short(3)', 'short(9)'], 'E': ['e1', 'e2'],
        'unsigned char': ['(unsigned char)200', '(unsigned char)7']}
CLS = {'std::string': ['std::string("abc")', 'std::string("a longer string than would fit into the object itself")'], 'std::vector<int>': ['vec(3)', 'vec(7)'], 'Sub': ['Sub(4)', 'Sub(5)'], 'std::map<int,std::string>': ['mp(2)', 'mp(3)'],
       'std::vector<Sub>': ['std::vector<Sub>(2,Sub(1))', 'std::vector<Sub>(1,Sub(3))']}
PTR = {'int*': ['gints', 'gints+3'], 'Opaque*': ['&gopaque[0]', '&gopaque[1]'], 'const char*': ['"p"', '"q"'], 'Sub*': ['&gsub[0]', '&gsub[1]']}
OPAQUE = {'Opaque': ['Opaque(1)', 'Opaque(2)'], 'std::vector<Opaque>': ['std::vector<Opaque>(2,Opaque(3))', 'std::vector<Opaque>(1,Opaque(4))']}

TYPES = '''#ifndef TYPES_H
#define TYPES_H
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include "opaque.h"
#include "classdesc_access.h"
#include "classdesc.h"
using classdesc::Exclude;
enum E {e0,e1,e2};
struct Sub
{
  int s;
  std::vector<int> v;
  Sub(int s=0): s(s), v(s,s) {}
  bool operator==(const Sub& x) const {return s==x.s && v==x.v;}
  int twice() const {return 2*s;}
};
%s
#endif
'''
OPAQUE_H = '''#ifndef OPAQUE_H
#define OPAQUE_H
#include <vector>
// nothing is known about this class to classdesc
struct Opaque
{
  int x; char* p; std::vector<int*> q;
  explicit Opaque(int x=0): x(x), p(0) {}
  bool operator==(const Opaque& y) const {return x==y.x && p==y.p && q==y.q;}
};
#endif
'''
MAIN = '''#include "types.h"
%s
#include "classdesc_epilogue.h"
#include <fstream>
#include <algorithm>
#include <cstdlib>
int gints[10]={10,11,12,13,14,15,16,17,18,19};
Opaque gopaque[2];
Sub gsub[2]={Sub(1),Sub(2)};
std::vector<int> vec(int n) {std::vector<int> r; for (int i=0; i<n; ++i) r.push_back(i*i); return r;}
std::map<int,std::string> mp(int n) {std::map<int,std::string> r; for (int i=0; i<n; ++i) r[i]="v"; return r;}
#define CHECK(x) if (!(x)) {std::cout<<"not true: "<<#x<<std::endl; return 1;}
std::string replaced(std::string s, const std::string& a, const std::string& b)
{for (size_t i=0; (i=s.find(a,i))!=std::string::npos; i+=b.size()) s.replace(i,a.size(),b); return s;}
int differ(const std::string& a, const std::string& b, const std::string& what)
{
  if (a==b) return 0;
  size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) ++i;
  size_t j=i>60? i-60: 0;
  std::string m=what+": ..."+a.substr(j,160)+" without excluded members: ..."+b.substr(j,160);
  for (i=0; i<m.size(); ++i) if (m[i]=='\\n') m[i]=' ';
  std::cout<<m<<std::endl;
  return 1;
}
// the types of a schema may come in any order
std::string blocks(const std::string& s)
{
  std::vector<std::string> b;
  for (size_t i=0, j; i<s.size(); i=j)
    {
      j=s.find("<xs:complexType",i+1);
      if (j==std::string::npos) j=s.size();
      b.push_back(s.substr(i,j-i));
    }
  std::string last=b.back().substr(b.back().find("</xs:complexType>")==std::string::npos? 0: b.back().find("</xs:complexType>"));
  b.back().resize(b.back().size()-last.size());
  b.back()+="</xs:complexType> ";
  std::string r;
  for (size_t i=0; i<b.size(); ++i) {std::string t; for (size_t k=0; k<b[i].size(); ++k) if (!isspace(b[i][k])) t+=b[i][k]; b[i]=t;}
  std::sort(b.begin(),b.end());
  for (size_t i=0; i<b.size(); ++i) r+=b[i];
  return r+last;
}
template <class W, class P> int text(const W& w, const P& p, const std::string& wn, const std::string& pn)
{
  W cw(w); P cp(p);
  {
    std::ostringstream a, b;
    {classdesc::xml_pack_t x(a); ::xml_pack(x,"root",cw);}
    {classdesc::xml_pack_t x(b); ::xml_pack(x,"root",cp);}
    if (differ(replaced(a.str(),wn,pn),b.str(),"XML of "+wn)) return 1;
  }
  {
    std::ostringstream a, b;
    classdesc::dump_t x(a), y(b);
    ::dump(x,"root",cw); ::dump(y,"root",cp);
    if (differ(replaced(a.str(),wn,pn),b.str(),"dump of "+wn)) return 1;
  }
  {
    std::ostringstream a, b;
    classdesc::xsd_generate_t x, y;
    ::xsd_generate(x,"root",cw); ::xsd_generate(y,"root",cp);
    x.output(a,"http://x"); y.output(b,"http://x");
    if (differ(blocks(replaced(a.str(),wn,pn)),blocks(b.str()),"schema of "+wn)) return 1;
  }
  %s
  return 0;
}
template <class W, class P> int binary(const W& w, const P& p, const std::string& wn)
{
  classdesc::pack_t a, b;
  W cw(w); P cp(p);
  ::pack(a,"",cw); ::pack(b,"",cp);
  if (a.size()!=b.size() || (a.size() && memcmp(a.data(),b.data(),a.size()))) {std::cout<<"packed form of "<<wn<<" ("<<a.size()<<" bytes) is not that without excluded members ("<<b.size()<<" bytes)"<<std::endl; return 1;}
  return 0;
}
%s
int main()
{
  int r=0;
%s
  return r;
}
'''
JSON = '''{
    std::string a=json(cw), b=json(cp);
    if (differ(replaced(a,wn,pn),b,"JSON of "+wn)) return 1;
  }'''

DESCR = ['pack', 'unpack', 'xml_pack', 'xml_unpack', 'dump', 'random_init', 'xsd_generate']


class Gen:
    def __init__(self, seed, std):
        self.r = random.Random(seed)
        self.std = std
        self.n = 0

    def klass(self):
        """a piece: dict of class text with and without excluded members, and statements"""
        r = self.r
        self.n += 1
        W, P = 'W%dclass' % self.n, 'P%dclass' % self.n
        ms = []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            ex = r.random() < .5
            pool = dict(FUND)
            pool.update(CLS)
            if ex:
                pool.update(PTR)
                pool.update(OPAQUE)
            t = r.choice(sorted(pool))
            a = r.choice([None, None, None, 2, 3]) if not ex else None
            ms.append((ex, t, r.choice(['m', 'x_', 'M']) + str(i), pool[t], a))
        return dict(kind='class', W=W, P=P, ms=ms, key=r.choice(['struct', 'class']))

    def ops(self, t=None):
        """a piece: random operations on an Exclude<t> and on a t"""
        r = self.r
        pool = dict(FUND)
        pool.update(CLS)
        pool.update(PTR)
        pool.update(OPAQUE)
        t = t or r.choice(sorted(pool))
        v = lambda: r.choice(pool[t])
        ops = ['X=%s;' % v(), 'X=%s;' % v(), '{X_T q=X; R=(q==%s);}' % v(), 'R=(X==%s);' % v(), 'R=(X!=%s);' % v() if 'Sub' not in t and 'map' not in t and 'Opaque' not in t else 'R=(X==%s);' % v(), '{X_E y(X); y=%s; R=(X==%s);}' % (v(), v()), '{X_E y; y=X; R=(y==%s);}' % v(),
               '{X_E y(%s); X=y;}' % v(), '{std::vector<X_E > y(2,X); y[1]=%s; X=y[0];}' % v(), 'R=takes<X_T >(X);']
        if '*' not in t:
            ops += ['{X_T& q=X; q=%s;}' % v(), '{const X_T& q=X; R=(q==%s);}' % v()]
        else:
            ops += ['{X_T q=X; R=(q!=%s);}' % v()]
        num = lambda: str(r.choice([1, 2, 3, 5, 7]))
        if t in ('int', 'unsigned', 'long', 'double', 'float'):
            c = 't%s' % ''
            ops += ['R=double(X%sX_T(%s));' % (o, num()) for o in '+-*/'] + ['R=double(X%s=X_T(%s));' % (o, num()) for o in '+-/'] + ['R=double(X_T(%s)%sX_T(X));' % (num(), o) for o in '+-*'] + ['R=double(-X_T(X));', '++X;', 'R=double(X++);', 'R=(X_T(X)<X_T(3));', 'R=X? 1:2;', 'R=double(X);', 'R=double(%s+X);' % num(), 'R=double(X+X);', 'R=double(X*X);']
            if t not in ('double', 'float'):
                ops += ['R=(X%%X_T(%s));' % num(), 'X%%=X_T(%s);' % num(), 'R=double(X%%=X_T(%s));' % num()]
        if t == 'bool':
            ops += ['R=X? 1:2;', 'R=!X;', 'R=(X&&true);', 'R=(X||false);', 'R=(X&=true);', 'R=(X|=true);', 'X|=false; ', 'X&=false;', 'R=(X==true);']
        if t == 'std::string':
            ops += ['X+="a";', 'R=X.size();', 'R=X.find("b");', 'X[0]=\'c\';', 'X="zebra";', 'R=(X=="zebra");', 'X.insert(0,"q");', 'R=(std::string(X)+"a").size();', 'X=std::string(X).substr(1)+"a";']
        if t == 'std::vector<int>':
            ops += ['X.push_back(3);', 'X.push_back(X.size());', 'R=X.size();', 'X.resize(4);', 'X[0]=3;', 'R=X.back();', 'X.insert(X.begin(),2);']
        if t == 'Sub':
            ops += ['X.s=3;', 'R=X.twice();', 'X.v.push_back(2);', 'R=X.v.size();']
        if t == 'std::map<int,std::string>':
            ops += ['X[5]="x";', 'R=X.size();', 'R=X.count(1);', 'X.erase(1);']
        if t == 'int*':
            ops += ['R=*X;', 'R=*(X+2);', 'R=*(2+X);', 'R=X-gints;', 'R=gints-X;', 'R=(X==gints);', 'R=(X!=gints);', '*X=int(%s);' % num(), 'R=X? 1:2;', 'X=X+1; X=gints;']
        if t == 'Sub*':
            ops += ['R=X->s;', 'R=(*X).twice();', 'X->s=3;', 'R=X->v.size();']
        if '*' in t:
            ops += ['X=(X_T)0; R=(X==(X_T)0); X=%s;' % v(), 'X=(X_T)0; X=%s;' % v()]
            if self.std != 'c++98':
                ops += ['X=nullptr; R=(X==nullptr); X=%s;' % v()]
        out = [r.choice(ops) for i in range(r.choice([4, 8, 16]))]
        return dict(kind='ops', t=t, init=v(), ops=out)


def program(pieces, std):
    classes, funcs, body = '', '', ''
    json = std == 'c++17'
    for k, p in enumerate(pieces):
        if p['kind'] == 'ops':
            t = p['t']
            f = 'int ops%d()\n{\n  %s before=%s; Exclude<%s > e(before); %s t(before); double r1, r2;\n' % (k, t, p['init'], t, t)
            for o in p['ops']:
                o1 = o.replace('X_E', 'Exclude<%s >' % t).replace('X_T', t)
                o2 = o.replace('X_E', t).replace('X_T', t)
                sub = lambda s, x, rr: re.sub(r'\bR\b', rr, re.sub(r'\bX\b', x, s))
                f += '  r1=r2=0; {%s} {%s} if (r1!=r2 || !(e==t)) {std::cout<<"Exclude<%s > differs after %s: "<<r1<<" rather than "<<r2<<std::endl; return 1;}\n' % (sub(o1, 'e', 'r1'), sub(o2, 't', 'r2'), t, o.replace('"', "'"))
            funcs += f + '  return 0;\n}\n'
            body += '  r|=ops%d();\n' % k
            continue
        W, P = p['W'], p['P']
        for C, full in ((W, True), (P, False)):
            classes += '%s %s\n{\n%s' % (p['key'], C, 'public:\n' if p['key'] == 'class' else '')
            for ex, t, n, vs, a in p['ms']:
                if ex and not full:
                    continue
                classes += '  %s %s%s;\n' % ('Exclude<%s >' % t if ex else t, n, '[%d]' % a if a else '')
            classes += '};\n'
        f = 'int class%d()\n{\n  %s w, w2; %s p;\n' % (k, W, P)
        cmp1, cmp2 = '', ''
        for ex, t, n, vs, a in p['ms']:
            for i in range(a or 1):
                s = '[%d]' % i if a else ''
                f += '  w.%s%s=%s; w2.%s%s=%s;\n' % (n, s, vs[i % 2], n, s, vs[(i + 1) % 2])
                if not ex:
                    f += '  p.%s%s=%s;\n' % (n, s, vs[i % 2])
                    cmp1 += '  CHECK(w2.%s%s==w.%s%s);\n' % (n, s, n, s)
                else:
                    cmp2 += '  CHECK(w2.%s%s==%s);\n' % (n, s, vs[(i + 1) % 2])
        f += '  if (text(w,p,"%s","%s") || binary(w,p,"%s")) return 1;\n' % (W, P, W)
        f += '  {classdesc::pack_t b; ::pack(b,"",w); ::unpack(b,"",w2);}\n' + cmp1 + cmp2
        reset = ''.join('  w2.%s%s=%s;\n' % (n, '[%d]' % i if a else '', vs[(i + 1) % 2]) for ex, t, n, vs, a in p['ms'] for i in range(a or 1))
        f += reset + '  {std::ostringstream o; {classdesc::xml_pack_t x(o); ::xml_pack(x,"root",w);} std::istringstream i(o.str()); classdesc::xml_unpack_t u(i); ::xml_unpack(u,"root",w2);}\n' + cmp1 + cmp2
        if json:
            f += reset + '  {classdesc::json_pack_t j; ::json_pack(j,"",w); std::ostringstream o; write(j,o); std::istringstream i(o.str()); classdesc::json_unpack_t u; read(i,u); ::json_unpack(u,"",w2);}\n' + cmp1 + cmp2
        f += reset + '  {classdesc::random_init_t i; ::random_init(i,"",w2);}\n' + cmp2 + '  return 0;\n}\n'
        funcs += f
        body += '  r|=class%d();\n' % k
    descr = DESCR + (['json_pack', 'json_unpack'] if json else [])
    funcs = 'template <class T> double takes(T x) {return sizeof(x);}\n' + funcs
    main = MAIN % ('#include "json_pack_base.h"\ntemplate <class T> std::string json(T& x);\n#include "types.cd"\ntemplate <class T> std::string json(T& x) {classdesc::json_pack_t j; ::json_pack(j,"",x); std::ostringstream o; write(j,o); return o.str();}' if json else '#include "types.cd"', JSON if json else '', funcs, body)
    return dict(name='excl', sources={'main.cc': main, 'types.h': TYPES % classes, 'opaque.h': OPAQUE_H}, cds=[('types.cd', ['-nodef', '-typeName', '-i', 'types.h'] + descr)], std=std, flags=['-fsanitize=undefined'], asan=True, xdr=True)
