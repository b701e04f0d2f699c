"""Random hierarchies of polymorphic classes for P22."""
import json, random

FIELDS = ['int', 'double', 'bool', 'std::string', 'std::vector<int>', 'std::map<std::string,int>', 'long', 'Colour', 'Rec', 'char']
VALUES = {'int': ['-3', '2147483647', '17'], 'double': ['0.5', '-1e10', '3'], 'bool': ['true', 'false'], 'std::string': ['std::string("a b")', 'std::string("x<y&z")', 'std::string(40,\'q\')'],
          'std::vector<int>': ['std::vector<int>(3,-4)', 'std::vector<int>()', 'std::vector<int>(1,9)'], 'std::map<std::string,int>': ['mapOf("k",1)', 'mapOf("long key",-7)'], 'long': ['-5000000000L', '12L'],
          'Colour': ['red', 'green', 'blue'], 'Rec': ['rec(4,"r")', 'rec(-1,"ss")'], 'char': ["'x'", "'Q'"]}
DEFAULT = {'int': '0', 'double': '0', 'bool': 'false', 'long': '0', 'Colour': 'red', 'char': "'a'"}
SMART = ['CD shared_ptr<object>', 'std::vector<CD shared_ptr<object> >', 'std::map<int,CD shared_ptr<object> >']


class Gen:
    def __init__(self, seed, std, style):
        self.r, self.std, self.style, self.n = random.Random(seed), std, style, 0
        r = self.r
        self.idty = r.choice(['std::string', 'int']) if style != 'old' else 'int'
        self.ownids = self.idty == 'int' or r.random() < .4
        self.classes = []

    def klass(self):
        r = self.r
        n = self.n
        self.n += 1
        c = dict(name='K%d' % n, base=r.choice(self.classes)['name'] if self.classes and r.random() < .45 else None, fields=[], registered=r.random() < .85)
        for i in range(r.randrange(0, 5)):
            c['fields'].append([('f%d_%d' % (n, i)), r.choice(FIELDS)])
        if self.style != 'old' and r.random() < .35:
            c['fields'].insert(r.randrange(len(c['fields']) + 1), ['s%d' % n, r.choice(SMART)])
        if self.idty == 'int':
            c['id'] = str(r.choice([n, 1000 + n, -n - 1]))
        else:
            c['id'] = json.dumps(r.choice(['K%d', 'kind %d', 'a<%d>', 'x&%d', '%d', '"%d"', 'a::b%d']) % n) if self.ownids else None
        c['alias'] = None
        if self.style != 'old' and r.random() < .2:
            c['alias'] = '%d' % (5000 + n) if self.idty == 'int' else '"alias of %d"' % n
        self.classes.append(c)
        return c


def closure(pieces, allc):
    by = {c['name']: c for c in allc}
    want = []

    def add(c):
        if c['base']:
            add(by[c['base']])
        if c not in want:
            want.append(c)
    for c in pieces:
        add(c)
    return want


def describe(c):
    return '%s%s {%s}' % (c['name'], ':' + c['base'] if c['base'] else '', ' '.join('%s %s;' % (t, n) for n, t in c['fields'])) + ('' if c['registered'] else ' (not registered)')


PRELUDE = r'''
#include <string>
#include <vector>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <iostream>
#include <typeinfo>
'''
RECORDS = r'''
enum Colour {red, green=7, blue};
struct Rec {int a; std::string b; Rec(): a(0) {}};
inline Rec rec(int a, const char* b) {Rec r; r.a=a; r.b=b; return r;}
inline std::map<std::string,int> mapOf(const char* k, int v) {std::map<std::string,int> m; m[k]=v; return m;}
'''
SHOW = r'''
#ifndef SHOW_H
#define SHOW_H
template <class T> std::string show(const T& x) {std::ostringstream o; o.precision(17); o<<x<<","; return o.str();}
inline std::string show(const std::vector<int>& x) {std::string r("["); for (size_t i=0; i<x.size(); ++i) r+=show(x[i]); return r+"]";}
inline std::string show(const std::map<std::string,int>& x) {std::string r("{"); for (std::map<std::string,int>::const_iterator i=x.begin(); i!=x.end(); ++i) r+=i->first+":"+show(i->second); return r+"}";}
inline std::string show(const Rec& x) {return "("+show(x.a)+x.b+")";}
inline std::string show(Colour x) {return show(int(x));}
template <class T> std::string show(const CD shared_ptr<T>& x) {return x.get()? x->show(): std::string("null,");}
#if __cplusplus>=201103L
template <class T> std::string show(const std::unique_ptr<T>& x) {return x.get()? x->show(): std::string("null,");}
#endif
template <class T> std::string show(const std::vector<T>& x) {std::string r("["); for (size_t i=0; i<x.size(); ++i) r+=show(x[i]); return r+"]";}
template <class T> std::string show(const std::list<T>& x) {std::string r("["); for (typename std::list<T>::const_iterator i=x.begin(); i!=x.end(); ++i) r+=show(*i); return r+"]";}
template <class K, class V> std::string show(const std::map<K,V>& x) {std::string r("{"); for (typename std::map<K,V>::const_iterator i=x.begin(); i!=x.end(); ++i) r+=show(i->first)+":"+show(i->second); return r+"}";}
#endif
'''


def used(pieces, allc):
    return closure(pieces, allc)


def header(cs, g, std):
    """the classes, in one of the two styles of the examples"""
    style, idty = g.style, g.idty
    o = ['#ifndef TYPES_H', '#define TYPES_H', PRELUDE]
    if style == 'old':
        o.append('#include "poly.h"')
    else:
        o += ['#include "polyBase.h"', '#include "polyPackBase.h"', '#include "polyXMLBase.h"', '#include "factory.h"', '#include "xml_pack_base.h"']
    o += ['#define CD classdesc::', RECORDS]
    if style != 'old':
        o.append('struct object: public classdesc::PolyBase<%s>, virtual public classdesc::PolyPackBase, virtual public classdesc::PolyXMLBase\n{\n  static object* create(const %s&);\n  virtual std::string show() const=0;\n};' % (idty, idty))
    o.append('#include "show.h"')
    if style == 'mixin':
        o.append('template <class T>\nstruct Object: public classdesc::Poly<T,object>, public classdesc::PolyPack<T>, public classdesc::PolyXML<T>\n{\n  %s type() const;\n};' % idty)
    elif style == 'layered':
        o.append('''template <class T, class S=object>
struct Object: public S
{
  %s type() const;
  Object* clone() const {return new T(*static_cast<const T*>(this));}
  void pack(classdesc::pack_t& x, const classdesc::string& d) const {::pack(x,d,static_cast<const T&>(*this));}
  void unpack(classdesc::unpack_t& x, const classdesc::string& d) {::unpack(x,d,static_cast<T&>(*this));}
  void xml_pack(classdesc::xml_pack_t& x, const classdesc::string& d) const {::xml_pack(x,d,static_cast<const T&>(*this));}
  void xml_unpack(classdesc::xml_unpack_t& x, const classdesc::string& d) {::xml_unpack(x,d,static_cast<T&>(*this));}
};''' % idty)
    else:
        o.append('struct Top: public classdesc::Object<Top> {int top; Top(): top(0) {} virtual std::string show() const {return "Top"+::show(top);}};')
    for c in cs:
        n, b = c['name'], c['base']
        fields = ['  %s %s;' % (t, f) for f, t in c['fields']]
        init = ', '.join('%s(%s)' % (f, DEFAULT[t]) for f, t in c['fields'] if t in DEFAULT)
        body = ''.join('+::show(%s)' % f for f, t in c['fields'])
        if style == 'mixin':
            o.append('struct %s_b%s\n{\n%s\n  %s_b()%s {}\n  std::string fields() const {return std::string(%s)%s;}\n};' % (n, ': public %s_b' % b if b else '', '\n'.join(fields), n, ': ' + init if init else '', '%s_b::fields()' % b if b else '', body))
            o.append('struct %s: public %s_b, public Object<%s> {std::string show() const {return "%s{"+fields()+"}";}};' % (n, n, n, n))
        else:
            if style == 'layered':
                base = 'Object<%s%s>' % (n, ',' + b if b else '')
            else:
                base = 'classdesc::Object<%s,%s>' % (n, b or 'Top')
            parent = b or ('Top' if style == 'old' else None)
            o.append('struct %s: public %s\n{\n%s\n  %s()%s {}\n  std::string show() const {return "%s{"+%s%s+"}";}\n};' % (n, base, '\n'.join(fields), n, ': ' + init if init else '', n, '%s::show()' % parent if parent else 'std::string()', body))
    if style != 'old':
        o.append('struct Holder\n{\n  int before; CD shared_ptr<object> one; std::string middle; std::vector<CD shared_ptr<object> > many;\n  std::map<std::string,CD shared_ptr<object> > named; std::list<CD shared_ptr<object> > line;%s\n  int after;\n  Holder(): before(0), after(0) {}\n};'
                 % (' std::unique_ptr<object> own;' if std >= 'c++11' and std != 'c++98' else ''))
        o.append('struct Watcher {int before; CD weak_ptr<object> w; CD weak_ptr<Rec> wr; int after; Watcher(): before(0), after(0) {}};')
    else:
        o.append('struct Holder\n{\n  int before; CD shared_ptr<Top> one; std::string middle; std::vector<CD shared_ptr<Top> > many;\n  int after;\n  Holder(): before(0), after(0) {}\n};')
    o += ['#endif', '']
    return '\n'.join(o)


MAIN = r'''
int fails=0;
const char* piece="";
void bad(const std::string& m) {std::cout<<piece<<": "<<m<<std::endl; fails++;}
typedef classdesc::Factory<object,Id> F;
unsigned rnd_=SEED;
unsigned rnd(unsigned n) {rnd_=rnd_*1103515245u+12345u; return (rnd_>>16)%n;}
template <class S> std::string str(const S& x) {std::ostringstream o; o<<x; return o.str();}
// an object of one of the registered classes
object* any(int depth);
classdesc::shared_ptr<object> some(int depth, bool nulls) {if (nulls && rnd(4)==0) return classdesc::shared_ptr<object>(); return classdesc::shared_ptr<object>(any(depth));}
#if __cplusplus>=201103L
void some(std::unique_ptr<object>& p, bool nulls) {p.reset(nulls && rnd(4)==0? 0: any(1));}
#endif
void smart(classdesc::shared_ptr<object>& x, int depth, bool) {if (depth>0 && rnd(3)) x.reset(any(depth-1)); else x.reset();}
void smart(std::vector<classdesc::shared_ptr<object> >& x, int depth, bool) {x.clear(); if (depth>0) for (unsigned n=rnd(4); n; --n) x.push_back(some(depth-1,false));}
void smart(std::map<int,classdesc::shared_ptr<object> >& x, int depth, bool) {x.clear(); if (depth>0) for (unsigned n=rnd(3); n; --n) x[rnd(50)-20]=some(depth-1,false);}

template <class T> void factoryTest(const F& f, const Id& id, const char* name)
{
  try
    {
      std::unique_ptr_<object> a(f.create(id)), b(f.create(id));
      if (!a.get() || typeid(*a)!=typeid(T)) bad("the factory creates another class for "+std::string(name));
      if (a.get()==b.get()) bad("the factory creates an object only once");
      if (a->show()!=T().show()) bad("the object created is "+a->show()+" instead of "+T().show());
      std::unique_ptr_<object> c(object::create(id));
      if (typeid(*c)!=typeid(T)) bad("object::create");
    }
  catch (const std::exception& e) {bad(std::string("factory: ")+e.what());}
}
void unknown(const F& f, const Id& id)
{
  object* volatile p=0;
  bool thrown=false;
  try {p=f.create(id);}
  catch (const F::InvalidType& e) {thrown=true; if (std::string(e.what()).find(str(id))==std::string::npos) bad("what() of InvalidType does not name the type: "+std::string(e.what()));}
  catch (const std::exception& e) {bad(std::string("unknown id throws something else: ")+e.what()); thrown=true;}
  if (!thrown) bad("id which is not registered gives an object"+(p? p->show(): std::string()));
}
template <class T> void cloneTest()
{
  T x; fill(x,1);
  const std::string s=x.show();
  const object& o=x;
  std::unique_ptr_<object> c(dynamic_cast<object*>(o.clone()));
  if (!c.get() || typeid(*c)!=typeid(T)) {bad("clone has another type"); return;}
  if (c->show()!=s) bad("clone is "+c->show()+" instead of "+s);
  if (c->type()!=x.type()) bad("clone has another type id");
  // independent of the original
  fill(dynamic_cast<T&>(*c),2);
  if (x.show()!=s) bad("changing the clone changes the original");
  const std::string cs=c->show();
  fill(x,0);
  if (c->show()!=cs) bad("changing the original changes the clone");
  std::unique_ptr_<T> t(o.template cloneT<T>());
  if (!t.get() || t->show()!=x.show()) bad("cloneT");
  std::unique_ptr_<object> ot(o.template cloneT<object>());
  if (!ot.get() || typeid(*ot)!=typeid(T) || ot->show()!=x.show()) bad("cloneT<object>");
}
template <class T, class U> void cloneTTest()
{
  T x; fill(x,1);
  const object& o=x;
  bool isa=dynamic_cast<const U*>(&o)!=0;
  std::unique_ptr_<U> u(o.template cloneT<U>());
  if (bool(u.get())!=isa) bad(std::string("cloneT to ")+typeid(U).name()+(isa? " gives null": " does not give null"));
  else if (isa && dynamic_cast<object*>(u.get())->show()!=x.show()) bad("cloneT to a base changes the object");
}
template <class T> void binary(const T& x, T& y, const char* what, bool reuse=true)
{
  try
    {
      classdesc::pack_t b; b<<x<<std::string("marker");
      std::string m;
      const std::string s=show(x);
      classdesc::unpack_t b1; b1.packraw(b.data(),b.size()); b1>>y>>m;
      if (show(y)!=s) bad(std::string("binary ")+what+" gives "+show(y)+" from "+s);
      if (m!="marker") bad(std::string("binary ")+what+" leaves the stream elsewhere");
      if (show(x)!=s) bad("packing changes it");
      // and packs to the same bytes again
      classdesc::pack_t c; c<<y<<m;
      if (c.size()!=b.size() || memcmp(c.data(),b.data(),b.size())) bad(std::string("binary ")+what+" is packed otherwise afterwards");
    }
  catch (const std::exception& e) {bad(std::string("binary ")+what+" throws "+e.what());}
}
template <class T> void xml(T& x, T& y, const char* what)
{
  const std::string s=show(x);
  std::stringstream o;
  try
    {
      {classdesc::xml_pack_t t(o); ::xml_pack(t,"root",x);}
      classdesc::xml_unpack_t t(o); ::xml_unpack(t,"root",y);
      if (show(y)!=s) bad(std::string("XML ")+what+" gives "+show(y)+" from "+s+" by "+o.str());
    }
  catch (const std::exception& e) {bad(std::string("XML ")+what+" throws "+e.what()+" for "+o.str());}
}
std::string show(const Holder& h)
{
  return show(h.before)+show(h.one)+h.middle+show(h.many)+show(h.named)+show(h.line)+
#if __cplusplus>=201103L
    show(h.own)+
#endif
    show(h.after);
}
void fillHolder(Holder& h, bool nulls)
{
  h.before=rnd(1000); h.after=rnd(1000); h.middle=std::string(rnd(6),'m');
  h.one=some(2,true);
  h.many.clear(); h.named.clear(); h.line.clear();
  for (unsigned n=rnd(5); n; --n) h.many.push_back(some(2,nulls));
  for (unsigned n=rnd(4); n; --n) h.named["k"+str(rnd(20))]=some(1,nulls);
  for (unsigned n=rnd(4); n; --n) h.line.push_back(some(1,nulls));
#if __cplusplus>=201103L
  some(h.own,true);
#endif
}
template <class C> void foreign(const C& c, Holder& h)
{
  // bytes naming a class which is not registered
  classdesc::pack_t b;
  b<<true<<Id(c);
  classdesc::shared_ptr<object> p=some(0,false);
  bool thrown=false;
  try {b>>p;} catch (const F::InvalidType&) {thrown=true;} catch (const std::exception& e) {bad(std::string("unknown type in a stream: ")+e.what()); thrown=true;}
  if (!thrown) bad("unknown type in a stream is accepted");
}
void watch()
{
  classdesc::shared_ptr<object> a=some(0,false), b=some(0,false);
  classdesc::shared_ptr<Rec> ra(new Rec(rec(5,"five"))), rb(new Rec(rec(6,"six")));
  for (int i=0; i<4; ++i)
    {
      Watcher x, y;
      x.before=1+i; x.after=2+i; if (i&1) {x.w=a; x.wr=ra;}
      if (i&2) {y.w=b; y.wr=rb;}
      classdesc::pack_t p; p<<x; p>>y;
      if (y.before!=x.before || y.after!=x.after) bad("members beside a weak pointer are "+str(y.before)+","+str(y.after));
      if ((i&2) && (y.w.lock()!=b || y.wr.lock()!=rb)) bad("a weak pointer is changed");
      if ((i&3)==3 && show(*rb)!=show(*ra)) bad("the target of a weak pointer");
    }
}
'''
OLDMAIN = r'''
int fails=0;
const char* piece="";
void bad(const std::string& m) {std::cout<<piece<<": "<<m<<std::endl; fails++;}
unsigned rnd_=SEED;
unsigned rnd(unsigned n) {rnd_=rnd_*1103515245u+12345u; return (rnd_>>16)%n;}
template <class S> std::string str(const S& x) {std::ostringstream o; o<<x; return o.str();}
typedef classdesc::poly<Top> P;
Top* any();
std::string show(const P& p) {return p? p->show(): std::string("null,");}
std::string show(const Holder& h) {return show(h.before)+show(h.one)+h.middle+show(h.many)+show(h.after);}
std::set<int> ids;
template <class T> void classTest()
{
  T x; fill(x,1);
  const std::string s=x.show();
  if (T().type()!=x.type()) bad("two objects of the same class differ in type()");
  if (!ids.insert(x.type()).second) bad("two classes have type() "+str(x.type()));
  std::unique_ptr_<classdesc::object> o(classdesc::object::create(x.type()));
  if (!o.get() || typeid(*o)!=typeid(T)) {bad("object::create gives another class"); return;}
  std::unique_ptr_<classdesc::object> c(static_cast<classdesc::object&>(x).clone());
  if (typeid(*c)!=typeid(T) || dynamic_cast<Top&>(*c).show()!=s) bad("clone");
  std::unique_ptr_<T> t(x.cloneT());
  if (!t.get() || typeid(*t)!=typeid(T) || t->show()!=s) bad("cloneT");
  fill(*t,2);
  if (x.show()!=s) bad("changing the clone changes the original");
  // values through the deep pointer
  P p(x), q;
  if (!p || show(p)!=s || typeid(*p)!=typeid(T)) bad("poly holds another object");
  q=p;
  if (show(q)!=s || typeid(*q)!=typeid(T)) bad("assigning a poly");
  fill(q.template cast<T>(),2);
  if (show(p)!=s) bad("copies of a poly share the object");
  P& same=p; p=same;
  if (show(p)!=s) bad("assigning a poly to itself");
  P n; p.swap(n);
  if (p || !n || show(n)!=s) bad("swapping polys");
  P e(p); if (e) bad("copy of an empty poly");
  n=p; if (n) bad("assigning an empty poly");
  p.template addObject<T>();
  if (!p || typeid(*p)!=typeid(T) || show(p)!=T().show()) bad("addObject");
  p.template addObject<T>(x);
  if (!p || typeid(*p)!=typeid(T) || show(p)!=s) bad("addObject from an object");
  p=p->show()==s? static_cast<Top&>(*p): static_cast<Top&>(x);
  if (show(p)!=s) bad("assigning a poly its own object: "+show(p));
}
template <class T> void binary(const T& x, T& y, const char* what)
{
  try
    {
      classdesc::pack_t b; b<<x<<std::string("marker");
      std::string m;
      const std::string s=show(x);
      classdesc::unpack_t b1; b1.packraw(b.data(),b.size()); b1>>y>>m;
      if (show(y)!=s) bad(std::string("binary ")+what+" gives "+show(y)+" from "+s);
      if (m!="marker") bad(std::string("binary ")+what+" leaves the stream elsewhere");
    }
  catch (const std::exception& e) {bad(std::string("binary ")+what+" throws "+e.what());}
}
void fillHolder(Holder& h)
{
  h.before=rnd(1000); h.after=rnd(1000); h.middle=std::string(rnd(6),'m');
  if (rnd(4)) h.one.reset(any()); else h.one.reset();
  h.many.clear();
  for (unsigned n=rnd(5); n; --n) h.many.push_back(classdesc::shared_ptr<Top>(rnd(4)? any(): 0));
}
'''


def fills(cs, g, r):
    style = g.style
    o = []
    for c in cs:
        n = c['name'] + ('_b' if style == 'mixin' else '')
        b = c['base'] and c['base'] + ('_b' if style == 'mixin' else '')
        l = ['template <class T> void fill(T&, int); // of the others', 'void fill(%s& x, int v)' % n, '{']
        if b:
            l.append('  fill(static_cast<%s&>(x),v);' % b)
        elif style == 'old':
            l.append('  x.top=v*7;')
        for f, t in c['fields']:
            if t in SMART:
                l.append('  smart(x.%s,v,true);' % f)
            else:
                vs = [r.choice(VALUES[t]) for i in range(3)]
                l.append('  if (v==0) x.%s=%s; else if (v==1) x.%s=%s; else x.%s=%s;' % (f, vs[0], f, vs[1], f, vs[2]))
        l += ['}']
        o.append('\n'.join(l[1:]))
    return '\n'.join(o)


def program(pieces, g, allc, std, seed, desc, asan=True):
    cs = closure(pieces, allc)
    reg = [c for c in cs if c['registered']] if g.style != 'old' else cs
    idty = g.idty
    r = random.Random('%s/%s' % (seed, 'values'))
    src = {'types.h': header(cs, g, std), 'show.h': SHOW}
    up = 'template <class T> struct Holder_ {T* p; explicit Holder_(T* x): p(x) {} ~Holder_() {delete p;} T* get() const {return p;} T* operator->() const {return p;} T& operator*() const {return *p;} private: Holder_(const Holder_&); void operator=(const Holder_&);};'
    m = ['#include <set>', '#include <string.h>', '#include "types.h"', '#include "pack_base.h"', '#include "pack_stl.h"']
    if g.style != 'old':
        m += ['#include "xml_pack_base.h"', '#include "xml_unpack_base.h"']
    m += ['#include "types.cd"']
    if g.style == 'old':
        # found when templates are used
        m += ['#include "pack_stream.h"']
    m += ['#include "classdesc_epilogue.h"', up, '#define SEED %du' % r.randrange(1 << 30)]
    main = (OLDMAIN if g.style == 'old' else MAIN).replace('std::unique_ptr_<', 'Holder_<')
    pre, post = (main.split('template <class T> void classTest', 1) if g.style == 'old' else main.split('template <class T> void factoryTest', 1))
    post = ('template <class T> void classTest' if g.style == 'old' else 'template <class T> void factoryTest') + post
    if g.style != 'old':
        m.append('typedef %s Id;' % idty)
    m += [pre, fills(cs, g, r), post]
    if g.style != 'old':
        for c in cs:
            # what type() says
            pid = c['id'] if c['id'] is not None else 'classdesc::typeName<%s>()' % c['name']
            m.append('template <> Id Object<%s%s>::type() const {return %s;}' % (c['name'], (',' + c['base']) if g.style == 'layered' and c['base'] else (',object' if g.style == 'layered' else ''), pid))
        regs = list(reg)
        r.shuffle(regs)
        lines = []
        for c in regs:
            lines.append('registerType<%s>();' % c['name'] if r.random() < .6 else 'registerType<%s>(%s().type());' % (c['name'], c['name']))
            if c['alias'] is not None:
                lines.append('registerType<%s>(%s);' % (c['name'], c['alias']))
        m.append('namespace classdesc {template <> Factory<object,Id>::Factory() {%s}}' % ' '.join(lines))
        m.append('const F& theFactory() {static F f; return f;}')
        m.append('object* object::create(const Id& i) {return theFactory().create(i);}')
        m.append('object* any(int depth)\n{\n  switch (rnd(%d))\n    {' % max(1, len(reg)))
        for i, c in enumerate(reg):
            m.append('    case %d: {%s* x=new %s; fill(*x,depth>2? 2: depth); return x;}' % (i, c['name'], c['name']))
        m += ['    }', '  return 0;', '}']
    else:
        m.append('Top* any()\n{\n  switch (rnd(%d))\n    {' % max(1, len(cs)))
        for i, c in enumerate(cs):
            m.append('    case %d: {%s* x=new %s; fill(*x,rnd(3)); return x;}' % (i, c['name'], c['name']))
        m += ['    }', '  return 0;', '}']
    m += ['int main()', '{']
    if g.style != 'old':
        m.append('  const F& f=theFactory();')
        n = 0
        for c in cs:
            m.append('  piece="%s";' % c['name'])
            if c['registered']:
                m.append('  factoryTest<%s>(f,%s().type(),"%s");' % (c['name'], c['name'], c['name']))
                n += 1
            else:
                m.append('  unknown(f,%s().type());' % c['name'])
            if c['alias'] is not None:
                if c['registered']:
                    m.append('  factoryTest<%s>(f,%s,"%s");' % (c['name'], c['alias'], c['name']))
                    n += 1
                else:
                    m.append('  unknown(f,%s);' % c['alias'])
            m.append('  cloneTest<%s>();' % c['name'])
            o = r.choice(cs)
            m.append('  cloneTTest<%s,%s>();' % (c['name'], o['name']))
            if g.style == 'layered' and c['base']:
                m.append('  cloneTTest<%s,%s>();' % (c['name'], c['base']))
        m.append('  piece="factory";')
        un = ['0', '99999', '-77777', '2147483647'] if idty == 'int' else ['""', '"nothing"', '"K"', '"K0 "']
        for u in un:
            if u not in [c['id'] for c in cs]:
                m.append('  unknown(f,%s);' % u)
        if idty != 'int':
            m.append('  {std::vector<std::string> t=f.types(); std::set<std::string> s(t.begin(),t.end()), w;')
            for c in reg:
                m.append('   w.insert(%s().type());' % c['name'])
                if c['alias'] is not None:
                    m.append('   w.insert(%s);' % c['alias'])
            m.append('   if (t.size()!=w.size() || s!=w) bad("types() does not list what is registered");}')
        # registering again and later
        for c in cs:
            m.append('  {F g; const std::string d=%s().show(); g.registerType<%s>(%s); Holder_<object> o(g.create(%s)); if (o->show()!=d || typeid(*o)!=typeid(%s)) bad("registered later: "+o->show()); unknown(f,%s);}'
                     % (c['name'], c['name'], '777' if idty == 'int' else '"later"', '777' if idty == 'int' else '"later"', c['name'], '777' if idty == 'int' else '"later"'))
        if reg:
            m.append('''  piece="containers";
  Holder y, yx;
  for (int i=0; i<12; ++i)
    {
      Holder x; fillHolder(x,true);
      if (i%3==0) {Holder z; binary(x,z,"Holder");}
      binary(x,y,"Holder (used)");
      fillHolder(x,false);
      if (i%3==0) {Holder z; xml(x,z,"Holder");}
      xml(x,yx,"Holder (used)");
      std::vector<classdesc::shared_ptr<object> > v, w; for (unsigned n=rnd(6); n; --n) v.push_back(some(2,true));
      if (i&1) w.push_back(some(1,true));
      binary(v,w,"vector");
      classdesc::shared_ptr<object> p=some(2,true), q=some(1,true);
      binary(p,q,"shared_ptr");
      p=some(2,false);
      xml(p,q,"shared_ptr");
    }''')
            m.append('  foreign(%s,y);' % ('99999' if idty == 'int' else 'std::string("nothing")'))
            m.append('  watch();')
    else:
        for c in cs:
            m.append('  piece="%s"; classTest<%s>();' % (c['name'], c['name']))
        m.append('''  piece="containers";
  Holder y; P q;
  for (int i=0; i<12; ++i)
    {
      Holder x; fillHolder(x); binary(x,y,"Holder");
      Holder z; binary(x,z,"Holder");
      P p; if (rnd(4)) {Holder_<Top> t(any()); p=*t;}
      // the classes are known to the table of the target once they were added to one
      binary(p,q,"poly");
      classdesc::shared_ptr<Top> s(rnd(4)? any(): 0), u(rnd(4)? any(): 0);
      binary(s,u,"shared_ptr");
    }''')
        addobj = ' '.join('{P t; t.addObject<%s>();}' % c['name'] for c in cs)
        i = m.index('int main()') + 2
        m.insert(i, '  %s' % addobj)
    m += ['  return fails>0;', '}', '']
    src['main.cc'] = '\n'.join(m)
    return dict(name='p22', sources=src, cds=[('types.cd', desc.split() + ['-i', 'types.h'] + ('pack unpack' if g.style == 'old' else 'pack unpack xml_pack xml_unpack').split())], std=std, flags=[], asan=asan, xdr=True)
