// Element tree a value should have in XML, computed without classdesc.
// Class types get their overloads of dom and ename from typegen.py.
#ifndef VERIF_DOM_H
#define VERIF_DOM_H
#include "values.h"
#include <limits>
#ifndef VERIF_ONBASE
#define VERIF_ONBASE 0
#endif
namespace pbt
{
  // plain text as ostreams write it, and null pointers as text (for dump)
  inline bool& domPlain() {static bool x=false; return x;}

  // as JSON has it: signed and unsigned char are numbers, arrays of arrays nest
  inline bool& domJson() {static bool x=false; return x;}

  struct Node
  {
    enum Kind {record, sequence, number, text};   // what is inside
    std::string name, content;
    std::vector<Node> kids;
    Kind kind;
    bool ptr;           // belongs to a smart pointer
    bool basic;         // of fundamental type
    bool fixed;         // sequence that is always gone through: array or tuple
    Node(const std::string& n=""): name(n), kind(record), ptr(false), basic(false), fixed(false) {}
    bool leaf() const {return kind>=number;}
    size_t count() const {size_t n=1; for (size_t i=0; i<kids.size(); ++i) n+=kids[i].count(); return n;}
    size_t deepest() const {size_t n=0; for (size_t i=0; i<kids.size(); ++i) n=std::max(n,kids[i].deepest()); return n+1;}
  };
  inline void showNode(std::ostream& o, const Node& n)
  {
    o<<n.name;
    if (n.leaf()) o<<"="<<show(n.content);
    else
      {
        o<<"(";
        for (size_t i=0; i<n.kids.size(); ++i) {if (i) o<<" "; showNode(o,n.kids[i]);}
        o<<")";
      }
  }
  // elements of base classes are called base_ and a mangled type name
  inline std::string plain(const std::string& n)
  {
    if (n.compare(0,5,"base_")) return n;
    std::string r;
    for (size_t i=0; i<n.size(); ++i) if (n[i]!='_') r+=n[i];
    return r;
  }
  // first difference between two trees, empty if there is none
  inline std::string diff(const Node& a, const Node& b, const std::string& path="")
  {
    std::string p=path+"/"+a.name;
    if (a.name!=b.name && plain(a.name)!=plain(b.name)) return p+": element is called "+b.name;
    if (a.leaf()!=b.leaf()) return p+": different kind";
    if (a.leaf() && a.content!=b.content) return p+": "+show(b.content)+" where "+show(a.content)+" is expected";
    for (size_t i=0; i<a.kids.size() && i<b.kids.size(); ++i)
      {
        std::string d=diff(a.kids[i],b.kids[i],p);
        if (!d.empty()) return d;
      }
    if (a.kids.size()!=b.kids.size())
      {
        std::ostringstream o;
        o<<p<<": "<<b.kids.size()<<" elements where "<<a.kids.size()<<" are expected";
        return o.str();
      }
    return "";
  }

  inline std::string lastWord(std::string s)
  {
    s=s.substr(0,s.find('<'));
    while (!s.empty() && s[s.size()-1]==' ') s.erase(s.size()-1);
    size_t k=s.find_last_of(" :");
    return k==std::string::npos? s: s.substr(k+1);
  }
  // element names of containers' elements
  template <class T> struct EName;
#define VF_ENAME(t) template <> struct EName<t> {static std::string s() {return lastWord(#t);}};
  VF_ENAME(bool) VF_ENAME(char) VF_ENAME(signed char) VF_ENAME(unsigned char)
  VF_ENAME(short) VF_ENAME(unsigned short) VF_ENAME(int) VF_ENAME(unsigned int) VF_ENAME(long) VF_ENAME(unsigned long)
  VF_ENAME(long long) VF_ENAME(unsigned long long) VF_ENAME(float) VF_ENAME(double) VF_ENAME(long double) VF_ENAME(std::string)
#define VF_ENAME1(t) template <class T, class A> struct EName<t<T,A> > {static std::string s() {return lastWord(#t);}};
  VF_ENAME1(std::vector) VF_ENAME1(std::list) VF_ENAME1(std::deque)
#define VF_ENAME2(t) template <class T, class C, class A> struct EName<t<T,C,A> > {static std::string s() {return lastWord(#t);}};
  VF_ENAME2(std::set) VF_ENAME2(std::multiset)
#define VF_ENAME3(t) template <class K, class T, class C, class A> struct EName<t<K,T,C,A> > {static std::string s() {return lastWord(#t);}};
  VF_ENAME3(std::map) VF_ENAME3(std::multimap)
  template <class A, class B> struct EName<std::pair<A,B> > {static std::string s() {return "pair";}};
#if __cplusplus<201103L
  template <class T> struct EName<std::tr1::shared_ptr<T> > {static std::string s() {return "shared_ptr";}};
#else
  VF_ENAME3(std::unordered_set) VF_ENAME3(std::unordered_multiset)
  template <class K, class T, class C, class E, class A> struct EName<std::unordered_map<K,T,C,E,A> > {static std::string s() {return "unordered_map";}};
  template <class K, class T, class C, class E, class A> struct EName<std::unordered_multimap<K,T,C,E,A> > {static std::string s() {return "unordered_multimap";}};
  template <class T> struct EName<std::shared_ptr<T> > {static std::string s() {return "shared_ptr";}};
  template <class T, class D> struct EName<std::unique_ptr<T,D> > {static std::string s() {return "unique_ptr";}};
  template <class T, size_t N> struct EName<std::array<T,N> > {static std::string s() {return "array";}};
  template <class... A> struct EName<std::tuple<A...> > {static std::string s() {return "tuple";}};
#endif

  template <class T> void domNum(Node& n, const T& x)
  {
    n.kind=Node::number;
    n.basic=true;
    std::ostringstream o; if (!domPlain()) o.precision(21); o<<x;
    n.content=o.str();
  }
  template <class T> void domFloat(Node& n, const T& x)
  {
    n.kind=Node::number;
    if (domPlain()) domNum(n,x);
    else if (x!=x) n.content="NaN";
    else if (x==std::numeric_limits<T>::infinity()) n.content="INF";
    else if (x==-std::numeric_limits<T>::infinity()) n.content="-INF";
    else domNum(n,x);
  }
  inline void domChar(Node& n, char c) {n.kind=Node::text; n.basic=true; n.content=std::string(1,c);}
  inline void dom(Node& n, bool x, Tag) {n.kind=Node::number; n.basic=true; n.content=domPlain()? x? "1": "0": x? "true": "false";}
  inline void dom(Node& n, char x, Tag) {domChar(n,x);}
  inline void dom(Node& n, signed char x, Tag) {if (domJson()) domNum(n,int(x)); else domChar(n,char(x));}
  inline void dom(Node& n, unsigned char x, Tag) {if (domJson()) domNum(n,int(x)); else domChar(n,char(x));}
  inline void dom(Node& n, short x, Tag) {domNum(n,x);}
  inline void dom(Node& n, unsigned short x, Tag) {domNum(n,x);}
  inline void dom(Node& n, int x, Tag) {domNum(n,x);}
  inline void dom(Node& n, unsigned x, Tag) {domNum(n,x);}
  inline void dom(Node& n, long x, Tag) {domNum(n,x);}
  inline void dom(Node& n, unsigned long x, Tag) {domNum(n,x);}
  inline void dom(Node& n, long long x, Tag) {domNum(n,x);}
  inline void dom(Node& n, unsigned long long x, Tag) {domNum(n,x);}
  inline void dom(Node& n, float x, Tag) {domFloat(n,x);}
  inline void dom(Node& n, double x, Tag) {domFloat(n,x);}
  inline void dom(Node& n, long double x, Tag) {domFloat(n,x);}
  inline void dom(Node& n, const std::string& x, Tag) {n.kind=Node::text; n.content=x;}

  template <class T> void domMember(Node& parent, const std::string& name, const T& x);
  template <class T, size_t N> void domMember(Node& parent, const std::string& name, const T(&x)[N]);
#define VF_FWD1(t) template <class T, class A> void dom(Node&, const t<T,A>&, Tag);
  VF_FWD1(std::vector) VF_FWD1(std::list) VF_FWD1(std::deque)
#define VF_FWD2(t) template <class T, class C, class A> void dom(Node&, const t<T,C,A>&, Tag);
  VF_FWD2(std::set) VF_FWD2(std::multiset)
#define VF_FWD3(t) template <class K, class T, class C, class A> void dom(Node&, const t<K,T,C,A>&, Tag);
  VF_FWD3(std::map) VF_FWD3(std::multimap)
  template <class A, class B> void dom(Node& n, const std::pair<A,B>& x, Tag);
#if __cplusplus<201103L
  template <class T> void domMember(Node& parent, const std::string& name, const std::tr1::shared_ptr<T>& x);
#else
  VF_FWD3(std::unordered_set) VF_FWD3(std::unordered_multiset)
  template <class K, class T, class C, class E, class A> void dom(Node& n, const std::unordered_map<K,T,C,E,A>& x, Tag);
  template <class K, class T, class C, class E, class A> void dom(Node& n, const std::unordered_multimap<K,T,C,E,A>& x, Tag);
  template <class T> void domMember(Node& parent, const std::string& name, const std::shared_ptr<T>& x);
  template <class T, class D> void domMember(Node& parent, const std::string& name, const std::unique_ptr<T,D>& x);
  template <class T, size_t N> void dom(Node& n, const std::array<T,N>& x, Tag);
  template <class... A> void dom(Node& n, const std::tuple<A...>& x, Tag);
#endif
  template <class T> void domMember(Node& parent, const std::string& name, const T& x)
  {
    parent.kids.push_back(Node(name));
    dom(parent.kids.back(),x,Tag());
  }
  template <class T> struct Inner {typedef T type;};
  template <class T, size_t N> struct Inner<T[N]> {typedef typename Inner<T>::type type;};
  template <class T> void domFlat(Node& n, const T& x) {domMember(n,EName<T>::s(),x);}
  template <class T, size_t N> void domFlat(Node& n, const T(&x)[N])
  {
    if (domJson())    // JSON nests arrays, XML does not
      {
        n.kids.push_back(Node("row"));
        n.kids.back().kind=Node::sequence;
        n.kids.back().fixed=true;
        for (size_t i=0; i<N; ++i) domFlat(n.kids.back(),x[i]);
      }
    else
      for (size_t i=0; i<N; ++i) domFlat(n,x[i]);
  }
  template <class T, size_t N> void domMember(Node& parent, const std::string& name, const T(&x)[N])
  {
    parent.kids.push_back(Node(name));
    Node& n=parent.kids.back();
    n.kind=Node::sequence;
    n.fixed=true;
    for (size_t i=0; i<N; ++i) domFlat(n,x[i]);
  }
  template <class P> void domPtr(Node& parent, const std::string& name, const P& x)
  {
    if (!x)
      {
        if (domPlain()) {parent.kids.push_back(Node(name)); parent.kids.back().kind=Node::text; parent.kids.back().content="null";}
        return;
      }
    domMember(parent,name,*x);
    parent.kids.back().ptr=true;
    parent.kids.back().basic=false;
  }
  template <class T> void domSeq(Node& n, const T& x)
  {
    n.kind=Node::sequence;
    for (typename T::const_iterator i=x.begin(); i!=x.end(); ++i)
      domMember(n,EName<typename T::value_type>::s(),*i);
  }
#undef VF_FWD1
#undef VF_FWD2
#undef VF_FWD3
#define VF_FWD1(t) template <class T, class A> void dom(Node& n, const t<T,A>& x, Tag) {domSeq(n,x);}
  VF_FWD1(std::vector) VF_FWD1(std::list) VF_FWD1(std::deque)
#define VF_FWD2(t) template <class T, class C, class A> void dom(Node& n, const t<T,C,A>& x, Tag) {domSeq(n,x);}
  VF_FWD2(std::set) VF_FWD2(std::multiset)
#define VF_FWD3(t) template <class K, class T, class C, class A> void dom(Node& n, const t<K,T,C,A>& x, Tag) {domSeq(n,x);}
  VF_FWD3(std::map) VF_FWD3(std::multimap)
  template <class A, class B> void dom(Node& n, const std::pair<A,B>& x, Tag) {domMember(n,"first",x.first); domMember(n,"second",x.second);}
#if __cplusplus<201103L
  template <class T> void domMember(Node& parent, const std::string& name, const std::tr1::shared_ptr<T>& x) {domPtr(parent,name,x);}
#else
  VF_FWD3(std::unordered_set) VF_FWD3(std::unordered_multiset)
  template <class K, class T, class C, class E, class A> void dom(Node& n, const std::unordered_map<K,T,C,E,A>& x, Tag) {domSeq(n,x);}
  template <class K, class T, class C, class E, class A> void dom(Node& n, const std::unordered_multimap<K,T,C,E,A>& x, Tag) {domSeq(n,x);}
  template <class T> void domMember(Node& parent, const std::string& name, const std::shared_ptr<T>& x) {domPtr(parent,name,x);}
  template <class T, class D> void domMember(Node& parent, const std::string& name, const std::unique_ptr<T,D>& x) {domPtr(parent,name,x);}
  template <class T, size_t N> void dom(Node& n, const std::array<T,N>& x, Tag) {domSeq(n,x); n.fixed=true;}
  template <class T> void domElem(Node& n, const T& e) {domMember(n,EName<T>::s(),e);}
  template <class... A> void dom(Node& n, const std::tuple<A...>& x, Tag) {n.kind=Node::sequence; n.fixed=true; std::apply([&](auto&... e) {(domElem(n,e),...);},x);}
#endif
}
#endif
