// Random values of the supported member types, and an equality of its own for each of them.
// Class types get their overloads of gen, eq, show from the type generator (typegen.py).
#ifndef VERIF_VALUES_H
#define VERIF_VALUES_H
#include "pbt.h"
#include <list>
#include <deque>
#include <map>
#include <set>
#include <limits>
#include <utility>
#if __cplusplus<201103L
#include <tr1/memory>
#include <tr1/unordered_map>
#include <tr1/unordered_set>
#else
#include <memory>
#include <array>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#endif

namespace pbt
{
  struct Tag {};     // makes argument dependent lookup look in here

  // what the values may be, for formats that cannot represent everything
  struct Profile
  {
    bool finite;         // no NaN or infinity
    bool xmlText;        // strings are text that XML 1.0 can represent
    bool ascii;          // strings contain 7 bit characters only
    bool positiveLen;    // no empty string
    bool noEdgeSpace;    // no leading or trailing white space
    int maxDepth;
    bool charPrintable;  // char values are printable and not white space
    bool nonNull;        // smart pointers are never null
    bool nonNullElem;    // nor are smart pointers that are elements of containers and arrays
    bool noNegZero;
    Profile(): finite(false), xmlText(false), ascii(false), positiveLen(false), noEdgeSpace(false), maxDepth(3), charPrintable(false), nonNull(false), nonNullElem(false), noNegZero(false) {}
  };
  inline Profile& profile() {static Profile p; return p;}
  inline int& depth() {static int d=0; return d;}
  struct Deeper {Deeper() {depth()++;} ~Deeper() {depth()--;}};

  // length of a container, shrinking with nesting
  inline size_t clen(Src& s)
  {
    int d=depth();
    if (d>=5) return 0;
    static const size_t mx[]={40,6,4,3,2};
    size_t k=s.below(8);
    if (k==0) return 0;
    if (k<6) return s.below((mx[d]<3? mx[d]: 3)+1);
    return s.below(mx[d]+1);
  }

  template <class T> void genInt(Src& s, T& x)
  {
    typedef std::numeric_limits<T> L;
    switch (s.below(8))
      {
      case 0: x=0; break;
      case 1: case 2: case 3: x=T(s.below(100)); if (L::is_signed && s.coin()) x=T(-x); break;
      case 4: x=L::max(); x=T(x-T(s.below(3))); break;
      case 5: x=L::min(); x=T(x+T(s.below(3))); break;
      case 6: x=T(T(1)<<s.below(sizeof(T)*8-1)); if (s.coin()) x=T(x-1); break;
      default: x=T(s.bits());
      }
  }
  inline void gen(Src& s, bool& x) {x=s.coin();}
  template <class T> inline void genChar(Src& s, T& x)
  {
    if (profile().xmlText && s.below(6)==0) x=T(" \t\n"[s.below(3)]);
    else if (profile().charPrintable || profile().xmlText) {static const char* cs="a0Z<&>\"'/;-=#xk~!"; x=T(cs[s.below(strlen(cs))]);}
    else genInt(s,x);
  }
  inline void gen(Src& s, char& x) {genChar(s,x);}
  inline void gen(Src& s, signed char& x) {genChar(s,x);}
  inline void gen(Src& s, unsigned char& x) {genChar(s,x);}
  inline void gen(Src& s, wchar_t& x) {genInt(s,x);}
  inline void gen(Src& s, short& x) {genInt(s,x);}
  inline void gen(Src& s, unsigned short& x) {genInt(s,x);}
  inline void gen(Src& s, int& x) {genInt(s,x);}
  inline void gen(Src& s, unsigned& x) {genInt(s,x);}
  inline void gen(Src& s, long& x) {genInt(s,x);}
  inline void gen(Src& s, unsigned long& x) {genInt(s,x);}
  inline void gen(Src& s, long long& x) {genInt(s,x);}
  inline void gen(Src& s, unsigned long long& x) {genInt(s,x);}
  template <class T> void genFloat(Src& s, T& x)
  {
    typedef std::numeric_limits<T> L;
    int k=s.below(profile().finite? 8: 11);
    switch (k)
      {
      case 0: x=0; break;
      case 1: case 2: x=T(s.range(-100,100)); break;
      case 3: x=T(s.range(-1000,1000))/T(s.range(1,999)); break;
      case 4: x=L::max(); if (s.coin()) x=-x; break;
      case 5: x=L::min()*T(1+s.below(1000))/T(1000); if (s.coin()) x=-x; break;
      case 6: {u64 m=s.bits(); x=T(m)/T(1ULL<<63); int e=int(s.range(-30,30)); for (; e>0; --e) x*=T(1.7); for (; e<0; ++e) x/=T(1.7); if (s.coin()) x=-x; break;}
      case 7: x=L::denorm_min()*T(s.below(1000)); break;
      case 8: x=L::infinity(); if (s.coin()) x=-x; break;
      case 9: x=L::quiet_NaN(); break;
      default: x=-T(0);
      }
    if (profile().noNegZero && x==0) x=0;
  }
  inline void gen(Src& s, float& x) {genFloat(s,x);}
  inline void gen(Src& s, double& x) {genFloat(s,x);}
  inline void gen(Src& s, long double& x) {genFloat(s,x);}

  inline void gen(Src& s, std::string& x)
  {
    const Profile& p=profile();
    x.clear();
    size_t n=s.len(depth()>1? 12: depth()? 40: 3000);
    if (p.positiveLen && n==0) n=1;
    static const char* frag[]={"<",">","&","&amp;","</","/>","<a>","]]>","<!--","-->","\"","'","&#10;","=","<?","?>","&lt;",";","<![CDATA[","]","x=\"y\"","\\"};
    static const char* utf[]={"\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x98\x80","\xc2\xa0","\xce\xbb"};
    for (size_t i=0; i<n; ++i)
      {
        switch (s.below(p.xmlText? 6: 8))
          {
          case 0: case 1: x+=char('a'+s.below(26)); break;
          case 2: x+=char(32+s.below(95)); break;
          case 3: x+=frag[s.below(sizeof(frag)/sizeof(frag[0]))]; break;
          case 4: x+=" \t\n"[s.below(3)]; break;
          case 5: if (p.ascii) x+='u'; else x+=utf[s.below(sizeof(utf)/sizeof(utf[0]))]; break;
          default: x+=char(s.below(p.ascii? 128: 256));
          }
      }
    if (p.noEdgeSpace && !x.empty())
      {
        if (isspace((unsigned char)x[0])) x[0]='s';
        if (isspace((unsigned char)x[x.size()-1])) x[x.size()-1]='e';
      }
  }
  inline void gen(Src& s, std::wstring& x)
  {
    x.clear();
    size_t n=s.len(20);
    for (size_t i=0; i<n; ++i) {wchar_t c; gen(s,c); x+=c;}
  }

  // forward declarations, so that nesting works in any order
  template <class T, size_t N> void gen(Src&, T(&)[N]);
  template <class T, class A> void gen(Src&, std::vector<T,A>&);
  template <class T, class A> void gen(Src&, std::list<T,A>&);
  template <class T, class A> void gen(Src&, std::deque<T,A>&);
  template <class T, class C, class A> void gen(Src&, std::set<T,C,A>&);
  template <class T, class C, class A> void gen(Src&, std::multiset<T,C,A>&);
  template <class K, class T, class C, class A> void gen(Src&, std::map<K,T,C,A>&);
  template <class K, class T, class C, class A> void gen(Src&, std::multimap<K,T,C,A>&);
  template <class A, class B> void gen(Src&, std::pair<A,B>&);

  struct NonNull {bool was; NonNull(): was(profile().nonNull) {profile().nonNull=was||profile().nonNullElem;} ~NonNull() {profile().nonNull=was;}};
  template <class T> void genElem(Src& s, T& x) {gen(s,x);}
#if __cplusplus<201103L
  template <class T> void genElem(Src& s, std::tr1::shared_ptr<T>& x);
#else
  template <class T> void genElem(Src& s, std::shared_ptr<T>& x);
#endif
  template <class T> void genSeq(Src& s, T& x)
  {
    x.clear();
    size_t n=clen(s);
    Deeper d;
    for (size_t i=0; i<n; ++i)
      {
        typename T::value_type v=typename T::value_type();
        genElem(s,v);
        x.push_back(v);
      }
  }
  template <class T> void genSet(Src& s, T& x)
  {
    x.clear();
    size_t n=clen(s);
    Deeper d;
    for (size_t i=0; i<n; ++i)
      {
        typename T::value_type v=typename T::value_type();
        gen(s,v);
        if (v==v) x.insert(v);     // no NaN keys
      }
  }
  template <class T> void genMap(Src& s, T& x)
  {
    x.clear();
    size_t n=clen(s);
    Deeper d;
    for (size_t i=0; i<n; ++i)
      {
        typename T::key_type k=typename T::key_type();
        typename T::mapped_type v=typename T::mapped_type();
        gen(s,k); gen(s,v);
        if (k==k) x.insert(typename T::value_type(k,v));
      }
  }
  template <class T, size_t N> void gen(Src& s, T(&x)[N]) {Deeper d; for (size_t i=0; i<N; ++i) genElem(s,x[i]);}
  template <class T, class A> void gen(Src& s, std::vector<T,A>& x) {genSeq(s,x);}
  template <class T, class A> void gen(Src& s, std::list<T,A>& x) {genSeq(s,x);}
  template <class T, class A> void gen(Src& s, std::deque<T,A>& x) {genSeq(s,x);}
  template <class T, class C, class A> void gen(Src& s, std::set<T,C,A>& x) {genSet(s,x);}
  template <class T, class C, class A> void gen(Src& s, std::multiset<T,C,A>& x) {genSet(s,x);}
  template <class K, class T, class C, class A> void gen(Src& s, std::map<K,T,C,A>& x) {genMap(s,x);}
  template <class K, class T, class C, class A> void gen(Src& s, std::multimap<K,T,C,A>& x) {genMap(s,x);}
  template <class A, class B> void gen(Src& s, std::pair<A,B>& x) {gen(s,x.first); gen(s,x.second);}

  // ---- equality
  template <class T> bool feq(T a, T b)
  {
    if (a!=a || b!=b) return a!=a && b!=b;
    return a==b && (a!=0 || (1/a>0)==(1/b>0));
  }
  inline bool eq(bool a, bool b, Tag) {return a==b;}
  inline bool eq(char a, char b, Tag) {return a==b;}
  inline bool eq(signed char a, signed char b, Tag) {return a==b;}
  inline bool eq(unsigned char a, unsigned char b, Tag) {return a==b;}
  inline bool eq(wchar_t a, wchar_t b, Tag) {return a==b;}
  inline bool eq(short a, short b, Tag) {return a==b;}
  inline bool eq(unsigned short a, unsigned short b, Tag) {return a==b;}
  inline bool eq(int a, int b, Tag) {return a==b;}
  inline bool eq(unsigned a, unsigned b, Tag) {return a==b;}
  inline bool eq(long a, long b, Tag) {return a==b;}
  inline bool eq(unsigned long a, unsigned long b, Tag) {return a==b;}
  inline bool eq(long long a, long long b, Tag) {return a==b;}
  inline bool eq(unsigned long long a, unsigned long long b, Tag) {return a==b;}
  inline bool eq(float a, float b, Tag) {return feq(a,b);}
  inline bool eq(double a, double b, Tag) {return feq(a,b);}
  inline bool eq(long double a, long double b, Tag) {return feq(a,b);}
  inline bool eq(const std::string& a, const std::string& b, Tag) {return a==b;}
  inline bool eq(const std::wstring& a, const std::wstring& b, Tag) {return a==b;}
  template <class T, size_t N> bool eq(const T(&)[N], const T(&)[N], Tag);
  template <class T, class A> bool eq(const std::vector<T,A>&, const std::vector<T,A>&, Tag);
  template <class T, class A> bool eq(const std::list<T,A>&, const std::list<T,A>&, Tag);
  template <class T, class A> bool eq(const std::deque<T,A>&, const std::deque<T,A>&, Tag);
  template <class T, class C, class A> bool eq(const std::set<T,C,A>&, const std::set<T,C,A>&, Tag);
  template <class T, class C, class A> bool eq(const std::multiset<T,C,A>&, const std::multiset<T,C,A>&, Tag);
  template <class K, class T, class C, class A> bool eq(const std::map<K,T,C,A>&, const std::map<K,T,C,A>&, Tag);
  template <class K, class T, class C, class A> bool eq(const std::multimap<K,T,C,A>&, const std::multimap<K,T,C,A>&, Tag);
  template <class A, class B> bool eq(const std::pair<A,B>&, const std::pair<A,B>&, Tag);
  template <class T> bool eqSeq(const T& a, const T& b)
  {
    if (a.size()!=b.size()) return false;
    typename T::const_iterator i=a.begin(), j=b.begin();
    for (; i!=a.end(); ++i, ++j) if (!eq(*i,*j,Tag())) return false;
    return true;
  }
  template <class T, size_t N> bool eq(const T(&a)[N], const T(&b)[N], Tag) {for (size_t i=0; i<N; ++i) if (!eq(a[i],b[i],Tag())) return false; return true;}
  template <class T, class A> bool eq(const std::vector<T,A>& a, const std::vector<T,A>& b, Tag) {return eqSeq(a,b);}
  template <class T, class A> bool eq(const std::list<T,A>& a, const std::list<T,A>& b, Tag) {return eqSeq(a,b);}
  template <class T, class A> bool eq(const std::deque<T,A>& a, const std::deque<T,A>& b, Tag) {return eqSeq(a,b);}
  template <class T, class C, class A> bool eq(const std::set<T,C,A>& a, const std::set<T,C,A>& b, Tag) {return eqSeq(a,b);}
  template <class T, class C, class A> bool eq(const std::multiset<T,C,A>& a, const std::multiset<T,C,A>& b, Tag) {return eqSeq(a,b);}
  template <class K, class T, class C, class A> bool eq(const std::map<K,T,C,A>& a, const std::map<K,T,C,A>& b, Tag) {return eqSeq(a,b);}
  template <class K, class T, class C, class A> bool eq(const std::multimap<K,T,C,A>& a, const std::multimap<K,T,C,A>& b, Tag) {return eqSeq(a,b);}
  template <class A, class B> bool eq(const std::pair<A,B>& a, const std::pair<A,B>& b, Tag) {return eq(a.first,b.first,Tag()) && eq(a.second,b.second,Tag());}

  // ---- text for descriptions
  template <class T> void showNum(std::ostream& o, T x) {o<<x;}
  inline void show(std::ostream& o, bool x, Tag) {o<<x;}
  inline void show(std::ostream& o, char x, Tag) {o<<"c"<<int(x);}
  inline void show(std::ostream& o, signed char x, Tag) {o<<"c"<<int(x);}
  inline void show(std::ostream& o, unsigned char x, Tag) {o<<"c"<<int(x);}
  inline void show(std::ostream& o, wchar_t x, Tag) {o<<"w"<<long(x);}
  inline void show(std::ostream& o, short x, Tag) {o<<x;}
  inline void show(std::ostream& o, unsigned short x, Tag) {o<<x;}
  inline void show(std::ostream& o, int x, Tag) {o<<x;}
  inline void show(std::ostream& o, unsigned x, Tag) {o<<x;}
  inline void show(std::ostream& o, long x, Tag) {o<<x;}
  inline void show(std::ostream& o, unsigned long x, Tag) {o<<x;}
  inline void show(std::ostream& o, long long x, Tag) {o<<x;}
  inline void show(std::ostream& o, unsigned long long x, Tag) {o<<x;}
  inline void show(std::ostream& o, float x, Tag) {o<<x;}
  inline void show(std::ostream& o, double x, Tag) {o<<x;}
  inline void show(std::ostream& o, long double x, Tag) {o<<x;}
  inline void show(std::ostream& o, const std::string& x, Tag) {o<<pbt::show(x);}
  inline void show(std::ostream& o, const std::wstring& x, Tag) {o<<"L["<<x.size()<<"]";}
  template <class T, size_t N> void show(std::ostream&, const T(&)[N], Tag);
  template <class T, class A> void show(std::ostream&, const std::vector<T,A>&, Tag);
  template <class T, class A> void show(std::ostream&, const std::list<T,A>&, Tag);
  template <class T, class A> void show(std::ostream&, const std::deque<T,A>&, Tag);
  template <class T, class C, class A> void show(std::ostream&, const std::set<T,C,A>&, Tag);
  template <class T, class C, class A> void show(std::ostream&, const std::multiset<T,C,A>&, Tag);
  template <class K, class T, class C, class A> void show(std::ostream&, const std::map<K,T,C,A>&, Tag);
  template <class K, class T, class C, class A> void show(std::ostream&, const std::multimap<K,T,C,A>&, Tag);
  template <class A, class B> void show(std::ostream&, const std::pair<A,B>&, Tag);
  template <class T> void showSeq(std::ostream& o, const T& a)
  {
    o<<"{";
    for (typename T::const_iterator i=a.begin(); i!=a.end(); ++i) {if (i!=a.begin()) o<<","; show(o,*i,Tag());}
    o<<"}";
  }
  template <class T, size_t N> void show(std::ostream& o, const T(&a)[N], Tag) {o<<"["; for (size_t i=0; i<N; ++i) {if (i) o<<","; show(o,a[i],Tag());} o<<"]";}
  template <class T, class A> void show(std::ostream& o, const std::vector<T,A>& a, Tag) {showSeq(o,a);}
  template <class T, class A> void show(std::ostream& o, const std::list<T,A>& a, Tag) {showSeq(o,a);}
  template <class T, class A> void show(std::ostream& o, const std::deque<T,A>& a, Tag) {showSeq(o,a);}
  template <class T, class C, class A> void show(std::ostream& o, const std::set<T,C,A>& a, Tag) {showSeq(o,a);}
  template <class T, class C, class A> void show(std::ostream& o, const std::multiset<T,C,A>& a, Tag) {showSeq(o,a);}
  template <class K, class T, class C, class A> void show(std::ostream& o, const std::map<K,T,C,A>& a, Tag) {showSeq(o,a);}
  template <class K, class T, class C, class A> void show(std::ostream& o, const std::multimap<K,T,C,A>& a, Tag) {showSeq(o,a);}
  template <class A, class B> void show(std::ostream& o, const std::pair<A,B>& a, Tag) {o<<"("; show(o,a.first,Tag()); o<<":"; show(o,a.second,Tag()); o<<")";}

  // ---- smart pointers: value semantics here (sharing is the business of other checks)
  template <class P> void genPtr(Src& s, P& x)
  {
    typedef typename P::element_type T;
    if ((depth()>4 && !profile().nonNull) || (!profile().nonNull && s.chance(1,4))) {x=P(); return;}
    Deeper d;
    T* p=new T();
    x=P(p);
    bool was=profile().nonNull;
    if (profile().nonNullElem) profile().nonNull=false;
    gen(s,*p);
    profile().nonNull=was;
  }
  template <class P> bool eqPtr(const P& a, const P& b)
  {
    if (!a || !b) return !a && !b;
    return eq(*a,*b,Tag());
  }
  template <class P> void showPtr(std::ostream& o, const P& a)
  {
    if (!a) o<<"null"; else {o<<"->"; show(o,*a,Tag());}
  }
#if __cplusplus<201103L
  template <class T> void gen(Src& s, std::tr1::shared_ptr<T>& x) {genPtr(s,x);}
  template <class T> void genElem(Src& s, std::tr1::shared_ptr<T>& x) {NonNull n; genPtr(s,x);}
  template <class T> bool eq(const std::tr1::shared_ptr<T>& a, const std::tr1::shared_ptr<T>& b, Tag) {return eqPtr(a,b);}
  template <class T> void show(std::ostream& o, const std::tr1::shared_ptr<T>& a, Tag) {showPtr(o,a);}
#else
  template <class T> void gen(Src& s, std::shared_ptr<T>& x) {genPtr(s,x);}
  template <class T> void genElem(Src& s, std::shared_ptr<T>& x) {NonNull n; genPtr(s,x);}
  template <class T> bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b, Tag) {return eqPtr(a,b);}
  template <class T> void show(std::ostream& o, const std::shared_ptr<T>& a, Tag) {showPtr(o,a);}
  template <class T, class D> void gen(Src& s, std::unique_ptr<T,D>& x) {genPtr(s,x);}
  template <class T, class D> bool eq(const std::unique_ptr<T,D>& a, const std::unique_ptr<T,D>& b, Tag) {return eqPtr(a,b);}
  template <class T, class D> void show(std::ostream& o, const std::unique_ptr<T,D>& a, Tag) {showPtr(o,a);}
  template <class T, size_t N> void gen(Src& s, std::array<T,N>& x) {Deeper d; for (size_t i=0; i<N; ++i) genElem(s,x[i]);}
  template <class T, size_t N> bool eq(const std::array<T,N>& a, const std::array<T,N>& b, Tag) {for (size_t i=0; i<N; ++i) if (!eq(a[i],b[i],Tag())) return false; return true;}
  template <class T, size_t N> void show(std::ostream& o, const std::array<T,N>& a, Tag) {showSeq(o,a);}
  // unordered containers: values of the elements generated are distinct and totally ordered, compared sorted
  template <class T, class H, class E, class A> void gen(Src& s, std::unordered_set<T,H,E,A>& x) {genSet(s,x);}
  template <class K, class T, class H, class E, class A> void gen(Src& s, std::unordered_map<K,T,H,E,A>& x) {genMap(s,x);}
  template <class T, class H, class E, class A> void gen(Src& s, std::unordered_multiset<T,H,E,A>& x) {genSet(s,x);}
  template <class K, class T, class H, class E, class A> void gen(Src& s, std::unordered_multimap<K,T,H,E,A>& x) {genMap(s,x);}
  template <class T> bool eqUnordered(const T& a, const T& b)
  {
    if (a.size()!=b.size()) return false;
    std::vector<bool> used(b.size());
    for (auto& i: a)
      {
        bool found=false; size_t k=0;
        for (auto& j: b) {if (!used[k] && eq(i,j,Tag())) {used[k]=true; found=true; break;} ++k;}
        if (!found) return false;
      }
    return true;
  }
  template <class T, class H, class E, class A> bool eq(const std::unordered_set<T,H,E,A>& a, const std::unordered_set<T,H,E,A>& b, Tag) {return eqUnordered(a,b);}
  template <class T, class H, class E, class A> bool eq(const std::unordered_multiset<T,H,E,A>& a, const std::unordered_multiset<T,H,E,A>& b, Tag) {return eqUnordered(a,b);}
  template <class K, class T, class H, class E, class A> bool eq(const std::unordered_map<K,T,H,E,A>& a, const std::unordered_map<K,T,H,E,A>& b, Tag) {return eqUnordered(a,b);}
  template <class K, class T, class H, class E, class A> bool eq(const std::unordered_multimap<K,T,H,E,A>& a, const std::unordered_multimap<K,T,H,E,A>& b, Tag) {return eqUnordered(a,b);}
  template <class K, class T, class H, class E, class A> void show(std::ostream& o, const std::unordered_multimap<K,T,H,E,A>& a, Tag) {showSeq(o,a);}
  template <class T, class H, class E, class A> void show(std::ostream& o, const std::unordered_set<T,H,E,A>& a, Tag) {showSeq(o,a);}
  template <class T, class H, class E, class A> void show(std::ostream& o, const std::unordered_multiset<T,H,E,A>& a, Tag) {showSeq(o,a);}
  template <class K, class T, class H, class E, class A> void show(std::ostream& o, const std::unordered_map<K,T,H,E,A>& a, Tag) {showSeq(o,a);}
  template <class... A> void gen(Src& s, std::tuple<A...>& x) {std::apply([&](auto&... e) {(genElem(s,e),...);},x);}
  template <class T, size_t... I> bool eqTuple(const T& a, const T& b, std::index_sequence<I...>) {return (eq(std::get<I>(a),std::get<I>(b),Tag()) && ...);}
  template <class... A> bool eq(const std::tuple<A...>& a, const std::tuple<A...>& b, Tag) {return eqTuple(a,b,std::index_sequence_for<A...>());}
  template <class... A> void show(std::ostream& o, const std::tuple<A...>& a, Tag) {o<<"<"; std::apply([&](auto&... e) {((show(o,e,Tag()),o<<","),...);},a); o<<">";}
#endif

  template <class T> std::string str(const T& x) {std::ostringstream o; show(o,x,Tag()); return o.str();}
}
#endif
