// P28: BinStream over every buffer type against the raw bytes of the values
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "values.h"
#include <deque>
using namespace pbt;
using namespace classdesc;
namespace
{
  enum Colour {red, green=7, blue=-3};
  struct Plain {double b; int a; short c[2]; bool operator==(const Plain& x) const {return memcmp(this,&x,sizeof(x))==0;}};
  struct Inner {long k; Plain p[2]; Colour col; int pad;};
  struct Big {char c[3000];};
  void gen(Src& s, Colour& x) {x=Colour(s.range(-4,8));}
  void gen(Src& s, Plain& x) {memset(&x,0,sizeof(x)); pbt::gen(s,x.b); pbt::gen(s,x.a); pbt::gen(s,x.c[0]); pbt::gen(s,x.c[1]);}
  void gen(Src& s, Inner& x) {memset(&x,0,sizeof(x)); pbt::gen(s,x.k); gen(s,x.p[0]); gen(s,x.p[1]); gen(s,x.col);}
  void gen(Src& s, Big& x) {int k=s.below(256); for (int i=0; i<3000; ++i) x.c[i]=char(k+i*7);}

  // plain data: compared and laid out as bytes
  template <class T> struct P
  {
    static void make(Src& s, T& x) {using pbt::gen; gen(s,x);}
    static bool same(const T& a, const T& b) {return memcmp(&a,&b,sizeof(T))==0;}
    static void bytes(std::string& o, const T& x, size_t al) {o.append((const char*)&x,sizeof(T)); while (o.size()%al) o+='\0';}
  };
  // long double and others with padding would not be comparable as bytes: bool and the rest are
  inline void count(std::string& o, size_t n, size_t al) {u64 k=n; o.append((const char*)&k,8); while (o.size()%al) o+='\0';}
  template <class C> struct Seq
  {
    typedef typename C::value_type V;
    static void make(Src& s, C& x)
    {
      x.clear();
      for (size_t n=s.len(60); n; --n) {V v; P<V>::make(s,v); x.push_back(v);}
    }
    static bool same(const C& a, const C& b)
    {
      if (a.size()!=b.size()) return false;
      typename C::const_iterator i=a.begin(), j=b.begin();
      for (; i!=a.end(); ++i, ++j) if (!P<V>::same(*i,*j)) return false;
      return true;
    }
    static void bytes(std::string& o, const C& x, size_t al)
    {
      count(o,x.size(),al);
      for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) P<V>::bytes(o,*i,al);
    }
  };
  template <class T> struct P<std::list<T> >: public Seq<std::list<T> > {};
  template <class T> struct P<std::deque<T> >: public Seq<std::deque<T> > {};
  // vectors go as one block
  template <class T> struct P<std::vector<T> >: public Seq<std::vector<T> >
  {
    static void bytes(std::string& o, const std::vector<T>& x, size_t al)
    {
      count(o,x.size(),al);
      if (!x.empty()) o.append((const char*)&x[0],x.size()*sizeof(T));
      while (o.size()%al) o+='\0';
    }
  };
  template <class C> struct Assoc
  {
    // the same elements (ordered containers have them in the same order anyway)
    static std::multiset<std::string> elements(const C& x)
    {
      std::multiset<std::string> r;
      for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {std::string e; P<typename C::value_type>::bytes(e,*i,1); r.insert(e);}
      return r;
    }
    static bool same(const C& a, const C& b) {return elements(a)==elements(b);}
    static void bytes(std::string& o, const C& x, size_t al)
    {
      count(o,x.size(),al);
      for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) P<typename C::value_type>::bytes(o,*i,al);
    }
  };
  template <class C> struct SetLike: public Assoc<C>
  {
    static void make(Src& s, C& x)
    {
      x.clear();
      for (size_t n=s.len(40); n; --n) {typename C::value_type v; P<typename C::value_type>::make(s,v); x.insert(v);}
    }
  };
  template <class C> struct MapLike: public Assoc<C>
  {
    static void make(Src& s, C& x)
    {
      x.clear();
      for (size_t n=s.len(40); n; --n)
        {
          typename C::key_type k; typename C::mapped_type v;
          P<typename C::key_type>::make(s,k); P<typename C::mapped_type>::make(s,v);
          x.insert(typename C::value_type(k,v));
        }
    }
  };
  template <class T> struct P<std::set<T> >: public SetLike<std::set<T> > {};
  template <class T> struct P<std::multiset<T> >: public SetLike<std::multiset<T> > {};
  template <class K, class T> struct P<std::map<K,T> >: public MapLike<std::map<K,T> > {};
  template <class K, class T> struct P<std::multimap<K,T> >: public MapLike<std::multimap<K,T> > {};
#if __cplusplus>=201103L
  template <class T> struct P<std::unordered_set<T> >: public SetLike<std::unordered_set<T> > {};
  template <class K, class T> struct P<std::unordered_map<K,T> >: public MapLike<std::unordered_map<K,T> > {};
  template <class K, class T> struct P<std::unordered_multimap<K,T> >: public MapLike<std::unordered_multimap<K,T> > {};
  template <class T, size_t N> struct P<std::array<T,N> >
  {
    typedef std::array<T,N> C;
    static void make(Src& s, C& x) {for (auto& i: x) P<T>::make(s,i);}
    static bool same(const C& a, const C& b) {for (size_t i=0; i<N; ++i) if (!P<T>::same(a[i],b[i])) return false; return true;}
    static void bytes(std::string& o, const C& x, size_t al)
    {
      count(o,N,al);
      for (auto& i: x) P<T>::bytes(o,i,al);
    }
  };
#endif

  struct Item
  {
    size_t end;
    virtual ~Item() {}
    virtual void put(BinStream&)=0;
    virtual void get(Src&, BinStream&)=0;
    virtual void bytes(std::string&, size_t al)=0;
    virtual const char* name()=0;
  };
  template <class T> struct ItemT: public Item
  {
    T x; const char* nm;
    ItemT(Src& s, const char* nm): x(), nm(nm) {P<T>::make(s,x);}
    void put(BinStream& b) {BinStream& r=b<<x; PBT_CHECK(&r==&b,"<< does not return the stream");}
    void get(Src& s, BinStream& b)
    {
      T y=T();
      P<T>::make(s,y);           // whatever was there is replaced
      BinStream& r=b>>y;
      PBT_CHECK(&r==&b,">> does not return the stream");
      PBT_CHECK(P<T>::same(x,y),nm<<" streamed out differs from the one streamed in");
    }
    void bytes(std::string& o, size_t al) {P<T>::bytes(o,x,al);}
    const char* name() {return nm;}
  };
  template <class T, int N> struct ArrT: public Item
  {
    T x[N];
    ArrT(Src& s) {for (int i=0; i<N; ++i) P<T>::make(s,x[i]);}
    void put(BinStream& b) {b<<x;}
    void get(Src& s, BinStream& b)
    {
      T y[N]; memset(y,'?',sizeof(y));
      b>>y;
      PBT_CHECK(memcmp(x,y,sizeof(x))==0,"array streamed out differs from the one streamed in");
    }
    void bytes(std::string& o, size_t al) {o.append((const char*)x,sizeof(x)); while (o.size()%al) o+='\0';}
    const char* name() {return "array";}
  };
#define IT(...) new ItemT<__VA_ARGS__ >(s,#__VA_ARGS__)
  typedef std::map<int,int> mii; typedef std::multimap<long,double> mld; typedef std::map<short,Plain> msp; typedef std::map<char,bool> mcb;
#if __cplusplus>=201103L
  typedef std::unordered_map<int,float> umif; typedef std::unordered_multimap<long,long> ummll;
  typedef std::array<int,3> ai3; typedef std::array<Plain,2> ap2; typedef std::list<std::array<short,2> > las; typedef std::array<std::list<int>,2> ali;
  const unsigned kinds=42;
#else
  const unsigned kinds=34;
#endif
  Item* randomItem(Src& s)
  {
    switch (s.below(kinds))
      {
      case 0: return IT(bool); case 1: return IT(char); case 2: return IT(signed char); case 3: return IT(unsigned char);
      case 4: return IT(short); case 5: return IT(unsigned short); case 6: return IT(int); case 7: return IT(unsigned);
      case 8: return IT(long); case 9: return IT(unsigned long); case 10: return IT(long long); case 11: return IT(unsigned long long);
      case 12: return IT(float); case 13: return IT(double); case 14: return IT(wchar_t); case 15: return IT(Colour);
      case 16: return IT(Plain); case 17: return IT(Inner); case 18: return s.below(4)? IT(Plain): (Item*)IT(Big);
      case 19: return new ArrT<int,3>(s); case 20: return new ArrT<char,7>(s);
      case 21: return IT(std::vector<int>); case 22: return IT(std::vector<Plain>); case 23: return IT(std::vector<char>);
      case 24: return IT(std::deque<long>); case 25: return IT(std::list<float>); case 26: return IT(std::set<int>);
      case 27: return IT(std::multiset<short>); case 28: return IT(mii); case 29: return IT(mld);
      case 30: return IT(std::list<std::vector<short> >); case 31: return IT(std::deque<std::list<Plain> >);
      case 32: return IT(std::list<std::set<int> >); case 33: return IT(std::set<std::vector<int> >);
#if __cplusplus>=201103L
      case 34: return IT(umif); case 35: return IT(std::unordered_set<long>); case 36: return IT(ummll);
      case 37: return IT(ai3); case 38: return IT(ap2); case 39: return IT(las); case 40: return IT(ali);
      case 41: return IT(std::list<std::unordered_set<int> >);
#endif
      }
    return 0;
  }

  // a history on one stream over pack (a buffer in memory)
  template <class Pack> void history(Src& s, BinStream& b, Pack& p, size_t al)
  {
    std::vector<Item*> items; std::string e; size_t next=0; int reads=0;
    for (size_t n=1+s.below(25), k=0; k<n; ++k)
      switch (s.below(8))
        {
        case 0: case 1: case 2: case 3:
          {
            Item* i=randomItem(s); items.push_back(i);
            s.desc<<"<<"<<i->name()<<"; ";
            i->put(b); i->bytes(e,al); i->end=e.size();
            PBT_CHECK(p.size()==e.size() && memcmp(p.data(),e.data(),e.size())==0,
                      "after << "<<i->name()<<" the buffer holds "<<p.size()<<" bytes "<<hex(p.data(),p.size())<<", expected "<<e.size()<<" "<<hex(e.data(),e.size()));
            break;
          }
        case 4: case 5: case 6:
          if (next<items.size())
            {
              s.desc<<">>"<<items[next]->name()<<"; ";
              items[next]->get(s,b);
              checkEq(p.pos(),items[next]->end,"read position");
              next++; reads++;
            }
          else
            {
              s.desc<<">> past the end; ";
              bool threw=false;
              try {if (s.coin()) {int x; b>>x;} else {std::vector<int> x; b>>x;}}
              catch (const std::exception&) {threw=true;}
              PBT_CHECK(threw,"reading past the end does not throw");
            }
          break;
        case 7: if (s.below(3)==0) {s.desc<<"reseto; "; p.reseto(); next=0;} break;
        }
    s.nontrivial(items.size()>2 && reads>1);
    for (size_t i=0; i<items.size(); ++i) delete items[i];
  }
  void memory(Src& s)
  {
    switch (s.below(4))
      {
      case 0: {s.label("pack_t"); pack_t p; BinStream b(p); history(s,b,p,1); break;}
      case 1: {s.label("xdr_pack"); xdr_pack p; BinStream b(p); history(s,b,p,4); break;}
      case 2: {s.label("BinStreamT<pack_t>"); BinStreamT<pack_t> b; history(s,b,b.thePack,1); break;}
      default: {s.label("BinStreamT<xdr_pack>"); BinStreamT<xdr_pack> b; history(s,b,b.thePack,4); break;}
      }
  }
  template <class Pack> void inFile(Src& s, size_t al)
  {
    std::string fn=std::string(getenv("VERIF_SCRATCH")? getenv("VERIF_SCRATCH"): ".")+"/b", e;
    std::vector<Item*> items(1+s.below(12));
    for (size_t i=0; i<items.size(); ++i) {items[i]=randomItem(s); s.desc<<items[i]->name()<<"; ";}
    {
      BinStreamT<Pack> w(fn.c_str(),"w");
      for (size_t i=0; i<items.size(); ++i) {items[i]->put(w); items[i]->bytes(e,al);}
    }
    FILE* f=fopen(fn.c_str(),"r");
    std::string got; char tmp[4096]; size_t k;
    while ((k=fread(tmp,1,sizeof(tmp),f))>0) got.append(tmp,k);
    fclose(f);
    PBT_CHECK(got==e,"file holds "<<hex(got.data(),got.size())<<", expected "<<hex(e.data(),e.size()));
    {
      BinStreamT<Pack> r(fn.c_str(),"r");
      for (size_t i=0; i<items.size(); ++i) items[i]->get(s,r);
      if (s.coin())
        {
          r.thePack.reseto();
          for (size_t i=0; i<items.size(); ++i) items[i]->get(s,r);
        }
      bool threw=false; int c;
      try {r>>c;} catch (const std::exception&) {threw=true;}
      PBT_CHECK(threw,"reading past the end of the file does not throw");
    }
    for (size_t i=0; i<items.size(); ++i) delete items[i];
    s.nontrivial(items.size()>2);
  }
  void file(Src& s) {if (s.coin()) inFile<pack_t>(s,1); else inFile<xdr_pack>(s,4);}
}
static const Case cases[]={{"memory",memory},{"file",file}};
PBT_MAIN(cases)
