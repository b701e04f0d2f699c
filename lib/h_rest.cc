// RESTProcess: random histories of commands against a plain model of the object: P25
#include "json_pack_base.h"
#include "RESTProcess_base.h"
#include "pack_base.h"
#include "rest_types.h"
#include "json.cd"
#include "rest.cd"
#include "stringKeyMap.h"
#include "classdesc_epilogue.h"
#include "RESTProcess_epilogue.h"
#include "pbt.h"
#include <functional>
using namespace pbt;
using namespace rt;
namespace jp=json5_parser;
namespace cd=classdesc;
typedef jp::mValue V;
int Root::si;
const int Root::csi;
namespace
{
  std::string str(const V& v) {return jp::write_string(v);}

  cd::json_pack_t buffer(const V& v) {cd::json_pack_t j; static_cast<V&>(j)=v; return j;}

  // ---- the JSON of a value, by hand
  V J(bool x) {return x;}
  V J(int x) {return boost::int64_t(x);}
  V J(unsigned short x) {return boost::int64_t(x);}
  V J(long x) {return boost::int64_t(x);}
  V J(long long x) {return boost::int64_t(x);}
  V J(unsigned long long x) {return boost::uint64_t(x);}
  V J(size_t x) {return boost::uint64_t(x);}
  V J(double x) {return x;}
  V J(float x) {return double(x);}
  V J(char x) {return std::string(1,x);}
  V J(const std::string& x) {return x;}
  const char* nameOf(Colour c) {switch (c) {case red: return "red"; case green: return "green"; case blue: return "blue"; default: return "dark_red";}}
  const char* nameOf(Mood c) {switch (c) {case Mood::calm: return "calm"; case Mood::angry: return "angry"; default: return "glad";}}
  V J(Colour c) {return nameOf(c);}
  V J(Mood c) {return nameOf(c);}
  V J(const Leaf&); V J(const Mid&); V J(const Root&); V J(const IPoly&);
  template <class T> V J(const std::shared_ptr<T>& p);
  template <class T> V J(const std::unique_ptr<T>& p);
  template <class T> V J(const std::weak_ptr<T>& p);
  template <class T> V J(const std::vector<T>& c);
  template <class T> V J(const std::list<T>& c);
  template <class T> V J(const std::deque<T>& c);
  template <class A, class B> V J(const std::pair<A,B>& p) {jp::mObject o; o["first"]=J(p.first); o["second"]=J(p.second); return o;}
  template <class C> V list(const C& c) {jp::mArray a; for (auto& i: c) a.push_back(J(i)); return a;}
  template <class T> V J(const std::vector<T>& c) {return list(c);}
  template <class T> V J(const std::list<T>& c) {return list(c);}
  template <class T> V J(const std::deque<T>& c) {return list(c);}
  template <class T> V J(const std::set<T>& c) {return list(c);}
  template <class K, class T> V J(const std::map<K,T>& c) {return list(c);}
  template <class K, class T> V J(const std::unordered_map<K,T>& c) {return list(std::map<K,T>(c.begin(),c.end()));}
  V J(const cd::StringKeyMap<int>& c) {jp::mObject o; for (auto& i: c) o[i.first]=J(i.second); return o;}
  template <class P> V pointer(const P& p) {if (!p) return jp::mObject(); return J(*p);}
  template <class T> V J(const std::shared_ptr<T>& p) {return pointer(p);}
  template <class T> V J(const std::unique_ptr<T>& p) {return pointer(p);}
  template <class T> V J(const std::weak_ptr<T>& p) {return pointer(p.lock());}
  V J(const Leaf& x)
  {
    jp::mObject o;
    o["i"]=J(x.i); o["d"]=J(x.d); o["s"]=J(x.s); o["b"]=J(x.b); o["c"]=J(x.c); o["us"]=J(x.us); o["calls"]=J(x.calls);
    return o;
  }
  V J(const Mid& x)
  {
    jp::mObject o;
    o["leaf"]=J(x.leaf); o["vi"]=J(x.vi); o["vl"]=J(x.vl); o["msi"]=J(x.msi); o["mil"]=J(x.mil); o["mood"]=J(x.mood);
    return o;
  }
  V J(const IPoly& x) {jp::mObject o; if (auto a=dynamic_cast<const PolyA*>(&x)) {o["a"]=J(a->a); o["av"]=J(a->av);} return o;}
  // the state of an object, for comparison of the object with its model
  V J(const Root& x)
  {
    jp::mObject o;
#define M(m) o[#m]=J(x.m)
    M(bi); M(bs); M(n); M(ch); M(f); M(ll); M(ull); M(ci); M(mid); M(ls); M(dd); M(vvi); M(vpl); M(seti); M(sets); M(msl); M(msv); M(mci);
    M(umii); M(skm); M(pl); M(um); M(wl); M(pi); M(poly); M(pr);
#undef M
    jp::mArray a; for (int i: x.arr) a.push_back(J(i));
    o["arr"]=a;
    jp::mArray b; for (auto& r: x.arr2) for (int i: r) b.push_back(J(i));
    o["arr2"]=b;
    return o;
  }

  // ---- names of types
  template <class T> struct Name;
#define NAME(t,n) template <> struct Name<t> {static std::string get() {return n;}};
  NAME(int,"int") NAME(bool,"bool") NAME(char,"char") NAME(float,"float") NAME(double,"double") NAME(unsigned short,"unsigned short")
  NAME(long long,"long long") NAME(unsigned long long,"unsigned long long") NAME(std::string,"std::string") NAME(Colour,"::Colour") NAME(Mood,"::rt::Mood") NAME(Leaf,"::rt::Leaf")
  NAME(Mid,"::rt::Mid") NAME(const int,"const int")
#undef NAME

  // ---- one command and what should come of it
  struct Cmd
  {
    std::string path, args, want, kind;
    bool throws=false, ofValue=false;  // ofValue: in what a method returned by value, which lives as long as its result
    std::vector<size_t> splits;                           // where the path could be entered half way
    std::function<cd::RPPtr(cd::RPPtr)> api;              // in place of a command on the path
  };

  class Walk
  {
  public:
    Src& s;
    Cmd c;
    size_t atPointer=0; // length of the path to a pointer
    explicit Walk(Src& s): s(s) {}
    // -- values
    int num() {return s.chance(3,4)? s.range(-9,9): s.chance(1,3)? (s.coin()? 2147483647: -2147483647-1): int(s.range(-100000,100000));}
    void gen(int& x) {x=num();}
    void gen(bool& x) {x=s.coin();}
    void gen(char& x) {x="aZ 0.\"\\~"[s.below(8)];}
    void gen(unsigned short& x) {x=s.coin()? s.below(9): 65535-s.below(9);}
    void gen(long long& x) {x=s.coin()? num(): s.coin()? -9223372036854775807LL-1: 9223372036854775807LL-(long long)s.below(5);}
    void gen(unsigned long long& x) {x=s.coin()? s.below(9): 18446744073709551615ULL-s.below(5);}
    void gen(double& x) {static const double v[]={0,1.5,-2.25,1e300,3e-7,0.1,-7,1e10}; x=v[s.below(8)];}
    void gen(float& x) {static const float v[]={0,1.5f,-2.25f,1e30f,0.1f,7,-1,16777216}; x=v[s.below(8)];}
    void gen(std::string& x)
    {
      static const char* v[]={"","a","bc","a.b","\"q\"","x y","{1}","@elem","1","\\n\n","'s","[2]","red",".","hello world","a@size"};
      x=v[s.below(16)];
    }
    void gen(Colour& x) {static const Colour v[]={red,green,blue,dark_red}; x=v[s.below(4)];}
    void gen(Mood& x) {static const Mood v[]={Mood::calm,Mood::angry,Mood::glad}; x=v[s.below(3)];}
    void gen(Leaf& x) {gen(x.i); gen(x.d); gen(x.s); gen(x.b); gen(x.c); gen(x.us); x.calls=s.below(3);}
    template <class A, class B> void gen(std::pair<A,B>& p) {gen(p.first); gen(p.second);}
    template <class C> void genSeq(C& c) {c.clear(); for (size_t n=s.len(6); n>0; --n) {typename C::value_type v{}; gen(v); c.push_back(v);}}
    template <class T> void gen(std::vector<T>& x) {genSeq(x);}
    template <class T> void gen(std::list<T>& x) {genSeq(x);}
    template <class T> void gen(std::deque<T>& x) {genSeq(x);}
    template <class K> void gen(std::set<K>& x) {x.clear(); for (size_t n=s.len(6); n>0; --n) {K k{}; gen(k); x.insert(k);}}
    template <class C> void genMap(C& x) {x.clear(); for (size_t n=s.len(6); n>0; --n) {typename C::key_type k{}; gen(k); gen(x[k]);}}
    template <class K, class T> void gen(std::map<K,T>& x) {genMap(x);}
    template <class K, class T> void gen(std::unordered_map<K,T>& x) {genMap(x);}
    void gen(cd::StringKeyMap<int>& x) {x.clear(); for (size_t n=s.len(4); n>0; --n) {std::string k; do gen(k); while (k.empty()||k.find('.')!=std::string::npos); gen(x[k]);}}

    // -- ends of commands
    void done(const char* kind, const V& want) {c.kind=kind; c.want=str(want);}
    void bad(const char* kind) {c.kind=kind; c.throws=true;}
    void arg(const V& v, bool wrap) {c.args=str(v); if (wrap) c.args="["+c.args+"]";}
    void split() {c.splits.push_back(c.path.size());}
    bool unknown()
    {
      if (!s.chance(1,16)) return false;
      static const char* t[]={".nosuch",".@siz",".i.nosuch",".@nosuch.0"};
      c.path+=t[s.below(4)];
      if (s.coin()) arg(J(num()),s.coin());
      bad("unknown path");
      return true;
    }
    template <class T> bool about()
    {
      if (c.path.size()==atPointer || !s.chance(1,16)) return false;
      std::string n=Name<T>::get();
      if (s.coin()) {c.path+=".@type"; done("type",V(n)); return true;}
      c.path+=".@signature";
      jp::mObject get, set;
      jp::mArray none, one; one.push_back(V(n));
      get["ret"]=V(n); get["args"]=none; set["ret"]=V(n); set["args"]=one;
      jp::mArray r; r.push_back(get); r.push_back(set);
      done("signature",r);
      return true;
    }
    bool listed(std::vector<std::string> names)
    {
      if (!s.chance(1,16)) return false;
      c.path+=".@list";
      std::sort(names.begin(),names.end());
      done("list",J(names));
      return true;
    }
    template <class T> bool get(const T& m)
    {
      if (!s.chance(1,5)) return false;
      done("get",J(m));
      return true;
    }

    // -- scalars. direct: is the argument the value itself, not in a list of arguments
    template <class T> void scalar(T& m, bool konst=false)
    {
      if (s.chance(1,24)) {c.path+=".nosuch"; return bad("unknown path");}
      if (s.chance(1,3)) return done("get",J(m));
      T v{}; gen(v);
      if (!konst && std::is_arithmetic<T>::value && !std::is_same<T,char>::value && s.chance(1,12)) {arg(V("ab"),s.coin()); return bad("wrong type");}
      if (!konst && std::is_same<T,char>::value && s.chance(1,12)) {arg(V("ab"),s.coin()); return bad("wrong type");}
      arg(J(v),s.coin());
      if (konst) return bad("set constant");
      m=v;
      done("set",J(m));
    }
    template <class T> void leafType(T& m, bool konst) {if (about<T>()) return; scalar(m,konst);}
    void walk(int& m, bool k=false) {if (k) return scalar(m,k); leafType(m,k);}
    void walk(bool& m, bool k=false) {if (k) return scalar(m,k); leafType(m,k);}
    void walk(char& m, bool k=false) {leafType(m,k);}
    void walk(unsigned short& m, bool k=false) {if (k) return scalar(m,k); leafType(m,k);}
    void walk(long long& m, bool k=false) {leafType(m,k);}
    void walk(unsigned long long& m, bool k=false) {leafType(m,k);}
    void walk(double& m, bool k=false) {if (k) return scalar(m,k); leafType(m,k);}
    void walk(float& m, bool k=false) {leafType(m,k);}
    void walk(std::string& m, bool k=false) {if (k) return scalar(m,k); leafType(m,k);}
    template <class E> void enumType(E& m, bool konst)
    {
      if (!konst && s.chance(1,16)) {c.path+=".@type"; return done("type",V(Name<E>::get()));}
      if (s.chance(1,3)) return done("get",J(m));
      E v; gen(v);
      arg(J(v),s.coin());
      if (konst) return bad("set constant");
      m=v;
      done("set",J(m));
    }
    void walk(Colour& m, bool k=false) {enumType(m,k);}
    void walk(Mood& m, bool k=false) {enumType(m,k);}
    template <class A, class B> void walk(std::pair<A,B>& m)
    {
      split();
      if (get(m)) return;
      if (s.chance(1,4)) {gen(m); arg(J(m),s.coin()); return done("set",J(m));}
      if (s.coin()) {c.path+=".first"; walk(m.first);} else {c.path+=".second"; walk(m.second);}
    }

    // -- classes
    void method(const char* name) {c.path+="."; c.path+=name;}
    V args() {return jp::mArray();}
    template <class A> void call(const char* n, const A& a, const V& want) {method(n); arg(J(a),true); if (s.chance(1,2) && J(a).type()!=jp::array_type) c.args=c.args.substr(1,c.args.size()-2); done("method",want);}
    template <class A, class B> void call(const char* n, const A& a, const B& b, const V& want) {method(n); c.args="["+str(J(a))+","+str(J(b))+"]"; done("method",want);}
    void call0(const char* n, const V& want) {method(n); done("method",want);}
    void walk(Leaf& m, bool k=false)
    {
      split();
      if (get(m)) return;
      if (!k && (about<Leaf>() || unknown() || listed({".addTo",".b",".c",".calls",".d",".flip",".get",".i",".join",".reset",".s",".scale",".swapColour",".twice",".us","@enum.::Colour"}))) return;
      if (!k && s.chance(1,5))
        { // some members of it
          jp::mObject o;
          if (s.coin()) {gen(m.i); o["i"]=J(m.i);}
          if (s.coin()) {gen(m.d); o["d"]=J(m.d);}
          if (s.coin()) {gen(m.s); o["s"]=J(m.s);}
          if (s.coin()) {gen(m.c); o["c"]=J(m.c);}
          if (s.coin()) {gen(m.us); o["us"]=J(m.us);}
          if (s.coin()) o["nosuch"]=J(3);
          arg(o,s.coin());
          return done("set members",J(m));
        }
      if (!k && s.chance(2,5))
        switch (s.below(8))
          {
          case 0: {int x=s.range(-50,50); if (m.i>1000000||m.i<-1000000) return call0("get",J(m.i)); ++m.calls; m.i+=x; return call("addTo",x,J(m.i));}
          case 1: return call0("get",J(m.i));
          case 2: {if (m.s.size()>40) return call0("get",J(m.i)); std::string a; gen(a); int n=num(); ++m.calls; m.s=a+std::to_string(n)+m.s; return call("join",a,n,J(m.s));}
          case 3: {int n=m.calls; m=Leaf(); m.calls=n+1; return call0("reset",V());}
          case 4: {Colour x; gen(x); Colour r=m.c; m.c=x; ++m.calls; return call("swapColour",x,J(r));}
          case 5: {++m.calls; m.d=m.d*0.5; return call("scale",0.5,J(m.d));}
          case 6: {++m.calls; m.b=!m.b; return call0("flip",J(m.b));}
          default: {int x=s.range(-50,50); return call("twice",x,J(2L*x));}
          }
      switch (s.below(6))
        {
        case 0: c.path+=".i"; return walk(m.i,k);
        case 1: c.path+=".d"; return walk(m.d,k);
        case 2: c.path+=".s"; return walk(m.s,k);
        case 3: c.path+=".b"; return walk(m.b,k);
        case 4: c.path+=".c"; return walk(m.c,k);
        default: c.path+=".us"; return walk(m.us,k);
        }
    }

    // -- sequences
    template <class C> void sequence(C& m, bool insertable=true, bool assignable=true)
    {
      typedef typename C::value_type E;
      split();
      if (get(m) || unknown() || (insertable && assignable && listed({".@elem",".@elemNoThrow",".@erase",".@insert",".@size"}))) return;
      switch (s.below(8))
        {
        case 0: c.path+=".@size"; return done("size",J(m.size()));
        case 1:
          if constexpr (!std::is_same<E,std::shared_ptr<Leaf>>::value)
            if (assignable)
              {
                if (insertable) gen(m); else for (auto& i: m) gen(i);
                arg(J(m),true);
                return done("set container",J(m));
              }
          break;
        case 2:
          if constexpr (!std::is_same<E,std::shared_ptr<Leaf>>::value)
            {
              E v{}; gen(v);
              if (m.size()>20) break;
              arg(J(v),false);
              if (!insertable) {c.path+=".@insert"; return bad("insert");}
              m.push_back(v);
              if (c.ofValue || s.coin()) {c.path+=".@insert"; return done("insert",J(m));}
              std::string a=c.args; c.args.clear();
              c.api=[a](cd::RPPtr p) {cd::json_pack_t j; jp::read_string(a,j); p->insert(j); return p;};
              return done("api insert",J(m));
            }
          break;
        case 3:
          {
            size_t i=s.below(m.size()+2);
            arg(J(i),s.coin());
            if (!insertable) {c.path+=".@erase"; return bad("erase");}
            if (i<m.size()) {auto p=m.begin(); std::advance(p,i); m.erase(p);}
            if (c.ofValue || s.coin()) {c.path+=".@erase"; return done("erase",J(m));}
            c.args.clear();
            c.api=[i](cd::RPPtr p) {cd::json_pack_t j=buffer(V(boost::uint64_t(i))); p->erase(j); return p;};
            return done("api erase",J(m));
          }
        case 4:
          {
            size_t i=m.size()+s.below(3);
            static const char* idx[]={"x","","-"};
            if (s.chance(1,3)) {c.path+=std::string(".@elem.")+idx[s.below(3)]; return bad("bad index");}
            if (s.coin()) {c.path+=".@elemNoThrow."+std::to_string(i); return done("no such element",V());}
            c.path+=".@elem."+std::to_string(i);
            if (s.coin()) c.path+=".i";
            return bad("no such element");
          }
        case 5:
          if (!m.empty() && insertable && !c.ofValue && !std::is_same<E,std::shared_ptr<Leaf>>::value)
            {
              size_t i=s.below(m.size());
              auto p=m.begin(); std::advance(p,i);
              if (s.coin())
                {
                  c.api=[i](cd::RPPtr p) {cd::json_pack_t j=buffer(V(boost::uint64_t(i))); return p->getElem(j);};
                  return done("api getElem",J(*p));
                }
              if constexpr (!std::is_same<E,std::shared_ptr<Leaf>>::value)
                {
                  gen(*p);
                  V v=J(*p);
                  c.api=[i,v](cd::RPPtr p) {cd::json_pack_t j=buffer(V(boost::uint64_t(i))); return p->setElem(j,buffer(v));};
                  return done("api setElem",v);
                }
            }
          break;
        default: break;
        }
      if (m.empty()) {c.path+=".@size"; return done("size",J(m.size()));}
      size_t i=s.below(m.size());
      c.path+=(s.coin()? ".@elem.": ".@elemNoThrow.")+std::to_string(i);
      auto p=m.begin(); std::advance(p,i);
      walk(*p);
    }
    template <class T> void walk(std::vector<T>& m) {sequence(m);}
    template <class T> void walk(std::list<T>& m) {sequence(m);}
    template <class T> void walk(std::deque<T>& m) {sequence(m);}

    // -- associative containers
    static bool plain(const std::string& k) {return !k.empty() && k.find('.')==std::string::npos && !strchr("\"'{[",k[0]);}
    std::string keyText(int k) {return std::to_string(k);}
    std::string keyText(const std::string& k) {return plain(k) && s.coin()? k: str(V(k));}
    std::string keyText(Colour k) {return str(J(k));}
    template <class C, class K> bool common(C& m, const K& k)
    {
      split();
      if (get(m) || unknown() || listed({".@elem",".@elemNoThrow",".@erase",".@insert",".@keys",".@size"})) return true;
      switch (s.below(8))
        {
        case 0: c.path+=".@size"; done("size",J(m.size())); return true;
        case 1:
          {
            std::vector<K> keys; for (auto& i: m) keys.push_back(cd::keyOf(i));
            if (s.coin()) {c.api=[](cd::RPPtr p) {return p->keys();}; done("api keys",J(keys)); return true;}
            c.path+=".@keys"; done("keys",J(keys)); return true;
          }
        case 2:
          {
            bool there=m.count(k);
            if (s.chance(1,3))
              {
                V key=J(k);
                c.api=[key](cd::RPPtr p) {return cd::makeRESTProcessValueObject(bool(p->contains(buffer(key))));};
                done("api contains",V(there));
                return true;
              }
            m.erase(k);
            c.path+=".@erase"; arg(J(k),!std::is_enum<K>::value && s.coin()); done(there? "erase": "erase nothing",J(m)); return true;
          }
        case 3: {gen(m); bool w=true; if (std::is_same<C,cd::StringKeyMap<int>>::value) w=s.coin(); arg(J(m),w); done("set container",J(m)); return true;}
        default: return false;
        }
    }
    template <class C> typename C::key_type someKey(C& m)
    {
      typename C::key_type k{};
      if (!m.empty() && s.chance(3,4)) {auto p=m.begin(); std::advance(p,s.below(m.size())); return cd::keyOf(*p);}
      gen(k);
      return k;
    }
    template <class C> void mapType(C& m)
    {
      typedef typename C::key_type K; typedef typename C::mapped_type T;
      K k=someKey(m);
      if (common(m,k)) return;
      auto p=m.find(k);
      if (s.chance(1,5))
        {
          std::pair<K,T> v; v.first=k; gen(v.second);
          c.path+=".@insert"; arg(J(v),s.coin());
          if (p!=m.end()) return bad("insert present key");
          m.insert(v);
          return done("insert",J(m));
        }
      const bool noThrow=s.coin();
      c.path+=(noThrow? ".@elemNoThrow.": ".@elem.")+keyText(k);
      if (s.chance(1,3))
        {
          T v{}; gen(v);
          m[k]=v;
          arg(J(v),false);
          return done(p==m.end()? "set new element": "set element",J(v));
        }
      if (p==m.end())
        {
          if (s.coin()) {c.path+=".i"; if (s.coin()) arg(J(3),s.coin());}
          if (noThrow) return done("no such element",V());
          return bad("no such element");
        }
      if (s.chance(1,3)) return done("get element",J(p->second));
      const std::string before=c.path;
      c.ofValue=true; // @elem of a map is presented by value
      walk(p->second);
      c.splits.erase(std::remove(c.splits.begin(),c.splits.end(),before.size()),c.splits.end());
      if (c.path==before && !c.args.empty() && c.args[0]=='[' && (c.kind=="set container")) c.args=c.args.substr(1,c.args.size()-2); // the value itself is wanted here
    }
    template <class K, class T> void walk(std::map<K,T>& m) {mapType(m);}
    void walk(std::unordered_map<int,int>& m) {mapType(m);}
    void walk(cd::StringKeyMap<int>& m)
    {
      std::string k=someKey(m);
      if (k.empty() || k.find('.')!=std::string::npos) k="kk";
      if (common(m,k)) return;
      auto p=m.find(k);
      c.path+=".@elem."+keyText(k);
      if (s.coin()) {int v=num(); m[k]=v; arg(J(v),s.coin()); return done("set element",J(v));}
      if (p==m.end()) return bad("no such element");
      done("get element",J(p->second));
    }
    template <class K> void walk(std::set<K>& m)
    {
      K k=someKey(m);
      if (common(m,k)) return;
      bool there=m.count(k);
      if (s.coin())
        {
          c.path+=".@insert"; arg(J(k),s.coin());
          if (there) return bad("insert present key");
          m.insert(k);
          return done("insert",J(m));
        }
      c.path+=".@elem."+keyText(k);
      switch (s.below(3))
        {
        case 0: if (there) return done("get element",J(k)); return bad("no such element");
        case 1: m.insert(k); arg(V(true),false); return done("set element",J(k));
        default: m.erase(k); arg(V(false),false); return done("remove element",V());
        }
    }

    // -- pointers
    template <class P> void pointerType(P& p)
    {
      atPointer=c.path.size();
      if (p) return walk(*p);
      if (s.coin()) c.path+=".i";
      if (s.coin()) arg(J(4),s.coin());
      done("null pointer",V());
    }
    void walk(std::shared_ptr<Leaf>& p) {pointerType(p);}
    void walk(std::shared_ptr<int>& p)
    {
      if (!p) return done("null pointer",V());
      if (s.coin()) return done("get",J(*p));
      gen(*p); arg(J(*p),s.coin()); done("set",J(*p));
    }
    void walk(std::unique_ptr<Mid>& p) {pointerType(p);}
    void walk(std::weak_ptr<Leaf>& p) {auto q=p.lock(); pointerType(q);}
    void walk(std::shared_ptr<IPoly>& p)
    {
      if (!p) return pointerType2();
      auto a=dynamic_cast<PolyA*>(p.get());
      if (!a) {c.path+=".kind"; return done("virtual method",J(0));}
      switch (s.below(4))
        {
        case 0: c.path+=".kind"; return done("virtual method",J(1));
        case 1: if (a->a<1000000 && a->a>-1000000) {a->a*=2; c.path+=".dbl"; return done("method",J(a->a));}
        case 2: c.path+=".a"; return scalar(a->a);
        default: c.path+=".av"; return walk(a->av);
        }
    }
    void pointerType2() {if (s.coin()) c.path+=".a"; done("null pointer",V());}

    void walk(Mid& m)
    {
      split();
      if (s.chance(1,30)) return done("get",J(m));
      if (unknown() || listed({".at",".copy",".cref",".leaf",".leaf.addTo",".leaf.b",".leaf.c",".leaf.calls",".leaf.d",".leaf.flip",".leaf.get",".leaf.i",".leaf.join",".leaf.reset",".leaf.s",
              ".leaf.scale",".leaf.swapColour",".leaf.twice",".leaf.us",".mil",".mood",".mood2",".msi",".ref",".reversed",".setAll",".setLeaf",".total",".vi",".vl","@enum.::Colour","@enum.::rt::Mood"})) return;
      switch (s.below(16))
        {
        case 0: case 1: case 2: c.path+=".leaf"; return walk(m.leaf);
        case 3: case 4: c.path+=".vi"; return walk(m.vi);
        case 5: c.path+=".vl"; return walk(m.vl);
        case 6: c.path+=".msi"; return walk(m.msi);
        case 7: c.path+=".mil"; return walk(m.mil);
        case 8: c.path+=".mood"; return walk(m.mood);
        case 9: // by reference
          c.path+=".ref";
          if (s.chance(1,3)) {if (s.coin()) return done("method",J(m.leaf)); jp::mObject o; gen(m.leaf.i); o["i"]=J(m.leaf.i); arg(o,s.coin()); return done("set by reference",J(m.leaf));}
          return behind("reference",m.leaf,false);
        case 10:
          {
            size_t i=s.below(m.vl.size()+1);
            c.path+=".at"; arg(J(i),s.coin());
            if (i>=m.vl.size()) return bad("method throws");
            if (s.coin()) return done("method",J(m.vl[i]));
            gen(m.vl[i].i); gen(m.vl[i].s);
            jp::mObject o; o["i"]=J(m.vl[i].i); o["s"]=J(m.vl[i].s);
            c.args="["+str(J(i))+","+str(o)+"]";
            return done("set by reference",J(m.vl[i]));
          }
        case 11: c.path+=".cref"; return behind("constant reference",m.leaf,true);
        case 12: {c.path+=".copy"; Leaf l=m.leaf; return behind("copy",l,false);}
        case 13:
          {
            std::vector<int> v; gen(v); for (auto& i: v) i%=1000;
            c.args="["+str(J(v))+"]";
            if (s.coin()) {m.vi=v; c.path+=".setAll"; return done("method",V());}
            int t=0; for (int i: v) t+=i;
            c.path+=".total"; return done("method",J(t));
          }
        case 14:
          {
            std::vector<int> r(m.vi.rbegin(),m.vi.rend());
            c.path+=".reversed";
            if (s.coin()) return done("method",J(r));
            c.ofValue=true;
            return sequence(r,true,false);
          }
        default:
          if (s.coin()) {c.path+=".setLeaf"; gen(m.leaf); arg(J(m.leaf),s.coin()); return done("method",V());}
          Mood x; gen(x); Mood r=m.mood; m.mood=x;
          c.path+=".mood2"; arg(J(x),s.coin());
          return done("method",J(r));
        }
    }
    // something within what a method returned
    void behind(const char* what, Leaf& l, bool konst)
    {
      c.splits.clear();
      switch (s.below(4))
        {
        case 0: c.path+=".i"; scalar(l.i,konst); break;
        case 1: c.path+=".s"; scalar(l.s,konst); break;
        case 2: c.path+=".d"; scalar(l.d,konst); break;
        default: c.path+=".get"; done("method",J(l.i)); break;
        }
      c.splits.clear();
      c.kind=std::string(what)+", "+c.kind;
    }
    void walk(Root& m)
    {
      switch (s.below(36))
        {
        case 0: c.path+=".n"; return walk(m.n);
        case 1: c.path+=".ch"; return walk(m.ch);
        case 2: c.path+=".f"; return walk(m.f);
        case 3: c.path+=".ll"; return walk(m.ll);
        case 4: c.path+=".ull"; return walk(m.ull);
        case 5: {c.path+=".ci"; int i=m.ci; return scalar(i,true);}
        case 6: c.path+=".si"; return walk(Root::si);
        case 7: {c.path+=".csi"; int i=9; return scalar(i,true);}
        case 8: case 9: case 10: case 11: c.path+=".mid"; return walk(m.mid);
        case 12: c.path+=".ls"; return walk(m.ls);
        case 13: c.path+=".dd"; return walk(m.dd);
        case 14: c.path+=".vvi"; return walk(m.vvi);
        case 15: c.path+=".vpl"; return sequence(m.vpl);
        case 16: c.path+=".seti"; return walk(m.seti);
        case 17: c.path+=".sets"; return walk(m.sets);
        case 18: c.path+=".msl"; return walk(m.msl);
        case 19: c.path+=".msv"; return walk(m.msv);
        case 20: c.path+=".mci"; return walk(m.mci);
        case 21: c.path+=".umii"; return walk(m.umii);
        case 22: c.path+=".skm"; return walk(m.skm);
        case 23: c.path+=".pl"; return walk(m.pl);
        case 24: c.path+=".um"; return walk(m.um);
        case 25: c.path+=".wl"; return walk(m.wl);
        case 26: c.path+=".pi"; return walk(m.pi);
        case 27: c.path+=".poly"; return walk(m.poly);
        case 28: c.path+=".pr"; return walk(m.pr);
        case 29: {c.path+=".arr"; Ints a{m.arr,m.arr+4}; split(); return sequence(a,false);}
        case 30: return table(m);
        case 31: return overloads(m);
        case 32:
          {
            int i=s.below(4);
            c.path+=".elemRef";
            if (s.coin()) {arg(J(i),s.coin()); return done("method",J(m.arr[i]));}
            gen(m.arr[i]);
            c.args="["+std::to_string(i)+","+str(J(m.arr[i]))+"]";
            return done("set by reference",J(m.arr[i]));
          }
        case 33:
          if (s.coin()) {c.path+=".bump"; if (m.bi>1000000) {c.path.erase(c.path.size()-5); c.path+=".bi"; return done("get",J(m.bi));} ++m.bi; return done("base method",J(m.bi));}
          c.path+=".who"; return done("base method",J("base "+m.bs));
        case 34: if (s.coin()) {c.path+=".bi"; return walk(m.bi);} c.path+=".bs"; return walk(m.bs);
        default:
          c.path+=".share";
          if (!m.pl) return done("null pointer",jp::mObject());
          c.path+=".i";
          return scalar(m.pl->i);
        }
    }
    // an array seen as a sequence
    struct Ints
    {
      typedef int value_type; typedef int* iterator;
      int *b, *e;
      int* begin() const {return b;} int* end() const {return e;}
      size_t size() const {return e-b;} bool empty() const {return b==e;}
      void push_back(int) {} void erase(int*) {}
    };
    void gen(Ints& x) {for (int& i: x) gen(i);}
    friend V J(const Ints& x) {jp::mArray a; for (int i: x) a.push_back(boost::int64_t(i)); return a;}
    void table(Root& m)
    { // presented with the first dimension varying fastest, see RESTProcessExpected.txt
      int* a=&m.arr2[0][0];
      c.path+=".arr2";
      if (s.chance(1,4)) {c.path+=".@size"; return done("size",J(3));}
      if (s.chance(1,4)) {jp::mArray r; for (int i=0; i<3; ++i) {jp::mArray x; x.push_back(J(a[2*i])); x.push_back(J(a[2*i+1])); r.push_back(x);} return done("get",r);}
      int i=s.below(3);
      c.path+=".@elem."+std::to_string(i);
      if (s.chance(1,4)) {Ints x{a+2*i,a+2*i+2}; if (s.coin()) {gen(x); arg(J(x),true);} return done("row",J(x));}
      int j=s.below(3);
      c.path+=".@elem."+std::to_string(j);
      if (j>=2) return bad("no such element");
      scalar(a[2*i+j]);
    }
    void overloads(Root& m)
    {
      c.path+=".over";
      int x=s.range(0,99), y=s.range(0,99); std::string t; gen(t); bool b=s.coin();
      switch (s.below(8))
        {
        case 0: return done("overload",V("none"));
        case 1: arg(J(x),s.coin()); return done("overload",J("int "+std::to_string(x)));
        case 2: arg(J(t),s.coin()); return done("overload",J("string "+t));
        case 3: arg(J(b),s.coin()); return done("overload",J(std::string(b? "bool true": "bool false")));
        case 4: c.args="["+str(J(x))+","+str(J(y))+"]"; return done("overload",J("ints "+std::to_string(x)+" "+std::to_string(y)));
        case 5: c.args="["+str(J(t))+","+str(J(b))+"]"; return done("overload",J("sb "+t+(b? "+": "-")));
        case 6:
          {
            std::vector<int> v; gen(v);
            c.args="["+str(J(x))+","+str(J(v))+","+str(s.coin()? J(y+.5): J(y))+"]";
            return done("overload",J("ivd "+std::to_string(x)+" "+std::to_string(v.size())+" "+std::to_string(y)));
          }
        default:
          c.args="["+str(J(t))+","+str(J(x))+"]"; // one argument too many
          return done("overload",J("string "+t));
        }
    }
    template <class T> void free(T& m)
    {
      if (s.coin()) {int a=s.range(-99,99), b=s.range(-99,99); c.path="freeAdd"; c.args="["+str(J(a))+","+str(J(b))+"]"; return done("free function",J(a+b));}
      std::string t; gen(t);
      c.path="free.name"; arg(J(t),s.coin());
      done("free function",J("<"+t+">"));
    }
  };

  void fill(Root& r, u64 seed)
  {
    Src g(seed,100,NULL);
    Walk w(g);
    w.gen(r.n); w.gen(r.ch); w.gen(r.f); w.gen(r.ll); w.gen(r.ull); w.gen(r.bs);
    if (seed%8)
      {
        w.gen(r.mid.leaf); w.gen(r.mid.vi); w.gen(r.mid.vl); w.gen(r.mid.msi); w.gen(r.mid.mil);
        w.gen(r.ls); w.gen(r.dd); w.gen(r.vvi); w.gen(r.seti); w.gen(r.sets); w.gen(r.msl); w.gen(r.msv); w.gen(r.mci); w.gen(r.umii); w.gen(r.skm); w.gen(r.pr);
        for (int& i: r.arr) w.gen(i);
        for (auto& x: r.arr2) for (int& i: x) w.gen(i);
        r.vpl.resize(g.below(4));
        for (auto& p: r.vpl) if (g.coin()) {p.reset(new Leaf); w.gen(*p);}
      }
    if (g.coin()) {r.pl.reset(new Leaf); w.gen(*r.pl); if (g.coin()) r.wl=r.pl;}
    if (g.coin()) {r.um.reset(new Mid); w.gen(r.um->leaf);}
    if (g.coin()) {r.pi.reset(new int); w.gen(*r.pi);}
    if (g.coin()) {r.poly.reset(g.chance(3,4)? static_cast<IPoly*>(new PolyA): new IPoly);}
  }
  // unordered containers may present their elements in any order
  std::string sorted(const std::string& json)
  {
    V v;
    if (!jp::read_string(json,v) || v.type()!=jp::array_type) return json;
    std::vector<std::string> e;
    for (auto& i: v.get_array()) e.push_back(str(i));
    std::sort(e.begin(),e.end());
    std::string r;
    for (auto& i: e) r+=i+";";
    return r;
  }
  void history(Src& s)
  {
    Root real, model;
    u64 seed=s.below(1<<20);
    fill(real,seed); fill(model,seed);
    int staticModel=Root::si=s.range(0,9);
    cd::RESTProcess_t reg;
    const std::string name=s.chance(3,4)? "root": s.coin()? "a.b": "x";
    RESTProcess(reg,name,real);
    RESTProcess(reg,"freeAdd",&freeAdd);
    RESTProcess(reg,"free.name",&freeName);
    size_t steps=1+s.len(20), effective=0;
    for (size_t step=0; step<steps; ++step)
      {
        Walk w(s);
        const int realStatic=Root::si;
        w.c.path=name;
        if (s.chance(1,24)) w.free(model); else w.walk(model);
        Cmd& c=w.c;
        if (c.kind=="skip") continue;
        staticModel=Root::si; Root::si=realStatic;  // the walk changed it as the model would have it
        s.label(c.kind);
        cd::json_pack_t args;
        if (!c.args.empty() && !jp::read_string(c.args,args)) fail("harness: bad arguments "+c.args);
        size_t cut=0;
        if (!c.api && !c.splits.empty() && c.kind!="type" && c.kind!="signature" && c.kind!="list" && s.chance(1,3)) cut=c.splits[s.below(c.splits.size())];
        const bool keep=s.chance(1,4);
        if (s.verbose) s.desc<<c.path.substr(0,cut)<<(cut? "|": "")<<c.path.substr(cut)<<" "<<c.args<<(c.api? " "+c.kind: "")<<" -> "<<(c.throws? "throws": c.want)<<"\n";
        std::string got;
        bool threw=false;
        try
          {
            cd::RPPtr r, held;
            if (c.api)
              {
                r=reg.process(c.path,cd::json_pack_t());
                if (!r) fail("no object returned by "+c.path);
                if (c.ofValue) held=r;
                r=c.api(r);
              }
            else if (cut)
              {
                cd::RPPtr p=reg.process(c.path.substr(0,cut),cd::json_pack_t());
                if (!p) fail("no object returned by "+c.path.substr(0,cut));
                r=p->process(c.path.substr(cut),args);
                if (keep || c.ofValue) held=p;
              }
            else r=reg.process(c.path,args);
            got=r? str(r->asBuffer()): "(nothing)";
          }
        catch (const Fail&) {throw;}
        catch (const std::exception& e) {threw=true; got=e.what();}
        const std::string what=c.path+(c.args.empty()? "": " with "+c.args)+(cut? " in two steps": "")+(c.api? " by "+c.kind: "");
        if (threw!=c.throws) fail(what+(threw? " throws: "+got: " does not throw, but gives "+got+" ("+c.kind+")"));
        if (!threw && c.path.find(".umii")!=std::string::npos && c.kind!="list") {got=sorted(got); c.want=sorted(c.want);}
        if (!threw && c.kind!="list" && got!=c.want) fail(what+" gives "+got+", expected "+c.want);
        if (!threw && c.kind=="list" && got!=c.want) fail(what+" lists "+got+", expected "+c.want);
        V a=J(real), b=J(model);
        if (!(str(a)==str(b)))
          {
            std::string where;
            for (auto& i: b.get_obj()) if (str(i.second)!=str(a.get_obj().find(i.first)->second)) where+=" "+i.first+": "+str(a.get_obj().find(i.first)->second)+", expected "+str(i.second);
            fail("after "+what+" the object is"+where);
          }
        if (Root::si!=staticModel) fail("after "+what+" the static member is "+std::to_string(Root::si)+", expected "+std::to_string(staticModel));
        if (!threw) ++effective;
      }
    s.nontrivial(effective>2);
  }
  V J(const Made& x) {jp::mObject o; o["a"]=J(x.a); o["b"]=J(x.b); o["v"]=J(x.v); return o;}
  std::string run(cd::RESTProcess_t& reg, const std::string& path, const std::string& args, bool& threw)
  {
    cd::json_pack_t a;
    if (!args.empty() && !jp::read_string(args,a)) fail("harness: bad arguments "+args);
    threw=false;
    try {auto r=reg.process(path,a); return r? str(r->asBuffer()): "(nothing)";}
    catch (const std::exception& e) {threw=true; return e.what();}
  }
  // factories: objects made by name; constant objects
  void factory(Src& s)
  {
    cd::RESTProcess_t reg;
    std::vector<std::string> called, expectCalled;
    reg.addFactory<Made>("Plain");
    reg.addFactory<Made,int,std::string>("Made",[&](const std::string& n) {called.push_back(n);});
    Made fixed(s.range(-9,9),"fixed");
    const Made& konst=fixed;
    RESTProcess(reg,"konst",konst);
    std::map<std::string,Made> model;
    static const char* names[]={"p","q","p.q","obj"};
    size_t steps=1+s.len(20), sets=0;
    bool threw;
    for (size_t i=0; i<steps; ++i)
      {
        std::string n=names[s.below(4)], path, args, want; bool throws=false;
        auto it=model.find(n);
        switch (s.below(8))
          {
          case 0: path="Plain"; args="[\""+n+"\"]"; model[n]=Made(); want="null"; break;
          case 1:
            {
              int a=s.range(-99,99); std::string b=s.coin()? "hello": "a.b";
              path="Made"; args="[\""+n+"\","+str(J(a))+","+str(J(b))+"]";
              model[n]=Made(a,b); want="null"; expectCalled.push_back(n);
              break;
            }
          case 2: path=n; if (it==model.end()) throws=true; else want=str(J(it->second)); break;
          case 3: path=n+".inc"; if (it==model.end()) throws=true; else {++it->second.a; want=str(J(it->second.a));} break;
          case 4: path=n+".a"; args=std::to_string(s.range(-9,9)); if (it==model.end()) throws=true; else {it->second.a=atoi(args.c_str()); want=args; ++sets;} break;
          case 5: path=n+".v.@insert"; args=std::to_string(s.range(-9,9)); if (it==model.end()) throws=true; else {it->second.v.push_back(atoi(args.c_str())); want=str(J(it->second.v)); ++sets;} break;
          case 6: path="konst"; if (s.coin()) want=str(J(fixed)); else {path+=".look"; want=str(J(fixed.a));} break;
          default:
            {
              static const char* p[]={"konst.a","konst.b","konst.v.@insert","konst.v.@erase"};
              static const char* a[]={"3","\"n\"","4","0"};
              size_t k=s.below(4);
              path=p[k]; args=a[k]; throws=true;
            }
          }
        s.label(path.find("konst")==0? "constant object": path=="Plain"||path=="Made"? "factory": "made object");
        if (s.verbose) s.desc<<path<<" "<<args<<" -> "<<(throws? "throws": want)<<"\n";
        std::string got=run(reg,path,args,threw);
        if (threw!=throws) fail(path+" "+args+(threw? " throws: "+got: " does not throw, but gives "+got));
        if (!threw && got!=want) fail(path+" "+args+" gives "+got+", expected "+want);
        if (str(J(fixed))!=str(J(konst)) || fixed.b!="fixed") fail("constant object changed by "+path);
        for (auto& m: model)
          {
            got=run(reg,m.first,"",threw);
            if (threw || got!=str(J(m.second))) fail("after "+path+" "+args+" "+m.first+" is "+got+", expected "+str(J(m.second)));
          }
        if (called!=expectCalled) fail("callback of the factory not called once for each object made");
      }
    s.nontrivial(sets>1);
  }
}
static const Case cases[]={{"history",history},{"factory",factory}};
PBT_MAIN(cases)
