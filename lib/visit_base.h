// A descriptor that records what the generated code visits, without
// descending into it.
#ifndef VISIT_BASE_H
#define VISIT_BASE_H
#include "classdesc.h"
#include <stdarg.h>
#include <string.h>
#include <string>
#include <sstream>
#include <vector>

namespace vis
{
  // one of these per type
  template <class T> const void* tid() {static char c; return &c;}
  template <class T> std::string bytes(const T& x)
  {
    const unsigned char* p=(const unsigned char*)&x;
    std::ostringstream o;
    for (size_t i=0; i<sizeof(x); ++i) o<<int(p[i])<<' ';
    return o.str();
  }
  struct Event
  {
    std::string desc, kind, extra;
    const void *addr, *type;
    Event(const std::string& d, const std::string& k, const void* a, const void* t, const std::string& e=""):
      desc(d), kind(k), extra(e), addr(a), type(t) {}
    bool operator==(const Event& x) const
    {return desc==x.desc && kind==x.kind && extra==x.extra && addr==x.addr && type==x.type;}
  };
  typedef std::vector<Event> Log;
  // the address of something that may overload &
  template <class T> const void* addr(T& x) {return &reinterpret_cast<const volatile char&>(x)==0? 0: (const void*)&reinterpret_cast<const volatile char&>(x);}
  template <class R> const void* faddr(R* f) {return reinterpret_cast<const void*>(f);}

  // pointers to functions cannot be told from static methods
  template <class T, bool F=classdesc::is_function<T>::value> struct Pointer
  {
    static Event event(const std::string& d, T*& x) {return Event(d,"member",addr(x),tid<T*>());}
  };
  template <class T> struct Pointer<T,true>
  {
    static Event event(const std::string& d, T* x) {return Event(d,"function",0,tid<T*>(),bytes(x));}
  };
  template <class T> struct Member
  {
    static Event event(const std::string& d, T& x) {return Event(d,"member",addr(x),tid<T>());}
    static Event value(const std::string& d, const T& x) {return Event(d,"member",addr(x),tid<const T>());}
  };
  template <class T> struct Member<T*>
  {
    static Event event(const std::string& d, T*& x) {return Pointer<T>::event(d,x);}
    static Event value(const std::string& d, T* x) {return Pointer<T>::event(d,x);}
  };
  template <class T> void member(Log& l, const std::string& d, T& x) {l.push_back(Member<T>::event(d,x));}
#ifdef VIS_ONBASE
  template <class T> void base(Log& l, const std::string& d, T& x) {l.push_back(Event(d,"onbase",addr(x),tid<T>()));}
#else
  template <class T> void base(Log& l, const std::string& d, T& x) {l.push_back(Event(d,"member",addr(x),tid<T>()));}
#endif
  template <class T> void constStatic(Log& l, const std::string& d, T x) {l.push_back(Event(d,"static const",0,tid<T>(),bytes(x)));}
  template <class C, class M> void method(Log& l, const std::string& d, C& c, M m)
  {l.push_back(Event(d,"method",addr(c),tid<M>(),bytes(m)));}
#ifdef VIS_MBR
  // members that are pointers to functions can be told from methods
  template <class C, class T, class X> void method(Log& l, const std::string& d, C& c, T* X::* m)
  {l.push_back(Member<T*>::event(d,c.*m));}
#endif
  // static methods arrive as prvalues
  template <class M> void staticMethod(Log& l, const std::string& d, M m)
  {l.push_back(Event(d,"function",0,tid<M>(),bytes(m)));}
  // what arrives with an object: under -use_mbr_pointers, members do too
  template <class C, class M, bool F=classdesc::is_function<M>::value> struct Mbr
  {
    static void visit(Log& l, const std::string& d, C& c, M m) {method(l,d,c,m);}
  };
#ifdef VIS_MBR
  template <class C, class T, bool F=classdesc::is_function<T>::value> struct StaticMbr
  {static void visit(Log& l, const std::string& d, T* m) {member(l,d,*m);}};
  template <class C, class T> struct StaticMbr<C,T,true>
  {static void visit(Log& l, const std::string& d, T* m) {staticMethod(l,d,m);}};
  template <class C, class T> struct Mbr<C,T*,false>
  {static void visit(Log& l, const std::string& d, C& c, T* m) {StaticMbr<C,T>::visit(l,d,m);}};
  template <class C, class T, class X, bool F> struct Mbr1
  {static void visit(Log& l, const std::string& d, C& c, T X::* m) {member(l,d,c.*m);}};
  template <class C, class T, class X> struct Mbr1<C,T,X,true>
  {static void visit(Log& l, const std::string& d, C& c, T X::* m) {method(l,d,c,m);}};
  template <class C, class T, class X> struct Mbr<C,T X::*,false>
  {static void visit(Log& l, const std::string& d, C& c, T X::* m)
    {Mbr1<C,T,X,classdesc::is_member_function_pointer<T X::*>::value>::visit(l,d,c,m);}};
#endif
  // array: address and type of the first element, and the bounds
  template <class T> void array(Log& l, const std::string& d, T& x, const std::string& bounds)
  {l.push_back(Event(d,"array",addr(x),tid<T>(),bounds));}
}

namespace classdesc
{
  struct visit_t {vis::Log log;};
  template <class T> void visit(visit_t& t, const string& d, T& x)
  {vis::member(t.log,d,x);}
  // static methods arrive as prvalues
  template <class T> void visit(visit_t& t, const string& d, const T& x)
  {t.log.push_back(vis::Member<T>::value(d,x));}
  template <class C, class M> void visit(visit_t& t, const string& d, C& c, M m)
  {vis::Mbr<C,M>::visit(t.log,d,c,m);}
  template <class C, class M> void visit(visit_t& t, const string& d, C& c, is_constructor, M m)
  {t.log.push_back(vis::Event(d,"constructor",vis::addr(c),vis::tid<M>()));}
#ifdef VIS_MBR
  template <class T> void visit(visit_t& t, const string& d, is_const_static, const T* x)
  {vis::constStatic(t.log,d,*x);}
#else
  template <class T> void visit(visit_t& t, const string& d, is_const_static, T x)
  {vis::constStatic(t.log,d,x);}
#endif
  template <class T> void visit(visit_t& t, const string& d, is_array, T& x, int dims, size_t n,...)
  {
    std::ostringstream b;
    b<<n;
    va_list ap;
    va_start(ap,n);
    for (int i=1; i<dims; ++i) b<<','<<va_arg(ap,int);
    va_end(ap);
    vis::array(t.log,d,x,b.str());
  }
  template <class T> void visit(visit_t& t, const string& d, Enum_handle<T> x)
  {t.log.push_back(vis::Event(d,"enum",0,vis::tid<T>()));}
  template <class T> void visit_onbase(visit_t& t, const string& d, T& x)
  {t.log.push_back(vis::Event(d,"onbase",vis::addr(x),vis::tid<T>()));}
}
namespace classdesc_access
{
  template <class T> struct access_visit;
}
using classdesc::visit;
using classdesc::visit_onbase;

namespace vis
{
  // compares what was visited with what is there; 1 if different
  template <class T> int compare(const char* name, T& object, const Log& expected)
  {
    classdesc::visit_t v;
    classdesc_access::access_visit<T>()(v,"",object);
    size_t n=std::max(v.log.size(),expected.size());
    for (size_t i=0; i<n; ++i)
      if (i>=v.log.size() || i>=expected.size() || !(v.log[i]==expected[i]))
        {
          std::cout<<name<<": visit "<<i<<" is ";
          if (i<v.log.size()) std::cout<<v.log[i].kind<<" '"<<v.log[i].desc<<"' "<<v.log[i].extra; else std::cout<<"missing";
          std::cout<<", expected ";
          if (i<expected.size()) std::cout<<expected[i].kind<<" '"<<expected[i].desc<<"' "<<expected[i].extra; else std::cout<<"nothing";
          if (i<v.log.size() && i<expected.size() && v.log[i].desc==expected[i].desc && v.log[i].kind==expected[i].kind)
            std::cout<<(v.log[i].type!=expected[i].type? " (wrong type)": v.log[i].addr!=expected[i].addr? " (wrong object)": " (differs)");
          std::cout<<std::endl;
          return 1;
        }
    return 0;
  }
}
#endif
