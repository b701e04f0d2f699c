// type erased objects of the generated families
#ifndef VERIF_ANY_H
#define VERIF_ANY_H
#include "values.h"
namespace pbt
{
  struct Any
  {
    virtual ~Any() {}
    virtual void gen(Src&)=0;
    virtual Any* fresh() const=0;            // another object of this type, default constructed
    virtual bool eq(const Any&) const=0;
    virtual std::string show() const=0;
    virtual const char* type() const=0;
#ifdef VERIF_DOM_H
    virtual Node dom(const std::string& root) const=0;
#endif
#ifdef CLASSDESC_XSD_GENERATE_BASE_H
    virtual std::string xsd(const char* root, const char* ns) const=0;
#endif
#ifdef CLASSDESC_XML_PACK_BASE_H
    virtual void xmlPack(classdesc::xml_pack_t&, const char* root)=0;
    virtual void xmlPackConst(classdesc::xml_pack_t&, const char* root) const=0;
#endif
#ifdef CLASSDESC_XML_UNPACK_BASE_H
    virtual void xmlUnpack(classdesc::xml_unpack_t&, const char* root)=0;
#endif
#ifdef CLASSDESC_JSON_PACK_BASE_H
    virtual void jsonPack(classdesc::json_pack_t&, const char* d)=0;
    virtual void jsonPackConst(classdesc::json_pack_t&, const char* d) const=0;
    virtual void jsonUnpack(classdesc::json_unpack_t&, const char* d)=0;
    virtual std::string jsonText() const=0;
    virtual void jsonRead(const std::string&)=0;
#endif
#ifdef CLASSDESC_DUMP_BASE_H
    virtual std::string dump(const char* root) const=0;
#endif
#ifdef CLASSDESC_RANDOM_INIT_BASE_H
    virtual void randomInit(classdesc::random_init_t&)=0;
#endif
#ifndef VERIF_NO_PACK
    virtual void pack(classdesc::pack_t&)=0;
    virtual void packConst(classdesc::pack_t&) const=0;
    virtual void unpack(classdesc::pack_t&)=0;
    virtual int deepCmp(const Any&) const=0;
    virtual bool deepEq(const Any&) const=0;
#endif
  };
  inline const char*& typeNameOf(const std::type_info& t)
  {
    static std::map<std::string,const char*> m;
    return m[t.name()];
  }
  template <class T> struct AnyT: public Any
  {
    T x;
    AnyT(): x() {}
    void gen(Src& s) {pbt::gen(s,x);}
    Any* fresh() const {return new AnyT<T>;}
    bool eq(const Any& o) const {return pbt::eq(x,dynamic_cast<const AnyT<T>&>(o).x,Tag());}
    std::string show() const {std::ostringstream o; pbt::show(o,x,Tag()); return o.str();}
    const char* type() const {return typeNameOf(typeid(T));}
#ifdef VERIF_DOM_H
    Node dom(const std::string& root) const {Node n(root); pbt::dom(n,x,Tag()); return n;}
#endif
#ifdef CLASSDESC_XSD_GENERATE_BASE_H
    std::string xsd(const char* root, const char* ns) const
    {
      classdesc::xsd_generate_t g;
      xsd_generate(g,root,x);
      std::ostringstream o;
      g.output(o,ns);
      return o.str();
    }
#endif
#ifdef CLASSDESC_XML_PACK_BASE_H
    void xmlPack(classdesc::xml_pack_t& b, const char* root) {xml_pack(b,root,x);}
    void xmlPackConst(classdesc::xml_pack_t& b, const char* root) const {xml_pack(b,root,x);}
#endif
#ifdef CLASSDESC_XML_UNPACK_BASE_H
    void xmlUnpack(classdesc::xml_unpack_t& b, const char* root) {xml_unpack(b,root,x);}
#endif
#ifdef CLASSDESC_JSON_PACK_BASE_H
    void jsonPack(classdesc::json_pack_t& b, const char* d) {if (*d) json_pack(b,d,x); else b<<x;}
    void jsonPackConst(classdesc::json_pack_t& b, const char* d) const {json_pack(b,d,x);}
    void jsonUnpack(classdesc::json_unpack_t& b, const char* d) {if (*d) json_unpack(b,d,x); else b>>x;}
    std::string jsonText() const {return classdesc::json(x);}
    void jsonRead(const std::string& t) {classdesc::json(x,t);}
#endif
#ifdef CLASSDESC_DUMP_BASE_H
    std::string dump(const char* root) const {std::ostringstream o; classdesc::dump(o,root,x); return o.str();}
#endif
#ifdef CLASSDESC_RANDOM_INIT_BASE_H
    void randomInit(classdesc::random_init_t& r) {random_init(r,"",x);}
#endif
#ifndef VERIF_NO_PACK
    void pack(classdesc::pack_t& b) {b<<x;}
    void packConst(classdesc::pack_t& b) const {const T& y=x; b<<y;}
    void unpack(classdesc::pack_t& b) {b>>x;}
    int deepCmp(const Any& o) const {return classdesc::deepCmp(x,dynamic_cast<const AnyT<T>&>(o).x);}
    bool deepEq(const Any& o) const {return classdesc::deepEq(x,dynamic_cast<const AnyT<T>&>(o).x);}
#endif
  };
  struct Entry {const char* name; Any* proto;};
  extern std::vector<Entry> registry;
  template <class T> Entry entry(const char* n) {typeNameOf(typeid(T))=n; Entry e={n,new AnyT<T>}; return e;}
  struct Holder          // owns one
  {
    Any* p;
    Holder(Any* p=0): p(p) {}
    ~Holder() {delete p;}
    Any* operator->() const {return p;}
    Any& operator*() const {return *p;}
  private:
    Holder(const Holder&); void operator=(const Holder&);
  };
  struct Holders: public std::vector<Any*>
  {
    ~Holders() {for (size_t i=0; i<size(); ++i) delete (*this)[i];}
  };
  inline Any* randomAny(Src& s) {return registry[s.below(registry.size())].proto->fresh();}
}
#endif
