// Enum tables (P15): table.h, written by the generator of the header, lists for each enum its
// enumerators with the values the compiler gives them.
#include "classdesc.h"
#include "pbt.h"
#include "types.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include <algorithm>
using namespace pbt;

struct Row {const char* name; int value;};

struct Entry
{
  const char* name;
  virtual ~Entry() {}
  virtual void table(Src&)=0;
  virtual void lookup(Src&)=0;
};
static std::vector<Entry*> entries;

template <class E>
struct EntryT: public Entry
{
  std::vector<Row> rows;
  EntryT(const char* n, const Row* r, size_t c): rows(r,r+c) {name=n;}
  static const classdesc::EnumKeys<E>& keys() {return classdesc::enum_keys<E>();}

  bool namesValue(const std::string& n, int v) const
  {
    for (size_t i=0; i<rows.size(); ++i) if (n==rows[i].name && v==rows[i].value) return true;
    return false;
  }
  bool hasValue(int v) const
  {
    for (size_t i=0; i<rows.size(); ++i) if (v==rows[i].value) return true;
    return false;
  }
  bool hasName(const std::string& n) const
  {
    for (size_t i=0; i<rows.size(); ++i) if (n==rows[i].name) return true;
    return false;
  }

  // the whole table and its iterators
  void table(Src& s)
  {
    checkEq(sizeof(classdesc::enum_keysData<E>::keysData)/sizeof(classdesc::EnumKey),rows.size(),std::string("number of enumerators of ")+name);
      size_t n=0;
    for (const classdesc::EnumKey* k=classdesc::enum_keysData<E>::keysData; n<rows.size(); ++k, ++n)
      {
        checkEq(std::string(k->name),std::string(rows[n].name),std::string("name of an enumerator of ")+name);
        checkEq(k->value,rows[n].value,std::string("value of ")+k->name);
      }
    std::set<int> values;
    for (size_t i=0; i<rows.size(); ++i) values.insert(rows[i].value);
    checkEq(keys().size(),values.size(),"EnumKeys::size");
    std::set<int>::iterator v=values.begin();
    typename classdesc::EnumKeys<E>::Siterator si=keys().sbegin();
    typename classdesc::EnumKeys<E>::Viterator vi=keys().vbegin();
    for (typename classdesc::EnumKeys<E>::iterator i=keys().begin(); i!=keys().end(); ++i, ++v, ++si, ++vi)
      {
        PBT_CHECK(v!=values.end(),"more values than enumerators");
        checkEq(i->first,*v,"value from iterator");
        PBT_CHECK(namesValue(i->second,i->first),"iterator pairs "<<i->second<<" with "<<i->first);
        PBT_CHECK(si!=keys().send() && vi!=keys().vend(),"iterators of names and values end early");
        PBT_CHECK(*si==i->second && si->size()==i->second.size(),"Siterator gives "<<*si);
        PBT_CHECK(*vi==E(i->first),"Viterator gives "<<int(*vi)<<" for "<<i->first);
      }
    PBT_CHECK(v==values.end() && si==keys().send() && vi==keys().vend(),"iterators leave values out");
    s.nontrivial(rows.size()>1);
    if (s.verbose) s.desc<<name<<" with "<<rows.size()<<" enumerators";
  }

  static std::string damage(Src& s, std::string n)
  {
    switch (s.below(6))
      {
      case 0: n+="x"; break;
      case 1: n=" "+n; break;
      case 2: if (!n.empty()) n.erase(s.below(n.size()),1); break;
      case 3: for (size_t i=0; i<n.size(); ++i) n[i]=isupper(n[i])? tolower(n[i]): toupper(n[i]); break;
      case 4: n=""; break;
      case 5: n=std::string(name_of(s)); break;
      }
    return n;
  }
  static const char* name_of(Src& s) {const char* l[]={"{","}","=",",","E","int","0"}; return l[s.below(7)];}

  void lookup(Src& s)
  {
    if (rows.empty()) throw Discard();
    std::ostringstream trace;
    E e=E(rows[s.below(rows.size())].value), other=e;
    classdesc::Enum_handle<E> h=classdesc::enum_handle(e), h2(h), h3(other);
    const classdesc::EnumKeys<E>& k=keys();
    int n=1+s.below(8);
    for (int op=0; op<n; ++op)
      {
        const Row& r=rows[s.below(rows.size())];
        int what=s.below(10);
        trace<<' '<<what<<':'<<r.name;
        switch (what)
          {
          case 0: // name to value
            checkEq(int(k(std::string(r.name))),r.value,std::string("value of name ")+r.name);
            checkEq(classdesc::enumKey<E>(std::string(r.name)),r.value,std::string("enumKey of ")+r.name);
            PBT_CHECK(k.has(std::string(r.name)),"has() does not know "<<r.name);
            break;
          case 1: // value to a name of it
            PBT_CHECK(namesValue(k(r.value),r.value),"name of "<<r.value<<" is "<<k(r.value));
            PBT_CHECK(namesValue(k(E(r.value)),r.value),"name of value "<<r.value<<" is "<<k(E(r.value)));
            checkEq(classdesc::enumKey<E>(r.value),k(r.value),"enumKey of a value");
            checkEq(classdesc::to_string(E(r.value)),k(r.value),"to_string");
            PBT_CHECK(k.has(E(r.value)),"has() does not know "<<r.value);
            break;
          case 2: // other names and values
            {
              std::string d=damage(s,r.name);
              checkEq(k.has(d),hasName(d),"has("+d+")");
              if (!hasName(d)) checkEq(int(k(d)),0,"value of the unknown name "+d);
              int v=s.coin()? r.value+int(s.range(-2,2)): int(s.range(0,255));
              if (int(E(v))==v)
                {
                  checkEq(k.has(E(v)),hasValue(v),"has() of a value");
                  if (!hasValue(v)) checkEq(k(v),std::string(),"name of an unknown value");
                }
            }
            break;
          case 3: h=std::string(r.name); check(e,r.value,"assignment of a name"); break;
          case 4: h2=E(r.value); check(e,r.value,"assignment of a value"); break;
          case 5: h=r.value; check(e,r.value,"assignment of an int"); break;
          case 6: // conversions
            checkEq(int(h),int(e),"conversion to int");
            checkEq(std::string(h),k(e),"conversion to a name");
            checkEq(int(h2),int(e),"copy refers to the same variable");
            break;
          case 7: // streaming
            {
              std::ostringstream o;
              o<<h;
              checkEq(o.str(),k(e),"streamed handle");
              std::istringstream i(o.str());
              i>>h3;
              checkEq(int(other),int(e),"streamed handle read back");
            }
            break;
          case 8: {std::ostringstream o; classdesc::operator<<(o,e); checkEq(o.str(),k(e),"streamed enum");} break;
          case 9: {const E c=e; checkEq(classdesc::enum_keys<const E>()(c),k(e),"keys of the const type");} break;
          }
      }
    s.nontrivial(n>1 && rows.size()>1);
    if (s.verbose) s.desc<<name<<trace.str();
  }
  static void check(E e, int v, const char* what) {checkEq(int(e),v,what);}
};

#include "table.h"

static void table(Src& s) {entries[s.below(entries.size())]->table(s);}
static void lookup(Src& s) {entries[s.below(entries.size())]->lookup(s);}

static const Case cases[]={{"table",table},{"lookup",lookup}};
int main(int argc, char** argv) {registerAll(); return pbtMain(argc,argv,cases,2);}
