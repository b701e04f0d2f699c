// XML schemas of generated families: P12
#define VERIF_NO_PACK
#include "xml_pack_base.h"
#include "xsd_generate_base.h"
#include "pack_stl.h"
#include "types.h"
#include "dom.h"
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
// libxml2, declared by hand: its headers need C++11
extern "C"
{
  struct XErr {int domain, code; char* message;};
  typedef void (*XNote)(void*, XErr*);
  void xmlSetStructuredErrorFunc(void*, XNote);
  void* xmlSchemaNewMemParserCtxt(const char*, int);
  void xmlSchemaSetParserStructuredErrors(void*, XNote, void*);
  void* xmlSchemaParse(void*);
  void xmlSchemaFree(void*);
  void xmlSchemaFreeParserCtxt(void*);
  void* xmlReadMemory(const char*, int, const char*, const char*, int);
  void* xmlSchemaNewValidCtxt(void*);
  void xmlSchemaSetValidStructuredErrors(void*, XNote, void*);
  int xmlSchemaValidateDoc(void*, void*);
  void xmlSchemaFreeValidCtxt(void*);
  void xmlFreeDoc(void*);
  void xmlInitParser();
}
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;
namespace
{
  std::string errors;
  void note(void*, XErr* e) {if (e && e->message && errors.size()<2000) errors+=e->message;}
  struct Schema
  {
    std::string text;
    void* p;
    void* s;
    Schema(): p(0), s(0) {}
    ~Schema() {if (s) xmlSchemaFree(s); if (p) xmlSchemaFreeParserCtxt(p);}
    bool load(const std::string& t)
    {
      text=t;
      errors.clear();
      xmlSetStructuredErrorFunc(0,note);
      p=xmlSchemaNewMemParserCtxt(text.data(),text.size());
      xmlSchemaSetParserStructuredErrors(p,note,0);
      s=xmlSchemaParse(p);
      return s && errors.empty();
    }
    bool valid(const std::string& doc)
    {
      errors.clear();
      void* d=xmlReadMemory(doc.data(),doc.size(),"doc.xml",0,(1<<11)|(1<<19));
      if (!d) throw std::logic_error("not parsed by libxml2: "+errors+" "+show(doc));
      void* v=xmlSchemaNewValidCtxt(s);
      xmlSchemaSetValidStructuredErrors(v,note,0);
      int r=xmlSchemaValidateDoc(v,d);
      xmlSchemaFreeValidCtxt(v);
      xmlFreeDoc(d);
      return r==0;
    }
  };
  std::map<std::string,Schema*> cache;       // schema of each type

  const char* ns="http://www.example.com/ns";
  void setup()
  {
    profile().xmlText=true;
    profile().finite=__cplusplus<201103L;
    profile().nonNullElem=true;
  }
  Schema& schemaOf(Any& a)
  {
    Schema*& s=cache[a.type()];
    if (!s)
      {
        std::string t=a.xsd("root",ns);
        s=new Schema;
        PBT_CHECK(s->load(t),a.type()<<": schema is not valid: "<<errors<<" in "<<t);
      }
    return *s;
  }
  // the schema does not depend on the value it is generated from
  void schema(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    Schema& x=schemaOf(*a);
    a->gen(s);
    std::string t=a->xsd("root",ns);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show();
    PBT_CHECK(t==x.text,a->type()<<": schema depends on the value: "<<t<<" from "<<a->show()<<" but "<<x.text);
    s.nontrivial(t.size()>600);
  }
  void accepts(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    Schema& x=schemaOf(*a);
    a->gen(s);
    std::ostringstream o;
    o.precision(21);
    xml_pack_t p(o,ns);
    p.prettyPrint=s.coin();
    a->xmlPack(p,"root");
    if (s.verbose) s.desc<<a->type()<<" "<<show(o.str());
    PBT_CHECK(x.valid(o.str()),a->type()<<": "<<show(o.str())<<" does not validate: "<<errors<<" against "<<x.text);
    s.nontrivial(a->dom("root").count()>3);
  }
  void put(std::ostream& o, const Node& n, bool root=true)
  {
    o<<"<"<<n.name;
    if (root) o<<" xmlns=\""<<ns<<"\"";
    o<<">";
    for (size_t i=0; i<n.content.size(); ++i) o<<xml_quote(n.content[i]);
    for (size_t i=0; i<n.kids.size(); ++i) put(o,n.kids[i],false);
    o<<"</"<<n.name<<">";
  }
  struct Place {Node* parent; size_t i;};
  void places(Node& n, std::vector<Place>& r, bool first=true)
  {
    for (size_t i=0; i<n.kids.size(); ++i)
      {
        Place p={&n,i};
        r.push_back(p);
        places(n.kids[i],r,false);
      }
  }
  void rejects(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    Schema& x=schemaOf(*a);
    a->gen(s);
    Node n=a->dom("root");
    std::vector<Place> p;
    places(n,p);
    if (p.empty()) throw Discard();
    size_t k=s.below(p.size());
    int what=s.below(4);
    std::string did;
    // the first place from there on where this can be done
    for (size_t t=0; t<p.size() && did.empty(); ++t)
      {
        Node& q=*p[(k+t)%p.size()].parent;
        size_t i=p[(k+t)%p.size()].i;
        Node& c=q.kids[i];
        bool fixed=q.kind==Node::record || q.fixed;
        switch (what)
          {
          case 0:
            if (fixed && !c.ptr) {did=c.name+" removed"; q.kids.erase(q.kids.begin()+i);}
            break;
          case 1:
            if (fixed) {did=c.name+" repeated"; Node d=c; q.kids.insert(q.kids.begin()+i,d);}
            break;
          case 2:
            if (c.leaf() && c.kind==Node::number) {static const char* v[]={"abc","1 2","--1","1.5.3","0x"}; c.content=v[s.below(5)]; did=c.name+" becomes "+c.content;}
            break;
          default:
            if (!fixed || c.name!="zzz") {did=c.name+" renamed"; c.name="zzz";}
          }
      }
    if (did.empty()) throw Discard();
    std::ostringstream o;
    put(o,n);
    if (s.verbose) s.desc<<a->type()<<" "<<did<<" in "<<show(o.str());
    PBT_CHECK(!x.valid(o.str()),a->type()<<": "<<did<<", but "<<show(o.str())<<" validates against "<<x.text);
    s.nontrivial(n.count()>3);
    s.label(what==0? "removed": what==1? "repeated": what==2? "wrong type": "renamed");
  }
}
static const Case cases[]={{"schema",schema},{"accepts",accepts},{"rejects",rejects}};
void registerAll();
int main(int argc, char** argv)
{
  xmlInitParser();
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
