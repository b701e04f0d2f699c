// random_init of generated families: P14
#define VERIF_NO_PACK
#include "random_init_base.h"
#include "pack_stl.h"
#include "types.h"
#include "dom.h"
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;

// the C library's source, under the control of the tests
static int nextRand=0;
extern "C" int rand() throw() {return nextRand;}

namespace
{
  // a source of numbers in [0,1) given by a list, which is repeated
  struct Script: public random_init_t
  {
    std::vector<double> v;
    size_t used;
    Script(): used(0) {}
    double rand() {return v[used++%v.size()];}
  };
  const double below1=1-1/9007199254740992.0;
  double number(Src& s)
  {
    switch (s.below(8))
      {
      case 0: return 0;
      case 1: return below1;
      case 2: return s.below(10)/10.0;
      case 3: return 5e-324;
      case 4: return std::min(below1,s.below(1000)/1000.0+0.0009999);
      default: return s.below(1u<<31)/2147483648.0;
      }
  }
  void script(Src& s, Script& r)
  {
    size_t n=1+s.below(40);
    for (size_t i=0; i<n; ++i) r.v.push_back(number(s));
  }
  // every leaf must be a value of its type; what is not an enumerator has an empty text
  void legal(const Any& a, const Node& n, const std::string& path)
  {
    PBT_CHECK(!(n.kind==Node::number && n.content.empty()),a.type()<<": "<<path<<" is no enumerator in "<<a.show());
    PBT_CHECK(!(n.kind==Node::number && (n.content=="NaN" || n.content=="INF" || n.content=="-INF")),a.type()<<": "<<path<<" is "<<n.content);
    for (size_t i=0; i<n.kids.size(); ++i) legal(a,n.kids[i],path+"."+n.kids[i].name);
  }
  // whatever an object held before, it depends on the numbers drawn only
  void depends(Src& s)
  {
    Script r;
    script(s,r);
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s);
    b->gen(s);
    // what is excluded is not touched: make it equal beforehand and see
    std::string was=a->show();
    if (s.verbose) s.desc<<a->type()<<" "<<was<<" and "<<b->show();
    a->randomInit(r);
    size_t used=r.used;
    r.used=0;
    b->randomInit(r);
    PBT_CHECK(used==r.used,a->type()<<": "<<used<<" numbers used one time, "<<r.used<<" another");
    PBT_CHECK(a->eq(*b),a->type()<<": "<<a->show()<<" from "<<was<<", but "<<b->show()<<" from the same numbers");
    legal(*a,a->dom("root"),"");
    s.nontrivial(used>3);
  }
  // leaves that are always there, by path
  void leaves(const Node& n, const std::string& path, std::map<std::string,std::string>& r)
  {
    if (n.leaf() && (n.basic || n.kind==Node::text)) r[path]=n.content;
    if (n.kind==Node::record || n.fixed)
      for (size_t i=0; i<n.kids.size(); ++i)
        {
          std::ostringstream o; o<<path<<"."<<n.kids[i].name<<"#"<<i;
          leaves(n.kids[i],o.str(),r);
        }
    else if (n.kind==Node::sequence)
      {
        r[path+" holds more than one"]=n.kids.size()>1? "true": "false";
        // what its elements hold, taken together
        std::ostringstream e;
        for (size_t i=0; i<n.kids.size(); ++i) showNode(e,n.kids[i]);
        r[path+" elements"]=e.str();
      }
  }
  // every member follows the source
  void varies(Src& s)
  {
    Holder a(randomAny(s));
    a->gen(s);
    std::map<std::string,std::set<std::string> > seen;
    size_t runs=24;
    unsigned long long x=s.below(1u<<30)*2654435761ULL+1;
    for (size_t i=0; i<runs; ++i)
      {
        Script r;
        for (int k=0; k<997; ++k)
          {
            x^=x<<13; x^=x>>7; x^=x<<17;
            r.v.push_back((x>>11)/9007199254740992.0);
          }
        a->randomInit(r);
        std::map<std::string,std::string> l;
        leaves(a->dom("root"),"",l);
        for (std::map<std::string,std::string>::iterator j=l.begin(); j!=l.end(); ++j) seen[j->first].insert(j->second);
      }
    if (s.verbose) s.desc<<a->type()<<" "<<a->show();
    for (std::map<std::string,std::set<std::string> >::iterator j=seen.begin(); j!=seen.end(); ++j)
      if (j->first.find(" holds")!=std::string::npos)
        {
          PBT_CHECK(j->second.count("true"),a->type()<<": "<<j->first<<" never, in "<<runs<<" sequences of numbers");
        }
      else
        PBT_CHECK(j->second.size()>1,a->type()<<": "<<j->first<<" is always "<<pbt::show(*j->second.begin())<<" for "<<runs<<" sequences of numbers");
    s.nontrivial(seen.size()>3);
  }
  // the source the library comes with
  void source(Src& s)
  {
    static const int edges[]={0,1,RAND_MAX,RAND_MAX-1,RAND_MAX/2};
    nextRand=s.coin()? edges[s.below(5)]: int(s.below(RAND_MAX));
    random_init_t r;
    double x=r.rand();
    if (s.verbose) s.desc<<"rand() "<<nextRand;
    PBT_CHECK(x>=0 && x<1,"rand() gives "<<nextRand<<" of "<<RAND_MAX<<", and random_init_t "<<x);
    Holder a(randomAny(s));
    a->gen(s);
    a->randomInit(r);
    legal(*a,a->dom("root"),"");
    s.nontrivial(nextRand!=0);
  }
#if __cplusplus>=201103L
  template <class T> void unique(Src& s, const char* type)
  {
    Script r;
    script(s,r);
    std::unique_ptr<T> a,b;
    gen(s,a);
    gen(s,b);
    std::ostringstream was; show(was,a,Tag());
    random_init(r,"",a);
    r.used=0;
    random_init(r,"",b);
    PBT_CHECK(a && b,"unique_ptr<"<<type<<"> is null after random_init");
    PBT_CHECK(pbt::eq(*a,*b,Tag()),"unique_ptr<"<<type<<"> depends on what it was: "<<was.str());
    if (s.verbose) s.desc<<"unique_ptr<"<<type<<"> "<<was.str();
    s.nontrivial(r.used>0);
  }
#endif
  void owned(Src& s)
  {
#if __cplusplus>=201103L
    switch (s.below(4))
      {
      case 0: unique<int>(s,"int"); break;
      case 1: unique<std::string>(s,"string"); break;
      case 2: unique<std::vector<double> >(s,"vector<double>"); break;
      default: unique<std::map<int,std::string> >(s,"map<int,string>"); break;
      }
#endif
  }
}
static const Case cases[]={{"depends",depends},{"varies",varies},{"source",source},{"owned",owned}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
