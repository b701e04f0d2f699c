// dump of generated families: P13
#define VERIF_NO_PACK
#include "dump_base.h"
#include "pack_stl.h"
#include "types.h"
#include "dom.h"
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;
namespace
{
  // reads a dump along with the tree of what it should show
  struct Reader
  {
    std::string t;
    size_t p, braces, items;
    Reader(const std::string& t): t(t), p(0), braces(0), items(0) {}
    void fail(const std::string& what)
    {
      std::string got=t.substr(p,60);
      throw Fail("expected "+what+" at offset "+lit(p)+", but there is "+pbt::show(got));
    }
    static std::string lit(size_t n) {std::ostringstream o; o<<n; return o.str();}
    void skip()
    {
      for (; p<t.size(); ++p)
        if (t[p]=='{') braces++;
        else if (t[p]=='}') {if (!braces--) fail("no unmatched }");}
        else if (t[p]!='\n' && t[p]!=' ') break;
    }
    void exact(const std::string& x, const char* of)
    {
      if (t.compare(p,x.size(),x)) fail(std::string(of)+" "+pbt::show(x));
      p+=x.size();
    }
    void name(const std::string& n, size_t depth)
    {
      skip();
      items++;
      size_t q=p;
      while (q && t[q-1]==' ') q--;
      bool fresh= q==0 || t[q-1]=='\n';
      if (fresh && p-q!=depth) fail(lit(depth)+" spaces before "+n);
      exact(n+":","name");
    }
    bool opened() {return t[p]=='{';}
    // the two parts of a pair, after it has been named
    void pairParts(const Node& n, const std::string& nm, size_t depth, bool last)
    {
      const Node &a=n.kids[0], &b=n.kids[1];
      if (a.basic)
        {
          skip();
          exact("["+a.content+"]=","key");
        }
      else
        item(a,nm+"]=",depth+1);
      if (a.basic && b.basic) exact(b.content,"value");
      else item(b,nm,depth);
    }
    void item(const Node& n, const std::string& nm, size_t depth)
    {
      if (n.kind==Node::record && n.kids.size()==2 && n.kids[0].name=="first")
        {
          pairParts(n,nm,depth,true);
          return;
        }
      name(nm,depth);
      switch (n.kind)
        {
        case Node::record:
          for (size_t i=0; i<n.kids.size(); ++i)
            if (n.kids[i].name.compare(0,5,"base_")==0) item(n.kids[i],nm,depth);
            else item(n.kids[i],n.kids[i].name,depth+1);
          break;
        case Node::sequence:
          if (!n.kids.empty() && n.kids[0].basic)
            {
              for (size_t i=0; i<n.kids.size(); ++i)
                {
                  exact(std::string(depth,' '),"separator");
                  exact(n.kids[i].content,"element");
                }
              exact("\n","end of line");
            }
          else
            for (size_t i=0; i<n.kids.size(); ++i) item(n.kids[i],nm+"["+lit(i)+"]",depth);
          break;
        default:
          if (!n.basic && opened() && (n.content.empty() || n.content[0]!=0x7b)) // an enum is shown within braces
            {
              name(nm,depth);
              items--;
            }
          exact(n.content,"value");
          exact("\n","end of line");
        }
    }
  };
  void dumps(Src& s)
  {
    domPlain()=true;
    Holder a(randomAny(s));
    a->gen(s);
    std::string was=a->show(), t=a->dump("root");
    Node n=a->dom("root");
    if (s.verbose) s.desc<<a->type()<<" "<<was<<" "<<pbt::show(t);
    PBT_CHECK(a->show()==was,a->type()<<": dump changed "<<was<<" to "<<a->show());
    Reader r(t);
    try
      {
        r.item(n,"root",0);
        r.skip();
        if (r.p<t.size()) r.fail("the end");
        if (r.braces) r.fail("}");
      }
    catch (Fail& f)
      {
        PBT_CHECK(false,a->type()<<": "<<f.msg<<" in the dump of "<<was);
      }
    s.nontrivial(r.items>4);
  }
}
static const Case cases[]={{"dumps",dumps}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
