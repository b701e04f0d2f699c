// truncated, damaged and random binary input: P04
#include "pack_base.h"
#include "pack_stl.h"
#include "types.h"
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
#include "memlimit.h"
#include "damage.h"
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;

namespace
{
  std::string scratch(const char* n)
  {
    const char* d=getenv("VERIF_SCRATCH");
    return std::string(d? d: ".")+"/"+n;
  }
  template <class P> void load(P& b, const std::string& x)
  {
    // exactly as large as the data, so that any read beyond is seen
    b.clear();
    b.realloc(x.size());
    if (!x.empty()) memcpy(b.data(),x.data(),x.size());
    b.resize(x.size());
  }
  template <class P> std::string bytes(P& b) {return std::string(b.data()? b.data(): "",b.size());}

  // true if it threw
  bool tryUnpack(Any& a, pack_t& b, std::string& what)
  {
    try {a.unpack(b); return false;}
    catch (const std::exception& e) {what=e.what(); return true;}
    catch (const Fail&) {throw;}
    catch (...) {fail("unpacking threw something that is not a std::exception"); return true;}
  }
  // the target is still an object that can be looked at, packed, given new contents and destroyed
  void use(Src& s, Any& a)
  {
    volatile size_t n=a.show().size(); (void)n;
    pack_t b; a.packConst(b);
    Holder c(a.fresh());
    c->gen(s);
    pack_t d; c->packConst(d);
    a.unpack(d);
    PBT_CHECK(a.eq(*c),a.type()<<": object in use after a failed unpack reads "<<a.show()<<" for "<<c->show());
  }

  template <class P> void truncateOf(Src& s)
  {
    Holder a(randomAny(s));
    a->gen(s);
    P b; a->pack(b);
    std::string all=bytes(b);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" "<<all.size()<<" bytes";
    size_t n=all.size();
    s.nontrivial(n>8);
    s.label("bytes>64",n>64);
    bool file=s.below(8)==0;
    size_t step= n>300? n/200: 1, off=step>1? s.below(step): 0;
    for (size_t k=off; k<n; k+=step)
      {
        Holder t(a->fresh());
        bool dirty=s.below(4)==0;
        if (dirty) t->gen(s);
        std::string what;
        {
          P c; load(c,all.substr(0,k));
          PBT_CHECK(tryUnpack(*t,c,what),a->type()<<": unpacking the first "<<k<<" of "<<n<<" bytes did not throw and gave "<<t->show());
          PBT_CHECK(c.pos()<=c.size(),"read position "<<c.pos()<<" beyond the end "<<c.size()<<" after a failed unpack");
          checkEq(c.size(),k,"size of the buffer after a failed unpack");
        }
        if (s.below(8)==0) use(s,*t);
        if (file && s.below(16)==0)
          {
            std::string fn=scratch("trunc");
            FILE* f=fopen(fn.c_str(),"w");
            if (!f || (k && fwrite(all.data(),k,1,f)!=1)) fail("cannot write scratch file");
            fclose(f);
            P c(fn.c_str(),"r");
            Holder u(a->fresh());
            PBT_CHECK(tryUnpack(*u,c,what),a->type()<<": unpacking a file of the first "<<k<<" of "<<n<<" bytes did not throw and gave "<<u->show());
            remove(fn.c_str());
          }
      }
    // and whole
    P c; load(c,all);
    Holder t(a->fresh());
    std::string what;
    PBT_CHECK(!tryUnpack(*t,c,what),a->type()<<": unpacking whole data threw "<<what);
  }

  template <class P> void damagedOf(Src& s)
  {
    Holder a(randomAny(s));
    a->gen(s);
    P b; a->pack(b);
    std::string x=bytes(b);
    damage(s,x);
    if (s.below(8)==0)
      {
        // what was packed as something else
        Holder o(randomAny(s));
        o->gen(s);
        P c; o->pack(c);
        x=bytes(c);
      }
    if (s.verbose) s.desc<<a->type()<<" from "<<hex(x.data(),x.size());
    Holder t(a->fresh());
    if (s.coin()) t->gen(s);
    P c; load(c,x);
    std::string what;
    bool threw=tryUnpack(*t,c,what);
    PBT_CHECK(c.pos()<=c.size(),"read position "<<c.pos()<<" beyond the end "<<c.size());
    s.label("rejected",threw);
    s.label("accepted",!threw);
    s.nontrivial(x.size()>8 && (threw || x!=bytes(b)));
    use(s,*t);
  }

  template <class P> void noiseOf(Src& s)
  {
    Holder a(randomAny(s));
    std::string x;
    int mode=s.below(4);
    for (size_t n=s.len(600); n; --n)
      x+= mode==0? char(s.below(256)): mode==1? char(s.below(8)? 0: s.below(4)): mode==2? char(s.below(3)): char(s.below(2)? 255: s.below(256));
    if (s.verbose) s.desc<<a->type()<<" from "<<hex(x.data(),x.size());
    Holder t(a->fresh());
    P c; load(c,x);
    std::string what;
    bool threw=tryUnpack(*t,c,what);
    PBT_CHECK(c.pos()<=c.size(),"read position "<<c.pos()<<" beyond the end "<<c.size());
    s.label("noise rejected",threw);
    s.label("noise accepted",!threw);
    s.nontrivial(x.size()>8);
    use(s,*t);
  }
  void truncated(Src& s) {truncateOf<pack_t>(s);}
  void damaged(Src& s) {damagedOf<pack_t>(s);}
  void noise(Src& s) {noiseOf<pack_t>(s);}
  void xtruncated(Src& s) {truncateOf<xdr_pack>(s);}
  void xdamaged(Src& s) {damagedOf<xdr_pack>(s);}
  void xnoise(Src& s) {noiseOf<xdr_pack>(s);}
}
static const Case cases[]={{"truncated",truncated},{"damaged",damaged},{"noise",noise},{"xtruncated",xtruncated},{"xdamaged",xdamaged},{"xnoise",xnoise}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
