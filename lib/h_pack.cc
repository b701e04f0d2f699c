// binary serialisation of generated families: P01, P02, P04
#include "pack_base.h"
#include "pack_stl.h"
#include "types.h"
#include "support.h"
#include "types.cd"
#include "classdesc_epilogue.h"
#include "any.h"
using namespace pbt;
using namespace classdesc;
std::vector<Entry> pbt::registry;
namespace
{
  template <class P> void streamOf(Src& s)
  {
    // several objects through one buffer, with unpacking interleaved
    P buf;
    Holders in;
    std::vector<size_t> ends;
    size_t n=1+s.below(6), next=0;
    const bool native=true;
    for (size_t i=0; i<n || next<in.size();)
      {
        if (i<n && (next==in.size() || !native || s.below(3)))
          {
            Any* a=randomAny(s);
            in.push_back(a);
            a->gen(s);
            if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<"; ";
            if (s.coin()) a->pack(buf); else a->packConst(buf);
            ends.push_back(buf.size());
            ++i;
          }
        else
          {
            Holder b(in[next]->fresh());
            PBT_CHECK(!native || bool(buf) || (next? buf.pos()==ends[next-1]: true),"buffer reports no data left");
            b->unpack(buf);
            PBT_CHECK(b->eq(*in[next]),in[next]->type()<<": unpacked "<<b->show()<<" from packed "<<in[next]->show());
            if (native) checkEq(buf.pos(),ends[next],std::string("read position after unpacking ")+in[next]->type());
            ++next;
          }
      }
    if (native)
      {
        checkEq(buf.pos(),buf.size(),"read position at the end");
        PBT_CHECK(!buf,"buffer not exhausted");
      }
    s.nontrivial(in.size()>1 && buf.size()>40);
    s.label("objects>2",in.size()>2);
    s.label("bytes>100",buf.size()>100);
    s.label("bytes>1024",buf.size()>1024);
    // and again from the start
    if (native && s.coin())
      {
        buf.reseto();
        for (size_t i=0; i<in.size(); ++i)
          {
            Holder b(in[i]->fresh());
            b->unpack(buf);
            PBT_CHECK(b->eq(*in[i]),in[i]->type()<<": second unpack gives "<<b->show()<<" from packed "<<in[i]->show());
          }
      }
  }
  void stream(Src& s) {streamOf<pack_t>(s);}
  void xdrstream(Src& s) {streamOf<xdr_pack>(s);}

  void replace(Src& s)
  {
    Holder a(randomAny(s)), dirty(a->fresh()), clean(a->fresh());
    a->gen(s); dirty->gen(s);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" into "<<dirty->show();
    std::string before=a->show();
    pack_t b1, b2;
    a->pack(b1);
    PBT_CHECK(a->show()==before,a->type()<<": packing changed the object from "<<before<<" to "<<a->show());
    a->packConst(b2);
    PBT_CHECK(b1.size()==b2.size() && (b1.size()==0 || memcmp(b1.data(),b2.data(),b1.size())==0),a->type()<<": packing twice gave different bytes");
    dirty->unpack(b1);
    clean->unpack(b2);
    PBT_CHECK(clean->eq(*a),a->type()<<": unpacked "<<clean->show()<<" from packed "<<a->show());
    PBT_CHECK(dirty->eq(*a),a->type()<<": unpacking into a used object gives "<<dirty->show()<<", expected "<<a->show());
    s.nontrivial(b1.size()>16);
    // an equal object gives identical bytes
    pack_t b3; clean->pack(b3);
    b1.reseto();
    PBT_CHECK(b1.size()==b3.size() && (b1.size()==0 || memcmp(b1.data(),b3.data(),b1.size())==0),a->type()<<": equal objects packed to different bytes");
    PBT_CHECK(a->deepEq(*clean),a->type()<<": deepEq false for equal objects "<<a->show());
    checkEq(a->deepCmp(*clean),0,"deepCmp of equal objects");
  }
  int sign(int x) {return x<0? -1: x>0;}
  void order(Src& s)
  {
    Holders o;
    o.push_back(randomAny(s));
    size_t n=2+s.below(3);
    for (size_t i=1; i<n; ++i) o.push_back(o[0]->fresh());
    for (size_t i=0; i<n; ++i)
      if (i && s.below(3)==0)
        {pack_t b; o[i-1]->pack(b); o[i]->unpack(b);}
      else
        o[i]->gen(s);
    if (s.verbose) {s.desc<<o[0]->type(); for (size_t i=0; i<n; ++i) s.desc<<" "<<o[i]->show();}
    std::vector<std::vector<int> > c(n,std::vector<int>(n));
    for (size_t i=0; i<n; ++i)
      for (size_t j=0; j<n; ++j)
        {
          int k=c[i][j]=o[i]->deepCmp(*o[j]);
          bool e=o[i]->eq(*o[j]);
          PBT_CHECK(k==-1||k==0||k==1,"deepCmp answers "<<k);
          PBT_CHECK((k==0)==e,o[0]->type()<<": deepCmp "<<k<<" for objects "<<o[i]->show()<<" and "<<o[j]->show());
          PBT_CHECK(o[i]->deepEq(*o[j])==e,o[0]->type()<<": deepEq "<<!e<<" for objects "<<o[i]->show()<<" and "<<o[j]->show());
          s.label("equal pair",e && i!=j);
          s.label("different pair",!e);
          pack_t x, y;
          o[i]->pack(x); o[j]->pack(y);
          PBT_CHECK((x<y)==(k<0) && (x>y)==(k>0) && (x==y)==(k==0) && (x!=y)==(k!=0),"relational operators disagree with deepCmp "<<k);
          s.nontrivial(!e && x.size()==y.size());
        }
    for (size_t i=0; i<n; ++i)
      for (size_t j=0; j<n; ++j)
        {
          PBT_CHECK(sign(c[i][j])==-sign(c[j][i]),"deepCmp is not antisymmetric: "<<c[i][j]<<" and "<<c[j][i]);
          for (size_t k=0; k<n; ++k)
            if (c[i][j]<=0 && c[j][k]<=0)
              PBT_CHECK(c[i][k]<=0,"deepCmp is not transitive");
        }
  }
  void order_setup() {profile().noNegZero=true; profile().finite=true;}
  void orderF(Src& s) {order_setup(); order(s);}
}
static const Case cases[]={{"stream",stream},{"xdrstream",xdrstream},{"replace",replace},{"order",orderF}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
