// P07: XDR buffers against an independent RFC 4506 encoder
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "values.h"
using namespace pbt;
using namespace classdesc;
namespace
{
  void be(std::string& o, u64 v, int n) {for (int i=n-1; i>=0; --i) o+=char(v>>(8*i));}
  void opaque(std::string& o, const std::string& x) {o+=x; while (o.size()%4) o+='\0';}
  // RFC 4506 encodings
  void enc(std::string& o, bool x) {be(o,x,4);}
  void enc(std::string& o, char x) {be(o,(long)x,4);}
  void enc(std::string& o, signed char x) {be(o,(long)x,4);}
  void enc(std::string& o, unsigned char x) {be(o,x,4);}
  void enc(std::string& o, short x) {be(o,(long)x,4);}
  void enc(std::string& o, unsigned short x) {be(o,x,4);}
  void enc(std::string& o, int x) {be(o,(long)x,4);}
  void enc(std::string& o, unsigned x) {be(o,x,4);}
  void enc(std::string& o, long x) {be(o,x,4);}
  void enc(std::string& o, unsigned long x) {be(o,x,4);}
  void enc(std::string& o, long long x) {be(o,x,8);}
  void enc(std::string& o, unsigned long long x) {be(o,x,8);}
  void enc(std::string& o, wchar_t x) {be(o,(unsigned)x,4);}
  void enc(std::string& o, float x) {unsigned u; memcpy(&u,&x,4); be(o,u,4);}
  void enc(std::string& o, double x) {u64 u; memcpy(&u,&x,8); be(o,u,8);}
  void enc(std::string& o, const std::string& x) {be(o,x.size(),8); opaque(o,x);}
  template <class T> void enc(std::string& o, const std::vector<T>& x) {be(o,x.size(),8); for (size_t i=0; i<x.size(); ++i) enc(o,x[i]);}
  template <class K, class T> void enc(std::string& o, const std::map<K,T>& x)
  {be(o,x.size(),8); for (typename std::map<K,T>::const_iterator i=x.begin(); i!=x.end(); ++i) {enc(o,i->first); enc(o,i->second);}}

  // XDR has no 64 bit long: keep to what it can represent
  template <class T> bool fits(const T&) {return true;}
  bool fits(long x) {return x==(int)x;}
  bool fits(unsigned long x) {return x==(unsigned)x;}

  struct Item
  {
    size_t end;
    virtual ~Item() {}
    virtual void pack(pack_t&)=0;
    virtual void encode(std::string&)=0;
    // unpacks and compares
    virtual void unpack(pack_t&)=0;
    virtual std::string show()=0;
    virtual bool representable() {return true;}
  };
  template <class T> struct ItemT: public Item
  {
    T x;
    ItemT(Src& s) {gen(s,x);}
    void pack(pack_t& b) {b<<x;}
    void encode(std::string& o) {enc(o,x);}
    void unpack(pack_t& b)
    {
      T y=T();
      b>>y;
      PBT_CHECK(eq(x,y,Tag()),"unpacked "<<str(y)<<", packed "<<str(x));
    }
    std::string show() {return str(x);}
    bool representable() {return fits(x);}
  };
  struct Raw: public Item
  {
    std::string x;
    Raw(Src& s) {gen(s,x); if (s.below(6)==0) x.resize(s.below(5000));}
    void pack(pack_t& b) {b.packraw(x.data(),x.size());}
    void encode(std::string& o) {opaque(o,x);}
    void unpack(pack_t& b)
    {
      std::vector<char> y(x.size()+1,'?');
      b.unpackraw(&y[0],x.size());
      PBT_CHECK(std::string(&y[0],x.size())==x && y[x.size()]=='?',"raw data differs");
    }
    std::string show() {std::ostringstream o; o<<"raw "<<x.size(); return o.str();}
  };
  struct Arr: public Item
  {
    int x[2][3];
    Arr(Src& s) {gen(s,x);}
    void pack(pack_t& b) {classdesc::pack(b,string(),is_array(),x[0][0],2,size_t(2),3);}
    void encode(std::string& o) {for (int i=0; i<6; ++i) enc(o,(&x[0][0])[i]);}
    void unpack(pack_t& b) {int y[2][3]; classdesc::unpack(b,string(),is_array(),y[0][0],2,size_t(2),3); PBT_CHECK(eq(x,y,Tag()),"array differs");}
    std::string show() {return "array";}
  };
  struct CArr: public Item
  {
    char x[7];
    CArr(Src& s) {gen(s,x);}
    void pack(pack_t& b) {classdesc::pack(b,string(),is_array(),x[0],1,size_t(7));}
    void encode(std::string& o) {opaque(o,std::string(x,7));}
    void unpack(pack_t& b) {char y[7]; classdesc::unpack(b,string(),is_array(),y[0],1,size_t(7)); PBT_CHECK(eq(x,y,Tag()),"char array differs");}
    std::string show() {return "char array";}
  };

  Item* randomItem(Src& s)
  {
    Item* r=0;
    do
      {
        delete r;
        switch (s.below(22))
          {
          case 0: r=new ItemT<bool>(s); break;
          case 1: r=new ItemT<char>(s); break;
          case 2: r=new ItemT<signed char>(s); break;
          case 3: r=new ItemT<unsigned char>(s); break;
          case 4: r=new ItemT<short>(s); break;
          case 5: r=new ItemT<unsigned short>(s); break;
          case 6: r=new ItemT<int>(s); break;
          case 7: r=new ItemT<unsigned>(s); break;
          case 8: r=new ItemT<long>(s); break;
          case 9: r=new ItemT<unsigned long>(s); break;
          case 10: r=new ItemT<long long>(s); break;
          case 11: r=new ItemT<unsigned long long>(s); break;
          case 12: r=new ItemT<float>(s); break;
          case 13: r=new ItemT<double>(s); break;
          case 14: r=new ItemT<wchar_t>(s); break;
          case 15: case 16: r=new ItemT<std::string>(s); break;
          case 17: r=new ItemT<std::vector<int> >(s); break;
          case 18: r=new ItemT<std::map<std::string,double> >(s); break;
          case 19: r=new Arr(s); break;
          case 20: r=new CArr(s); break;
          default: r=new Raw(s);
          }
      }
    while (!r->representable());
    return r;
  }

  struct World
  {
    xdr_pack* b; std::vector<Item*> items; size_t next;   // next: item the read position is at
    std::vector<Item*> bin; std::string enc;
    World(): b(new xdr_pack), next(0) {}
    ~World() {delete b; for (size_t i=0; i<bin.size(); ++i) delete bin[i];}
    size_t start(size_t i) {return i? items[i-1]->end: 0;}
    size_t size() {return items.empty()? 0: items.back()->end;}
    void check(const char* op)
    {
      const std::string& e=enc;
      checkEq(b->size(),e.size(),std::string("size after ")+op);
      PBT_CHECK(e.empty() || memcmp(b->data(),e.data(),e.size())==0,"contents after "<<op<<": "<<hex(b->data(),b->size())<<", RFC 4506 encoding: "<<hex(e.data(),e.size()));
      checkEq(b->pos(),start(next),std::string("read position after ")+op);
      checkEq(bool(*b),start(next)<e.size(),std::string("operator bool after ")+op);
    }
  };

  void history(Src& s)
  {
    World w[2];
    size_t n=1+s.below(s.chance(1,3)? 120: 30);
    int reads=0, seeks=0, writes=0;
    size_t longest=0;
    for (size_t k=0; k<n; ++k)
      {
        World& x=w[s.below(5)==0];
        const char* op="";
        switch (s.below(16))
          {
          case 0: case 1: case 2: case 3: case 4: case 5: case 6:
            {
              op="pack";
              Item* t=randomItem(s);
              x.bin.push_back(t);
              if (s.verbose) s.desc<<"pack "<<t->show()<<"; ";
              t->pack(*x.b);
              x.items.push_back(t);
              t->encode(x.enc);
              t->end=x.enc.size();
              if (t->end>longest) longest=t->end;
              writes++;
              break;
            }
          case 7: case 8: case 9: case 10:
            {
              op="unpack";
              if (x.next<x.items.size())
                {
                  if (s.verbose) s.desc<<"unpack "<<x.items[x.next]->show()<<"; ";
                  x.items[x.next]->unpack(*x.b);
                  x.next++;
                }
              else
                {
                  if (s.verbose) s.desc<<"unpack past the end; ";
                  bool threw=false;
                  try
                    {
                      switch (s.below(4))
                        {
                        case 0: {int y; *x.b>>y; break;}
                        case 1: {double y; *x.b>>y; break;}
                        case 2: {std::string y; *x.b>>y; break;}
                        default: {std::vector<char> y(600); x.b->unpackraw(&y[0],1+s.below(500));}
                        }
                    }
                  catch (const std::exception&) {threw=true;}
                  PBT_CHECK(threw,"reading past the end does not throw");
                  s.label("read past the end");
                }
              reads++;
              break;
            }
          case 11:
            {
              op="seeki";
              size_t keep=s.below(x.items.size()+1);
              if (keep<x.next) break;      // the read position stays inside the data
              if (s.verbose) s.desc<<"seeki to item "<<keep<<"; ";
              x.b->seeki(long(x.start(keep))-long(x.size()));
              x.items.resize(keep); x.enc.resize(x.size());
              seeks++;
              break;
            }
          case 12:
            {
              op="seeko";
              size_t to=s.below(x.items.size()+1);
              if (s.verbose) s.desc<<"seeko to item "<<to<<"; ";
              x.b->seeko(long(x.start(to))-long(x.start(x.next)));
              x.next=to;
              seeks++;
              break;
            }
          case 13: op="reseto"; if (s.verbose) s.desc<<"reseto; "; x.b->reseto(); x.next=0; seeks++; break;
          case 14:
            op="reseti and reseto"; if (s.below(3)) break; if (s.verbose) s.desc<<"reset; ";
            x.b->reseti(); x.b->reseto(); x.items.clear(); x.enc.clear(); x.next=0; seeks++; break;
          default:
            {
              World& y=&x==w? w[1]: w[0];
              if (s.verbose) s.desc<<"swap/move; ";
#if __cplusplus>=201103L
              if (s.coin())
                {
                  op="move";
                  xdr_pack* p=new xdr_pack(std::move(*x.b));
                  delete x.b;
                  x.b=p;
                  break;
                }
#endif
              op="swap";
              x.b->swap(*y.b);
              x.items.swap(y.items); x.enc.swap(y.enc); std::swap(x.next,y.next); x.bin.swap(y.bin);
            }
          }
        w[0].check(op); w[1].check(op);
      }
    s.nontrivial(writes>1 && reads>0);
    s.label("longer than 1024",longest>1024);
    s.label("longer than 4096",longest>4096);
    s.label("seek",seeks>0);
  }

  void file(Src& s)
  {
    std::string fn=std::string(getenv("VERIF_SCRATCH")? getenv("VERIF_SCRATCH"): ".")+"/f", e;
    std::vector<Item*> items(1+s.below(15));
    for (size_t i=0; i<items.size(); ++i) items[i]=randomItem(s);
    {
      xdr_pack f(fn.c_str(),"w");
      for (size_t i=0; i<items.size(); ++i)
        {
          items[i]->pack(f); items[i]->encode(e);
          if (s.verbose) s.desc<<items[i]->show()<<"; ";
        }
    }
    FILE* f=fopen(fn.c_str(),"r");
    std::string got; char tmp[4096]; size_t k;
    while ((k=fread(tmp,1,sizeof(tmp),f))>0) got.append(tmp,k);
    fclose(f);
    PBT_CHECK(got==e,"file holds "<<hex(got.data(),got.size())<<", RFC 4506 encoding "<<hex(e.data(),e.size()));
    xdr_pack r(fn.c_str(),"r");
    for (int p=0; p<2; ++p)
      {
        if (p) r.reseto();
        for (size_t i=0; i<items.size(); ++i) items[i]->unpack(r);
        bool threw=false; int c;
        try {r>>c;} catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw,"reading past the end of the file does not throw");
      }
    for (size_t i=0; i<items.size(); ++i) delete items[i];
    s.nontrivial(items.size()>2 && e.size()>32);
  }

  // values XDR cannot represent are refused, not changed
  void unrepresentable(Src& s)
  {
    xdr_pack b;
    bool threw=false;
    if (s.coin())
      {
        long x; gen(s,x);
        if (fits(x)) x=x*8+(1L<<34);
        if (fits(x)) throw Discard();
        long y=0;
        if (s.verbose) s.desc<<"long "<<x;
        try {b<<x; b>>y;} catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw || x==y,"long "<<x<<" came back as "<<y);
      }
    else
      {
        unsigned long x; gen(s,x);
        if (fits(x)) x|=1UL<<34;
        unsigned long y=0;
        if (s.verbose) s.desc<<"unsigned long "<<x;
        try {b<<x; b>>y;} catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw || x==y,"unsigned long "<<x<<" came back as "<<y);
      }
    s.nontrivial();
  }
}
static const Case cases[]={{"history",history},{"file",file},{"unrepresentable",unrepresentable}};
PBT_MAIN(cases)
