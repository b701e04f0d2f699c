// P03: model based test of pack_t, and of its file modes
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "values.h"
#include <typeinfo>
using namespace pbt;
using namespace classdesc;
namespace
{
  struct Model
  {
    std::string bytes; size_t pos;
    Model(): pos(0) {}
  };
  std::string raw(const void* p, size_t n) {return std::string((const char*)p,n);}
  std::string u64bytes(u64 x) {return raw(&x,8);}
  const size_t NB=3;

  struct World
  {
    pack_t* b[NB]; Model m[NB];
    World() {for (size_t i=0; i<NB; ++i) b[i]=new pack_t;}
    ~World() {for (size_t i=0; i<NB; ++i) delete b[i];}
    void check(const char* op)
    {
      for (size_t i=0; i<NB; ++i)
        {
          checkEq(b[i]->size(),m[i].bytes.size(),std::string("size after ")+op);
          checkEq(b[i]->pos(),m[i].pos,std::string("read position after ")+op);
          if (b[i]->size())
            PBT_CHECK(raw(b[i]->data(),b[i]->size())==m[i].bytes,"contents after "<<op<<": "<<hex(b[i]->data(),b[i]->size())<<" expected "<<hex(m[i].bytes.data(),m[i].bytes.size()));
          checkEq(bool(*b[i]),m[i].pos<m[i].bytes.size(),std::string("operator bool after ")+op);
        }
    }
  };

  template <class T> void writeT(Src& s, pack_t& b, Model& m)
  {
    T x; gen(s,x);
    b<<x; m.bytes+=raw(&x,sizeof(x));
    if (s.verbose) s.desc<<"<<"<<sizeof(T)<<" bytes";
  }
  template <class T> bool readT(Src& s, pack_t& b, Model& m)
  {
    T x; memset(&x,0,sizeof(x));
    bool threw=false;
    try {b>>x;} catch (const std::exception&) {threw=true;}
    bool past=m.pos+sizeof(T)>m.bytes.size();
    checkEq(threw,past,"reading a value throws");
    if (!past)
      {
        PBT_CHECK(raw(&x,sizeof(T))==m.bytes.substr(m.pos,sizeof(T)),"value read differs from the bytes written");
        m.pos+=sizeof(T);
      }
    if (s.verbose) s.desc<<">>"<<sizeof(T)<<(past?" throws":"");
    return past;
  }

  void history(Src& s)
  {
    World w;
    size_t n=1+s.below(s.chance(1,3)? 80: 25);
    int past=0, seeks=0, writes=0, reads=0;
    for (size_t k=0; k<n; ++k)
      {
        size_t i=s.below(4)? 0: s.below(NB);
        pack_t& b=*w.b[i]; Model& m=w.m[i];
        const char* op="";
        if (s.verbose) s.desc<<" #"<<i<<" ";
        switch (s.below(22))
          {
          case 0: op="write int"; writeT<int>(s,b,m); writes++; break;
          case 1: op="write char"; writeT<char>(s,b,m); writes++; break;
          case 2: op="write double"; writeT<double>(s,b,m); writes++; break;
          case 3: op="write uint64"; writeT<u64>(s,b,m); writes++; break;
          case 4: case 5:
            {
              op="packraw";
              std::string x; gen(s,x);
              if (s.below(12)==0) x.resize(s.below(9000));
              b.packraw(x.data(),x.size()); m.bytes+=x; writes++;
              if (s.verbose) s.desc<<"packraw "<<x.size();
              break;
            }
          case 6:
            {
              op="write string";
              std::string x; gen(s,x);
              b<<x; m.bytes+=u64bytes(x.size())+x; writes++;
              if (s.verbose) s.desc<<"<<string "<<x.size();
              break;
            }
          case 7:
            {
              op="write array";
              int x[5]; gen(s,x);
              pack(b,string(),is_array(),x[0],1,size_t(5));
              m.bytes+=raw(x,sizeof(x)); writes++;
              break;
            }
          case 8: op="read int"; past+=readT<int>(s,b,m); reads++; break;
          case 9: op="read char"; past+=readT<char>(s,b,m); reads++; break;
          case 10: op="read uint64"; past+=readT<u64>(s,b,m); reads++; break;
          case 11: case 12:
            {
              op="unpackraw";
              size_t rest=m.pos<m.bytes.size()? m.bytes.size()-m.pos: 0;
              size_t len=s.below(rest+1);
              bool over=s.below(4)==0;
              if (over) {len=rest+1+s.below(20); if (s.below(3)==0) len=size_t(0)-1-s.below(m.pos+20);}
              std::vector<char> x(over? rest+64: len+1,'\x5a');
              bool threw=false;
              try {b.unpackraw(&x[0],len);} catch (const std::exception&) {threw=true;}
              bool isover=m.pos>m.bytes.size() || len>m.bytes.size()-m.pos;
              checkEq(threw,isover,"unpackraw throws");
              if (threw) {past++; for (size_t j=0; j<x.size(); ++j) PBT_CHECK(x[j]=='\x5a',"a failing read wrote to its target");}
              else {PBT_CHECK(raw(&x[0],len)==m.bytes.substr(m.pos,len),"unpackraw gives other bytes than were written"); m.pos+=len;}
              reads++;
              if (s.verbose) s.desc<<"unpackraw "<<len<<(threw?" throws":"");
              break;
            }
          case 13:
            {
              op="seeki";
              size_t back=s.below(m.bytes.size()+1);
              b.seeki(-long(back)); m.bytes.resize(m.bytes.size()-back); seeks++;
              if (s.verbose) s.desc<<"seeki -"<<back;
              break;
            }
          case 14:
            {
              op="seeko";
              long to=s.below(m.bytes.size()+1);
              b.seeko(to-long(m.pos)); m.pos=to; seeks++;
              if (s.verbose) s.desc<<"seeko to "<<to;
              break;
            }
          case 15: op="reseto"; b.reseto(); m.pos=0; seeks++; if (s.verbose) s.desc<<op; break;
          case 16: op="reseti"; b.reseti(); m.bytes.clear(); seeks++; if (s.verbose) s.desc<<op; break;
          case 17: op="clear"; if (s.below(3)) break; b.clear(); m.bytes.clear(); m.pos=0; if (s.verbose) s.desc<<op; break;
          case 18:
            {
              op="swap";
              size_t j=s.below(NB);
              b.swap(*w.b[j]); std::swap(m.bytes,w.m[j].bytes); std::swap(m.pos,w.m[j].pos);
              if (s.verbose) s.desc<<"swap "<<j;
              break;
            }
          case 19:
            {
              op="resize";
              // expanding, the way buffers are filled from streams
              size_t old=m.bytes.size(), now=s.below(old+40);
              b.resize(now);
              checkEq(b.size(),now,"size after resize");
              m.bytes.resize(now,'#');
              if (now>old) memset(b.data()+old,'#',now-old);
              if (s.verbose) s.desc<<"resize "<<now;
              break;
            }
          case 20:
            {
              op="compare";
              for (size_t x=0; x<NB; ++x)
                for (size_t y=0; y<NB; ++y)
                  {
                    int c=w.b[x]->cmp(*w.b[y]), d=w.b[y]->cmp(*w.b[x]);
                    PBT_CHECK(c>=-1 && c<=1 && c==-d,"cmp answers "<<c<<" and "<<d);
                    bool e=w.m[x].bytes==w.m[y].bytes;
                    PBT_CHECK((c==0)==e,"cmp answers "<<c<<" for "<<(e? "equal": "different")<<" buffers");
                    PBT_CHECK((*w.b[x]==*w.b[y])==e && (*w.b[x]!=*w.b[y])==!e && (*w.b[x]<*w.b[y])==(c<0) && (*w.b[x]>*w.b[y])==(c>0),"relational operators disagree with cmp");
                  }
              break;
            }
          default:
            {
              size_t j=s.below(NB);
#if __cplusplus>=201103L
              if (s.coin())
                {
                  op="move construct";
                  b.recur_max=unsigned(s.below(1000)); b.ptr_flag=s.coin()? GRAPH: TREE;
                  unsigned rm=b.recur_max; Ptr_flag pf=b.ptr_flag;
                  pack_t* p=new pack_t(std::move(b));
                  w.b[i]=p;
                  checkEq(p->recur_max,rm,"recursion limit after move");
                  checkEq(int(p->ptr_flag),int(pf),"pointer flag after move");
                  b.clear();                    // the old one is usable again once cleared
                  int x=42, y=0;
                  b<<x; b>>y;
                  checkEq(y,42,"value through a buffer that was moved from and cleared");
                  delete &b;
                }
              else if (i!=j)
                {
                  op="move assign";
                  b=std::move(*w.b[j]);
                  m=w.m[j];
                  w.b[j]->clear(); w.m[j]=Model();    // whatever it was left with
                }
#else
              if (i!=j)
                {
                  op="copy one buffer to another";
                  b.packraw(w.b[j]->data(),w.b[j]->size());
                  m.bytes+=w.m[j].bytes;
                }
#endif
              if (s.verbose) s.desc<<op<<" "<<j;
              break;
            }
          }
        w.check(op);
      }
    s.nontrivial(writes>1 && reads>0 && seeks>0);
    s.label("read past the end",past>0);
    s.label("seek",seeks>0);
    s.label("long history",n>30);
  }

  // file modes against a memory buffer
  struct Item {int kind; std::string s; double d; long l; std::vector<int> v; std::map<std::string,short> m;};
  std::string scratch() {return std::string(getenv("VERIF_SCRATCH")? getenv("VERIF_SCRATCH"): ".")+"/f";}
  void file(Src& s)
  {
    std::vector<Item> items(1+s.below(12));
    pack_t mem;
    std::string fn=scratch();
    {
      pack_t f(fn.c_str(),"w");
      for (size_t i=0; i<items.size(); ++i)
        {
          Item& t=items[i]; t.kind=s.below(6);
          switch (t.kind)
            {
            case 0: gen(s,t.s); mem<<t.s; f<<t.s; break;
            case 1: gen(s,t.d); mem<<t.d; f<<t.d; break;
            case 2: gen(s,t.l); mem<<t.l; f<<t.l; break;
            case 3: gen(s,t.v); mem<<t.v; f<<t.v; break;
            case 4: gen(s,t.m); mem<<t.m; f<<t.m; break;
            default: gen(s,t.s); mem.packraw(t.s.data(),t.s.size()); f.packraw(t.s.data(),t.s.size());
            }
          if (s.verbose) s.desc<<t.kind<<" ";
        }
    }
    FILE* f=fopen(fn.c_str(),"r");
    std::string got; char tmp[4096]; size_t k;
    while ((k=fread(tmp,1,sizeof(tmp),f))>0) got.append(tmp,k);
    fclose(f);
    PBT_CHECK(got.size()==mem.size() && (mem.size()==0 || memcmp(got.data(),mem.data(),mem.size())==0),"file holds "<<hex(got.data(),got.size())<<", buffer "<<hex(mem.data(),mem.size()));
    s.nontrivial(items.size()>2 && mem.size()>32);
    pack_t r(fn.c_str(),"r");
    int passes=1+s.below(2);
    for (int p=0; p<passes; ++p)
      {
        if (p) r.reseto();
        for (size_t i=0; i<items.size(); ++i)
          {
            Item& t=items[i]; Item u; u.d=7; u.l=7;
            switch (t.kind)
              {
              case 0: r>>u.s; PBT_CHECK(u.s==t.s,"string read from file differs"); break;
              case 1: r>>u.d; PBT_CHECK(feq(u.d,t.d),"double read from file differs"); break;
              case 2: r>>u.l; PBT_CHECK(u.l==t.l,"long read from file differs"); break;
              case 3: r>>u.v; PBT_CHECK(u.v==t.v,"vector read from file differs"); break;
              case 4: r>>u.m; PBT_CHECK(u.m==t.m,"map read from file differs"); break;
              default: u.s.resize(t.s.size()); if (t.s.size()) {if (s.coin()) r.seeko(long(t.s.size())); else {r.unpackraw(&u.s[0],t.s.size()); PBT_CHECK(u.s==t.s,"raw data read from file differs");}}
              }
          }
        bool threw=false; char c;
        try {r>>c;} catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw,"reading past the end of the file does not throw");
      }
    // truncated file: the last item must throw, unless nothing of it was written
    if (mem.size() && items.back().kind<5 && s.coin())
      {
        if (truncate(fn.c_str(),mem.size()-1)) fail("truncate");
        pack_t q(fn.c_str(),"r");
        bool threw=false;
        try
          {
            for (size_t i=0; i<items.size(); ++i)
              {
                Item u;
                switch (items[i].kind)
                  {
                  case 0: q>>u.s; break;
                  case 1: q>>u.d; break;
                  case 2: q>>u.l; break;
                  case 3: q>>u.v; break;
                  case 4: q>>u.m; break;
                  default: u.s.resize(items[i].s.size()+1); q.unpackraw(&u.s[0],items[i].s.size());
                  }
              }
          }
        catch (const std::exception&) {threw=true;}
        PBT_CHECK(threw,"unpacking from a truncated file does not throw");
        s.label("truncated");
      }
  }
}
static const Case cases[]={{"history",history},{"file",file}};
PBT_MAIN(cases)
