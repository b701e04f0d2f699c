// Small property-based testing engine (C++98 compatible).
// A case is a function of a Src, a source of bounded choices.  Random runs record the choices
// drawn; a failing case is shrunk by editing that list and replayed from it.  Choices are also
// mirrored into a memory mapped file so that a crashing case can be recovered by the driver.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>

namespace pbt
{
  typedef unsigned long long u64;

  struct Fail: public std::exception
  {
    std::string msg;
    Fail(const std::string& m): msg(m) {}
    ~Fail() throw() {}
    const char* what() const throw() {return msg.c_str();}
  };
  struct Discard {};

  struct Rng
  {
    u64 s;
    explicit Rng(u64 seed=0): s(seed) {}
    u64 next()
    {
      u64 z=(s+=0x9E3779B97F4A7C15ULL);
      z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL;
      z=(z^(z>>27))*0x94D049BB133111EBULL;
      return z^(z>>31);
    }
  };

  struct Shared { u64 magic, caseIdx, n; u64 choice[1<<16]; };

  class Src
  {
    Rng rng;
    const std::vector<u64>* rep;
    size_t pos;
    Shared* sh;
    Src(const Src&); void operator=(const Src&);
  public:
    std::vector<u64> rec;
    int size;            // 0..100, grows during a run
    bool verbose;        // description wanted
    bool nt;             // case counted as non-trivial
    std::ostringstream desc;
    std::map<std::string,u64>* labels;
    Src(u64 seed, int size, Shared* sh): rng(seed), rep(NULL), pos(0), sh(sh), size(size), verbose(false), nt(false), labels(NULL) {if (sh) sh->n=0;}
    Src(const std::vector<u64>& r, Shared* sh): rng(0), rep(&r), pos(0), sh(sh), size(100), verbose(false), nt(false), labels(NULL) {if (sh) sh->n=0;}
    void put(u64 v)
    {
      rec.push_back(v);
      if (sh && sh->n<(1<<16)) {sh->choice[sh->n]=v; sh->n++;}
    }
    // uniform in [0,n); n==0 means any 64 bit value
    u64 below(u64 n)
    {
      u64 v;
      if (rep) v= pos<rep->size()? (*rep)[pos++]: 0;
      else v=rng.next();
      if (n) v%=n;
      put(v);
      return v;
    }
    u64 bits() {return below(0);}
    long range(long lo, long hi) {return lo+(long)below((u64)(hi-lo)+1);}
    bool chance(int num, int den) {return below(den)>=(u64)(den-num);}
    bool coin() {return below(2)==1;}
    // a length: small most of the time, bounded by the size parameter, occasionally up to max
    size_t len(size_t max)
    {
      u64 k=below(16);
      if (k==0) return 0;
      size_t m;
      if (k<8) m=3; else if (k<13) m=8; else if (k<15) m=24; else m=max;
      if (m>max) m=max;
      return below(m+1);
    }
    void label(const std::string& l) {if (labels) (*labels)[l]++;}
    void label(const std::string& l, bool c) {if (c) label(l);}
    void nontrivial(bool c=true) {if (c) nt=true;}
  };

  inline void fail(const std::string& m) {throw Fail(m);}
  template <class A, class B> void checkEq(const A& a, const B& b, const std::string& what)
  {
    if (!(a==b)) {std::ostringstream o; o<<what<<": got "<<a<<", expected "<<b; throw Fail(o.str());}
  }
  inline std::string hex(const void* p, size_t n)
  {
    std::string r; char b[4];
    for (size_t i=0; i<n && i<200; ++i) {sprintf(b,"%02x",((const unsigned char*)p)[i]); r+=b;}
    if (n>200) r+="...";
    return r;
  }
  inline std::string show(const std::string& s)
  {
    std::string r="\""; char b[8];
    for (size_t i=0; i<s.size() && i<8000; ++i)
      {
        unsigned char c=s[i];
        if (c<32||c>126||c=='"'||c=='\\') {sprintf(b,"\\x%02x",c); r+=b;}
        else r+=c;
      }
    if (s.size()>8000) r+="...";
    return r+"\"";
  }

  struct Case { const char* name; void (*fn)(Src&); };

  inline Shared* mapShared(const char* file)
  {
    int fd=open(file,O_RDWR|O_CREAT|O_TRUNC,0644);
    if (fd<0 || ftruncate(fd,sizeof(Shared))) {perror(file); exit(3);}
    void* p=mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    close(fd);
    if (p==MAP_FAILED) {perror("mmap"); exit(3);}
    return (Shared*)p;
  }
  // CPU time allowance of one case; normal cases take milliseconds
  inline void armWatchdog(int sec)
  {
    struct itimerval t; memset(&t,0,sizeof(t)); t.it_value.tv_sec=sec;
    setitimer(ITIMER_PROF,&t,NULL);
  }
  inline std::string jstr(const std::string& s)
  {
    std::string r="\""; char b[8];
    for (size_t i=0; i<s.size(); ++i)
      {
        unsigned char c=s[i];
        if (c=='"'||c=='\\') {r+='\\'; r+=c;}
        else if (c<32||c>126) {sprintf(b,"\\u%04x",c); r+=b;}
        else r+=c;
      }
    return r+"\"";
  }
  inline u64 hashVec(const std::vector<u64>& v)
  {
    u64 h=1469598103934665603ULL;
    for (size_t i=0; i<v.size(); ++i) {Rng r(h^v[i]); h=r.next();}
    return h;
  }
  inline std::string whatOf()
  {
    try {throw;}
    catch (const Fail& f) {return f.msg;}
    catch (const std::exception& e) {return std::string("unexpected exception: ")+e.what();}
    catch (...) {return "unexpected exception of unknown type";}
  }

  inline int pbtMain(int argc, char** argv, const Case* cases, size_t ncases)
  {
    if (argc<2) return 3;
    std::string cmd=argv[1];
    const int watchdog= getenv("PBT_WATCHDOG")? atoi(getenv("PBT_WATCHDOG")): 30;
    if (cmd=="list")
      {
        for (size_t i=0; i<ncases; ++i) puts(cases[i].name);
        return 0;
      }
    std::string name;
    std::vector<u64> choices;
    if (cmd=="replay")
      {
        FILE* f=fopen(argv[2],"r");
        if (!f) return 3;
        char b[256]; unsigned long long v;
        if (fscanf(f,"%255s",b)!=1) return 3;
        name=b;
        while (fscanf(f,"%llu",&v)==1) choices.push_back(v);
        fclose(f);
      }
    else name=argv[2];
    const Case* c=NULL;
    for (size_t i=0; i<ncases; ++i) if (name==cases[i].name) c=&cases[i];
    if (!c) {fprintf(stderr,"no case %s\n",name.c_str()); return 3;}

    if (cmd=="replay")
      {
        Src s(choices,NULL);
        s.verbose=true;
        armWatchdog(watchdog);
        int rc=0; std::string msg;
        try {c->fn(s);}
        catch (const Discard&) {rc=0; msg="discarded";}
        catch (...) {rc=1; msg=whatOf();}
        printf("RESULT %s\n",rc? "FAIL": "OK");
        printf("MESSAGE %s\n",msg.c_str());
        printf("DESCRIPTION %s\n",s.desc.str().c_str());
        fflush(stdout);
        _exit(rc);
      }
    if (cmd!="run" || argc<7) return 3;
    u64 seed=strtoull(argv[3],NULL,10), start=strtoull(argv[4],NULL,10), count=strtoull(argv[5],NULL,10);
    std::string out=argv[6];
    Shared* sh=mapShared((out+".mm").c_str());
    sh->magic=0x5042545f;
    std::map<std::string,u64> labels;
    std::set<u64> hashes;
    std::vector<std::string> samples;
    u64 evals=0, discards=0, nontriv=0;
    int rc=0; std::string msg, fdesc; std::vector<u64> frec; u64 fidx=0;
    for (u64 i=start; i<start+count; ++i)
      {
        sh->caseIdx=i;
        Rng r(seed*0x9E3779B97F4A7C15ULL^(i+1)*0xD1B54A32D192ED03ULL);
        Src s(r.next(),int(i*100/(start+count)),sh);
        s.labels=&labels;
        bool sample= samples.size()<3 && (i%7==3);
        s.verbose=sample;
        armWatchdog(watchdog);
        try {c->fn(s); evals++;}
        catch (const Discard&) {discards++; continue;}
        catch (...)
          {
            rc=1; msg=whatOf(); frec=s.rec; fidx=i; fdesc=s.desc.str();
          }
        if (s.nt) {nontriv++; hashes.insert(hashVec(s.rec));}
        if (sample && s.nt && !s.desc.str().empty()) samples.push_back(s.desc.str().substr(0,600));
        if (rc) break;
      }
    armWatchdog(0);
    FILE* f=fopen((out+".json").c_str(),"w");
    if (!f) return 3;
    fprintf(f,"{\"case\":%s,\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"labels\":{",jstr(name).c_str(),evals,discards,nontriv);
    bool first=true;
    for (std::map<std::string,u64>::iterator i=labels.begin(); i!=labels.end(); ++i)
      {fprintf(f,"%s%s:%llu",first?"":",",jstr(i->first).c_str(),i->second); first=false;}
    fprintf(f,"},\"samples\":[");
    for (size_t i=0; i<samples.size(); ++i) fprintf(f,"%s%s",i?",":"",jstr(samples[i]).c_str());
    fprintf(f,"],\"failed\":%d,\"message\":%s,\"description\":%s,\"failidx\":%llu,\"choices\":[",rc,jstr(msg).c_str(),jstr(fdesc).c_str(),fidx);
    for (size_t i=0; i<frec.size(); ++i) fprintf(f,"%s%llu",i?",":"",frec[i]);
    fprintf(f,"]}\n");
    fclose(f);
    f=fopen((out+".hash").c_str(),"w");
    for (std::set<u64>::iterator i=hashes.begin(); i!=hashes.end(); ++i) fwrite(&*i,8,1,f);
    fclose(f);
    fflush(stdout);
    _exit(rc);
  }
}

#define PBT_CHECK(c,what) do {if (!(c)) {std::ostringstream pbt_o; pbt_o<<what; throw pbt::Fail(pbt_o.str());}} while (0)
#define PBT_MAIN(arr) int main(int argc, char** argv) {return pbt::pbtMain(argc,argv,arr,sizeof(arr)/sizeof(arr[0]));}
#endif
