// histories of ref smart pointers against a model of reference counting: P06
#include "pack_base.h"
#include "ref.h"
#include "classdesc_epilogue.h"
#include "pbt.h"
#include <algorithm>
#include <list>
using namespace pbt;
using classdesc::ref;

namespace
{
  struct Obj;
  std::set<const Obj*> live;
  int copies=0;
  struct Obj
  {
    int v;
    ref<Obj> next;
    std::vector<ref<Obj> > kids;
    std::string pad;
    Obj(int v=-7): v(v), pad(20,'p') {reg();}
    Obj(const Obj& o): v(o.v), next(o.next), kids(o.kids), pad(o.pad) {reg(); copies++; if (!live.count(&o)) fail("copied from a destroyed object");}
    Obj& operator=(const Obj& o) {v=o.v; next=o.next; kids=o.kids; pad=o.pad; return *this;}
    ~Obj() {if (!live.erase(this)) {fprintf(stderr,"object destroyed twice\n"); abort();}}
    bool operator==(const Obj& o) const {return v==o.v;}
    int add(int k) {v+=k; return v;}
    void reg() {if (!live.insert(this).second) {fprintf(stderr,"object constructed over another\n"); abort();}}
  };

  // the model: targets by number, 0 is null
  struct Target {int v, count, next; std::vector<int> kids; const Obj* addr;};
  struct Model
  {
    std::map<int,Target> t;
    int serial;
    Model(): serial(0) {}
    void inc(int i) {if (i) t[i].count++;}
    void dec(int i)
    {
      if (!i) return;
      if (--t[i].count==0)
        {
          Target x=t[i];
          t.erase(i);
          dec(x.next);
          for (size_t k=0; k<x.kids.size(); ++k) dec(x.kids[k]);
        }
    }
    int make(int v, int next, const std::vector<int>& kids)    // count 0
    {
      Target x; x.v=v; x.count=0; x.next=next; x.kids=kids; x.addr=0;
      inc(next); for (size_t i=0; i<kids.size(); ++i) inc(kids[i]);
      t[++serial]=x;
      return serial;
    }
    void set(int& slot, int i) {inc(i); int old=slot; slot=i; dec(old);}
  };

  void history(Src& s)
  {
    live.clear();
    {
      Model m;
      std::vector<ref<Obj> > r(5);
      std::vector<int> q(5,0);
      size_t n= s.below(4)? 6+s.below(24): 1+s.below(70), interesting=0;
      for (size_t step=0; step<n; ++step)
        {
          size_t a=s.below(r.size()), b=s.below(r.size());
          int op=s.below(25);
          if (s.verbose) s.desc<<op<<"("<<a<<","<<b<<") ";
          switch (op)
            {
            case 0: case 1:   // from a value, which stays independent
              {
                int v=s.below(1000);
                Obj o(v);
                if (s.coin()) {o.next=r[b]; }
                int nx= o.next? q[b]: 0;
                if (s.coin()) r[a]=o; else {ref<Obj> x(o); r[a]=x; }
                int i=m.make(v,nx,std::vector<int>());
                m.set(q[a],i);
                o.v=-1; o.next.nullify();
                break;
              }
            case 2: case 3: r[a]=r[b]; m.set(q[a],q[b]); interesting+= a!=b; break;
            case 4: {ref<Obj> c(r[b]); r[a]=c; m.set(q[a],q[b]); break;}
            case 5: r[a].nullify(); m.set(q[a],0); break;
            case 6: // own target
              if (q[a])
                {
                  const Target& x=m.t[q[a]];
                  int i=m.make(x.v,x.next,x.kids);
                  r[a]=*r[a];
                  m.set(q[a],i);
                  interesting++;
                }
              break;
            case 7: // value of another's target
              if (q[b])
                {
                  const Target& x=m.t[q[b]];
                  int i=m.make(x.v,x.next,x.kids);
                  r[a]=*r[b];
                  m.set(q[a],i);
                }
              break;
            case 8: case 9: // advance along the list it holds
              if (q[a])
                {
                  int i=m.t[q[a]].next;
                  r[a]=r[a]->next;
                  m.set(q[a],i);
                  interesting++;
                }
              break;
            case 10: // and by value
              if (q[a] && m.t[q[a]].next)
                {
                  const Target& x=m.t[m.t[q[a]].next];
                  int i=m.make(x.v,x.next,x.kids);
                  r[a]=*r[a]->next;
                  m.set(q[a],i);
                  interesting++;
                }
              break;
            case 11: case 12: // link, cycles and self links included
              if (q[a])
                {
                  r[a]->next=r[b];
                  m.set(m.t[q[a]].next,q[b]);
                  interesting++;
                }
              break;
            case 13: // reading a null one creates a default target
              {
                int v= s.coin()? r[a]->v: (*r[a]).v;
                if (!q[a]) m.set(q[a],m.make(-7,0,std::vector<int>()));
                checkEq(v,m.t[q[a]].v,"value read");
                break;
              }
            case 14: // write through one copy
              if (q[a])
                {
                  int v=s.below(1000);
                  (*r[a]).v=v;
                  m.t[q[a]].v=v;
                }
              break;
            case 15: r[a].swap(r[b]); std::swap(q[a],q[b]); break;
            case 16: std::swap(r[a],r[b]); std::swap(q[a],q[b]); break;
            case 17: if (r.size()<40) {r.push_back(r[b]); q.push_back(0); m.set(q.back(),q[b]);} break;
            case 18: if (r.size()>2) {r.erase(r.begin()+a); m.set(q[a],0); q.erase(q.begin()+a);} break;
            case 19: if (r.size()<40) {r.insert(r.begin()+a,r[b]); int i=q[b]; q.insert(q.begin()+a,0); m.set(q[a],i);} break;
            case 20: // sorted by address, the same refs remain
              {
                std::multiset<int> before(q.begin(),q.end()), after;
                std::sort(r.begin(),r.end());
                std::map<const Obj*,int> byAddr;
                for (std::map<int,Target>::iterator i=m.t.begin(); i!=m.t.end(); ++i) byAddr[i->second.addr]=i->first;
                for (size_t i=0; i<r.size(); ++i)
                  {
                    const ref<Obj>& x=r[i];
                    q[i]= x.nullref()? 0: byAddr[&*x];
                    after.insert(q[i]);
                  }
                PBT_CHECK(before==after,"sorting changed the refs");
                break;
              }
            case 21: // refs held in the target
              if (q[a] && m.t[q[a]].kids.size()<5)
                {
                  r[a]->kids.push_back(r[b]);
                  m.inc(q[b]);
                  m.t[q[a]].kids.push_back(q[b]);
                }
              break;
            case 22: // replace a ref by one its own target holds
              if (q[a] && !m.t[q[a]].kids.empty())
                {
                  size_t k=s.below(m.t[q[a]].kids.size());
                  int i=m.t[q[a]].kids[k];
                  r[a]=r[a]->kids[k];
                  m.set(q[a],i);
                  interesting++;
                }
              break;
            case 23: // bound method
              if (q[a])
                {
                  int k=s.below(10);
                  m.t[q[a]].v+=k;
                  int (Obj::*f)(int)=&Obj::add;
                  checkEq((r[a]->*f)(k),m.t[q[a]].v,"result of a bound method");
                }
              break;
            case 24: // drop them all but one
              {
                ref<Obj> keep=r[a]; int k=0; m.set(k,q[a]);
                for (size_t i=0; i<r.size(); ++i) {r[i]=ref<Obj>(); m.set(q[i],0);}
                r[b]=keep; m.set(q[b],k); m.set(k,0);
                break;
              }
            }
          for (std::map<int,Target>::iterator i=m.t.begin(); i!=m.t.end(); ++i) PBT_CHECK(i->second.count>0,"model");
          // addresses of targets seen for the first time
          for (size_t i=0; i<r.size(); ++i)
            {
              const ref<Obj>& x=r[i];
              PBT_CHECK(x.nullref()==(q[i]==0),"nullref "<<x.nullref()<<" of slot "<<i<<" at step "<<step<<" op "<<op);
              PBT_CHECK(bool(x)==(q[i]!=0),"bool of slot "<<i);
              checkEq(x.refCount(),q[i]? m.t[q[i]].count: 0,"reference count");
              if (!q[i]) continue;
              Target& t=m.t[q[i]];
              const Obj* p=&*x;
              PBT_CHECK(p==x.operator->(),"* and -> differ");
              PBT_CHECK(live.count(p),"ref to a destroyed target");
              if (!t.addr) t.addr=p;
              PBT_CHECK(t.addr==p,"copies of a ref see different targets");
              checkEq(x->v,t.v,"value of the target");
              checkEq(x->pad,std::string(20,'p'),"contents of the target");
              checkEq(x->kids.size(),t.kids.size(),"refs held by the target");
              PBT_CHECK(x->next.nullref()==(t.next==0),"link of the target");
              PBT_CHECK(x==p && x!=(const Obj*)&r,"comparison with a pointer");
              Obj same(t.v), other(t.v+1);
              PBT_CHECK(x==same && !(x==other) && x!=other,"comparison with a value");
            }
          for (size_t i=0; i<r.size(); ++i)
            for (size_t j=0; j<r.size(); ++j)
              {
                const ref<Obj> &x=r[i], &y=r[j];
                PBT_CHECK((x==y)==(q[i]==q[j]) && (x!=y)==(q[i]!=q[j]),"equality of refs "<<i<<" and "<<j);
                PBT_CHECK(int(x<y)+int(y<x)==int(q[i]!=q[j]),"ordering of refs");
              }
          checkEq(live.size(),m.t.size(),"number of targets alive");
          s.label("alive>3",m.t.size()>3);
          s.label("shared",!m.t.empty() && m.t.begin()->second.count>1);
        }
      s.nontrivial(interesting>=2 && n>=8);
      // cycles never go by themselves
      for (std::map<int,Target>::iterator i=m.t.begin(); i!=m.t.end(); ++i)
        if (!i->second.addr) s.label("unreached target");
      std::vector<ref<Obj> > hold;
      std::set<const Obj*> done;
      for (size_t i=0; i<r.size(); ++i) if (r[i]) hold.push_back(r[i]);
      for (size_t i=0; i<hold.size(); ++i)
        if (done.insert(&*hold[i]).second)
          {
            if (hold[i]->next) hold.push_back(hold[i]->next);
            for (size_t k=0; k<hold[i]->kids.size(); ++k) if (hold[i]->kids[k]) hold.push_back(hold[i]->kids[k]);
          }
      for (size_t i=0; i<hold.size(); ++i) {hold[i]->next.nullify(); hold[i]->kids.clear();}
      std::set<int> reached;
      for (std::map<int,Target>::iterator i=m.t.begin(); i!=m.t.end(); ++i) if (done.count(i->second.addr)) reached.insert(i->first);
      for (std::set<int>::iterator i=reached.begin(); i!=reached.end(); ++i)
        {
          if (!m.t.count(*i)) continue;
          m.inc(*i);
          m.set(m.t[*i].next,0);
          while (!m.t[*i].kids.empty()) {m.set(m.t[*i].kids.back(),0); m.t[*i].kids.pop_back();}
          m.dec(*i);
        }
      hold.clear(); r.clear();
      for (size_t i=0; i<q.size(); ++i) m.set(q[i],0);
      checkEq(live.size(),m.t.size(),"targets alive after the last ref went");
    }
    // what is left are cycles cut off during the history; forget them (leak detection is off)
    live.clear();
  }
}
// far more refs to few targets than any history holds
static void crowd(Src& s)
{
  size_t n= s.chance(1,12)? 65400+s.below(300): s.chance(1,2)? 120+s.below(160): 200+s.below(2000);
  size_t nt=1+s.below(3);
  std::vector<ref<Obj> > target;
  std::vector<int> count(nt,1);
  size_t before=live.size();
  for (size_t i=0; i<nt; ++i) target.push_back(ref<Obj>(Obj(100+i)));
  {
    std::vector<ref<Obj> > refs(n);
    std::vector<int> to(n,-1);
    // a step through the refs, so that few choices describe many operations
    int rounds=1+s.below(4);
    for (int r=0; r<rounds; ++r)
      {
        size_t step=1+s.below(3), start=s.below(5), what=s.below(4), k=s.below(nt);
        for (size_t i=start; i<n; i+=step)
          {
            int old=to[i];
            switch (what)
              {
              case 0: case 1: refs[i]=target[k]; to[i]=k; break;
              case 2: if (to[(i+1)%n]>=0) {refs[i]=refs[(i+1)%n]; to[i]=to[(i+1)%n];} break;
              case 3: refs[i].nullify(); to[i]=-1; break;
              }
            if (to[i]!=old)
              {
                if (old>=0) count[old]--;
                if (to[i]>=0) count[to[i]]++;
              }
          }
        for (size_t i=0; i<nt; ++i)
          {
            checkEq(target[i].refCount(),count[i],"refCount of a target with many refs");
            checkEq(target[i]->v,int(100+i),"contents of a target with many refs");
          }
        checkEq(live.size(),before+nt,"live targets");
      }
    if (s.coin()) {std::vector<ref<Obj> > copy(refs); for (size_t i=0; i<nt; ++i) checkEq(target[i].refCount(),2*count[i]-1,"refCount with all refs copied");}
    for (size_t i=0; i<n; i+=1+n/50)
      if (to[i]>=0) checkEq(refs[i]->v,100+to[i],"contents");
      else PBT_CHECK(refs[i].nullref(),"null ref");
  }
  for (size_t i=0; i<nt; ++i) {checkEq(target[i].refCount(),1,"refCount once the others are gone"); checkEq(target[i]->v,int(100+i),"contents");}
  target.clear();
  checkEq(live.size(),before,"targets left");
  s.nontrivial(n>250);
  if (s.verbose) s.desc<<n<<" refs to "<<nt<<" targets";
}

static const Case cases[]={{"history",history},{"crowd",crowd}};
PBT_MAIN(cases)
