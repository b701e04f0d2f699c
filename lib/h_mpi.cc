// P26: runs a script of message passing operations on every rank, against a model of all the buffers of all the ranks
#include "classdescMP.h"
#include "pack_stl.h"
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
struct Item {int a; double b; std::string s; std::vector<short> v; std::map<int,std::string> m;};
#include "mpi.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
typedef std::string Bytes;

struct Rng
{
  unsigned long x;
  Rng(unsigned long s): x(s*2862933555777941757UL+3037000493UL) {}
  unsigned operator()(unsigned n) {x=x*6364136223846793005UL+1442695040888963407UL; return unsigned(x>>33)%n;}
};
#ifdef HETERO
const size_t UNIT=4; // of XDR
#else
const size_t UNIT=1;
#endif
Bytes raw(unsigned long len, unsigned long seed) {len=(len+UNIT-1)/UNIT*UNIT; Rng r(seed); Bytes s(len,0); for (size_t i=0; i<len; ++i) s[i]=char(r(256)); return s;}
Bytes bytesOf(const pack_t& p) {return Bytes(p.data(), p.size());}
Item item(unsigned long seed)
{
  Rng r(seed); Item i; i.a=r(1000000)-500000; i.b=r(1000)/7.0;
  i.s=raw(r(4)? r(9): 0,seed+1);
  for (unsigned n=r(5); n; --n) i.v.push_back(r(60000)-30000);
  for (unsigned n=r(4); n; --n) i.m[r(50)]=raw(r(4),n);
  return i;
}
Bytes itemBytes(unsigned long seed) {Item i=item(seed); MPIbuf_base b; b<<i; return bytesOf(b);}

int me, np, line;
std::string current;
void fail(const std::string& m)
{
  std::cout<<"FAIL line "<<line<<" ("<<current<<") rank "<<me<<" of "<<np<<": "<<m<<std::endl;
  std::cout.flush();
  usleep(200000);
  MPI_Abort(MPI_COMM_WORLD,1);
  _exit(1);
}
template <class T> std::string str(const T& x) {std::ostringstream s; s<<x; return s.str();}
std::string show(const Bytes& b)
{
  std::ostringstream s; s<<b.size()<<" bytes";
  if (b.size()) s<<":"<<std::hex;
  for (size_t i=0; i<b.size() && i<12; ++i) s<<' '<<(unsigned(b[i])&255);
  return s.str();
}
void same(const pack_t& got, const Bytes& want, const std::string& what)
{
  if (got.size()!=want.size() || bytesOf(got)!=want) fail(what+" has "+show(bytesOf(got))+", expected "+show(want));
}
void start(pack_t& b, const std::string& what) {if (b.pos()!=0) fail(what+": read position "+str(b.pos()));}

const int K=3; // buffers of each rank
std::vector<std::vector<Bytes> > model; // [rank][k]
std::vector<std::vector<std::vector<size_t> > > marks;

struct Server
{
  std::vector<int> log;
  void sum(MPIbuf& a) {std::vector<int> v; int id; a>>id>>v; log.push_back(id); int s=0; for (size_t i=0; i<v.size(); ++i) s+=v[i]; a.reset()<<id<<s;}
  void echo(MPIbuf& a) {int id; std::string s; a>>id>>s; log.push_back(id); a.reset()<<id<<s<<int(log.size());}
  void note(MPIbuf& a) {int id; a>>id; log.push_back(id);}
  void dump(MPIbuf& a) {int id; a>>id; a.reset()<<id<<log;}
};

int slaves(std::istream& in)
{
  MPIslave<Server> s;
  std::vector<std::vector<int> > logs(np); // what each slave was told
  std::map<int,int> where, sums; std::map<int,std::string> echoes; std::map<int,size_t> count;
  std::string op; int id=0;
  for (std::string l; std::getline(in,l);)
    {
      ++line; current=l;
      std::istringstream i(l); i>>op; ++id;
      unsigned long seed=0; i>>seed; Rng r(seed);
      if (op=="sum" || op=="echo")
        {
          while (s.idle.empty())
            {
              MPIbuf& b=s.get_returnv(); int rid; b>>rid;
              if (!where.count(rid) || where[rid]!=b.proc) fail("answer "+str(rid)+" from rank "+str(b.proc));
              if (sums.count(rid)) {int v; b>>v; if (v!=sums[rid]) fail("wrong sum "+str(v)+" for "+str(sums[rid])); sums.erase(rid);}
              else {std::string v; int n; b>>v>>n; if (v!=echoes[rid] || size_t(n)!=count[rid]) fail("wrong echo "+show(v)+str(n)); echoes.erase(rid);}
              if (b) fail("more in the answer");
              where.erase(rid);
            }
          int to=s.idle.back();
          MPIbuf c;
          if (op=="sum")
            {
              std::vector<int> v(r(6)); int t=0; for (size_t k=0; k<v.size(); ++k) t+=v[k]=int(r(2000))-1000;
              sums[id]=t;
              void (Server::*m)(MPIbuf&)=&Server::sum;
              if (r(2)) s.exec(c<<m<<id<<v); else s.exec(s<<m<<id<<v);
            }
          else
            {
              std::string v=raw(r(30)? r(40): 100000,seed);
              echoes[id]=v; count[id]=logs[to].size()+1;
              void (Server::*m)(MPIbuf&)=&Server::echo;
              if (r(2)) s.exec(c<<m<<id<<v); else s.exec(s<<m<<id<<v);
            }
          logs[to].push_back(id); where[id]=to;
        }
      else if (op=="wait" || op=="note" || op=="all")
        {
          // collect what is under way
          while (!s.all_idle())
            {
              MPIbuf& b=s.get_returnv(); int rid; b>>rid;
              if (!where.count(rid) || where[rid]!=b.proc) fail("answer "+str(rid)+" from rank "+str(b.proc));
              if (sums.count(rid)) {int v; b>>v; if (v!=sums[rid]) fail("wrong sum "+str(v)+" for "+str(sums[rid])); sums.erase(rid);}
              else {std::string v; int n; b>>v>>n; if (v!=echoes[rid] || size_t(n)!=count[rid]) fail("wrong echo "+show(v)+str(n)); echoes.erase(rid);}
              where.erase(rid);
            }
          if (where.size()) fail(str(where.size())+" answers lost");
          void (Server::*m)(MPIbuf&)=&Server::note;
          if (op=="note" && np>1)
            {
              int to=1+r(np-1);
              s<<m<<id<<send(to);
              logs[to].push_back(id);
            }
          if (op=="all")
            {
              if (r(2)) {MPIbuf c; c<<m<<id; s.bcast(c);}
              else {s<<m<<id; s.bcast(s);}
              for (int k=1; k<np; ++k) logs[k].push_back(id);
            }
        }
      else if (op=="own")
        {
          while (!s.all_idle()) {MPIbuf& b=s.get_returnv(); int rid; b>>rid; where.erase(rid); sums.erase(rid); echoes.erase(rid);}
          std::string v=raw(r(20),seed), w; int j=r(100), l;
          s<<v<<j;
          s.reseto(); s>>w>>l;
          if (w!=v || l!=j || s.pos()!=s.size()) fail("what was packed is not what is read");
        }
      else fail("bad script");
    }
  ++line; current="end";
  s.wait_all_idle();
  for (int k=1; k<np; ++k)
    {
      void (Server::*m)(MPIbuf&)=&Server::dump;
      s<<m<<k<<send(k);
      MPIbuf b; b.get(); int id; std::vector<int> l; b>>id>>l;
      if (id!=k || b.proc!=k) fail("answer of "+str(b.proc)+" to "+str(id)+" instead of "+str(k));
      if (l!=logs[k]) fail("rank "+str(k)+" did "+str(l.size())+" requests of "+str(logs[k].size())+", or in another order");
    }
  std::cout<<"OK"<<std::endl;
  return 0;
}

int run(std::istream& in)
{
  MPIbuf b[K];
  bool unread[K]={false,false,false}; // the read position is not specified
  model.assign(np,std::vector<Bytes>(K));
  marks.assign(np,std::vector<std::vector<size_t> >(K));
  MPI_Comm sub=MPI_COMM_NULL;
  for (std::string l; std::getline(in,l);)
    {
      ++line; current=l;
      std::istringstream i(l);
      std::string op; i>>op;
      int k=0; i>>k;
      std::vector<long> a; for (long x; i>>x;) a.push_back(x);
      std::vector<Bytes> col; for (int r=0; r<np; ++r) col.push_back(model[r][k]);
      Bytes& mine=model[me][k];
      bool fence=false, equal=true; // messages of later operations must not arrive during this one
      for (int r=1; r<np; ++r) equal=equal && col[r].size()==col[0].size();
      if (op=="item")
        {
          model[a[0]][k]+=itemBytes(a[1]);
          if (me==a[0]) b[k]<<item(a[1]);
        }
      else if (op=="raw")
        {
          Bytes x=raw(a[1],a[2]); model[a[0]][k]+=x;
          if (me==a[0]) b[k].packraw(x.data(),x.size());
        }
      else if (op=="rawall") // buffers of every rank, of given lengths
        for (int r=0; r<np; ++r)
          {
            Bytes x=raw(a[1+r],a[0]+r); model[r][k]+=x;
            if (me==r) b[k].packraw(x.data(),x.size());
          }
      else if (op=="reset")
        {
          b[k].reset(); unread[k]=false;
          for (int r=0; r<np; ++r) {model[r][k].clear(); marks[r][k].clear();}
        }
      else if (op=="read")
        {
          if (me==a[0] && !unread[k] && b[k].pos()<=mine.size())
            {
              size_t n=std::min(size_t(a[1]),mine.size()-b[k].pos()), p=b[k].pos();
              n-=n%UNIT;
              Bytes x(n,0); if (n) b[k].unpackraw(&x[0],n);
              if (x!=mine.substr(p,n)) fail("read "+show(x)+" at "+str(p)+", expected "+show(mine.substr(p,n)));
            }
        }
      else if (op=="send" || op=="isend" || op=="waiting")
        {
          int s=a[0], d=a[1], tag=a[2], any=a[3], k2=a[4], how=a[5];
          fence= any || op=="waiting";
          if (s==d)
            {
              // messages to oneself are not sent
              if (me==s) {if (how) b[k]<<send(d,tag); else b[k].send(d,tag);}
            }
          else
            {
              if (me==s)
                {
                  if (op=="isend")
                    {
                      if (how) b[k]<<isend(d,tag); else b[k].isend(d,tag);
                    }
                  else if (how) b[k]<<send(d,tag);
                  else b[k].send(d,tag);
                  if (op=="isend") {if (a[6]) {for (time_t t=time(0); !b[k].sent();) if (time(0)>t+100) fail("never sent");} else b[k].wait();}
                  if (b[k].size()) fail("buffer not cleared after it is sent");
                }
              if (me==d)
                {
                  if (op=="waiting")
                    {
                      for (time_t t=time(0); !b[k2].msg_waiting(any&1? MPI_ANY_SOURCE: s, any&2? MPI_ANY_TAG: tag);)
                        if (time(0)>t+100) fail("the message never comes");
                      if (b[k2].msg_waiting(s,tag+1)) fail("a message with another tag is waiting");
                    }
                  MPIbuf& g=b[k2].get(any&1? MPI_ANY_SOURCE: s, any&2? MPI_ANY_TAG: tag);
                  if (&g!=&b[k2]) fail("get returns another buffer");
                  if (b[k2].proc!=s || b[k2].tag!=tag) fail("got proc "+str(b[k2].proc)+" tag "+str(b[k2].tag));
                  same(b[k2],model[s][k],"what was received");
                  start(b[k2],"received");
                  unread[k2]=false;
                  if (op=="waiting" && b[k2].msg_waiting()) fail("message waiting though all were received");
                }
              Bytes x=model[s][k]; model[s][k].clear(); model[d][k2]=x;
              if (me==s) unread[k]=true;
              if (me==d) unread[k2]=false;
              marks[d][k2].clear();
            }
        }
      else if (op=="fan") // everyone to one
        {
          int d=a[0], tag=a[1];
          fence=true;
          if (me!=d)
            {
              b[k].isend(d,tag);
              b[k].wait();
            }
          else
            {
              std::set<int> from;
              for (int n=1; n<np; ++n)
                {
                  MPIbuf g; g.get(MPI_ANY_SOURCE,tag);
                  if (g.proc<0 || g.proc>=np || g.proc==me || !from.insert(g.proc).second) fail("unexpected sender "+str(g.proc));
                  same(g,col[g.proc],"what was received");
                }
            }
          for (int r=0; r<np; ++r) if (r!=d) model[r][k].clear();
          if (me!=d) unread[k]=true;
        }
      else if (op=="xchg") // tag mode, then the permutation
        {
          int mode=a[0], tag=a[1];
          std::vector<int> p(a.begin()+2,a.end()), inv(np);
          for (int r=0; r<np; ++r) inv[p[r]]=r;
          int st= mode==1? tag+me: tag, rt= mode==1? tag+inv[me]: tag;
          if (mode==2) b[k].send_recv(p[me],st,MPI_ANY_SOURCE,rt);
          else if (mode==3) b[k].send_recv(p[me],st,inv[me],MPI_ANY_TAG);
          else b[k].send_recv(p[me],st,inv[me],rt);
          for (int r=0; r<np; ++r) model[p[r]][k]=col[r];
          if (p[me]!=me)
            {
              if (b[k].proc!=inv[me] || b[k].tag!=rt) fail("got proc "+str(b[k].proc)+" tag "+str(b[k].tag));
              start(b[k],"exchanged");
              unread[k]=false;
            }
          fence=true;
        }
      else if (op=="bcast")
        {
          int root=a[0]; b[k].const_buffer=a[1] && equal;
          if (a[2]) b[k]<<bcast(root); else if (&b[k].bcast(root)!=&b[k]) fail("bcast returns another buffer");
          for (int r=0; r<np; ++r) model[r][k]=col[root];
          start(b[k],"broadcast"); unread[k]=false;
          b[k].const_buffer=false;
        }
      else if (op=="gather")
        {
          int root=a[0]; b[k].const_buffer=a[1] && equal;
          b[k].gather(root);
          Bytes x; for (int r=0; r<np; ++r) x+=col[r];
          if (me==root) {start(b[k],"gathered"); unread[k]=false; same(b[k],x,"what was gathered");}
          else {b[k].reset(); unread[k]=false;}
          for (int r=0; r<np; ++r) model[r][k].clear();
          model[root][k]=x;
          b[k].const_buffer=false;
        }
      else if (op=="scatter") // root, const, seed, then a length for each; what is in the root's buffer goes to the first
        {
          int root=a[0];
          std::vector<Bytes> parts;
          for (int r=0; r<np; ++r) parts.push_back(raw(a[3+r],a[2]+r));
          if (me==root)
            for (int r=0; r<np; ++r) {b[k].packraw(parts[r].data(),parts[r].size()); b[k]<<mark();}
          parts[0]=col[root]+parts[0];
          b[k].const_buffer=a[1] && equal;
          b[k].scatter(root);
          b[k].const_buffer=false;
          for (int r=0; r<np; ++r) model[r][k]=parts[r];
          start(b[k],"scattered"); unread[k]=false;
        }
      else if (op=="mark") // a message begun, and given up by reset
        {
          b[k]<<int(1)<<mark();
          if (a[0] && np>1) b[k]<<mark();
          b[k].reset(); unread[k]=false;
          for (int r=0; r<np; ++r) model[r][k].clear();
        }
      else if (op=="copy")
        {
          int k2=a[0];
          if (a[1]) {MPIbuf c(b[k]); same(c,mine,"copy"); if (c.const_buffer!=b[k].const_buffer || c.Communicator!=b[k].Communicator) fail("the copy differs"); if (k2!=k) b[k2]=c;}
          else if (k2!=k) b[k2]=b[k];
          else {MPIbuf c; c<<3; c=b[k]; same(c,mine,"assigned copy");}
          if (k2!=k)
            {
              for (int r=0; r<np; ++r) {model[r][k2]=col[r]; marks[r][k2]=marks[r][k];}
              start(b[k2],"assigned"); unread[k2]=false;
            }
        }
      else if (op=="array") // all to all: tag, how to wait, seed, lengths np*np
        {
          int tag=a[0], how=a[1];
          fence=true;
          MPIbuf_array arr(np);
          for (int round=0; round<2; ++round)
            {
              for (int r=0; r<np; ++r)
                if (r!=me)
                  {
                    Bytes x=raw(a[3+me*np+r],a[2]+me*np+r+round*1000);
                    arr[r].packraw(x.data(),x.size());
                    if (how&8) arr[r]<<isend(r,tag+round); else arr[r].isend(r,tag+round);
                  }
              std::set<int> from, done;
              bool complete=false;
              for (int n=1; n<np; ++n)
                {
                  MPIbuf g; g.get(MPI_ANY_SOURCE,tag+round);
                  if (g.proc<0 || g.proc>=np || g.proc==me || !from.insert(g.proc).second) fail("unexpected sender "+str(g.proc));
                  if (g.tag!=tag+round) fail("unexpected tag "+str(g.tag));
                  same(g,raw(a[3+g.proc*np+me],a[2]+g.proc*np+me+round*1000),"message of an array");
                }
              switch (how&7)
                {
                case 0: arr.waitall(); complete=true; break;
                case 1: for (time_t t=time(0); !(complete=arr.testall()); ) if (time(0)>t+100) fail("testall never succeeds"); break;
                case 2: for (int j; (j=arr.waitany())!=MPI_UNDEFINED;) if (!done.insert(j).second || j==me || j<0 || j>=np) fail("waitany gives "+str(j)); break;
                case 3:
                  for (time_t t=time(0); int(done.size())<np-1;)
                    {
                      std::vector<int> v=arr.waitsome();
                      for (size_t j=0; j<v.size(); ++j) if (!done.insert(v[j]).second || v[j]==me || v[j]<0 || v[j]>=np) fail("waitsome gives "+str(v[j]));
                      if (time(0)>t+100) fail("waitsome never ends");
                    }
                  break;
                case 4:
                  for (time_t t=time(0); int(done.size())<np-1;)
                    {
                      std::vector<int> v=arr.testsome();
                      for (size_t j=0; j<v.size(); ++j) if (!done.insert(v[j]).second || v[j]==me || v[j]<0 || v[j]>=np) fail("testsome gives "+str(v[j]));
                      if (time(0)>t+100) fail("testsome never ends");
                    }
                  break;
                case 5:
                  for (time_t t=time(0); int(done.size())<np-1;)
                    {
                      int j=arr.testany();
                      if (j!=MPI_UNDEFINED && (!done.insert(j).second || j==me || j<0 || j>=np)) fail("testany gives "+str(j));
                      if (time(0)>t+100) fail("testany never ends");
                    }
                  break;
                case 6: for (int r=0; r<np; ++r) if (r!=me) arr[r].wait(); complete=true; break;
                default: break; // left to the destructor
                }
              if (!complete && (how&7)!=7 && int(done.size())!=np-1) fail(str(done.size())+" messages reported as done");
              if ((how&7)==7) break;
              for (int r=0; r<np; ++r) arr[r].reset();
            }
          for (int r=0; r<np; ++r) if (r!=me && arr[r].size()) fail("not cleared");
        }
      else if (op=="sub") // groups: colours, then root, seed, lengths
        {
          std::vector<int> colour(a.begin(),a.begin()+np);
          int seed=a[np];
          MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD,colour[me],me,&c);
          std::vector<int> grp; int id=0;
          for (int r=0; r<np; ++r) if (colour[r]==colour[me]) {if (r==me) id=grp.size(); grp.push_back(r);}
          int n=grp.size(), root=seed%n;
          {
            MPIbuf x; x.Communicator=c;
            if (int(x.myid())!=id || int(x.nprocs())!=n) fail("group of "+str(x.nprocs())+" rank "+str(x.myid()));
            Bytes t=raw(a[np+1+me],seed+me);
            x.packraw(t.data(),t.size()); x.gather(root);
            if (id==root) {Bytes e; for (int j=0; j<n; ++j) e+=raw(a[np+1+grp[j]],seed+grp[j]); same(x,e,"gathered in a group");}
            MPIbuf y; y.Communicator=c; y.packraw(t.data(),t.size()); y.bcast(root);
            same(y,raw(a[np+1+grp[root]],seed+grp[root]),"broadcast in a group");
            MPIbuf z; z.Communicator=c;
            if (id==root) for (int j=0; j<n; ++j) {Bytes e=raw(a[np+1+grp[j]],seed+grp[j]); z.packraw(e.data(),e.size()); z<<mark();}
            z.scatter(root); same(z,t,"scattered in a group");
            if (n>1)
              {
                MPIbuf w(z);
                if (w.Communicator!=c) fail("a copy uses another communicator");
                w.send_recv((id+1)%n,3,(id+n-1)%n,3);
                int f=grp[(id+n-1)%n];
                same(w,raw(a[np+1+f],seed+f),"exchanged in a group");
              }
          }
          MPI_Comm_free(&c);
        }
      else fail("bad script");
      if (fence) MPI_Barrier(MPI_COMM_WORLD);
      for (int j=0; j<K; ++j) same(b[j],model[me][j],"buffer "+str(j));
    }
  ++line; current="end";
  MPI_Barrier(MPI_COMM_WORLD);
  if (!me) std::cout<<"OK"<<std::endl;
  return 0;
}

int main(int argc, char** argv)
{
  MPISPMD p(argc,argv);
  me=p.myid; np=p.nprocs;
  int r; MPI_Comm_rank(MPI_COMM_WORLD,&r); if (r!=me) fail("rank");
  // the script comes in histories, each run in turn
  std::ifstream f(argv[1]);
  std::string l; std::getline(f,l); ++line;
  return l=="slaves"? slaves(f): run(f);
}
