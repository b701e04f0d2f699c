// pointer graphs and trees: P05 and P04
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "ref.h"
#include "gtypes.h"
namespace classdesc_access
{
  template <> struct access_pack<Thrower>
  {
    template <class U> void operator()(classdesc::pack_t& b, const classdesc::string&, U& a)
    {
      if (a.x==13) throw std::runtime_error("thrower");
      b<<a.x;
    }
  };
  template <> struct access_unpack<Thrower>
  {
    template <class U> void operator()(classdesc::pack_t& b, const classdesc::string&, U& a)
    {
      b>>a.x;
      if (a.x==14) throw std::runtime_error("thrower");
    }
  };
}
#include "gtypes.cd"
#include "classdesc_epilogue.h"
#include "memlimit.h"
#include "damage.h"
using namespace pbt;
using namespace classdesc;
using space::SNode;
using space::in::UNode;

namespace
{
  std::set<const void*> live;
  bool destroyedTwice=false;
  void born(const void* p) {if (!live.insert(p).second) {fprintf(stderr,"node constructed over a live one\n"); abort();}}
  void dead(const void* p) {if (!live.erase(p)) {fprintf(stderr,"node destroyed twice\n"); abort();}}
}
// fresh nodes hold no usable pointer and no null one
#define NODE(N) N::N(): id(-1), a((N*)0x10), b((N*)0x10) {for (int i=0; i<3; ++i) arr[i]=(N*)0x10; born(this);} \
  N::N(const N& x): id(x.id), name(x.name), a(x.a), b(x.b), v(x.v), m(x.m) {for (int i=0; i<3; ++i) arr[i]=x.arr[i]; born(this);} \
  N::~N() {dead(this);}
NODE(GNode) NODE(TNode) NODE(FNode) NODE(SNode) NODE(UNode) NODE(ENode)
RNode::RNode(): id(-1) {born(this);}
RNode::RNode(const RNode& x): id(x.id), name(x.name), a(x.a), b(x.b), v(x.v), m(x.m) {for (int i=0; i<3; ++i) arr[i]=x.arr[i]; born(this);}
RNode::~RNode() {dead(this);}

namespace
{
  template <class N> const N* addr(N* const& p) {return p;}
  template <class N> const N* addr(const ref<N>& p) {return p.nullref()? 0: &*p;}
  // where a node points, with the shape of its containers in key
  template <class N> void links(const N& n, std::vector<const N*>& l, std::vector<int>& key)
  {
    l.push_back(addr(n.a)); l.push_back(addr(n.b));
    for (int i=0; i<3; ++i) l.push_back(addr(n.arr[i]));
    key.push_back(n.v.size());
    for (size_t i=0; i<n.v.size(); ++i) l.push_back(addr(n.v[i]));
    for (__typeof__(n.m.begin()) i=n.m.begin(); i!=n.m.end(); ++i) {key.push_back(i->first); l.push_back(addr(i->second));}
  }
  template <class N> const N* deref(const N* p) {return p;}

  template <class N> struct Ptr {typedef N* T; static N* make() {return new N;} static N* null() {return 0;}};
  template <> struct Ptr<RNode> {typedef ref<RNode> T; static T make() {return T(RNode());} static T null() {return T();}};

  // a structure and what owns its nodes
  template <class N> struct Graph
  {
    typedef typename Ptr<N>::T P;
    std::vector<P> node;
    ~Graph() {destroy(node);}
    static void destroy(std::vector<N*>& n) {for (size_t i=0; i<n.size(); ++i) delete n[i];}
    static void destroy(std::vector<ref<N> >& n) {cut(n);}
    static void cut(std::vector<ref<N> >& n) {for (size_t i=0; i<n.size(); ++i) {n[i]->a.nullify(); n[i]->b.nullify(); for (int k=0; k<3; ++k) n[i]->arr[k].nullify(); n[i]->v.clear(); n[i]->m.clear();}}
    void gen(Src& s, bool tree)
    {
      size_t n= 1+s.below(s.below(3)? 8: 40);
      for (size_t i=0; i<n; ++i)
        {
          P p=Ptr<N>::make();
          (*p).id=int(s.below(5)? i: s.bits());
          size_t l=s.below(8)? 0: s.below(5);
          for (size_t k=0; k<l; ++k) (*p).name+=char('a'+s.below(26));
          node.push_back(p);
        }
      int density=s.below(4);
      bool chain=s.below(4)==0;
      for (size_t i=0; i<n; ++i)
        {
          N& x=*node[i];
          x.a=pick(s,i,tree,density); x.b=pick(s,i,tree,density);
          if (chain && i+1<n) {if (s.coin()) x.a=node[i+1]; else x.b=node[i+1];}
          for (int k=0; k<3; ++k) x.arr[k]=pick(s,i,tree,density/2);
          for (size_t k=s.below(5)? 0: s.below(4); k>0; --k) x.v.push_back(pick(s,i,tree,density));
          for (size_t k=s.below(6)? 0: s.below(4); k>0; --k) x.m[s.below(10)]=pick(s,i,tree,density);
        }
    }
    // in a tree only later nodes, so that there are no cycles
    P pick(Src& s, size_t i, bool tree, int density)
    {
      if (int(s.below(8))>=2*density+1) return Ptr<N>::null();
      if (!tree) return node[s.below(node.size())];
      if (i+1>=node.size()) return Ptr<N>::null();
      if (s.below(8)) return i+1+s.below(3)<node.size() && s.below(3)==0? node[i+1]: Ptr<N>::null();
      return node[i+1+s.below(node.size()-i-1)];
    }
  };

  // isomorphism of what is reachable from two pointers; map: nodes of x to nodes of y
  template <class N> void iso(const N* x0, const N* y0, std::map<const N*,const N*>& fwd, std::map<const N*,const N*>& back)
  {
    std::vector<std::pair<const N*,const N*> > todo(1,std::make_pair(x0,y0));
    while (!todo.empty())
      {
        const N *x=todo.back().first, *y=todo.back().second;
        todo.pop_back();
        PBT_CHECK((x==0)==(y==0),(x? "a node became null": "a null became a node"));
        if (!x) continue;
        PBT_CHECK(live.count(y),"pointer to no live node");
        if (fwd.count(x))
          {
            PBT_CHECK(fwd[x]==y,"node "<<x->id<<" shared before is two nodes after");
            continue;
          }
        PBT_CHECK(!back.count(y),"nodes "<<x->id<<" and "<<back[y]->id<<" became one");
        fwd[x]=y; back[y]=x;
        PBT_CHECK(x->id==y->id && x->name==y->name,"node value "<<y->id<<pbt::show(y->name)<<" for "<<x->id<<pbt::show(x->name));
        std::vector<const N*> lx, ly; std::vector<int> kx, ky;
        links(*x,lx,kx); links(*y,ly,ky);
        PBT_CHECK(kx==ky && lx.size()==ly.size(),"containers of pointers differ");
        for (size_t i=lx.size(); i-->0;) todo.push_back(std::make_pair(lx[i],ly[i]));
      }
  }
  // the unfolding of x against y; every node of y met once
  template <class N> void unfold(const N* x0, const N* y0, std::set<const N*>& seen)
  {
    std::vector<std::pair<const N*,const N*> > todo(1,std::make_pair(x0,y0));
    while (!todo.empty())
      {
        const N *x=todo.back().first, *y=todo.back().second;
        todo.pop_back();
        PBT_CHECK((x==0)==(y==0),(x? "a node became null": "a null became a node"));
        if (!x) continue;
        PBT_CHECK(live.count(y),"pointer to no live node");
        PBT_CHECK(seen.insert(y).second,"tree node "<<x->id<<" shared after unpacking");
        PBT_CHECK(x->id==y->id && x->name==y->name,"node value "<<y->id<<" for "<<x->id);
        std::vector<const N*> lx, ly; std::vector<int> kx, ky;
        links(*x,lx,kx); links(*y,ly,ky);
        PBT_CHECK(kx==ky && lx.size()==ly.size(),"containers of pointers differ");
        for (size_t i=lx.size(); i-->0;) todo.push_back(std::make_pair(lx[i],ly[i]));
      }
  }
  // size of the unfolding, up to a limit
  template <class N> size_t unfolded(const N* x, size_t limit)
  {
    std::vector<const N*> todo(1,x);
    size_t n=0;
    while (!todo.empty() && n<limit)
      {
        x=todo.back(); todo.pop_back();
        if (!x) continue;
        n++;
        std::vector<int> k; links(*x,todo,k);
      }
    return n;
  }

  template <class N> bool isRef(N*) {return false;}
  template <class N> bool isRef(const ref<N>&) {return true;}
  template <class N> void cutAll(std::vector<N*>&) {}
  template <class N> void cutAll(std::vector<ref<N> >& g)
  {
    std::vector<ref<N> > all;
    std::set<const N*> seen;
    for (size_t i=0; i<g.size(); ++i) if (g[i]) all.push_back(g[i]);
    for (size_t i=0; i<all.size(); ++i)
      {
        ref<N> r=all[i];
        if (!seen.insert(&*r).second) continue;
        if (r->a) all.push_back(r->a);
        if (r->b) all.push_back(r->b);
        for (int k=0; k<3; ++k) if (r->arr[k]) all.push_back(r->arr[k]);
        for (size_t k=0; k<r->v.size(); ++k) if (r->v[k]) all.push_back(r->v[k]);
        for (__typeof__(r->m.begin()) k=r->m.begin(); k!=r->m.end(); ++k) if (k->second) all.push_back(k->second);
      }
    Graph<N>::cut(all);
  }

  std::string scratch(const char* n)
  {
    const char* d=getenv("VERIF_SCRATCH");
    return std::string(d? d: ".")+"/"+n;
  }
  unsigned recurMax(Src& s) {static const unsigned m[]={500,0,1,2,3,4,7,20}; return m[s.below(8)];}

  template <class N> void graphOf(Src& s, Ptr_flag flag, bool tree)
  {
    live.clear();
    typedef typename Ptr<N>::T P;
    Graph<N> g;
    g.gen(s,tree);
    const size_t before=live.size();
    unsigned rm=recurMax(s);
    size_t nroots=1+s.below(3);
    std::vector<P> roots;
    for (size_t i=0; i<nroots; ++i) roots.push_back(s.below(10)? g.node[s.below(g.node.size())]: Ptr<N>::null());
    if (tree) for (size_t i=0; i<nroots; ++i) if (unfolded(addr(roots[i]),400)>=400) throw Discard();
    std::vector<P> got(nroots,Ptr<N>::null());
    if (s.verbose) s.desc<<g.node.size()<<" nodes, recur_max "<<rm<<", "<<nroots<<" roots";
    std::vector<PtrStoreRef> keep;
    size_t made=0;
    {
      pack_t nat; xdr_pack xdr;
      bool useX=s.coin();
      pack_t& b= useX? static_cast<pack_t&>(xdr): nat;
      b.ptr_flag=flag; b.recur_max=rm;
      for (size_t i=0; i<nroots; ++i)
        {
          if (useX) xdr<<roots[i]; else nat<<roots[i];
        }
      PBT_CHECK(live.size()==before,"packing created or destroyed nodes");
      b.recur_max= s.coin()? 500: recurMax(s);   // the limit used for packing comes with the data
      for (size_t i=0; i<nroots; ++i)
        {
          size_t l0=live.size(), a0=b.alloced.size();
          if (s.coin() && i) got[i]=got[i-1];     // something to be replaced
          else if (!isRef(got[i]) && s.coin()) got[i]=g.node[0];
          if (useX) xdr>>got[i]; else nat>>got[i];
          size_t n;
          if (tree)
            {
              std::set<const N*> seen;
              unfold(addr(roots[i]),addr(got[i]),seen);
              n=seen.size();
            }
          else
            {
              std::map<const N*,const N*> f, r;
              iso(addr(roots[i]),addr(got[i]),f,r);
              n=f.size();
              for (__typeof__(f.begin()) k=f.begin(); k!=f.end(); ++k)
                for (size_t q=0; q<g.node.size(); ++q) PBT_CHECK(k->second!=addr(g.node[q]),"unpacked structure contains a node of the original");
            }
          s.nontrivial(n>3);
          s.label("nodes>10",n>10);
          s.label("limit reached",rm && n>rm);
          s.label("shared or cyclic",!tree && unfolded(addr(roots[i]),n+1)>n);
          made+=n;
          if (!isRef(got[i]))
            {
              checkEq(live.size(),l0+n,"nodes alive after unpacking");
              checkEq(b.alloced.size(),a0+n,"nodes owned by the buffer");
            }
        }
      PBT_CHECK(!b,"buffer not exhausted");
      if (!isRef(got[0]))
        switch (s.below(4))
          {
          case 0: // a copy of alloced keeps the nodes
            keep=b.alloced;
            break;
          case 1: // cleared
            b.alloced.clear();
            checkEq(live.size(),before,"nodes alive after alloced was cleared");
            made=0;
            break;
          case 2: // erased one by one
            while (!b.alloced.empty())
              {
                b.alloced.erase(b.alloced.begin()+s.below(b.alloced.size()));
                made--;
                checkEq(live.size(),before+made,"nodes alive after one of alloced was erased");
              }
            break;
          default:;
          }
    }
    if (!isRef(got[0]))
      {
        if (!keep.empty())
          {
            checkEq(live.size(),before+made,"nodes alive while a copy of alloced is kept");
            for (size_t i=0; i<nroots; ++i)
              if (tree) {std::set<const N*> seen; unfold(addr(roots[i]),addr(got[i]),seen);}
              else {std::map<const N*,const N*> f, r; iso(addr(roots[i]),addr(got[i]),f,r);}
            keep.clear();
          }
        checkEq(live.size(),before,"nodes alive after the buffer and its alloced list have gone");
      }
    else
      {
        // refs look after themselves, but for their cycles
        std::map<const N*,const N*> f, r;
        for (size_t i=0; i<nroots; ++i) {f.clear(); r.clear(); iso(addr(roots[i]),addr(got[i]),f,r);}
        cutAll(got);
        got.clear();
        checkEq(live.size(),before,"nodes alive after the last ref went");
      }
  }

  void graph(Src& s)
  {
    switch (s.below(5))
      {
      case 0: case 1: graphOf<GNode>(s,DEFAULT,false); break;
      case 2: graphOf<FNode>(s,GRAPH,false); break;
      case 3: graphOf<SNode>(s,DEFAULT,false); break;
      default: graphOf<RNode>(s,DEFAULT,false);
      }
  }
  void tree(Src& s)
  {
    switch (s.below(3))
      {
      case 0: graphOf<TNode>(s,DEFAULT,true); break;
      case 1: graphOf<FNode>(s,TREE,true); break;
      default: graphOf<UNode>(s,DEFAULT,true);
      }
  }

  // long chains, which the recursion limit is there for
  void longchain(Src& s)
  {
    live.clear();
    std::vector<GNode*> n(500+s.below(s.below(4)? 500: 2500));
    for (size_t i=0; i<n.size(); ++i)
      {
        n[i]=new GNode;
        n[i]->id=i; n[i]->a=n[i]->b=0;
        for (int k=0; k<3; ++k) n[i]->arr[k]=0;
      }
    for (size_t i=0; i+1<n.size(); ++i)
      {
        switch (s.below(4))
          {
          case 0: n[i]->a=n[i+1]; break;
          case 1: n[i]->v.push_back(s.coin()? 0: n[s.below(n.size())]); n[i]->v.push_back(n[i+1]); break;
          case 2: n[i]->m[s.below(5)]=n[i+1]; break;
          default: n[i]->arr[s.below(3)]=n[i+1];
          }
        if (s.below(4)==0) n[i]->b=n[s.below(n.size())];
      }
    static const unsigned m[]={500,2,10,100,499};
    if (s.verbose) s.desc<<n.size()<<" nodes in a chain";
    s.nontrivial();
    {
      pack_t b; b.recur_max=m[s.below(5)];
      GNode *x=n[0], *y;
      b<<x;
      b>>y;
      std::map<const GNode*,const GNode*> f, r;
      iso<GNode>(x,y,f,r);
      checkEq(f.size(),n.size(),"nodes unpacked");
      PBT_CHECK(!b,"buffer not exhausted");
    }
    checkEq(live.size(),n.size(),"nodes alive at the end");
    for (size_t i=0; i<n.size(); ++i) delete n[i];
  }

  // pointers of no protocol are refused, those of one inside other objects are followed
  void object(Src& s)
  {
    live.clear();
    {
      int i=3;
      Plain p; p.x=s.below(100); p.p= s.coin()? &i: 0;
      pack_t b; bool threw=false;
      if (s.coin()) {xdr_pack x; try {x<<p;} catch (const std::exception&) {threw=true;}}
      else try {b<<p;} catch (const std::exception&) {threw=true;}
      PBT_CHECK(threw,"packing a pointer of no protocol did not throw");
      b.clear(); b<<p.x<<1<<2<<3<<4;
      Plain q; q.p=&i; threw=false;
      try {b>>q;} catch (const std::exception&) {threw=true;}
      PBT_CHECK(threw && q.p==&i,"unpacking a pointer of no protocol did not throw");
      FNode* f=0; threw=false;
      try {b<<f;} catch (const std::exception&) {threw=true;}
      PBT_CHECK(threw,"packing a pointer of no protocol did not throw");
    }
    Graph<GNode> g; g.gen(s,false);
    Graph<TNode> t; t.gen(s,true);
    Graph<RNode> r; r.gen(s,false);
    Roots x, y;
    x.n=s.below(1000);
    x.g=s.below(6)? g.node[0]: 0; x.t=s.below(6)? t.node[0]: 0;
    if (unfolded<TNode>(x.t,400)>=400) throw Discard();
    for (size_t i=s.below(4); i>0; --i) x.more.push_back(s.below(5)? g.node[s.below(g.node.size())]: 0);
    if (s.coin()) x.r=r.node[0];
    x.tail="the end";
    y.g=g.node[0]; y.t=t.node[0]; y.more.assign(2,g.node[0]); y.r=r.node[0]; y.tail="zz";
    size_t before=live.size();
    {
      pack_t b; b.recur_max=recurMax(s);
      b<<x;
      b>>y;
      PBT_CHECK(!b,"buffer not exhausted");
      PBT_CHECK(y.n==x.n && y.tail==x.tail && y.more.size()==x.more.size(),"other members differ");
      {std::map<const GNode*,const GNode*> f, k; iso<GNode>(x.g,y.g,f,k);}
      for (size_t i=0; i<x.more.size(); ++i) {std::map<const GNode*,const GNode*> f, k; iso<GNode>(x.more[i],y.more[i],f,k);}
      {std::set<const TNode*> seen; unfold<TNode>(x.t,y.t,seen);}
      {std::map<const RNode*,const RNode*> f, k; iso<RNode>(addr(x.r),addr(y.r),f,k);}
      s.nontrivial(live.size()>before+3);
      std::vector<ref<RNode> > a(1,y.r); cutAll(a);
      y.r.nullify();
    }
    checkEq(live.size(),before,"nodes alive at the end");
  }

  // an abandoned traversal has no effect on the next
  void abandoned(Src& s)
  {
    live.clear();
    size_t before;
    Graph<ENode> g; g.gen(s,false);
    before=live.size();
    size_t n=1+s.below(3);
    for (size_t i=0; i<n; ++i)
      {
        Thrower& t=g.node[s.below(g.node.size())]->t;
        t.x=13+s.below(2);
        pack_t b; b.recur_max=recurMax(s);
        ENode* y=0;
        try {b<<g.node[0]; b>>y;}
        catch (const std::runtime_error&) {s.nontrivial(g.node.size()>3); s.label(t.x==13? "packing abandoned": "unpacking abandoned");}
        t.x=0;
      }
    checkEq(live.size(),before,"nodes alive after abandoned traversals");
    pack_t b; b.recur_max=recurMax(s);
    ENode* y;
    b<<g.node[0]; b>>y;
    std::map<const ENode*,const ENode*> f, r;
    iso<ENode>(g.node[0],y,f,r);
    PBT_CHECK(!b,"buffer not exhausted");
  }

  template <class N> void hostileOf(Src& s, Ptr_flag flag, bool tree)
  {
    live.clear();
    typedef typename Ptr<N>::T P;
    {
    Graph<N> g; g.gen(s,tree);
    if (tree && unfolded<N>(addr(g.node[0]),200)>=200) throw Discard();
    size_t before=live.size();
    pack_t b; b.ptr_flag=flag; b.recur_max=recurMax(s);
    b<<g.node[0];
    std::string all(b.data(),b.size());
    if (s.below(3)==0)
      {
        size_t step=1+all.size()/60;
        for (size_t k=s.below(step); k<all.size(); k+=step)
          {
            pack_t c; c.ptr_flag=flag;
            c.realloc(k); if (k) memcpy(c.data(),all.data(),k); c.resize(k);
            P y=Ptr<N>::null();
            bool threw=false;
            try {c>>y;} catch (const std::exception&) {threw=true;}
            PBT_CHECK(threw,"unpacking the first "<<k<<" of "<<all.size()<<" bytes of a graph did not throw");
            std::vector<P> v(1,y); cutAll(v);
          }
        s.nontrivial(all.size()>40);
      }
    else
      {
        std::string x=all;
        damage(s,x);
        pack_t c; c.ptr_flag=flag;
        c.realloc(x.size()); if (!x.empty()) memcpy(c.data(),x.data(),x.size()); c.resize(x.size());
        P y=Ptr<N>::null();
        bool threw=false;
        try {c>>y;} catch (const std::exception&) {threw=true;}
        PBT_CHECK(c.pos()<=c.size(),"read position beyond the end");
        s.label(threw? "graph rejected": "graph accepted");
        s.nontrivial(x!=all && x.size()>16);
        if (!threw)
          {
            // every pointer of the result leads to a live node
            std::map<const N*,const N*> f, r;
            iso(addr(y),addr(y),f,r);
          }
        std::vector<P> v(1,y); if (!threw) cutAll(v);
      }
    // and the next structure comes back whole
    if (!isRef(g.node[0])) checkEq(live.size(),before,"nodes alive after refused data");
    pack_t d; d.ptr_flag=flag;
    P y=Ptr<N>::null();
    d<<g.node[0]; d>>y;
    if (tree) {std::set<const N*> seen; unfold(addr(g.node[0]),addr(y),seen);}
    else {std::map<const N*,const N*> f, r; iso(addr(g.node[0]),addr(y),f,r);}
    std::vector<P> v(1,y); cutAll(v);
    }
    live.clear();
  }
  void hostile(Src& s)
  {
    switch (s.below(5))
      {
      case 0: hostileOf<GNode>(s,DEFAULT,false); break;
      case 1: hostileOf<FNode>(s,GRAPH,false); break;
      case 2: hostileOf<TNode>(s,DEFAULT,true); break;
      case 3: hostileOf<FNode>(s,TREE,true); break;
      default: hostileOf<RNode>(s,DEFAULT,false);
      }
  }
}
static const Case cases[]={{"graph",graph},{"tree",tree},{"longchain",longchain},{"object",object},{"abandoned",abandoned},{"hostile",hostile}};
PBT_MAIN(cases)
