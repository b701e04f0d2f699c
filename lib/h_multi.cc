// P23: multi-dimensional array views against plain index arithmetic
#include "classdesc.h"
#include <cstddef>
#include <cstring>
#include <iterator>
#include <vector>
#include <memory>
#include "multiArray.h"
#include "classdesc_epilogue.h"
#include "pbt.h"
using namespace pbt;
using namespace classdesc;
namespace
{
  // the data a view refers to, in an allocation of exactly its size
  struct Data
  {
    std::vector<size_t> dim; // fastest first
    size_t n;
    std::unique_ptr<long[]> p;
    Data(Src& s, int rank): n(1)
    {
      for (int i=0; i<rank; ++i) dim.push_back(s.below(12)==0? 0: s.below(8)==0? 1+s.below(9): 1+s.below(4));
      for (size_t d: dim) n*=d;
      p.reset(new long[n]);
      for (size_t i=0; i<n; ++i) p[i]=1000+i;
      s.desc<<"extents";
      for (int i=rank; i-->0; ) s.desc<<" "<<dim[i];
      s.nontrivial(rank>1 && n>3);
      s.label("rank "+std::to_string(rank)); s.label("empty",n==0);
    }
    size_t below(int r) const {size_t k=1; for (int i=0; i<r; ++i) k*=dim[i]; return k;}
  };

  template <int R> MultiArray<long,R> byArgs(const Data&, long* p);
  template <> MultiArray<long,1> byArgs(const Data& d, long* p) {return MultiArray<long,1>(p,d.dim[0]);}
  template <> MultiArray<long,2> byArgs(const Data& d, long* p) {return MultiArray<long,2>(p,d.dim[0],d.dim[1]);}
  template <> MultiArray<long,3> byArgs(const Data& d, long* p) {return MultiArray<long,3>(p,d.dim[0],d.dim[1],d.dim[2]);}
  template <> MultiArray<long,4> byArgs(const Data& d, long* p) {return MultiArray<long,4>(p,d.dim[0],d.dim[1],d.dim[2],d.dim[3]);}
  template <> MultiArray<long,5> byArgs(const Data& d, long* p) {return MultiArray<long,5>(p,d.dim[0],d.dim[1],d.dim[2],d.dim[3],d.dim[4]);}

  // every way of getting at the elements of a view gives the elements at off..., in order
  struct Walk
  {
    const Data& d; const char* how;
    Walk(const Data& d, const char* how): d(d), how(how) {}
    void leaf(const long& x, size_t at) const
    {
      PBT_CHECK(&x==d.p.get()+at, how<<": element "<<at<<" is found at offset "<<(&x-d.p.get()));
      PBT_CHECK(x==long(1000+at), how<<": element "<<at<<" is "<<x);
    }
    template <class A> void index(A& a, size_t off, long*) const {}
    void index(MultiArray<long,1>& a, size_t off) const {size(a); for (size_t i=0; i<a.size(); ++i) leaf(a[i],off+i);}
    void index(const MultiArray<long,1>& a, size_t off) const {size(a); for (size_t i=0; i<a.size(); ++i) leaf(a[i],off+i);}
    template <int R> void index(MultiArray<long,R>& a, size_t off) const
    {
      size(a);
      for (size_t i=0; i<a.size(); ++i) {MultiArray<long,R-1> b=a[i]; index(b,off+i*d.below(R-1));}
    }
    template <int R> void index(const MultiArray<long,R>& a, size_t off) const
    {
      size(a);
      for (size_t i=0; i<a.size(); ++i) {const MultiArray<long,R-1> b=a[i]; index(b,off+i*d.below(R-1));}
    }
    template <class A> void size(const A& a) const
    {
      PBT_CHECK(a.size()==d.dim[A::rank-1], how<<": the size of a view of rank "<<A::rank<<" is "<<a.size()<<", its extent "<<d.dim[A::rank-1]);
    }
    template <int R> void stride(const MultiArray<long,R>& a) const
    {PBT_CHECK(a.stride()==d.below(R-1),how<<": the stride is "<<a.stride()<<", not "<<d.below(R-1));}
    void stride(const MultiArray<long,1>&) const {}

    void iter(MultiArray<long,1>& a, size_t off) const
    {
      size_t k=0;
      for (MultiArray<long,1>::iterator i=a.begin(); i!=a.end(); ++i, ++k) leaf(*i,off+k);
      PBT_CHECK(k==d.dim[0],how<<": iteration over rank 1 gives "<<k<<" elements");
    }
    void citer(const MultiArray<long,1>& a, size_t off) const
    {
      size_t k=0;
      for (MultiArray<long,1>::const_iterator i=a.begin(); i!=a.end(); ++i, ++k) leaf(*i,off+k);
      PBT_CHECK(k==d.dim[0],how<<": const iteration over rank 1 gives "<<k<<" elements");
    }
    template <int R> void iter(MultiArray<long,R>& a, size_t off) const
    {
      size_t k=0, n=d.dim[R-1], step=d.below(R-1);
      if (!step) return; // views of nothing: the iterators all coincide
      for (typename MultiArray<long,R>::iterator i=a.begin(); i!=a.end(); ++i, ++k)
        {
          PBT_CHECK(k<n,how<<": iteration over rank "<<R<<" does not end");
          PBT_CHECK((*i).same(a[k]),how<<": the iterator and the index "<<k<<" disagree");
          index(*i,off+k*step); iter(*i,off+k*step);
        }
      PBT_CHECK(k==n,how<<": iteration over rank "<<R<<" gives "<<k<<" views, not "<<n);
    }
    template <int R> void citer(const MultiArray<long,R>& a, size_t off) const
    {
      size_t k=0, n=d.dim[R-1], step=d.below(R-1);
      if (!step) return;
      for (typename MultiArray<long,R>::const_iterator i=a.begin(); i!=a.end(); ++i, ++k)
        {
          PBT_CHECK(k<n,how<<": const iteration over rank "<<R<<" does not end");
          const MultiArray<long,R-1>& b=*i;
          index(b,off+k*step); citer(b,off+k*step);
        }
      PBT_CHECK(k==n,how<<": const iteration over rank "<<R<<" gives "<<k<<" views, not "<<n);
    }
    template <class A> void all(A a, size_t off=0) const
    {
      const A& c=a;
      stride(a); index(a,off); index(c,off); iter(a,off); citer(c,off);
    }
  };

  // a random walk of an iterator
  void moves(Src& s, const Data& d, MultiArray<long,1>&) {}
  template <int R> void moves(Src& s, const Data& d, MultiArray<long,R>& a)
  {
    size_t n=d.dim[R-1], step=d.below(R-1);
    if (!step || !n) return;
    typename MultiArray<long,R>::iterator i=a.begin();
    size_t at=0;
    Walk w(d,"moved iterator");
    for (size_t k=s.len(12); k; --k)
      {
        size_t before=at;
        switch (s.below(5))
          {
          case 0: if (at<n) {++i; ++at;} break;
          case 1: if (at<n) {w.index(*i++,before*step); ++at;} break;
          case 2: if (at) {--i; --at;} break;
          case 3: if (at) {typename MultiArray<long,R>::iterator o=i--; PBT_CHECK((*o).same(before<n? a[before]: *a.end()),"i-- does not give the previous value"); --at;} break;
          case 4: {size_t j=s.below(n-at+1); i+=j; at+=j; break;}
          }
        typename MultiArray<long,R>::iterator j=i;
        PBT_CHECK(j==i && !(j!=i),"a copied iterator is different");
        PBT_CHECK((i==a.end())==(at==n),"iterator at "<<at<<" of "<<n<<" compared with the end");
        if (at<n) {w.size(*i); w.index(*i,at*step);}
      }
  }

  template <int R> long& pick(MultiArray<long,R>& a, const std::vector<size_t>& ix)
  {MultiArray<long,R-1> b=a[ix[R-1]]; return pick(b,ix);}
  template <> long& pick(MultiArray<long,1>& a, const std::vector<size_t>& ix) {return a[ix[0]];}

  template <int R> void one(Src& s)
  {
    Data d(s,R);
    // by extents, and by a vector of them
    MultiArray<long,R> a=byArgs<R>(d,d.p.get());
    Walk(d,"by extents").all(a);
    std::unique_ptr<size_t[]> dims(new size_t[R]);
    std::copy(d.dim.begin(),d.dim.end(),dims.get());
    const size_t* cdims=dims.get();
    MultiArray<long,R> v(d.p.get(),cdims);
    dims.reset(); // the view has its own copy
    Walk(d,"by vector of extents").all(v);
    PBT_CHECK(a.same(v) && v.same(a),"two views of the same data are not the same");
    // copies
    MultiArray<long,R> c(s.coin()? a: v);
    Walk(d,"copy").all(c);
    Data e(s,R);
    MultiArray<long,R> g=byArgs<R>(e,e.p.get());
    PBT_CHECK(!g.same(a) || !d.n || !e.n,"views of different data are the same");
    g=c;
    Walk(d,"assigned").all(g);
    Walk(e,"untouched").all(byArgs<R>(e,e.p.get()));
    moves(s,d,a); moves(s,d,v);
    // writing through one view writes that element
    if (d.n)
      for (int k=0; k<4; ++k)
        {
          std::vector<size_t> ix; size_t lin=0;
          for (int i=0; i<R; ++i) {ix.push_back(s.below(d.dim[i])); lin+=ix[i]*d.below(i);}
          long nv=-1-k;
          pick(s.coin()? v: a,ix)=nv;
          for (size_t i=0; i<d.n; ++i)
            PBT_CHECK(d.p[i]==(i==lin? nv: long(1000+i)),"assigning element "<<lin<<" leaves "<<d.p[i]<<" in "<<i);
          d.p[lin]=1000+lin;
        }
  }
  void views(Src& s)
  {
    switch (s.below(5))
      {
      case 0: one<1>(s); break;
      case 1: one<2>(s); break;
      case 2: one<3>(s); break;
      case 3: one<4>(s); break;
      default: one<5>(s); break;
      }
  }
  const Case cases[]={{"views",views}};
}
PBT_MAIN(cases)
