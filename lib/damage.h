// damage to binary data
#ifndef VERIF_DAMAGE_H
#define VERIF_DAMAGE_H
#include "pbt.h"
namespace pbt
{
  inline void damage(Src& s, std::string& x)
  {
    size_t n=1+s.below(4);
    for (size_t i=0; i<n; ++i)
      {
        size_t p= x.empty()? 0: s.below(x.size());
        switch (s.below(10))
          {
          case 0: case 1: if (!x.empty()) x[p]=char(x[p]^(1<<s.below(8))); break;
          case 2: if (!x.empty()) x[p]=char(s.below(256)); break;
          case 3: case 4: case 5:
            {
              // a length or count that is a little or very wrong
              static const u64 v[]={0,1,2,3,7,8,9,255,256,65535,65536,0x7fffffff,0x80000000u,0xffffffffu,0x100000000ULL,
                                    0x1fffffffffffffffULL,0x2000000000000000ULL,0x3fffffffffffffffULL,0x4000000000000000ULL,0x7fffffffffffffffULL,
                                    0x8000000000000000ULL,0xfffffffffffffff0ULL,0xfffffffffffffffeULL,0xffffffffffffffffULL};
              u64 w=v[s.below(sizeof(v)/sizeof(v[0]))];
              size_t len= s.coin()? 8: 4;
              if (x.size()>=len)
                {
                  p=s.below(x.size()-len+1);
                  if (s.coin()) p-=p%len;
                  char c[8]; memcpy(c,&w,8);
                  if (s.below(4)==0) for (size_t k=0; k<len/2; ++k) std::swap(c[k],c[len-1-k]);
                  x.replace(p,len,c,len);
                }
              break;
            }
          case 6: if (!x.empty()) x.erase(p,1+s.below(16)); break;
          case 7: {std::string y; for (size_t k=1+s.below(12); k; --k) y+=char(s.below(4)? 0: s.below(256)); x.insert(p,y); break;}
          case 8: if (!x.empty()) {size_t l=1+s.below(24); x.insert(s.below(x.size()+1),x.substr(p,l));} break;
          default: if (!x.empty()) x.resize(p);
          }
      }
  }
}
#endif
