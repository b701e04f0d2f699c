// a damaged length may ask for any amount of memory: stands in for the limit of a real machine
#ifndef VERIF_MEMLIMIT_H
#define VERIF_MEMLIMIT_H
#include <new>
#include <cstdlib>
static const size_t memLimit=size_t(64)<<20;
void* operator new(size_t n)
#if __cplusplus<201103L
  throw(std::bad_alloc)
#endif
{
  if (n>memLimit) throw std::bad_alloc();
  void* p=malloc(n? n: 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) throw() {free(p);}
#if __cplusplus>=201402L
void operator delete(void* p, size_t) throw() {free(p);}
#endif
#endif
