#ifndef GTYPES_H
#define GTYPES_H
#include <vector>
#include <map>
#include <list>
#include <string>
#include "ref.h"
#ifdef _CLASSDESC
#pragma graphnode GNode
#pragma treenode TNode
#pragma graphnode space::SNode
#pragma treenode space::in::UNode
#endif
struct GNode
{
  int id; std::string name;
  GNode *a, *b;
  GNode* arr[3];
  std::vector<GNode*> v;
  std::map<int,GNode*> m;
  GNode(); GNode(const GNode&); ~GNode();
};
struct TNode
{
  int id; std::string name;
  TNode *a, *b;
  TNode* arr[3];
  std::vector<TNode*> v;
  std::map<int,TNode*> m;
  TNode(); TNode(const TNode&); ~TNode();
};
struct FNode      // no pragma: by the buffer's flag
{
  int id; std::string name;
  FNode *a, *b;
  FNode* arr[3];
  std::vector<FNode*> v;
  std::map<int,FNode*> m;
  FNode(); FNode(const FNode&); ~FNode();
};
namespace space
{
  struct SNode
  {
    int id; std::string name;
    SNode *a, *b;
    SNode* arr[3];
    std::vector<SNode*> v;
    std::map<int,SNode*> m;
    SNode(); SNode(const SNode&); ~SNode();
  };
  namespace in
  {
    struct UNode
    {
      int id; std::string name;
      UNode *a, *b;
      UNode* arr[3];
      std::vector<UNode*> v;
      std::map<int,UNode*> m;
      UNode(); UNode(const UNode&); ~UNode();
    };
  }
}
struct RNode
{
  int id; std::string name;
  classdesc::ref<RNode> a, b;
  classdesc::ref<RNode> arr[3];
  std::vector<classdesc::ref<RNode> > v;
  std::map<int,classdesc::ref<RNode> > m;
  RNode(); RNode(const RNode&); ~RNode();
};
struct Thrower {int x; Thrower(): x(0) {}};
#ifdef _CLASSDESC
#pragma graphnode ENode
#pragma omit pack Thrower
#pragma omit unpack Thrower
#endif
struct ENode     // something in it may throw
{
  int id; std::string name;
  ENode *a, *b;
  ENode* arr[3];
  Thrower t;
  std::vector<ENode*> v;
  std::map<int,ENode*> m;
  ENode(); ENode(const ENode&); ~ENode();
};
struct Plain     // holds a pointer of no protocol
{
  int x;
  int* p;
  Plain(): x(0), p(0) {}
};
struct Roots     // an object with pointers of several kinds
{
  int n;
  GNode* g;
  TNode* t;
  std::vector<GNode*> more;
  classdesc::ref<RNode> r;
  std::string tail;
};
#endif
