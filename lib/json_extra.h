// members of types that JSON treats specially, and polymorphic classes (P24)
#ifndef VERIF_JSON_EXTRA_H
#define VERIF_JSON_EXTRA_H
#include "stream_type.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
struct Members
{
  int before;
  Streamed st;
  classdesc::json_pack_t js;
  json5_parser::mValue mv;
  std::function<int(int)> fn;
  std::vector<Streamed> many;
  classdesc::StringKeyMap<int> keys;
  int grid[2][3];
  int* raw;
  std::string after;
  Members(): before(0), raw(0) {for (int i=0; i<6; ++i) grid[i/3][i%3]=0;}
};
struct Outer {int a; Members m; int b; Outer(): a(0), b(0) {}};

struct Shape: public classdesc::PolyBase<std::string>, virtual public classdesc::PolyJsonBase
{
  static Shape* create(const std::string&);
  virtual std::string show() const=0;
};
template <class T, class S=Shape>
struct ShapeT: public S
{
  std::string type() const;
  ShapeT* clone() const {return new T(*static_cast<const T*>(this));}
  void json_pack(classdesc::json_pack_t& x, const classdesc::string& d) const {::json_pack(x,d,static_cast<const T&>(*this));}
  void json_unpack(classdesc::json_unpack_t& x, const classdesc::string& d) {::json_unpack(x,d,static_cast<T&>(*this));}
};
struct Circle: public ShapeT<Circle>
{
  double r; std::string label; bool type_known;
  Circle(): r(0), type_known(false) {}
  std::string show() const;
};
struct Ring: public ShapeT<Ring,Circle>
{
  short inner;
  Ring(): inner(0) {}
  std::string show() const;
};
struct Blank: public ShapeT<Blank>
{
  std::string show() const;
};
struct Group: public ShapeT<Group>
{
  std::vector<std::shared_ptr<Shape> > parts;
  std::shared_ptr<Shape> first;
  std::map<std::string,std::shared_ptr<Shape> > named;
  std::string show() const;
};
struct ShapeHolder
{
  int before;
  std::shared_ptr<Shape> one;
  std::unique_ptr<Shape> own;
  std::vector<std::shared_ptr<Shape> > many;
  std::map<int,std::shared_ptr<Shape> > named;
  std::shared_ptr<Shape> pair[2];
  std::string after;
  ShapeHolder(): before(0) {}
};
#endif
