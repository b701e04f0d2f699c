// JSON serialisation of generated families: P24
#define VERIF_NO_PACK
#include "json_pack_base.h"
#include "pack_stl.h"
#include "types.h"
#include "dom.h"
#include "support.h"
#include "types.cd"
#include "stringKeyMap.h"
#include "polyBase.h"
#include "polyJsonBase.h"
#include "json_extra.h"
#include "extra.cd"
#include "classdesc_epilogue.h"
#include "any.h"
#include <algorithm>
using namespace pbt;
using namespace classdesc;
namespace jp=json5_parser;
std::vector<Entry> pbt::registry;
template <> std::string ShapeT<Circle>::type() const {return "circle";}
template <> std::string ShapeT<Ring,Circle>::type() const {return "a ring";}
template <> std::string ShapeT<Blank>::type() const {return "blank";}
template <> std::string ShapeT<Group>::type() const {return "Group";}
Shape* Shape::create(const std::string& t)
{
  if (t=="circle") return new Circle;
  if (t=="a ring") return new Ring;
  if (t=="blank") return new Blank;
  if (t=="Group") return new Group;
  throw std::runtime_error("no such type: "+t);
}
template <class P> std::string showShape(const P& p) {return p? p->show(): "null";}
template <class C> std::string showShapes(const C& c) {std::string r="["; for (auto& i: c) r+=showShape(i)+","; return r+"]";}
template <class C> std::string showNamed(const C& c) {std::ostringstream r; for (auto& i: c) r<<i.first<<":"<<showShape(i.second)<<","; return "{"+r.str()+"}";}
std::string Circle::show() const {std::ostringstream o; o.precision(17); o<<"Circle("<<r<<","<<pbt::show(label)<<type_known<<")"; return o.str();}
std::string Ring::show() const {std::ostringstream o; o<<"Ring("<<inner<<","<<Circle::show()<<")"; return o.str();}
std::string Blank::show() const {return "Blank";}
std::string Group::show() const {return "Group("+showShapes(parts)+showShape(first)+showNamed(named)+")";}
namespace
{
  void setup() {domJson()=true;}
  std::string str(const jp::mValue& v) {return jp::write_string(v);}

  // ---- is this the JSON of that tree?
  std::string number(const jp::mValue& v)
  {
    std::ostringstream o; o.precision(21);
    switch (v.type())
      {
      case jp::bool_type: return v.get_bool()? "true": "false";
      case jp::int_type: if (v.is_uint64()) o<<v.get_uint64(); else o<<v.get_int64(); return o.str();
      case jp::real_type:
        {
          double x=v.get_real();
          if (x!=x) return "NaN";
          if (x==std::numeric_limits<double>::infinity()) return "INF";
          if (x==-std::numeric_limits<double>::infinity()) return "-INF";
          o<<x;
          return o.str();
        }
      default: return "something that is no number: "+str(v);
      }
  }
  std::string compare(const Node& n, const jp::mValue& v, const std::string& path="")
  {
    switch (n.kind)
      {
      case Node::text:
        if (v.type()!=jp::str_type) return path+" is no string: "+str(v);
        if (v.get_str()!=n.content) return path+" is "+show(v.get_str())+" where "+show(n.content)+" is expected";
        return "";
      case Node::number:
        if (!n.basic && v.type()==jp::str_type && n.content!="NaN" && n.content!="INF" && n.content!="-INF")     // enums
          return v.get_str()==n.content? "": path+" is "+show(v.get_str())+" where "+n.content+" is expected";
        if (number(v)!=n.content) return path+" is "+number(v)+" where "+n.content+" is expected";
        return "";
      case Node::sequence:
        {
          if (v.type()!=jp::array_type) return path+" is no array: "+str(v);
          std::vector<const Node*> k;
          const jp::mArray& a=v.get_array();
          // null smart pointers have no node
          size_t j=0;
          for (size_t i=0; i<a.size(); ++i)
            {
              bool null=a[i].type()==jp::null_type || (a[i].type()==jp::obj_type && a[i].get_obj().empty());
              std::string e;
              if (j<n.kids.size())
                {
                  std::ostringstream o; o<<path<<"["<<i<<"]";
                  e=compare(n.kids[j],a[i],o.str());
                  if (e.empty()) {++j; continue;}
                }
              if (!null) return e.empty()? path+" has too many elements: "+str(v): e;
            }
          if (j<n.kids.size()) {std::ostringstream o; o<<path<<" has "<<a.size()<<" elements where there should be more"; return o.str();}
          return "";
        }
      default:
        {
          if (v.type()!=jp::obj_type) return path+" is no object: "+str(v);
          const jp::mObject& m=v.get_obj();
          std::set<std::string> known;
          for (size_t i=0; i<n.kids.size(); ++i)
            {
              jp::mObject::const_iterator k=m.find(n.kids[i].name);
              // elements for bases are named after a mangled type name
              for (jp::mObject::const_iterator q=m.begin(); k==m.end() && q!=m.end(); ++q)
                if (!n.kids[i].name.compare(0,5,"base_") && plain(n.kids[i].name)==plain(q->first)) k=q;
              if (k==m.end()) return path+" lacks "+n.kids[i].name+": "+str(v);
              known.insert(k->first);
              std::string e=compare(n.kids[i],k->second,path+"."+n.kids[i].name);
              if (!e.empty()) return e;
            }
          for (jp::mObject::const_iterator k=m.begin(); k!=m.end(); ++k)
            if (!known.count(k->first) && k->second.type()!=jp::null_type && !(k->second.type()==jp::obj_type && k->second.get_obj().empty()))
              return path+" has an unexpected "+k->first+": "+str(v);
          return "";
        }
      }
  }

  const char* aName(Src& s)
  {
    static const char* v[]={"","","root","a.b","x.y.z"};
    return v[s.below(5)];
  }
  // the object of name d needs its parents
  void prepare(json_pack_t& j, const std::string& d)
  {
    if (d.empty()) return;
    j.objectify();
    std::vector<std::string> p;
    for (size_t i=0; (i=d.find('.',i))!=std::string::npos; ++i) p.push_back(d.substr(0,i));
    jp::mValue* v=&j;
    std::string rest=d;
    for (size_t i=0; i<p.size(); ++i)
      {
        std::string k=rest.substr(0,rest.find('.'));
        rest=rest.substr(k.size()+1);
        jp::mValue& w=v->get_obj()[k];
        if (w.type()!=jp::obj_type) w=jp::mObject();
        v=&w;
      }
  }
  jp::mValue pack(Any& a, const char* d, bool cst, bool strict)
  {
    json_pack_t j;
    j.throw_on_error=strict;
    j.throw_on_not_found=strict;
    prepare(j,d);
    if (cst) a.jsonPackConst(j,d); else a.jsonPack(j,d);
    return j;
  }
  // through text, perhaps
  void transport(Src& s, jp::mValue& v, json_pack_t& to)
  {
    size_t k=s.below(5);
    if (k==0) {static_cast<jp::mValue&>(to)=v; return;}
    json_pack_t j(v);
    std::string t;
    std::ostringstream o;
    switch (k)
      {
      case 1: t=classdesc::write(j); break;
      case 2: t=classdesc::write_formatted(j); break;
      case 3: classdesc::write(j,o,s.coin()? unsigned(jp::pretty_print): 0u); t=o.str(); break;
      default: o<<static_cast<const jp::mValue&>(j); t=o.str();
      }
    std::istringstream i(t);
    bool ok= s.coin()? classdesc::read(t,to): classdesc::read(i,to);
    PBT_CHECK(ok,"the JSON written cannot be read: "<<pbt::show(t));
  }

  void roundtrip(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s);
    bool dirty=s.coin(), cst=s.coin(), strict=s.coin();
    if (dirty) b->gen(s);
    const char* d=aName(s);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" as "<<pbt::show(std::string(d))<<(strict? " strict": "")<<(dirty? " into "+b->show(): "");
    std::string before=a->show();
    std::string by;
    if (!*d && s.below(3)==0)
      {
        by=a->jsonText();
        b->jsonRead(by);
      }
    else
      {
        jp::mValue v=pack(*a,d,cst,strict);
        by=str(v);
        json_pack_t j;
        transport(s,v,j);
        j.throw_on_error=strict;
        b->jsonUnpack(j,d);
      }
    PBT_CHECK(a->show()==before,a->type()<<": json_pack changed the object from "<<before<<" to "<<a->show());
    PBT_CHECK(b->eq(*a),a->type()<<": unpacked "<<b->show()<<" from packed "<<a->show()<<" by way of "<<by);
    Node n=a->dom("root");
    s.nontrivial(n.count()>4);
    s.label("dirty target",dirty); s.label("throw_on_error",strict); s.label("named",*d);
    s.label("values>20",n.count()>20); s.label("depth>3",n.deepest()>3);
  }

  // several objects in one JSON object
  void several(Src& s)
  {
    setup();
    static const char* names[]={"a","b","long name","r1","R"};
    size_t n=2+s.below(4);
    Holders a, b;
    json_pack_t j;
    bool strict=s.coin();
    j.throw_on_error=strict;
    prepare(j,"x");
    for (size_t i=0; i<n; ++i)
      {
        a.push_back(randomAny(s));
        a.back()->gen(s);
        b.push_back(a.back()->fresh());
        if (s.verbose) s.desc<<names[i]<<": "<<a.back()->type()<<" "<<a.back()->show()<<" ";
      }
    for (size_t i=0; i<n; ++i) a[i]->jsonPack(j,names[i]);
    PBT_CHECK(j.type()==RESTProcessType::object && j.get_obj().size()==n,n<<" objects packed gave "<<str(j));
    std::vector<size_t> order;
    for (size_t i=0; i<n; ++i) order.insert(order.begin()+s.below(i+1),i);
    for (size_t i=0; i<n; ++i)
      {
        size_t k=order[i];
        b[k]->jsonUnpack(j,names[k]);
        PBT_CHECK(b[k]->eq(*a[k]),a[k]->type()<<": unpacked "<<b[k]->show()<<" from packed "<<a[k]->show()<<" called "<<names[k]<<" in "<<str(j));
      }
    s.nontrivial(j.get_obj().size()>1);
  }

  void wellformed(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    a->gen(s);
    const char* d=aName(s);
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" as "<<pbt::show(std::string(d));
    Node want=a->dom("root");
    jp::mValue v=pack(*a,d,s.coin(),s.coin());
    jp::mValue w=v;
    std::string path=d;
    std::string e;
    while (!path.empty() && e.empty())
      {
        std::string k=path.substr(0,path.find('.'));
        path.erase(0,k.size()+1);
        if (w.type()!=jp::obj_type || w.get_obj().size()!=1 || !w.get_obj().count(k)) e="no object called "+k;
        else {jp::mValue u=w.get_obj()[k]; w=u;}
      }
    if (e.empty()) e=compare(want,w,*d? d: "value");
    PBT_CHECK(e.empty(),a->type()<<" "<<a->show()<<": "<<e<<" in "<<str(v));
    s.nontrivial(want.count()>4);
    s.label("values>20",want.count()>20); s.label("named",*d);
  }

  // ---- other names than those expected
  void unknowns(Src& s, jp::mValue& v, size_t& n)
  {
    if (v.type()==jp::obj_type)
      {
        jp::mObject& o=v.get_obj();
        for (jp::mObject::iterator i=o.begin(); i!=o.end(); ++i) unknowns(s,i->second,n);
        if (!o.empty() && s.below(4)==0)
          {
            static const char* nm[]={"unk","zz top","_u","m","","M1","m1 "};
            jp::mValue x;
            switch (s.below(6))
              {
              case 0: x=jp::mObject(); break;
              case 1: x=jp::mArray(2,jp::mValue(3)); break;
              case 2: x="text"; break;
              case 3: x=1.5; break;
              case 4: x=v; break;
              default:;
              }
            o.insert(std::make_pair(std::string(nm[s.below(7)]),x));
            ++n;
          }
      }
    else if (v.type()==jp::array_type)
      for (size_t i=0; i<v.get_array().size(); ++i) unknowns(s,v.get_array()[i],n);
  }
  void stripPtrs(Node& n)
  {
    if (n.kind!=Node::record) return;
    for (size_t i=0; i<n.kids.size();)
      if (n.kids[i].ptr) n.kids.erase(n.kids.begin()+i);
      else stripPtrs(n.kids[i++]);
  }
  // drop members of v, which is the JSON of a, and say what is then expected of unpacking into something that was b
  void drop(Src& s, const Node& a, const Node& b, jp::mValue& v, Node& expect, size_t& members, size_t& ptrs)
  {
    if (v.type()!=jp::obj_type) return;
    std::vector<std::string> gone;
    for (size_t i=0; i<a.kids.size(); ++i)
      {
        const Node& k=a.kids[i];
        jp::mObject::iterator m=v.get_obj().find(k.name);
        if (m==v.get_obj().end()) continue;     // bases
        const Node* other=0;
        size_t same=0;
        for (size_t j=0; j<b.kids.size(); ++j) if (b.kids[j].name==k.name) {other=&b.kids[j]; ++same;}
        for (size_t j=0; j<a.kids.size(); ++j) if (j!=i && a.kids[j].name==k.name) same=2;
        if (same>1) continue;
        if (k.ptr)
          {
            if (s.below(6)==0)
              {
                v.get_obj().erase(m);
                gone.push_back(k.name);
                ++ptrs;
              }
          }
        else if (!other || other->ptr) continue;
        else if (s.below(6)==0)
          {
            for (size_t j=0; j<expect.kids.size(); ++j)
              if (expect.kids[j].name==k.name)
                {
                  expect.kids[j]=*other;
                  stripPtrs(expect.kids[j]);
                }
            v.get_obj().erase(m);
            if (other->count()>1 || other->leaf() || other->kind==Node::sequence) ++members;
          }
        else if (k.kind==Node::record)
          for (size_t j=0; j<expect.kids.size(); ++j)
            if (expect.kids[j].name==k.name) drop(s,k,*other,m->second,expect.kids[j],members,ptrs);
      }
    for (size_t i=0; i<expect.kids.size();)
      if (std::count(gone.begin(),gone.end(),expect.kids[i].name)) expect.kids.erase(expect.kids.begin()+i);
      else ++i;
  }
  // JSON.stringify writes null for values JSON has no number for
  void nulls(jp::mValue& v, size_t& n)
  {
    if (v.type()==jp::obj_type)
      for (jp::mObject::iterator i=v.get_obj().begin(); i!=v.get_obj().end(); ++i) nulls(i->second,n);
    else if (v.type()==jp::array_type)
      for (size_t i=0; i<v.get_array().size(); ++i) nulls(v.get_array()[i],n);
    else if (v.type()==jp::real_type && v.get_real()!=v.get_real())
      {v=jp::mValue(); ++n;}
  }
  void layout(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s); b->gen(s);
    const char* d= s.coin()? "": "root";
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" into "<<b->show()<<" ";
    Node na=a->dom("root"), nb=b->dom("root"), expect=na;
    jp::mValue v=pack(*a,d,false,true);
    size_t members=0, ptrs=0, unk=0, nul=0;
    jp::mValue& in= *d? v.get_obj()[d]: v;
    if (s.coin()) drop(s,na,nb,in,expect,members,ptrs);
    if (s.coin()) unknowns(s,in,unk);
    if (s.coin()) nulls(v,nul);
    bool strict= members==0 && s.coin();
    json_pack_t j(v);
    j.throw_on_error=strict;
    if (s.verbose) s.desc<<str(v);
    b->jsonUnpack(j,d);
    std::string e=diff(expect,b->dom("root"));
    PBT_CHECK(e.empty(),a->type()<<": "<<e<<" after unpacking "<<str(v));
    s.nontrivial(na.count()>3 && (members || ptrs || unk || nul));
    s.label("unknown names",unk); s.label("members absent",members); s.label("smart pointers absent",ptrs); s.label("null numbers",nul);
  }
  void leaves(const Node& n, const std::vector<std::string>& path, std::vector<std::vector<std::string> >& r)
  {
    std::map<std::string,int> c;
    for (size_t i=0; i<n.kids.size(); ++i) c[n.kids[i].name]++;
    for (size_t i=0; i<n.kids.size(); ++i)
      {
        const Node& k=n.kids[i];
        if (k.ptr || c[k.name]>1 || !k.name.compare(0,5,"base_")) continue;
        std::vector<std::string> p=path; p.push_back(k.name);
        if (k.kind==Node::record) leaves(k,p,r); else r.push_back(p);
      }
  }
  void missing(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(a->fresh());
    a->gen(s); b->gen(s);
    std::vector<std::vector<std::string> > p;
    leaves(a->dom("root"),std::vector<std::string>(),p);
    if (p.empty()) throw Discard();
    jp::mValue v=pack(*a,"",false,true), *w=&v;
    const std::vector<std::string>& path=p[s.below(p.size())];
    for (size_t i=0; i+1<path.size(); ++i) w=&w->get_obj()[path[i]];
    w->get_obj().erase(path.back());
    if (s.verbose) s.desc<<a->type()<<" "<<str(v)<<" without "<<path.back();
    json_pack_t j(v);
    j.throw_on_error=true;
    bool threw=false;
    try {b->jsonUnpack(j,"");}
    catch (const json_pack_error&) {threw=true;}
    PBT_CHECK(threw,a->type()<<": no exception though "<<path.back()<<" is missing from "<<str(v));
    s.nontrivial(p.size()>1);
    s.label("nested",path.size()>1);
  }

  // ---- JSON of another shape
  void nodes(jp::mValue& v, std::vector<jp::mValue*>& r)
  {
    r.push_back(&v);
    if (v.type()==jp::obj_type)
      for (jp::mObject::iterator i=v.get_obj().begin(); i!=v.get_obj().end(); ++i) nodes(i->second,r);
    else if (v.type()==jp::array_type)
      for (size_t i=0; i<v.get_array().size(); ++i) nodes(v.get_array()[i],r);
  }
  void damaged(Src& s)
  {
    setup();
    Holder a(randomAny(s)), b(s.below(4)? a->fresh(): randomAny(s));
    a->gen(s);
    if (s.coin()) b->gen(s);
    jp::mValue v=pack(*a,"",false,false);
    size_t n=1+s.below(3);
    for (size_t i=0; i<n; ++i)
      {
        std::vector<jp::mValue*> all;
        nodes(v,all);
        jp::mValue& x=*all[s.below(all.size())];
        switch (s.below(9))
          {
          case 0: x=jp::mValue(); break;
          case 1: x=jp::mValue(s.coin()? "": s.coin()? "12": "v"); break;
          case 2: x=jp::mValue(s.coin()); break;
          case 3: x= s.coin()? jp::mValue(boost::int64_t(s.bits())): jp::mValue(boost::uint64_t(s.bits())); break;
          case 4: x=jp::mValue(s.coin()? 0.5: -3.25); break;
          case 5: x=jp::mObject(); break;
          case 6: {jp::mValue y=*all[s.below(all.size())]; x=jp::mArray(s.below(4),y); break;}
          case 7: {jp::mValue y=*all[s.below(all.size())]; x=y; break;}
          default:
            for (size_t k=0; k<all.size(); ++k)
              {
                jp::mValue& y=*all[(k+s.below(all.size()))%all.size()];
                if (y.type()!=jp::array_type) continue;
                jp::mArray& r=y.get_array();
                if (s.coin() && !r.empty()) {jp::mValue z=r.back(); r.push_back(z);}
                else if (!r.empty()) r.erase(r.begin()+s.below(r.size()));
                break;
              }
          }
      }
    if (s.verbose) s.desc<<b->type()<<" from "<<str(v);
    {
      json_pack_t j(v);
      j.throw_on_error=s.coin();
      std::string was=str(v);
      bool threw=false;
      try {b->jsonUnpack(j,"");}
      catch (const std::exception&) {threw=true;}
      PBT_CHECK(str(j)==was,b->type()<<": unpacking changed the JSON from "<<was<<" to "<<str(j));
      b->show();
      pack(*b,"",false,false);
      s.label("refused",threw);
    }
    json_pack_t j(pack(*a,"",false,true));
    Holder c(a->fresh());
    c->jsonUnpack(j,"");
    PBT_CHECK(c->eq(*a),"after a refusal, unpacked "<<c->show()<<" from packed "<<a->show());
    s.nontrivial(str(v).size()>20);
  }

  // ---- maps with strings for keys, which are objects
  std::string aKey(Src& s)
  {
    static const char* v[]={"a","b","key","two words","first","\xe2\x82\xac","type","0","a.b",".","x.",".y","","\"","\n"};
    return v[s.below(15)];
  }
  template <class T> struct Elem
  {
    static void gen(Src& s, T& x) {pbt::gen(s,x);}
    static jp::mValue json(const T& x) {json_pack_t j(x); return j;}
    static bool eq(const T& x, const T& y) {return pbt::eq(x,y,Tag());}
  };
  template <class T> struct Elem<StringKeyMap<T> >
  {
    static void gen(Src& s, StringKeyMap<T>& x)
    {
      x.clear();
      for (size_t n=s.below(5); n; --n) Elem<T>::gen(s,x[aKey(s)]);
    }
    static jp::mValue json(const StringKeyMap<T>& x)
    {
      jp::mObject o;
      for (typename StringKeyMap<T>::const_iterator i=x.begin(); i!=x.end(); ++i) o[i->first]=Elem<T>::json(i->second);
      return o;
    }
    static bool eq(const StringKeyMap<T>& x, const StringKeyMap<T>& y)
    {
      if (x.size()!=y.size()) return false;
      for (typename StringKeyMap<T>::const_iterator i=x.begin(), j=y.begin(); i!=x.end(); ++i, ++j)
        if (i->first!=j->first || !Elem<T>::eq(i->second,j->second)) return false;
      return true;
    }
  };
  template <class T> void keymap(Src& s, const char* what)
  {
    StringKeyMap<T> a, b;
    Elem<StringKeyMap<T> >::gen(s,a);
    if (s.coin()) Elem<StringKeyMap<T> >::gen(s,b);
    jp::mValue want=Elem<StringKeyMap<T> >::json(a);
    if (s.verbose) s.desc<<what<<" "<<str(want);
    const char* d=aName(s);
    bool strict=s.coin();
    json_pack_t j;
    j.throw_on_error=strict;
    prepare(j,d);
    if (s.coin()) json_pack(j,d,a);
    else {const StringKeyMap<T>& c=a; json_pack(j,d,c);}
    jp::mValue got=j;
    std::string path=d;
    while (!path.empty())
      {
        std::string k=path.substr(0,path.find('.'));
        path.erase(0,k.size()+1);
        jp::mValue u=got.get_obj()[k];
        got=u;
      }
    PBT_CHECK(str(got)==str(want),what<<" is packed as "<<str(got)<<" where "<<str(want)<<" is expected");
    json_pack_t k;
    jp::mValue v=j;
    transport(s,v,k);
    k.throw_on_error=strict;
    json_unpack(k,d,b);
    PBT_CHECK((Elem<StringKeyMap<T> >::eq(a,b)),what<<": unpacked "<<str(Elem<StringKeyMap<T> >::json(b))<<" from "<<str(j));
    s.nontrivial(a.size()>1);
    s.label("elements",a.size());
  }
  void keymaps(Src& s)
  {
    setup();
    switch (s.below(7))
      {
      case 0: keymap<int>(s,"StringKeyMap<int>"); break;
      case 1: keymap<std::string>(s,"StringKeyMap<string>"); break;
      case 2: keymap<std::vector<int> >(s,"StringKeyMap<vector<int>>"); break;
      case 3: keymap<StringKeyMap<int> >(s,"StringKeyMap<StringKeyMap<int>>"); break;
      case 4: keymap<std::map<int,std::string> >(s,"StringKeyMap<map<int,string>>"); break;
      case 5: keymap<std::pair<bool,unsigned char> >(s,"StringKeyMap<pair<bool,unsigned char>>"); break;
      default: keymap<StringKeyMap<StringKeyMap<std::string> > >(s,"StringKeyMap<StringKeyMap<StringKeyMap<string>>>");
      }
  }
}
namespace
{
  // ---- members that are not data of described types
  jp::mValue someJson(Src& s, int depth=0)
  {
    switch (s.below(depth>2? 6: 8))
      {
      case 0: return jp::mValue();
      case 1: {int x; gen(s,x); return jp::mValue(x);}
      case 2: {std::string x; gen(s,x); return jp::mValue(x);}
      case 3: return jp::mValue(s.coin());
      case 4: return jp::mValue(double(s.below(1000))/8);
      case 5: return jp::mObject();
      case 6: {jp::mArray a; for (size_t n=s.below(4); n; --n) a.push_back(someJson(s,depth+1)); return a;}
      default: {jp::mObject a; for (size_t n=s.below(4); n; --n) a[aKey(s)]=someJson(s,depth+1); return a;}
      }
  }
  void genMembers(Src& s, Members& m)
  {
    gen(s,m.before);
    gen(s,m.st.a); gen(s,m.st.b);
    m.js=json_pack_t(someJson(s));
    m.mv=someJson(s);
    if (s.coin()) m.fn=[](int i) {return i;};
    m.many.resize(s.below(4));
    for (size_t i=0; i<m.many.size(); ++i) {gen(s,m.many[i].a); gen(s,m.many[i].b);}
    Elem<StringKeyMap<int> >::gen(s,m.keys);
    for (int i=0; i<6; ++i) gen(s,m.grid[i/3][i%3]);
    gen(s,m.after);
  }
  std::string text(const Streamed& x) {std::ostringstream o; o<<x; return o.str();}
  std::string showMembers(const Members& m)
  {
    std::ostringstream o;
    o<<m.before<<" "<<m.st<<" "<<str(m.js)<<" "<<str(m.mv)<<" [";
    for (size_t i=0; i<m.many.size(); ++i) o<<m.many[i]<<" ";
    o<<"] "<<str(Elem<StringKeyMap<int> >::json(m.keys));
    for (int i=0; i<6; ++i) o<<" "<<m.grid[i/3][i%3];
    o<<pbt::show(m.after);
    return o.str();
  }
  jp::mValue jsonMembers(const Members& m, const jp::mValue& fn)
  {
    jp::mObject r;
    r["before"]=m.before; r["st"]=text(m.st); r["js"]=m.js; r["mv"]=m.mv; r["fn"]=fn;
    jp::mArray many;
    for (size_t i=0; i<m.many.size(); ++i) many.push_back(text(m.many[i]));
    r["many"]=many;
    r["keys"]=Elem<StringKeyMap<int> >::json(m.keys);
    jp::mArray g;
    for (int i=0; i<2; ++i) {jp::mArray row; for (int k=0; k<3; ++k) row.push_back(m.grid[i][k]); g.push_back(row);}
    r["grid"]=g;
    r["after"]=m.after;
    return r;
  }
  void members(Src& s)
  {
    setup();
    Outer x, y;
    gen(s,x.a); gen(s,x.b);
    genMembers(s,x.m);
    if (s.coin()) {gen(s,y.a); genMembers(s,y.m);}
    if (s.verbose) s.desc<<showMembers(x.m);
    bool strict=s.coin();
    json_pack_t j;
    j.throw_on_error=strict;
    const char* d=aName(s);
    prepare(j,d);
    json_pack(j,d,x);
    jp::mValue got=json_find(j,d);
    PBT_CHECK(got.type()==jp::obj_type && got.get_obj().count("m") && got.get_obj()["m"].type()==jp::obj_type,"members are lost: "<<str(got));
    jp::mObject want;
    want["a"]=x.a; want["b"]=x.b;
    // what stands for functions and pointers is not specified
    jp::mObject& gm=got.get_obj()["m"].get_obj();
    gm.erase("raw");
    want["m"]=jsonMembers(x.m,gm.count("fn")? gm["fn"]: jp::mValue());
    PBT_CHECK(str(got)==str(want),"packed as "<<str(got)<<" where "<<str(want)<<" is expected");
    json_pack_t k;
    jp::mValue v=j;
    transport(s,v,k);
    k.throw_on_error=strict;
    json_unpack(k,d,y);
    PBT_CHECK(y.a==x.a && y.b==x.b && showMembers(y.m)==showMembers(x.m),"unpacked "<<y.a<<" "<<showMembers(y.m)<<" "<<y.b<<" where "<<x.a<<" "<<showMembers(x.m)<<" "<<x.b<<" is expected, from "<<str(j));
    s.nontrivial(true);
  }
  // ---- packing where there is no such place
  void nowhere(Src& s)
  {
    setup();
    Holder a(randomAny(s));
    a->gen(s);
    json_pack_t j;
    j.objectify();
    j.get_obj()["num"]=3;
    j.get_obj()["arr"]=jp::mArray();
    j.get_obj()["obj"]=jp::mObject();
    static const char* nm[]={"nope.x","num.x","arr.x","obj.nope.x","nope.a.b"};
    const char* d=nm[s.below(5)];
    if (s.verbose) s.desc<<a->type()<<" "<<a->show()<<" as "<<d;
    std::string was=str(j);
    bool strict=s.coin();
    j.throw_on_error=j.throw_on_not_found=strict;
    bool threw=false;
    try {a->jsonPack(j,d);}
    catch (const json_pack_error&) {threw=true;}
    PBT_CHECK(threw==strict,a->type()<<": packing to "<<d<<" of "<<was<<(threw? " throws": " does not throw")<<" though throw_on_error is "<<strict);
    PBT_CHECK(str(j)==was,"packing to "<<d<<" changed "<<was<<" to "<<str(j));
    PBT_CHECK(j.throw_on_error==strict && j.throw_on_not_found==strict,"flags changed");
    s.nontrivial(true);
  }
  // ---- polymorphic objects
  Shape* aShape(Src& s, int depth=0);
  std::shared_ptr<Shape> maybeShape(Src& s, int depth) {return std::shared_ptr<Shape>(s.below(4)? aShape(s,depth): 0);}
  void genCircle(Src& s, Circle& c) {c.r=double(s.below(1000))/16; gen(s,c.label); gen(s,c.type_known);}
  Shape* aShape(Src& s, int depth)
  {
    switch (s.below(depth>2? 3: 4))
      {
      case 0: {Circle* c=new Circle; genCircle(s,*c); return c;}
      case 1: {Ring* c=new Ring; genCircle(s,*c); gen(s,c->inner); return c;}
      case 2: return new Blank;
      default:
        {
          Group* g=new Group;
          for (size_t n=s.below(4); n; --n) g->parts.push_back(maybeShape(s,depth+1));
          g->first=maybeShape(s,depth+1);
          for (size_t n=s.below(3); n; --n) g->named[aKey(s)]=maybeShape(s,depth+1);
          return g;
        }
      }
  }
  void genHolder(Src& s, ShapeHolder& h)
  {
    gen(s,h.before);
    h.one=maybeShape(s,0);
    h.own.reset(s.coin()? aShape(s): 0);
    h.many.clear();
    for (size_t n=s.below(4); n; --n) h.many.push_back(maybeShape(s,1));
    h.named.clear();
    for (size_t n=s.below(4); n; --n) h.named[int(s.below(100))-50]=maybeShape(s,1);
    for (int i=0; i<2; ++i) h.pair[i]=maybeShape(s,1);
    gen(s,h.after);
  }
  std::string showHolder(const ShapeHolder& h)
  {
    std::ostringstream o;
    o<<h.before<<" "<<showShape(h.one)<<" "<<showShape(h.own)<<" "<<showShapes(h.many)<<" "<<showNamed(h.named)<<" "<<showShape(h.pair[0])<<showShape(h.pair[1])<<pbt::show(h.after);
    return o.str();
  }
  void poly(Src& s)
  {
    setup();
    ShapeHolder a, b;
    genHolder(s,a);
    if (s.coin()) genHolder(s,b);
    const char* d=aName(s);
    bool strict=s.coin();
    if (s.verbose) s.desc<<showHolder(a)<<" as "<<pbt::show(std::string(d))<<" into "<<showHolder(b);
    json_pack_t j;
    j.throw_on_error=strict;
    prepare(j,d);
    if (s.coin()) json_pack(j,d,a); else {const ShapeHolder& c=a; json_pack(j,d,c);}
    json_pack_t k;
    jp::mValue v=j;
    transport(s,v,k);
    k.throw_on_error=strict;
    json_unpack(k,d,b);
    PBT_CHECK(showHolder(a)==showHolder(b),"unpacked "<<showHolder(b)<<" where "<<showHolder(a)<<" is expected, from "<<str(j));
    // each says what it is
    jp::mValue w=json_find(j,d);
    PBT_CHECK(!a.one || (w.get_obj()["one"].type()==jp::obj_type && w.get_obj()["one"].get_obj()["type"]==jp::mValue(a.one->type())),"type of member one in "<<str(w));
    // without the type there is no object
    if (a.one)
      {
        jp::mValue& m=json_find(k,d).get_obj()["one"];
        m.get_obj().erase("type");
        json_unpack(k,d,b);
        PBT_CHECK(!b.one,"an object of no known type: "<<showShape(b.one));
      }
    s.nontrivial(a.one || a.own || !a.many.empty());
    s.label("deep",showHolder(a).find("Group")!=std::string::npos);
  }
}
static const Case cases[]={{"roundtrip",roundtrip},{"several",several},{"wellformed",wellformed},{"layout",layout},{"missing",missing},{"damaged",damaged},{"keymaps",keymaps},{"members",members},{"nowhere",nowhere},{"poly",poly}};
void registerAll();
int main(int argc, char** argv)
{
  registerAll();
  return pbtMain(argc,argv,cases,sizeof(cases)/sizeof(cases[0]));
}
#include "register.h"
