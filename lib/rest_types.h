#ifndef VERIF_REST_TYPES_H
#define VERIF_REST_TYPES_H
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <unordered_map>
#include <set>
#include <memory>
#include "polyRESTProcess.h"
#include "stringKeyMap.h"

enum Colour {red, green, blue=7, dark_red};

namespace rt
{
  enum class Mood {calm, angry=-3, glad};
  struct Leaf
  {
    int i=0;
    double d=0;
    std::string s;
    bool b=false;
    Colour c=red;
    unsigned short us=0;
    int calls=0;
    int addTo(int x) {++calls; i+=x; return i;}
    int get() const {return i;}
    std::string join(const std::string& a, int n) {++calls; s=a+std::to_string(n)+s; return s;}
    void reset() {++calls; i=0; d=0; s.clear(); b=false; c=red; us=0;}
    Colour swapColour(Colour x) {++calls; Colour r=c; c=x; return r;}
    double scale(double x) {++calls; return d=d*x;}
    bool flip() {++calls; return b=!b;}
    static long twice(int x) {return 2L*x;}
  };
  struct Mid
  {
    Leaf leaf;
    std::vector<int> vi;
    std::vector<Leaf> vl;
    std::map<std::string,int> msi;
    std::map<int,Leaf> mil;
    rt::Mood mood=rt::Mood::calm;
    Leaf& ref() {return leaf;}
    Leaf& at(int i) {return vl.at(i);}
    const Leaf& cref() const {return leaf;}
    Leaf copy() const {return leaf;}
    int total(const std::vector<int>& v) const {int r=0; for (size_t i=0; i<v.size(); ++i) r+=v[i]; return r;}
    void setAll(const std::vector<int>& v) {vi=v;}
    std::vector<int> reversed() const {return std::vector<int>(vi.rbegin(),vi.rend());}
    void setLeaf(const Leaf& x) {leaf=x;}
    rt::Mood mood2(rt::Mood m) {rt::Mood r=mood; mood=m; return r;}
  };
  struct Made
  {
    int a;
    std::string b;
    std::vector<int> v;
    Made(int a=1, const std::string& b="x"): a(a), b(b) {}
    int inc() {return ++a;}
    int look() const {return a;}
  };
  struct Base0
  {
    int bi=5;
    std::string bs;
    std::string who() const {return "base "+bs;}
    int bump() {return ++bi;}
  };
  struct IPoly: public classdesc::PolyRESTProcess<IPoly> {virtual int kind() const {return 0;}};
  struct PolyA: public classdesc::PolyRESTProcess<PolyA,IPoly> {int a=5; std::vector<int> av; int kind() const override {return 1;} int dbl() {a*=2; return a;}};
  struct Root: public Base0
  {
    int n=0;
    char ch='a';
    float f=0;
    long long ll=0;
    unsigned long long ull=0;
    const int ci=42;
    static int si;
    static const int csi=9;
    Mid mid;
    std::list<std::string> ls;
    std::deque<double> dd;
    std::vector<std::vector<int> > vvi;
    std::vector<std::shared_ptr<Leaf> > vpl;
    std::set<int> seti;
    std::set<std::string> sets;
    std::map<std::string,Leaf> msl;
    std::map<std::string,std::vector<int> > msv;
    std::map<Colour,int> mci;
    std::unordered_map<int,int> umii;
    classdesc::StringKeyMap<int> skm;
    std::shared_ptr<Leaf> pl;
    std::unique_ptr<Mid> um;
    std::weak_ptr<Leaf> wl;
    std::shared_ptr<int> pi;
    std::shared_ptr<IPoly> poly;
    std::pair<int,std::string> pr;
    int arr[4]={0,0,0,0};
    int arr2[2][3]={{0,0,0},{0,0,0}};
    // overloaded
    std::string over() {return "none";}
    std::string over(int x) {return "int "+std::to_string(x);}
    std::string over(const std::string& x) {return "string "+x;}
    std::string over(bool x) {return x? "bool true": "bool false";}
    std::string over(int x, int y) {return "ints "+std::to_string(x)+" "+std::to_string(y);}
    std::string over(const std::string& x, bool y) {return "sb "+x+(y?"+":"-");}
    std::string over(int x, const std::vector<int>& v, double d) {return "ivd "+std::to_string(x)+" "+std::to_string(v.size())+" "+std::to_string(int(d));}
    int& elemRef(int i) {return arr[i&3];}
    std::shared_ptr<Leaf> share() {return pl;}
  };
}

inline int freeAdd(int a, int b) {return a+b;}
inline std::string freeName(const std::string& x) {return "<"+x+">";}
#endif
