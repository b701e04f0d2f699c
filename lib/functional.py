"""Random functions for P21: what functional reflection says of them, and what calling through it does."""
import json, random

# type, values; all of them packable and default constructible
VALUES = {
    'bool': ['true', 'false'], 'char': ["'a'", "'\\n'", "'~'"], 'signed char': ['-7', '100'], 'unsigned char': ['0', '255'],
    'short': ['-300', '32767'], 'unsigned short': ['65535', '12'], 'int': ['0', '-1', '2147483647', '42'], 'unsigned': ['7', '4294967295u'],
    'long': ['-5000000000L', '9'], 'unsigned long': ['18446744073709551615ul', '3'], 'float': ['0.5f', '-2.25f'], 'double': ['1e300', '-0.125', '3'],
    'std::string': ['std::string()', 'std::string("a b")', 'std::string(300,\'x\')'],
    'std::vector<int>': ['std::vector<int>()', 'std::vector<int>(3,-4)'],
    'Rec': ['rec(1,"x")', 'rec(-9,"")', 'rec(77,"some text")'],
}
CLASSES = ('std::string', 'std::vector<int>', 'Rec')
PRELUDE = r'''
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <typeinfo>
#include <limits>
#include <stdexcept>
#if __cplusplus>=201103L
#include <functional>
#endif
namespace app
{
  struct Rec {int a; std::string b; Rec(): a(0) {} bool operator==(const Rec& x) const {return a==x.a && b==x.b;}};
  inline Rec rec(int a, const char* b) {Rec r; r.a=a; r.b=b; return r;}
}
using app::Rec; using app::rec;
#include "function.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "types.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
namespace F=classdesc::functional;
// the calls that happened, with the arguments they got
std::ostringstream calls;
int fails=0;
const char* piece="";
void bad(const std::string& m) {std::cout<<piece<<": "<<m<<std::endl; fails++;}
template <class T> std::string repr(const T& x) {std::ostringstream o; o.precision(20); o<<x; return o.str();}
std::string repr(const std::vector<int>& x) {std::ostringstream o; o<<"["; for (size_t i=0; i<x.size(); ++i) o<<x[i]<<","; o<<"]"; return o.str();}
std::string repr(const Rec& x) {return "{"+repr(x.a)+","+x.b+"}";}
unsigned long hash() {unsigned long h=5381; std::string s=calls.str(); for (size_t i=0; i<s.size(); ++i) h=h*33+(unsigned char)s[i]; return h;}
// a result which depends on all the arguments
template <class T> void result(T& x) {x=T(hash()%101);}
void result(bool& x) {x=hash()%2;}
void result(std::string& x) {x=repr(hash());}
void result(std::vector<int>& x) {x.assign(hash()%5,hash()%1000);}
void result(Rec& x) {x.a=hash()%1000; x.b=repr(hash());}
template <class T> T resultOf() {T x; result(x); return x;}
template <class A, class B> struct Same {static const bool value=false;};
template <class A> struct Same<A,A> {static const bool value=true;};
// an argument for apply: gives its value only as the type it has
struct Any
{
  const std::type_info* t; const void* p;
  template <class T> operator T() const
  {
    if (*t!=typeid(T)) {bad(std::string("argument of type ")+t->name()+" used as "+typeid(T).name()); return T();}
    return *static_cast<const T*>(p);
  }
};
template <class T> Any any(const T& x) {Any r; r.t=&typeid(T); r.p=&x; return r;}
template <class T> struct Numeric {static const bool value=std::numeric_limits<T>::is_specialized;};
template <class T> struct Numeric<T&> {static const bool value=false;};
template <class T> struct IsRef {static const bool value=false;};
template <class T> struct IsRef<T&> {static const bool value=true;};
// runs one way of calling; each must do as the direct call did
std::string direct; int ncalls;
template <class R> void compare(const char* how, const std::string& dl, const R& dr, const std::string& l, const R& r)
{
  if (l!=dl) bad(std::string(how)+" calls \""+l+"\", not \""+dl+"\"");
  if (!(r==dr)) bad(std::string(how)+" returns "+repr(r)+", not "+repr(dr));
}
void compare(const char* how, const std::string& dl, const std::string& l)
{if (l!=dl) bad(std::string(how)+" calls \""+l+"\", not \""+dl+"\"");}
template <class T> pack_t packed(const T& x) {pack_t b; b<<x; return b;}
template <class T> std::string bytes(const T& x) {pack_t b; b<<x; return std::string(b.data(),b.size());}
struct Counted: public pack_t {};
'''


class Gen:
    def __init__(self, seed, std, unrolled):
        self.r = random.Random(seed)
        self.std, self.cxx11, self.cxx17 = std, std != 'c++98', std in ('c++17', 'c++20')
        self.unrolled = unrolled or std == 'c++98'
        self.n = 0

    def type(self):
        return self.r.choice(list(VALUES))

    def arity(self):
        r = self.r
        return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 13, 20] if r.random() < .5 else list(range(0, 8)))

    def function(self):
        r = self.r
        self.n += 1
        args = []
        for i in range(self.arity()):
            t = self.type()
            args.append((t, r.choice(['val', 'val', 'const&', 'val']), r.choice(VALUES[t])))
        # arguments which cannot be given a temporary: reflection only
        special = r.random() < .15 and args
        if special:
            k = r.randrange(len(args))
            t = args[k][0]
            args[k] = (t, r.choice(['&', '*', 'const*'] + (['&&'] if self.cxx11 and not self.unrolled else [])), args[k][2])
        ret = r.choice(['void', 'void'] + [self.type() for i in range(5)])
        form = r.choice(['free', 'static', 'member', 'member', 'const', 'const', 'base', 'constbase', 'virtual', 'template'])
        noexc = self.cxx17 and r.random() < .25
        return dict(name='f%d' % self.n, args=args, ret=ret, form=form, noexcept=noexc, special=bool(special))


def atype(t, how):
    return {'val': t, 'const&': 'const %s&' % t, '&': t + '&', '*': t + '*', 'const*': 'const %s*' % t, '&&': t + '&&'}[how]


def describe(f):
    return '%s %s %s(%s)%s' % (f['form'], f['ret'], f['name'], ', '.join(atype(t, h) for t, h, v in f['args']), ' noexcept' if f['noexcept'] else '')


def emit(f, std, unrolled):
    cxx11 = std != 'c++98'
    n, args, ret, form = f['name'], f['args'], f['ret'], f['form']
    unrolled = unrolled or not cxx11
    const = form in ('const', 'constbase')
    ne = ' noexcept' if f['noexcept'] else ''
    ps = ','.join('%s a%d' % (atype(t, h), i + 1) for i, (t, h, v) in enumerate(args))
    ts = ','.join(atype(t, h) for t, h, v in args)
    body = '{calls<<"%s(";' % n
    for i, (t, h, v) in enumerate(args):
        if h in ('val', 'const&', '&', '&&'):
            body += ' calls<<repr(a%d)<<";";' % (i + 1)
    body += ' calls<<")"; %s}' % ('' if ret == 'void' else 'return resultOf<%s >();' % ret)
    member = form in ('member', 'const', 'base', 'constbase', 'virtual')
    pre, cls, fn = '', None, None
    if form == 'free':
        pre = '%s %s(%s)%s %s\n' % (ret, n, ps, ne, body)
        fn, ftype = '&' + n, '%s (*)(%s)%s' % (ret, ts, ne)
    elif form == 'template':
        pre = 'template <class X> %s %s(%s)%s %s\n' % (ret, n, ps, ne, body)
        fn, ftype = '&%s<int>' % n, '%s (*)(%s)%s' % (ret, ts, ne)
    elif form == 'static':
        cls = 'C' + n
        pre = 'struct %s {static %s %s(%s)%s %s};\n' % (cls, ret, n, ps, ne, body)
        fn, ftype = '&%s::%s' % (cls, n), '%s (*)(%s)%s' % (ret, ts, ne)
    else:
        cls = 'C' + n
        # the object takes part in what is logged
        b = '{calls<<id<<"."; ' + body[1:]
        base = 'B' + n if form in ('base', 'constbase', 'virtual') else cls
        q = ' const' if const else ''
        m = '%s%s %s(%s)%s%s %s' % ('virtual ' if form == 'virtual' else '', ret, n, ps, q, ne, b)
        if base == cls:
            pre = 'struct %s {int id; %s(int i): id(i) {} %s};\n' % (cls, cls, m)
        else:
            over = '%s %s(%s)%s {calls<<"derived "; return %s::%s(%s);}' % (ret, n, ps, ne, base, n, ','.join('static_cast<%s >(a%d)' % (atype(t, h), i + 1) for i, (t, h, v) in enumerate(args))) if form == 'virtual' else ''
            pre = 'struct Other%s {double d; virtual ~Other%s() {}};\nstruct %s {int id; %s(int i): id(i) {} %s};\nstruct %s: Other%s, %s {%s(int i): %s(i) {} %s};\n' % (n, n, base, base, m, cls, n, base, cls, base, over)
        fn, ftype = '&%s::%s' % (base, n), '%s (%s::*)(%s)%s%s' % (ret, base, ts, q, ne)
    # ---- checks
    c = ['void check_%s()' % n, '{', '  piece=%s;' % json.dumps(describe(f))]
    T = lambda cond, msg: c.append('  if (!(%s)) bad(%s);' % (cond, json.dumps(msg)))
    if form != 'static' or True:
        c.append('  typedef %s;' % (ftype.replace('(*)', '(*Fn)', 1) if '(*)' in ftype and not member else ftype.replace('::*)', '::*Fn)', 1)))
    c.append('  Fn fn=%s; (void)fn;' % fn)
    T('F::Arity<Fn>::value==%d' % len(args), 'Arity::value')
    T('F::Arity<Fn>::V==%d' % len(args), 'Arity::V')
    c.append('  {typedef Same<F::Return<Fn>::T,%s > S; if (!S::value) bad("Return::T");}' % ret)
    c.append('  {typedef Same<F::Return<Fn>::type,%s > S; if (!S::value) bad("Return::type");}' % ret)
    for i, (t, h, v) in enumerate(args):
        c.append('  {typedef Same<F::Arg<Fn,%d>::T,%s > S; if (!S::value) bad("Arg %d");}' % (i + 1, atype(t, h), i + 1))
        c.append('  {typedef Same<F::Arg<Fn,%d>::type,%s > S; if (!S::value) bad("Arg %d ::type");}' % (i + 1, atype(t, h), i + 1))
    num = all(h == 'val' and t not in ('std::string', 'std::vector<int>', 'Rec') for t, h, v in args)
    T('F::AllArgs<Fn,Numeric>::value==%s' % str(num).lower(), 'AllArgs')
    T('F::is_member_function_ptr<Fn>::value==%s' % str(member).lower(), 'is_member_function_ptr')
    T('F::is_nonmember_function_ptr<Fn>::value==%s' % str(not member).lower(), 'is_nonmember_function_ptr')
    T('F::is_function<Fn>::value', 'is_function')
    T('F::is_const_method<Fn>::value==%s' % str(const).lower(), 'is_const_method')
    if member:
        c.append('  {typedef Same<F::ClassOf<Fn>::T,%s> S; if (!S::value) bad("ClassOf");}' % base)
    if not f['special']:
        for i, (t, h, v) in enumerate(args):
            c.append('  %s v%d=%s;' % (t, i + 1, v))
        vs = ','.join('v%d' % (i + 1) for i in range(len(args)))
        R = ret
        objs = [('o', 17)] if not member else [('o', 17), ('o2', -4)]
        if member:
            for o, k in objs:
                c.append('  %s %s(%d); const %s& c%s=%s; (void)c%s;' % (cls, o, k, cls, o, o, o))
            c.append('  F::bound_method<%s,Fn> bm=F::bindMethod(o,fn);' % cls)
            c.append('  typedef F::bound_method<%s,Fn> BM;' % cls)
            T('F::Arity<BM>::value==%d' % len(args), 'Arity of the bound method')
            c.append('  {typedef Same<F::Return<BM>::T,%s > S; if (!S::value) bad("Return of the bound method");}' % ret)
            for i, (t, h, v) in enumerate(args):
                c.append('  {typedef Same<F::Arg<BM,%d>::T,%s > S; if (!S::value) bad("Arg %d of the bound method");}' % (i + 1, atype(t, h), i + 1))
            T('BM::is_const==%s' % str(const).lower(), 'is_const of the bound method')

        def way(how, call, directcall):
            """call: an expression of type R; compared with a direct call"""
            c.append('  {')
            if R == 'void':
                c.append('    calls.str(""); %s; std::string dl=calls.str();' % directcall)
                c.append('    calls.str(""); %s; compare("%s",dl,calls.str());' % (call, how))
            else:
                c.append('    calls.str(""); %s dr=%s; std::string dl=calls.str();' % (R, directcall))
                c.append('    calls.str(""); %s r=%s; compare<%s >("%s",dl,dr,calls.str(),r);' % (R, call, R, how))
            c.append('  }')
        dc = lambda o: ('(%s.*fn)(%s)' % (o, vs)) if member else 'fn(%s)' % vs
        targets = []
        if member:
            way('bound method', 'bm(%s)' % vs, dc('o'))
            c.append('  {F::bound_method<%s,Fn> copy(bm); (void)copy;' % cls)
            way('copied bound method', 'copy(%s)' % vs, dc('o'))
            c.append('  }')
            if not (const and unrolled):
                c.append('  {F::bound_method<%s,Fn> re(bm); re.rebind(o2);' % cls)
                way('rebound method', 're(%s)' % vs, dc('o2'))
                way('method bound before', 'bm(%s)' % vs, dc('o'))
                c.append('  }')
            if const:
                c.append('  {F::bound_method<const %s,Fn> cb=F::bindMethod(co,fn);' % cls)
                way('method bound to a const object', 'cb(%s)' % vs, dc('co'))
                c.append('  }')
            elif not unrolled:
                c.append('  {F::bound_method<const %s,Fn> cb=F::bindMethod(co,fn); calls.str(""); bool threw=false; try {cb(%s);} catch (const std::exception&) {threw=true;}' % (cls, vs))
                c.append('   if (!threw || !calls.str().empty()) bad("non const method is called on a const object");}')
            targets.append(('bm', 'bound method', 'o'))
        else:
            targets.append(('fn', 'function', 'o'))
            if cxx11 and not unrolled:
                c.append('  std::function<%s(%s)> sf=fn;' % (ret, ts))
                c.append('  {typedef std::function<%s(%s)> SF; if (F::Arity<SF>::value!=%d) bad("Arity of std::function"); typedef Same<F::Return<SF>::T,%s > S; if (!S::value) bad("Return of std::function");}' % (ret, ts, len(args), ret))
                targets.append(('sf', 'std::function', 'o'))
        for t, what, o in targets:
            # apply to an array of arguments
            # C++98 cannot tell that other types can be copied into temporaries
            if not cxx11 and any(x[0] in CLASSES for x in args):
                pass
            else:
              c.append('  {Any as[]={%s};' % (','.join(['any(v%d)' % (i + 1) for i in range(len(args))] + ['any(0)'])))
              if R == 'void':
                way('apply to a %s' % what, 'F::apply(NULL,%s,as)' % t, dc(o))
              else:
                c.append('  %s ar;' % R)
                way('apply to a %s' % what, '(F::apply(&ar,%s,as),ar)' % t, dc(o))
              c.append('  }')
            # call with arguments from a buffer
            c.append('  {pack_t b; b%s; b<<12345;' % ''.join('<<v%d' % (i + 1) for i in range(len(args))))
            way('callOnBuffer of a %s' % what, 'F::callOnBuffer(b,%s)' % t, dc(o))
            c.append('   int rest=0; b>>rest; if (rest!=12345) bad("callOnBuffer leaves the buffer elsewhere than after the arguments"); }')
            c.append('  {F::PackFunctor<pack_t> b; %s' % ('' if not args else 'b%s;' % ''.join('<<v%d' % (i + 1) for i in range(len(args)))))
            way('PackFunctor::call of a %s' % what, 'b.call(%s)' % t, dc(o))
            c.append('  }')
            if cxx11 and not unrolled:
                c.append('  {F::PackFunctor<pack_t> b; b.pack<Fn>(%s);' % vs)
                way('packed arguments, PackFunctor::call of a %s' % what, 'b.call(%s)' % t, dc(o))
                c.append('  }')
                c.append('  {F::PackFunctor<pack_t> b; b.pack(%s);' % vs)
                way('arguments packed as they are, PackFunctor::call of a %s' % what, 'b.call(%s)' % t, dc(o))
                c.append('  }')
            # a buffer that ends early must not lead to a call
            if args and R == 'void':
                c.append('  {pack_t b; b%s; pack_t cut; if (b.size()) cut.packraw(b.data(),b.size()-1); calls.str(""); bool threw=false; try {F::callOnBuffer(cut,%s);} catch (const std::exception&) {threw=true;}' % (''.join('<<v%d' % (i + 1) for i in range(len(args))), t))
                c.append('   if (!threw || !calls.str().empty()) bad("called although the buffer ends within the arguments");}')
    elif member and cxx11 and not unrolled:
        # arguments that cannot be supplied: refused, not guessed
        pass
    c.append('}')
    return pre, '\n'.join(c) + '\n'


EXTRA = r'''
struct Fields {int (*pf)(char,double); void (*pv)(); int data; const std::string* text;};
void check_fields()
{
  piece="members that are pointers to functions, and data members";
  typedef int (*Fields::*PF)(char,double); typedef void (*Fields::*PV)(); typedef int Fields::*DM;
  if (F::Arity<PF>::value!=2 || F::Arity<PV>::value!=0) bad("Arity");
  {typedef Same<F::Return<PF>::T,int> S; if (!S::value) bad("Return");}
  {typedef Same<F::Return<PV>::T,void> S; if (!S::value) bad("Return of a void one");}
  {typedef Same<F::ClassOf<PF>::T,Fields> S; if (!S::value) bad("ClassOf");}
  if (!F::is_nonmember_function_ptr<PF>::value || F::is_member_function_ptr<PF>::value || !F::is_function<PF>::value) bad("is a pointer to function");
  if (F::is_function<DM>::value || F::is_function<int>::value || F::is_function<Fields>::value || F::is_function<int*>::value) bad("is_function of what is none");
  if (F::is_member_function_ptr<DM>::value || F::is_nonmember_function_ptr<DM>::value || F::is_const_method<DM>::value) bad("data member");
  {typedef Same<F::Return<DM>::T,int> S; if (!S::value) bad("Return of a data member");}
  {typedef Same<F::ClassOf<DM>::T,Fields> S; if (!S::value) bad("ClassOf of a data member");}
  {typedef Same<F::ClassOf<Fields>::T,Fields> S; if (!S::value) bad("ClassOf of a class");}
}
struct Ref {int x[3]; int& at(int i) {return x[i];} const int& cat(int i) const {return x[i];} int* p() {return x;}};
void check_refs()
{
  piece="results that are references";
  Ref o={{1,2,3}};
  if (&F::bindMethod(o,&Ref::at)(2)!=o.x+2) bad("bound method gives another object");
  if (&F::bindMethod(o,&Ref::cat)(1)!=o.x+1) bad("bound const method gives another object");
  if (F::bindMethod(o,&Ref::p)()!=o.x) bad("bound method gives another pointer");
  pack_t b; b<<1;
  if (&F::callOnBuffer(b,F::bindMethod(o,&Ref::at))!=o.x+1) bad("callOnBuffer gives another object");
}
'''


def program(fs, std, unrolled, headers):
    pres, cks, names = [], [], []
    for f in fs:
        a, b = emit(f, std, unrolled)
        pres.append(a)
        cks.append(b)
        names.append('check_' + f['name'])
    main = PRELUDE + ''.join(pres) + ''.join(cks) + EXTRA + 'int main()\n{\n  try {%s check_fields(); check_refs();}\n  catch (const std::exception& e) {bad(std::string("unexpected exception: ")+e.what());}\n  return fails!=0;\n}\n' % ''.join(n + '(); ' for n in names)
    src = {'main.cc': main, 'types.h': 'namespace app {struct Rec {int a; std::string b;};}\n'}
    src.update(headers)
    return dict(name='fn', sources=src, cds=[('types.cd', ['-nodef', '-i', 'types.h', 'pack', 'unpack'])], std=std, flags=['-DUSE_UNROLLED'] if unrolled else [], asan=True, xdr=True)
