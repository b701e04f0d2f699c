"""Random types for P29 with what the language says of them."""
import random

CPP11 = lambda std: std != 'c++98'
FUND = {'bool': 'iu', 'char': 'is', 'signed char': 'is', 'unsigned char': 'iu', 'short': 'is', 'unsigned short': 'iu', 'int': 'is', 'unsigned': 'iu', 'long': 'is', 'unsigned long': 'iu', 'float': 'fs', 'double': 'fs', 'long double': 'fs', 'wchar_t': 'is',
        'long long': 'is', 'unsigned long long': 'iu'}


class T:
    """text; kind: fund void enum class union ptr ref array func memobj memfun; facts: what else is so"""
    def __init__(self, text, kind, const=False, **facts):
        self.text, self.kind, self.const, self.f = text, kind, const, facts


class Gen:
    def __init__(self, seed, std):
        self.r, self.std, self.n = random.Random(seed), std, 0
        self.decls = []
        self.users = []
        self.enums = []
        for i in range(4):
            self.enum()
        for i in range(10):
            self.user()

    def enum(self):
        r = self.r
        self.n += 1
        n = 'E%d' % self.n
        scoped = CPP11(self.std) and r.random() < .4
        under = CPP11(self.std) and r.random() < .4
        self.decls.append('enum %s%s%s {a%d, b%d=%d};' % ('class ' if scoped else '', n, ': unsigned char' if under else '', self.n, self.n, r.randrange(100)))
        self.enums.append(T(n, 'enum', scoped=scoped))

    def user(self):
        r = self.r
        self.n += 1
        n = 'C%d' % self.n
        f = dict(empty=True, poly=False, abstract=False, dc=True, cc=True, eq=False, bases=[], user=True, simple=True, resize=False, push=False, pub=[])
        if r.random() < .12:
            self.decls.append('union %s {int x; %s y;};' % (n, r.choice(['char', 'double', 'short'])))
            self.users.append(T(n, 'union', **dict(f, empty=False)))
            return
        b = ''
        cand = [u for u in self.users if u.kind == 'class' and not u.f['abstract'] and u.f['dc'] and u.f['cc'] and not u.f.get('final')]
        if cand and r.random() < .5:
            p = r.choice(cand)
            pub = r.random() < .7
            b = ': %s %s' % ('public' if pub else 'private', p.text)
            f.update(empty=p.f['empty'], poly=p.f['poly'], bases=p.f['bases'] + [p.text], simple=False, pub=(p.f['pub'] + [p.text]) if pub else [])
            f['baseeq'] = pub and (p.f['eq'] or p.f.get('baseeq'))
            f['resize'], f['push'] = pub and p.f['resize'], pub and p.f['push']
            f['inherited'] = f['resize'] or f['push']
        m = []
        if r.random() < .6:
            m.append('%s x;' % r.choice(['int', 'double', 'char']))
            f['empty'] = False
        k = r.randrange(12)
        if k == 0:
            m.append('virtual void v() {} virtual ~%s() {}' % n)
            f.update(poly=True, empty=False, simple=False)
        elif k == 1:
            m.append('virtual void v%s()=0; virtual ~%s() {}' % (n, n))
            f.update(poly=True, abstract=True, empty=False, simple=False)
        elif k == 2:
            m.append('explicit %s(int) {}' % n)
            f.update(dc=False, simple=False)
        elif k == 3 and CPP11(self.std):
            m.append('%s()=default; %s(const %s&)=delete;' % (n, n, n))
            f.update(cc=False, simple=False)
        elif k == 4:
            m.append('bool operator==(const %s&) const {return true;}' % n)
            f.update(eq=True)
        elif k == 5 and not f.get('inherited'):
            m.append('typedef std::size_t size_type; typedef int value_type; void resize(size_type) {} void push_back(const int&) {}')
            f.update(resize=True, push=True)
        elif k == 6 and not f.get('inherited'):
            m.append('typedef unsigned long size_type; typedef int value_type; void resize(size_type, int) {} void push_back(int) {}')
            f.update(resize=True, push=True)
        elif k == 7 and not f.get('inherited'):
            m.append('typedef std::size_t size_type; typedef int value_type; int resize() {return 0;} int push_back;')
            f.update(empty=False, resize=False, push=False)
        f['eq'] = f['eq'] or bool(f.get('baseeq'))
        self.decls.append('%s %s%s {%s %s};' % (r.choice(['struct', 'class']), n, b, 'public:', ' '.join(m)))
        f['poly'] = f['poly']
        self.users.append(T(n, 'class', **f))

    def value(self, depth=2):
        """an object type that can be an element"""
        r = self.r
        k = r.randrange(10)
        if k < 4 or depth == 0:
            n = r.choice(list(FUND))
            return T(n, 'fund')
        if k == 4:
            return r.choice(self.enums)
        if k == 5:
            u = [u for u in self.users if u.kind == 'class' and not u.f['abstract'] and u.f['dc'] and u.f['cc']]
            return r.choice(u) if u else T('int', 'fund')
        if k == 6:
            return T('std::string', 'class', string=True, dc=True, cc=True, eq=True, push=False, resize=True)
        if k == 7:
            return self.pointer(depth - 1)
        return self.library(depth - 1)

    def pointer(self, depth):
        r = self.r
        v = self.value(depth)
        return T('%s%s*' % (v.text, r.choice(['', ' const'])), 'ptr', to=v)

    def library(self, depth):
        r = self.r
        v = self.value(depth)
        k = T(r.choice(['int', 'char', 'unsigned long']), 'fund') if r.random() < .6 else T('std::string', 'class')
        opts = ['vector', 'deque', 'list', 'set', 'map', 'multiset', 'multimap', 'pair', 'shared_ptr', 'weak_ptr', 'string', 'alloc']
        if CPP11(self.std):
            opts += ['array', 'unordered_map', 'unordered_set', 'unordered_multimap', 'unordered_multiset', 'tuple', 'unique_ptr', 'array']
        o = r.choice(opts)
        d = dict(dc=True, cc=True, lib=o)
        if 'unique_ptr' in v.text and o in ('vector', 'deque', 'list', 'alloc'):
            # push_back of these cannot be instantiated
            v = T('int', 'fund')
        isbool = v.text == 'bool'
        if o in ('vector', 'deque', 'list'):
            return T('std::%s<%s >' % (o, v.text), 'class', sequence=True, push=True if not isbool else None, resize=True if not isbool else None, **d)
        if o == 'alloc':
            return T('std::vector<%s,MyAlloc<%s > >' % (v.text, v.text), 'class', sequence=True, push=True if not isbool else None, resize=True if not isbool else None, **d)
        if o == 'array':
            return T('std::array<%s,%d>' % (v.text, r.randrange(1, 5)), 'class', sequence=True, push=False, resize=False, **d)
        if o in ('set', 'multiset'):
            return T('std::%s<%s%s >' % (o, k.text, r.choice(['', ',std::greater<%s >' % k.text])), 'class', assoc=True, push=False, resize=False, **d)
        if o in ('unordered_set', 'unordered_multiset'):
            return T('std::%s<%s >' % (o, k.text), 'class', assoc=True, push=False, resize=False, **d)
        if o in ('map', 'multimap', 'unordered_map', 'unordered_multimap'):
            return T('std::%s<%s,%s >' % (o, k.text, v.text), 'class', assoc=True, push=False, resize=False, **d)
        if o == 'pair':
            return T('std::pair<%s,%s >' % (k.text, v.text), 'class', pair=True, **d)
        if o == 'tuple':
            return T('std::tuple<%s>' % ','.join(self.value(0).text for i in range(r.randrange(0, 4))), 'class', tuple=True, **d)
        if o in ('shared_ptr', 'weak_ptr'):
            t = v.text if v.kind in ('class', 'fund', 'enum') else 'int'
            return T('classdesc::%s<%s >' % (o, t), 'class', smart=True, weak=o == 'weak_ptr', **d)
        if o == 'unique_ptr':
            t = v.text if v.kind in ('class', 'fund', 'enum') else 'int'
            return T('std::unique_ptr<%s >' % t, 'class', smart=True, **dict(d, cc=False))
        return T(r.choice(['std::string', 'std::wstring', 'std::basic_string<char>']), 'class', string=True, **d)

    def type(self):
        r = self.r
        k = r.randrange(24)
        if k < 3: t = T(r.choice(list(FUND)), 'fund')
        elif k == 3: t = T('void', 'void')
        elif k == 4: t = r.choice(self.enums)
        elif k < 9: t = r.choice(self.users)
        elif k < 15: t = self.library(2)
        elif k < 17: t = self.pointer(2)
        elif k == 17: return T(self.value(1).text + '&', 'ref')
        elif k == 18: return T('const %s&' % self.value(0).text, 'ref')
        elif k == 19:
            v = self.value(1)
            return T('%s[%d]%s' % (v.text, r.randrange(1, 9), r.choice(['', '[3]'])), 'array', ext=1)
        elif k == 20:
            return T('%s(%s)' % (self.value(1).text, self.value(1).text), 'func')
        elif k == 21:
            u = r.choice(self.users)
            return T('int %s::*' % u.text, 'memobj')
        elif k == 22:
            u = r.choice(self.users)
            return T('void (%s::*)(int)%s' % (u.text, r.choice(['', ' const'])), 'memfun')
        elif CPP11(self.std) and r.random() < .5:
            return T(self.value(1).text + '&&', 'ref')
        else: t = self.library(1)
        if r.random() < .3:
            return T('%s const' % t.text, t.kind, const=True, **t.f)
        return t


def expected(t, std):
    """what the language says: trait -> value"""
    f, k = t.f, t.kind
    base = t.text[:-6] if t.const and t.text.endswith(' const') else t.text
    fk = FUND.get(base, '') if k == 'fund' else ''
    e = dict(is_void=k == 'void', is_integral=fk[:1] == 'i', is_floating_point=fk[:1] == 'f', is_Carray=k == 'array', is_pointer=k == 'ptr', is_enum=k == 'enum', is_union=k == 'union', is_class=k == 'class',
             is_function=k == 'func', is_member_object_pointer=k == 'memobj', is_member_function_pointer=k == 'memfun', is_member_pointer=k in ('memobj', 'memfun'),
             is_fundamental=k in ('fund', 'void'), is_arithmetic=k == 'fund', is_compound=k not in ('fund', 'void'), is_scalar=k in ('fund', 'enum', 'ptr', 'memobj', 'memfun'), is_object=k not in ('void', 'func', 'ref'),
             is_const=t.const, is_sequence=bool(f.get('sequence')), is_associative_container=bool(f.get('assoc')), is_container=bool(f.get('sequence') or f.get('assoc')), is_string=bool(f.get('string')),
             is_smart_ptr=bool(f.get('smart')), is_weak_ptr=bool(f.get('weak')), is_stringKeyMap=False)
    e['is_reference'] = k == 'ref' and not (t.text.endswith('&&') and std == 'c++98')
    if not t.const:
        e['is_pair'], e['is_tuple'] = bool(f.get('pair')), bool(f.get('tuple'))
    if k == 'fund':
        # (tr1 says that floating point types are neither)
        if fk[0] == 'i' and base not in ('char', 'wchar_t') and (CPP11(std) or not t.const and base != 'bool'):
            e['is_signed'], e['is_unsigned'] = fk[1] == 's', fk[1] == 'u'
    if f.get('user'):
        e['is_polymorphic'], e['is_abstract'] = f['poly'], f['abstract']
        if k == 'class':
            e['is_empty'] = f['empty']
        if CPP11(std):
            e['is_default_constructible'] = f['dc'] and not f['abstract'] and not t.const or None
            e['is_copy_constructible'] = f['cc'] and not f['abstract']
            e['is_complete'] = True
            if not t.const:
                e['is_dca'] = f['dc'] and f['cc'] and not f['abstract']
                e['is_rvalue'] = e['is_dca']
                e['has_equality_operator'] = f['eq']
        else:
            if not f['dc'] or f['abstract']:
                e['is_default_constructible'] = False
            if f['abstract'] or not f['dc']:
                e['is_rvalue'] = False
            elif f['simple'] and not t.const:
                e['is_rvalue'] = True
        if k == 'class' and f['resize'] in (True, False) and not f.get('inherited') and not t.const:
            # asked only of types with a size_type and a value_type
            pass
    elif k in ('fund', 'enum', 'ptr') and not t.const:
        e['is_default_constructible'] = e['is_copy_constructible'] = e['is_dca'] = e['is_rvalue'] = True
        if CPP11(std):
            e['has_equality_operator'] = True
            e['is_iterator'] = k == 'ptr'
    elif k == 'class' and 'dc' in f and CPP11(std) and not t.const:
        e['is_default_constructible'] = f['dc']
        if 'cc' in f and not f.get('sequence') and not f.get('assoc') and not f.get('pair') and not f.get('tuple'):
            e['is_copy_constructible'] = f['cc']
        e['is_iterator'] = False
        e['is_complete'] = True
    if k == 'ref' and not t.text.startswith('const ') and not t.text.endswith('&&') and ' const&' not in t.text:
        e['is_rvalue'] = False
    if k == 'class' and f.get('lib') and f.get('resize') is not None and not t.const:
        e['has_resize'], e['has_push_back'] = f['resize'], f['push']
    return {a: b for a, b in e.items() if b is not None}


HEAD = r'''
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <memory>
#include <functional>
#include <iostream>
#if __cplusplus>=201103L
#include <array>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <iterator>
#endif
#include "classdesc.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
template <class T> struct MyAlloc: public std::allocator<T> {
  MyAlloc() {} template <class U> MyAlloc(const MyAlloc<U>&) {}
  template <class U> struct rebind {typedef MyAlloc<U> other;};
};
struct Incomplete;
int fails=0;
void bad(const char* t, const char* trait, int v) {std::cout<<trait<<" of "<<t<<" is "<<v<<std::endl; fails++;}
namespace cd=classdesc;
template <class A, class B> struct Same {static const bool value=false;};
template <class A> struct Same<A,A> {static const bool value=true;};
#define CHECK(T,n,trait,v) if (bool(cd::trait<T>::value)!=v) bad(n,#trait,!v);
#define TRUE_(n,what,...) if (!(__VA_ARGS__)) bad(n,what,0);
template <bool> struct B {static const bool value=true;};
template <> struct B<false> {static const bool value=false;};
template <class T, class U> int which(typename cd::enable_if<T,U>::T*) {return 1;}
template <class T, class U> int which(typename cd::enable_if<cd::Not<T>,U>::T*) {return 2;}
'''


def program(pieces, g, std, cxx):
    """pieces: (index, type)"""
    o = [HEAD] + g.decls
    for i, t in pieces:
        # a name for the type
        o.append('typedef Name<%s >::T T%d;' % (t.text, i))
    o.insert(1, 'template <class T> struct Name {typedef T type;};')
    o = [x for x in o if not x.startswith('typedef Name')]
    if std == 'c++98':
        o.append('template <class T> struct Id_; template <class T> struct Id_<void(T)> {typedef T type;};')
    body = []
    for i, t in pieces:
        n = '"%s"' % t.text.replace('"', '')
        body.append('  {typedef Name<%s >::type X;' % t.text)
        for a, v in sorted(expected(t, std).items()):
            body.append('   CHECK(X,%s,%s,%s)' % (n, a, 'true' if v else 'false'))
        # one of the ways only
        if t.kind not in ('void', 'func', 'ref'):
            body.append('   TRUE_(%s,"exactly one kind",(cd::is_fundamental<X>::value+cd::is_enum<X>::value+cd::is_class<X>::value+cd::is_union<X>::value+cd::is_pointer<X>::value+cd::is_member_pointer<X>::value+cd::is_Carray<X>::value)==1)' % n)
            body.append('   TRUE_(%s,"at most one category",(cd::is_sequence<X>::value+cd::is_associative_container<X>::value+cd::is_string<X>::value+cd::is_smart_ptr<X>::value+cd::is_pair<X>::value+cd::is_tuple<X>::value+cd::is_fundamental<X>::value+cd::is_enum<X>::value+cd::is_pointer<X>::value)<=1)' % n)
        if t.kind not in ('func', 'ref', 'array'):
            body.append('   TRUE_(%s,"transfer_const",Same<cd::transfer_const<const int,X>::type,const X>::value && Same<cd::transfer_const<int,X>::type,X>::value)' % n)
            body.append('   TRUE_(%s,"remove_const",Same<cd::remove_const<const X>::type,Name<%s >::type>::value && Same<cd::add_const<X>::type,const X>::value && Same<cd::add_pointer<X>::type,X*>::value && Same<cd::remove_pointer<X*>::type,X>::value)' % (n, t.text[:-6] if t.const and t.text.endswith(' const') else t.text))
        body.append('   TRUE_(%s,"conditional",Same<cd::conditional<true,X,void(*)(X*)>::T,X>::value && Same<cd::conditional<false,int***,X>::T,X>::value)' % n if t.kind not in ('ref',) else '')
        body.append('  }')
    us = [u for u in g.users if u.kind == 'class']
    for a in us:
        for b in us:
            isb = a.text == b.text or a.text in b.f['bases']
            body.append('  TRUE_("%s,%s","is_base_of",cd::is_base_of<%s,%s>::value==%s)' % (a.text, b.text, a.text, b.text, 'true' if isb else 'false'))
            conv = a.text == b.text or a.text in b.f['pub']
            if conv or not isb or CPP11(std):  # (tr1 does not compile where the base is inaccessible)
                body.append('  TRUE_("%s*,%s*","is_convertible",cd::is_convertible<%s*,%s*>::value==%s)' % (b.text, a.text, b.text, a.text, 'true' if conv else 'false'))
            body.append('  TRUE_("%s,%s","is_same",cd::is_same<%s,%s>::value==%s)' % (b.text, a.text, b.text, a.text, 'true' if a is b else 'false'))
    for u in us:
        if u.f['resize'] and not u.f.get('inherited'):
            body.append('  CHECK(%s,"%s",has_resize,true) CHECK(%s,"%s",has_push_back,true)' % ((u.text,) * 4))
    r = random.Random(len(pieces))
    for i in range(12):
        v = [r.random() < .5 for j in range(4)]
        n = 4 if CPP11(std) else 2
        b = ['B<%s>' % ('true' if x else 'false') for x in v[:n]]
        body.append('  TRUE_("%s","And",cd::And<%s >::value==%s)' % (' '.join(b), ','.join(b), 'true' if all(v[:n]) else 'false'))
        body.append('  TRUE_("%s","Or",cd::Or<%s >::value==%s)' % (' '.join(b), ','.join(b), 'true' if any(v[:n]) else 'false'))
        body.append('  TRUE_("%s","Not and enable_if",cd::Not<%s >::value!=%s && which<%s,int>(0)==%d)' % (b[0], b[0], 'true' if v[0] else 'false', b[0], 1 if v[0] else 2))
        x, y = r.randrange(-2, 3), r.randrange(-2, 3)
        body.append('  TRUE_("%d,%d","Eq",(cd::Eq<%d,%d>::value)==%s)' % (x, y, x, y, 'true' if x == y else 'false'))
    if CPP11(std):
        body.append('  CHECK(Incomplete,"Incomplete",is_complete,false) CHECK(std::vector<int>::iterator,"iterator",is_iterator,true) CHECK(std::istream_iterator<int>,"istream_iterator",is_iterator,true)')
        body.append('  typedef std::pair<int,int> PI; typedef std::pair<int,NoEq> PN; typedef std::pair<NoEq,std::string> NP; CHECK(PI,"pair",has_equality_operator,true) CHECK(PN,"pair",has_equality_operator,false) CHECK(NP,"pair",has_equality_operator,false)')
    # growing through the traits
    body.append('''  {std::vector<int> v(2,7); cd::resize(v,5); cd::push_back(v,9); std::list<int> l; cd::push_back(l,3); cd::push_back(l,4); cd::resize(l,1); std::set<int> s; s.insert(1); cd::resize(s,0); cd::push_back(s,5); std::deque<std::string> d; cd::push_back(d,"x"); cd::resize(d,3);
   TRUE_("resize and push_back","behaviour",v.size()==6 && v[1]==7 && v[4]==0 && v[5]==9 && l.size()==1 && l.front()==3 && s.size()==1 && *s.begin()==1 && d.size()==3 && d[0]=="x")
   const std::pair<int,std::string> p(4,"z"); const std::string k("key"); TRUE_("keyOf","behaviour",cd::keyOf(p)==4 && &cd::keyOf(p)==&p.first && &cd::keyOf(k)==&k)}''')
    o += ['struct NoEq {int x;};', 'int main()', '{'] + body + ['  return fails>0;', '}', '']
    return dict(name='traits', sources={'main.cc': '\n'.join(o)}, cds=[], std=std, cxx=cxx, asan=False, xdr=True)


def describe(p):
    return p[1].text
