"""Random families of C++ classes, with generators, equality and printing for their values
that do not use classdesc at all."""
import random


def prod(l):
    n = 1
    for x in l:
        n *= x
    return n


class Ty:
    """a type: text is C++ source, flags tell what it contains"""
    def __init__(self, text, key=False, kind='leaf', parts=(), cls=None):
        self.text, self.key, self.kind, self.parts, self.cls = text, key, kind, tuple(parts), cls

    def all(self):
        yield self
        for p in self.parts:
            yield from p.all()


INTS = ['short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
CHARS = ['char', 'signed char', 'unsigned char']
FLOATS = ['float', 'double']


class Opts:
    """what the family may contain"""
    def __init__(self, **kw):
        self.std = 'c++98'
        self.leaves = ['bool'] + CHARS + INTS + INTS + FLOATS + ['long double'] + ['std::string'] * 4
        self.keys = ['char', 'int', 'unsigned', 'long', 'short', 'std::string', 'std::string', 'unsigned char', 'bool', 'unsigned long long']
        self.seqs = ['std::vector', 'std::vector', 'std::list', 'std::deque']
        self.assocs = ['std::set', 'std::multiset', 'std::map', 'std::multimap']
        self.unordered = False
        self.pair = True
        self.key_pair = True
        self.key_enum = True
        self.ptrs = ['classdesc::shared_ptr']
        self.tuple = False
        self.stdarray = False
        self.fixed = 0                  # more of std::array and std::tuple
        self.enums = True
        self.enum_class = False
        self.templates = True
        self.private = True
        self.bases = True
        self.maxbases = 2
        self.elem_ptr = True
        self.nested = True
        self.namespaces = True
        self.maxdims = 3
        self.elem_array = False
        self.depth = 3
        self.container_of_container = True
        self.nclasses = 9
        self.exclude = True
        self.static = True
        self.vector_bool = True
        self.const_member = False
        self.array_of_container = True
        self.assoc_elem_class = True
        self.nullptr = True
        self.empty_class = True
        self.enum_large = False
        self.recursive = True           # classes holding smart pointers to, or containers of, themselves
        self.__dict__.update(kw)
        if self.std != 'c++98':
            if self.unordered:
                self.assocs = self.assocs + ['std::unordered_map', 'std::unordered_set', 'std::unordered_multimap', 'std::unordered_multiset']
            for k in ('tuple', 'stdarray', 'enum_class'):
                if k not in kw:
                    setattr(self, k, True)


class Enum:
    def __init__(self, name, vals, scoped=False, under=None):
        self.name, self.vals, self.scoped, self.under = name, vals, scoped, under
        self.qual = name


class Member:
    def __init__(self, name, ty, dims=(), access='public', exclude=False, const=False):
        self.name, self.ty, self.dims, self.access, self.exclude, self.const = name, ty, list(dims), access, exclude, const


class Cls:
    def __init__(self, name):
        self.name, self.kw, self.bases, self.members, self.enums, self.nested, self.ns = name, 'struct', [], [], [], [], ''
        self.tparams = []
        self.qual = name
        self.inst = []     # template instances to test


class Family:
    def __init__(self, seed, opts):
        self.r = random.Random(seed)
        self.o = opts
        self.classes, self.enums = [], []
        self.uid = 0
        self.usable = []      # class types that may be members: (text, cls)
        self.tmpls = []
        for i in range(opts.nclasses):
            self.mkclass(i)

    # ---- types
    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def fresh(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def leaf(self):
        return Ty(self.pick(self.o.leaves))

    def keyty(self, depth):
        if self.o.pair and self.o.key_pair and depth > 0 and self.r.random() < .15:
            a, b = self.keyty(0), self.keyty(0)
            return Ty('std::pair<%s,%s >' % (a.text, b.text), True, 'pair', (a, b))
        if self.o.enums and self.o.key_enum and self.enums and self.r.random() < .12:
            return Ty(self.pick(self.enums).qual, True, 'enum')
        return Ty(self.pick(self.o.keys), True)

    def elem(self, depth):
        """type of an element of a container"""
        while True:
            t = self.ty(depth)
            if self.o.elem_ptr or t.kind != 'ptr':
                return t

    def ty(self, depth):
        r = self.r.random()
        o = self.o
        if o.fixed and depth > 0 and r < o.fixed:
            r = .98 if o.stdarray and self.r.random() < .7 else .97
            if not o.tuple:
                r = .98
            if o.stdarray or o.tuple:
                return self.fixedty(r, depth)
        if depth <= 0 or r < .34:
            if r < .06 and o.enums and self.enums:
                return Ty(self.pick(self.enums).qual, True, 'enum')
            return self.leaf()
        if r < .48 and self.usable:
            return self.classty()
        if r < .66:
            e = self.elem(depth - 1 if o.container_of_container else 0)
            if e.text == 'bool' and not o.vector_bool:
                e = Ty('int')
            return Ty('%s<%s >' % (self.pick(o.seqs), e.text), False, 'seq', (e,))
        if r < .84 and o.assocs:
            c = self.pick(o.assocs)
            if c.endswith('map'):
                k = self.keyty(1 if not c.startswith('std::unordered') else 0)
                if c.startswith('std::unordered') and k.kind == 'enum':
                    k = Ty('int', True)
                v = self.ty(depth - 1)
                return Ty('%s<%s,%s >' % (c, k.text, v.text), False, 'map', (k, v))
            k = self.keyty(1 if not c.startswith('std::unordered') else 0)
            if c.startswith('std::unordered') and k.kind == 'enum':
                k = Ty('std::string', True)
            return Ty('%s<%s >' % (c, k.text), False, 'set', (k,))
        if r < .90 and o.pair:
            a, b = self.ty(depth - 1), self.ty(depth - 1)
            return Ty('std::pair<%s,%s >' % (a.text, b.text), False, 'pair', (a, b))
        if r < .96 and o.ptrs:
            e = self.classty() if self.usable and self.r.random() < .6 else self.leaf()
            return Ty('%s<%s >' % (self.pick(o.ptrs), e.text), False, 'ptr', (e,))
        return self.fixedty(r, depth)

    def fixedty(self, r, depth):
        o = self.o
        if o.tuple and r < .98:
            es = [self.elem(depth - 1) for i in range(self.r.randint(1, 4))]
            return Ty('std::tuple<%s >' % ','.join(e.text for e in es), False, 'tuple', es)
        if o.stdarray:
            e = self.elem(depth - 1)
            return Ty('std::array<%s,%d >' % (e.text, self.r.randint(1, 4)), False, 'stdarray', (e,))
        return self.leaf()

    def classty(self):
        t, c = self.pick(self.usable)
        return Ty(t, False, 'class', (), c)

    def mkenum(self, scope):
        e = Enum(self.fresh('E'), [])
        v = 0
        for i in range(self.r.randint(1, 6)):
            n = '%s_%s%d' % (self.pick(['red', 'green', 'big', 'x', 'Zed']), e.name, i)
            if self.r.random() < .4:
                v = v + self.r.randint(1, 100) if self.r.random() < .8 or i else -self.r.randint(1, 50)
                e.vals.append((n, v, True))
            else:
                e.vals.append((n, v, False))
            v += 1
        if self.o.enum_class and self.r.random() < .4:
            e.scoped = True
            e.under = self.pick([None, None, 'unsigned short', 'long']) if self.o.enum_class != 'plain' else None
        if e.under == 'unsigned short' and any(v < 0 for n, v, x in e.vals):
            e.under = 'short'
        e.qual = scope + e.name
        return e

    def member(self, c, depth=None):
        o = self.o
        t = self.ty(o.depth if depth is None else depth)
        dims = []
        has_container = any(p.kind not in ('leaf', 'enum', 'class') for p in t.all())
        if o.maxdims and self.r.random() < .22 and (o.elem_ptr or t.kind != 'ptr') and (o.array_of_container or not has_container):
            dims = [self.r.randint(1, 4) for i in range(self.r.randint(1, o.maxdims))]
            lim = 6 if has_container or t.kind == 'class' else 16
            while prod(dims) > lim:
                k = self.r.randrange(len(dims))
                dims[k] = max(1, dims[k] - 1)
        m = Member(self.fresh('m'), t, dims)
        return m

    def mkclass(self, i):
        o = self.o
        c = Cls(self.fresh('C'))
        c.kw = self.pick(['struct', 'class'])
        if o.namespaces and self.r.random() < .35:
            c.ns = self.pick(['n1', 'n2', 'n1::sub'])
        scope = ''.join(p + '::' for p in c.ns.split('::') if p)
        if o.enums and self.r.random() < .35:
            e = self.mkenum(scope)
            e.ns = c.ns
            c.before_enum = e
            self.enums.append(e)
        else:
            c.before_enum = None
        tmpl = o.templates and self.r.random() < .18
        c.qual = scope + c.name
        if tmpl:
            c.tparams = ['class T'] if self.r.random() < .6 else ['class T', 'class U']
        if o.bases and self.usable and self.r.random() < .4:
            cands = [(t, k) for t, k in self.usable if not k.tparams]
            self.r.shuffle(cands)
            used = set()
            for t, k in cands[:min(o.maxbases, self.r.choice([1, 1, 2]))]:
                if used & (k.closure | {k}):
                    continue
                used |= k.closure | {k}
                c.bases.append(k)
        c.closure = set()
        for b in c.bases:
            c.closure |= b.closure | {b}
        if o.nested and not tmpl and self.r.random() < .25:
            n = Cls(self.fresh('N'))
            n.qual = c.qual + '::' + n.name
            n.closure = set()
            for k in range(self.r.randint(1, 3)):
                n.members.append(self.member(n, 1))
            c.nested.append(n)
        if o.enums and o.nested and not tmpl and self.r.random() < .2:
            e = self.mkenum(c.qual + '::')
            c.enums.append(e)
        nm = self.r.choice([1, 2, 3, 4, 5, 6, 8])
        if o.empty_class and self.r.random() < .05:
            nm = 0
        for k in range(nm):
            m = self.member(c)
            if o.private and self.r.random() < .3:
                m.access = self.pick(['private', 'protected'])
            if o.exclude and self.r.random() < .05:
                m.exclude = True
                m.ty, m.dims = Ty('int'), []
            c.members.append(m)
        if o.recursive and not tmpl and self.r.random() < .15:
            me = Ty(c.qual, False, 'class', (), c)
            if o.ptrs and self.r.random() < .6:
                c.members.append(Member(self.fresh('m'), Ty('%s<%s >' % (self.pick(o.ptrs), c.qual), False, 'ptr', (me,))))
            else:
                c.members.append(Member(self.fresh('m'), Ty('%s<%s >' % (self.pick(['std::vector', 'std::list']), c.qual), False, 'seq', (me,))))
        for n in c.nested:
            c.members.append(Member(self.fresh('m'), Ty(n.qual, False, 'class', (), n)))
            if self.r.random() < .5:
                c.members.append(Member(self.fresh('m'), Ty('std::vector<%s >' % n.qual, False, 'seq', (Ty(n.qual, False, 'class', (), n),))))
        for e in c.enums:
            c.members.append(Member(self.fresh('m'), Ty(e.qual, False, 'enum')))
        if tmpl:
            for p in c.tparams:
                p = p.split()[1]
                c.members.append(Member(self.fresh('m'), Ty(p)))
                if self.r.random() < .5 and self.o.seqs:
                    c.members.append(Member(self.fresh('m'), Ty('%s<%s >' % (self.pick(self.o.seqs), p), False, 'seq', (Ty(p),))))
            insts = []
            for k in range(2):
                args = []
                for p in c.tparams:
                    a = self.classty().text if self.usable and self.r.random() < .3 else self.pick([x for x in self.o.leaves if x != 'bool'])
                    args.append(a)
                t = '%s<%s >' % (c.qual, ','.join(args))
                if t not in insts:
                    insts.append(t)
            c.inst = insts
            for t in insts:
                self.usable.append((t, c))
        else:
            self.usable.append((c.qual, c))
        self.classes.append(c)

    # ---- emission
    def test_types(self):
        """(text, class) of everything to try"""
        res = []
        for c in self.classes:
            if c.tparams:
                res += [(t, c) for t in c.inst]
            else:
                res.append((c.qual, c))
        return res

    def enum_text(self, e, ind=''):
        return '%senum %s%s%s {%s};\n' % (ind, 'class ' if e.scoped else '', e.name, ' : ' + e.under if e.under else '',
                                         ', '.join(n + ('=%d' % v if x else '') for n, v, x in e.vals))

    def decl(self, m):
        t = m.ty.text
        if m.exclude:
            t = 'classdesc::Exclude<%s >' % t
        return '%s%s %s%s;' % ('const ' if m.const else '', t, m.name, ''.join('[%d]' % d for d in m.dims))

    def class_text(self, c, ind=''):
        o = []
        if c.tparams:
            o.append(ind + 'template <%s>' % ', '.join(c.tparams))
        bases = ': ' + ', '.join('public ' + b.qual for b in c.bases) if c.bases else ''
        o.append('%s%s %s%s' % (ind, c.kw, c.name, bases))
        o.append(ind + '{')
        acc = 'public' if c.kw == 'struct' else 'private'
        if c.nested or c.enums:
            if acc != 'public':
                o.append(ind + 'public:')
                acc = 'public'
        for e in c.enums:
            o.append(self.enum_text(e, ind + '  ').rstrip('\n'))
        for n in c.nested:
            o.append(self.class_text(n, ind + '  ').rstrip('\n'))
        hidden = any(m.access != 'public' for m in c.members)
        if hidden:
            t = ''
            if c.tparams:
                t = '<%s>' % ','.join(p.split()[1] for p in c.tparams)
                o.append('%s  CLASSDESC_ACCESS_TEMPLATE(%s);' % (ind, c.name))
            else:
                o.append('%s  CLASSDESC_ACCESS(%s);' % (ind, c.name))
            o.append('%s  friend struct ::VfAccess;' % ind)
        for m in c.members:
            if m.access != acc:
                o.append('%s%s:' % (ind, m.access))
                acc = m.access
            o.append('%s  %s' % (ind, self.decl(m)))
        if acc != 'public':
            o.append(ind + 'public:')
        # value initialisation of everything that is plain data
        inits = []
        for m in c.members:
            if m.const:
                continue
            pass
        if c.members and not c.tparams:
            o.append('%s  %s() {%s}' % (ind, c.name, ''))
        elif c.members:
            o.append('%s  %s() {}' % (ind, c.name))
        o.append(ind + '};')
        return '\n'.join(o) + '\n'

    def header(self):
        o = ['#ifndef VF_TYPES_H', '#define VF_TYPES_H', '#include <string>', '#include <vector>', '#include <list>', '#include <deque>', '#include <set>', '#include <map>', '#include <utility>',
             '#include "classdesc.h"', '#include "classdesc_access.h"', 'struct VfAccess;', '']
        if self.o.std != 'c++98':
            o.insert(8, '#include <memory>\n#include <array>\n#include <tuple>\n#include <unordered_map>\n#include <unordered_set>')
        for c in self.classes:
            body = ''
            if c.before_enum:
                body += self.enum_text(c.before_enum)
            body += self.class_text(c)
            for n in reversed([x for x in c.ns.split('::') if x]):
                body = 'namespace %s {\n%s}\n' % (n, body)
            o.append(body)
        o.append('#endif\n')
        return '\n'.join(o)

    def all_enums(self):
        res = list(self.enums)
        for c in self.classes:
            res += c.enums
        return res

    def all_classes(self):
        res = []
        for c in self.classes:
            res += c.nested
            res.append(c)
        return res

    def support(self, dom=False):
        """gen, eq and show of every class and enum, and their XML element trees"""
        o = ['#include "values.h"'] + ['#include "dom.h"'] * dom + ['namespace pbt {']
        decl, body = [], []
        for e in self.all_enums():
            pre = e.qual + '::' if e.scoped else e.qual[:-len(e.name)]
            vals = ','.join(pre + n for n, v, x in e.vals)
            decl.append('inline void gen(Src& s, %s& x) {static const %s v[]={%s}; x=v[s.below(%d)];}' % (e.qual, e.qual, vals, len(e.vals)))
            decl.append('inline bool eq(%s a, %s b, Tag) {return a==b;}' % (e.qual, e.qual))
            decl.append('inline void show(std::ostream& o, %s a, Tag) {o<<"%s:"<<(long long)(a);}' % (e.qual, e.name))
            if dom:
                decl.append('template <> struct EName<%s > {static std::string s() {return "%s";}};' % (e.qual, e.name))
                decl.append('inline void dom(Node& n, %s a, Tag) {n.kind=Node::number; switch (a) {%s}}' % (
                    e.qual, ' '.join('case %s: n.content="%s"; break;' % (pre + v, v) for v, _, _ in e.vals)))
        acc = ['struct VfAccess {']
        for k, c in enumerate(self.all_classes()):
            if c.tparams:
                th = 'template <%s> ' % ', '.join(c.tparams)
                ct = '%s<%s >' % (c.qual, ','.join(p.split()[1] for p in c.tparams))
                inl = th
            else:
                th, ct, inl = '', c.qual, 'inline '
            decl.append('%svoid gen(Src& s, %s& x);' % (inl, ct))
            decl.append('%sbool eq(const %s& a, const %s& b, Tag);' % (inl, ct, ct))
            decl.append('%svoid show(std::ostream& o, const %s& a, Tag);' % (inl, ct))
            if dom:
                decl.append('template <%s> struct EName<%s > {static std::string s() {return "%s";}};' % (', '.join(c.tparams), ct, c.name))
                decl.append('%svoid dom(Node& n, const %s& a, Tag);' % (inl, ct))
            g, q, w, dd = [], [], [], []
            for b in c.bases:
                dd.append('if (VERIF_ONBASE) domMember(n,"base_%s",static_cast<const %s&>(a)); else dom(n,static_cast<const %s&>(a),Tag());' % (
                    ''.join(ch if ch.isalnum() else '_' for ch in '::' + b.qual), b.qual, b.qual))
                g.append('gen(s,static_cast<%s&>(x));' % b.qual)
                q.append('if (!eq(static_cast<const %s&>(a),static_cast<const %s&>(b),Tag())) return false;' % (b.qual, b.qual))
                w.append('o<<"base "; show(o,static_cast<const %s&>(a),Tag()); o<<" ";' % b.qual)
            for m in c.members:
                n = m.name
                if m.exclude:
                    continue
                if m.const:
                    continue
                g.append('gen(s,x.%s);' % n)
                q.append('if (!eq(a.%s,b.%s,Tag())) return false;' % (n, n))
                w.append('o<<"%s="; show(o,a.%s,Tag()); o<<" ";' % (n, n))
                dd.append('domMember(n,"%s",a.%s);' % (n, n))
            acc.append('%sstatic void gen%d(pbt::Src& s, %s& x) {using namespace pbt; pbt::Deeper d; %s}' % (th, k, ct, ' '.join(g)))
            acc.append('%sstatic bool eq%d(const %s& a, const %s& b) {using namespace pbt; %s return true;}' % (th, k, ct, ct, ' '.join(q)))
            acc.append('%sstatic void show%d(std::ostream& o, const %s& a) {using namespace pbt; o<<"{"; %s o<<"}";}' % (th, k, ct, ' '.join(w)))
            body.append('%svoid gen(Src& s, %s& x) {VfAccess::gen%d(s,x);}' % (inl, ct, k))
            body.append('%sbool eq(const %s& a, const %s& b, Tag) {return VfAccess::eq%d(a,b);}' % (inl, ct, ct, k))
            if dom:
                acc.append('%sstatic void dom%d(pbt::Node& n, const %s& a) {using namespace pbt; n.kind=Node::record; %s}' % (th, k, ct, ' '.join(dd)))
                body.append('%svoid dom(Node& n, const %s& a, Tag) {VfAccess::dom%d(n,a);}' % (inl, ct, k))
            body.append('%svoid show(std::ostream& o, const %s& a, Tag) {VfAccess::show%d(o,a);}' % (inl, ct, k))
        acc.append('};')
        return '\n'.join(o + decl + ['}'] + acc + ['namespace pbt {'] + body + ['}', ''])
