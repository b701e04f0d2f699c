"""Random Java class files for P27: trees, the bytes the class file format gives them, and changed copies."""
import copy, random, struct

UTF8, INTEGER, FLOAT, LONG, DOUBLE, CLASS, STRING, FIELD, METHOD, IMETHOD, NAT = 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12
HANDLE, MTYPE, DYN, INDY, MODULE, PACKAGE = 15, 16, 17, 18, 19, 20
TWO = (LONG, DOUBLE)


def u1(v): return struct.pack('>B', v)
def u2(v): return struct.pack('>H', v)
def u4(v): return struct.pack('>I', v)
def u8(v): return struct.pack('>Q', v)


def slots(pool):
    """the value of constant_pool_count"""
    return 1 + sum(2 if c[0] in TWO else 1 for c in pool)


class Gen:
    def __init__(self, seed, large=False):
        self.r, self.large = random.Random(seed), large

    def num(self, bits):
        r = self.r
        k = r.randrange(6)
        if k == 0: return 0
        if k == 1: return (1 << bits) - 1
        if k == 2: return 1 << (bits - 1)
        if k == 3: return r.randrange(min(1 << bits, 40))
        return r.getrandbits(bits)

    def blob(self, big):
        r = self.r
        k = r.randrange(12)
        if k == 0: return b''
        if k == 1 and big: return bytes([r.randrange(256)]) * r.choice([300, 32767, 32768, 40000, 65535, 256])
        if k == 2: return bytes(r.randrange(256) for i in range(r.randrange(60)))
        return r.choice([b'java/lang/Object', b'<init>', b'()V', b'Code', b'\xc0\x80', b'\xed\xa0\xb5\xed\xb4\x9e', b'(IJ[Ljava/lang/String;)D', b'name%d' % r.randrange(99)])

    def const(self, big):
        r = self.r
        t = r.choice([UTF8, UTF8, UTF8, INTEGER, FLOAT, LONG, DOUBLE, CLASS, STRING, FIELD, METHOD, IMETHOD, NAT, NAT, HANDLE, MTYPE, DYN, INDY, MODULE, PACKAGE])
        if t == UTF8: return [t, self.blob(big)]
        if t in (INTEGER, FLOAT): return [t, self.num(32)]
        if t in TWO: return [t, self.num(64)]
        if t in (CLASS, STRING, MTYPE, MODULE, PACKAGE): return [t, self.num(16)]
        if t == HANDLE: return [t, r.randrange(1, 10), self.num(16)]
        return [t, self.num(16), self.num(16)]

    def attr(self, big):
        r = self.r
        n = r.choice([0, 1, 2, 5, 17, 60]) if not (big and self.large) or r.random() < .9 else r.choice([255, 256, 32768, 65535, 65536, 70000])
        body = bytes([r.randrange(256)]) * n if n > 100 else bytes(r.randrange(256) for i in range(n))
        return [self.num(16), body]

    def attrs(self, big):
        return [self.attr(big) for i in range(self.r.choice([0, 0, 1, 1, 2, 4]))]

    def member(self, big):
        return [self.num(16), self.num(16), self.num(16), self.attrs(big)]

    def count(self, top):
        r = self.r
        return r.choice([0, 0, 1, 2, 3, 8, top])

    def file(self):
        r = self.r
        big = r.random() < .3
        huge = self.large and r.random() < .2
        c = dict(magic=0xCAFEBABE, minor=self.num(16), major=r.choice([45, 49, 50, 52, 61, 69]))
        n = self.count(30)
        if huge and r.random() < .6:
            n = r.choice([32766, 32767, 40000, 65000])
            pool, k = [[CLASS, 1], [UTF8, b'x'], [INTEGER, 7], [NAT, 2, 3]], 0
            c['pool'] = (pool * (n // 4 + 1))[:n]
        else:
            c['pool'] = [self.const(big) for i in range(n)]
        c['access'], c['this'], c['super'] = self.num(16), self.num(16), self.num(16)
        c['interfaces'] = [self.num(16) for i in range(self.count(20))]
        if huge and len(c['pool']) < 100:
            c['interfaces'] = [5] * r.choice([32767, 32768, 50000, 65535])
        c['fields'] = [self.member(big) for i in range(self.count(9))]
        c['methods'] = [self.member(big) for i in range(self.count(9))]
        c['attrs'] = self.attrs(big)
        return c

    def change(self, c):
        """a copy which differs in one place; and the place"""
        r = self.r
        c = copy.deepcopy(c)
        for i in range(100):
            k = r.choice(['minor', 'major', 'access', 'this', 'super', 'magic', 'pool', 'pool', 'interfaces', 'fields', 'methods', 'attrs', 'fields', 'methods', 'attrs'])
            if k in ('minor', 'major', 'access', 'this', 'super'):
                c[k] ^= r.choice([1, 0x80, 0x100, 0x8000])
                return c, k
            if k == 'magic':
                c[k] ^= 1 << r.randrange(32)
                return c, k
            l = c[k]
            if len(l) > 200:
                l = l[:]
                c[k] = l
            how = r.choice(['change', 'change', 'change', 'add', 'drop', 'swap'])
            if how == 'add' and len(l) < 30:
                l.insert(r.randrange(len(l) + 1), dict(pool=lambda: self.const(False), interfaces=lambda: self.num(16), fields=lambda: self.member(False), methods=lambda: self.member(False), attrs=lambda: self.attr(False))[k]())
                return c, k + ' ' + how
            if not l:
                continue
            j = r.randrange(len(l))
            if how == 'drop':
                del l[j]
                return c, k + ' ' + how
            if how == 'swap':
                m = r.randrange(len(l))
                if l[m] != l[j]:
                    l[m], l[j] = l[j], l[m]
                    return c, k + ' ' + how
                continue
            if how != 'change':
                continue
            if k == 'interfaces':
                l[j] ^= r.choice([1, 0x8000])
                return c, k
            l[j] = copy.deepcopy(l[j])
            if k == 'attrs':
                self.changeattr(l[j])
                return c, k
            if k in ('fields', 'methods'):
                if l[j][3] and r.random() < .5:
                    self.changeattr(r.choice(l[j][3]))
                else:
                    l[j][r.randrange(3)] ^= r.choice([1, 0x8000])
                return c, k
            t = l[j][0]
            if t == UTF8:
                s = bytearray(l[j][1])
                if s and r.random() < .7:
                    s[r.randrange(len(s))] ^= r.choice([1, 0x80])
                else:
                    if len(s) > 65000:
                        continue
                    s += b'\0'
                l[j][1] = bytes(s)
            elif r.random() < .25:
                # the same contents under another tag
                same = dict([(INTEGER, FLOAT), (FLOAT, INTEGER), (LONG, DOUBLE), (DOUBLE, LONG), (CLASS, STRING), (STRING, CLASS), (FIELD, METHOD), (METHOD, IMETHOD), (IMETHOD, NAT), (NAT, FIELD), (MTYPE, CLASS), (DYN, INDY), (INDY, FIELD), (MODULE, PACKAGE), (PACKAGE, STRING)])
                if t not in same:
                    continue
                l[j][0] = same[t]
            else:
                i = r.randrange(1, len(l[j]))
                bits = {INTEGER: 32, FLOAT: 32, LONG: 64, DOUBLE: 64}.get(t, 16)
                l[j][i] ^= 1 if t == HANDLE and i == 1 else 1 << r.randrange(bits)
            return c, '%s tag %d' % (k, t)
        c['minor'] ^= 1
        return c, 'minor'

    def changeattr(self, a):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            a[0] ^= r.choice([1, 0x8000])
        elif k == 1 or not a[1]:
            a[1] = a[1] + b'\0'
        else:
            j = r.randrange(len(a[1]))
            a[1] = a[1][:j] + bytes([a[1][j] ^ r.choice([1, 0x80])]) + a[1][j + 1:]


def attrs(l):
    return u2(len(l)) + b''.join(u2(n) + u4(len(b)) + b for n, b in l)


def encode(c):
    o = [u4(c['magic']), u2(c['minor']), u2(c['major']), u2(slots(c['pool']))]
    for k in c['pool']:
        o.append(u1(k[0]))
        if k[0] == UTF8: o += [u2(len(k[1])), k[1]]
        elif k[0] in (INTEGER, FLOAT): o.append(u4(k[1]))
        elif k[0] in TWO: o.append(u8(k[1]))
        elif k[0] == HANDLE: o += [u1(k[1]), u2(k[2])]
        else: o += [u2(v) for v in k[1:]]
    o += [u2(c['access']), u2(c['this']), u2(c['super']), u2(len(c['interfaces']))] + [u2(i) for i in c['interfaces']]
    for k in ('fields', 'methods'):
        o.append(u2(len(c[k])))
        for m in c[k]:
            o += [u2(m[0]), u2(m[1]), u2(m[2]), attrs(m[3])]
    o.append(attrs(c['attrs']))
    return b''.join(o)


def literal(b):
    """bytes as the text the test program reads: hex pairs and runs"""
    o, i = [], 0
    while i < len(b):
        # runs of up to 11 bytes that repeat
        best = None
        for p in (1, 2, 15, 16):
            w = b[i:i + p]
            if len(w) < p:
                continue
            n = 1
            while b[i + n * p:i + n * p + p] == w:
                n += 1
            if n * p > 60 and (best is None or n * p > best[0] * best[1]):
                best = (n, p)
        if best:
            n, p = best
            o.append('R%d,%s;' % (n, b[i:i + p].hex()))
            i += n * p
        else:
            o.append('%02x' % b[i])
            i += 1
    t = ''.join(o)
    return ' '.join('"%s"' % t[j:j + 900] for j in range(0, len(t), 900)) or '""'


MAIN = r'''
#include "pack_stl.h"
#include "javaClass.h"
#include "javaClass_serialisation.h"
#include "javaClass.cd"
#include "classdesc_epilogue.h"
#include <iostream>
#include <stdexcept>
using namespace classdesc;
typedef std::vector<unsigned char> Bytes;
int fails=0;
std::string piece;
void bad(const std::string& m) {std::cout<<piece<<": "<<m<<std::endl; fails++;}
int nib(char c) {return c<='9'? c-'0': c-'a'+10;}
Bytes bytes(const char* s)
{
  Bytes r;
  while (*s)
    if (*s=='R')
      {
        char* e; long n=strtol(s+1,&e,10); s=e+1;
        Bytes w; for (; *s!=';'; s+=2) w.push_back(nib(*s)*16+nib(s[1]));
        ++s;
        for (; n; --n) r.insert(r.end(),w.begin(),w.end());
      }
    else {r.push_back(nib(*s)*16+nib(s[1])); s+=2;}
  return r;
}
void put(pack_t& b, const Bytes& x) {if (x.size()) b.packraw((const char*)&x[0],x.size());}
void written(const ClassFile& f, const Bytes& x, const char* what)
{
  pack_t o; o<<f;
  if (o.size()!=x.size()) {std::ostringstream m; m<<what<<" is written as "<<o.size()<<" bytes instead of "<<x.size(); bad(m.str()); return;}
  for (size_t i=0; i<x.size(); ++i)
    if ((unsigned char)o.data()[i]!=x[i]) {std::ostringstream m; m<<what<<" is written with another byte at "<<i<<" of "<<x.size(); bad(m.str()); return;}
}
void read(ClassFile& f, const Bytes& x)
{
  unpack_t b; put(b,x); put(b,Bytes(3,0x5a));
  b>>f;
  if (b.pos()!=x.size()) {std::ostringstream m; m<<"reading takes "<<b.pos()<<" bytes of "<<x.size(); bad(m.str());}
}
ClassFile used;
void roundTrip(const Bytes& x, const Bytes& y, bool cut)
{
  try
    {
      ClassFile f, g, c, h;
      read(f,x); written(f,x,"the file");
      // into an object that held another file
      read(used,x); written(used,x,"the file read over another");
      if (!(f==used) || !(used==f)) bad("files read from the same bytes differ");
      g=f; ClassFile k(f);
      if (!(g==f) || !(k==f) || !(f==f)) bad("a copy differs");
      written(g,x,"a copy");
      read(h,y);
      if (f==h || h==f) bad("files which differ are equal");
      written(h,y,"the other file");
      read(h,x);
      if (!(f==h)) bad("files read from the same bytes differ after use");
      // files
      {pack_t o("x.class","w"); o<<f;}
      {unpack_t i("x.class","r"); ClassFile d; i>>d; if (!(d==f)) bad("file written to disk differs"); written(d,x,"the file from disk");}
    }
  catch (const std::exception& e) {bad(std::string("throws ")+e.what());}
  if (cut)
    for (size_t n=0; n<x.size(); n+=1+x.size()/97)
      {
        bool thrown=false;
        ClassFile f; unpack_t b; put(b,Bytes(x.begin(),x.begin()+n));
        try {b>>f;} catch (const std::exception&) {thrown=true;}
        if (!thrown) {std::ostringstream m; m<<"the first "<<n<<" bytes of "<<x.size()<<" are read as a file"; bad(m.str()); break;}
      }
}
'''


def describe(p):
    if 'name' in p:
        return p['name']
    c = p['c']
    return 'file of %d constants (tags %s), %d interfaces, %d fields, %d methods, %d attributes; other in %s' % (
        len(c['pool']), ','.join(map(str, sorted(set(k[0] for k in c['pool'])))), len(c['interfaces']), len(c['fields']), len(c['methods']), len(c['attrs']), p['place'])


def piece(g):
    """a file and another which differs from it"""
    c = g.file()
    while True:
        d, place = g.change(c)
        if encode(d) != encode(c) and slots(c['pool']) < 65536 and slots(d['pool']) < 65536:
            return dict(c=c, d=d, place=place)
        c = g.file()


def built(g):
    """a file built by the methods of the class; what it must contain"""
    r = g.r
    c = dict(magic=0, minor=0, major=0, pool=[], access=0, this=0, super=0, interfaces=[], fields=[], methods=[], attrs=[])
    code = []
    for i in range(r.randrange(1, 8)):
        k = r.choice(['method', 'method', 'const', 'native', 'interface', 'head', 'implements', 'field'])
        if k == 'method':
            n, d = r.choice(['run', '<init>', '', 'm%d' % i]), r.choice(['()V', '(II)J', ''])
            code.append('f.addMethod("%s","%s");' % (n, d))
            s = slots(c['pool'])
            c['pool'] += [[UTF8, n.encode()], [UTF8, d.encode()]]
            c['methods'].append([0, s, s + 1, []])
        elif k == 'const':
            t = r.choice([UTF8, INTEGER, FLOAT, CLASS, STRING, FIELD, METHOD, IMETHOD, NAT, LONG, DOUBLE])
            v = g.num(16)
            if t == UTF8:
                code.append('f.constant_pool.push_back(cp_info(JVM_CONSTANT_Utf8,std::string("x%d")));' % v)
                c['pool'].append([t, b'x%d' % v])
            elif t in (INTEGER, FLOAT):
                code.append('f.constant_pool.push_back(cp_info(%d,u4(%du)));' % (t, v * 65537))
                c['pool'].append([t, v * 65537])
            elif t in TWO:
                w = g.num(64)
                code.append('f.constant_pool.push_back(cp_info(%d,u8(%dull))); f.constant_pool.push_back(cp_info());' % (t, w))
                c['pool'].append([t, w])
            elif t in (CLASS, STRING):
                code.append('f.constant_pool.push_back(cp_info(%d,u2(%d)));' % (t, v))
                c['pool'].append([t, v])
            elif t == NAT:
                code.append('f.constant_pool.push_back(cp_info(%d,NameAndTypeInfo(u2(%d),u2(3))));' % (t, v))
                c['pool'].append([t, v, 3])
            else:
                code.append('f.constant_pool.push_back(cp_info(%d,Ref(u2(%d),u2(9))));' % (t, v))
                c['pool'].append([t, v, 9])
        elif k == 'native':
            code.append('f.makeNative();')
            c['access'] = 1
            for m in c['methods']:
                m[0] = 0x101
        elif k == 'interface':
            code.append('f.makeInterface();')
            c['access'] = 0x601
            for m in c['methods']:
                m[0] = 0x401
        elif k == 'head':
            v = [g.num(16) for i in range(3)]
            code.append('f.magic=0xCAFEBABEu; f.minor_version=%d; f.this_class=%d; f.super_class=%d;' % tuple(v))
            c['magic'], c['minor'], c['this'], c['super'] = 0xCAFEBABE, v[0], v[1], v[2]
        elif k == 'implements':
            v = g.num(16)
            code.append('f.interfaces.push_back(u2(%d));' % v)
            c['interfaces'].append(v)
        else:
            m = g.member(False)
            code.append('{field_info x; x.access_flags=%d; x.name_index=%d; x.descriptor_index=%d;' % tuple(m[:3]))
            for n, b in m[3]:
                code.append(' {attribute_info a; a.attribute_name_index=%d; Bytes t=bytes(%s); a.info.assign(t.begin(),t.end()); x.attributes.push_back(a);}' % (n, literal(b)))
            code.append(' f.fields.push_back(x);}')
            c['fields'].append(m)
    d, place = g.change(c)
    return dict(c=c, d=d, place=place, code=code)


def program(pieces, std, cxx='g++', asan=True):
    o = [MAIN, 'int main()', '{']
    for i, p in enumerate(pieces):
        o.append('  piece="%d";' % i)
        x, y = p['bytes'] if 'bytes' in p else (encode(p['c']), encode(p['d']))
        o.append('  {Bytes x=bytes(%s), y=bytes(%s); roundTrip(x,y,%s);' % (literal(x), literal(y), 'true' if len(x) < 4000 else 'false'))
        if 'code' in p:
            o.append('  {ClassFile f; %s written(f,x,"the file built");}' % ' '.join(p['code']))
        o.append('  }')
    o += ['  remove("x.class");', '  return fails>0;', '}', '']
    return dict(name='jclass', sources={'main.cc': '\n'.join(o)}, cds=[('javaClass.cd', ['-nodef', '-i', '@SRC@/javaClass.h', 'pack', 'unpack', 'dump'])], std=std, cxx=cxx, flags=['-fsanitize=undefined'], asan=asan, xdr=True)
