"""P27: Java class files."""
import glob, os, shutil, tempfile
import program, jclass
from driver import CheckError, sh

LEVEL = 'exploration'
TECHNIQUE = 'generated class files encoded by an independent writer, and classes compiled by javac: read, written back, compared byte by byte; pairs that differ in one place'
NOTE = ('Random class files with every kind of constant, numbers at the limits, texts of up to 65535 bytes, attributes beyond 65535 bytes, up to 65535 constants and interfaces; each read into a new and a used object, written back, copied and compared with a file that differs in one place; '
        'files cut short must be rejected; files built by addMethod, makeNative, makeInterface and push_back have the bytes of the model. javac compiles random classes for the same test. Under UBSan and, but for the large files (a buffer grows by a byte at a time), AddressSanitizer.')
RULE = 'a file of at least three constants and one field, method or attribute; distinct by its bytes'
ASSUMPTIONS = ['class file format up to Java 17', 'counts fit the 16 bits of the format']
CONF = ['c++98', 'c++11', 'c++17', 'c++20', 'c++14']


def java(g, i):
    """a random class"""
    r = g.r
    n = 'J%d' % i
    o = ['import java.util.*;', '@FunctionalInterface interface F%d {long f(int a, double b);}' % i, 'public class %s %s {' % (n, r.choice(['', 'implements Runnable, Cloneable', 'extends ArrayList<String>']))]
    if 'Runnable' in o[-1]:
        o.append('  public void run() {System.out.println("run"+x0);}')
    o.append('  int x0=%d;' % g.num(31))
    for k in range(r.randrange(1, 9)):
        o.append('  ' + r.choice(['static final long l%d=%dL;' % (k, g.num(62)), 'public double d%d=%d.5e%d;' % (k, g.num(20), r.randrange(100)), 'private final String s%d="t\\u00e9xt\\u0000 %d \\ud835\\udd1e";' % (k, k),
                                  'enum E%d {A,B,C%d}' % (k, k), 'float f%d(long a, int... b) {return a*1.25f+b.length;}' % k, 'String c%d(Object o, long v) {return "a"+o+v+1e300;}' % k,
                                  'F%d g%d() {return (a,b)->a+(long)b+%dL;}' % (i, k, g.num(40)), 'int sw%d(String s) {switch (s) {case "one": return 1; case "two": return 2; default: return %d;}}' % (k, k),
                                  'class In%d<T extends Comparable<T>> {T t; void m() throws Exception {try {throw new Exception("e");} finally {x0++;}}}' % k, 'static native void n%d(long[][] a);' % k,
                                  'record R%d(int a, String b) {}' % k, '@Deprecated synchronized void y%d() {synchronized(this) {for (int i=0; i<1000000; ++i) x0+=i;}}' % k]))
    o.append('}')
    return n, '\n'.join(o) + '\n'


def compiled(ctx, n):
    g = jclass.Gen('p27java/%d' % ctx.seed)
    d = tempfile.mkdtemp()
    try:
        names = []
        for i in range(n):
            m, t = java(g, i)
            names.append(m + '.java')
            open(os.path.join(d, m + '.java'), 'w').write(t)
        rc, o, e = sh(['javac', '-encoding', 'UTF-8', '-g'] + names, cwd=d, timeout=200)
        if rc != 0:
            raise CheckError('javac: ' + (o + e)[-500:])
        r = []
        for f in sorted(glob.glob(os.path.join(d, '*.class'))):
            r.append((os.path.basename(f), open(f, 'rb').read()))
        return [dict(name=a[0], bytes=(a[1], b[1])) for a, b in zip(r, r[1:] + r[:1]) if a[1] != b[1]]
    finally:
        shutil.rmtree(d)


def run(ctx):
    def batch(i):
        std = CONF[i % len(CONF)]
        if i == 0:
            ps = compiled(ctx, ctx.n(12, 300))
            for p in ps:
                ctx.count(p['bytes'][0].hex()[:5000], True, case='javac', sample=p['name'], labels=['javac'])
        else:
            g = jclass.Gen('p27/%d/%d' % (ctx.seed, i), i % 4 == 1)
            ps = [jclass.built(g) if k % 5 == 4 else jclass.piece(g) for k in range(40)]
            for p in ps:
                c = p['c']
                ctx.count(jclass.encode(c).hex()[:5000], len(c['pool']) > 2 and bool(c['fields'] or c['methods'] or c['attrs']), case=std, sample=jclass.describe(p), labels=['built' if 'code' in p else 'file', 'differs in ' + p['place']])
        program.check(ctx, lambda q: jclass.program(q, std, 'clang++' if i % 4 == 3 else 'g++', i % 4 != 1), ps, 'j%d' % i, describe=lambda q: '; '.join(jclass.describe(p) for p in q))
    ctx.pmap(batch, list(range(ctx.n(17, 340))))
