"""Compiles generated classes with the recording descriptor and compares what it visits with what is there."""
import os
from driver import Job, Violation, CheckError, sh
import clsgen
from clsgen import Cls, Part, copy

HERE = os.path.dirname(os.path.abspath(__file__))

MAIN = '''#include <stdlib.h>
#include "types.h"
#include "visit_base.h"
#include "classdesc.h"
#include "types.cd"
#include "classdesc_epilogue.h"
int aFunction(int x) {return x;}
int aGlobal;
%s
template <class C> C& theObject() {static C o; return o;}
int main()
{
  int r=0;
%s  return r;
}
'''


def omitted(flags):
    return [f.split(':', 1)[1] for f in flags if f.startswith('-omit')]


def second(text):
    """another descriptor like visit"""
    i = text.index('namespace classdesc\n')
    import re
    text = re.sub(r'\b(access_)?visit(_t|_onbase)?\b', r'\1visit2\2', text[i:]).replace('compare(', 'compare2(').replace('vis::Mbr<C,M>::visit2', 'vis::Mbr<C,M>::visit')
    return '#ifndef VISIT2_BASE_H\n#define VISIT2_BASE_H\n#include "visit_base.h"\n' + text


def source(classes, flags=()):
    respect = '-respect_private' in flags
    omit = omitted(flags)
    defs = ''.join(clsgen.definitions(c) for c in classes)
    body = ''
    for c in classes:
        C = c.spelled()
        if clsgen.fullname(c) in omit:
            templ, qual = clsgen.qualified(c)
            # the programmer's own descriptor
            defs += 'namespace classdesc_access {\n%s struct access_visit< %s > {\n  template <class A> void operator()(classdesc::visit_t& t, const classdesc::string& d, A& a) {t.log.push_back(vis::Event(d,"omitted",vis::addr(a),0));}\n  template <class A> void type(classdesc::visit_t&, const classdesc::string&) {}\n};}\n' % (templ or 'template <>', '::'.join(('',) + tuple(c.ns)) + '::' + qual)
            body += '  {typedef %s CC; CC& o=theObject<CC >(); vis::Log e; e.push_back(vis::Event("","omitted",vis::addr(o),0)); r|=vis::compare("%s",o,e);}\n' % (C, C)
            continue
        body += '  {typedef %s CC; CC& o=theObject<CC >(); vis::Log e;\n%s  r|=vis::compare("%s",o,e);}\n' % (C, clsgen.expected(c, 'o', respect), C)
        for t, sp, a, m in c.sibs:
            N = '::' + '::'.join(c.ns + (c.name,)) + a
            body += '  {typedef %s CC; CC& o=theObject<CC >(); vis::Log e;\n%s  r|=vis::compare("%s",o,e);}\n' % (N, clsgen.visit(('member', m), N), N)
        for p, a in clsgen.visible(c):
            if a == 'public' and not c.templ:
                for n, visits in p.inner:
                    N = C + '::' + n
                    body += '  {typedef %s CC; CC& o=theObject<CC >(); vis::Log e;\n%s  r|=vis::compare("%s",o,e);}\n' % (N, ''.join(clsgen.visit(v, N) for v in visits), N)
    if '@two' in flags or '@separate' in flags:
        import re
        body = re.sub(r'r\|=vis::compare\(("[^"]*"),o,e\);', r'r|=vis::compare(\1,o,e)|vis::compare2(\1,o,e);', body)
    return MAIN % (defs, body)


def job(classes, std, flags, name='cls'):
    """flags are those of classdesc, and
       -omit:name, -omitbase:name   omit pragma within the header, or visit_base.h"""
    types = clsgen.HEADER + ''.join('#pragma omit visit %s\n' % f[6:] for f in flags if f.startswith('-omit:')) + ''.join(clsgen.render(c) for c in classes)
    srcs = {'main.cc': source(classes, flags), 'types.h': types}
    base = [f[10:] for f in flags if f.startswith('-omitbase:')]
    if base:
        srcs['visit_base.h'] = open(os.path.join(HERE, 'visit_base.h')).read() + ''.join('#pragma omit visit %s\n' % b for b in base)
    if any(f.startswith('@') for f in flags):
        return modejob(classes, std, flags, name, srcs)
    args = ['-nodef'] + (['-I', '.'] if base else []) + [f for f in flags if not f.startswith('-omit')] + ['-i', 'types.h', 'visit']
    return Job(name, 'main.cc', srcs, [('types.cd', args)], std=std, asan=False, opt='-O0', xdr=False, flags=access(flags) + ['-w'])


def modejob(classes, std, flags, name, srcs):
    """the other ways of running classdesc: @stdin, @pipe, @def (no -nodef), @two (descriptors at once), @separate (two runs), @workdir"""
    srcs['visit2_base.h'] = second(open(os.path.join(HERE, 'visit_base.h')).read())
    opts = [f for f in flags if not f.startswith('@')] + ['-nodef'] * ('@def' not in flags)
    inp = ['@stdin:types.h'] if '@stdin' in flags else ['@pipe:types.h'] if '@pipe' in flags else ['-i', 'types.h']
    cdflags = ['-DVIS_MBR'] * ('-use_mbr_pointers' in flags) + ['-DVIS_ONBASE'] * ('-onbase' in flags) + ['-w']
    # everything before the descriptors, for use by the library
    guarded = lambda n, t: '#ifndef %s\n#define %s\n%s#endif\n' % (n, n, t)
    main = srcs['main.cc']
    head, rest = main.split('#include "types.cd"\n')
    cdinc = ''
    cds = []
    wd = '@workdir' in flags
    runs = [['visit', 'visit2']] if '@two' in flags else [['visit'], ['visit2']] if '@separate' in flags else [['visit']]
    for k, r in enumerate(runs):
        cds.append(('types%d.cd' % k, ['@mkdir:work', '-workdir', 'work', '-include', 'all.h'] * wd + opts + inp + r))
        cdinc += '#include "types%d.cd"\n' % k
    srcs['all.h'] = guarded('ALL_H', head + '#include "visit2_base.h"\n' + cdinc)
    srcs['main.cc'] = '#include "all.h"\n' + rest
    return Job(name, 'main.cc', srcs, cds, std=std, asan=False, opt='-O0', xdr=False, flags=access(flags) + cdflags + ['-Wl,-z,muldefs'] * wd, glob='work/*.cc' if wd else '')


def access(flags):
    return [] if '-respect_private' in flags else ['-fno-access-control']


def valid(ctx, classes, std, flags):
    """whether the classes compile without any descriptors"""
    j = job(classes, std, [])
    text = j.sources['types.h'] + ''.join(clsgen.definitions(c) for c in classes)
    rc, o, e = sh(['g++', '-std=' + std, '-w', '-fsyntax-only'] + access(flags) + ['-x', 'c++', '-'], input=text, timeout=120)
    if rc:
        ctx.ev['discards'] += 1
    return rc == 0


def attempt(ctx, classes, std, flags, tag):
    """message of what is wrong, if anything"""
    try:
        exe = ctx.build(job(classes, std, flags, 'cls' + tag))
    except Violation as v:
        return v.message if valid(ctx, classes, std, flags) else None
    rc, o, e = sh([exe], timeout=60)
    if rc == 0:
        return None
    return (o.strip().split('\n')[0] if o.strip() else 'status %d %s' % (rc, e[-200:]))


def dump(classes):
    return [dict(vars(c), parts=[vars(p) for p in c.parts]) for c in classes]


def load(js):
    res = []
    for d in js:
        d = dict(d)
        parts = []
        for p in d.pop('parts'):
            q = Part('')
            q.__dict__.update(p)
            q.visits = [tuple(v) for v in q.visits]
            parts.append(q)
        c = Cls('')
        c.__dict__.update(d)
        c.ns = tuple(c.ns)
        c.sibs = [tuple(x) for x in c.sibs]
        c.parts = parts
        res.append(c)
    return res


def shrink(ctx, classes, std, flags, budget=60):
    import time
    t0 = time.time()
    msg = attempt(ctx, classes, std, flags, 'shr')
    if not msg:
        return None

    def cands(cs):
        if len(cs) > 1:
            h = len(cs) // 2
            yield cs[:h]
            yield cs[h:]
            for i in range(len(cs)):
                yield cs[:i] + cs[i + 1:]
            return
        c = cs[0]
        for i in range(len(c.sibs)):
            yield [copy(c, sibs=c.sibs[:i] + c.sibs[i + 1:])]
        n = len(c.parts)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield [copy(c, parts=c.parts[:i] + c.parts[i + k:])]
            k //= 2
        if c.bases:
            yield [copy(c, bases=[], basetext='', baseacc=[])]
        if c.ns:
            yield [copy(c, ns=())]
        if c.key == 'class':
            yield [copy(c, key='struct')]
    import concurrent.futures as cf
    again = True
    while again and time.time() - t0 < budget:
        again = False
        lst = list(cands(classes))
        for i in range(0, len(lst), 8):
            with cf.ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda x: attempt(ctx, x[1], std, flags, 'shr%d' % x[0]), enumerate(lst[i:i + 8])))
            hit = [k for k, m in enumerate(rs) if m and similar(m, msg)]
            if hit:
                classes, msg, again = lst[i + hit[0]], rs[hit[0]], True
                break
    return classes, msg


def similar(m, n):
    # a removed declaration leaves its uses behind: do not take that for the failure
    undeclared = lambda x: 'not declared' in x or 'has no member' in x or 'does not name a type' in x or 'does not have any field' in x or 'is not a member' in x or 'no matching function for call to' in x
    return undeclared(m) == undeclared(n)


def check(ctx, classes, std, flags, tag):
    m = attempt(ctx, classes, std, flags, tag)
    if m:
        ctx.stop = True
        s = shrink(ctx, classes, std, flags)
        if s:
            classes, m = s
        text = ''.join(clsgen.render(c) for c in classes)
        raise Violation('%s (%s %s) %s' % (m, std, ' '.join(flags), ' '.join(text.split())[:400]), dict(kind='classes', std=std, flags=flags, classes=dump(classes), text=text))
    for c in classes:
        n = sum(len(p.visits) for p in c.parts) + len(c.bases)
        ctx.count(clsgen.render(c), n >= 2, case=std, sample=' '.join(clsgen.render(c).split())[:300], labels=set([p.label for p in c.parts] + (['template'] if c.templ else []) + ['namespace'] * len(c.ns) + (['bases'] if c.bases else []) + ['form ' + c.form] + [f.split(":")[0] for f in flags]))


def replay(ctx, rec):
    m = attempt(ctx, load(rec['classes']), rec['std'], rec['flags'], 'replay')
    if m:
        raise Violation(m, rec)
