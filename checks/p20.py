"""P20: all ways of running classdesc give equivalent descriptors."""
import os, random
import clsgen, clscheck, program, statics
from clscheck import check
from driver import CheckError, Job, Violation, run_classdesc
from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'differential testing of the modes of classdesc: random classes, run through random combinations of input, library, member pointer, base class and descriptor options, must visit what the generator of the case says'
NOTE = 'Each case draws classes (as P17) and a combination of options: input from a file, standard input or a pipe, -workdir, dummy definitions or none, -typeName, -onbase, -use_mbr_pointers, -overload, one or two descriptors, together or separately; the recorded visits must be those of the plain mode. Classes with static data members go through binary, XML and schema descriptors in plain and member pointer mode.'
RULE = 'a class with at least two bases or members to visit, described in a mode other than the plain one'
ASSUMPTIONS = ['under -use_mbr_pointers static constants arrive as pointers, so need definitions', 'dump does not support member pointers', 'a -workdir directory is used for one header and empty before', 'two .cd files with dummy definitions are not combined']


def modes(r, i):
    f = [r.choice(['@stdin', '@pipe', '@file'])]
    if i % 2:
        f.append('@workdir')
    for m, p in (('-use_mbr_pointers', .5), ('-onbase', .4), ('-typeName', .3), ('@def', .4), ('-overload', .25)):
        if r.random() < p:
            f.append(m)
    f += r.choice([[], ['@two'], ['@separate']])
    if '@separate' in f and '@def' in f:
        f.remove('@def')       # both would have the dummy definitions
    return f


def declared(r):
    """headers of classes of which some are only declared; classdesc is to define those"""
    cnt, out = [0], []
    decl, defd = {}, {}       # qualified name to identity

    def scope(ns, cls, depth, ind):
        """statements of a namespace or class body; known: simple names declared in the scope itself"""
        s = ''
        here, used = [], set()
        for k in range(r.randint(1, 4)):
            x = r.random()
            q = ns + cls
            if x < .25 and depth < 3 and not cls:
                n = 'N%d' % cnt[0]
                cnt[0] += 1
                s += ind + 'namespace %s {\n' % n + scope(q + [n], [], depth + 1, ind + '  ') + ind + '}\n'
            elif x < .5:
                # a declaration
                if here and r.random() < .3:
                    n = r.choice(here)
                elif r.random() < .3 and 'S' not in cls and 'S' not in used:
                    n = 'S'      # the same name in several scopes
                    here.append(n)
                else:
                    n = 'D%d' % cnt[0]
                    cnt[0] += 1
                    here.append(n)
                s += ind + '%s %s;\n' % (r.choice(['struct', 'class']), n)
                decl['::'.join(q + [n])] = 1
            elif x < .8 and depth < 4:
                # a definition, perhaps of something declared
                c = [n for n in here if '::'.join(q + [n]) not in defd]
                if c and r.random() < .6:
                    n = r.choice(c)
                elif 'S' not in here and 'S' not in cls and 'S' not in used and r.random() < .3:
                    n = 'S'
                    here.append(n)
                else:
                    n = 'C%d' % cnt[0]
                    cnt[0] += 1
                    here.append(n)
                decl['::'.join(q + [n])] = 1
                defd['::'.join(q + [n])] = 1
                s += ind + '%s %s {%s\n' % (r.choice(['struct', 'class']), n, 'public:') + ind + '  int mark;\n' + scope(ns, cls + [n], depth + 1, ind + '  ') + ind + '};\n'
                if r.random() < .3 and not cls:
                    s += ind + 'extern struct %s x%d;\n' % (n, cnt[0])
                    cnt[0] += 1
            else:
                # a pointer to something that is in scope, by an elaborated type specifier
                vis = [d for d in decl if d.count('::') == 0 or any(q[:j] == d.split('::')[:-1] for j in range(len(q) + 1))]
                if vis:
                    d = r.choice(sorted(vis))
                    n = d.split('::')[-1]
                    used.add(n)
                    # the innermost that is visible is the one meant
                    s += ind + '%s %s* p%d;\n' % ('extern struct' if not cls else 'struct', n, cnt[0])
                    cnt[0] += 1
        return s
    text = scope([], [], 0, '')
    return text, decl, defd


def declspec(text, decl, defd):
    main = '#include "types.h"\n#include "pack_base.h"\n#include "types.cd"\n#include "classdesc_epilogue.h"\nint main()\n{\n'
    for d in sorted(decl):
        main += '  {typedef char complete[sizeof(::%s)]; %s}\n' % (d, 'int ::%s::*p=&::%s::mark; (void)p;' % (d, d) if d in defd else '')
    return dict(name='decl', sources={'main.cc': main + '  return 0;\n}\n', 'types.h': text}, cds=[('types.cd', ['-i', 'types.h', 'pack'])], std='c++98', asan=False, xdr=True)


def declarations(ctx, i):
    r = random.Random('p20d/%d/%d' % (ctx.seed, i))
    specs, texts = [], []
    for k in range(12):
        text, decl, defd = declared(r)
        texts.append((text, decl, defd))
    # in one program, each in a namespace of its own: but the global namespace is worth a test too
    for k, (text, decl, defd) in enumerate(texts[:1]):
        specs.append((text, decl, defd))
    t, dc, df = '', {}, {}
    for k, (text, decl, defd) in enumerate(texts[1:]):
        t += 'namespace G%d {\n%s}\n' % (k, text)
        dc.update(('G%d::%s' % (k, d), 1) for d in decl)
        df.update(('G%d::%s' % (k, d), 1) for d in defd)
    specs.append((t, dc, df))
    for k, (text, decl, defd) in enumerate(specs):
        spec = declspec(text, decl, defd)
        m = program.attempt(ctx, spec, 'd%d_%d' % (i, k))
        if m:
            raise Violation('%s in %s' % (m, text[:1500]), dict(kind='program', spec=spec))
    for text, decl, defd in texts:
        ctx.count(text, len(decl) > len(defd) > 0, case='declared', sample=' '.join(text.split())[:300], labels=['declared'])


def statical(ctx, i):
    std = ['c++98', 'c++17', 'c++11'][i % 3]
    xsd = i % 2 == 0
    g = statics.Gen('p20s/%d/%d' % (ctx.seed, i), std, xsd)
    cs = [g.cls() for k in range(8)]
    flags = ['-onbase'] if g.r.random() < .3 else []
    program.check(ctx, lambda ps: statics.program(ps, std, flags, xsd), cs, 's%d' % i, describe=lambda ps: '; '.join(statics.describe(c) for c in ps))
    for c in cs:
        ctx.count(statics.describe(c), len(c['members']) > 1, case='statics', sample=statics.describe(c), labels=['statics'])


def run(ctx):
    # what is serialised through member pointers
    jobs = []
    for i in range(ctx.n(2, 10)):
        std = ['c++98', 'c++17'][i % 2]
        cd = ['-nodef', '-typeName', '-use_mbr_pointers'] + ['-onbase'] * (i % 4 < 2)
        jobs.append(family_job('mp%s_%d' % (std[-2:], i), 'lib/h_pack.cc', 'p20/p/%d/%d' % (ctx.seed, i), Opts(std=std), ['pack', 'unpack'], [('stream', ctx.n(1500, 20000), 2)], cdopts=cd))
        cd = ['-nodef', '-typeName', '-use_mbr_pointers'] + ['-onbase'] * (i % 2)
        o = Opts(std=std, depth=2, nclasses=7, vector_bool=False)
        jobs.append(family_job('mx%s_%d' % (std[-2:], i), 'lib/h_xml.cc', 'p20/x/%d/%d' % (ctx.seed, i), o, ['xml_pack', 'xml_unpack'], [('layout', ctx.n(400, 10000), 1), ('roundtrip', ctx.n(400, 10000), 1)],
                               cdopts=cd, dom=True, flags=['-DVERIF_ONBASE=%d' % (i % 2)], libs=['-lexpat']))
    ctx.run_jobs(jobs)

    def batch(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][(i // 2) % 4]
        r = random.Random('p20m/%d/%d' % (ctx.seed, i))
        flags = modes(r, i)
        g = clsgen.Gen('p20/%d/%d' % (ctx.seed, i), std != 'c++98', '-overload' in flags)
        g.cxx17 = std == 'c++17'
        check(ctx, [g.cls() for k in range(5)], std, flags, str(i))
    ctx.pmap(lambda i: statical(ctx, i - 10**6) if i >= 10**6 else batch(i) if i >= 0 else declarations(ctx, -i), list(range(-ctx.n(4, 60), 0)) + list(range(10**6, 10**6 + ctx.n(4, 60))) + list(range(ctx.n(48, 800))))


def replay(ctx, rec):
    (program if rec['kind'] == 'program' else clscheck).replay(ctx, rec)
