"""P19: private, omitted and excluded parts are never touched."""
import os, random, re
import clsgen, clscheck, exclude, layout, program
from driver import Violation, VERIF, sh, sha

LEVEL = 'exploration'
TECHNIQUE = 'random classes: what descriptors visit under -respect_private and omit pragmas against what the classes hold; serialised forms of classes with and without their excluded members; random operations on Exclude<T> and T side by side; insert-friend output against its input'
NOTE = ('Classes as in P17 with access labels, non-public bases, members and nested classes, compiled with access control in force, and with omit pragmas (in the header or the descriptor base file) for a random part of the classes, for which the programmer supplies the descriptor. '
        'Classes with a random part of their members in Exclude must serialise (binary, XML, JSON, dump, schema) as the same class without these, and leave these alone when read or randomly initialised. '
        'insert-friend must add nothing but CLASSDESC_ACCESS, and then descriptors must reach private members.')
RULE = 'a class with at least two things to visit; a class with both excluded and other members; a sequence of operations; a class with private members given to insert-friend; distinct by text'
ASSUMPTIONS = ['no arrays of Exclude', 'operations that Exclude provides: not stream output, switch, subscript of pointers, comparison by order', 'insert-friend: classes at namespace scope, no templates (documented as not fully reliable), no attributes']


def run(ctx):
    def batch(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][i % 4]
        overload = i % 3 == 2
        flags = ['-overload'] if overload else []
        kind = i // 4 % 4
        r = random.Random('p19/%d/%d' % (ctx.seed, i))
        g = clsgen.Gen('p19/%d/%d' % (ctx.seed, i), std != 'c++98', overload, respect=kind != 3)
        g.cxx17 = std == 'c++17'
        cs = [g.cls() for k in range(6)]
        if kind != 3:
            flags.append('-respect_private')
        if kind >= 2:
            for c in r.sample(cs, r.choice([1, 2, 3])):
                flags.append(r.choice(['-omit:', '-omitbase:']) + clsgen.fullname(c))
        clscheck.check(ctx, cs, std, flags, str(i))

    def excluded(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][i % 4]
        g = exclude.Gen('p19e/%d/%d' % (ctx.seed, i), std)
        pieces = [g.klass() for k in range(6)] + [g.ops() for k in range(10)]
        program.check(ctx, lambda ps: exclude.program(ps, std), pieces, 'x%d' % i)
        for p in pieces:
            if p['kind'] == 'ops':
                ctx.count('%s %s' % (p['t'], p['ops']), True, case='Exclude ops', sample='Exclude<%s>: %s' % (p['t'], ' '.join(p['ops'])), labels=['Exclude<%s>' % p['t']])
            else:
                ctx.count(repr(p['ms']), any(m[0] for m in p['ms']) and not all(m[0] for m in p['ms']), case='Exclude members', sample=repr([m[:3] for m in p['ms']]))

    def friend(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][i % 4]
        g = clsgen.Gen('p19f/%d/%d' % (ctx.seed, i), std != 'c++98')
        g.cxx17 = std == 'c++17'
        # descriptors cannot name the private classes of a class
        g.skip = {'p_nested', 'p_nested_template', 'p_enum'}
        cs = [c for c in (g.cls() for k in range(12)) if not c.templ and c.form in ('plain', 'final', 'nsjoined')]
        relayouted = i % 2 == 1
        friends(ctx, cs, std, relayouted, 'p19l/%d/%d' % (ctx.seed, i))
    only = os.environ.get('P19_ONLY', 'bef')
    ctx.pmap(lambda x: x[0](x[1]), ([(batch, i) for i in range(ctx.n(64, 1200))] if 'b' in only else []) + ([(excluded, i) for i in range(ctx.n(16, 200))] if 'e' in only else []) + ([(friend, i) for i in range(ctx.n(24, 300))] if 'f' in only else []))


PROBE = """#include "classdesc.h"
#include "visit_base.h"
#define CLASSDESC_ACCESS(type) template <class _CD_ARG_TYPE> friend struct classdesc::base_cast; friend struct classdesc_access::access_visit<type>
%s
#include "types.cd"
#include "classdesc_epilogue.h"
void probe(classdesc::visit_t& v)
{
%s}
"""
INSERTED = re.compile(r'\nCLASSDESC_ACCESS\([^\n]*\);\n')


def friends_wrong(ctx, text, probes, std):
    """what is wrong with the output of insert-friend for this header"""
    rc, o, e = sh([os.path.join(ctx.stage.dir, 'insert-friend')], input=text.encode('latin-1'), timeout=60, binary=True)
    o = o.decode('latin-1')
    if rc != 0:
        return 'insert-friend exits with %s' % rc
    t = INSERTED.sub('', o)
    if t != text:
        i = next((i for i in range(min(len(t), len(text))) if t[i] != text[i]), min(len(t), len(text)))
        return 'insert-friend changes "%s" to "%s"' % (text[max(0, i - 30):i + 30], t[max(0, i - 30):i + 30])
    d = os.path.join(ctx.work, 'f' + sha(text, std))
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'types.h'), 'wb').write(o.encode('latin-1'))
    main = PROBE % ('#include "types.h"', probes)
    open(os.path.join(d, 'main.cc'), 'w').write(main)
    rc, o, e = sh([os.path.join(ctx.stage.dir, 'classdesc'), '-nodef', '-i', 'types.h', 'visit'], cwd=d, timeout=60)
    open(os.path.join(d, 'types.cd'), 'w').write(o)
    cmd = ['g++', '-std=' + std, '-w', '-fsyntax-only', '-I.', '-I' + os.path.join(VERIF, 'lib'), '-I' + ctx.stage.dir] + (['-DTR1'] if std == 'c++98' else []) + ['main.cc']
    rc, o, e = sh(cmd, cwd=d, timeout=300)
    if rc == 0:
        return None
    if sh(cmd + ['-fno-access-control'], cwd=d, timeout=300)[0] == 0:
        return 'access is denied: ' + '|'.join(l for l in e.split('\n') if 'error' in l)[:300]
    ctx.ev['discards'] += 1     # P17's business
    return None


def friends(ctx, cs, std, relayouted, seed):
    def texts(cs):
        t = clsgen.HEADER + ''.join(clsgen.render(c) for c in cs)
        return layout.relayout(t, seed, .2) if relayouted else t
    probes = lambda cs: ''.join('  classdesc_access::access_visit< %s >()(v,"",*(%s*)0);\n' % (c.spelled(), c.spelled()) for c in cs)
    m = friends_wrong(ctx, texts(cs), probes(cs), std)
    if m:
        ctx.stop = True
        again = True
        while again:
            again = False
            for d in [cs[:i] + cs[i + 1:] for i in range(len(cs))] + ([[clsgen.copy(cs[0], parts=cs[0].parts[:i] + cs[0].parts[i + 1:])] for i in range(len(cs[0].parts))] if len(cs) == 1 else []):
                n = friends_wrong(ctx, texts(d), probes(d), std) if d else None
                if n:
                    cs, m, again = d, n, True
                    break
        raise Violation(m, dict(kind='friends', text=texts(cs), probes=probes(cs), std=std))
    for c in cs:
        vis = list(clsgen.visible(c))
        ctx.count(clsgen.render(c) + str(relayouted), any(a != 'public' and p.visits for p, a in vis), case='insert-friend', sample=' '.join(clsgen.render(c).split())[:200], labels=['insert-friend'])


def replay(ctx, rec):
    if rec['kind'] == 'friends':
        m = friends_wrong(ctx, rec['text'], rec['probes'], rec['std'])
        if m:
            raise Violation(m, rec)
        return
    (program if rec['kind'] == 'program' else clscheck).replay(ctx, rec)
