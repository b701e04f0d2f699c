"""P29: type traits."""
import program, traits

LEVEL = 'exploration'
TECHNIQUE = 'generated types of known nature; every trait against what the generator built'
NOTE = ('Random types - fundamental, enumerations, classes with bases, virtual, abstract, not copyable, unions, pointers, arrays, functions, member pointers, containers, strings, smart pointers, nested and const - whose nature the generator knows because it declared them. '
        'Also base-of, convertible and same over all pairs of classes, the boolean combinations, and resize, push_back and keyOf. From C++98 to C++20, g++ and clang.')
RULE = 'a class, container, smart pointer, enumeration, or type built of another; distinct by type'
ASSUMPTIONS = ['in C++98 is_default_constructible and the like are conservative as documented', 'no volatile types; unique_ptr with the default deleter', 'is_pair and is_tuple are asked of non-const types only']
CONF = [('c++98', 'g++'), ('c++11', 'g++'), ('c++17', 'clang++'), ('c++20', 'g++'), ('c++14', 'clang++'), ('c++98', 'clang++'), ('c++17', 'g++'), ('c++20', 'clang++')]


def run(ctx):
    def batch(i):
        std, cxx = CONF[i % len(CONF)]
        g = traits.Gen('p29/%d/%d' % (ctx.seed, i), std)
        ts = list(enumerate(g.type() for k in range(120)))
        program.check(ctx, lambda ps: traits.program(ps, g, std, cxx), ts, 't%d' % i, describe=lambda ps: '; '.join(traits.describe(p) for p in ps))
        for p in ts:
            ctx.count(p[1].text, p[1].kind not in ('fund', 'void'), case='%s %s' % (std, cxx), sample=p[1].text, labels=[p[1].kind] + [a for a in ('sequence', 'assoc', 'string', 'smart', 'pair', 'tuple') if p[1].f.get(a)])
    ctx.pmap(batch, list(range(ctx.n(24, 480))))
