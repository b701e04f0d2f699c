"""P22: polymorphic objects."""
import program, polygen

LEVEL = 'exploration'
TECHNIQUE = 'generated class hierarchies: factory, clone and round trips of polymorphic containers against the objects themselves'
NOTE = ('Random hierarchies in the styles of the examples (mixins over a virtual base, and layered templates) and of the older object.h and poly.h, some classes registered, some not, under type names, own strings or numbers, aliases included. '
        'Each object shows its dynamic type and fields by a virtual method; what comes out of the factory, clone, cloneT and the round trips must show the same, new and used targets alike. Under AddressSanitizer.')
RULE = 'a class with a base or of at least two fields; distinct by hierarchy'
ASSUMPTIONS = ['elements of containers are non-null in XML (nothing is written for null)', 'objects reached by shared pointers are not cyclic']
CONF = [('c++98', 'mixin'), ('c++11', 'layered'), ('c++17', 'mixin'), ('c++98', 'old'), ('c++98', 'layered'), ('c++20', 'mixin'), ('c++17', 'old'), ('c++17', 'layered')]


def run(ctx):
    def batch(i):
        std, style = CONF[i % len(CONF)]
        g = polygen.Gen('p22/%d/%d' % (ctx.seed, i), std, style)
        cs = [g.klass() for k in range(g.r.choice([3, 6, 8]))]
        desc = '-nodef -typeName' + (' -use_mbr_pointers' if g.r.random() < .3 else '')
        program.check(ctx, lambda ps: polygen.program(ps, g, cs, std, '%d/%d' % (ctx.seed, i), desc), cs, 'h%d' % i, describe=lambda ps: style + ': ' + '; '.join(polygen.describe(c) for c in ps))
        for c in cs:
            ctx.count('%s %s' % (style, polygen.describe(c)), bool(c['base'] or len(c['fields']) > 1), case='%s %s' % (std, style), sample=polygen.describe(c), labels=[style, 'derived' if c['base'] else 'first'])
    ctx.pmap(batch, list(range(ctx.n(16, 320))))
