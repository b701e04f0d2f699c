from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: dump of generated classes and values against a model of its lines'
NOTE = ('The dump of random values of random class families is read along with a tree of what it should show, computed without classdesc: names, indentation, order, every value by its exact text, '
        'and nothing else but balanced braces; the object must be unchanged.')
RULE = 'dump naming more than 4 members, bases or elements; distinct by the choices drawn'
ASSUMPTIONS = ['types dump supports: no tuples, no sets of pairs', 'public members (dump has no access grant)']


def run(ctx):
    jobs = []
    for i in range(ctx.n(3, 16)):
        for std in ('c++98', 'c++17'):
            onbase = i % 2 == 1
            o = dict(std=std, depth=2, nclasses=7, vector_bool=False, private=False, key_pair=False, tuple=False, unordered=i % 2 == 0, ptrs=['classdesc::shared_ptr'])
            jobs.append(family_job('p13_%s_%d' % (std[-2:], i), 'lib/h_dump.cc', 'p13/%d/%d/%s' % (ctx.seed, i, std), Opts(**o), ['dump'],
                                   [('dumps', ctx.n(800, 10000), 1)],
                                   cdopts=['-nodef', '-typeName'] + ['-onbase'] * onbase, dom=True, flags=['-DVERIF_ONBASE=1']))
    ctx.run_jobs(jobs)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
