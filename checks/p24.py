from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated class families and values, JSON round trip and layout against an independent model'
NOTE = 'Random class families in C++17 and C++20, with base classes inlined or as objects of their own; JSON compared value by value with a tree emitted by the type generator, transported as a value or as text in each of the ways offered, under a name or at the top, several objects in one; members left out, unknown names added, numbers turned into null, values replaced by others and arrays cut; string keyed maps with keys of any kind; members with stream operators, of JSON type, functions; polymorphic pointers. Under AddressSanitizer. The json5_parser submodule is not in this checkout: a stand-in with its interface (lib/json5stub) is trusted.'
RULE = 'roundtrip, wellformed: more than 4 values; layout: more than 3 values and at least one change of the names; missing: more than one candidate; damaged: more than 20 bytes of JSON; keymaps: more than one key; poly: an object that holds another; members, nowhere: all; distinct by the choices drawn'
ASSUMPTIONS = ['the reader and writer of JSON text is a stand-in, so text level behaviour of json5_parser is not judged', 'no long double, no vector<bool>, no wide characters', 'smart pointers do not point to objects whose JSON is an empty object (which stands for null)', 'names of objects do not hold dots, which separate components (keys of StringKeyMap may)']

CASES = [('roundtrip', 1500, 20000), ('several', 300, 4000), ('wellformed', 800, 10000), ('layout', 1500, 20000), ('missing', 500, 6000), ('damaged', 1500, 20000), ('keymaps', 400, 6000),
         ('members', 300, 4000), ('nowhere', 200, 2000), ('poly', 400, 6000)]


def run(ctx):
    jobs = []
    for i in range(ctx.n(4, 20)):
        onbase = i % 2 == 1
        unordered = i % 4 in (0, 3)     # whose order the layout case cannot foresee
        std = ['c++17', 'c++20', 'c++17'][i % 3]
        leaves = [l for l in Opts().leaves if l != 'long double']
        o = dict(std=std, depth=2, nclasses=7, vector_bool=False, leaves=leaves, unordered=unordered, fixed=.08)
        j = family_job('p24_%d' % i, 'lib/h_json.cc', 'p24/%d/%d' % (ctx.seed, i), Opts(**o), ['json_pack', 'json_unpack', 'xml_pack', 'xml_unpack'],
                               [(c, ctx.n(q, t), 2) for c, q, t in CASES if not unordered or c != 'layout'],
                               cdopts=['-nodef', '-typeName'] + ['-onbase'] * onbase, dom=True, flags=['-DVERIF_ONBASE=%d' % onbase])
        j.sources['json_extra.h'], j.sources['stream_type.h'] = [open('/verif/lib/' + f).read() for f in ('json_extra.h', 'stream_type.h')]
        j.cds.append(('extra.cd', ['-nodef', '-typeName', '-i', 'json_extra.h', 'json_pack', 'json_unpack']))
        jobs.append(j)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
    ctx.run_jobs(jobs)
