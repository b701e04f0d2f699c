from driver import Job

LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing: random histories of REST commands against a plain model of the object'
NOTE = ('Random histories of commands (read, set, set some members, call methods with and without arguments, overloaded, inherited, virtual, static, free, behind references, constant references and values returned; '
        'every container command, nested to any depth; present and missing elements; null pointers; unknown paths; wrong types; constants; objects made by factories) on described objects, as one path, in two steps through the object returned half way, '
        'or through the container interface of that object; after each the result is compared with what a plain copy of the object gives when the C++ operation is done on it, and every member of the object with that copy. Under AddressSanitizer. '
        'json5_parser is a stand-in.')
RULE = 'history: more than 2 commands that do not throw; factory: more than one change to an object made; distinct by the choices drawn'
ASSUMPTIONS = ['multimap and multiset members do not compile with RESTProcess, and are not covered',
               'elements of maps are presented by value when the path ends there (@elem.KEY); paths that go on beyond it act on the element',
               'arrays of two dimensions are presented with the first dimension varying fastest, as RESTProcessExpected.txt records',
               'arguments that do not convert may throw after part of the conversion is done; only wrong types for single values are generated',
               'the arguments of a function are given also to the path that goes on beyond it, so only functions without arguments are continued']


def run(ctx):
    src = {f: open('/verif/lib/' + f).read() for f in ('rest_types.h',)}
    jobs = []
    for name, std, opts in (('rest17', 'c++17', []), ('rest20', 'c++20', ['-use_mbr_pointers'])):
        cds = [('json.cd', ['-nodef', '-typeName', '-use_mbr_pointers', '-respect_private', '-i', 'rest_types.h', 'json_pack', 'json_unpack']),
               ('rest.cd', ['-nodef', '-onbase', '-overload', '-respect_private'] + opts + ['-i', 'rest_types.h', 'RESTProcess'])]
        jobs.append(Job(name, 'lib/h_rest.cc', sources=src, cds=cds, std=std, cases=[('history', ctx.n(4000, 150000), 4), ('factory', ctx.n(300, 6000), 1)], compile_timeout=900, opt='-O0'))
    ctx.run_jobs(jobs)
