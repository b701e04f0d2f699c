"""P17: generated descriptors visit every base and member exactly once, in declaration order."""
import os
import clsgen, clscheck
from clsgen import Cls
from clscheck import check, replay

LEVEL = 'exploration'
TECHNIQUE = 'random class definitions whose bases and members are known to the generator of the case; the generated descriptor of a recording descriptor must visit exactly these, in order'
NOTE = 'Random headers: classes, structs and unions with bases, members of every kind, methods, overloads, static members, nested classes and enums, templates and their specialisations, bit-field free layouts, in namespaces, with comments and attributes, written in varied style. A recording descriptor is generated for them and run; what it visits (names, types, order, base or member, array extents, static) is compared with what the generator of the case put in. C++98 to C++20.'
RULE = 'a class of which at least two bases or members have to be visited'
ASSUMPTIONS = ['public bases and members (others need -respect_private, see P19)', 'bit-fields, reference members, anonymous structs and arrays of function pointers are not supported by classdesc', 'pointers to functions are visited as methods', 'constructors, destructors, operators, friends, template and deleted methods are not visited; overloaded methods only with -overload', 'nested classes and enums of templates get no descriptor', 'headers are not preprocessed']


def run(ctx):
    def batch(i):
        std = ['c++98', 'c++11', 'c++17', 'c++17'][i % 4]
        overload = i % 3 == 2
        g = clsgen.Gen('p17/%d/%d' % (ctx.seed, i), std != 'c++98', overload)
        g.cxx17 = std == 'c++17'
        if os.environ.get('P17_ONLY'):
            cs = []
            for k in range(6):
                p = getattr(g, 'p_' + os.environ['P17_ONLY'])()
                c = Cls(g.nm('C'), parts=[p, g.p_scalar()])
                for q in c.parts:
                    q.text = q.text.replace('CLS_', c.name)
                cs.append(c)
        else:
            cs = [g.cls() for k in range(6)]
        check(ctx, cs, std, ['-overload'] if overload else [], str(i))
    ctx.pmap(batch, list(range(ctx.n(64, 1200))))
