from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: metamorphic relations (dirty versus fresh target, repeated packing) and order laws over generated objects'
NOTE = ('Random class families as for P01, without unordered containers (the order of their elements is not part of their value). '
        'Order laws are checked on all pairs and triples of small sets of objects, equal ones and ones of equal packed length included.')
RULE = ('replace: one object packed and unpacked into a fresh and a used object, non-trivial = more than 16 bytes; '
        'order: 2-4 objects of a type compared pairwise, non-trivial = a pair of unequal objects with encodings of equal length')
ASSUMPTIONS = ['no long double members (known finding padding-longdouble)', 'objects compared for order hold no NaN and no negative zero']


LEAVES = [x for x in Opts().leaves if x != 'long double']


def padding(ctx):
    return ctx.probe('padding', r'''
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include <cstring>
int main()
{
  long double a, b;
  memset((void*)&a,0x55,sizeof(a)); memset((void*)&b,0xaa,sizeof(b));
  volatile long double one=1;
  a=one; b=one;
  return classdesc::deepEq(a,b)? 0: 1;
}
''', opt='-O0')


KNOWN = {'padding-longdouble': padding}


def run(ctx):
    jobs = []
    nf = ctx.n(4, 20)
    for i in range(nf):
        cases = [('replace', ctx.n(1200, 20000), ctx.n(1, 2)), ('order', ctx.n(1200, 20000), ctx.n(1, 2))]
        jobs.append(family_job('a98_%d' % i, 'lib/h_pack.cc', 'p02/%d/%d' % (ctx.seed, i), Opts(depth=2, leaves=LEAVES), ['pack', 'unpack'], cases))
        jobs.append(family_job('a17_%d' % i, 'lib/h_pack.cc', 'p02/17/%d/%d' % (ctx.seed, i), Opts(std='c++17', leaves=LEAVES), ['pack', 'unpack'], cases))
    ctx.run_jobs(jobs)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
