from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: random_init of generated classes from scripted sources of random numbers'
NOTE = ('Objects of random class families filled from scripted numbers in [0,1), extremes included: two objects with different contents must become equal, every enum must hold an enumerator, and every scalar member '
        'and container must follow the source; with ASan and UBSan for array bounds, bools, enums and conversions. The source the library comes with is run over an interposed rand().')
RULE = 'depends: more than 3 numbers drawn; varies: more than 3 members; source: rand() not 0; distinct by the choices drawn'
ASSUMPTIONS = ['types random_init supports: no tuples, no classes that hold themselves (known finding)', 'smart pointers from C++11 on: before that classdesc cannot tell what is default constructible']


def recursive(ctx):
    """a class with a smart pointer to itself"""
    return ctx.probe('recursive', r'''
#include "random_init_base.h"
struct A {int x; std::shared_ptr<A> next;};
namespace classdesc_access
{
  template <> struct access_random_init<A>
  {void operator()(classdesc::random_init_t& t, const classdesc::string& d, A& a);};
}
#include "classdesc_epilogue.h"
void classdesc_access::access_random_init<A>::operator()(classdesc::random_init_t& t, const classdesc::string& d, A& a)
{classdesc::random_init(t,d+".x",a.x); classdesc::random_init(t,d+".next",a.next);}
int main()
{
  classdesc::random_init_t t;
  A a;
  random_init(t,"",a);
  return 0;
}
''', asan=False, std='c++17')


KNOWN = {'recursive': recursive}


def run(ctx):
    jobs = []
    for i in range(ctx.n(3, 16)):
        for std in ('c++98', 'c++17'):
            onbase = i % 2 == 1
            o = dict(std=std, depth=2, nclasses=7, vector_bool=False, tuple=False, recursive=False, key_enum=False, keys=['char', 'int', 'unsigned', 'long', 'short', 'std::string', 'unsigned char', 'unsigned long long'], **({'ptrs': []} if std == 'c++98' else {}))
            jobs.append(family_job('p14_%s_%d' % (std[-2:], i), 'lib/h_random.cc', 'p14/%d/%d/%s' % (ctx.seed, i, std), Opts(**o), ['random_init'],
                                   [('depends', ctx.n(1000, 10000), 1), ('varies', ctx.n(100, 1500), 1), ('source', ctx.n(200, 2000), 1)] + [('owned', ctx.n(150, 2000), 1)] * (std != 'c++98'),
                                   cdopts=['-nodef', '-typeName'] + ['-onbase'] * onbase, dom=True,
                                   flags=['-DVERIF_ONBASE=0', '-fsanitize=bounds,float-cast-overflow,signed-integer-overflow', '-fno-sanitize-recover=all']))
    ctx.run_jobs(jobs)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
