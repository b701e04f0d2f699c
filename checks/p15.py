import enumgen
from driver import Job, Violation

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated enum declarations, their tables compared with the values the compiler gives, and random lookups and handle operations'
NOTE = ('Enums of all kinds (scoped, with underlying types, in namespaces and classes, with all forms of value expression, comments and trailing commas) go through classdesc; every table is compared entry by entry '
        'with one compiled from the declaration, and lookups, handles, iterators and streaming follow it. Enumerators outside int are a known finding.')
RULE = 'table: enum with more than one enumerator; lookup: more than one operation on such an enum; distinct by enum and operations'
ASSUMPTIONS = ['values lie in the range of int (known finding)', 'an unknown name has value 0 and an unknown value the empty name']


def wide(ctx):
    return ctx.probe('wide', r'''
#include "classdesc.h"
#include "types.h"
#include "types.cd"
#include "classdesc_epilogue.h"
int main()
{
  const classdesc::EnumKeys<E>& k=classdesc::enum_keys<E>();
  return !(k(std::string("big"))==big && k(std::string("zero"))==zero && k.size()==2);
}
''', sources={'types.h': 'enum E: unsigned long long {zero=0, big=0x100000000ULL};\n'}, std='c++17', cds=[('types.cd', ['-nodef', '-typeName', '-i', 'types.h'])])


def template(ctx):
    """an enum nested in a class template"""
    return compile_fails(ctx, 'template', 'template <class T> struct Q {enum E {a,b}; E e; T t;};\n')


def compile_fails(ctx, name, header):
    try:
        ctx.build(Job('probe_' + name, 'probe.cc', {'types.h': header, 'probe.cc': '#include "classdesc.h"\n#include "types.h"\n#include "types.cd"\n#include "classdesc_epilogue.h"\nint main() {}\n'},
                      [('types.cd', ['-nodef', '-typeName', '-i', 'types.h'])], std='c++17'))
    except Violation:
        return True
    return False


KNOWN = {'wide': wide, 'template': template}


def job(name, parts, std, cases):
    cxx11 = std != 'c++98'
    j = Job(name, 'lib/h_enum.cc', {'types.h': enumgen.header(parts, cxx11), 'table.h': enumgen.table(parts)},
            [('types.cd', ['-nodef', '-typeName', '-i', 'types.h'])], std=std, cases=cases, flags=['-fsanitize=undefined'] if False else [])
    j.reduce = (parts, lambda p: job(name + 'r', p, std, cases))
    return j


def run(ctx):
    jobs = []
    for i in range(ctx.n(8, 120)):
        std = ['c++98', 'c++17', 'c++11', 'c++17'][i % 4]
        g = enumgen.Gen('p15/%d/%d' % (ctx.seed, i), std != 'c++98')
        g.std17 = std == 'c++17'
        parts = [g.scope(k) for k in range(ctx.n(40, 60))]
        jobs.append(job('enum%d' % i, parts, std, [('table', ctx.n(400, 800), 1), ('lookup', ctx.n(4000, 30000), 1)]))
    ctx.run_jobs(jobs)
