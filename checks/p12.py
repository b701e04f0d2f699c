from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated classes and documents against libxml2\'s schema processor, with mutated documents'
NOTE = ('The schema of every class of random families must be a valid XML Schema and the same whatever the value it is generated from; every document xml_pack writes must validate, '
        'and documents with an element removed, repeated, renamed or of the wrong simple type must not. Trusts libxml2.')
RULE = 'schema: more than 600 characters; accepts, rejects: documents of more than 3 elements; distinct by the choices drawn'
ASSUMPTIONS = ['single inheritance (xsd_generate refuses more)', 'no long double (XML Schema has no such type)', 'smart pointers (C++11 on: before that classdesc cannot tell what is default constructible) are not elements of containers or arrays', 'as P08']


def ptrelem(ctx):
    """a container of smart pointers: the type of its elements has to be defined"""
    return ctx.probe('ptrelem', r'''
#include "xsd_generate_base.h"
#include "classdesc_epilogue.h"
#include <iostream>
struct A {std::vector<std::shared_ptr<int> > x;};
namespace classdesc {template <> inline std::string typeName<A>() {return "A";}}
namespace classdesc_access
{
  template <> struct access_xsd_generate<A>
  {void operator()(classdesc::xsd_generate_t& t, const classdesc::string& d, A& a) {classdesc::xsd_generate(t,d+".x",a.x);}};
}
int main()
{
  classdesc::xsd_generate_t t;
  A a;
  classdesc::xsd_generate(t,"a",a);
  std::ostringstream o;
  t.output(o,"ns");
  std::string s=o.str();
  size_t i=s.find("name=\"shared_ptr\" type=\"tns:");
  if (i==std::string::npos) return 0;
  i=s.find("tns:",i)+4;
  std::string type=s.substr(i,s.find('"',i)-i);
  return s.find("Type name=\""+type+"\"")==std::string::npos;
}
''', asan=False, std='c++17')


KNOWN = {'pointer-elements': ptrelem}


def run(ctx):
    jobs = []
    leaves = [x for x in Opts().leaves if x != 'long double']
    for i in range(ctx.n(4, 20)):
        for std in ('c++98', 'c++17'):
            onbase = i % 2 == 1
            o = dict(std=std, depth=2, nclasses=7, vector_bool=False, private=False, leaves=leaves, maxbases=2 if onbase else 1, elem_ptr=False, **({'ptrs': []} if std == 'c++98' else {}))
            jobs.append(family_job('p12_%s_%d' % (std[-2:], i), 'lib/h_xsd.cc', 'p12/%d/%d/%s' % (ctx.seed, i, std), Opts(**o), ['xml_pack', 'xml_unpack', 'xsd_generate'],
                                   [('schema', ctx.n(200, 2000), 1), ('accepts', ctx.n(800, 10000), 1), ('rejects', ctx.n(800, 10000), 1)],
                                   cdopts=['-nodef', '-typeName'] + ['-onbase'] * onbase, dom=True, flags=['-DVERIF_ONBASE=%d' % onbase], libs=['-lxml2']))
    ctx.run_jobs(jobs)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
