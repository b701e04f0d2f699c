"""jobs over generated class families"""
import random
import typegen
from driver import Job


def family_job(name, main, seed, opts, descriptors, cases, cdopts=('-nodef', '-onbase', '-typeName'), dom=False, **kw):
    f = typegen.Family(seed, opts)
    src = {'types.h': f.header(), 'support.h': f.support(dom)}
    reg = ''.join('  pbt::registry.push_back(pbt::entry<%s >("%s"));\n' % (t, t) for t, c in f.test_types())
    src['register.h'] = 'void registerAll()\n{\n%s}\n' % reg
    j = Job(name, main, src, [('types.cd', list(cdopts) + ['-i', 'types.h'] + list(descriptors))], std=opts.std, cases=cases, **kw)
    j.family = f
    return j
