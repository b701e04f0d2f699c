from families import family_job
from typegen import Opts


def xml_jobs(ctx, prop, nfam, cases, unordered=True, **kw):
    """families serialised to XML, in both dialects of C++ and of base class elements"""
    jobs = []
    for i in range(nfam):
        for std in ('c++98', 'c++17'):
            onbase = i % 2 == 1
            o = dict(std=std, depth=2, nclasses=7, vector_bool=False, leaves=Opts().leaves + ['classdesc::CDATA'])
            o.update(kw)
            if std != 'c++98':
                o['unordered'] = unordered
            jobs.append(family_job('%s_%s_%d' % (prop, std[-2:], i), 'lib/h_xml.cc', '%s/%d/%d/%s' % (prop, ctx.seed, i, std), Opts(**o), ['xml_pack', 'xml_unpack'], cases,
                                   cdopts=['-nodef', '-typeName'] + ['-onbase'] * onbase, dom=True, flags=['-DVERIF_ONBASE=%d' % onbase], libs=['-lexpat']))
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
    return jobs
