from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: generated class families, values and pack/unpack histories against an independent equality'
NOTE = ('Random class families (seeded) in C++98 and C++17, compiled with the descriptors classdesc generates for them, random values; '
        'equality and printing are emitted by the generator, not by classdesc. Runs under AddressSanitizer. Trusts g++, libstdc++.')
RULE = ('case = 1-6 objects of random types of a generated class family, random values, packed into one buffer with unpacks interleaved; '
        'non-trivial = at least two objects and more than 40 bytes packed; distinct by the choices drawn')
ASSUMPTIONS = ['unordered containers compare as multisets of elements', 'NaN equals NaN, and -0 differs from 0']


def run(ctx):
    jobs = []
    nf = ctx.n(5, 24)
    count, shards = ctx.n(2400, 24000), ctx.n(2, 3)
    for i in range(nf):
        jobs.append(family_job('a98_%d' % i, 'lib/h_pack.cc', 'p01/%d/%d' % (ctx.seed, i), Opts(), ['pack', 'unpack'], [('stream', count, shards)]))
        jobs.append(family_job('a17_%d' % i, 'lib/h_pack.cc', 'p01/17/%d/%d' % (ctx.seed, i), Opts(std='c++17', unordered=True), ['pack', 'unpack'], [('stream', count, shards)]))
    # the same with the descriptors' other options
    jobs.append(family_job('notn', 'lib/h_pack.cc', 'p01/n/%d' % ctx.seed, Opts(), ['pack', 'unpack'], [('stream', count, shards)], cdopts=['-nodef', '-onbase']))
    jobs.append(family_job('plain', 'lib/h_pack.cc', 'p01/p/%d' % ctx.seed, Opts(), ['pack', 'unpack'], [('stream', count, shards)], cdopts=['-nodef']))
    ctx.run_jobs(jobs)
    ctx.extra['class_families'] = len(jobs)
    ctx.extra['types_exercised'] = sum(len(j.family.test_types()) for j in jobs)
