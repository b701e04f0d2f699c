from driver import Job
from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'stateful property-based testing of xdr_pack against an independent RFC 4506 encoder, and round trips of generated families'
NOTE = ('Every byte of the buffer is compared with an encoder written from RFC 4506 after each operation; buffers grow beyond several allocation chunks; '
        'the same items go through XDR files. Under AddressSanitizer; trusts libtirpc.')
RULE = ('history: generated operations on two buffers, non-trivial = at least two writes and a read; file: items through an XDR file, non-trivial = more than 2 items and 32 bytes; '
        'stream: objects of generated classes, as P01')
ASSUMPTIONS = ['long is the 32 bit XDR long: a value outside its range may be refused', 'long double has no XDR encoding',
               'enumerations are encoded as XDR int', 'the read position is not left behind the end by seeki']
LEAVES = [x for x in Opts().leaves if x not in ('long double', 'long', 'unsigned long')]


def run(ctx):
    c, f, u = ctx.n(24000, 800000), ctx.n(3000, 60000), ctx.n(2000, 20000)
    jobs = [Job('xdr98', 'lib/h_xdr.cc', cases=[('history', c, 3), ('file', f, 2), ('unrepresentable', u, 1)]),
            Job('xdr17', 'lib/h_xdr.cc', std='c++17', cases=[('history', c, 3), ('file', f, 2)])]
    n = ctx.n(240, 4000)
    keys = [k for k in Opts().keys if k != 'long']
    for i in range(ctx.n(2, 10)):
        jobs.append(family_job('fam98_%d' % i, 'lib/h_pack.cc', 'p07/%d/%d' % (ctx.seed, i), Opts(depth=2, nclasses=6, leaves=LEAVES, keys=keys), ['pack', 'unpack'], [('xdrstream', n, 2)]))
        jobs.append(family_job('fam17_%d' % i, 'lib/h_pack.cc', 'p07/17/%d/%d' % (ctx.seed, i), Opts(std='c++17', depth=2, nclasses=6, unordered=True, leaves=LEAVES, keys=keys),
                               ['pack', 'unpack'], [('xdrstream', n, 2)]))
    ctx.run_jobs(jobs)
