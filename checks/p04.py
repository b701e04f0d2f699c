from checks.p05 import job as graph_job
from families import family_job
from typegen import Opts

LEVEL = 'exploration'
TECHNIQUE = 'fault injection and structured fuzzing: every truncation, targeted damage and noise, under AddressSanitizer'
NOTE = ('Random class families (unordered and C++17 containers included), pointer graphs, trees and refs. Buffers are cut at every byte (up to 200 places in long ones) from exactly sized '
        'allocations, damaged in lengths, counts, bits and structure, or replaced by noise or the encoding of another type; native, XDR and file buffers. After a refusal the target is '
        'printed, packed, refilled and destroyed, and the next structure must come back whole. operator new refuses more than 64 MB at once, as a machine would.')
RULE = ('truncated: non-trivial = more than 8 bytes of encoding; damaged/noise: more than 8 bytes that differ from the encoding or were refused; '
        'hostile: pointer structures cut or damaged')
ASSUMPTIONS = ['every value of an element type takes at least one byte (a damaged count of empty objects is taken at its word)', 'inputs short enough for the depth of recursion they ask for',
               'bad_alloc and length_error are exceptions like any other']
XL = [x for x in Opts().leaves if x not in ('long double', 'long', 'unsigned long')]


def run(ctx):
    t, d, n = ctx.n(400, 8000), ctx.n(3000, 60000), ctx.n(1500, 30000)
    jobs = []
    for i in range(ctx.n(3, 14)):
        for std in ('c++98', 'c++17'):
            kw = dict(std=std, empty_class=False, exclude=False, depth=2, nclasses=7)
            if std != 'c++98':
                kw.update(unordered=True, fixed=.08)
            x = i % 3 == 2
            if x:
                kw['leaves'] = XL
                kw['keys'] = [k for k in Opts().keys if k != 'long']
            p = 'x' if x else ''
            jobs.append(family_job('%s%s_%d' % (p or 'a', std[-2:], i), 'lib/h_hostile.cc', 'p04/%d/%d/%s' % (ctx.seed, i, std), Opts(**kw), ['pack', 'unpack'],
                                   [(p + 'truncated', t, 1), (p + 'damaged', d, 1), (p + 'noise', n, 1)], flags=['-D_GLIBCXX_ASSERTIONS']))
    for std in ('c++98', 'c++17'):
        jobs.append(graph_job(std, [('hostile', ctx.n(8000, 200000), 2)]))
    ctx.run_jobs(jobs)
