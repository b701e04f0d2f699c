"""P21: functional reflection."""
import os, tempfile, shutil
import functional, program
from driver import CheckError, sh

LEVEL = 'exploration'
TECHNIQUE = 'generated functions of random signatures: what the traits report, and calls through bound methods, apply and argument buffers against direct calls'
NOTE = ('Random free functions, static, plain, const, inherited and virtual methods of up to 20 arguments; the traits must report their exact types; every way of calling must leave the same record of the call (object, order and value of every argument) and the same result as the direct call. '
        'apply gets arguments that can only be read as their own type. The variadic and the unrolled implementations, the latter also from a fresh run of functiondb.sh. Under AddressSanitizer.')
RULE = 'a function of at least two arguments; distinct by signature, kind of function and argument values'
ASSUMPTIONS = ['arguments passed by value or const reference for calls; pointers, references and rvalue references for the traits only',
               'bound methods of const methods cannot be rebound in the unrolled implementation', 'C++98 and -DUSE_UNROLLED use the unrolled implementation']
CONF = [('c++98', False), ('c++11', False), ('c++17', False), ('c++17', True), ('c++98', True), ('c++20', False), ('c++14', False), ('c++11', True)]


def regenerated(ctx):
    st = ctx.stage
    d = tempfile.mkdtemp(dir=ctx.scratch if hasattr(ctx, 'scratch') else None)
    try:
        sh(['cp', os.path.join(st.dir, 'functiondb.sh'), d])
        rc, o, e = sh(['bash', 'functiondb.sh'], cwd=d, timeout=120)
        if rc != 0:
            raise CheckError('functiondb.sh: ' + e[-300:])
        r = {'functiondb.h': o}
        for n in os.listdir(d):
            if n.endswith('.h'):
                r[n] = open(os.path.join(d, n)).read()
        # a copy of function.h beside them, so that it includes these
        r['function.h'] = open(os.path.join(st.dir, 'function.h')).read()
        return r
    finally:
        shutil.rmtree(d)


def run(ctx):
    fresh = regenerated(ctx)

    def batch(i):
        std, unrolled = CONF[i % len(CONF)]
        g = functional.Gen('p21/%d/%d' % (ctx.seed, i), std, unrolled)
        fs = [g.function() for k in range(16)]
        heads = fresh if (unrolled or std == 'c++98') and i % 3 == 0 else {}
        program.check(ctx, lambda ps: functional.program(ps, std, unrolled, heads), fs, 'f%d' % i, describe=lambda ps: '; '.join(functional.describe(p) for p in ps))
        for f in fs:
            ctx.count(functional.describe(f) + repr(f['args']), len(f['args']) > 1, case='%s%s' % (std, ' unrolled' if unrolled else ''), sample=functional.describe(f), labels=['arity %d' % len(f['args']), f['form']])
    ctx.pmap(batch, list(range(ctx.n(40, 800))))
