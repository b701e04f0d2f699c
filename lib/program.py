"""Checks that are generated programs: a program is made of pieces, prints what is wrong and then exits with 1."""
import tempfile, time
from concurrent.futures import ThreadPoolExecutor
from driver import Job, Violation, CheckError, sh


def job(spec, tag):
    return Job(spec.get('name', 'prog') + tag, spec.get('main', 'main.cc'), spec['sources'], [tuple(c) for c in spec.get('cds', [])], std=spec['std'], flags=spec.get('flags', []), libs=spec.get('libs', []),
               asan=spec.get('asan', True), opt=spec.get('opt', '-O0'), xdr=spec.get('xdr', False), cxx=spec.get('cxx', 'g++'))


def attempt(ctx, spec, tag=''):
    try:
        exe = ctx.build(job(spec, tag))
    except Violation as v:
        return 'build: ' + v.message
    with tempfile.TemporaryDirectory() as d:
        rc, o, e = sh(spec.get('run', []) + [exe], timeout=spec.get('timeout', 120), env=spec.get('env'), cwd=d)
    if rc == 0 and 'runtime error' not in e:
        return None
    if rc == -9999:
        return 'does not end within %d s' % spec.get('timeout', 120)
    if rc == 1 and o.strip():
        return o.strip().split('\n')[-1][:600]
    m = [l for l in e.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate' in l or 'what()' in l]
    return 'status %d: %s' % (rc, (' | '.join(m) or e[-300:])[:500])


def kind(m):
    return m.split(':')[0] if m.startswith(('build', 'status')) else 'fails'


def check(ctx, make, pieces, tag, describe=None, budget=60):
    """make(pieces) gives the specification of a program"""
    m = attempt(ctx, make(pieces), tag)
    if not m:
        return
    ctx.stop = True
    t0, n, again = time.time(), 2, True
    while len(pieces) > 1 and time.time() - t0 < budget:
        step = max(1, len(pieces) // n)
        cands = [pieces[:i] + pieces[i + step:] for i in range(0, len(pieces), step)]
        hit = None
        for i in range(0, len(cands), 8):
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda x: attempt(ctx, make(x[1]), '%ss%d' % (tag, x[0])), enumerate(cands[i:i + 8])))
            for c, r in zip(cands[i:i + 8], rs):
                if r and kind(r) == kind(m) and hit is None:
                    hit, m = c, r
            if hit is not None:
                break
        if hit is not None:
            pieces = hit
            n = max(2, n - 1)
        elif step == 1:
            break
        else:
            n *= 2
    raise Violation('%s in %s' % (m, (describe(pieces) if describe else repr(pieces))[:600]), dict(kind='program', spec=make(pieces)))


def replay(ctx, rec):
    m = attempt(ctx, rec['spec'], 'replay')
    if m:
        raise Violation(m, rec)
