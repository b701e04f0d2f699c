"""P26: message passing."""
import os, random, tempfile
from driver import CheckError, Job, Violation, sh, ENV

LEVEL = 'exploration'
TECHNIQUE = 'generated histories of message passing operations, run by 1 to 5 processes under mpirun against a model of every buffer of every process; generated master and slave sessions against a model of the slaves'
NOTE = ('Histories of packing, send and isend (with any source, any tag, waiting messages), send_recv permutations, fan-in from any source, bcast, gather and scatter with constant and varying lengths, marks, copies, arrays of asynchronous messages completed in each of the ways the class offers, groups with communicators of their own; '
        'every buffer is compared with the model after every operation. Sessions of MPIslave: requests to idle slaves, answers, requests without an answer, broadcasts, order of the work of each slave. Empty messages up to some hundred kilobytes; C++98 to C++20, also with XDR (HETERO). Under AddressSanitizer and UBSan.')
RULE = 'a history of at least three operations between at least two processes; distinct by its script and number of processes'
ASSUMPTIONS = ['Open MPI, one machine', 'schedules are those the system gives', 'MPIslave: the methods have the same address in all processes (not a position independent executable)',
               'with const_buffer all lengths are the same', 'a buffer is not changed while it is sent', 'a message to oneself is not sent']
ITEM = 'struct Item {int a; double b; std::string s; std::vector<short> v; std::map<int,std::string> m;};\n'
CONF = [('c++17', ()), ('c++98', ()), ('c++11', ('-DHETERO',)), ('c++20', ()), ('c++98', ('-DHETERO',))]
MPIENV = dict(ENV, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
              OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_plm='isolated', ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
LENS = [0, 0, 1, 2, 3, 7, 12, 100, 1000, 4096, 5000]


def job(std, flags):
    return Job('p26', 'lib/h_mpi.cc', sources={'item.h': ITEM}, cds=[('mpi.cd', ['-nodef', '-i', 'item.h', 'pack', 'unpack'])], std=std, cxx='mpicxx',
               flags=['-fsanitize=undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined', '-no-pie'] + list(flags))


def length(r):
    return r.choice(LENS) if r.random() < .97 else r.choice([70000, 300000])


def history(r, np, n):
    """the lines of a script"""
    o = []
    k3 = lambda: r.randrange(3)
    rank = lambda: r.randrange(np)
    def lens(k):
        return [str(length(r)) for i in range(k)] if r.random() < .7 else [str(r.choice(LENS))] * k
    def tag():
        return r.choice([0, 1, 1, 2, 7, 1000, 30000])
    def fill():
        if r.random() < .5:
            o.append('rawall %d %d %s' % (k3(), r.randrange(10**6), ' '.join(lens(np))))
        elif r.random() < .7:
            o.append('item %d %d %d' % (k3(), rank(), r.randrange(10**6)))
        else:
            o.append('raw %d %d %d %d' % (k3(), rank(), length(r), r.randrange(10**6)))
    while len(o) < n:
        x = r.randrange(14)
        if x < 3:
            fill()
        elif x == 3:
            o.append(r.choice(['reset %d' % k3(), 'read %d %d %d' % (k3(), rank(), r.randrange(40)), 'mark %d %d' % (k3(), r.randrange(2)), 'copy %d %d %d' % (k3(), k3(), r.randrange(2))]))
        elif x < 7:
            op = r.choice(['send', 'isend', 'waiting'])
            o.append('%s %d %d %d %d %d %d %d %d' % (op, k3(), rank(), rank(), tag(), r.randrange(4), k3(), r.randrange(2), r.randrange(2)))
        elif x == 7:
            o.append('fan %d %d %d' % (k3(), rank(), tag()))
        elif x == 8:
            p = list(range(np))
            r.shuffle(p)
            fill()
            o.append('xchg %d %d %d %s' % (k3(), r.randrange(4), tag(), ' '.join(map(str, p))))
        elif x == 9:
            fill()
            o.append('bcast %d %d %d %d' % (k3(), rank(), r.randrange(2), r.randrange(2)))
        elif x == 10:
            fill()
            o.append('gather %d %d %d' % (k3(), rank(), r.randrange(2)))
        elif x == 11:
            o.append('scatter %d %d %d %d %s' % (k3(), rank(), r.randrange(2), r.randrange(10**6), ' '.join(lens(np))))
        elif x == 12:
            o.append('array %d %d %d %d %s' % (k3(), tag(), r.randrange(16), r.randrange(10**6), ' '.join(lens(np * np))))
        else:
            o.append('sub %d %s %d %s' % (k3(), ' '.join(str(r.randrange(2)) for i in range(np)), r.randrange(10**6), ' '.join(lens(np))))
    return o


def session(r, np, n):
    return [r.choice(['sum', 'sum', 'echo', 'echo', 'note', 'wait', 'all', 'own'] if np > 1 else ['wait', 'all', 'own']) + ' %d' % r.randrange(10**6) for i in range(n)]


def attempt(ctx, exe, kind, np, lines, timeout=60):
    """None, or what goes wrong"""
    fd, path = tempfile.mkstemp(dir=ctx.work)
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join([kind] + lines) + '\n')
    env = dict(MPIENV, TMPDIR=ctx.work)
    rc, o, e = sh(['mpirun', '--bind-to', 'none', '-np', str(np), exe, path], timeout=timeout, env=env, cwd=ctx.work)
    os.unlink(path)
    if rc == 0 and 'OK' in o.split('\n'):
        return None
    f = [l for l in o.split('\n') if l.startswith('FAIL')]
    if f:
        return f[0]
    if rc == -9999:
        return 'not finished after %d seconds' % timeout
    if 'not enough slots' in e or 'unable to' in e and 'mpirun' in e and 'Process name' not in e:
        raise CheckError('mpirun: ' + e[-600:])
    l = [x for x in e.split('\n') if 'ERROR: ' in x or 'runtime error' in x or 'terminate' in x or 'what()' in x or 'MPI_ERR' in x or 'Signal:' in x]
    return 'exit code %s: %s' % (rc, '; '.join(l[:4]) or (o + e)[-500:])


def certain(ctx, exe, kind, np, lines, times=3):
    """the failure of a script must come again"""
    m = None
    for i in range(times):
        m = attempt(ctx, exe, kind, np, lines, 100)
        if m is None:
            return None
    return m


def shrink(ctx, exe, kind, np, lines, left=40):
    m = None
    size = max(1, len(lines) // 2)
    while left > 0:
        i, any_ = 0, False
        while i < len(lines) and left > 0:
            c = lines[:i] + lines[i + size:]
            left -= 1
            # a failure that takes long to show is not reduced
            x = attempt(ctx, exe, kind, np, c, 20) if c else None
            if x is not None and 'not finished' not in x and attempt(ctx, exe, kind, np, c, 20) is not None:
                lines, m, any_ = c, x, True
            else:
                i += size
        if size == 1 and not any_:
            break
        size = max(1, size // 2)
    return lines, m


def one(ctx, std, flags, kind, np, lines):
    exe = ctx.build(job(std, flags))
    m = attempt(ctx, exe, kind, np, lines)
    ctx.count('%d %s' % (np, '\n'.join(lines)), np > 1 and len(lines) > 2, case='history' if kind == 'buffers' else 'session', sample='%d processes: %s' % (np, ' | '.join(lines)),
              labels=['%s %s' % (std, ' '.join(flags)), '%d processes' % np] + sorted(set(l.split()[0] for l in lines)))
    if m is None:
        return
    m2 = certain(ctx, exe, kind, np, lines)
    if m2 is None:
        ctx.labels['unconfirmed'] = ctx.labels.get('unconfirmed', 0) + 1
        return
    small, m3 = shrink(ctx, exe, kind, np, lines)
    if m3 is not None and certain(ctx, exe, kind, np, small) is None:
        small, m3 = lines, m2
    raise Violation('%s\n%d processes, %s %s\n%s\n%s' % (m3 or m2, np, std, ' '.join(flags), kind, '\n'.join(small)), dict(kind='mpi', std=std, flags=list(flags), script=kind, np=np, lines=small, message=m3 or m2))


def run(ctx):
    ctx.pmap(lambda c: ctx.build(job(*c)), CONF)
    def batch(i):
        r = random.Random('p26/%d/%d' % (ctx.seed, i))
        std, flags = CONF[i % len(CONF)]
        np = r.choice([1, 2, 2, 3, 3, 4, 4, 5])
        if i % 4 == 3:
            one(ctx, std, flags, 'slaves', np, session(r, np, r.choice([3, 10, 40])))
        else:
            one(ctx, std, flags, 'buffers', np, history(r, np, r.choice([4, 12, 25, 40])))
    ctx.pmap(batch, range(ctx.n(120, 2500)), workers=4)
    if ctx.labels.get('unconfirmed', 0) > 3:
        raise CheckError('%d failures did not come again' % ctx.labels['unconfirmed'])


def replay(ctx, rec):
    exe = ctx.build(job(rec['std'], rec['flags']))
    m = certain(ctx, exe, rec['script'], rec['np'], rec['lines'])
    if m:
        raise Violation('%s\n%s' % (m, '\n'.join(rec['lines'])), rec)
    return '\n'.join([rec['script']] + rec['lines'])
