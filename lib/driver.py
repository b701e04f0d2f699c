"""Driver of the checks: stages /repo, builds harnesses, runs generated cases in parallel,
shrinks failures, writes replays and evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
JOBS = 8
ENV = dict(os.environ)
for k in ('MAKEFLAGS', 'CPLUS_INCLUDE_PATH', 'CPATH', 'C_INCLUDE_PATH', 'LIBRARY_PATH', 'GCC_EXEC_PREFIX'):
    ENV.pop(k, None)
ENV.update(LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1',
           UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
ENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'


class Violation(Exception):
    """A property was seen to be broken. record: what the replay needs."""
    def __init__(self, message, record):
        Exception.__init__(self, message)
        self.message = message
        self.record = record


class CheckError(Exception):
    pass


def sh(cmd, timeout=300, cwd=None, env=None, input=None, mem=None, binary=False):
    """run; returns (rc, stdout, stderr); rc -9999 on timeout. CPU hang -> timeout"""
    def pre():
        os.setsid()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    if isinstance(input, str):
        input = input.encode('latin-1')
    try:
        o, e = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        rc = -9999
    if binary:
        return rc, o, e
    return rc, o.decode('latin-1'), e.decode('latin-1')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode('utf-8', 'surrogateescape')
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:20]


def repo_files():
    """root level source files of /repo's working tree (tracked, or untracked and not ignored)"""
    rc, o, e = sh(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co', '--exclude-standard'])
    if rc == 0 and o.strip():
        names = o.split('\n')
    else:
        names = [f for f in os.listdir(REPO) if not f.endswith(('.o', '.cd', '.d'))]
    res = []
    for n in sorted(set(names)):
        if '/' in n or not n:
            continue
        p = os.path.join(REPO, n)
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        if n in ('classdesc', 'insert-friend', 'unpack_base.h', 'json_unpack_base.h'):
            continue
        res.append(n)
    return res


class Stage:
    """a built copy of the root of /repo's current working tree"""
    lock = threading.Lock()

    def __init__(self):
        files = repo_files()
        h = hashlib.sha256()
        data = {}
        for n in files:
            with open(os.path.join(REPO, n), 'rb') as f:
                data[n] = f.read()
            h.update(n.encode() + b'\0' + data[n] + b'\0' + (b'x' if os.access(os.path.join(REPO, n), os.X_OK) else b'-'))
        self.key = h.hexdigest()[:20]
        self.base = os.path.join(BUILD, 'stage-' + self.key)
        self.dir = os.path.join(self.base, 'src')
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._prune()
            if not os.path.exists(os.path.join(self.base, 'ok')):
                shutil.rmtree(self.base, ignore_errors=True)
                os.makedirs(self.dir)
                for n in files:
                    p = os.path.join(self.dir, n)
                    with open(p, 'wb') as f:
                        f.write(data[n])
                    if os.access(os.path.join(REPO, n), os.X_OK):
                        os.chmod(p, 0o755)
                self._build()
                open(os.path.join(self.base, 'ok'), 'w').close()
        os.utime(self.base)

    def _prune(self):
        """keep only the most recent few stages"""
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('stage-')]
        ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
        for d in ds[4:]:
            if d != self.base and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)

    def _build(self):
        d = self.dir
        # the tracked functiondb.h is the one users get; regenerating it is P21's business
        t = time.time()
        for n in ('functiondb.sh', 'createCDs.sh', 'Makefile'):
            if os.path.exists(os.path.join(d, n)):
                os.utime(os.path.join(d, n), (t - 100, t - 100))
        gen = ['functiondb.h', 'unpack_base.h', 'json_unpack_base.h'] + \
            [x + '-allCDs.h' for x in 'dump pack json_pack random_init RESTProcess xml_pack xsd_generate typeName'.split()]
        rc, o, e = sh(['make'] + gen, cwd=d, timeout=300)
        if rc == 0:
            rc, o, e = sh(['make', '-j%d' % JOBS, 'build', 'CPLUSPLUS=g++ -std=c++98'], cwd=d, timeout=300)
        if rc != 0 or not os.access(os.path.join(d, 'classdesc'), os.X_OK):
            raise CheckError('staged copy of the repository does not build:\n' + o[-2000:] + e[-4000:])


class Job:
    """a harness binary and the cases it runs.
    sources: {filename: text} written into the work directory; main: the .cc
    cds: list of (output, [classdesc arguments...]), where @stdin:FILE and @pipe:FILE give the standard input and @mkdir:DIR makes a directory
    glob: further sources, that classdesc writes"""
    def __init__(self, name, main, sources=None, cds=(), std='c++98', flags=(), libs=(), cases=(), asan=True, opt='-O1',
                 cxx='g++', compile_timeout=600, env=None, case_timeout=None, xdr=True, meta=None, glob=''):
        self.__dict__.update(locals())
        self.sources = dict(sources or {})
        self.cases = list(cases)     # (case, total count, shards)


def run_classdesc(st, d, args):
    cmd, data, stdin = [os.path.join(st.dir, 'classdesc')], None, None
    for a in args:
        if a.startswith('@mkdir:'):
            os.makedirs(os.path.join(d, a[7:]), exist_ok=True)
        elif a.startswith('@pipe:'):
            data = open(os.path.join(d, a[6:]), 'rb').read()
        elif a.startswith('@stdin:'):
            stdin = a[7:]
        else:
            cmd.append(a.replace('@SRC@', st.dir))
    if stdin:
        cmd = ['sh', '-c', 'exec "$@" <"$0"', stdin] + cmd
    return sh(cmd, cwd=d, timeout=60, binary=True, input=data)


class Ctx:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self._stage = None
        self.lock = threading.Lock()
        self.ev = dict(evaluations=0, discards=0)
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.percase = {}
        self.extra = {}
        self.assumptions = []
        self.rule = ''
        self.known_seen = []
        self.stop = False
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)

    def n(self, q, t):
        return q if self.quick else t

    @property
    def stage(self):
        with Stage.lock:
            if self._stage is None:
                self._stage = Stage()
            return self._stage

    def elapsed(self):
        return time.time() - self.t0

    # ---- counting for cases run by python
    def count(self, key, nontrivial, case='python', labels=(), sample=None):
        with self.lock:
            self.ev['evaluations'] += 1
            c = self.percase.setdefault(case, dict(evaluations=0, nontrivial=0))
            c['evaluations'] += 1
            if nontrivial:
                c['nontrivial'] += 1
                self.hashes.add(sha(case, key))
            for l in labels:
                self.labels[l] = self.labels.get(l, 0) + 1
            if sample is not None and nontrivial and len([1 for s in self.samples if s.startswith(case + ': ')]) < 2:
                self.samples.append(case + ': ' + sample[:600])

    # ---- building
    def build(self, job):
        """returns the binary; raises Violation if generation or compilation fails"""
        st = self.stage
        verif_h = []
        for d in ('lib', 'lib/json5stub', 'lib/alt'):
            dd = os.path.join(VERIF, d)
            if os.path.isdir(dd):
                for f in sorted(os.listdir(dd)):
                    if f.endswith('.h'):
                        verif_h.append(open(os.path.join(dd, f)).read())
        if job.main not in job.sources:
            verif_h.append(open(os.path.join(VERIF, job.main)).read())
        key = sha(job.main, repr(sorted(job.sources.items())), repr(job.cds), job.std, repr(job.flags), repr(job.libs), job.cxx, job.opt, repr(job.asan), repr(job.xdr), job.glob, *verif_h)
        d = os.path.join(st.base, 'h-%s-%s' % (job.name, key))
        exe = os.path.join(d, 'a.out')
        job.dir = d
        if os.path.exists(exe):
            return exe
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for fn, text in job.sources.items():
            with open(os.path.join(d, fn), 'wb') as f:
                f.write(text.encode('latin-1'))
        rec = dict(kind='build', job=dict(name=job.name, main=job.main, sources=job.sources, cds=[list(c) for c in job.cds], std=job.std,
                                          flags=list(job.flags), libs=list(job.libs), cxx=job.cxx, opt=job.opt, asan=job.asan, xdr=job.xdr, glob=job.glob))
        def broken(message):
            v = Violation(message, rec)
            v.reduce = getattr(job, 'reduce', None)
            return v
        for out, args in job.cds:
            rc, o, e = run_classdesc(st, d, args)
            if rc != 0:
                raise broken('classdesc %s exited with %s: %s' % (' '.join(args), 'time out' if rc == -9999 else rc, e[-500:].decode('latin-1')))
            with open(os.path.join(d, out), 'ab') as f:
                f.write(o)
        cmd = [job.cxx, '-std=' + job.std, job.opt, '-g1', '-w', '-I.', '-I' + os.path.join(VERIF, 'lib'), '-I' + st.dir]
        if job.std == 'c++98':
            cmd += ['-DTR1']
        else:
            cmd += ['-I' + os.path.join(VERIF, 'lib', 'json5stub')]
        cmd += ['-I/usr/include/tirpc', '-DXDR_PACK', '-DHAVE_LONGLONG']
        if job.asan:
            cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
        cmd += list(job.flags)
        main = job.main if job.main in job.sources else os.path.join(VERIF, job.main)
        cmd += [main, '-o', exe + '.tmp']
        if job.glob:
            cmd += sorted(glob.glob(os.path.join(d, job.glob)))
        if job.xdr:
            cmd += ['-Wl,--no-as-needed', os.path.join(st.dir, 'xdr_pack.o'), '-ltirpc']
        cmd += list(job.libs)
        rc, o, e = sh(cmd, cwd=d, timeout=job.compile_timeout)
        if rc != 0:
            t = os.path.join(d, 'probe.cc')
            with open(t, 'w') as f:
                f.write('#include <vector>\nint main() {std::vector<int> x(1); return 0;}\n')
            prc, _, pe = sh([job.cxx, '-std=' + job.std, t, '-o', t + '.x'], timeout=120)
            if prc != 0:
                raise CheckError('compiler does not work: ' + pe[-500:])
            if rc in (-9999, -9) or 'Killed' in e:
                raise CheckError('compilation ran out of time or memory: ' + e[-500:])
            errs = '\n'.join([l for l in e.split('\n') if 'error' in l][:6]) or e[:1500]
            raise broken('descriptors do not compile for %s: %s' % (job.name, errs[:1500]))
        os.rename(exe + '.tmp', exe)
        return exe

    # ---- running
    def _shard(self, job, exe, case, start, count, tag):
        out = os.path.join(self.work, '%s-%s-%s' % (job.name, case, tag))
        env = dict(ENV)
        env.update(job.env or {})
        env['VERIF_SCRATCH'] = out + '.d'
        os.makedirs(out + '.d', exist_ok=True)
        if self.stop:
            return
        cmd = [exe, 'run', case, str(self.seed), str(start), str(count), out]
        rc, o, e = sh(cmd, timeout=job.case_timeout or 840, env=env, cwd=out + '.d')
        if rc in (0, 1) and os.path.exists(out + '.json'):
            try:
                with open(out + '.json') as f:
                    r = json.load(f)
            except ValueError as x:
                raise CheckError('bad result of %s %s: %s' % (job.name, case, x))
            with open(out + '.hash', 'rb') as f:
                hs = f.read()
            with self.lock:
                self.ev['evaluations'] += r['evaluations']
                self.ev['discards'] += r['discards']
                cname = job.name + '/' + case
                c = self.percase.setdefault(cname, dict(evaluations=0, nontrivial=0))
                c['evaluations'] += r['evaluations']
                c['nontrivial'] += r['nontrivial']
                for i in range(0, len(hs), 8):
                    self.hashes.add(cname.encode() + hs[i:i + 8])
                for k, v in r['labels'].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                if len([1 for s in self.samples if s.startswith(cname + ': ')]) < 1:
                    for s in r['samples'][:1]:
                        self.samples.append(cname + ': ' + s)
            if rc == 0:
                return
            msg, choices, idx = r['message'], r['choices'], r['failidx']
        elif rc == -9999 and not os.path.exists(out + '.mm'):
            raise CheckError('%s %s: time out' % (job.name, case))
        elif rc == 3:
            raise CheckError('%s %s: harness error: %s' % (job.name, case, (o + e)[-800:]))
        else:
            # crash or hang: recover the case from the map
            with open(out + '.mm', 'rb') as f:
                b = f.read()
            magic, idx, n = struct.unpack_from('<QQQ', b, 0)
            choices = list(struct.unpack_from('<%dQ' % n, b, 24))
            if rc == -9999:
                # wall clock only: says nothing about the code
                raise CheckError('%s %s case %d: wall clock time out' % (job.name, case, idx))
            msg = self.crash_message(rc, e)
        self.stop = True
        if rc == -9:
            raise CheckError('%s %s: killed' % (job.name, case))
        rec = dict(kind='pbt', case=case, choices=choices, seed=self.seed, start=start, count=count, index=idx, message=msg,
                   job=dict(name=job.name, main=job.main, sources=job.sources, cds=[list(c) for c in job.cds], std=job.std, flags=list(job.flags),
                            libs=list(job.libs), cxx=job.cxx, opt=job.opt, asan=job.asan, xdr=job.xdr, glob=job.glob, env=job.env))
        raise Violation('%s/%s: %s' % (job.name, case, msg), rec)

    @staticmethod
    def crash_message(rc, e):
        if rc == -signal.SIGPROF:
            return 'does not terminate (CPU time allowance used up)'
        lines = [l for l in e.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate called' in l or 'what()' in l]
        return 'crash (exit status %s) %s' % (rc, ' | '.join(lines)[:600])

    def run_jobs(self, jobs, shards=None):
        """build and run every job; raises the first Violation in job order after all stop"""
        def work_job(job):
            exe = self.build(job)
            return exe
        errs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(work_job, j): (k, j) for k, j in enumerate(jobs)}
            runs = []
            pending = set(futs)
            while pending:
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f in futs:
                        k, job = futs[f]
                        try:
                            exe = f.result()
                        except (Violation, CheckError) as x:
                            errs.append((k, x))
                            if isinstance(x, Violation):
                                self.stop = True
                            continue
                        for case, count, ns in job.cases:
                            per = max(1, count // ns)
                            for s in range(ns):
                                r = ex.submit(self._shard, job, exe, case, s * per, per, s)
                                runs.append((k, r))
                                pending.add(r)
                    else:
                        try:
                            f.result()
                        except (Violation, CheckError) as x:
                            k = [k for k, r in runs if r is f][0]
                            errs.append((k, x))
        vs = [(k, x) for k, x in errs if isinstance(x, Violation)]
        if vs:
            vs.sort(key=lambda t: (t[0], t[1].message))
            raise vs[0][1]
        if errs:
            raise errs[0][1]

    def pmap(self, fn, items, workers=JOBS):
        """parallel map of fn over items; raises the first (in order) Violation"""
        errs, res = [], {}
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [(i, ex.submit(lambda x: None if self.stop else fn(x), it)) for i, it in enumerate(items)]
            for i, f in futs:
                try:
                    res[i] = f.result()
                except Violation as x:
                    self.stop = True
                    errs.append((i, x))
                except CheckError as x:
                    errs.append((i + 10**9, x))
        if errs:
            raise sorted(errs, key=lambda t: t[0])[0][1]
        return [res.get(i) for i in range(len(items))]

    def probe(self, name, text, **kw):
        """a program for one known finding: exit status 1 (or a crash) if the defect is still there"""
        kw.setdefault('asan', True)
        exe = self.build(Job('probe_' + name, 'probe.cc', {'probe.cc': text, **kw.pop('sources', {})}, **kw))
        env = dict(ENV, VERIF_SCRATCH=self.work)
        rc, o, e = sh([exe], timeout=120, env=env, cwd=self.work)
        return rc != 0

    # ---- replaying and shrinking
    def job_of(self, rec):
        j = rec['job']
        return Job(j['name'], j['main'], j['sources'], [(c[0], c[1]) for c in j['cds']], j['std'], j['flags'], j['libs'], cxx=j['cxx'], opt=j['opt'],
                   asan=j['asan'], xdr=j['xdr'], env=j.get('env'), glob=j.get('glob', ''))

    def replay_choices(self, exe, rec, choices, timeout=120):
        f = tempfile.NamedTemporaryFile('w', dir=self.work, suffix='.rep', delete=False)
        f.write(rec['case'] + '\n' + ' '.join(str(c) for c in choices) + '\n')
        f.close()
        env = dict(ENV)
        env.update(rec['job'].get('env') or {})
        d = f.name + '.d'
        os.makedirs(d)
        env['VERIF_SCRATCH'] = d
        env.setdefault('PBT_WATCHDOG', '10')
        rc, o, e = sh([exe, 'replay', f.name], timeout=timeout, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        os.unlink(f.name)
        if rc == 0:
            return False, '', o
        if rc == -9999 or rc == 3:
            return False, 'time out', o
        if rc == 1 and 'RESULT FAIL' in o:
            m = [l for l in o.split('\n') if l.startswith('MESSAGE ')]
            return True, m[0][8:] if m else '', o
        return True, self.crash_message(rc, e), o

    def shrink(self, exe, rec, budget=45):
        best = list(rec['choices'])
        t0 = time.time()
        ok, msg, o = self.replay_choices(exe, rec, best)
        if not ok:
            return None
        hang = 'does not terminate' in msg
        if hang:
            budget = 60

        def attempts(c):
            # candidates, roughly best first
            n = len(c)
            k = n
            while k >= 1:
                i = n - k
                while i >= 0:
                    yield c[:i] + c[i + k:]
                    i -= k
                k //= 2
            for i in range(n):
                if c[i]:
                    yield c[:i] + [0] + c[i + 1:]
            for i in range(n):
                if c[i] > 1:
                    yield c[:i] + [c[i] // 2] + c[i + 1:]
            for i in range(n):
                if c[i] > 1:
                    yield c[:i] + [c[i] - 1] + c[i + 1:]
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            gen = attempts(best)
            while time.time() - t0 < budget:
                batch = []
                for c in gen:
                    if c != best:
                        batch.append(c)
                    if len(batch) == JOBS:
                        break
                if not batch:
                    break
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    rs = list(ex.map(lambda c: self.replay_choices(exe, rec, c), batch))
                hit = [(c, r) for c, r in zip(batch, rs) if r[0]]
                if hit:
                    best, (_, msg, o) = hit[0]
                    improved = True
                    gen = attempts(best)
        return best, msg

    def reduce_build(self, v, budget=60):
        """ddmin over the parts of a header that does not build"""
        parts, make = v.reduce
        t0 = time.time()

        def attempt(p):
            try:
                self.build(make(p))
            except Violation as x:
                return x
            return None
        n = 2
        while len(parts) > 1 and time.time() - t0 < budget:
            step = max(1, len(parts) // n)
            cands = [parts[:i] + parts[i + step:] for i in range(0, len(parts), step)] + [parts[i:i + step] for i in range(0, len(parts), step)]
            cands = [c for c in cands if c and len(c) < len(parts)]
            found = None
            for k in range(0, len(cands), JOBS):
                if time.time() - t0 > budget:
                    break
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    rs = list(ex.map(attempt, cands[k:k + JOBS]))
                hit = [(c, x) for c, x in zip(cands[k:k + JOBS], rs) if x]
                if hit:
                    found = min(hit, key=lambda h: len(h[0]))
                    break
            if found:
                parts, v = found
                n = max(2, n - 1)
            elif step == 1:
                break
            else:
                n *= 2
        return v

    def confirm(self, v):
        """shrinks and replays a violation; returns the path of the replay file"""
        rec = v.record
        rec['property'] = self.prop
        rec['tier'] = self.tier
        os.makedirs(REPLAYS, exist_ok=True)
        if rec['kind'] == 'build' and getattr(v, 'reduce', None):
            v = self.reduce_build(v)
            rec = v.record
            rec['property'] = self.prop
            rec['tier'] = self.tier
        if rec['kind'] == 'pbt':
            self.stop = False
            exe = self.build(self.job_of(rec))
            res = self.shrink(exe, rec)
            if res is not None:
                rec['original_choices'] = rec['choices']
                rec['choices'], v.message = res
                for i in range(3):
                    ok, msg, o = self.replay_choices(exe, rec, rec['choices'])
                    if not ok:
                        rec['choices'] = rec['original_choices']
                rec['description'] = o[-3000:]
                rec['message'] = v.message
            else:
                # depends on the history of the process: replay the range
                rec['kind'] = 'range'
                n = 0
                for i in range(3):
                    out = os.path.join(self.work, 'range%d' % i)
                    env = dict(ENV); env.update(rec['job'].get('env') or {})
                    os.makedirs(out + '.d'); env['VERIF_SCRATCH'] = out + '.d'
                    rc, o, e = sh([exe, 'run', rec['case'], str(rec['seed']), str(rec['start']), str(rec['count']), out], timeout=840, env=env, cwd=out + '.d')
                    if rc not in (0, 3, -9999, -9):
                        n += 1
                if n < 3:
                    raise CheckError('failure of %s did not reproduce (%d of 3): %s' % (rec['case'], n, v.message))
        path = os.path.join(REPLAYS, '%s-%s.json' % (self.prop, sha(json.dumps(rec, sort_keys=True))[:12]))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        return path

    # ---- evidence
    def evidence(self, violations):
        cov = dict(evaluations=self.ev['evaluations'], distinct_nontrivial=len(self.hashes), rule=self.rule, samples=self.samples[:24],
                   discarded=self.ev['discards'], per_case=self.percase, classes=dict(sorted(self.labels.items())))
        cov.update(self.extra)
        if self.known_seen:
            cov['known_findings_seen'] = self.known_seen
        d = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=self.seed, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(d, f, indent=1, default=str)


def known_findings():
    """{property: {finding id: text}} from the committed list; fixed entries suppress nothing"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                # known: property=P01 id=xyz text
                w = l.split(None, 3)
                res.setdefault(w[1].split('=')[1], {})[w[2].split('=')[1]] = w[3]
    return res


def main(argv):
    import importlib
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    if len(argv) >= 2 and argv[1] == 'setup':
        Stage()
        return 0
    if len(argv) >= 3 and argv[1] == 'replay':
        rec = json.load(open(argv[2]))
        mod = importlib.import_module('checks.' + rec['property'].lower())
        ctx = Ctx(rec['property'], mod.LEVEL, rec.get('tier', 'quick'), rec.get('seed', 1))
        try:
            if rec['kind'] == 'build':
                try:
                    ctx.build(ctx.job_of(rec))
                    print('builds now')
                    return 0
                except Violation as v:
                    print('VIOLATION property=%s replay=%s' % (rec['property'], argv[2]))
                    print(v.message)
                    return 1
            if rec['kind'] == 'pbt':
                exe = ctx.build(ctx.job_of(rec))
                ok, msg, o = ctx.replay_choices(exe, rec, rec['choices'])
            elif rec['kind'] == 'range':
                exe = ctx.build(ctx.job_of(rec))
                out = os.path.join(ctx.work, 'r')
                rc, o, e = sh([exe, 'run', rec['case'], str(rec['seed']), str(rec['start']), str(rec['count']), out], timeout=840)
                ok, msg = rc not in (0, 3, -9999), (o + e)[-800:]
            else:
                try:
                    o = mod.replay(ctx, rec) or ''
                    ok, msg = False, ''
                except Violation as v:
                    ok, msg, o = True, v.message, ''
            print(o)
            if ok:
                print('VIOLATION property=%s replay=%s' % (rec['property'], argv[2]))
                print(msg)
            return 1 if ok else 0
        finally:
            shutil.rmtree(ctx.work, ignore_errors=True)
    prop = argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    ctx = Ctx(prop, mod.LEVEL, tier, seed)
    ctx.rule = mod.RULE
    ctx.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    try:
        known = known_findings().get(prop, {})
        # a listed finding has a probe of its own, and the generators leave out just that input
        probes = getattr(mod, 'KNOWN', {})
        try:
            for k, text in sorted(known.items()):
                if k not in probes:
                    raise CheckError('finding %s has no probe' % k)
                if probes[k](ctx):
                    ctx.known_seen.append(k)
                    print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, text))
            mod.run(ctx)
            viol = None
        except Violation as v:
            ctx.stop = False
            path = ctx.confirm(v)
            viol = (v, path)
        if viol is None and not ctx.ev['evaluations']:
            raise CheckError('nothing was run')
        ctx.evidence(1 if viol else 0)
        if viol:
            print('VIOLATION property=%s replay=%s' % (prop, viol[1]))
            print(viol[0].message[:3000])
            return 1
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (prop, ctx.ev['evaluations'], len(ctx.hashes), time.time() - ctx.t0))
        return 0
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
