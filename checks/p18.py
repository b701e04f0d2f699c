"""P18: generator output does not depend on layout, comments or unrelated code; it neither crashes nor hangs."""
import os, random, re, resource, subprocess
from driver import Job, Violation, CheckError, sh, ENV
import clsgen, layout

LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: metamorphic relation between the output for a header and for rewritten forms of it; mutation fuzzing of the generator under address and undefined behaviour sanitizers'
NOTE = ('Random headers of classes (as in P17) are rewritten: white space, line breaks, line continuations, CRLF, comments holding braces, quotes and keywords, preprocessor lines, unrelated declarations between the classes. The output must be that for the original, white space aside. '
        'Byte and token level mutations of such headers are given to a sanitized build of the generator, which must end normally within its CPU time.')
RULE = 'a rewritten header that differs from its original and holds at least one class with a member; a mutated header that is not empty; distinct by text'
ASSUMPTIONS = ['the rewritten header is valid C++ (it is compiled before a difference is reported)', 'headers are not preprocessed: no macros in use, and no #if with contents that are not code', 'raw strings and digit separators only between classes',
               'CPU time of 10 s is ample for a header of a few kilobytes', '[[ of an attribute is not separated']


def generate(exe, text, args, cpu=10, stdin=True):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=ENV)
    o, e = b'', b''
    try:
        f = p.communicate(text.encode('latin-1'), timeout=300)
        o, e = f
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise CheckError('wall clock time out of the generator')
    return p.returncode, o.decode('latin-1'), e.decode('latin-1')


def from_file(ctx, exe, text, args, name):
    """through a file, since the generator has to seek"""
    import tempfile
    f = tempfile.NamedTemporaryFile('wb', dir=ctx.work, suffix='.h', delete=False)
    f.write(text.encode('latin-1'))
    f.close()
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (10, 11))
    try:
        p = subprocess.Popen([exe] + args, stdin=open(f.name), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=ENV, cwd=ctx.work)
        try:
            o, e = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise CheckError('wall clock time out of the generator')
    finally:
        os.unlink(f.name)
    return p.returncode, o.decode('latin-1'), e.decode('latin-1')


def norm(s):
    return re.sub(r'\s+', '', s)


OPTIONS = [[], ['-overload'], ['-respect_private'], ['-typeName'], ['-use_mbr_pointers'], ['-onbase'], ['-typeName', '-overload']]


def original(classes):
    return clsgen.HEADER + '//@@\n' + '//@@\n'.join(clsgen.render(c) for c in classes)


def rewritten(classes, seed, std):
    r = random.Random(seed)
    j = layout.Junk(seed + 'j', std)
    junk = r.random() < .7
    text = clsgen.HEADER
    for c in classes:
        text += (j.some() if junk else '') + clsgen.render(c)
    text += j.some() if junk else ''
    if r.random() < .8:
        text = layout.relayout(text, seed + 'l', r.choice([.05, .2, .5]), crlf=r.random() < .15)
    return text


def compiles(text, std):
    rc, o, e = sh(['g++', '-std=' + std, '-w', '-fsyntax-only', '-fno-access-control', '-x', 'c++', '-'], input=text, timeout=120)
    return rc == 0, e


def exe_of(ctx):
    return os.path.join(ctx.stage.dir, 'classdesc')


def differs(ctx, a, b, opts, std):
    r1, o1, e1 = from_file(ctx, exe_of(ctx), a, ['-nodef'] + opts + ['visit'], 'a')
    r2, o2, e2 = from_file(ctx, exe_of(ctx), b, ['-nodef'] + opts + ['visit'], 'b')
    if r2 < 0:
        return 'generator ended by signal %d' % -r2
    if r1 != r2:
        return 'exit status %d became %d: %s' % (r1, r2, e2[:200])
    if norm(o1) != norm(o2):
        l1, l2 = [norm(x) for x in o1.split('\n') if norm(x)], [norm(x) for x in o2.split('\n') if norm(x)]
        for x, y in zip(l1 + [''] * len(l2), l2 + [''] * len(l1)):
            if x != y:
                return 'output differs: "%s" became "%s"' % (x[:150], y[:150])
    return None


def minimal(ctx, classes, seed, opts, std, budget=60):
    """fewer classes and parts, then a smaller rewriting"""
    import time
    t0 = time.time()

    def bad(cs):
        a, b = original(cs), rewritten(cs, seed, std)
        m = differs(ctx, a, b, opts, std)
        return m if m and compiles(a, std)[0] and compiles(b, std)[0] else None
    msg = bad(classes)
    if not msg:
        return None
    again = True
    while again and time.time() - t0 < budget:
        again = False
        cands = [[c] for c in classes] if len(classes) > 1 else [[clsgen.copy(classes[0], parts=classes[0].parts[:i] + classes[0].parts[i + 1:])] for i in range(len(classes[0].parts))]
        if len(classes) > 2:
            cands += [classes[:i] + classes[i + 1:] for i in range(len(classes))]
        for c in cands:
            m = bad(c)
            if m:
                classes, msg, again = c, m, True
                break
    a, b = original(classes), rewritten(classes, seed, std)
    # undo stretches of the rewriting: both texts as tokens, keep only some of the layout
    pieces = [t for t in layout.lex(b)]
    keep = [i for i, (k, t) in enumerate(pieces) if k in ('ws', 'pp')]

    def render(kept):
        s = ''
        for i, (k, t) in enumerate(pieces):
            if i in kept or k not in ('ws', 'pp'):
                s += t
            elif k == 'ws':
                s += '\n' if i and pieces[i - 1][0] == 'pp' else ' '
            elif t.lstrip().startswith('#include') or t.lstrip().startswith(('#if __', '#endif')):
                s += t
            else:
                s += '\n'
        return s

    def meaning(t):
        rc, o, e = sh(['g++', '-std=' + std, '-w', '-E', '-P', '-x', 'c++', '-'], input=t, timeout=120)
        return norm(o)
    same = meaning(b)

    def bad2(t):
        m = differs(ctx, a, t, opts, std)
        return m if m and meaning(t) == same else None
    kept = set(keep)
    n = 2
    while kept and time.time() - t0 < budget * 2:
        ks = sorted(kept)
        step = max(1, len(ks) // n)
        for i in range(0, len(ks), step):
            c = kept - set(ks[i:i + step])
            m = bad2(render(c))
            if m:
                kept, msg, b = c, m, render(c)
                break
        else:
            if step == 1:
                break
            n *= 2
    return a, b, msg


def record(ctx, a, b, opts, std, msg):
    cut = b.split('extern int aGlobal', 1)[-1] if 'extern int aGlobal' in b else b
    raise Violation('%s (%s) for %s' % (msg, ' '.join(opts), repr(cut[-500:])), dict(kind='layout', original=a, text=b, opts=opts, std=std))


SAN = dict(flags=['-DCLASSDESC_VERSION="x"', '-w'], std='c++11', asan=True, opt='-O1', xdr=False)


def sanitized(ctx):
    return ctx.build(Job('generator', 'main.cc', {'main.cc': '#include "classdesc.cc"\n'}, **SAN))


def crash(ctx, exe, text, opts):
    rc, o, e = from_file(ctx, exe, text, ['-nodef'] + opts + ['visit'], 'x')
    if rc in (0, 1) and 'Sanitizer' not in e and 'runtime error' not in e:
        return None
    if rc in (-24, -9):   # SIGXCPU, SIGKILL after it
        return 'does not terminate (10 s of CPU time)'
    m = [l for l in e.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate' in l or 'Assertion' in l]
    return 'crash (status %d) %s' % (rc, ' | '.join(m)[:400])


def shrink_crash(ctx, exe, text, opts, msg, budget=60):
    import time
    t0 = time.time()
    hang = 'terminate (' in msg
    n = 2
    while len(text) > 1 and time.time() - t0 < budget:
        step = max(1, len(text) // n)
        for i in range(0, len(text), step):
            t = text[:i] + text[i + step:]
            m = crash(ctx, exe, t, opts)
            if m and ('terminate (' in m) == hang:
                text, msg = t, m
                break
            if time.time() - t0 > budget:
                break
        else:
            if step == 1:
                break
            n *= 2
    return text, msg


WORDS = ['class', 'struct', 'enum', 'union', 'typedef', 'template', '<', '>', '>>', '<<', '(', ')', '()', '{', '}', '[', ']', '[[', ']]', ';', ',', ':', '::', '=', '"', "'", '/*', '*/', '//', '#', '\\', '\n', 'operator', 'friend', 'using', 'namespace', 'static', 'const', 'virtual',
         'public:', 'private:', 'X', '~', '*', '&', '...', '.', '0', '#pragma omit ', '#pragma treenode X\n', '-', '\0', '\xff', 'extern "C" {', 'R"(', 'final', 'alignas', 'decltype', 'static_assert', 'default', 'delete', '->', '#define A \\\n', '{}', '<:']


def mutate(r, text):
    t = text
    for i in range(r.choice([1, 1, 2, 3, 6])):
        k = r.random()
        p = r.randrange(len(t) + 1)
        if k < .15:
            t = t[:p]
        elif k < .35:
            t = t[:p] + t[p + r.choice([1, 1, 2, 5, 20, 100]):]
        elif k < .65:
            t = t[:p] + r.choice(WORDS) + t[p:]
        elif k < .75:
            q = r.randrange(len(t) + 1)
            n = r.choice([5, 20, 100])
            t = t[:p] + t[q:q + n] + t[p:]
        elif k < .85:
            t = t[:p] + chr(r.randrange(256)) + t[p + 1:]
        else:
            # swap two tokens
            toks = [x for x in layout.lex(t)]
            if len(toks) > 3:
                a, b = r.randrange(len(toks)), r.randrange(len(toks))
                toks[a], toks[b] = toks[b], toks[a]
                t = ''.join(x[1] for x in toks)
        if not t:
            t = ' '
    return t


def soup(r):
    return ' '.join(r.choice(WORDS) for i in range(r.randrange(1, 60)))


def run(ctx):
    exe = exe_of(ctx)
    san = sanitized(ctx)

    def batch(i):
        for k in range(ctx.n(12, 40)):
            if ctx.stop:
                return
            seed = 'p18/%d/%d/%d' % (ctx.seed, i, k)
            r = random.Random(seed)
            std = r.choice(['c++98', 'c++11', 'c++17'])
            opts = r.choice(OPTIONS)
            g = clsgen.Gen(seed, std != 'c++98', '-overload' in opts)
            g.cxx17 = std == 'c++17'
            cs = [g.cls() for x in range(r.choice([1, 2, 4]))]
            for v in range(4):
                vs = '%s/%d' % (seed, v)
                a, b = original(cs), rewritten(cs, vs, std)
                m = differs(ctx, a, b, opts, std)
                ctx.count(b, b != a and any(p.visits for c in cs for p in c.parts), case='layout', sample=repr(b[-200:]), labels=opts)
                if m:
                    ok, e = compiles(b, std)
                    if not ok or not compiles(a, std)[0]:
                        if os.environ.get('P18_DEBUG'):
                            print('DISCARD', e[:300])
                        ctx.ev['discards'] += 1
                        continue
                    ctx.stop = True
                    s = minimal(ctx, cs, vs, opts, std)
                    if s:
                        record(ctx, s[0], s[1], opts, std, s[2])
                    record(ctx, a, b, opts, std, m)

    def fuzz(i):
        r = random.Random('p18f/%d/%d' % (ctx.seed, i))
        g = clsgen.Gen('p18f/%d/%d' % (ctx.seed, i), True, False)
        g.cxx17 = True
        for k in range(ctx.n(60, 1000)):
            if ctx.stop:
                return
            if k % 10 == 0:
                base = ''.join(clsgen.render(g.cls()) for x in range(r.choice([1, 2])))
                base = layout.Junk(str(r.random()), 'c++17').some() + base
            t = mutate(r, base) if r.random() < .9 else soup(r)
            opts = r.choice(OPTIONS)
            m = crash(ctx, san, t, opts)
            ctx.count(t, len(t.strip()) > 0, case='fuzz', sample=repr(t[-200:]), labels=['mutated'])
            if m:
                ctx.stop = True
                t, m = shrink_crash(ctx, san, t, opts, m)
                raise Violation('generator %s on %s (%s)' % (m, repr(t[:300]), ' '.join(opts)), dict(kind='crash', text=t, opts=opts))
    ctx.pmap(lambda x: batch(x) if x % 2 == 0 else fuzz(x), list(range(ctx.n(64, 640))))


def replay(ctx, rec):
    if rec['kind'] == 'layout':
        m = differs(ctx, rec['original'], rec['text'], rec['opts'], rec['std'])
    else:
        m = crash(ctx, sanitized(ctx), rec['text'], rec['opts'])
    if m:
        raise Violation(m, rec)
