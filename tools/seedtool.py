#!/usr/bin/env python3
"""Try the planted bugs of /verif/seeded:  seedtool.py [--nocheck] ID...

For each: the patch applies, the tree builds, the stable tests pass, demo.sh
fails with it and passes without it, and whether the check of its property
catches it. The tree is put back as it was."""
import json, os, subprocess, sys

REPO = '/repo'
SEEDED = '/verif/seeded'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **k)


def stable_missing():
    sh('bash /opt/vp/test.sh /tmp/seed-x.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    x = json.load(open('/tmp/seed-x.json'))
    return [t for t in (b.get('stable') or b.get('passed')) if t not in x['passed']]


def demo(i):
    try:
        return sh('bash %s/%s/demo.sh' % (SEEDED, i), cwd=REPO, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess('', 124, 'timeout')


def main():
    args = sys.argv[1:]
    check = '--nocheck' not in args
    for i in [a for a in args if a[:2] != '--']:
        d = '%s/%s' % (SEEDED, i)
        prop = json.load(open(d + '/meta.json'))['property']
        out = [i, prop]
        r = sh('git -C /repo apply --check %s/patch.diff' % d)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout); continue
        r = demo(i)
        if r.returncode:
            print(i, 'DEMO FAILS UNPATCHED', r.stdout[-1500:]); continue
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                print(i, 'DOES NOT BUILD', r.stdout[-1500:]); continue
            m = stable_missing()
            if m:
                out.append('TESTS FAIL %s' % m[:4])
            r = demo(i)
            out.append('demo rc %d' % r.returncode + ('' if r.returncode else ' NOT BROKEN'))
            if check:
                r = sh('cd /verif && timeout 900 ./run %s quick' % prop)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + prop + ' ')]
                out.append('CAUGHT' if r.returncode == 1 and v else 'MISSED rc %d' % r.returncode)
        finally:
            sh('git -C /repo checkout -- .')
        print(*out, flush=True)
    sh('bash /opt/vp/build.sh')


main()
