#!/usr/bin/env python3
"""Author planted bugs (development only; no check uses this).

  tools_seed.py SPEC.py ...    make and confirm seeded/<id>/ from each spec
  tools_seed.py --catch ID...  run the property's check against each bug

A spec is a Python file defining ID, PROP, EDITS [(file, old, new)], NEEDS,
BREAKS and DEMO (source of demo.py)."""
import fcntl
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BASE = '4e6e561'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def git(*a):
    r = sh(['git', '-C', REPO] + list(a))
    if r.returncode:
        raise SystemExit(r.stdout.decode())
    return r.stdout.decode('utf-8', 'replace')


def build():
    r = sh(['bash', '/opt/vp/build.sh'])
    return r.returncode == 0, r.stdout.decode('utf-8', 'replace')[-2500:]


def tests():
    out = '/tmp/seed-out.json'
    sh(['bash', '/opt/vp/test.sh', out])
    got = json.load(open(out))
    want = json.load(open('/opt/vp/BASELINE.json'))
    want = want.get('passed') or want.get('stable') or want
    return sorted(set(want) - set(got['passed']))


def demo(d):
    t = time.time()
    try:
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, timeout=300)
        return r.returncode, r.stdout.decode('utf-8', 'replace'), \
            time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout', 300


def blame(f):
    out = git('blame', '-s', '-l', 'HEAD', '--', f).splitlines()
    bases = set(git('rev-list', BASE).split())
    return [l.split()[0].lstrip('^') in bases or
            any(b.startswith(l.split()[0].lstrip('^')) for b in bases)
            for l in out]


def own_lines(patch):
    """Removed lines that came with a later commit, and their total."""
    f, n, own, total = None, 0, [], 0
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            f, b = l[6:], blame(l[6:])
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-'):
            total += 1
            if not b[n - 1]:
                own.append(l)
            n += 1
        elif l.startswith(' '):
            n += 1
    return own, total


def make(s):
    d = os.path.join(V, 'seeded', s['ID'])
    if git('status', '--porcelain').strip():
        raise SystemExit('/repo is not clean')
    for f, old, new in s['EDITS']:
        path = os.path.join(REPO, f)
        src = open(path).read()
        if src.count(old) != 1:
            git('checkout', '--', '.')
            return '%s: %d matches in %s of\n%s' % (s['ID'], src.count(old),
                                                    f, old)
        open(path, 'w').write(src.replace(old, new))
    patch = git('diff')
    why = None
    own, total = own_lines(patch)
    if own or not total:
        git('checkout', '--', '.')
        return '%s: %d removed lines, not original: %s' % (s['ID'], total, own)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write('from bd import *\n' +
                                    s['DEMO'].strip('\n') + '\n')
    shutil.copy(os.path.join(V, 'seedkit/bd.py'), d + '/bd.py')
    open(d + '/demo.sh', 'w').write(
        '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\n'
        'exec python3 "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'],
               'what_it_breaks': s['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    try:
        ok, log = build()
        if not ok:
            why = 'does not build\n' + log
        else:
            miss = tests()
            if miss:
                why = 'fails tests: %s' % miss
            else:
                rc, out, t1 = demo(d)
                print('  patched: rc %d (%.1fs) %s' % (rc, t1,
                                                       out.strip()[-300:]))
                if rc == 0:
                    why = 'demo passes with the patch'
    finally:
        git('checkout', '--', '.')
        build()
    if not why:
        rc, out, t1 = demo(d)
        if rc:
            why = 'demo fails on the unchanged tree: rc %d %s' % (
                rc, out[-1500:])
    if why:
        shutil.rmtree(d)
        return '%s: %s' % (s['ID'], why)
    return None


def catch(bug, check=None):
    d = os.path.join(V, 'seeded', bug)
    m = json.load(open(d + '/meta.json'))
    mut = '/tmp/mut'
    lock = open('/tmp/mut.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.makedirs(mut, exist_ok=True)
    sh(['rsync', '-a', '--delete', '--exclude=_build', REPO + '/', mut + '/'])
    r = sh(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=mut)
    if r.returncode:
        return 'patch fails: ' + r.stdout.decode()
    t = time.time()
    env = dict(os.environ, BPAK_REPO=mut, BPAK_BUILD='/tmp/mbuild')
    env.setdefault('VERIF_SEED', '1')
    r = sh(['python3', V + '/run.py', check or m['property'], 'quick'],
           cwd=V, env=env)
    out = r.stdout.decode('utf-8', 'replace')
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    dt = time.time() - t
    k = [l for i, l in enumerate(out.splitlines()) if i and
         out.splitlines()[i - 1].startswith('VIOLATION')]
    res = 'CAUGHT' if r.returncode == 1 and v else 'missed (rc %d)' % \
        r.returncode
    return '%s %s %d keys %.0fs %s' % (
        res, check or m['property'], len(v), dt,
        (k[0][:150] if k else (v[0][:120] if v else out[-300:])))


def main():
    if sys.argv[1] == '--catch':
        for b in sys.argv[2:]:
            b, _, c = b.partition('@')
            print('%-28s %s' % (b, catch(b, c or None)), flush=True)
        return
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in sys.argv[1:]:
        if not f.endswith('.py'):
            continue
        for s in runpy.run_path(f)['S']:
            if only and s['ID'] not in only:
                continue
            if not only and os.path.exists(V + '/seeded/' + s['ID']):
                continue
            print(s['ID'], flush=True)
            e = make(s)
            print('  ' + (e or 'kept'), flush=True)


main()
