"""C22: independent objects can be used from several threads at once."""
import hashlib
import os
import re
import shutil
import signal
import subprocess

from vlib import clib, core, fmt, gen, ops

PROPERTY = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('ThreadSanitizer on a multi-threaded harness over every library module with injected '
             'delays; results of every operation compared with a run of the same plan one thread '
             'after the other (also without sanitizer, at full speed)')
LEVEL_NOTE = ('Seeded plans of 2 to 8 threads, each running all 19 operation kinds on objects of '
              'its own; ThreadSanitizer reports a race between any two threads that touch the '
              'same memory, independent of whether the accesses actually collide.')
BUILD = {'tsan': ['threads'], 'plain': ['threads', 'lib']}
PRELOAD = None
TRUST_FIRST = True
RULE = ('One judged execution per operation run concurrently (result compared with the sequential '
        'run, no race reported). Distinct: by operation, plan seed and threads; distinct '
        'interleavings by order of starts and ends.')
OPS = ['build', 'create', 'sign', 'raw', 'delete', 'read', 'encode', 'decode', 'delta', 'merkle',
       'hash', 'stream', 'sdecode', 'keys', 'crypto', 'keystore', 'header', 'text', 'errors']
REQUIRED = {'parallel runs': 70, 'operations': 8000, 'overlaps': 30000, 'overlap pairs': 3000}
REQUIRED.update({'op ' + n: 200 for n in OPS})
ASSUMPTIONS = ['the allocation, hash and crypto callbacks are set before the threads start',
               'accesses inside liblzma and libmbedcrypto are not instrumented']


def cases(tier):
    return 40 if tier == 'quick' else 900


def prepare(cx, rng, d):
    L = clib.load(cx, 'plain')
    wd = cx.tmp()
    for _ in range(20):
        w = ops.World(cx, rng, wd, big=3000)
        ops.add_encoded(cx, L, w)
        if max(len(v) for v in w.inputs.values()) < 150000:
            break
    keys = w.keys
    for n, v in w.inputs.items():
        gen.put(d, n, v)
    gen.put(d, 'm.bin', gen.content(rng, 4096 * rng.choice([1, 3, 5, 33, 129])))
    gen.put(d, 'ksid', b'%d' % w.ksid)
    kinds = {'rsa4096': 'rsa', 'secp256r1': 'p256', 'secp384r1': 'p384', 'secp521r1': 'p521'}
    names = sorted(keys)
    for n in ('rsa4096', 'secp256r1', 'secp384r1', 'secp521r1'):
        c = [keys[k] for k in names if kinds[n] in keys[k].name.lower() or
             n in keys[k].name.lower()]
        k = rng.choice(c)
        gen.put(d, n + '.pub', k.der)
        gen.put(d, n + '.priv', gen.read(k.priv))
    gen.put(d, 'signer.pub', w.key.der)
    shutil.rmtree(wd, ignore_errors=True)


def plan(rng, nt, rounds, only=None):
    lines = []
    shared = [rng.getrandbits(40) for _ in range(200)]
    for t in range(nt):
        for r in range(rounds):
            lst = list(only or OPS)
            rng.shuffle(lst)
            for n in lst:
                # often the very same work in several threads
                s = rng.choice(shared[:8]) if rng.random() < .5 else rng.getrandbits(40)
                lines.append((t, n, s))
    return lines


def run(cx, exe, mode, d, lines, env, wall=None):
    wall = wall or (40 if cx.tier == 'quick' else 240)
    for t in range(16):
        shutil.rmtree(os.path.join(d, 't%d' % t), ignore_errors=True)
    with open(os.path.join(d, 'plan'), 'w') as f:
        for t, n, s in lines:
            f.write('%d %s %d\n' % (t, n, s))
    log = os.path.join(d, 'log')
    if os.path.exists(log):
        os.unlink(log)
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C',
         'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:'
         'report_signal_unsafe=0:atexit_sleep_ms=0'}
    e.update(env)
    argv = ['prlimit', '--cpu=%d' % (wall * 2), '--fsize=%d' % (1 << 28), '--', 'setarch', '-R',
            exe, mode, 'plan', 'log']
    for attempt in (0, 1):
        p = subprocess.Popen(argv, cwd=d, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=wall * (attempt + 1))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            rc = 'timeout'
        err = err.decode('utf-8', 'replace')
        if 'unexpected memory mapping' in err and argv[4:6] == ['setarch', '-R']:
            raise core.Inconclusive('ThreadSanitizer does not start: ' + err[:200])
        if 'setarch' in err and 'ersonality' in err and argv[4] == 'setarch':
            del argv[4:6]
            continue
        if rc in ('timeout', -signal.SIGKILL) and attempt == 0 and not any(
                own for _, own, _ in races(err)):
            continue
        break
    return rc, err, read_log(log)


def read_log(p):
    r = {}
    if os.path.exists(p):
        with open(p) as f:
            for x in f:
                t, k, n, dig, a, b = x.split()
                r[(int(t), int(k))] = (n, dig, int(a), int(b))
    return r


def races(text):
    for blk in re.split(r'(?m)^={10,}$', text):
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', blk)
        if not m:
            continue
        fr = re.findall(r'#\d+ (\S+) (\S+?):\d+', blk)
        own = [f for f, p in fr if re.search(r'/(lib|ext|include)/', p) and '/vlib/' not in p]
        yield '%s:%s' % (m.group(1).strip(), own[0] if own else '?'), bool(own), blk.strip()


def run_case(cx, i, rng):
    d = cx.tmp()
    prepare(cx, rng, d)
    tsan, plain = cx.builds['tsan']['threads'], cx.builds['plain']['threads']
    quick = cx.tier == 'quick'
    nt = rng.choice([2, 3, 4, 4, 8])
    noise = {'NOISE': str(rng.randrange(1 << 30))} if rng.random() < .7 else {}
    hooks = {'HOOKS': '1'} if rng.random() < .5 else {}
    env = dict(noise, **hooks)
    lines = plan(rng, nt, 1)
    if not judge(cx, d, 'tsan', tsan, lines, env, hooks, nt):
        return
    # the same without the sanitizer: real speed, more threads and rounds
    nt = rng.choice([4, 8, 12])
    some = rng.sample(OPS, rng.choice([3, 6, 19]))
    lines = plan(rng, nt, max(1, (6 if quick else 12) * 4 // len(some)), some)
    judge(cx, d, 'plain', plain, lines, env, hooks, nt)
    cx.drop(d)


def judge(cx, d, what, exe, lines, env, hooks, nt):
    rc0, err0, seq = run(cx, cx.builds['plain']['threads'], 'seq', d, lines, hooks)
    if rc0 == 77 or rc0 == 'timeout':
        raise core.Inconclusive('sequential run: %s' % rc0)
    if rc0 != 0:
        raise core.Violation('sequential-run:%s' % rc0, err0[-2000:])
    rc, err, par = run(cx, exe, 'par', d, lines, env)
    cx.count('parallel runs')
    raced = False
    for key, own, blk in races(err):
        raced = True
        if own:
            cx.violation(key, blk[:6000])
        else:
            cx.count('race reports outside the library')
            cx.violation('harness-race:' + key, blk[:4000])
    if raced:
        return False        # what the run computed says no more
    if rc == 'timeout':
        raise core.Violation('hang:threads', 'the threads did not finish\n' + err[-1500:])
    if rc == 77 or rc == -signal.SIGKILL:
        raise core.Inconclusive('parallel run: %s %s' % (rc, err[-300:]))
    if rc not in (0, 66):
        raise core.Violation('crash:threads:%s' % rc, err[-3000:])
    cx.check_that(set(par) == set(seq) and len(par) == len(lines), 'operations-missing',
                  '%d of %d' % (len(par), len(lines)))
    ev = []
    spans = []
    for (t, k), (n, dig, a, b) in sorted(par.items()):
        cx.count('operations')
        cx.count('op ' + n)
        ev += [(a, 0, t, k), (b, 1, t, k)]
        spans.append((a, b, t, n))
        cx.check_that(dig == seq[(t, k)][1], 'result-differs:' + n,
                      'operation %d of thread %d of %d, %s build: the result differs from the one '
                      'of the same operation alone (plan line %r)' % (
                          k, t, nt, what, [x for x in lines if x[0] == t][k]))
    ev.sort()
    order = hashlib.sha1(repr([x[1:] for x in ev]).encode()).digest()
    cx.count('interleavings %s' % what)
    for t, n, s in lines:
        cx.eval((what, n, s, nt, order))
    spans.sort()
    pairs = set()
    for j, (a, b, t, n) in enumerate(spans):
        for a2, b2, t2, n2 in spans[j + 1:]:
            if a2 >= b:
                break
            if t2 != t:
                cx.count('overlaps')
                pairs.add(tuple(sorted((n, n2))))
    cx.count('overlap pairs', len(pairs))
    return True
