"""C11: success is reported only if everything was stored, under any I/O or memory fault."""
import hashlib
import json
import os
import re
import resource
import signal
import subprocess
import sys

from vlib import cli, clib, core, fmt, gen, ops
from checks import c02

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('fault injection with a fault-free reference run as oracle: system calls of the tool '
             'made to fail with strace, file size limits at every byte, full stdout, every malloc '
             'refused in process and in the tool, failing and short stream callbacks under '
             'ASan/UBSan')
LEVEL_NOTE = ('For each command of a catalogue of 45 on seeded archives each open, read, write, '
              'seek, truncate, close, stat (single and from there on) is failed once per draw; '
              'size limits sampled over all bytes of the output.')
BUILD = {'plain': ['lib', 'tool', 'mtrace'], 'asan': ['lib', 'tool']}
PRELOAD = 'mtrace'
RULE = ('One judged execution per operation run with one fault. Distinct: by operation, input '
        'digest and fault; faults that were never reached are not counted.')
REQUIRED = {'fault syscall': 1200, 'fault fsize': 200, 'fault stdout': 30, 'fault malloc': 3000,
            'fault tool-malloc': 350, 'fault stream': 1200, 'fault stream-short': 1200,
            'reported': 5000, 'survived': 100}
ASSUMPTIONS = ['a failing call has no effect (ENOSPC, EIO) and later calls work unless the fault '
               'is persistent', 'what was printed before a failure is not judged']

KINDS = ['syscall', 'malloc', 'fsize', 'syscall', 'stream', 'tool-malloc', 'syscall', 'malloc',
         'stream', 'syscall']
CALLS = {'read': ['EIO'], 'write': ['ENOSPC', 'EIO'], 'lseek': ['EIO'], 'ftruncate': ['EIO'],
         'close': ['EIO'], 'openat': ['ENOSPC', 'EACCES', 'ENFILE'], 'newfstatat': ['EIO'],
         'fstat': ['EIO'], 'pread64': ['EIO'], 'pwrite64': ['ENOSPC'], 'fsync': ['EIO'],
         'rename': ['EIO'], 'renameat2': ['EIO'], 'unlink': ['EIO'], 'readv': ['EIO'],
         'writev': ['ENOSPC'], 'fallocate': ['ENOSPC'], 'truncate': ['EIO'],
         'copy_file_range': ['EIO'], 'sendfile': ['EIO'], 'fdatasync': ['EIO']}
TRACE = ','.join(sorted(CALLS)) + ',mmap'


def cases(tier):
    return 80 if tier == 'quick' else 1500


def run_case(cx, i, rng):
    kind = KINDS[i % len(KINDS)]
    d = cx.tmp()
    if kind == 'stream':
        return sub(cx, i)
    L = clib.load(cx, 'plain')
    w = ops.World(cx, rng, d, big=4000)
    ops.add_encoded(cx, L, w)
    if kind == 'malloc':
        in_process(cx, L, rng, w)
    else:
        tool(cx, rng, w, kind, i)
    cx.drop(d)


def same(w, a, b):
    return set(a) == set(b) and all(ops.norm(w, a[n]) == ops.norm(w, b[n]) for n in a)


def diff(w, a, b):
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        x, y = ops.norm(w, x), ops.norm(w, y)
        if x != y:
            if x is None or y is None:
                return '%s: %s' % (n, 'missing' if y is None else 'unexpected')
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return '%s: %d and %d bytes, first difference at %d' % (n, len(x), len(y), k)
    return ''


def exempt(w, name):
    """mbedtls 2.28.8 itself crashes when memory runs out inside its RSA
    arithmetic (mbedtls_mpi_exp_mod): not the subject of this check"""
    if name.startswith(('verify', 'sign', 'crypto')) and 'rsa' in (w.key.key.kind,
                                                                   w.key2.key.kind):
        return 'libmbedcrypto'
    return ''


# ---- any malloc in the process refused ---------------------------------------------
def in_process(cx, L, rng, w):
    T = clib.Tracked(L)
    dig = hashlib.sha1(w.inputs['a.bpak']).digest()
    lst = ops.catalogue(w, L)
    quick = cx.tier == 'quick'
    for name, fn, sig in lst:
        w.reset()
        T.mt_exempt(exempt(w, name).encode())
        T.mt_reset(0)
        rc0, v0 = fn(T)
        n = T.mt_stat(0)
        ref = w.state()
        ks = list(range(1, min(n, 12) + 1))
        if n > 12:
            ks += rng.sample(range(13, n + 1), min(n - 12, 6 if quick else 40))
        for k in ks:
            for f in ((k, -k) if k < n else (k,)):
                if f < 0 and quick and rng.random() < .5:
                    continue
                w.reset()
                T.mt_reset(f)
                rc, v = fn(T)
                failed = T.mt_stat(3)
                T.mt_reset(0)
                if not failed:
                    continue
                cx.count('fault malloc')
                cx.eval((name, dig, 'malloc', f))
                how = '%s with allocation %d of %d refused' % (name, f, n)
                if rc:
                    cx.count('reported')
                    continue
                cx.count('survived')
                if not cx.check_that(rc0 == 0, 'success-because-of-fault:' + name, how):
                    continue
                cx.check_that(v == v0 or sig, 'wrong-value:' + name, how)
                st = w.state()
                cx.check_that(same(w, ref, st), 'success-with-other-content:' + name,
                              lambda: '%s: %s' % (how, diff(w, ref, st)))


# ---- the tool -------------------------------------------------------------------------
def tool(cx, rng, w, kind, i):
    quick = cx.tier == 'quick'
    cat = ops.tool_catalogue(w)
    dig = hashlib.sha1(w.inputs['a.bpak']).digest()
    n = {'syscall': 5, 'fsize': 8, 'tool-malloc': 10}[kind] * (1 if quick else 3)
    # every command in turn over the cases of a kind
    nth = sum(KINDS[k % len(KINDS)] == kind for k in range(i)) * n
    for op in [cat[(nth + j) % len(cat)] for j in range(n)]:
        ref = Ref(cx, w, op)
        if kind == 'syscall':
            syscalls(cx, rng, w, op, ref, dig, quick)
        elif kind == 'fsize':
            limits(cx, rng, w, op, ref, dig, quick)
        else:
            mallocs(cx, rng, w, op, ref, dig, quick)


class Ref:
    def __init__(self, cx, w, op):
        w.reset()
        self.r = cli.run(cx, op.args, w.d, flavour='plain', cpu=20)
        self.state = w.state()
        self.before = dict(w.inputs)


def judge(cx, w, op, ref, ok, out, how):
    if not ok:
        cx.count('reported')
        return
    cx.count('survived')
    if not cx.check_that(ref.r.ok, 'success-because-of-fault:' + op.name, how):
        return
    st = w.state()
    cx.check_that(same(w, ref.state, st), 'success-with-other-content:' + op.name,
                  lambda: '%s: %s' % (how, diff(w, ref.state, st)))
    if op.text:
        cx.check_that(out == ref.r.out, 'success-with-other-output:' + op.name,
                      lambda: '%s: %d bytes instead of %d' % (how, len(out), len(ref.r.out)))


class Strace:
    """a run of the tool under strace"""

    def __init__(self, cx, w, op, opts, flavour='plain', stdout=None, bpf=True):
        env = cli.env_for(flavour)
        tool = cx.builds[flavour]['tool']
        log = os.path.join(w.d, '..', 'strace.log')
        log = os.path.join(cx.scratch, 'strace.log')
        for attempt in (0, 1):
            argv = (['prlimit', '--cpu=%d' % (20 * (attempt + 1)), '--fsize=%d' % (256 << 20), '--',
                     'strace', '-f'] + ['--seccomp-bpf'] * bpf + ['-o', log] + opts + [tool] +
                    [os.fsencode(a) for a in op.args])
            p = subprocess.Popen(argv, cwd=w.d, env=env, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE if stdout is None else stdout,
                                 stderr=subprocess.PIPE, start_new_session=True)
            try:
                out, err = p.communicate(timeout=60 * (attempt + 1))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                rc = 'timeout'
            if rc in ('timeout', -signal.SIGXCPU, -signal.SIGKILL) and attempt == 0 and bpf:
                w.reset()
                continue
            break
        self.rc, self.out, self.err = rc, out or b'', err
        with open(log, 'rb') as f:
            self.log = f.read().decode('latin1')
        if 'strace: ' in err.decode('latin1') and ('PTRACE' in err.decode('latin1') or
                                                   'ptrace' in err.decode('latin1')):
            raise core.Inconclusive('strace: ' + err.decode('latin1')[:200])
        cx.count('tool runs')

    def res(self, op):
        return cli.Res(self.rc, self.out, self.err, ['bpak'] + op.args)


def calls_of(log):
    """{(system call, path): number of calls} of a log with decoded descriptors"""
    r = {}
    for line in log.splitlines():
        m = re.match(r'(?:\d+ +)?(\w+)\((.*)', line)
        if not m:
            continue
        name, rest = m.groups()
        p = None
        if name in ('openat', 'newfstatat', 'rename', 'unlink', 'renameat2', 'truncate') and \
                not re.match(r'\d+<', rest):
            q = re.search(r'"((?:[^"\\]|\\.)*)"', rest)
            p = q.group(1) if q else None
        else:
            q = re.match(r'\d+<([^>]*)>', rest)
            p = q.group(1) if q else None
        if p:
            r[(name, p)] = r.get((name, p), 0) + 1
    return r


def targets(w, op, log):
    """calls on the files of the operation only"""
    base = {os.path.realpath(w.path(n)): n for n in op.files()}
    r = {}
    for (name, p), n in calls_of(log).items():
        q = os.path.realpath(os.path.join(w.d, p))
        if name in CALLS and q in base:
            k = (name, base[q])
            r[k] = r.get(k, 0) + n
    return r


def syscalls(cx, rng, w, op, ref, dig, quick):
    w.reset()
    s = Strace(cx, w, op, ['-y', '-e', 'trace=' + TRACE])
    tg = targets(w, op, s.log)
    todo = []
    for (name, f), n in sorted(tg.items()):
        ks = list(range(1, n + 1))
        if n > 6 and quick:
            ks = sorted({1, 2, n} | set(rng.sample(ks, 3)))
        elif n > 60:
            ks = sorted({1, 2, n} | set(rng.sample(ks, 57)))
        for k in ks:
            todo.append((name, f, k, n))
    if quick and len(todo) > 40:
        todo = rng.sample(todo, 40)
    for name, f, k, n in todo:
        when = str(k) + ('+' if rng.random() < .3 else '')
        e = rng.choice(CALLS[name])
        fl = 'asan' if rng.random() < .15 else 'plain'
        w.reset()
        s = Strace(cx, w, op, ['-P', f, '-P', os.path.realpath(w.path(f)), '-e', 'trace=' + name,
                               '-e', 'inject=%s:error=%s:when=%s' % (name, e, when)], fl)
        if '(INJECTED)' not in s.log:
            cx.count('not reached')
            continue
        r = s.res(op)
        cli.judge_end(cx, r)
        cx.count('fault syscall')
        cx.count('fault ' + name)
        cx.eval((op.name, dig, name, f, when, e))
        judge(cx, w, op, ref, r.rc == 0, r.out,
              '%s: %s of %s failed with %s, call %s of %d' % (' '.join(op.args), name, f, e, when,
                                                              n))


def limits(cx, rng, w, op, ref, dig, quick):
    grown = [n for n in (op.output, op.mod) if n and ref.state.get(n)]
    tops = {len(ref.state[n]) for n in grown}
    if tops:
        top = max(tops)
        pts = {0, 1, 511, 512, 4095, 4096, 4097, top - 1, top - 511, top - 512, top // 2}
        pts |= {rng.randrange(top + 1) for _ in range(6 if quick else 60)}
        for lim in sorted(p for p in pts if 0 <= p < top):
            w.reset()
            r = cli.run(cx, op.args, w.d, flavour='asan' if rng.random() < .1 else 'plain',
                        fsize=lim, cpu=20, keep_xfsz=True)
            cx.count('fault fsize')
            cx.eval((op.name, dig, 'fsize', lim))
            judge(cx, w, op, ref, r.ok, r.out, '%s with files limited to %d bytes' % (
                ' '.join(op.args), lim))
    if op.text and ref.r.ok and ref.r.out:
        w.reset()
        with open('/dev/full', 'wb') as f:
            p = subprocess.run([cx.builds['plain']['tool']] + op.args, cwd=w.d, stdout=f,
                               stdin=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=cli.env_for('plain'), timeout=120)
        r = cli.Res(p.returncode, b'', p.stderr, ['bpak'] + op.args)
        cli.judge_end(cx, r)
        cx.count('fault stdout')
        cx.eval((op.name, dig, 'full stdout'))
        cx.check_that(r.rc != 0, 'full-stdout-not-reported:' + op.name, r.brief())
        for _ in range(3):
            lim = rng.randrange(len(ref.r.out))
            w.reset()
            out = os.path.join(cx.scratch, 'stdout')

            def pre():
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            with open(out, 'wb') as f:
                p = subprocess.run(['prlimit', '--fsize=%d' % lim, '--',
                                    cx.builds['plain']['tool']] + op.args, cwd=w.d, stdout=f,
                                   stdin=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   restore_signals=False, env=cli.env_for('plain'), timeout=120)
            r = cli.Res(p.returncode, b'', p.stderr, ['bpak'] + op.args)
            cli.judge_end(cx, r)
            cx.count('fault stdout')
            cx.eval((op.name, dig, 'stdout', lim))
            cx.check_that(r.rc != 0, 'short-stdout-not-reported:' + op.name, r.brief())


def mallocs(cx, rng, w, op, ref, dig, quick):
    cnt = os.path.join(cx.scratch, 'mtout')
    env = {'LD_PRELOAD': cx.builds['plain']['mtrace'], 'MT_OUT': cnt, 'MT_FAIL': '0',
           'MT_EXEMPT': exempt(w, op.name)}

    def go(n):
        w.reset()
        env['MT_FAIL'] = str(n)
        if os.path.exists(cnt):
            os.unlink(cnt)
        r = cli.run(cx, op.args, w.d, flavour='plain', env=env, cpu=20)
        a = gen.read(cnt).split() if os.path.exists(cnt) else [0, 0]
        return r, int(a[0]), int(a[1])
    r, n, _ = go(0)
    if not n:
        raise core.Inconclusive('no allocation seen')
    ks = list(range(1, min(n, 15) + 1))
    if n > 15:
        ks += rng.sample(range(16, n + 1), min(n - 15, 8 if quick else 60))
    for k in ks:
        f = -k if rng.random() < .3 else k
        r, _, failed = go(f)
        if not failed:
            continue
        cx.count('fault tool-malloc')
        cx.eval((op.name, dig, 'tool-malloc', f))
        judge(cx, w, op, ref, r.ok, r.out, '%s with allocation %d of %d refused' % (
            ' '.join(op.args), f, n))


# ---- streams, in a process of their own with the sanitizers ------------------------------
def sub(cx, i):
    from vlib import worker_api
    worker_api.run(cx, 'C11S', i)
