"""C21: outputs depend only on the inputs."""
import ctypes as C
import hashlib
import os
import re
import signal
import subprocess

from vlib import cli, clib, core, fmt, gen, ops

PROPERTY = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('repeated execution with file and result comparison under different heap fill, stack '
             'contents, automatic variable initialisation (pattern and zero builds), leftovers in '
             'destination files, path names, directories and environments; valgrind memcheck on '
             'the tool')
LEVEL_NOTE = ('Every library operation of a catalogue of 60 and commands of a catalogue of 45 on '
              'seeded archives, each run in five or more surroundings and compared byte for byte.')
BUILD = {'plain': ['lib', 'tool'], 'pattern': ['lib', 'tool'], 'zero': ['lib', 'tool'],
         'debug': ['tool']}
PRELOAD = None
RULE = ('One judged execution per repetition compared with the first run. Distinct: by operation, '
        'input digest and surroundings.')
REQUIRED = {'lib repetitions': 4500, 'tool repetitions': 1000, 'memcheck runs': 70,
            'compared files': 20000, 'leftovers': 1500, 'memcheck ok': 40}
ASSUMPTIONS = ['POSIXLY_CORRECT and variables of the C library that ask for other behaviour are '
               'not varied', 'a signature or merkle tree is compared after checking that it is '
               'valid; its random bytes are masked']

M_PERTURB = -6
LIBC_ENVS = [{}, {'MALLOC_PERTURB_': '85', 'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Tokyo'},
             {'MALLOC_PERTURB_': '255', 'LANG': 'C.UTF-8', 'HOME': '/', 'USER': 'someone',
              'TMPDIR': '/nonexistent', 'COLUMNS': '40', 'X' * 300: 'y' * 5000},
             {'MALLOC_PERTURB_': '1', 'SOURCE_DATE_EPOCH': '86400', 'LOGNAME': 'root',
              'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0', 'HOSTNAME': 'elsewhere'},
             {'GLIBC_TUNABLES': 'glibc.malloc.perturb=170', 'TERM': 'xterm', 'A': 'b' * 90000,
              'TZ': 'UTC+13'}]


def cases(tier):
    return 60 if tier == 'quick' else 900


def run_case(cx, i, rng):
    d = os.path.join(cx.tmp(), 'w')
    os.makedirs(d)
    L = clib.load(cx, 'plain')
    w = ops.World(cx, rng, d, big=4000)
    ops.add_encoded(cx, L, w)
    if i % 3 == 0:
        library(cx, rng, w)
    elif i % 3 == 1:
        tool(cx, rng, w, i)
    else:
        memcheck(cx, rng, w, i)
        tool(cx, rng, w, i, 2)


def leftovers(cx, rng, w, names, ref):
    """the destinations already exist with something else in them"""
    for n in names:
        k = len(ref.get(n) or b'')
        m = rng.choice([0, 1, max(0, k - 1), k, k + 1, k + 513, 3 * k + 40000])
        v = rng.choice([lambda: rng.randbytes(m), lambda: b'\xff' * m,
                        lambda: (w.inputs['n.bpak'] * (m // len(w.inputs['n.bpak']) + 1))[:m]])()
        gen.put(w.d, n, v)
        cx.count('leftovers')


def compare(cx, w, name, how, ref, st, unwritten=()):
    cx.count('compared files', len(ref))
    if ref == st:
        return
    ref = {k: v for k, v in ref.items() if k not in unwritten}
    st = {k: v for k, v in st.items() if k not in unwritten}
    from checks import c11
    cx.check_that(c11.same(w, ref, st), 'files-differ:' + name,
                  lambda: '%s: %s' % (how, c11.diff(w, ref, st)))


# ---- library -------------------------------------------------------------------------
def library(cx, rng, w):
    L = {f: clib.load(cx, f) for f in ('plain', 'pattern', 'zero')}
    libc = clib.libc
    dig = hashlib.sha1(w.inputs['a.bpak']).digest()
    cat = ops.catalogue(w, L['plain'])
    first = w.d
    base = os.path.dirname(first)
    other = os.path.join(base, rng.choice(['x', 'd' * 200, 'with space', 'e/f/g/h']), 'y')
    os.makedirs(other)
    ways = []
    for f in ('plain', 'plain', 'plain', 'pattern', 'zero'):
        ways.append((f, rng.choice([0, 0, 1, 85, 170, 255]), rng.randrange(256),
                     rng.choice([0, 0x5a, 0xff]), rng.random() < .4))
    ways[0] = ('plain', 0, 0, 0, False)
    for name, fn, sig in cat:
        ref = None
        for f, fill, stack, mix, moved in ways:
            w.d = other if moved else first
            w.reset()
            if ref:
                outs = [n for n in ('x.out', 't.out')]
                leftovers(cx, rng, w, outs, ref[2])
            libc.mallopt(M_PERTURB, fill)
            clib.Mix.value = mix
            L[f].sh_dirty_stack(stack, 150000)
            rc, v = fn(L[f])
            libc.mallopt(M_PERTURB, 0)
            clib.Mix.value = 0
            st = w.state()
            if ref is None:
                ref = rc, v, st
                continue
            how = '%s: build %s, heap fill %d, stack %d, buffers %d%s' % (
                name, f, fill, stack, mix, ', other directory' if moved else '')
            cx.count('lib repetitions')
            cx.eval((name, dig, f, fill, stack, mix, moved))
            if not cx.check_that(rc == ref[0], 'result-differs:' + name,
                                 '%s: %d instead of %d' % (how, rc, ref[0])):
                continue
            cx.check_that(sig or v == ref[1], 'value-differs:' + name,
                          lambda: '%s: %s' % (how, brief(ref[1], v)))
            # an operation that was refused need not touch its destination
            compare(cx, w, name, how, ref[2], st,
                    ['x.out', 't.out'] if rc or 't.out' not in ref[2] else ['x.out']
                    if 'x.out' not in ref[2] else [])
    w.d = first


def brief(a, b):
    a, b = repr(a), repr(b)
    k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return 'at %d: %s and %s' % (k, a[k:k + 60], b[k:k + 60])


# ---- tool ----------------------------------------------------------------------------
def tool(cx, rng, w, i, n=None):
    cat = ops.tool_catalogue(w)
    dig = hashlib.sha1(w.inputs['a.bpak']).digest()
    first = w.d
    if n is None:
        n = len(cat) // 3
    start = i // 3 * n
    for op in [cat[(start + j) % len(cat)] for j in range(n)]:
        w.d = first
        w.reset()
        r0 = cli.run(cx, op.args, w.d, flavour='plain', cpu=20)
        ref = w.state()
        for f in ('plain', 'pattern', 'zero', 'plain', 'plain'):
            d = os.path.join(cx.tmp(), 't' + rng.choice(['', ' x', 'l' * 150]))
            os.makedirs(d)
            w.d = d
            w.reset()
            env = rng.choice(LIBC_ENVS)
            names = rename(rng, op, sorted(w.inputs))
            for a, b in names.items():
                if os.path.exists(w.path(a)):
                    os.rename(w.path(a), w.path(b))
            left = bool(op.output) and rng.random() < .7
            if left:
                leftovers(cx, rng, w, [names.get(op.output, op.output)],
                          {names.get(op.output, op.output): ref.get(op.output)})
            args = [names.get(a, a) for a in op.args]
            # with -Y the archive is overwritten: otherwise create refuses
            if left and op.name == 'create':
                args.insert(1, '-Y')
            if not op.text:
                args += ['-v'] * rng.choice([0, 0, 1, 2])
            r = cli.run(cx, args, w.d, flavour=f, env=env, cpu=20)
            for a, b in names.items():
                if os.path.exists(w.path(b)):
                    os.rename(w.path(b), w.path(a))
            st = w.state()
            how = '%s, build %s, environment %s%s' % (
                r.brief(), f, sorted((k[:20], x[:20]) for k, x in env.items()),
                ', destination existed' if left else '')
            cx.count('tool repetitions')
            cx.eval((op.name, dig, f, LIBC_ENVS.index(env), left, tuple(sorted(names.values()))))
            if not cx.check_that(r.rc == r0.rc, 'exit-code-differs:' + op.name,
                                 '%s instead of %s: %s' % (r.rc, r0.rc, how)):
                continue
            if op.text:
                out = r.out
                for a, b in names.items():
                    out = out.replace(b.encode(), a.encode())
                cx.check_that(out == r0.out, 'text-differs:' + op.name,
                              lambda: '%s: %s' % (how, brief(r0.out, out)))
            compare(cx, w, op.name, how, ref, st, [op.output] if r.rc and op.output else [])
    w.d = first


def rename(rng, op, inputs):
    if rng.random() < .4:
        return {}
    r = {}
    for n in {a for a in op.args if a in inputs or a == op.output}:
        r[n] = rng.choice(['renamed-%s', 'a much longer name for the file %s', 'q%s.x']) % n
    return r


# ---- memcheck ----------------------------------------------------------------------------
def memcheck(cx, rng, w, i):
    cat = ops.tool_catalogue(w)
    n = 4 if cx.tier == 'quick' else 8
    start = i // 3 * n
    for op in [cat[(start + j) % len(cat)] for j in range(n)]:
        w.reset()
        dig = hashlib.sha1(w.inputs['a.bpak']).digest()
        log = os.path.join(cx.scratch, 'vg.log')
        argv = ['prlimit', '--cpu=120', '--', 'valgrind', '-q', '--log-file=' + log,
                '--error-limit=no', '--num-callers=25', '--track-origins=no', '--leak-check=no',
                '--malloc-fill=a7', '--free-fill=5c', '--error-exitcode=0',
                cx.builds['debug']['tool']] + op.args
        try:
            p = subprocess.run(argv, cwd=w.d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300,
                               env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
        except subprocess.TimeoutExpired:
            cx.count('memcheck too slow')
            continue
        text = gen.read(log).decode('utf-8', 'replace')
        if 'valgrind: ' in text or p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            cx.count('memcheck not usable')
            continue
        cx.count('memcheck runs')
        cx.count('memcheck ok' if p.returncode == 0 else 'memcheck refused')
        cx.eval((op.name, dig, 'memcheck'))
        for e in errors(text):
            cx.violation('uninitialised:' + e[0], ' '.join(op.args) + '\n' + e[1][:2000])
    w.reset()


def errors(text):
    """(key, report) of the reports about uninitialised or invalid memory"""
    for blk in re.split(r'(?m)^==\d+== *\n', text):
        lines = [re.sub(r'^==\d+== ?', '', x) for x in blk.splitlines()]
        lines = [x for x in lines if x.strip()]
        if not lines:
            continue
        head = lines[0].strip()
        if not re.search(r'uninitialised|Invalid (read|write|free)|overlap|Mismatched', head):
            continue
        fr = [re.match(r'\s+(?:at|by) 0x[0-9A-F]+: (\S+) \((.*)\)', x) for x in lines[1:]]
        fr = [m.groups() for m in fr if m]
        own = [f for f, where in fr if not where.startswith('in /') and 'vg_' not in where and
               re.match(r'[\w-]+\.c:\d+', where)]
        key = '%s:%s' % ('write' if 'param' in head else 'use', own[0] if own else '?')
        yield key, '\n'.join(lines)
