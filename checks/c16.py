"""C16: reading commands never change their inputs."""
import ctypes as C
import hashlib
import os
import re
import shutil
import subprocess

from vlib import cli, clib, core, fmt, gen, ops
from checks import c01, c06, c11

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('file monitor: bytes, sizes and directory listing around every reading command and '
             'call on valid, invalid and hostile inputs, a system call monitor for writes to '
             'inputs, and runs as a user who may only read the inputs; ASan/UBSan')
LEVEL_NOTE = ('Some 30 reading commands, every library reader (packages opened for reading and '
              'for update) and Python, each input replaced in turn by damaged and hostile files.')
BUILD = {'asan': ['lib', 'tool', 'py'], 'plain': ['tool']}
PRELOAD = 'asan'
RULE = ('One judged execution per reading command or call, after which all files are compared. '
        'Distinct: by command, input digests and way of running.')
REQUIRED = {'plain runs': 400, 'damaged runs': 700, 'traced runs': 250, 'read-only runs': 250,
            'read-only ok': 150, 'library calls': 2000, 'python calls': 60, 'failed': 400,
            'hostile files': 150}
ASSUMPTIONS = ['temporary files that are gone when the command ends are not judged',
               'input and output are different files']
LIMIT = 64 << 20


def cases(tier):
    return 48 if tier == 'quick' else 800


def reading(cat):
    return [o for o in cat if not o.mod and (o.reads or o.text) and o.name != 'create']


def damage(rng, raw):
    b = bytearray(raw)
    k = rng.randrange(8)
    if k == 0:
        return raw[:rng.randrange(len(raw) + 1)], 'cut'
    if k == 1:
        return raw[:rng.choice([0, 1, 4095, 4096, max(0, len(raw) - 1)])], 'cut'
    if k == 2:
        return raw + rng.randbytes(rng.choice([1, 512, 4096])), 'longer'
    if k == 3:
        return rng.randbytes(rng.choice([10, 4096, 6000])), 'noise'
    if not b:
        return b'x', 'one byte'
    lo, hi = (0, len(b)) if k < 6 else (0, min(len(b), fmt.HDR))
    for _ in range(rng.choice([1, 1, 2, 8])):
        b[rng.randrange(lo, hi)] ^= 1 << rng.randrange(8)
    return bytes(b), 'flipped'


def tame(raw):
    """announces no more data than can be written here"""
    if len(raw) < fmt.HDR:
        return True
    return sum(p.size + p.stored() for p in fmt.Hdr(raw).part_list()) < 8 << 20


def judge(cx, w, before, allowed, key, what):
    after = w.state()
    for n in sorted(set(before) | set(after)):
        if n in allowed:
            continue
        if before.get(n) != after.get(n):
            x, y = before.get(n), after.get(n)
            cx.violation(key, '%s: %s %s' % (
                what() if callable(what) else what, n,
                'disappeared' if y is None else 'appeared' if x is None else
                'changed (%d -> %d bytes)' % (len(x), len(y))))


def outputs(op):
    return (op.output,) if op.output else ()


def run_case(cx, i, rng):
    L = clib.load(cx)
    d = cx.tmp()
    w = ops.World(cx, rng, d, big=4000)
    ops.add_encoded(cx, L, w)
    cat = reading(ops.tool_catalogue(w))
    dig = hashlib.sha1(w.inputs['a.bpak']).hexdigest()
    commands(cx, rng, w, cat, dig)
    traced(cx, rng, w, cat, dig)
    read_only(cx, rng, w, cat, dig)
    library(cx, L, rng, w, dig)
    if i % 4 == 0:
        python(cx, rng, w, dig)
    cx.drop(d)


def commands(cx, rng, w, cat, dig):
    quick = cx.tier == 'quick'
    keys = w.keys
    for op in rng.sample(cat, 12) if quick else cat:
        w.reset()
        if op.output and rng.random() < .5:
            gen.put(w.d, op.output, rng.randbytes(rng.choice([10, 20000])))
        before = w.state()
        r = cli.run(cx, op.args, w.d)
        cx.count('plain runs')
        if not r.ok:
            cx.count('failed')
        cx.eval((op.name, dig))
        judge(cx, w, before, outputs(op), 'input-changed:' + op.name, r.brief)
    for op in [rng.choice(cat) for _ in range(24 if quick else 80)]:
        if not op.reads:
            continue
        w.reset()
        f = rng.choice(op.reads)
        if rng.random() < .3 and f.endswith('.bpak'):
            raw, what = c06.hostile(cx, rng, c06.base(cx, rng, keys, rng.choice(
                ['package', 'keystore', 'encoded'])))
            cx.count('hostile files')
        else:
            raw, what = damage(rng, w.inputs[f])
        if not tame(raw):
            continue
        gen.put(w.d, f, raw)
        before = w.state()
        r = cli.run(cx, op.args, w.d, fsize=LIMIT)
        cx.count('damaged runs')
        if not r.ok:
            cx.count('failed')
        cx.eval((op.name, f, hashlib.sha1(raw).digest()))
        judge(cx, w, before, outputs(op), 'input-changed:' + op.name,
              lambda: '%s %s: %s' % (f, what, r.brief()))


BAD = ('write', 'pwrite64', 'writev', 'pwritev', 'pwritev2', 'ftruncate', 'fallocate', 'truncate',
       'unlink', 'unlinkat', 'rename', 'renameat', 'renameat2', 'sendfile', 'copy_file_range',
       'splice', 'fchmod', 'chmod', 'link', 'linkat', 'symlink', 'mmap')


def traced(cx, rng, w, cat, dig):
    for op in rng.sample(cat, 8 if cx.tier == 'quick' else 20):
        w.reset()
        if rng.random() < .3 and op.reads:
            f = rng.choice(op.reads)
            raw, _ = damage(rng, w.inputs[f])
            if tame(raw):
                gen.put(w.d, f, raw)
        before = w.state()
        s = c11.Strace(cx, w, op, ['-y', '-s', '0', '-e', 'trace=openat,open,creat,' +
                                   ','.join(x for x in BAD)])
        cli.judge_end(cx, s.res(op))
        cx.count('traced runs')
        cx.eval((op.name, dig, 'traced'))
        ins = {os.path.realpath(w.path(n)) for n in before} - {
            os.path.realpath(w.path(n)) for n in outputs(op)}
        for line in s.log.splitlines():
            m = re.match(r'(?:\d+ +)?(\w+)\((.*)\) += (-?\w+)', line)
            if not m or m.group(3).startswith('-'):
                continue
            name, rest, _ = m.groups()
            paths = re.findall(r'<([^<>]*)>', rest.split(',')[0])
            paths += re.findall(r'"((?:[^"\\]|\\.)*)"', rest)
            hit = [p for p in paths if os.path.realpath(os.path.join(w.d, p)) in ins]
            if name == 'mmap':
                hit = [p for p in re.findall(r'<([^<>]*)>', rest) if p in ins] \
                    if 'PROT_WRITE' in rest and 'MAP_SHARED' in rest else []
            if name in ('openat', 'open', 'creat'):
                if 'O_TRUNC' not in rest and name != 'creat':
                    continue
            if hit:
                cx.violation('input-written:' + op.name, line[:300])
        judge(cx, w, before, outputs(op), 'input-changed:' + op.name, s.res(op).brief)


def read_only(cx, rng, w, cat, dig):
    """an unprivileged user who may read the inputs and write one directory"""
    if os.geteuid() != 0:
        return
    root = '/tmp/bpak-ro-%d' % os.getpid()
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    try:
        tool = os.path.join(root, 'bpak')
        shutil.copy(cx.builds['plain']['tool'], tool)
        os.chmod(tool, 0o555)
        ind, outd = os.path.join(root, 'in'), os.path.join(root, 'out')
        os.mkdir(ind)
        os.mkdir(outd)
        w.reset()
        for n, v in w.inputs.items():
            os.chmod(gen.put(ind, n, v), 0o444)
        os.chmod(ind, 0o555)
        os.chmod(outd, 0o777)
        os.chmod(root, 0o755)
        for op in rng.sample(cat, 8 if cx.tier == 'quick' else 20):
            w.reset()
            ref = cli.run(cx, op.args, w.d, flavour='plain')
            refout = gen.read(w.path(op.output)) if op.output and os.path.exists(
                w.path(op.output)) else None
            args = [a if a != op.output else '../out/' + a for a in op.args]
            for n in os.listdir(outd):
                os.unlink(os.path.join(outd, n))
            try:
                p = subprocess.run(['prlimit', '--cpu=30', '--', tool] + args, cwd=ind, user=65534,
                                   group=65534, extra_groups=[], stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                                   env=cli.env_for('plain'))
            except (PermissionError, OSError) as e:
                cx.count('no unprivileged user')
                raise core.Inconclusive('cannot run as another user: %r' % e)
            r = cli.Res(p.returncode, p.stdout, p.stderr, ['bpak'] + args)
            cli.judge_end(cx, r)
            cx.count('read-only runs')
            if r.ok:
                cx.count('read-only ok')
            cx.eval((op.name, dig, 'read-only'))
            cx.check_that(r.ok == ref.ok, 'needs-write-access:' + op.name, r.brief)
            if r.ok and ref.ok:
                if op.text:
                    cx.check_that(r.out == ref.out, 'other-output-when-read-only:' + op.name,
                                  r.brief)
                if op.output:
                    o = os.path.join(outd, op.output)
                    got = gen.read(o) if os.path.exists(o) else None
                    cx.check_that(got == refout, 'other-output-when-read-only:' + op.name,
                                  r.brief)
            for n, v in w.inputs.items():
                q = os.path.join(ind, n)
                cx.check_that(os.path.exists(q) and gen.read(q) == v, 'input-changed:' + op.name,
                              lambda: '%s as another user: %s' % (n, r.brief()))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def library(cx, L, rng, w, dig):
    """readers of the library, on packages opened for reading and for update"""
    P = w.path
    key = w.key.pub.encode()
    enc = lambda n: P(n).encode()

    def readers(p, ids):
        n = C.c_size_t(64)
        b = clib.Buf(64, 0)
        yield 'hash', lambda: L.pkg_update_hash(p.p, b.p, C.byref(n))
        k = C.c_void_p()
        if L.crypto_load_public_key(key, C.byref(k)) == 0:
            yield 'verify', lambda: L.pkg_verify(p.p, k)
            L.free(k)
        for q in ids[:3] + [77]:
            yield 'extract', lambda: L.pkg_extract_file(p.p, q, enc('x.out'))
            yield 'part-hash', lambda: L.pkg_part_sha256(p.p, b.p, 32, q)
        yield 'sizes', lambda: (L.pkg_size(p.p), L.pkg_installed_size(p.p))[0] * 0

    files = ['a.bpak', 's.bpak', 'bad.bpak', 'n.bpak', 'e.bpak']
    for f in files:
        for mode in ('r', 'r+'):
            w.reset()
            if rng.random() < .3:
                raw, _ = damage(rng, w.inputs[f])
                if tame(raw):
                    gen.put(w.d, f, raw)
            before = w.state()
            p = clib.Pkg(L, P(f), mode)
            cx.count('library calls')
            if p.rc:
                judge(cx, w, before, (), 'input-changed:open-' + mode, f)
                continue
            h0 = p.header()
            ids = [q.id for q in fmt.Hdr(h0).part_list()]
            for name, fn in readers(p, ids):
                rc = fn()
                clib.libc.fflush(None)
                cx.count('library calls')
                cx.eval((name, f, mode, dig))
                judge(cx, w, before, ('x.out',), 'input-changed:lib-%s-%s' % (name, mode),
                      '%s rc %d' % (f, rc))
            p.close()
            judge(cx, w, before, ('x.out',), 'input-changed:lib-close-' + mode, f)
    # keystore lookup and transport
    for _ in range(4):
        w.reset()
        if rng.random() < .5:
            raw, _ = damage(rng, w.inputs['ks.bpak'])
            gen.put(w.d, 'ks.bpak', raw)
        before = w.state()
        k = C.c_void_p()
        rc = L.keystore_load_key_from_file(enc('ks.bpak'), rng.choice([w.ksid, 1]),
                                           fmt.bid(rng.choice(['k1', 'k2', 'no'])), None, None,
                                           C.byref(k))
        if rc == 0:
            L.free(k)
        cx.count('library calls')
        cx.eval(('keystore', dig, rc))
        judge(cx, w, before, (), 'input-changed:lib-keystore', 'rc %d' % rc)
    for what, inp, org in (('encode', 'n.bpak', 'o.bpak'), ('encode', 'n.bpak', 's.bpak'),
                           ('decode', 'e.bpak', 'o.bpak'), ('decode', 'eb.bpak', 'o.bpak'),
                           ('decode', 'e.bpak', 's.bpak'), ('encode', 'n.bpak', None)):
        for mode in ('r', 'r+'):
            w.reset()
            f = rng.choice([inp, org])
            if f and rng.random() < .3:
                raw, _ = damage(rng, w.inputs[f])
                if tame(raw):
                    gen.put(w.d, f, raw)
            before = w.state()
            p = clib.Pkg(L, P(inp), mode)
            q = clib.Pkg(L, P(org), mode) if org else None
            o = clib.Pkg(L, P('t.out'), 'w+')
            rc = p.rc or o.rc or (q.rc if q else 0)
            if not rc:
                fn = L.pkg_transport_encode if what == 'encode' else L.pkg_transport_decode
                rc = fn(p.p, o.p, q.p if q else None)
            for x in (p, q, o):
                if x:
                    x.close()
            cx.count('library calls')
            cx.eval((what, inp, org, mode, dig))
            judge(cx, w, before, ('t.out',), 'input-changed:lib-%s-%s' % (what, mode),
                  'rc %d' % rc)


PY = r'''
import bpak, json, sys
a = json.load(sys.stdin)
out = []
def attempt(f):
    try:
        f()
        out.append(1)
    except Exception as e:
        out.append(0)
for f, mode in a['files']:
    def go():
        with bpak.Package(f, mode) as p:
            attempt(lambda: p.verify(a['key']))
            for n in ('digest', 'size', 'installed_size', 'parts', 'meta', 'signature', 'key_id'):
                attempt(lambda: getattr(p, n))
            for q in list(p.parts or []):
                attempt(lambda: q.read_data())
            for m in list(p.meta or []):
                attempt(lambda: (m.raw_data, m.as_string()))
    attempt(go)
def tr(inp, org, fn):
    with bpak.Package(inp, 'r') as p, bpak.Package(a['out'], 'w+') as o, bpak.Package(org, 'r') as q:
        fn(p, o, q)
for inp, org, enc in a['transport']:
    attempt(lambda: tr(inp, org, bpak.transport_encode if enc else bpak.transport_decode))
print(json.dumps(out))
'''


def python(cx, rng, w, dig):
    P = w.path
    w.reset()
    for f in ('bad.bpak', 'eb.bpak'):
        if rng.random() < .5:
            raw, _ = damage(rng, w.inputs[f])
            if tame(raw):
                gen.put(w.d, f, raw)
    before = w.state()
    r, err = c01.python(cx, PY, {
        'files': [[P(f), m] for f in ('a.bpak', 's.bpak', 'bad.bpak', 'eb.bpak', 'n.bpak')
                  for m in ('r', 'r+')],
        'key': w.key.pub, 'out': P('t.out'),
        'transport': [[P('n.bpak'), P('o.bpak'), 1], [P('e.bpak'), P('o.bpak'), 0],
                      [P('eb.bpak'), P('o.bpak'), 0], [P('n.bpak'), P('s.bpak'), 1]]})
    if r is None:
        raise core.Inconclusive('python: %s' % err[-500:])
    cx.count('python calls', len(r))
    cx.eval(('python', dig), n=len(r))
    judge(cx, w, before, ('t.out',), 'input-changed:python', err[-300:])
