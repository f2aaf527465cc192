"""C10: a refused operation leaves the archive untouched."""
import ctypes as C
import hashlib
import os
import struct

from vlib import cli, clib, core, fmt, gen
from checks import c02

PROPERTY = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('file-difference monitor around every failing tool command and library call of a '
             'refusal catalogue on normal, full, exhausted and invalid archives; ASan/UBSan')
LEVEL_NOTE = ('Catalogue of some 90 refusal scenarios times archive states (full tables, any '
              'number of free metadata bytes, signed, invalid), seeded; the file is compared byte '
              'for byte and the state kept in memory is written back and compared as well.')
BUILD = {'asan': ['lib', 'tool']}
PRELOAD = 'asan'
RULE = ('A case is an archive state; one judged execution per operation that failed (file '
        'unchanged, also after the in-memory header is written back). Distinct: by operation and '
        'archive digest; operations that succeed are not counted.')
REQUIRED = {'refused tool': 1200, 'refused lib': 1500, 'state full-parts': 8, 'state full-metas': 8,
            'state no-space': 8, 'state invalid': 8, 'state odd-hash': 8, 'write-back': 60}
ASSUMPTIONS = ['refusals caused by I/O faults are the subject of C11']

STATES = ['normal', 'full-parts', 'almost-full-parts', 'full-metas', 'almost-full-metas',
          'no-space', 'signed', 'invalid', 'merkle', 'truncated', 'odd-hash']


def cases(tier):
    return 400 if tier == 'quick' else 5000


def build(cx, rng, state, keys):
    s = gen.spec(rng, maxparts=3, big=5000, minparts=1, empty=True)
    a = gen.model(s, rng=rng)
    if state in ('full-parts', 'almost-full-parts'):
        n = 32 if state == 'full-parts' else 31
        k = 0
        while len(a.h.part_list()) < n:
            a.add('fill%d' % k, rng.randbytes(rng.randint(0, 40)))
            k += 1
    if state in ('full-metas', 'almost-full-metas'):
        n = 32 if state == 'full-metas' else rng.choice([30, 31])
        k = 0
        while len(a.h.meta_list()) < n:
            a.meta('fm%d' % k, b'v')
            k += 1
    if state == 'no-space':
        left = rng.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 39, 40, 63, 64, 71, 72])
        end = 0
        for m in a.h.metas:
            if m.id:
                end = max(end, (m.offset + m.size + 7) & ~7)
        n = fmt.META_BYTES - left - end
        if n > 0:
            a.meta('filler', rng.randbytes(n))
    if state == 'merkle':
        nm = 'mfs'
        a.add_merkle(nm, rng.randbytes(8192), rng.randbytes(32), 0)
    if state == 'truncated' and not any(p.size for p in a.h.part_list()):
        a.add('cut-me', rng.randbytes(rng.randint(1, 2000)))
    a.finish()
    if state == 'signed' or rng.random() < .2:
        c02.sign(a, keys[rng.choice(sorted(keys))])
    raw = a.bytes()
    if state == 'odd-hash':
        b = bytearray(raw)
        b[3464] = rng.choice([4, 5, 7, 128, 255, rng.randint(4, 255)])
        raw = bytes(b)
    if state == 'truncated':
        raw = raw[:rng.randint(fmt.HDR, len(raw) - 1)]
    if state == 'invalid':
        v = rng.randrange(6)
        b = bytearray(raw)
        if v == 0:
            b = b[:rng.choice([rng.randrange(fmt.HDR), fmt.HDR - 1, 4094])]
        elif v == 1:
            if rng.random() < .7:
                b[rng.randrange(4)] ^= 1 << rng.randrange(8)
            else:
                b[0:4] = rng.randbytes(4)
        elif v == 2:
            k = rng.randrange(len(a.h.meta_list()) + 1) % 32
            n = rng.choice([65535, 1921, 1920, rng.randint(1, 1920)])
            o = rng.choice([max(1, 1921 - n), 1920 if n else 1921, 65535,
                            rng.randint(max(1, 1921 - n), 65535)])
            struct.pack_into('<IHHI', b, 8 + 16 * k, 77, n, o, 0)
        elif v == 3:
            k = rng.randrange(len(a.h.part_list()) + 1) % 32
            struct.pack_into('<I', b, 520 + 32 * k, 99)
            b[520 + 32 * k + 4] ^= rng.choice([1, 1, 2, 0x80])
        elif v == 4:
            b[fmt.META_OFF + fmt.META_BYTES] = 0
        else:
            b = bytearray(rng.randbytes(rng.choice([1, 100, 4096, 9000])))
        raw = bytes(b)
        assert len(raw) < fmt.HDR or not fmt.Hdr(raw).valid()
    return a, raw


def near(cx, L, rng, d, a):
    """headers that miss being valid by one bit"""
    good = a.bytes()
    gen.put(d, 'm.bin', rng.randbytes(700))
    for k in range(16):
        b = bytearray(good)
        if k < 4:
            b[k] ^= 1 << rng.randrange(8)
        elif k < 6:
            b[rng.randrange(4)] ^= rng.choice([0x20, 0xff, 3])
        else:
            x = rng.choice(['size', 'pad', 'kind', 'meta'])
            n, m = len(a.h.part_list()), len(a.h.meta_list())
            if x in ('size', 'pad') and n:
                b[520 + 32 * rng.randrange(n) + (4 if x == 'size' else 28)] ^= \
                    1 << rng.randrange(8)
            elif x == 'meta' and m:
                j = 8 + 16 * rng.randrange(m)
                o = struct.unpack_from('<H', b, j + 6)[0]
                struct.pack_into('<H', b, j + 4, fmt.META_BYTES - o + 1)
            else:
                b[3464] = 0
        raw = bytes(b)
        if fmt.Hdr(raw).valid():
            continue
        path = gen.put(d, 'n.bpak', raw)
        p = clib.Pkg(L, path, 'r+')
        cx.check_that(p.rc != 0, 'invalid-archive-opened',
                      lambda: 'variant %d: %s' % (k, raw[:8].hex()))
        p.close()
        args = rng.choice([['add', 'n.bpak', '--part', 'zz', '--from-file', 'm.bin'],
                           ['add', 'n.bpak', '--meta', 'zz', '--from-string', 'x'],
                           ['set', 'n.bpak', '--key-id', 'x'], ['delete', 'n.bpak', '--all']])
        r = cli.run(cx, args, d)
        cx.check_that(not r.ok, 'accepted:' + args[0], lambda: 'invalid header: ' + r.brief())
        cx.check_that(gen.read(path) == raw, 'refused-but-changed:tool-' + args[0],
                      lambda: 'invalid header: ' + r.brief())
        cx.count('headers one bit from valid')
        cx.eval((raw[:4096], args[0]))


def tool_ops(rng, d, h, keys, state):
    """(args, must be refused)"""
    ids = [p.id for p in h.part_list()] or [7]
    ms = h.meta_list()
    inv = state == 'invalid'
    full = len(h.part_list())
    nm = len(ms)
    names = {'small': gen.put(d, 's.bin', rng.randbytes(700)),
             'blk': gen.put(d, 'b.bin', rng.randbytes(8192)),
             'odd': gen.put(d, 'odd.bin', rng.randbytes(rng.choice([1, 4095, 4097, 8191]))),
             'empty': gen.put(d, 'empty.bin', b''),
             'big': gen.put(d, 'bigmeta.bin', rng.randbytes(rng.choice([1921, 4000, 70000]))),
             'sig513': gen.put(d, 's513.bin', rng.randbytes(rng.choice([513, 514, 4096, 65536]))),
             'txt': gen.put(d, 'n.txt', b'abc')}
    os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
    K = gen.KEYDIR
    bad = [os.path.join(K, x) for x in ('brainpool256.pub.der', 'brainpool384.pub.der',
                                        'secp256k1.pub.der', 'secp224r1.pub.der',
                                        'ed25519.pub.der', 'rsa2048.pub.der', 'rsa3072.pub.der')]
    badpriv = [x.replace('.pub.der', '.pem') for x in bad]
    g = keys[rng.choice(sorted(keys))]
    cut = gen.put(d, 'cut.der', g.der[:rng.randint(1, len(g.der) - 1)])
    cutp = gen.put(d, 'cut.pem', gen.read(g.priv)[:rng.randint(1, 120)])
    A = 'a.bpak'
    add = ['add', A, '--part']
    name = {fmt.bid(n): n for n in ['fill%d' % k for k in range(32)] + gen.NAMES + ['mfs']}
    exist = [name[x] for x in ids if x in name]
    r = []
    p = r.append
    for e in exist[:2]:
        p((add + [e, '--from-file', names['small']], 1))
        p((add + [e, '--from-file', names['blk'], '--encoder', 'merkle'], 1))
        p((add + [e, '--from-file', g.pub, '--encoder', 'key'], 1))
        tree = [x for x in exist if fmt.tree_id(fmt.bid(x)) in ids]
        for t in tree[:1]:
            p((add + [t + '-hash-tree', '--from-file', names['small']], 1))
    p((add + ['zz', '--from-file', names['small']], full >= 32))
    p((add + ['zz', '--from-file', g.pub, '--encoder', 'key'], full >= 32))
    p((add + ['zz', '--from-file', names['blk'], '--encoder', 'merkle'],
       full >= 31 or nm >= 31 or state == 'full-metas'))
    p((add + ['zz', '--from-file', names['odd'], '--encoder', 'merkle'], 1))
    p((add + ['zz', '--from-file', names['empty'], '--encoder', 'merkle'], 1))
    p((add + ['zz', '--from-file', 'nope.bin'], 1))
    p((add + ['zz', '--from-file', 'nope.bin', '--encoder', 'merkle'], 1))
    p((add + ['zz', '--from-file', 'nope.bin', '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', 'dir'], 1))
    p((add + ['zz', '--from-file', 'dir', '--encoder', 'merkle'], 1))
    p((add + ['zz', '--from-file', 'dir', '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', '/dev/zero'], 1))
    p((add + ['zz', '--from-file', '/dev/null', '--encoder', 'merkle'], 1))
    p((add + ['zz', '--from-file', names['small'], '--encoder', 'bogus'], 1))
    p((add + ['zz', '--from-file', names['small'], '--set-flag', 'bogus'], 1))
    p((add + ['zz'], 1))
    p((add + ['zz', '--from-string', 'abc'], 1))
    p((['add', A, '--from-file', names['small']], 1))
    p((['add', A], 1))
    for b in rng.sample(bad, 3):
        p((add + ['zz', '--from-file', b, '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', cut, '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', names['empty'], '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', names['small'], '--encoder', 'key'], 1))
    p((add + ['zz', '--from-file', rng.choice(g.privs), '--encoder', 'key'], 0))
    # metadata
    M = ['add', A, '--meta']
    nofree = nm >= 32
    p((M + ['zz', '--from-file', names['big']], 1))
    p((M + ['zz', '--from-file', names['empty']], 1))
    p((M + ['zz', '--from-file', 'nope.bin'], 1))
    p((M + ['zz', '--from-file', 'dir'], 1))
    p((M + ['zz', '--from-string', 'x' * rng.choice([1920, 1921, 5000])], 1))
    p((M + ['zz', '--from-string', 'x' * rng.choice([1, 8, 20, 40, 70])], nofree))
    p((M + ['zz', '--from-string', 'abc', '--encoder', 'bogus'], 1))
    p((M + ['zz', '--from-string', rng.choice(['', 'abc', 'zz-1', '123e4567-e89b-12d3-a456',
                                               '123e4567-e89b-12d3-a456-42661417400g']),
            '--encoder', 'uuid'], 1))
    p((M + ['zz', '--from-string', rng.choice(['abc', '', '-', '99999999999999999999999', '0x']),
            '--encoder', 'integer'], 0))
    p((M + ['zz', '--from-string', rng.choice(['abc', '', '99999999999999999999999']),
            '--encoder', 'integer'], 1))
    p((M + ['zz'], 1))
    for (mid, ref), v in ms[:40]:
        for n in ('bpak-version', 'meta-a', 'meta-b', 'note', 'fm0', 'filler'):
            if fmt.bid(n) == mid and ref == 0:
                p((M + [n, '--from-string', 'x'], 1))
                ln = rng.choice([1918, 1930])
                p((['set', A, '--meta', n, '--from-string', 'y' * ln],
                   ln == 1930 or sum(len(x[1]) for x in ms) - len(v) > 1))
                p((['set', A, '--meta', n, '--from-string', 'y' * rng.choice(
                    [len(v) + 1, len(v) + 9, len(v) + 60])], 0))
                p((['set', A, '--meta', n, '--from-string', 'abc', '--encoder', 'integer'], 1))
                p((['set', A, '--meta', n, '--from-string', '7', '--encoder', 'bogus'], 1))
                p((['set', A, '--meta', n], 1))
                p((['set', A, '--meta', n, '--from-string', '12', '--encoder', 'integer'], 0))
    p((['set', A, '--meta', 'does-not-exist', '--from-string', 'x'], 1))
    p((['set', A], 1))
    p((['set', A, '--key-id', rng.choice(['', 'xyz', '0x', '99999999999999999999', '-', '1x'])], 0))
    p((['set', A, '--keystore-id', rng.choice(['', '0xg', '99999999999999999999'])], 0))
    # delete
    p((['delete', A, '--part', 'does-not-exist'], 1))
    p((['delete', A, '--part', '0xffffffff'], 1))
    p((['delete', A], 1))
    if state == 'truncated':
        p((['delete', A, '--part', '0x%x' % rng.choice(ids)], 1))
        p((['delete', A, '--part', '0x%x' % ids[-1], '--keep-meta'], 1))
        p((add + ['zz', '--from-file', names['small']], 1))
        p((add + ['zz', '--from-file', names['blk'], '--encoder', 'merkle'], 1))
        p((add + ['zz', '--from-file', g.pub, '--encoder', 'key'], 1))
    # sign
    for b in rng.sample(badpriv, 2):
        p((['sign', A, '--key', b], 1))
    p((['sign', A, '--key', g.pub], 1))
    p((['sign', A, '--key', cutp], 1))
    p((['sign', A, '--key', 'nope.pem'], 1))
    p((['sign', A, '--key', 'dir'], 1))
    p((['sign', A, '--key', names['empty']], 1))
    p((['sign', A, '--key', names['small']], 1))
    p((['sign', A, '--signature', names['sig513']], 1))
    p((['sign', A, '--signature', names['empty']], 0))
    p((['sign', A, '--signature', 'nope.bin'], 1))
    p((['sign', A, '--signature', 'dir'], 1))
    p((['sign', A], 1))
    # transport
    T = ['transport', A, '--add']
    ref = '0x%x' % rng.choice(ids)
    p((T + ['--part-ref', 'does-not-exist', '--encoder', 'bsdiff', '--decoder', 'bspatch'], 0))
    p((T + ['--part-ref', ref, '--encoder', 'bsdiff'], 0))
    p((T + ['--part-ref', ref, '--decoder', 'bspatch'], 0))
    p((T + ['--encoder', 'bsdiff', '--decoder', 'bspatch'], 0))
    p((T + ['--part-ref', ref, '--encoder', 'bsdiff', '--decoder', 'bspatch'], nofree and not any(
        m[0] == (fmt.T_ID, int(ref, 16)) for m in ms)))
    p((['transport', A], 0))
    p((['transport', A, '--encode', '--output', 'enc.out', '--origin', 'nope.bpak'], 1))
    p((['transport', A, '--decode', '--output', 'enc.out', '--origin', 'nope.bpak'], 1))
    p((['transport', A, '--encode', '--origin', A], 1))
    # create
    p((['create', A, '-Y', '-H', 'md5'], 1))
    p((['create', A, '-Y', '-S', 'dsa'], 1))
    p((['create', A, '-H', 'bogus', '-Y', '-S', 'bogus'], 1))
    p((['create', A], 1))
    # unknown arguments
    p((['add', A, '--bogus'], 1))
    p((['delete', A, '--bogus', '--all'], 0))
    p((['bogus', A], 1))
    return [(x, inv or bool(m)) if x[0] not in ('create',) else (x, bool(m)) for x, m in r]


def lib_ops(L, rng, d, h, keys, state):
    ids = [p.id for p in h.part_list()] or [7]
    name = {fmt.bid(n): n for n in ['fill%d' % k for k in range(32)] + gen.NAMES + ['mfs']}
    exist = [name[x] for x in ids if x in name] or ['none']
    e = rng.choice(exist).encode()
    f = {k: os.path.join(d, v).encode() for k, v in (
        ('small', 's.bin'), ('blk', 'b.bin'), ('odd', 'odd.bin'), ('empty', 'empty.bin'),
        ('cut', 'cut.der'), ('cutp', 'cut.pem'), ('dir', 'dir'), ('nope', 'nope'))}
    g = keys[rng.choice(sorted(keys))]
    pub = rng.choice(g.pubs).encode()
    K = [os.path.join(gen.KEYDIR, x).encode() for x in sorted(os.listdir(gen.KEYDIR))
         if not x.startswith(('rsa1', 'rsa2.', 'rsa3.'))]
    af, am, ak = L.pkg_add_file, L.pkg_add_file_with_merkle_tree, L.pkg_add_key
    ops = []
    for fn, n in ((af, 'add'), (am, 'merkle'), (ak, 'key')):
        src = {'add': f['small'], 'merkle': f['blk'], 'key': pub}[n]
        ops += [('%s-existing' % n, lambda p, fn=fn, src=src: fn(p, src, e, 0)),
                ('%s-nofile' % n, lambda p, fn=fn: fn(p, f['nope'], b'zz', 0)),
                ('%s-dir' % n, lambda p, fn=fn: fn(p, f['dir'], b'zz', 0)),
                ('%s-empty' % n, lambda p, fn=fn: fn(p, f['empty'], b'zz', 0) if fn != af else -1),
                ('%s-new' % n, lambda p, fn=fn, src=src: fn(p, src, b'zz', 0))]
    ops += [('merkle-odd', lambda p: am(p, f['odd'], b'zz', 0)),
            ('merkle-tree-exists', lambda p: am(p, f['blk'], b'mfs', 0)),
            ('tree-name-exists', lambda p: af(p, f['small'], b'mfs-hash-tree', 0)),
            ('key-cut', lambda p: ak(p, f['cut'], b'zz', 0)),
            ('key-garbage', lambda p: ak(p, f['small'], b'zz', 0)),
            ('key-unsupported', lambda p: ak(p, rng.choice(K), b'zz', 0)),
            ('delete-missing', lambda p: L.pkg_delete_part(p, 0xfffffffe, True)),
            ('delete-zero', lambda p: L.pkg_delete_part(p, 0, True)),
            ('sign-pub', lambda p: L.pkg_sign(p, pub)),
            ('sign-cut', lambda p: L.pkg_sign(p, f['cutp'])),
            ('sign-nofile', lambda p: L.pkg_sign(p, f['nope'])),
            ('sign-unsupported', lambda p: L.pkg_sign(p, rng.choice(K))),
            ('raw-513', lambda p: L.pkg_write_raw_signature(p, big.p, rng.choice(
                [513, 600, 65535, 65536, 65536 + 70]))),
            ('extract-missing', lambda p: L.pkg_extract_file(p, 0xfffffffe,
                                                             os.path.join(d, 'x').encode()))]
    if state == 'truncated':
        ops.append(('delete-truncated', lambda p: L.pkg_delete_part(p, rng.choice(ids), True)))
    if state == 'odd-hash':
        ops += [('delete-all', lambda p: L.pkg_delete_all_parts(p, rng.random() < .5)),
                ('delete-first', lambda p: L.pkg_delete_part(p, ids[0], True))]
    big = clib.Buf(b'q' * (65536 + 80))
    return ops


def run_case(cx, i, rng):
    L = clib.load(cx)
    keys = gen.keys(cx)
    d = cx.tmp()
    state = STATES[i % len(STATES)]
    cx.count('state ' + state)
    a, raw = build(cx, rng, state, keys)
    path = gen.put(d, 'a.bpak', raw)
    dig = hashlib.sha1(raw).digest()
    ops = tool_ops(rng, d, a.h, keys, state)
    lops = lib_ops(L, rng, d, a.h, keys, state)
    for args, must in rng.sample(ops, min(len(ops), 24 if cx.tier == 'quick' else 60)):
        st = os.stat(path)
        r = cli.run(cx, args, d)
        got = gen.read(path)
        if r.ok:
            if must:
                cx.violation('accepted:%s' % args[0], '%s: %s' % (state, r.brief()))
            if got != raw:
                gen.put(d, 'a.bpak', raw)
            continue
        cx.count('refused tool')
        if not cx.check_that(got == raw, 'refused-but-changed:tool-%s' % args[0],
                             lambda: '%s: %d -> %d bytes\n%s' % (state, len(raw), len(got),
                                                                 r.brief())):
            gen.put(d, 'a.bpak', raw)
        cx.eval((dig, tuple(args[:1] + [os.path.basename(x) for x in args[2:]])))
    cx.sample('%s archive, last refused: %s' % (state, args))
    if state == 'invalid':
        p = clib.Pkg(L, path, 'r+')
        cx.check_that(p.rc != 0, 'invalid-archive-opened')
        p.close()
        cx.check_that(gen.read(path) == raw, 'open-changes-invalid-file')
        cx.eval((dig, 'open'))
        near(cx, L, rng, d, a)
        cx.drop(d)
        return
    rng.shuffle(lops)
    p = clib.Pkg(L, path, 'r+')
    if p.rc:
        raise core.Violation('open-refused', '%s %d' % (state, p.rc))
    hb = p.header()
    done = []
    for name, f in lops:
        rc = f(p.p)
        clib.libc.fflush(None)
        if rc == 0:
            # a valid operation: start again from the original
            p.close()
            gen.put(d, 'a.bpak', raw)
            p = clib.Pkg(L, path, 'r+')
            done = []
            continue
        cx.count('refused lib')
        done.append(name)
        got = gen.read(path)
        if not cx.check_that(got == raw, 'refused-but-changed:lib-%s' % name,
                             lambda: '%s: rc %d, %d -> %d bytes' % (state, rc, len(raw),
                                                                    len(got))):
            p.close()
            gen.put(d, 'a.bpak', raw)
            p = clib.Pkg(L, path, 'r+')
        cx.eval((dig, 'lib', name))
        if rng.random() < .3 or name == 'delete-all':
            # what is kept in memory must not carry the refused change either
            rc = L.pkg_write_header(p.p)
            clib.libc.fflush(None)
            cx.check_that(rc == 0 and gen.read(path) == raw, 'refused-but-kept-in-memory',
                          lambda: '%s: after %s' % (state, done))
            cx.count('write-back')
            cx.eval((dig, 'write-back', name))
            gen.put(d, 'a.bpak', raw)
    p.close()
    cx.check_that(gen.read(path) == raw, 'refused-but-changed:lib-close', '%s %s' % (state, done))
    cx.drop(d)
