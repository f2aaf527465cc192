"""C09: merkle trees match the specified construction and detect every change."""
import ctypes as C
import hashlib

from vlib import clib, fmt

PROPERTY = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('ASan/UBSan execution with a range monitor on every tree access and an independent '
             'tree implementation as oracle; bit-flip campaigns against the verifier')
LEVEL_NOTE = ('Data sizes 1..700 blocks fully generated (plus 3-level trees), sizes to 1 TiB+ for '
              'the size prediction; salts, chunkings and single changes sampled.')
BUILD = {'asan': ['lib']}
PRELOAD = 'asan'
RULE = ('A case is one data size, salt, offset and chunk schedule: generate and compare tree, root '
        'and sizes, then verify with intact and with changed data, tree, salt and root; plus size '
        'predictions and refused sizes. Distinct: by (blocks, chunking, salt length, change kind).')
REQUIRED = {'trees compared': 100, 'changes detected': 1000, 'sizes predicted': 1000,
            'refused sizes': 100, 'two level trees': 10, 'three level trees': 1,
            'trees verified': 200, 'trees beyond 2 or 4 GiB': 60}
ASSUMPTIONS = ['SHA-256 of hashlib', 'no SHA-256 collisions']

FAR = [(1 << 31) - 4096, 1 << 31, (1 << 32) - 4096, (1 << 32) - 100, 1 << 32, (1 << 33) + 512,
       (1 << 40) + 7]


def cases(tier):
    return 240 if tier == 'quick' else 3000


def gen(cx, L, data, salt, off, sched, zero_fill, rng):
    """returns rc, tree stream, root"""
    m = clib.Mem(limit=1 << 26)
    pre = rng.randbytes(off)
    tl = sum(fmt.merkle_levels(len(data)))
    post = rng.randbytes(300)
    m.data = bytearray(pre + (rng.randbytes(tl) if zero_fill else bytes(tl)) + post)
    ctx = clib.Buf(L.size(clib.MERKLE), 0xd1)
    sb = clib.Buf(salt)
    rc = L.merkle_init(ctx.p, len(data), sb.p, len(salt), m.w, m.r, off, zero_fill, None)
    if rc:
        return rc, m, None, ctx
    i = 0
    for n in sched:
        b = clib.Buf(data[i:i + n])
        rc = L.merkle_write_chunk(ctx.p, b.p, b.n)
        if rc:
            return rc, m, None, ctx
        i += n
    root = clib.Buf(32, 0x11)
    rc = L.merkle_finish(ctx.p, root.p)
    size = L.merkle_get_size(ctx.p)
    cx.check_that(size == tl, 'tree-size', '%d blocks: %d != %d' % (len(data) // 4096, size, tl))
    cx.check_that(not m.bad and not m.err, 'request', '%s %s' % (m.bad, m.err))
    for o, n in m.reads + m.writes:
        if not (off <= o and o + n <= off + tl):
            cx.violation('outside-tree', '%d blocks: access %d+%d, tree %d+%d' % (
                len(data) // 4096, o, n, off, tl))
            break
    cx.check_that(bytes(m.data[:off]) == pre and bytes(m.data[off + tl:]) == post,
                  'neighbours-changed', '%d blocks' % (len(data) // 4096))
    return rc, m, root.get(), ctx


def sched_for(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return [n]
    if k == 1:
        c = rng.choice([512, 4096, 8192, 1000, 4095, 4097, 333])
    elif k == 2 and n <= 32768:
        c = rng.choice([1, 2, 3, 31])
    elif k == 3:
        out = []
        left = n
        while left:
            c = min(left, rng.choice([1, 4096, 4095, rng.randint(1, 20000), 0]))
            out.append(c)
            left -= c
        return out
    else:
        c = rng.randint(64, 70000)
    return [c] * (n // c) + ([n % c] if n % c else [])


def verify(L, blob, doff, dlen, toff, root, salt):
    m = clib.Mem(blob)
    m.log = True
    rb, sb = clib.Buf(root), clib.Buf(salt)
    rc = L.verify_merkle_tree(m.r, doff, dlen, toff, rb.p, sb.p, None)
    return rc, m


def far(cx, L, rng, data, salt, tree, root, what):
    """tree and data beyond 2 or 4 GiB of the stream"""
    toff = rng.choice(FAR) + rng.choice([0, 0, 99, 512])
    m = clib.Sparse()
    m.store(toff - 64, b'\x5a' * 64 + bytes(len(tree)) + b'\x5a' * 64)
    ctx, sb, rb = clib.Buf(L.size(clib.MERKLE), 0xd1), clib.Buf(salt), clib.Buf(32, 0x11)
    rc = L.merkle_init(ctx.p, len(data), sb.p, len(salt), m.w, m.r, toff, False, None)
    b = clib.Buf(data)
    rc = rc or L.merkle_write_chunk(ctx.p, b.p, b.n) or L.merkle_finish(ctx.p, rb.p)
    w = '%s tree at %d: rc %d' % (what, toff, rc)
    cx.check_that(rc == 0 and rb.get() == root and not m.bad, 'far-tree', w)
    cx.check_that(m.fetch(toff - 64, len(tree) + 128) == b'\x5a' * 64 + tree + b'\x5a' * 64 and
                  all(toff <= o and o + n <= toff + len(tree) for o, n in m.reads + m.writes),
                  'far-tree-place', w)
    cx.count('trees beyond 2 or 4 GiB')
    cx.eval((what, toff))
    if len(salt) != 32 or len(data) <= 4096:
        return
    doff = rng.choice([0, 512, rng.choice(FAR) + (1 << 34)])
    b = clib.Buf(salt)
    for bad in (None, 'data', 'tree'):
        v = clib.Sparse()
        v.store(doff, data)
        v.store(toff, tree)
        if bad:
            at = rng.choice([0, rng.randrange(len(tree) if bad == 'tree' else len(data))])
            at += toff if bad == 'tree' else doff
            v.store(at, bytes([v.fetch(at, 1)[0] ^ 0x40]))
        r = clib.Buf(root)
        rc = L.verify_merkle_tree(v.r, doff, len(data), toff, r.p, b.p, None)
        cx.check_that((rc == 0) == (bad is None), 'far-verify', '%s data at %d, changed: %s, rc %d' %
                      (w, doff, bad, rc))
        cx.check_that(not v.bad, 'request', '%s %s' % (w, v.bad))
        cx.eval((what, toff, doff, bad))


def run_case(cx, i, rng):
    L = clib.load(cx)
    # predictions and refusals
    for _ in range(40):
        k = rng.randint(12, 40)
        n = rng.choice([rng.randint(1, 1 << (k - 12)), (1 << (k - 12)) + rng.randint(-2, 2),
                        128 ** rng.randint(0, 4) + rng.randint(-1, 1)])
        n = min(max(n, 1), 1 << 28) * 4096
        exp = sum(fmt.merkle_levels(n))
        got = L.merkle_compute_size(n)
        cx.check_that(got == exp, 'predicted-size', '%d: %d != %d' % (n, got, exp))
        cx.count('sizes predicted')
        bad = rng.choice([n + rng.randint(1, 4095), 0, (1 << 40) + 4096 * rng.randint(1, 1 << 30),
                          (1 << 63), (1 << 64) - 4096])
        got = L.merkle_compute_size(bad)
        cx.check_that(got < 0, 'unsupported-size-predicted', '%d -> %d' % (bad, got))
        m = clib.Mem()
        ctx = clib.Buf(L.size(clib.MERKLE), 0xd1)
        sb = clib.Buf(bytes(32))
        rc = L.merkle_init(ctx.p, bad, sb.p, 32, m.w, m.r, 0, True, None)
        cx.check_that(rc != 0 and m.calls == 0, 'unsupported-size-accepted',
                      '%d -> %d after %d requests' % (bad, rc, m.calls))
        cx.count('refused sizes')
    # one tree
    if i % 40 == 7:
        blocks = rng.randint(16385, 16600)      # three levels
    elif i % 8 == 3:
        blocks = rng.choice([128 * rng.randint(1, 4) + rng.randint(-1, 1), rng.randint(129, 700)])
    elif i < 48:
        blocks = 1 + i // 2
    else:
        blocks = rng.choice([1, 1, 2, 3, 127, 128, 129, rng.randint(1, 140), rng.randint(1, 20)])
    data = rng.randbytes(4096) * 0 + rng.randbytes(blocks * 4096)
    if rng.random() < .2:
        data = bytes(blocks * 4096)
    sl = rng.choice([32, 32, 32, 0, 1, 16, 31])
    salt = rng.randbytes(sl)
    off = rng.choice([0, 512, 4096, 99])
    sched = sched_for(rng, len(data)) if blocks < 2000 else [65536] * (len(data) // 65536) + (
        [len(data) % 65536] if len(data) % 65536 else [])
    what = '%d blocks salt=%d off=%d chunks=%s' % (blocks, sl, off, sched[:3])
    cx.sample(what)
    rc, m, root, ctx = gen(cx, L, data, salt, off, sched, rng.random() < .7, rng)
    if rc:
        cx.violation('generate-fails', '%s rc=%d' % (what, rc))
        return
    tree, xroot = fmt.merkle_tree(data, salt)
    lv = fmt.merkle_levels(len(data))
    cx.count({1: 'one level trees', 2: 'two level trees', 3: 'three level trees'}[len(lv)])
    got = bytes(m.data[off:off + len(tree)])
    cx.check_that(got == tree, 'tree-content', lambda: '%s: first difference at %d' % (
        what, next(k for k in range(len(tree)) if got[k] != tree[k])))
    cx.check_that(root == xroot, 'root-hash', '%s %s != %s' % (what, root.hex(), xroot.hex()))
    cx.count('trees compared')
    cx.eval((blocks, sl, sched[:3], off))
    if blocks < 200:
        far(cx, L, rng, data, salt, tree, xroot, what)
    # more data than announced is refused and written nowhere
    before = bytes(m.data)
    if blocks < 200:
        m2 = clib.Mem(bytes(len(tree)))
        ctx2 = clib.Buf(L.size(clib.MERKLE), 0xd1)
        sb = clib.Buf(salt)
        L.merkle_init(ctx2.p, len(data), sb.p, sl, m2.w, m2.r, 0, False, None)
        cut = rng.choice([len(data) - 4096, len(data) - 1, rng.randint(0, len(data) - 1)])
        b = clib.Buf(data[:cut])
        rc1 = L.merkle_write_chunk(ctx2.p, b.p, b.n) if cut else 0
        r2 = clib.Buf(32)
        rc2 = L.merkle_finish(ctx2.p, r2.p)
        cx.check_that(rc1 == 0 and rc2 != 0, 'short-data-accepted', '%s cut=%d rc=%d' % (
            what, cut, rc2))
        b = clib.Buf(data[cut:] + b'\1' * rng.choice([1, 4096, 10000]))
        rc3 = L.merkle_write_chunk(ctx2.p, b.p, b.n)
        cx.check_that(rc3 != 0 and all(o + n <= len(tree) for o, n in m2.writes),
                      'excess-data-accepted', '%s rc=%d' % (what, rc3))
        cx.eval(('over', blocks, cut))
    # the verifier, always with a 32-byte salt
    if sl != 32:
        salt = rng.randbytes(32)
        tree, xroot = fmt.merkle_tree(data, salt)
    if blocks > 2000:
        return
    doff = rng.choice([0, 4096, 512])
    gap = rng.choice([0, 512])
    blob = bytearray(bytes(doff) + data + bytes(gap) + tree)
    toff = doff + len(data) + gap
    rc, mm = verify(L, blob, doff, len(data), toff, xroot, salt)
    cx.check_that(rc == 0, 'intact-refused', '%s rc=%d' % (what, rc))
    cx.check_that(not mm.bad and all(doff <= o and o + n <= len(blob) for o, n in mm.reads),
                  'verify-range', '%s %s' % (what, mm.bad))
    cx.count('trees verified')
    hashed = hashed_ranges(len(data))
    for _ in range(14 if blocks < 150 else 4):
        kind = rng.choice(['data', 'data', 'tree', 'tree', 'treeword', 'salt', 'root', 'swap',
                           'shorter', 'trunc', 'zeroblock'])
        b2, r2, s2, dl = bytearray(blob), bytearray(xroot), bytearray(salt), len(data)
        bit = 1 << rng.randrange(8)
        if kind == 'data':
            p = doff + rng.choice([0, len(data) - 1, rng.randrange(len(data))])
            b2[p] ^= bit
        elif kind in ('tree', 'treeword'):
            a, n = rng.choice(hashed)
            p = toff + a + rng.choice([0, n - 1, rng.randrange(n)])
            if kind == 'tree':
                b2[p] ^= bit
            else:
                w = p - (p - toff) % 32
                b2[w:w + 32] = rng.randbytes(32)
        elif kind == 'salt':
            s2[rng.choice([0, 31, rng.randrange(32)])] ^= bit
        elif kind == 'root':
            r2[rng.choice([0, 31, rng.randrange(32)])] ^= bit
        elif kind == 'swap':
            if blocks < 2:
                continue
            x, y = rng.sample(range(blocks), 2)
            bx = b2[doff + x * 4096:doff + x * 4096 + 4096]
            by = b2[doff + y * 4096:doff + y * 4096 + 4096]
            if bx == by:
                continue
            b2[doff + x * 4096:doff + x * 4096 + 4096] = by
            b2[doff + y * 4096:doff + y * 4096 + 4096] = bx
        elif kind == 'shorter':
            # (hashes of blocks beyond the data are covered by the root only)
            if blocks < 2 or len(fmt.merkle_levels(dl - 4096)) == len(fmt.merkle_levels(dl)):
                continue
            dl -= 4096
        elif kind == 'zeroblock':
            x = rng.randrange(blocks)
            if not any(b2[doff + x * 4096:doff + x * 4096 + 4096]):
                continue
            b2[doff + x * 4096:doff + x * 4096 + 4096] = bytes(4096)
        else:
            cut = rng.randint(1, len(tree) - 1) if len(tree) > 1 else 1
            # drop hashed bytes only
            last = hashed[0][0] + hashed[0][1] if blocks == 1 else len(tree)
            keep = rng.randint(0, max(h[0] + h[1] for h in hashed) - 1)
            del b2[toff + keep:]
            # a truncated tree reads short
        rc, mm = verify(L, b2, doff, dl, toff, bytes(r2), bytes(s2))
        cx.check_that(rc != 0, 'change-undetected:' + kind, '%s kind=%s' % (what, kind))
        cx.check_that(not mm.bad, 'verify-range', '%s %s' % (what, mm.bad))
        cx.count('changes detected')
        cx.eval((kind, blocks, sl, bit))
    # a failing read is never a success
    for _ in range(2):
        mm = clib.Mem(blob, fail_at=rng.randint(1, 6) if rng.random() < .5 else None,
                      short_at=rng.randint(1, 6))
        rb, sb = clib.Buf(xroot), clib.Buf(salt)
        rc = L.verify_merkle_tree(mm.r, doff, len(data), toff, rb.p, sb.p, None)
        k = min(x for x in (mm.fail_at, mm.short_at) if x)
        cx.check_that(rc != 0 or mm.calls < k, 'fault-ignored', '%s call %d' % (what, k))
        cx.count('faulty reads')


def hashed_ranges(n):
    """ranges of the tree that a hash covers (all of the blocks of every level;
    for a single block only the hash itself)"""
    lv = fmt.merkle_levels(n)
    if n == 4096:
        return [(0, 32)]
    return [(0, sum(lv))]
