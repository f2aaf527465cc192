"""C04: a binary delta always rebuilds exactly the target data.

The real delta encoder and decoder run under ASan/UBSan on exact-size heap
blocks; every patch is also judged by an independent decompressor and patcher,
and every origin/target access the decoder asks for is recorded and checked."""
import ctypes as C

from vlib import clib, fmt

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = ('ASan/UBSan execution of the delta encoder and decoder with an online range monitor '
             'and an independent patcher as oracle')
LEVEL_NOTE = ('Sampled origins, targets, chunkings and work buffers (thousands per run, seeded); '
              'every patch is judged by an independent decompressor and patcher and every access '
              'by ASan on exact-size blocks. Trusts Python lzma and the model in vlib/fmt.py.')
BUILD = {'asan': ['lib']}
PRELOAD = 'asan'
RULE = ('A case draws an origin and target (21 shape families, sizes 0..200 kB), encodes it with '
        'all three compressions, applies the patch with an independent patcher and with '
        'bpak_bspatch under several chunk schedules and work buffer sizes. Non-trivial: the target '
        'is not empty; distinct: by digest of shape, origin, target, compression, chunking.')
REQUIRED = {'patches with diff bytes': 50, 'patches with extra bytes': 50,
            'patches with negative adjust': 10, 'patch applications': 300, 'hand made patches': 80,
            'hand made: steps back': 20, 'hand made: exact steps': 500,
            'streams beyond 2 or 4 GiB': 200}
ASSUMPTIONS = ['offsets and sizes up to 200 kB per delta (2 MB thorough), at any place of the streams']

FAR = [(1 << 31) - 100, 1 << 31, (1 << 32) - 1, (1 << 32) - 70, 1 << 32, (1 << 32) + 512,
       (1 << 33) + 12345, 1 << 40]
SHAPES = ['empty-origin', 'empty-target', 'same', 'tiny', 'random', 'edit', 'periodic',
          'shuffle', 'disjoint', 'repeat', 'grow', 'shrink', 'reverse', 'swap', 'alpha2', 'code',
          'growth-edge', 'move-back', 'zeros', 'sparse', 'rotate']
EDGES = [1, 2, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 4097, 32768, 65535, 65536, 65537,
         131072]


def cases(tier):
    return 345 if tier == 'quick' else 4000


def gen(rng, shape, tier):
    big = 3000 if rng.random() < 0.8 else (60000 if tier == 'quick' else 400000)
    n = rng.choice([rng.randint(1, 64), rng.randint(1, 700), rng.randint(1, big)])
    rb = rng.randbytes
    if shape == 'empty-origin':
        return b'', rb(n)
    if shape == 'empty-target':
        return rb(n), b''
    if shape == 'same':
        a = rb(n)
        return a, a
    if shape == 'tiny':
        k = rng.randint(0, 4)
        m = rng.randint(0, 4)
        al = rng.randint(1, 3)
        return (bytes(rng.randrange(al) for _ in range(k)),
                bytes(rng.randrange(al) for _ in range(m)))
    if shape == 'random':
        return rb(n), rb(rng.randint(1, n + 5))
    if shape == 'edit':
        a = rb(n)
        b = bytearray(a)
        for _ in range(rng.randint(1, 12)):
            op = rng.randrange(3)
            p = rng.randint(0, len(b))
            l = rng.randint(1, 40)
            if op == 0:
                b[p:p] = rb(l)
            elif op == 1:
                del b[p:p + l]
            else:
                b[p:p + l] = rb(min(l, len(b) - p))
        return a, bytes(b)
    if shape == 'periodic':
        u = rb(rng.randint(1, 9))
        a = (u * (n // len(u) + 2))[:n]
        m = rng.randint(1, n * 2)
        s = rng.randrange(len(u))
        return a, (u * (m // len(u) + 3))[s:s + m]
    if shape == 'shuffle':
        k = rng.randint(2, 12)
        bl = [rb(rng.randint(1, max(1, n // k))) for _ in range(k)]
        a = b''.join(bl)
        rng.shuffle(bl)
        return a, b''.join(bl)
    if shape == 'disjoint':
        return (bytes(rng.randrange(0, 128) for _ in range(min(n, 2000))),
                bytes(rng.randrange(128, 256) for _ in range(min(n, 2000))))
    if shape == 'repeat':
        a = rb(max(1, n // 8))
        return a, a * rng.randint(2, 9)
    if shape == 'grow':
        a = rb(n)
        return a, a + rb(rng.randint(1, n))
    if shape == 'shrink':
        a = rb(n)
        return a, a[:rng.randint(0, n)]
    if shape == 'reverse':
        a = rb(n)
        return a, a[::-1]
    if shape == 'swap':
        a, b, c = rb(n), rb(rng.randint(0, 40)), rb(n)
        return a + b + c, c + b + a
    if shape == 'alpha2':
        return (bytes(rng.choice(b'ab') for _ in range(min(n, 4000))),
                bytes(rng.choice(b'ab') for _ in range(min(n, 4000))))
    if shape == 'code':
        # addresses that shift by a constant
        a = bytearray()
        b = bytearray()
        d = rng.randint(1, 255)
        for _ in range(min(n, 3000) // 4 + 1):
            ins = rb(2)
            ad = rng.randrange(65536)
            a += ins + ad.to_bytes(2, 'little')
            b += ins + ((ad + d) & 65535).to_bytes(2, 'little')
        return bytes(a), bytes(b)
    if shape == 'growth-edge':
        a = rb(n)
        e = rng.choice([1, 2, 7, 8, 9, 24, 128, 255, 256, 257])
        return a[e:] if rng.random() < .5 else a, rb(e) + a
    if shape == 'move-back':
        a = rb(n)
        k = rng.randint(0, n)
        return a, a[k:] + a[:k] + a[k // 2:]
    if shape == 'zeros':
        return bytes(n), bytes(rng.randint(1, 2 * n))
    if shape == 'sparse':
        a = bytearray(n)
        b = bytearray(n + rng.randint(0, 50))
        for x in (a, b):
            for _ in range(rng.randint(0, 8)):
                x[rng.randrange(len(x))] = rng.randrange(256)
        return bytes(a), bytes(b)
    if shape == 'rotate':
        # jumps in the origin by whole multiples of a power of two
        k = rng.choice([256, 256, 512, 4096, 65536])
        bl = [rb(k) for _ in range(rng.randint(2, 4 if k > 4096 else 9))]
        a = b''.join(bl)
        return a, b''.join(rng.choice(bl) for _ in range(rng.randint(2, 5)))
    raise AssertionError(shape)


def hand(cx, L, rng):
    """well formed patches that the encoder would not write"""
    origin = rng.randbytes(rng.choice(EDGES + [rng.randint(1, 3000), rng.randint(1, 200000)]))
    n = len(origin)
    for comp in ('none', 'hs', 'lzma'):
        raw, out = bytearray(), bytearray()
        pos = 0
        blocks = rng.randint(1, 6)
        for b in range(blocks):
            d = rng.choice([0, n - pos, rng.randint(0, n - pos),
                            min(rng.choice(EDGES), n - pos)])
            e = rng.choice([0, 0, 1, rng.randint(0, 300), rng.choice(EDGES)])
            if not d and not e:
                e = 1
            at = pos + d
            # where the next block starts: steps of every size and sign
            u = rng.choice([256, 65536])
            to = rng.choice([0, n, at, rng.randint(0, n), at - rng.choice(EDGES),
                             at + rng.choice(EDGES), at - u * rng.randint(0, at // u),
                             at - u * rng.randint(0, at // u)])
            if not 0 <= to <= n:
                to = rng.randint(0, n)
            if b == blocks - 1:
                to = rng.choice([to, at])
            df = rng.choice([bytes(d), rng.randbytes(d)])
            ex = rng.choice([bytes(e), rng.randbytes(e)])
            z = fmt.pack_sm64(to - at)
            if to == at and rng.random() < .3:
                z = bytes(7) + b'\x80'     # minus zero
                cx.count('hand made: minus zero')
            raw += fmt.pack_sm64(d) + fmt.pack_sm64(e) + z + df + ex
            out += bytes((x + y) & 255 for x, y in zip(origin[pos:at], df)) + ex
            pos = to
            cx.count('hand made: steps back', to < at)
        want = fmt.apply_patch(origin, bytes(raw))
        assert want == bytes(out)
        pdata = fmt.compress(bytes(raw), comp)
        for sched in schedules(rng, len(pdata)):
            bufn = rng.choice([2, 4, 6, 24, 48, 64, 512, 1024, 4096, 4098])
            if len(raw) // bufn > 4000:
                bufn = 512
            woff, po = rng.choice([0, 777, rng.choice(FAR)]), rng.choice([0, rng.choice(FAR)])
            err, fin, o, w = patch(cx, L, origin, pdata, comp, sched, bufn, po, woff)
            what = 'hand made comp=%s origin=%d target=%d patch=%d blocks=%d chunks=%s.. work=%d' \
                % (comp, n, len(want), len(raw), blocks, sched[:4], bufn)
            cx.count('patch applications')
            cx.count('hand made patches')
            if err:
                cx.violation('valid-patch-refused:' + comp, '%s err=%s' % (what, err))
                return
            cx.check_that(not o.bad and not w.bad and not o.err and not w.err, 'patch-request',
                          '%s %s %s' % (what, o.bad, w.bad))
            cx.check_that(fin == len(want) and w.since(woff) == want,
                          'hand-made-result:' + comp, '%s final=%s' % (what, fin))
            cx.eval(('hand', fmt.crc(pdata), comp, len(sched), bufn))
    # steps of every power of two, forth and back
    n = 140000
    origin = rng.randbytes(n)
    for comp in ('none', rng.choice(['hs', 'lzma'])):
        for v in {s * ((1 << k) + x) for k in range(17) for x in (-1, 0, 1) for s in (1, -1)} | \
                {-131072, 131072, -65536 - 256, -69990, 66000}:
            a = rng.choice([0, 10, 70000, n - 20]) if abs(v) < 60000 else rng.randint(0, n - 20)
            b = a + 10 + v
            if not 0 <= b <= n - 10:
                a = n - 20 if v < 0 else 0
                b = a + 10 + v
            raw = fmt.pack_sm64(0) + fmt.pack_sm64(1) + fmt.pack_sm64(a) + b'x' + \
                fmt.pack_sm64(10) + fmt.pack_sm64(0) + fmt.pack_sm64(v) + bytes(10) + \
                fmt.pack_sm64(10) + fmt.pack_sm64(0) + fmt.pack_sm64(0) + bytes(10)
            want = b'x' + origin[a:a + 10] + origin[b:b + 10]
            pdata = fmt.compress(raw, comp)
            err, fin, o, w = patch(cx, L, origin, pdata, comp, [len(pdata)], 64, 0, 0)
            cx.check_that(not err and fin == 21 and bytes(w.data) == want and not o.bad,
                          'step:' + comp, 'from %d by %d: %s final=%s' % (a + 10, v, err, fin))
            cx.count('hand made: exact steps')
            cx.eval(('step', v, a, comp))
    cx.sample('hand made patches on an origin of %d bytes' % n)


def diff(cx, L, origin, target, comp, out_off=0):
    ob, tb = clib.Buf(origin), clib.Buf(target)
    ctx = clib.Buf(L.size(clib.BSDIFF), 0xc7)
    m = stream(out_off)
    rc = L.bsdiff_init(ctx.p, ob.p, ob.n, tb.p, tb.n, m.w, out_off, fmt.COMP[comp], None)
    n = None
    if rc == 0:
        n = L.bsdiff(ctx.p)
        L.bsdiff_free(ctx.p)
    cx.check_that(not m.bad and not m.err, 'diff-write-range', '%s %s' % (m.bad, m.err))
    cx.check_that(ob.get() == origin and tb.get() == target, 'diff-changes-input')
    return rc, n, m


def stream(off):
    return clib.Sparse() if off > 1 << 24 else clib.Mem(b'', limit=1 << 26)


def patch(cx, L, origin, pdata, comp, sched, bufn, ooff, woff):
    """sched: list of chunk lengths"""
    o = stream(ooff)
    o.store(0, b'\xee' * min(ooff, 20000))
    o.store(ooff, origin)
    w = stream(woff)
    work = clib.Buf(bufn, 0x33)
    ctx = clib.Buf(L.size(clib.BSPATCH), 0xc7)
    rc = L.bspatch_init(ctx.p, work.p, work.n, len(pdata), o.r, ooff, w.w, woff,
                        fmt.COMP[comp], None)
    if rc:
        return ('init', rc), None, o, w
    i = 0
    for n in sched:
        ch = clib.Buf(pdata[i:i + n])
        rc = L.bspatch_write(ctx.p, ch.p, ch.n)
        i += n
        if rc:
            break
    if rc:
        L.bspatch_free(ctx.p)
        return ('write', rc), None, o, w
    fin = L.bspatch_final(ctx.p)
    L.bspatch_free(ctx.p)
    return None, fin, o, w


def schedules(rng, n):
    yield [n] if n else []        # an empty chunk is not a piece of the patch
    if n <= 4000:
        yield [1] * n
    c = rng.choice([2, 3, 7, 16, 23, 24, 25, 64, 100, 512, 4096])
    yield [c] * (n // c) + ([n % c] if n % c else [])
    s = []
    left = n
    while left:
        k = min(left, rng.choice([1, 2, rng.randint(1, 30), rng.randint(1, 2000)]))
        s.append(k)
        left -= k
    yield s


def run_case(cx, i, rng):
    L = clib.load(cx)
    shape = (SHAPES + ['hand', 'hand'])[i % (len(SHAPES) + 2)]
    if shape == 'hand':
        return hand(cx, L, rng)
    origin, target = gen(rng, shape, cx.tier)
    key0 = (shape, fmt.crc(origin), fmt.crc(target), len(origin), len(target))
    cx.sample('%s origin=%dB target=%dB' % (shape, len(origin), len(target)))
    for comp in ('none', 'hs', 'lzma'):
        ooff = rng.choice([0, 0, 512, 4096, 12345, rng.choice(FAR)])
        rc, n, m = diff(cx, L, origin, target, comp, ooff)
        what = '%s comp=%s origin=%d target=%d' % (shape, comp, len(origin), len(target))
        if rc or n is None or n < 0:
            cx.violation('diff-fails:' + comp, '%s rc=%s n=%s' % (what, rc, n))
            continue
        # the bytes written are exactly [ooff, ooff+n)
        if not cx.check_that((not n or m.size() == ooff + n) and
                             all(o >= ooff for o, _ in m.writes) and
                             sum(k for _, k in m.writes) == n,
                             'diff-length:' + comp, '%s n=%d file=%d' % (what, n, m.size())):
            continue
        pdata = m.since(ooff)
        try:
            raw = fmt.decompress(pdata, comp)
            if comp == 'hs':
                # the final bits of the stream may decode to filler: cut by control blocks
                got, used = apply_prefix(origin, raw, len(target))
            else:
                got = fmt.apply_patch(origin, raw)
        except Exception as e:
            cx.violation('patch-format:' + comp, '%s: %r' % (what, e))
            got = None
        if got is not None:
            cx.check_that(got == target, 'patch-content:' + comp, what)
            stat(cx, raw if comp != 'hs' else raw[:used])
        # the code's own patcher
        for sched in schedules(rng, len(pdata)):
            bufn = rng.choice([2, 4, 6, 24, 48, 64, 512, 1024, 4096, 4098])
            woff = rng.choice([0, 4096, 777, rng.choice(FAR)])
            po = rng.choice([0, 4096, 4096, rng.choice(FAR)])
            cx.count('streams beyond 2 or 4 GiB', (woff > 1 << 30) + (po > 1 << 30))
            cx.count('patch applications')
            err, fin, o, w = patch(cx, L, origin, pdata, comp, sched, bufn, po, woff)
            d = '%s chunks=%s.. work=%d' % (what, sched[:4], bufn)
            if err:
                cx.violation('patch-fails:%s:%s' % (comp, err[0]), '%s err=%s' % (d, err))
                continue
            cx.check_that(not o.bad and not w.bad and not o.err and not w.err, 'patch-request',
                          '%s %s %s' % (d, o.bad, w.bad))
            cx.check_that(fin == len(target), 'patch-length:' + comp, '%s final=%s' % (d, fin))
            cx.check_that(w.since(woff) == target and
                          all(x >= woff and x + k <= woff + len(target) for x, k in w.writes),
                          'patch-result:' + comp, d)
            cx.check_that(all(x >= po and x + k <= po + len(origin) for x, k in o.reads),
                          'origin-range', d)
            cx.eval(key0 + (comp, len(sched), bufn) if target else None)


def apply_prefix(origin, raw, want):
    """apply control blocks until the target length is reached"""
    out = bytearray()
    pos = opos = 0
    while len(out) < want or pos == 0 and want:
        if pos + 24 > len(raw):
            raise fmt.PatchError('short control block')
        d, e, a = (fmt.sm64(raw[pos + 8 * k:pos + 8 * k + 8]) for k in range(3))
        pos += 24
        if d < 0 or e < 0 or pos + d + e > len(raw):
            raise fmt.PatchError('lengths %d %d' % (d, e))
        if d and (opos < 0 or opos + d > len(origin)):
            raise fmt.PatchError('origin range')
        out += bytes((x + y) & 255 for x, y in zip(origin[opos:opos + d], raw[pos:pos + d]))
        pos += d
        opos += d
        out += raw[pos:pos + e]
        pos += e
        opos += a
    return bytes(out), pos


def stat(cx, raw):
    pos = 0
    dd = ee = na = 0
    while pos + 24 <= len(raw):
        d, e, a = (fmt.sm64(raw[pos + 8 * k:pos + 8 * k + 8]) for k in range(3))
        pos += 24 + d + e
        dd += d
        ee += e
        na += a < 0
        cx.count('control blocks')
    if dd:
        cx.count('patches with diff bytes')
    if ee:
        cx.count('patches with extra bytes')
    if na:
        cx.count('patches with negative adjust')
