"""C20: text renderings are correct, terminated and never exceed the buffer."""
import ctypes as C
import struct

from vlib import clib, fmt

PROPERTY = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('ASan/UBSan execution on exact-size buffers with canaries, renderings compared with '
             'an independent notation model')
LEVEL_NOTE = ('All buffer sizes 0..90 for every well-known metadata id, entry sizes 0..48 and '
              'position (including the very end of the metadata area), hex and UUID rendering for '
              'all small sizes, all codes -300..300 and all 256 kinds enumerated; contents sampled.')
BUILD = {'asan': ['lib', 'tool']}
PRELOAD = 'asan'
RULE = ('A case renders generated entries into buffers of many sizes. Distinct: by (function, id, '
        'entry size, buffer size, position, outcome).')
REQUIRED = {'meta renderings': 3000, 'hex renderings': 500, 'uuid renderings': 100,
            'too small buffers': 500, 'codes': 500, 'show lines': 50}
ASSUMPTIONS = []

IDS = ['bpak-key-id', 'bpak-key-store', 'keystore-provider-id', 'bpak-package', 'bpak-transport',
       'merkle-salt', 'merkle-root-hash', 'pb-load-addr', 'bpak-version', 'something-else']
NEED = {'bpak-key-id': 4, 'bpak-key-store': 4, 'keystore-provider-id': 4, 'bpak-package': 16,
        'bpak-transport': 8, 'merkle-salt': 32, 'merkle-root-hash': 32, 'pb-load-addr': 8,
        'bpak-version': 0, 'something-else': 0}

ERR = {0: 'OK', 1: 'Failed', 2: 'Not found', 3: 'Size error', 4: 'No space left',
       5: 'Bad alignment', 6: 'Seek error', 7: 'Not supported', 8: 'Needs more data',
       9: 'Write error', 10: 'Decompressor error', 11: 'Compressor error',
       12: 'Patch read origin error', 13: 'Patch write error', 14: 'Read error', 15: 'Bad magic',
       16: 'Unsupported hash algorithm', 17: 'Buffer too small', 18: 'File not found',
       19: 'Could not decode key', 20: 'Verification failed', 21: 'Signing failed',
       22: 'Unsupported key', 23: 'Bad root hash', 24: 'Bad payload hash',
       25: 'Missing meta data', 26: 'Package UUID mismatch',
       27: 'Unsupported compression method', 28: 'Key not found', 29: 'Keystore id mismatch',
       30: 'Object exists'}


def cases(tier):
    return 160 if tier == 'quick' else 3000


def canary(L, fn, size):
    """fn(ptr) renders; the block is exact, ASan guards its ends"""
    b = clib.Buf(max(size, 1), 0xaa)
    if size == 0:
        rc = fn(b.p + 0)
        return rc, b.get(), b
    rc = fn(b.p)
    return rc, b.get(), b


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 8 == 0:
        names(cx, L)
    if i % 4 == 1:
        hexes(cx, L, rng)
    metas(cx, L, rng, i)
    if i % 8 == 5:
        show(cx, rng)


def names(cx, L):
    for c in list(range(-300, 301)) + [-(1 << 31), (1 << 31) - 1]:
        s = L.error_string(c)
        exp = ERR[-c] if -c in ERR else 'Unknown'
        cx.check_that(s == exp.encode(), 'error-string', '%d: %r' % (c, s))
        cx.count('codes')
        cx.eval(('code', c))
    for k in range(256):
        s = L.hash_kind(k)
        cx.check_that(s == {1: b'sha256', 2: b'sha384', 3: b'sha512'}.get(k, b'Unknown'),
                      'hash-name', '%d %r' % (k, s))
        s = L.signature_kind(k)
        cx.check_that(s == {1: b'rsa4096', 2: b'prime256v1', 3: b'secp384r1',
                            4: b'secp521r1'}.get(k, b'Unknown'), 'sign-name', '%d %r' % (k, s))
        cx.eval(('kind', k))


def hexes(cx, L, rng):
    for _ in range(60):
        n = rng.choice([0, 1, 2, 3, 16, 32, rng.randint(0, 70)])
        data = rng.randbytes(n)
        d = clib.Buf(data)
        for size in {0, 1, 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, rng.randint(0, 3 * n + 3)}:
            if size < 0:
                continue
            rc, out, _ = canary(L, lambda p: L.bin2hex(d.p, n, p, size), size)
            cx.count('hex renderings')
            fits = size >= 2 * n + 1
            cx.eval(('hex', n, size))
            if fits:
                cx.check_that(rc == 0 and out[:2 * n + 1] == data.hex().encode() + b'\0',
                              'hex-text', '%d bytes size %d rc %d %r' % (n, size, rc, out))
            else:
                cx.check_that(rc != 0, 'hex-too-small-accepted', '%d bytes, buffer %d' % (n, size))
                cx.count('too small buffers')
    for _ in range(10):
        u = rng.randbytes(16)
        d = clib.Buf(u)
        for size in (0, 1, 36, 37, 38, 64, rng.randint(0, 60)):
            rc, out, _ = canary(L, lambda p: L.uuid_to_string(d.p, p, size), size)
            cx.count('uuid renderings')
            cx.eval(('uuid', size))
            if size >= 37:
                cx.check_that(rc == 0 and out[:37] == fmt.uuid_text(u).encode() + b'\0',
                              'uuid-text', '%r rc=%d' % (out, rc))
            else:
                cx.check_that(rc != 0, 'uuid-too-small-accepted', 'size %d' % size)


def metas(cx, L, rng, i):
    name = IDS[i % len(IDS)]
    need = NEED[name]
    mid = fmt.bid(name)
    for _ in range(14):
        size = rng.choice([need, need, need, need + rng.randint(0, 20), rng.randint(0, 48), 0,
                           max(need - 1, 0)])
        style = rng.randrange(4)
        if name == 'bpak-version':
            size = rng.choice([0, 1, 5, 20, rng.randint(0, 60)])
            v = bytes(rng.choice(b'0123456789.ab-') for _ in range(size))
            if style == 0 and size:
                k = rng.randrange(size)
                v = v[:k] + b'\0' + v[k + 1:]
        elif style == 0:
            v = b'\xff' * size
        elif style == 1:
            v = bytes(size)
        elif style == 2 and size >= 4:
            v = struct.pack('<Q', rng.getrandbits(rng.choice([1, 4, 8, 31, 32, 63, 64])))[:size]
            v = v.ljust(size, b'\0')
        else:
            v = rng.randbytes(size)
        h = fmt.Hdr()
        h.hash_kind = 1
        # neighbours that must not be used: non-zero, no terminator
        h.metadata = bytearray(rng.choice(b'XYZ!') for _ in range(fmt.META_BYTES))
        off = rng.choice([0, 8, fmt.META_BYTES - size, rng.randint(0, fmt.META_BYTES - size)])
        h.metadata[off:off + size] = v
        slot = rng.randrange(32)
        h.metas[slot] = fmt.Meta(mid, size, off, rng.choice([0, 5]))
        hb = clib.Buf(h.pack())
        exp = fmt.meta_text(mid, v)
        sizes = {0, 1, 2, rng.randint(0, 90), rng.randint(0, 90), 128}
        if exp is not None:
            sizes |= {len(exp), len(exp) + 1, len(exp) + 2, max(len(exp) - 1, 0)}
        for bs in sorted(sizes):
            rc, out, _ = canary(L, lambda p: L.meta_to_string(hb.p, L.sh_meta_at(hb.p, slot), p,
                                                              bs), bs)
            cx.count('meta renderings')
            cx.eval((name, size, bs, off + size == fmt.META_BYTES, rc))
            what = '%s size=%d off=%d buffer=%d rc=%d out=%r' % (name, size, off, bs, rc, out[:100])
            if bs == 0:
                cx.check_that(out == b'\xaa', 'writes-empty-buffer', what)
                cx.check_that(rc != 0, 'zero-buffer-accepted', what)
                continue
            if rc == 0:
                if not cx.check_that(b'\0' in out, 'unterminated', what):
                    continue
                got = out.split(b'\0')[0].decode('latin1')
                cx.check_that(exp is not None and got == exp, 'meta-text:' + name,
                              '%s expected %r' % (what, exp))
            else:
                cx.count('too small buffers')
                # an error must have a reason
                cx.check_that(exp is None or bs < max(len(exp) + 1, 37 if name == 'bpak-package'
                                                      else 0), 'meta-refused:' + name,
                              '%s expected %r' % (what, exp))
        cx.check_that(hb.get() == h.pack(), 'render-changes-header', name)
    cx.sample('%s entries of up to 48 bytes in buffers of 0..128 bytes' % name)


def show(cx, rng):
    """the values printed by show are those of the entries"""
    import os
    from vlib import cli
    d = cx.tmp()
    a = fmt.Archive()
    exp = []
    for name in rng.sample(IDS, rng.randint(2, 7)):
        need = NEED[name]
        size = rng.choice([need, need, need + 3, max(0, need - 1)])
        v = rng.randbytes(size)
        if name == 'bpak-version':
            v = b'v%d.%d' % (rng.randint(0, 99), rng.randint(0, 9)) + b'\0' * rng.randint(0, 1)
        if name == 'bpak-transport' and rng.random() < .5:
            size = 32
            v = rng.randbytes(8) + bytes(24)
        a.meta(name, v)
        exp.append((fmt.bid(name), len(v), fmt.meta_text(fmt.bid(name), v)))
    open(os.path.join(d, 'a'), 'wb').write(a.finish().bytes())
    r = cli.run(cx, ['show', 'a'], d)
    cx.check_that(r.ok, 'show-fails', r.brief)
    text = r.out.decode('latin1')
    for mid, n, t in exp:
        line = [x for x in text.splitlines() if '%08x' % mid in x or '%8.8x' % mid in x]
        cx.count('show lines')
        if not cx.check_that(line, 'show-misses-meta', '%x\n%s' % (mid, text)):
            continue
        # columns: size, id, value
        toks = line[0].split()
        cx.check_that(str(n) in toks, 'show-size', '%d not in %r' % (n, line[0]))
        if t:
            cx.check_that(t in line[0], 'show-value', '%r not in %r' % (t, line[0]))
        cx.eval(('show', mid, n))
    cx.drop(d)
