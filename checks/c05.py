"""C05: a corrupt or hostile update stream is handled safely.

Patches and encoded archives are broken on purpose and fed to the patcher, the
streaming decoder and the tool (ASan/UBSan builds).  Monitors on the I/O
callbacks judge every request; an independent decoder says what a stream means
and what is malformed, so a success must be the right one."""
import ctypes as C
import hashlib
import lzma
import os
import random
import struct

from vlib import cli, clib, core, fmt, gen
from checks import c03, c04

PROPERTY = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('hostile-stream execution under ASan/UBSan with an online monitor on every stream '
             'request and an independent decoder as oracle for what may succeed')
LEVEL_NOTE = ('Seeded mutation (control values, truncation at every byte, bit flips, compressed '
              'stream and header corruption, wrong origins) of thousands of streams per run; '
              'success is only accepted with the output an independent decoder computes. Bounded '
              'by sizes of some 10 kB per stream.')
BUILD = {'asan': ['lib', 'tool']}
CPU_LIMIT = 100
PRELOAD = 'asan'
RULE = ('A case takes a valid patch or encoded archive and feeds many broken variants to the '
        'patcher or decoder. Distinct: by digest of stream, origin, chunking; trivial: variants '
        'equal to the valid stream.')
REQUIRED = {'patch refused': 2000, 'patch accepted': 300, 'decode refused': 600,
            'decode accepted': 60, 'extreme control values': 400, 'truncated patches': 1500,
            'tool refused': 60, 'tool accepted': 5, 'huge part sizes': 50,
            'lzma header attacks': 20}
ASSUMPTIONS = ['the header given to the streaming decoder passed bpak_valid_header, as the tool '
               'requires', 'chunks given to the patcher are not empty']

EXTREME = [0, 1, -1, 2, 7, 24, 255, 256, -24, -256, 512, 4096, 1 << 15, 1 << 16, (1 << 31) - 1,
           1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 62,
           (1 << 63) - 1, -((1 << 63) - 1), -(1 << 62), (1 << 63) - 4096, (1 << 63) - 2, (1 << 62) + 1]


def cases(tier):
    return 300 if tier == 'quick' else 4000


class Bad(Exception):
    pass


def expand(data, comp):
    """the uncompressed patch a stream stands for, or Bad"""
    if comp == 'none':
        return data
    if comp == 'hs':
        return fmt.hs_decode(data, limit=1 << 22)
    try:
        return unxz(data)
    except lzma.LZMAError as e:
        raise Bad(str(e))


def unxz(data):
    """concatenated xz streams; trailing garbage is an error"""
    out = b''
    first = True
    while data:
        if not first:
            z = len(data) - len(data.lstrip(b'\0'))
            if z % 4:
                raise Bad('stream padding')
            data = data[z:]
            if not data:
                break
        d = lzma.LZMADecompressor(format=lzma.FORMAT_XZ)
        out += d.decompress(data, 1 << 23)
        if not d.eof:
            raise Bad('truncated' if len(out) < 1 << 23 else 'too long for the model')
        data = d.unused_data
        first = False
    if first:
        raise Bad('empty')
    return out


def apply(origin, raw):
    """strict meaning of a patch; Bad if malformed.  A patch may also end right
    after a control block that asks for nothing."""
    out = bytearray()
    pos = opos = 0
    n = len(raw)
    while pos < n:
        if pos + 24 > n:
            raise Bad('cut in a control block')
        d, e, a = (fmt.sm64(raw[pos + 8 * k:pos + 8 * k + 8]) for k in range(3))
        pos += 24
        if d < 0 or e < 0:
            raise Bad('negative length')
        if pos + d + e > n:
            raise Bad('cut in a block')
        if d:
            if opos < 0 or opos + d > len(origin):
                raise Bad('outside of the origin')
            out += bytes((x + y) & 255 for x, y in zip(origin[opos:opos + d], raw[pos:pos + d]))
        pos += d
        opos += d
        out += raw[pos:pos + e]
        pos += e
        opos += a
    return bytes(out)


def feed(cx, L, rng, origin, data, comp, announced, tag):
    """one hostile patch through the patcher"""
    obase = rng.choice([0, 0, 1, 512, 4096])
    o = clib.Mem(rng.randbytes(obase) + origin)
    w = clib.Mem(b'', limit=1 << 40)
    w.refuse = 1 << 21
    wk = clib.Buf(rng.choice([2, 4, 26, 64, 512, 4096]), 0x31)
    ctx = clib.Buf(L.size(clib.BSPATCH), 0xd1)
    base = rng.choice([0, 0, 4096])
    rc = L.bspatch_init(ctx.p, wk.p, wk.n, announced, o.r, obase, w.w, base, fmt.COMP[comp], None)
    if not cx.check_that(rc == 0, 'init-fails', '%s %s' % (tag, rc)):
        return
    style = rng.randrange(4)
    i = 0
    while i < len(data) and not rc:
        n = 1 if style == 0 else len(data) if style == 1 else rng.choice(
            [1, 2, 23, 24, 25, 100, 1000, 5000])
        ch = clib.Buf(data[i:i + n])
        rc = L.bspatch_write(ctx.p, ch.p, ch.n)
        i += n
    fin = None
    if rc == 0 or rng.random() < 0.3:
        # asking for the result after an error must be safe as well
        fin = L.bspatch_final(ctx.p)
    L.bspatch_free(ctx.p)
    judge_mem(cx, (o, w), tag)
    for at, n in o.reads:
        if not cx.check_that(at >= obase, 'reads-before-the-origin', '%s %d bytes at %d, the '
                             'origin starts at %d' % (tag, n, at, obase)):
            break
    ok = rc == 0 and fin >= 0
    cx.count('patch accepted' if ok else 'patch refused')
    if not ok:
        return
    try:
        want = apply(origin, expand(data, comp))
    except Bad as e:
        if 'too long for the model' in str(e):
            return
        cx.violation('malformed-patch-accepted:' + comp, '%s: %s, final %d' % (tag, e, fin))
        return
    got = bytes(w.data[base:])
    cx.check_that(fin == len(want) and got == want, 'wrong-success:' + comp,
                  '%s final %d, wrote %d, expected %d' % (tag, fin, len(got), len(want)))


def judge_mem(cx, ms, tag):
    for m in ms:
        if m is None:
            continue
        cx.count('stream requests', m.calls)
        for b in m.bad[:1]:
            cx.violation('bad-request:' + b[0].replace(' ', '-'), '%s %s' % (tag, m.bad[:3]))
        if m.err:
            raise m.err


def controls(raw):
    """positions of the control blocks"""
    pos = 0
    out = []
    while pos + 24 <= len(raw):
        d, e, a = (fmt.sm64(raw[pos + 8 * k:pos + 8 * k + 8]) for k in range(3))
        out.append(pos)
        if d < 0 or e < 0 or d + e > len(raw):
            break
        pos += 24 + d + e
    return out


def break_raw(cx, rng, raw, origin):
    """a broken uncompressed patch and what was done"""
    b = bytearray(raw)
    k = rng.randrange(8)
    cs = controls(raw)
    if k <= 2 and cs:
        at = rng.choice(cs) + 8 * rng.randrange(3)
        v = rng.choice(EXTREME + [len(origin), len(origin) + 1, -len(origin), len(raw)])
        b[at:at + 8] = fmt.pack_sm64(v) if rng.random() < .9 else bytes(7) + b'\x80'
        cx.count('extreme control values')
        return bytes(b), 'ctrl@%d=%d' % (at, v)
    if k == 3:
        # a crafted sequence of blocks
        bl = b''
        for _ in range(rng.randint(1, 5)):
            d, e = rng.choice([0, 1, 5, len(origin)]), rng.choice([0, 1, 5, 300])
            ld, le = d, e
            if rng.random() < .2:
                ld = rng.choice(EXTREME)
            if rng.random() < .2:
                le = rng.choice(EXTREME)
            bl += fmt.pack_sm64(ld) + fmt.pack_sm64(le) + fmt.pack_sm64(
                rng.choice(EXTREME + [-d, -d, -len(origin), 0, 0, 0]))
            bl += rng.randbytes(d + e)
        cx.count('extreme control values')
        return bl, 'crafted'
    if k == 4 and b:
        n = rng.randrange(len(b))
        cx.count('truncated patches')
        return bytes(b[:n]), 'cut %d' % n
    if k == 5:
        return bytes(b) + rng.randbytes(rng.choice([1, 7, 23, 24, 25, 100])), 'trailing'
    if k == 6 and b:
        for _ in range(rng.randint(1, 4)):
            b[rng.randrange(min(len(b), 100) if rng.random() < .5 else len(b))] ^= \
                1 << rng.randrange(8)
        return bytes(b), 'flips'
    return rng.randbytes(rng.choice([1, 24, 25, 100, 500])), 'garbage'


def break_comp(cx, rng, data, comp):
    b = bytearray(data)
    k = rng.randrange(7)
    if k == 0 and b:
        n = rng.randrange(len(b))
        cx.count('truncated patches')
        return bytes(b[:n]), 'cut %d' % n
    if k <= 2 and b:
        for _ in range(rng.choice([1, 1, 2, 8])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b), 'flips'
    if k == 3:
        return bytes(b) + (bytes(rng.choice([1, 3, 4, 8])) if rng.random() < .5 else
                           rng.randbytes(rng.randint(1, 40))), 'trailing'
    if k == 4 and comp == 'lzma':
        return bytes(b) + bytes(rng.choice([0, 4, 2])) + bytes(b), 'concatenated'
    if k == 5 and comp == 'lzma' and len(b) > 32:
        # the block header's dictionary size (with a valid CRC) and stream flags
        hs = (b[12] + 1) * 4
        v = rng.randrange(4)
        blk = bytearray(b[12:12 + hs])
        if v == 0:
            for j in range(1, hs - 4):
                if blk[j] == 0x21 and blk[j + 1] == 1:
                    blk[j + 2] = rng.choice([0, 22, 40, 41, 63, 255])
        elif v == 1:
            blk[1] ^= rng.choice([1, 2, 3, 0x40, 0x80, 0xc0])
        elif v == 2:
            blk[rng.randrange(1, hs - 4)] = rng.randrange(256)
        blk[-4:] = struct.pack('<I', fmt.crc(bytes(blk[:-4])))
        b[12:12 + hs] = blk
        if v == 3:
            b[7] = rng.choice([0, 1, 4, 10, 15])
            b[8:12] = struct.pack('<I', fmt.crc(bytes(b[6:8])))
        cx.count('lzma header attacks')
        return bytes(b), 'xz header %d' % v
    if b:
        i = rng.randrange(len(b))
        j = min(len(b), i + rng.randint(1, 40))
        b[i:j] = rng.choice([b'\0', b'\xff', b'\x55', rng.randbytes(1)]) * (j - i)
        return bytes(b), 'run'
    return rng.randbytes(20), 'garbage'


def case_patch(cx, L, rng, i):
    origin, target = c04.gen(rng, rng.choice(c04.SHAPES), 'quick')
    origin, target = origin[:rng.choice([0, 10, 600, 5000])], target[:rng.choice([10, 300, 3000])]
    rc, n, m = c04.diff(cx, L, origin, target, 'none')
    raw = bytes(m.data) if rc == 0 else b''
    comp = ('none', 'hs', 'lzma')[i % 3]
    every = len(raw) <= 700 and rng.random() < .4
    todo = []
    if every:
        full = fmt.compress(raw, comp)
        for k in range(len(full)):
            todo.append((full[:k], 'cut %d of %d' % (k, len(full))))
            cx.count('truncated patches')
    for _ in range(40):
        if comp == 'none' or rng.random() < .5:
            b, what = break_raw(cx, rng, raw, origin)
            todo.append((fmt.compress(b, comp), what))
        else:
            todo.append(break_comp(cx, rng, fmt.compress(raw, comp), comp))
    if comp == 'lzma' and rng.random() < .3:
        # a bomb: much output from little input
        z = fmt.pack_sm64(0) + fmt.pack_sm64(1 << 21) + fmt.pack_sm64(0) + bytes(1 << 21)
        todo.append((fmt.compress(z + z, comp), 'bomb'))
        todo.append((fmt.compress(bytes(24 * 40000), comp), 'empty blocks'))
    if comp == 'hs' and rng.random() < .3:
        todo.append((bytes(rng.randint(1, 4000)), 'zeros'))
        todo.append((b'\xff' * rng.randint(1, 4000), 'ones'))
    for data, what in todo:
        ann = len(data)
        if rng.random() < .15:
            ann = rng.choice([0, 1, max(0, len(data) - 1), len(data) + 1, 1 << 40])
        feed(cx, L, rng, origin, data, comp, ann, '%s %s origin=%d patch=%d announced=%d' % (
            comp, what, len(origin), len(data), ann))
        cx.eval((comp, hashlib.sha1(data).digest(), len(origin)) if data else None)
    cx.sample('%s patch %d bytes, %d variants, last: %s' % (comp, len(raw), len(todo), what))


# ---- encoded archives ------------------------------------------------------------
class Lenient(Exception):
    pass


def model_decode(enc, org):
    """what decoding means: the decoded archive, Bad if it must be refused,
    Lenient if the format does not say"""
    h = fmt.Hdr(enc)
    if h.hash_kind not in (1, 2, 3):
        raise Lenient()
    if not h.valid():
        raise Bad('invalid header')
    ids = [p.id for p in h.parts]
    used = [x for x in ids if x]
    if ids[:len(used)] != used or len(set(used)) != len(used):
        raise Lenient()
    oh = fmt.Hdr(org) if org is not None else None
    if oh is not None:
        a, b = h.get(fmt.PKG_ID), oh.get(fmt.PKG_ID)
        if a is None or b is None:
            raise Bad('identity missing')
        if len(a) < 16 or len(b) < 16:
            raise Lenient()
        if a[:16] != b[:16]:
            raise Bad('identity differs')
    out = []
    pos = fmt.HDR
    res = fmt.Hdr(enc)
    for p, q in zip(h.parts, res.parts):
        if not p.id:
            break
        n = p.stored()
        if pos + n > len(enc):
            raise Bad('input is too short')
        body = enc[pos:pos + n]
        pos += n
        want = p.size + p.padb
        dec = 0
        if p.flags & fmt.F_TRANSPORT:
            v = h.get(fmt.T_ID, p.id)
            if v is not None:
                if len(v) < 8:
                    raise Lenient()
                dec = struct.unpack_from('<I', v, 4)[0]
        if dec == 0:
            got = body
        elif dec == fmt.DEC['merkle-generate']:
            if body:
                raise Bad('data for a generated tree')
            src = [j for j, x in enumerate(used) if fmt.tree_id(x) == p.id]
            if not src or src[0] >= len(out):
                raise Bad('no data for the tree')
            salt = h.get(fmt.SALT_ID, used[src[0]])
            if salt is None:
                raise Bad('no salt')
            if len(salt) != 32 or len(src) > 1:
                raise Lenient()
            d = out[src[0]]
            if not d or len(d) % 4096 or res.parts[src[0]].flags & fmt.F_TRANSPORT:
                raise Bad('no tree for this data')
            got = fmt.merkle_tree(d, salt)[0]
        elif dec in fmt.DEC.values():
            if oh is None:
                raise Bad('needs an origin')
            oids = [x.id for x in oh.parts if x.id]
            if oids.count(p.id) > 1:
                raise Lenient()
            if p.id not in oids:
                raise Bad('origin has no such part')
            opos = fmt.HDR
            for x in oh.parts:
                if x.id == p.id:
                    break
                if x.id:
                    opos += x.stored()
            comp = {fmt.DEC['bspatch']: 'hs', fmt.DEC['bspatch-lzma']: 'lzma',
                    fmt.DEC['bspatch-no-comp']: 'none'}[dec]
            # the origin stream may be read beyond the part
            raw = expand(body, comp) if body or comp != 'lzma' else None
            if raw is None:
                raise Bad('empty lzma stream')
            got = apply(org[opos:], raw)
        else:
            raise Bad('unknown decoder')
        if len(got) != want:
            raise Bad('part size %d instead of %d' % (len(got), want))
        out.append(got)
        q.flags &= ~fmt.F_TRANSPORT
        q.tsize = 0
    return res.pack() + b''.join(out)


def encode(cx, L, rng, org, new, plan):
    """the model's own encoder (deltas from the code's delta encoder)"""
    h = fmt.Hdr(new.h.pack())
    body = []
    for k, p in enumerate(h.part_list()):
        pl = plan[p.id]
        if pl[0] == 'copy':
            body.append(new.data[k])
            continue
        if pl[0] == 'remove':
            d = b''
        else:
            oi = [x.id for x in org.h.part_list()].index(p.id)
            rc, n, m = c04.diff(cx, L, org.data[oi], new.data[k], pl[1])
            d = bytes(m.data)
        p.flags |= fmt.F_TRANSPORT
        p.tsize = len(d)
        body.append(d)
    return h, body


HUGE = [1 << 31, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 512, 1 << 63, (1 << 64) - 512,
        (1 << 64) - 1, (1 << 63) - 1, 0]


def break_archive(cx, rng, h, body, org, plan):
    """returns (encoded archive, origin, what)"""
    h = fmt.Hdr(h.pack())
    body = list(body)
    oraw = org.bytes()
    what = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(17)
        pl = h.part_list()
        if len(body) != len(pl):
            break
        p = rng.choice(pl)
        j = pl.index(p)
        if k <= 2 and body[j]:
            comp = plan[p.id][1] if p.id in plan and plan[p.id][0] == 'delta' else 'none'
            b, w = break_comp(cx, rng, body[j], comp)
            if rng.random() < .7:
                p.tsize = len(b) if p.flags & fmt.F_TRANSPORT else p.tsize
            body[j] = b
            what.append('body %d %s' % (j, w))
        elif k == 3:
            p.size = rng.choice(HUGE + [p.size + 512, max(0, p.size - 512), 0, 512, 4096]) \
                % (1 << 64)
            if rng.random() < .7:
                p.padb = fmt.padlen(p.size)
            what.append('size[%d]=%d' % (j, p.size))
            cx.count('huge part sizes')
        elif k == 4:
            p.tsize = rng.choice(HUGE + [p.tsize + 1, max(0, p.tsize - 1), 1, 24]) % (1 << 64)
            what.append('tsize[%d]=%d' % (j, p.tsize))
            cx.count('huge part sizes')
        elif k == 5:
            p.flags ^= rng.choice([1, 2, 2, 4, 128])
            what.append('flags[%d]=%d' % (j, p.flags))
        elif k == 6:
            p.padb = rng.choice([0, 1, 511, 512, 65535, 65024])
            what.append('pad[%d]=%d' % (j, p.padb))
        elif k <= 8:
            ms = [m for m in h.metas if m.id == fmt.T_ID]
            if not ms:
                continue
            m = rng.choice(ms)
            if rng.random() < .6:
                o = m.offset + rng.choice([4, 4, 4, 0])
                if o + 4 <= len(h.metadata):
                    struct.pack_into('<I', h.metadata, o, rng.choice(
                        list(fmt.DEC.values()) * 2 + list(fmt.ENC.values()) +
                        [0, 1, 0xffffffff]))
                what.append('decoder id')
            elif rng.random() < .5:
                m.ref = rng.choice([x.id for x in pl] + [0, 5])
                what.append('transport ref')
            else:
                m.id = 0
                what.append('transport meta gone')
        elif k == 9:
            m = rng.choice(h.metas)
            m.id, m.ref = rng.choice([fmt.T_ID, fmt.SALT_ID, fmt.ROOT_ID, fmt.PKG_ID, 7]), \
                rng.choice([0] + [x.id for x in pl])
            m.size, m.offset = rng.choice([(0, 1920), (4, 1916), (32, 1888), (1, 0), (8, 1912),
                                           (65535, 1), (1920, 0), (1920, 1), (2, 65535)])
            what.append('meta size=%d off=%d' % (m.size, m.offset))
        elif k == 10:
            ms = [m for m in h.metas if m.id in (fmt.SALT_ID, fmt.PKG_ID)]
            if ms:
                m = rng.choice(ms)
                if rng.random() < .5:
                    m.id = 0
                else:
                    m.ref ^= rng.choice([1, 1 << 31])
                what.append('salt/package id')
        elif k == 11 and len(pl) > 1:
            a, b = rng.sample(range(len(pl)), 2)
            h.parts[a], h.parts[b] = h.parts[b], h.parts[a]
            if rng.random() < .7:
                body[a], body[b] = body[b], body[a]
            what.append('parts %d,%d swapped' % (a, b))
        elif k == 12:
            p.id = rng.choice([x.id for x in pl] + [1, fmt.tree_id(p.id), 0xffffffff])
            what.append('part id')
        elif k in (13, 15, 16):
            oh = fmt.Hdr(oraw)
            v = rng.choice([0, 1, 1, 1, 2, 3, 3, 4])
            if v == 0:
                oraw = oraw[:rng.randrange(fmt.HDR, len(oraw) + 1)]
                what.append('origin cut')
                continue
            q = rng.choice(oh.part_list()) if oh.part_list() else None
            if v == 1 and q:
                q.size = rng.choice(HUGE)
            elif v == 2 and q:
                q.id ^= 1
            elif v == 3 and q:
                q.flags |= fmt.F_TRANSPORT
                q.tsize = rng.choice(HUGE + [7])
            else:
                for m in oh.metas:
                    if m.id == fmt.PKG_ID:
                        m.ref = 1
            oraw = oh.pack() + oraw[fmt.HDR:]
            what.append('origin header %d' % v)
        else:
            a = bytearray(h.pack())
            for _ in range(rng.choice([1, 1, 3, 10])):
                a[rng.randrange(8, 3470) if rng.random() < .9 else rng.randrange(4096)] ^= \
                    1 << rng.randrange(8)
            h = fmt.Hdr(bytes(a))
            what.append('header bits')
    raw = h.pack() + b''.join(body)
    if rng.random() < .2 and len(raw) > fmt.HDR:
        raw = raw[:rng.randrange(fmt.HDR, len(raw))]
        what.append('file cut')
    return raw, oraw, ' '.join(what)


def within(cx, writes, first, room, tag):
    """everything the decoder writes for a part belongs to the part"""
    for o, n in writes:
        if not cx.check_that(first <= o and o + n <= first + room, 'write-outside-part',
                             '%d bytes at %d, the part is at %d..%d: %s' % (
                                 n, o, first, first + room, tag)):
            return
    cx.count('part writes judged', len(writes))


def stream(cx, L, rng, enc, oraw, tag):
    """the streaming decoder, fed as the tool feeds it"""
    hb = clib.Buf(enc[:fmt.HDR])
    valid = L.valid_header(hb.p)
    gh = clib.Buf(oraw[:fmt.HDR])
    if valid or L.valid_header(gh.p):
        cx.count('decode refused')
        return
    h = fmt.Hdr(enc)
    out = clib.Mem(b'', limit=1 << 63)
    out.refuse = 1 << 22
    hdr = clib.Mem(b'', limit=fmt.HDR)
    gm = clib.Mem(oraw[fmt.HDR:])
    work = clib.Buf(rng.choice([2, 8, 64, 512, 1024, 4096]), 0x77)
    ctx = clib.Buf(L.size(clib.TDECODE), 0x99)
    rc = L.transport_decode_init(ctx.p, work.p, work.n, hb.p, out.w, out.r, 0, hdr.w, None)
    rc = rc or L.transport_decode_set_origin(ctx.p, gh.p, gm.r, 0)
    pos = fmt.HDR
    first, seen, room = 0, 0, 0
    for k in range(fmt.NPART):
        within(cx, out.writes[seen:], first, room, tag)
        if rc:
            break
        p = h.parts[k]
        first, seen, room = first + room, len(out.writes), p.size + p.padb
        if not p.id:
            break
        at = L.sh_part_at(hb.p, k)
        rc = L.transport_decode_start(ctx.p, at)
        if rc:
            break
        n = p.stored() & ((1 << 64) - 1)
        body = enc[pos:pos + n]
        pos += n
        i = 0
        while i < len(body) and not rc:
            c = rng.choice([1, 24, 512, 4096, len(body)])
            ch = clib.Buf(body[i:i + c])
            rc = L.transport_decode_write_chunk(ctx.p, ch.p, ch.n)
            i += c
        if len(body) < n and not rc:
            rc = -1         # no more input: the user stops here
            if rng.random() < .5:
                L.transport_decode_finish(ctx.p)
            break
        if rc == 0:
            rc = L.transport_decode_finish(ctx.p)
    within(cx, out.writes[seen:], first, room, tag)
    L.transport_decode_free(ctx.p)
    judge_mem(cx, (out, hdr, gm), tag)
    judge_decode(cx, rc == 0, lambda: bytes(hdr.data) + bytes(out.data), enc, oraw, tag,
                 'stream')
    cx.count('decode accepted' if rc == 0 else 'decode refused')


def judge_decode(cx, ok, result, enc, oraw, tag, how):
    if not ok:
        return
    got = result()
    gh = fmt.Hdr(got)
    tot = fmt.HDR
    for p in gh.parts:
        if not p.id:
            break
        tot += p.size + p.padb
        cx.check_that(not p.flags & fmt.F_TRANSPORT and p.tsize == 0,
                      'success-with-encoded-part:' + how, '%s %r' % (tag, p))
    cx.check_that(len(got) == tot, 'success-without-announced-data:' + how,
                  '%s announced %d got %d' % (tag, tot, len(got)))
    try:
        want = model_decode(enc, oraw)
    except Bad as e:
        if 'too long for the model' not in str(e):
            cx.violation('malformed-archive-decoded:' + how, '%s: %s' % (tag, e))
        return
    except Lenient:
        return
    cx.check_that(got == want, 'decoded-content:' + how,
                  lambda: '%s %s' % (tag, c03.first_diff(got, want)))


def case_archive(cx, L, rng, i):
    org, new, plan = gen.pair(rng, maxparts=rng.choice([1, 2, 4]), big=rng.choice([300, 3000]))
    h, body = encode(cx, L, rng, org, new, plan)
    good = h.pack() + b''.join(body)
    d = cx.tmp()
    want = model_decode(good, org.bytes())
    cx.check_that(want == new.bytes(), 'model', 'the model cannot decode its own archive')
    stream(cx, L, rng, good, org.bytes(), 'unbroken')
    for k in range(14):
        enc, oraw, what = break_archive(cx, rng, h, body, org, plan)
        tag = '%s plan=%s' % (what, [(hex(k), v) for k, v in plan.items()])
        stream(cx, L, rng, enc, oraw, tag)
        cx.eval((hashlib.sha1(enc + oraw).digest(),))
        if k < 2:
            gen.put(d, 'enc', enc)
            gen.put(d, 'org', oraw)
            r = cli.run(cx, ['transport', 'enc', '--decode', '--origin', 'org', '--output',
                             'out'], d, cpu=60)
            cx.count('tool accepted' if r.ok else 'tool refused')
            judge_decode(cx, r.ok, lambda: gen.read(os.path.join(d, 'out')), enc, oraw, tag,
                         'tool')
            if not r.ok and os.path.exists(os.path.join(d, 'out')):
                cx.check_that(os.path.getsize(os.path.join(d, 'out')) < 64 << 20,
                              'unbounded-output', tag)
            cx.eval((hashlib.sha1(enc + oraw).digest(), 'tool'))
    cx.sample('archive with %s; last variant: %s' % ([v for v in plan.values()], what))
    cx.drop(d)


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 2:
        case_patch(cx, L, rng, i // 2)
    else:
        case_archive(cx, L, rng, i)
