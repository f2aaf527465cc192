"""C03: transport encode followed by decode reproduces the package."""
import ctypes as C
import hashlib
import json
import os

from vlib import cli, clib, core, fmt, gen, pk
from checks import c01, c02, c04

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('round-trip monitor on the real encoder and decoder (tool, library, Python, streaming '
             'interface) with an independent decoder judging every encoded archive; ASan/UBSan, '
             'recorded stream requests')
LEVEL_NOTE = ('Sampled package pairs (20 delta shape families, 3 compressions, merkle removal and '
              'regeneration, mixed and empty parts) and chunkings; every encoded archive is also '
              'decoded by an independent patcher. Trusts vlib/fmt.py, Python lzma.')
BUILD = {'asan': ['lib', 'tool', 'py']}
PRELOAD = 'asan'
RULE = ('A case draws origin and new package with a transport plan per part, encodes with one '
        'interface, judges the encoded file, decodes with two interfaces, compares the files and '
        'verifies the signature of the result. Distinct: by content digest, interface, chunking.')
REQUIRED = {'encoded parts delta': 150, 'encoded parts remove': 50, 'encoded parts copy': 60,
            'round trips tool': 50, 'round trips lib': 50, 'round trips stream': 150,
            'round trips python': 15, 'decoded packages verified': 60, 'no-origin round trips': 10,
            're-encoded': 10}
ASSUMPTIONS = ['a removed tree follows its data part (as the tool creates it) and the data part is '
               'not itself flagged as transport encoded when the tree is regenerated']

PY = r'''
import sys, bpak, json
d = json.loads(sys.stdin.read())
for op, i, o, g in d['todo']:
    a = bpak.Package(i, 'r')
    b = bpak.Package(o, 'w+')
    c = bpak.Package(g, 'r') if g else None
    f = bpak.transport_encode if op == 'encode' else bpak.transport_decode
    if c is not None:
        f(a, b, c)
        c.close()
    else:
        f(a, b)
    a.close()
    b.close()
print(json.dumps('ok'))
'''


def cases(tier):
    return 200 if tier == 'quick' else 3000


def by_lib(cx, L, op, inp, out, org):
    p = clib.Pkg(L, inp, 'r')
    o = clib.Pkg(L, out, 'w+')
    g = clib.Pkg(L, org, 'r') if org else None
    rc = p.rc or o.rc or (g.rc if g else 0)
    if not rc:
        f = L.pkg_transport_encode if op == 'encode' else L.pkg_transport_decode
        rc = f(p.p, o.p, g.p if g else None)
    p.close()
    if g:
        g.close()
    c = o.close()
    return rc or c


def run(cx, L, op, how, d, inp, out, org):
    """returns None or an error text"""
    if how == 'tool':
        r = cli.run(cx, ['transport', inp, '--' + op] +
                    (['--origin', org] if org else []) + ['--output', out], d)
        return None if r.ok else r.brief()
    j = lambda x: os.path.join(d, x) if x else None
    if how == 'lib':
        rc = by_lib(cx, L, op, j(inp), j(out), j(org))
        return None if rc == 0 else 'rc %d' % rc
    r, err = c01.python(cx, PY, {'todo': [[op, j(inp), j(out), j(org)]]})
    return None if r == 'ok' else err


def judge_encoded(cx, org, new, plan, enc, tag):
    """independent judgement of the encoded archive"""
    h = fmt.Hdr(enc)
    n = new.h
    pos, end = fmt.positions(h)
    cx.check_that(end == len(enc), 'encoded-size', '%s: parts end at %d, file has %d' % (
        tag, end, len(enc)))
    ref = fmt.Hdr(n.pack())
    for p, q in zip(ref.parts, h.parts):
        if p.id and plan[p.id][0] != 'copy':
            p.flags |= fmt.F_TRANSPORT
            p.tsize = q.tsize
    if not cx.check_that(ref.pack() == enc[:fmt.HDR], 'encoded-header', lambda: '%s %r %r' % (
            tag, ref.part_list(), h.part_list())):
        return
    for k, (p, at) in enumerate(pos):
        pl = plan[p.id]
        body = enc[at:at + p.stored()]
        cx.count('encoded parts ' + pl[0])
        if pl[0] == 'copy':
            cx.check_that(body == new.data[k], 'copied-part-differs', '%s %r' % (tag, p))
        elif pl[0] == 'remove':
            cx.check_that(p.tsize == 0, 'removed-part-keeps-data', '%s %r' % (tag, p))
        else:
            ol = org.h.part_list()
            oi = [x.id for x in ol].index(p.id)
            odata = org.data[oi]
            try:
                raw = fmt.decompress(body, pl[1])
                got = c04.apply_prefix(odata, raw, len(new.data[k]))[0] if pl[1] == 'hs' else \
                    fmt.apply_patch(odata, raw)
            except Exception as e:
                cx.violation('encoded-delta-format:' + pl[1], '%s %r %r' % (tag, p, e))
                continue
            cx.check_that(got == new.data[k], 'encoded-delta-content:' + pl[1],
                          '%s %r' % (tag, p))


def stream_decode(cx, L, rng, enc, orgraw, expect, tag):
    """the streaming interface with arbitrary chunks and work buffers"""
    hb = clib.Buf(enc[:fmt.HDR])
    h = fmt.Hdr(enc)
    pos, end = fmt.positions(h)
    ooff = rng.choice([0, fmt.HDR, 4096, 100])      # where the payload is put
    goff = rng.choice([0, fmt.HDR, 999])            # where the origin payload lies
    out = clib.Mem(rng.randbytes(ooff), limit=ooff + len(expect) + 8192)
    hdr = clib.Mem(b'', limit=fmt.HDR)
    work = clib.Buf(rng.choice([2, 8, 64, 512, 1024, 4096]), 0x77)
    ctx = clib.Buf(L.size(clib.TDECODE), 0x99)
    rc = L.transport_decode_init(ctx.p, work.p, work.n, hb.p, out.w, out.r, ooff, hdr.w, None)
    gm = gh = None
    if rc == 0 and orgraw is not None:
        gm = clib.Mem(bytes(goff) + orgraw[fmt.HDR:])
        gh = clib.Buf(orgraw[:fmt.HDR])
        rc = L.transport_decode_set_origin(ctx.p, gh.p, gm.r, goff)
    style = rng.randrange(4)
    if rc == 0:
        for k, (p, at) in enumerate(pos):
            idx = [j for j, x in enumerate(h.parts) if x.id][k]
            rc = L.transport_decode_start(ctx.p, L.sh_part_at(hb.p, idx))
            if rc:
                break
            body = enc[at:at + p.stored()]
            i = 0
            while i < len(body) and not rc:
                n = (1 if style == 0 and len(body) < 3000 else
                     len(body) if style == 1 else
                     rng.choice([1, 7, 24, 512, 1024, rng.randint(1, 3000)]))
                ch = clib.Buf(body[i:i + n])
                rc = L.transport_decode_write_chunk(ctx.p, ch.p, ch.n)
                i += n
            if rc == 0:
                rc = L.transport_decode_finish(ctx.p)
            if rc:
                break
    L.transport_decode_free(ctx.p)
    cx.check_that(rc == 0, 'stream-decode-fails', '%s rc %d style %d work %d' % (
        tag, rc, style, work.n))
    for m in (out, hdr, gm):
        if m is not None:
            cx.check_that(not m.bad and not m.err, 'stream-request', '%s %s %s' % (
                tag, m.bad, m.err))
    if rc == 0:
        cx.check_that(bytes(hdr.data) + bytes(out.data[ooff:]) == expect, 'stream-result', lambda:
                      '%s style %d work %d: %s' % (tag, style, work.n, first_diff(
                          bytes(hdr.data) + bytes(out.data[ooff:]), expect)))
        cx.check_that(hb.get() == expect[:fmt.HDR], 'stream-header-in-memory', tag)
        cx.check_that(all(o >= ooff and o + n <= ooff + len(expect) - fmt.HDR
                          for o, n in out.writes), 'stream-write-range', tag)
    cx.count('round trips stream')


def first_diff(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return 'first difference at %d, lengths %d %d' % (n, len(a), len(b))


def run_case(cx, i, rng):
    L = clib.load(cx)
    d = cx.tmp()
    keys = gen.keys(cx)
    noorg = i % 10 == 9
    org, new, plan = gen.pair(rng, maxparts=rng.choice([1, 3, 5, 7]), deltas=not noorg,
                              big=rng.choice([2000, 20000, 60000]))
    key = keys[rng.choice(['p256-0', 'rsa-0', 'p384-1', 'p521-0'])]
    if rng.random() < 0.6:
        c02.sign(new, key)
        signed = True
    else:
        signed = False
    raw, oraw = new.bytes(), org.bytes()
    if rng.random() < 0.25:
        oraw += rng.randbytes(rng.randint(1, 600))      # trailing bytes are not part of it
    gen.put(d, 'new.bpak', raw)
    gen.put(d, 'org.bpak', oraw)
    o = None if noorg else 'org.bpak'
    how = ['tool', 'lib', 'tool', 'lib', 'python'][i % 5]
    if rng.random() < 0.3:
        gen.put(d, 'enc.bpak', rng.randbytes(rng.randint(1, 3 * len(raw))))
    tag = '%s plan=%s' % (how, [(hex(k), v) for k, v in plan.items()])
    if rng.random() < .15 and how == 'tool':
        # transport metadata added by the tool instead
        bare = strip_transport(new, d)
        if bare is not None:
            gen.put(d, 'new.bpak', bare.bytes())
            for (k, ref), v in new.h.meta_list():
                if k == fmt.T_ID:
                    e, dd = fmt.struct.unpack_from('<II', v)
                    en = next(n for n, x in fmt.ENC.items() if x == e)
                    dn = next(n for n, x in fmt.DEC.items() if x == dd)
                    gen.must(cli.run(cx, ['transport', 'new.bpak', '--add', '--part-ref',
                                          '0x%x' % ref, '--encoder', en, '--decoder', dn], d))
            raw = gen.read(os.path.join(d, 'new.bpak'))
            new.h = fmt.Hdr(raw)
            signed = False
            if key.key.kind == 'p256':
                gen.must(cli.run(cx, ['sign', 'new.bpak', '--key', key.priv], d))
                raw = gen.read(os.path.join(d, 'new.bpak'))
                new.h = fmt.Hdr(raw)
                signed = True
    err = run(cx, L, 'encode', how, d, 'new.bpak', 'enc.bpak', o)
    if not cx.check_that(err is None, 'encode-fails:' + how, '%s\n%s' % (tag, err)):
        return
    enc = gen.read(os.path.join(d, 'enc.bpak'))
    judge_encoded(cx, org, new, plan, enc, tag)
    hows = ['tool', 'lib'] if how != 'python' else ['python', rng.choice(['tool', 'lib'])]
    if rng.random() < 0.3:
        gen.put(d, 'dec.bpak', rng.randbytes(rng.randint(1, 3 * len(raw))))
    for hw in hows:
        err = run(cx, L, 'decode', hw, d, 'enc.bpak', 'dec.bpak', o)
        if not cx.check_that(err is None, 'decode-fails:' + hw, '%s\n%s' % (tag, err)):
            continue
        dec = gen.read(os.path.join(d, 'dec.bpak'))
        cx.check_that(dec == raw, 'round-trip-differs:' + hw,
                      lambda: '%s %s' % (tag, first_diff(dec, raw)))
        cx.count('round trips ' + hw)
        cx.eval((hashlib.sha1(raw + oraw).digest(), how, hw))
        if noorg:
            cx.count('no-origin round trips')
    if signed:
        r = cli.run(cx, ['verify', 'dec.bpak', '--key', key.pub], d)
        cx.check_that(r.ok, 'decoded-does-not-verify', lambda: '%s %s' % (tag, r.brief()))
        cx.count('decoded packages verified')
    for _ in range(2):
        stream_decode(cx, L, rng, enc, None if noorg else oraw, raw, tag)
        cx.eval((hashlib.sha1(raw + oraw).digest(), 'stream', rng.random()))
    if rng.random() < 0.3:
        # parts that are already encoded are carried over
        err = run(cx, L, 'encode', 'tool', d, 'enc.bpak', 'enc2.bpak', o)
        if cx.check_that(err is None, 're-encode-fails', '%s %s' % (tag, err)):
            cx.check_that(gen.read(os.path.join(d, 'enc2.bpak')) == enc, 're-encode-differs', tag)
            cx.count('re-encoded')
            cx.eval((hashlib.sha1(enc).digest(), 're'))
    if not any(v[0] != 'copy' for v in plan.values()):
        # nothing to do: decoding the package itself is a copy
        err = run(cx, L, 'decode', 'tool', d, 'new.bpak', 'dec2.bpak', None)
        cx.check_that(err is None and gen.read(os.path.join(d, 'dec2.bpak')) == raw,
                      'plain-decode', err)
    cx.check_that(gen.read(os.path.join(d, 'new.bpak')) == raw and
                  gen.read(os.path.join(d, 'org.bpak')) == oraw, 'inputs-changed', tag)
    cx.sample(tag)
    cx.drop(d)


def strip_transport(new, d):
    a = fmt.Archive(new.h.hash_kind, new.h.sign_kind)
    a.h.key_id, a.h.keystore_id = new.h.key_id, new.h.keystore_id
    for (k, ref), v in new.h.meta_list():
        if k != fmt.T_ID:
            a.meta(k, v, ref)
    for p, b in zip(new.h.part_list(), new.data):
        q = a.h.add_part(p.id, p.size, p.flags)
        a.data.append(b)
    return a.finish()
