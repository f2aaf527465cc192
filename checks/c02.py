"""C02: any change to signed content, or any other key, makes verification fail."""
import ctypes as C
import json
import os
import struct

from vlib import cli, clib, core, fmt, gen, huge, pk
from checks import c01

PROPERTY = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('mutation monitor: the verifiers of library, tool and Python run on signed archives '
             'after every kind of modification (byte-exhaustive slices, truncations, signature '
             'and key substitutions, consistent multi-site forgeries); ASan/UBSan')
LEVEL_NOTE = ('Header, signature, payload and tree bytes of the drawn archives are enumerated byte '
              'by byte in slices (all bytes thorough); truncations at every part boundary; which '
              'bytes are covered is decided by the format model. Trusts vlib/fmt.py, vlib/pk.py.')
BUILD = {'asan': ['lib', 'tool', 'py'], 'plain': ['tool']}
PRELOAD = 'asan'
RULE = ('A case signs an archive with an independent signer, checks that it verifies, applies one '
        'modification at a time and requires verification to fail. Distinct: by (archive, '
        'modification).')
REQUIRED = {'huge archive changes': 40, 'header changes': 6000, 'signature changes': 600, 'payload changes': 8000,
            'tree changes': 1000, 'truncations': 200, 'wrong keys': 200, 'bad signatures': 200,
            'forgeries': 150, 'tool refusals': 100, 'python refusals': 20, 'controls': 150, 'signed wrong hashes': 20}
ASSUMPTIONS = ['changes that keep the ECDSA signature value valid ((r, n-s) mirror, other DER '
               'encodings) are not modifications of the signed content']


def cases(tier):
    return 160 if tier == 'quick' else 1600


def sign(a, key, rnd=0):
    """attach an independent signature to a model archive"""
    sig = pk.sign(key.key, fmt.package_hash(a.h), a.h.hash_kind, rnd)
    a.set_signature(sig)
    return a


class Target:
    def __init__(self, cx, L, d, key):
        self.cx, self.L, self.d, self.key = cx, L, d, key
        self.k = c01.load_pub(cx, L, key.pub)
        self.path = os.path.join(d, 't.bpak')

    def verify(self, raw, k=None):
        with open(self.path, 'wb') as f:
            f.write(raw)
        p = clib.Pkg(self.L, self.path, 'r')
        rc = p.rc or self.L.pkg_verify(p.p, k or self.k)
        p.close()
        return rc

    def close(self):
        self.L.free(self.k)


def covered(h):
    """list of (kind, start, end) of file ranges protected by the signature"""
    out = []
    pl, end = fmt.positions(h)
    pos = {p.id: (p, o) for p, o in pl}
    for p, o in pl:
        if not p.flags & fmt.F_EXCLUDE:
            out.append(('payload', o, o + p.stored()))
        if h.get(fmt.ROOT_ID, p.id) is not None:
            if p.flags & fmt.F_EXCLUDE:
                out.append(('payload', o, o + p.stored()))
            t = pos.get(fmt.tree_id(p.id))
            if t and t[0].flags & fmt.F_EXCLUDE:
                lv = fmt.merkle_levels(p.size)
                n = p.size // 4096
                if n == 1:
                    out.append(('tree', t[1], t[1] + 32))
                else:
                    at = t[1] + sum(lv)
                    for b in lv:
                        at -= b
                        out.append(('tree', at, at + n * 32))
                        n = -(-n * 32 // 4096)
    return out


def huge_case(cx, L, rng):
    """changes of signed content beyond 2 and 4 GiB"""
    d = cx.tmp()
    keys = gen.keys(cx)
    key = keys[rng.choice(sorted(keys))]
    H = huge.Huge(rng)
    for k in range(rng.randint(1, 2)):
        H.tree('fs%d' % k, gen.content(rng, 4096 * rng.choice([1, 2, 3, 129])),
               rng.choice([0, fmt.F_EXCLUDE, fmt.F_EXCLUDE]), rng.randbytes(32))
    rng.shuffle(H.parts)
    h = H.signed(key, rng.random())
    path = os.path.join(d, 't.bpak')
    H.write(path, h)
    k = c01.load_pub(cx, L, key.pub)

    def verify():
        with clib.Pkg(L, path, 'r') as p:
            return p.rc or L.pkg_verify(p.p, k)
    rc = verify()
    cx.check_that(rc == 0, 'control-refused:huge', '%s %s rc %d' % (key, H, rc))
    cov = covered(fmt.Hdr(huge.head(path)))
    n = os.path.getsize(path)
    with open(path, 'r+b', buffering=0) as f:
        for what, a, b in cov:
            for at in {a, b - 1, rng.randrange(a, b)} if b > a else ():
                f.seek(at)
                old = f.read(1)
                f.seek(at)
                f.write(bytes([old[0] ^ (1 << rng.randrange(8))]))
                rc = verify()
                f.seek(at)
                f.write(old)
                cx.count('huge archive changes')
                cx.eval(('huge', str(H), what, at))
                cx.check_that(rc != 0, 'accepted:huge-archive:' + what, '%s at %d of %s' % (key, at, H))
    end = max([b for _, a, b in cov if b > a], default=0)
    for at in {end - 1, end - rng.randint(1, 512), fmt.HDR} if end else ():
        # whole parts taken away, and single bytes
        sub = n - at
        tail = b''
        with open(path, 'r+b') as f:
            if sub < (1 << 24):
                f.seek(at)
                tail = f.read()
            elif at != fmt.HDR:
                continue
            f.truncate(at)
        rc = verify()
        cx.count('huge archive changes')
        cx.eval(('huge', str(H), 'cut', at))
        cx.check_that(rc != 0, 'accepted:huge-archive:truncation', '%s at %d of %s' % (key, at, H))
        if tail:
            with open(path, 'ab') as f:
                f.write(tail)
        else:
            H.write(path, h)
    cx.check_that(verify() == 0, 'control-refused:huge', '%s %s again' % (key, H))
    L.free(k)
    cx.count('huge archives')
    cx.sample('huge: %s signed by %s' % (H, key))
    cx.drop(d)


def huge_hashed(cx, rng):
    """changes inside of a part of more than 4 GiB that is hashed"""
    d = cx.tmp()
    keys = gen.keys(cx)
    key = keys[rng.choice(sorted(keys))]
    H = huge.Hashed(rng, key, rng.randint(2, 3))
    h = H.signed()
    places = {'ok': None, 'inside': H.big + rng.randrange(H.n - 9000),
              'end': H.big + H.n - rng.randint(1, 512)}
    for name, at in places.items():
        path = os.path.join(d, name)
        H.write(path, h)
        if at is not None:
            with open(path, 'r+b') as f:
                f.seek(at)
                old = f.read(1)
                f.seek(at)
                f.write(bytes([old[0] ^ (1 << rng.randrange(8))]))
    res = huge.parallel([[cx.builds['plain']['tool'], 'verify', n, '--key', key.pub]
                         for n in places], d)
    if res is None:
        raise core.Inconclusive('hashing 4 GiB takes too long here')
    for (name, at), (rc, out) in zip(places.items(), res):
        what = '%s, %d bytes, changed at %r: exit %d %r' % (key, H.n, at, rc, out[:300])
        if at is None:
            cx.check_that(rc == 0, 'control-refused:huge-hashed', what)
        else:
            cx.check_that(rc != 0, 'accepted:huge-hashed', what)
        cx.eval((H.n, name, at))
    cx.count('verified 4 GiB', 3)
    cx.sample('a part of %d bytes verified' % H.n)
    cx.drop(d)


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 800 == 3:
        return huge_hashed(cx, rng)
    if i % 20 == 9:
        return huge_case(cx, L, rng)
    d = cx.tmp()
    keys = gen.keys(cx)
    kind = i % 8
    fast = kind in (0, 1)
    names = ['rsa-0', 'rsa-1'] if fast else list(keys)
    key = keys[rng.choice(names)]
    s = gen.spec(rng, maxparts=4, big=rng.choice([3000, 20000, 60000]) if kind != 2 else 9000,
                 minparts=1)
    if kind == 6:
        s.parts.append(gen.PartSpec('mk-part', gen.content(rng, 4096 * rng.choice([1, 2, 3, 130])),
                                    'merkle', True))
    if rng.random() < 0.8:
        s.key_id, s.keystore_id = rng.getrandbits(32) | 1, rng.getrandbits(32)
    a = sign(gen.model(s, rng=rng), key, rng.random())
    raw = a.bytes()
    h = fmt.Hdr(raw)
    t = Target(cx, L, d, key)
    rc = t.verify(raw)
    if not cx.check_that(rc == 0, 'control-refused', '%s %r rc %d' % (key, s, rc)):
        t.close()
        return
    cx.count('controls')
    ident = fmt.package_hash(raw).hex()[:16]

    def refuse(mut, what, count, mark, k=None):
        rc = t.verify(mut, k)
        cx.count(count)
        cx.eval((ident, mark))
        cx.check_that(rc != 0, 'accepted:' + what, lambda: '%s %s %r' % (mark, key, s))

    {0: k_header, 1: k_header, 2: k_payload, 3: k_trunc, 4: k_keys, 5: k_forge, 6: k_tree,
     7: k_signature}[kind](cx, L, rng, d, t, a, raw, h, key, keys, refuse, i)
    cx.sample('%s signed by %s, %s' % (
        repr(s), key, ['header', 'header', 'payload', 'truncation', 'keys', 'forgery', 'tree',
                       'signature'][kind]))
    t.close()
    cx.drop(d)


SIGOFF = fmt.HDR - 514


def k_header(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    """all header bytes, slice by slice"""
    n = 16 if cx.tier == 'quick' else 1
    sl = (i // 8) * 2 + i % 2
    for o in list(range(sl % n, SIGOFF, n)) + [fmt.HDR - 2, fmt.HDR - 1]:
        m = bytearray(raw)
        x = rng.choice([1 << rng.randrange(8), rng.randint(1, 255)])
        m[o] ^= x
        refuse(bytes(m), 'header-byte', 'header changes', ('h', o, x))
    for f, v in (('signature_sz', v) for v in (0, 1, 511, 510, 256, 513, 1024, 0xffff, 0x8000)):
        g = fmt.Hdr(raw)
        g.signature_sz = v
        refuse(g.pack() + raw[fmt.HDR:], 'signature-size', 'bad signatures', ('sz', v))


def k_payload(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    """payload and tree bytes through the streaming verifier, then files"""
    hb = clib.Buf(raw[:fmt.HDR])
    base = rng.choice([0, fmt.HDR, 777])
    m = clib.Mem(bytes(base) + raw[fmt.HDR:])
    m.log = False
    rc = L.verify_payload(hb.p, m.r, base, None)
    cx.check_that(rc == 0, 'control-refused:stream', '%d' % rc)
    cov = covered(h)
    tot = sum(e - b for _, b, e in cov)
    step = max(1, tot // (900 if cx.tier == 'quick' else 20000))
    for knd, b, e in cov:
        offs = set(range(b + rng.randrange(min(step, max(1, e - b))), e, step)) if e > b else set()
        offs |= {b, e - 1, (b + e) // 2} if e > b else set()
        for o in sorted(offs):
            x = rng.choice([1 << rng.randrange(8), rng.randint(1, 255)])
            j = o - fmt.HDR + base
            m.data[j] ^= x
            rc = L.verify_payload(hb.p, m.r, base, None)
            m.data[j] ^= x
            cx.count(knd + ' changes')
            cx.eval(('p', o, x, raw[:64]))
            cx.check_that(rc != 0, 'accepted:%s-byte' % knd, 'byte %d of %r' % (o, (knd, b, e)))
    for knd, b, e in cov:
        if e > b:
            o = rng.randrange(b, e)
            mu = bytearray(raw)
            mu[o] ^= 1 << rng.randrange(8)
            refuse(bytes(mu), knd + '-byte', knd + ' changes', ('pf', o))
    rc = L.verify_payload(hb.p, m.r, base, None)
    cx.check_that(rc == 0, 'control-refused:stream', '%d' % rc)
    # a source that fails or returns less
    n0 = m.calls
    m.calls = 0
    L.verify_payload(hb.p, m.r, base, None)
    n = m.calls
    for k in range(1, n + 1) if n < 60 else sorted(rng.sample(range(1, n + 1), 60)):
        for f in ('fail', 'short'):
            m.calls = 0
            m.fail_at = k if f == 'fail' else None
            m.short_at = k if f == 'short' else None
            last = (n == 0)
            rc = L.verify_payload(hb.p, m.r, base, None)
            # a short answer to a request for nothing is no fault
            if not last and cov:
                ok = rc != 0 or zero_request(m, L, hb, base, k)
                cx.check_that(ok, 'accepted:unreadable', '%s at read %d of %d' % (f, k, n))
            cx.count('payload changes')
            cx.eval(('f', f, k, raw[:64]))
    m.fail_at = m.short_at = None


def zero_request(m, L, hb, base, k):
    m.fail_at = m.short_at = None
    m.calls, m.log, m.reads = 0, True, []
    L.verify_payload(hb.p, m.r, base, None)
    m.log = False
    return m.reads[k - 1][1] == 0 if k <= len(m.reads) else True


def k_trunc(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    cov = covered(h)
    last = max([e for _, b, e in cov if e > b] + [fmt.HDR])
    pl, end = fmt.positions(h)
    cuts = {0, 1, 4, fmt.HDR - 1, fmt.HDR - 2, fmt.HDR - 514, last - 1, last - 512}
    for p, o in pl:
        cuts |= {o, o + 1, o + p.size, o + p.size - 1, o + p.stored() - 1}
    cuts |= {rng.randrange(last) for _ in range(30)}
    for c in sorted(cuts):
        if 0 <= c < last:
            refuse(raw[:c], 'truncation', 'truncations', ('cut', c, last))
    # hole: bytes removed in the middle, and inserted
    for _ in range(15):
        o = rng.randrange(last)
        k = rng.choice([1, 512, 4096, rng.randint(1, 600)])
        mu = raw[:o] + raw[o + k:]
        if mu[:last] != raw[:last]:
            if changed_covered(raw, mu, cov):
                refuse(mu, 'removed-bytes', 'truncations', ('hole', o, k))
        mu = raw[:o] + rng.randbytes(k) + raw[o:]
        if changed_covered(raw, mu, cov):
            refuse(mu, 'inserted-bytes', 'truncations', ('ins', o, k))
    for c in rng.sample(sorted(x for x in cuts if 0 <= x < last), 3):
        gen.put(d, 'c.bpak', raw[:c])
        r = cli.run(cx, ['verify', 'c.bpak', '--key', key.pub], d)
        cx.check_that(not r.ok, 'accepted:truncation-tool', r.brief)
        cx.count('tool refusals')


def changed_covered(raw, mu, cov):
    if mu[:SIGOFF] != raw[:SIGOFF] or mu[fmt.HDR - 2:fmt.HDR] != raw[fmt.HDR - 2:fmt.HDR]:
        return True
    return any(mu[b:e] != raw[b:e] for _, b, e in cov)


def k_keys(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    gen.put(d, 's.bpak', raw)
    for nm, o in keys.items():
        if o is key:
            continue
        k = c01.load_pub(cx, L, o.pub)
        refuse(raw, 'other-key', 'wrong keys', ('key', nm), k)
        # the library may also be handed a key that lies about its type
        if L.sh_key_kind(k) != L.sh_key_kind(t.k):
            pass
        L.free(k)
    o = rng.choice([x for x in keys.values() if x is not key])
    r = cli.run(cx, ['verify', 's.bpak', '--key', rng.choice(o.pubs)], d)
    cx.check_that(not r.ok and b'Verification OK' not in r.out, 'accepted:other-key-tool', r.brief)
    r = cli.run(cx, ['verify', 's.bpak', '--key', rng.choice(key.pubs)], d)
    cx.check_that(r.ok, 'control-refused:tool', r.brief)
    cx.count('tool refusals')
    # keystores: wrong key under the id, wrong keystore id, key missing
    def ks(ksid, entries):
        st = fmt.Archive()
        if ksid is not None:
            st.meta(fmt.KSP_ID, struct.pack('<I', ksid))
        for pid, der in entries:
            st.add(pid, der)
        gen.put(d, 'ks.bpak', st.finish().bytes())
        return cli.run(cx, ['verify', 's.bpak', '--keystore', 'ks.bpak'], d)
    kid = h.key_id
    if kid:
        oth = kid ^ (1 << rng.randrange(32))
        if oth == 0:
            oth = kid ^ 6
        r = ks(h.keystore_id, [(oth, o.der), (kid, key.der)])
        cx.check_that(r.ok, 'control-refused:keystore', r.brief)
        for what, st in (('wrong-key', (h.keystore_id, [(oth, key.der), (kid, o.der)])),
                         ('wrong-keystore', (h.keystore_id ^ (1 << rng.randrange(32)),
                                             [(kid, key.der)])),
                         ('no-keystore-id', (None, [(kid, key.der)])),
                         ('missing-key', (h.keystore_id, [(oth, key.der)])),
                         ('no-key', (h.keystore_id, [])),
                         ('damaged-key', (h.keystore_id, [(kid, key.der[:-1])])),
                         ('changed-key', (h.keystore_id, [(kid, key.der[:-9] + bytes(
                             [key.der[-9] ^ 4]) + key.der[-8:])]))):
            r = ks(*st)
            cx.check_that(not r.ok and b'Verification OK' not in r.out,
                          'accepted:keystore-' + what, r.brief)
            cx.count('tool refusals')
            cx.count('wrong keys')
            cx.eval(('ks', what, kid))
    # no key at all
    r = cli.run(cx, ['verify', 's.bpak'], d)
    cx.check_that(not r.ok and b'Verification OK' not in r.out, 'accepted:no-key', r.brief)
    # private key file or rubbish as a key never verifies by accident
    gen.put(d, 'bad.key', rng.randbytes(rng.randint(0, 300)))
    r = cli.run(cx, ['verify', 's.bpak', '--key', 'bad.key'], d)
    cx.check_that(not r.ok and b'Verification OK' not in r.out, 'accepted:bad-key', r.brief)
    cx.count('tool refusals', 2)
    bad_signatures(cx, L, rng, d, t, a, raw, h, key, keys, refuse)
    # python
    gen.put(d, 'm.bpak', tampered(rng, raw, h))
    todo = [[os.path.join(d, 's.bpak'), o.pub], [os.path.join(d, 'm.bpak'), key.pub],
            [os.path.join(d, 's.bpak'), os.path.join(d, 'bad.key')]]
    res, err = c01.python(cx, c01.PY_VERIFY, {'todo': todo + [[os.path.join(d, 's.bpak'), key.pub]]})
    if res is None:
        raise core.Violation('python-verify-fails', err)
    for x in res[:3]:
        cx.check_that(x is not True, 'accepted:python', '%r' % (res,))
        cx.count('python refusals')
    cx.check_that(res[3] is True or res[3] is None, 'control-refused:python', repr(res))


def tampered(rng, raw, h):
    m = bytearray(raw)
    cov = [(b, e) for _, b, e in covered(h) if e > b] + [(0, SIGOFF)]
    b, e = rng.choice(cov)
    m[rng.randrange(b, e)] ^= 1 << rng.randrange(8)
    return bytes(m)


def bad_signatures(cx, L, rng, d, t, a, raw, h, key, keys, refuse):
    dg = fmt.package_hash(raw)
    other = [k for k in keys.values() if k is not key]
    n = h.signature_sz
    sig = h.signature[:n]
    bad = [('empty', b''), ('zeros', bytes(n)), ('ones', b'\xff' * n), ('one-byte', sig[:1]),
           ('cut', sig[:-1]), ('cut-front', sig[1:]), ('double', (sig + sig)[:512]
            if n < 512 else sig[::-1]),
           ('random', rng.randbytes(n)),
           ('other-digest', pk.sign(key.key, fmt.HASHES[h.hash_kind](b'x').digest(), h.hash_kind))]
    for o in rng.sample(other, 3):
        bad.append(('foreign-' + o.name, pk.sign(o.key, dg, h.hash_kind, rng.random())))
    if key.key.kind == 'rsa':
        nn = key.key.pub[0]
        for v in (0, 1, nn - 1, nn, nn + 1 if (nn + 1).bit_length() <= 4096 else 2):
            bad.append(('rsa-%d' % (v if v < 3 else -1), v.to_bytes(512, 'big')))
        # right digest under another digest's identifier, and no padding
        for k2 in (1, 2, 3):
            if k2 != h.hash_kind:
                bad.append(('rsa-wrong-id', pk.sign(key.key, dg, k2)))
        k_ = 512
        for em in (b'\0\2' + b'\xff' * (k_ - 3 - len(pk.PREFIX[h.hash_kind] + dg)) + b'\0' +
                   pk.PREFIX[h.hash_kind] + dg,
                   b'\0\1' + b'\xff' * 8 + b'\0' + pk.PREFIX[h.hash_kind] + dg +
                   bytes(k_ - 11 - len(pk.PREFIX[h.hash_kind] + dg)),
                   dg.rjust(512, b'\0')):
            v = int.from_bytes(em, 'big')
            bad.append(('rsa-padding', pow(v, key.key.priv, nn).to_bytes(512, 'big')))
    else:
        nn = pk.CURVES[key.key.kind].n

        def rs(r, s):
            return pk.enc(0x30, pk.enc_int(r) + pk.enc_int(s))
        its = pk.seq(pk.tlv(sig)[1])
        r_, s_ = (int.from_bytes(x[1], 'big') for x in its)
        bad += [('ec-00', rs(0, 0)), ('ec-0s', rs(0, s_)), ('ec-r0', rs(r_, 0)), ('ec-11', rs(1, 1)),
                ('ec-swap', rs(s_, r_)), ('ec-n', rs(nn, nn)), ('ec-r+n', rs(r_ + nn, s_)),
                ('ec-tail', pk.enc(0x30, pk.enc_int(r_) + pk.enc_int(s_) + rng.randbytes(3))),
                ('ec-tail0', pk.enc(0x30, pk.enc_int(r_) + pk.enc_int(s_) + bytes(2))),
                ('ec-tailint', pk.enc(0x30, pk.enc_int(r_) + pk.enc_int(s_) + pk.enc_int(1))),
                ('ec-s+n', rs(r_, s_ + nn)), ('ec-rn', rs(nn, s_)), ('ec-sn', rs(r_, nn))]
    for what, sg in bad:
        g = fmt.Hdr(raw)
        g.signature = sg.ljust(512, b'\0')[:512]
        g.signature_sz = min(len(sg), 512)
        if g.signature[:g.signature_sz] == sig:
            continue
        refuse(g.pack() + raw[fmt.HDR:], 'signature-' + what.split('-')[0], 'bad signatures',
               ('sig', what, len(sg)))
        if rng.random() < 0.12 and len(sg) <= 512:
            gen.put(d, 'x.sig', sg)
            gen.put(d, 'x.bpak', raw)
            cli.run(cx, ['sign', 'x.bpak', '--signature', 'x.sig'], d)
            r = cli.run(cx, ['verify', 'x.bpak', '--key', key.pub], d)
            if sg:
                cx.check_that(not r.ok, 'accepted:attached-' + what.split('-')[0], r.brief)
            cx.count('tool refusals')
    for v in (513, 514, 600, 1024, 4096, 0x7fff, 0xffff):
        g = fmt.Hdr(raw)
        g.signature_sz = v
        refuse(g.pack() + raw[fmt.HDR:], 'oversized-signature', 'bad signatures', ('over', v))


def k_signature(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    """all used signature bytes"""
    n = h.signature_sz
    step = 1 if key.key.kind != 'p521' or cx.tier != 'quick' else 2
    if key.key.kind == 'rsa':
        step = 3 if cx.tier == 'quick' else 1
    for o in range(rng.randrange(step), n, step):
        m = bytearray(raw)
        m[SIGOFF + o] ^= 1 << rng.randrange(8)
        refuse(bytes(m), 'signature-byte', 'signature changes', ('s', o))
    for v in [0, 1, n - 1, n + 1, n + 2, n // 2, 2 * n, 512, 513]:
        if v == n:
            continue
        g = fmt.Hdr(raw)
        g.signature_sz = v
        refuse(g.pack() + raw[fmt.HDR:], 'signature-size', 'signature changes', ('ss', v))


def k_forge(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    """consistent multi-site changes that an attacker without the key can make"""
    pl, end = fmt.positions(h)
    for _ in range(14):
        g = fmt.Hdr(raw)
        body = bytearray(raw[fmt.HDR:])
        what = rng.choice(['payload+hash', 'exclude', 'swap-parts', 'drop-part', 'add-part',
                           'meta', 'resize', 'hash-kind', 'zero-id', 'swap-data', 'ids',
                           'transport-flag', 'unhash-all', 'add-root'])
        parts = g.part_list()
        if what == 'payload+hash':
            if not body:
                continue
            o = rng.randrange(len(body))
            body[o] ^= 0x40
            g.payload_hash = fmt.payload_hash(g, g.pack() + body).ljust(64, b'\0')
            if g.payload_hash == h.payload_hash:
                continue
        elif what == 'exclude':
            p = rng.choice(parts)
            p.flags ^= fmt.F_EXCLUDE
            g.payload_hash = fmt.payload_hash(g, g.pack() + body).ljust(64, b'\0')
        elif what == 'unhash-all':
            for p in parts:
                p.flags |= fmt.F_EXCLUDE
            if [p.flags for p in parts] == [p.flags for p in h.part_list()]:
                continue
            g.payload_hash = fmt.payload_hash(g, g.pack() + body).ljust(64, b'\0')
        elif what == 'swap-parts':
            if len(parts) < 2:
                continue
            x, y = rng.sample(range(len(parts)), 2)
            g.parts[x], g.parts[y] = g.parts[y], g.parts[x]
        elif what == 'drop-part':
            k = rng.randrange(len(parts))
            p, o = pl[k]
            del body[o - fmt.HDR:o - fmt.HDR + p.stored()]
            del g.parts[k]
            g.parts.append(fmt.Part())
            g.payload_hash = fmt.payload_hash(g, g.pack() + body).ljust(64, b'\0')
        elif what == 'add-part':
            g.add_part(rng.getrandbits(32) | 1, 512, fmt.F_EXCLUDE)
            body += bytes(512)
        elif what == 'meta':
            if g.meta_list() and rng.random() < .5:
                m = rng.choice([m for m in g.metas if m.id])
                m.id ^= 1
            else:
                g.metadata[rng.randrange(1920)] ^= 1
        elif what == 'resize':
            p = rng.choice(parts)
            p.size += 512
        elif what == 'hash-kind':
            g.hash_kind = g.hash_kind % 3 + 1
            g.payload_hash = fmt.payload_hash(g, g.pack() + body).ljust(64, b'\0')
        elif what == 'zero-id':
            rng.choice(parts).id = 0
        elif what == 'swap-data':
            same = [(p, o, q, r) for p, o in pl for q, r in pl
                    if o < r and p.stored() == q.stored() and p.stored()]
            if not same:
                continue
            p, o, q, r = rng.choice(same)
            n = p.stored()
            x, y = body[o - fmt.HDR:o - fmt.HDR + n], body[r - fmt.HDR:r - fmt.HDR + n]
            body[o - fmt.HDR:o - fmt.HDR + n], body[r - fmt.HDR:r - fmt.HDR + n] = y, x
        elif what == 'ids':
            g.key_id ^= 1 << rng.randrange(32)
        elif what == 'transport-flag':
            p = rng.choice(parts)
            p.flags |= fmt.F_TRANSPORT
            p.tsize = p.size + p.padb
        elif what == 'add-root':
            g.metas[31] = fmt.Meta(fmt.ROOT_ID, 32, 0, rng.getrandbits(32))
        mu = g.pack() + bytes(body)
        if not changed_covered(raw, mu, covered(h)):
            continue
        refuse(mu, 'forgery-' + what, 'forgeries', (what, rng.random()))
        # the unused part of the payload hash field and of the padding fields
    for o, n in ((3468 + 2, 64),):
        for _ in range(6):
            m = bytearray(raw)
            m[o + rng.randrange(n)] ^= 1 << rng.randrange(8)
            refuse(bytes(m), 'header-byte', 'header changes', ('ph', rng.random()))
    # a signed header that states another payload hash, wherever it differs
    hl = fmt.HASHES[h.hash_kind]().digest_size
    if key.key.kind != 'rsa' or cx.tier != 'quick':
        offs = sorted({0, hl - 1, 31, rng.randrange(hl), rng.randrange(hl)})
    else:
        offs = [hl - 1]
    for o in offs:
        g = fmt.Hdr(raw)
        ph = bytearray(g.payload_hash)
        ph[o] ^= 1 << rng.randrange(8)
        g.payload_hash = bytes(ph)
        g.signature, g.signature_sz = bytes(512), 0
        sg = pk.sign(key.key, fmt.package_hash(g), g.hash_kind, rng.random())
        g.signature, g.signature_sz = sg.ljust(512, b'\0'), len(sg)
        refuse(g.pack() + raw[fmt.HDR:], 'signed-wrong-payload-hash', 'signed wrong hashes',
               ('sph', o))
    # header of another signed archive of the same key in front of this payload
    s2 = gen.spec(rng, maxparts=3, big=3000, minparts=1)
    b = sign(gen.model(s2, rng=rng), key, 5)
    mu = b.h.pack() + raw[fmt.HDR:]
    if changed_covered(b.bytes(), mu, covered(b.h)):
        refuse(mu, 'forgery-other-header', 'forgeries', 'other-header')


def k_tree(cx, L, rng, d, t, a, raw, h, key, keys, refuse, i):
    """data and tree changed consistently below the root"""
    pl, end = fmt.positions(h)
    pos = {p.id: (p, o) for p, o in pl}
    pid = fmt.bid('mk-part')
    p, o = pos[pid]
    tp, to = pos[fmt.tree_id(pid)]
    salt, root = h.get(fmt.SALT_ID, pid), h.get(fmt.ROOT_ID, pid)
    data = bytearray(raw[o:o + p.size])
    hb = clib.Buf(raw[:fmt.HDR])
    sb, rb = clib.Buf(salt), clib.Buf(root)
    for _ in range(10):
        d2 = bytearray(data)
        d2[rng.randrange(len(d2))] ^= 1 << rng.randrange(8)
        tree, r2 = fmt.merkle_tree(bytes(d2), salt)
        if rng.random() < 0.5:
            # full forged tree
            mu = raw[:o] + bytes(d2) + raw[o + p.size:to] + tree + raw[to + len(tree):]
            what = 'forged-tree'
        else:
            # only the lowest level follows the data
            old = raw[to:to + tp.size]
            low = fmt.merkle_levels(p.size)[0] if p.size > 4096 else 0
            mix = old[:len(old) - low] + tree[len(old) - low:]
            mu = raw[:o] + bytes(d2) + raw[o + p.size:to] + mix + raw[to + len(mix):]
            what = 'forged-level'
        refuse(mu, what, 'tree changes', (what, rng.random()))
        m = clib.Mem(mu)
        rc = L.verify_merkle_tree(m.r, o, p.size, to, rb.p, sb.p, None)
        cx.check_that(rc != 0, 'accepted:stream-' + what, '')
        # new root in the header as well
        g = fmt.Hdr(mu)
        for mm in g.metas:
            if mm.id == fmt.ROOT_ID and mm.ref == pid:
                g.metadata[mm.offset:mm.offset + 32] = r2
        refuse(g.pack() + mu[fmt.HDR:], 'forged-root', 'tree changes', ('root', rng.random()))
    for knd, b, e in covered(h):
        if knd == 'tree':
            for x in sorted(rng.sample(range(b, e), min(e - b, 120))):
                m = bytearray(raw)
                m[x] ^= 1 << rng.randrange(8)
                refuse(bytes(m), 'tree-byte', 'tree changes', ('t', x))
    # whole blocks exchanged, zeroed
    for _ in range(8):
        n = p.size // 4096
        x, y = rng.randrange(n), rng.randrange(n)
        d2 = bytearray(data)
        d2[x * 4096:x * 4096 + 4096], d2[y * 4096:y * 4096 + 4096] = \
            data[y * 4096:y * 4096 + 4096], data[x * 4096:x * 4096 + 4096]
        if rng.random() < .5:
            d2[x * 4096:x * 4096 + 4096] = bytes(4096)
        if d2 == data:
            continue
        refuse(raw[:o] + bytes(d2) + raw[o + p.size:], 'moved-blocks', 'tree changes',
               ('mv', x, y, rng.random()))
