"""C06: every reader survives every archive file.

Mutated archives go through every operation of the library (in this process,
ASan/UBSan) and of the tool (ASan/UBSan, CPU and file size limits)."""
import ctypes as C
import hashlib
import os
import resource
import struct

from vlib import cli, clib, core, fmt, gen
from checks import c01, c02, c05

PROPERTY = 'C06'
LEVEL = 'exploration'
TECHNIQUE = ('hostile-archive execution of every library and tool operation under ASan/UBSan with '
             'limits on time and output; an independent validity rule says which must be refused')
LEVEL_NOTE = ('Seeded structural and bit-level mutation of package, keystore and encoded archives, '
              '~20 000 operations per quick run. Bounded by the mutation families; trusts the '
              'validity rule in vlib/fmt.py.')
BUILD = {'asan': ['lib', 'tool']}
PRELOAD = 'asan'
RULE = ('A case draws an archive (package, keystore, encoded package), breaks it several ways and '
        'runs library operations and tool commands on each. Distinct: digest of file and '
        'operation; trivial: files shorter than a header.')
REQUIRED = {'lib operations': 6000, 'tool commands': 500, 'invalid refused': 1000,
            'valid header': 800, 'lib ok': 500, 'lib refused': 2000, 'tool ok': 60,
            'tool refused': 150, 'kind metadata outside': 60, 'kind alignment': 60,
            'kind incomplete data': 150, 'transports ok': 60}
ASSUMPTIONS = ['archives of up to some 100 kB; no sparse multi-gigabyte files']

HUGE = [1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62, (1 << 63) - 4096, (1 << 63) - 512, 1 << 63,
        (1 << 64) - 512, (1 << 64) - 4096, (1 << 64) - 1, (1 << 63) - 1]
WELL = [fmt.T_ID, fmt.SALT_ID, fmt.ROOT_ID, fmt.PKG_ID, fmt.KSP_ID] + sorted(fmt.ID.values())
LIMIT = 256 << 20


def cases(tier):
    return 420 if tier == 'quick' else 3000


def base(cx, rng, keys, kind):
    if kind == 'keystore':
        n = rng.sample(sorted(keys), rng.randint(1, 3))
        a = fmt.Archive()
        a.meta(fmt.KSP_ID, struct.pack('<I', 0x1234))
        for x in n:
            a.add(x, keys[x].der)
        if rng.random() < .5:
            a.meta(fmt.PKG_ID, b'k' * 16)
        return a.finish()
    if kind in ('pair', 'encoded'):
        org, new, plan = gen.pair(rng, maxparts=3, big=1500)
        L = clib.load(cx)
        if kind == 'pair':
            # one of them is broken, the other one is used with it
            x = [org, new]
            if rng.random() < .6:
                x.reverse()
            x[0].partner = x[1].bytes()
            return x[0]
        h, body = c05.encode(cx, L, rng, org, new, plan)
        a = fmt.Archive()
        a.h, a.data = h, body
        if rng.random() < .7:
            a.partner = org.bytes()
        return a
    a = gen.model(gen.spec(rng, maxparts=rng.choice([1, 4, 8]), big=9000, empty=True), rng=rng)
    if rng.random() < .5 and len(a.h.meta_list()) < 30 and a.h.get(fmt.PKG_ID) is None:
        try:
            a.meta(fmt.PKG_ID, b'k' * 16)
        except AssertionError:
            pass
    if rng.random() < .6:
        c02.sign(a.finish(), keys[rng.choice(sorted(keys))])
    return a


def hostile(cx, rng, a, kind=''):
    """returns (file bytes, what was done)"""
    raw = a.bytes()
    k = rng.randrange(20)
    if kind == 'pair' and rng.random() < .5:
        # what the header describes is not all there
        cx.count('kind incomplete data')
        ps, _ = fmt.positions(a.h)
        if ps and rng.random() < .6:
            p, at = rng.choice(ps)
            cut = rng.choice([at, at + 1, at + rng.randint(0, p.stored()), max(at, at + p.size - 1)])
        else:
            cut = rng.randint(fmt.HDR, len(raw))
        if not ps or rng.random() < .7:
            return raw[:cut], 'data cut at %d' % cut
        h = a.h.__class__(a.h.pack())
        p = rng.choice(h.part_list())
        p.size += rng.choice([512, 4096, 8192, 1 << 20, 1 << 31, 1 << 40])
        p.padb = fmt.padlen(p.size)
        return h.pack() + raw[fmt.HDR:], 'size beyond the end %r' % p
    if k == 0:
        v = rng.randrange(6)
        return [b'', b'\0' * 4096, b'\xff' * 5000, rng.randbytes(4096), raw[:4095],
                raw[:rng.randint(0, 200)]][v], 'file %d' % v
    if k == 1:
        cut = rng.choice([fmt.HDR, fmt.HDR + 1, rng.randint(0, len(raw)),
                          max(0, len(raw) - 1), max(0, len(raw) - 512)])
        return raw[:cut], 'cut at %d' % cut
    if k == 2:
        return raw + rng.randbytes(rng.choice([1, 511, 512, 5000])), 'extended'
    if k == 3:
        b = bytearray(raw)
        for _ in range(rng.choice([1, 1, 2, 5, 30])):
            b[rng.randrange(4 if rng.random() < .9 else 0, fmt.HDR)] ^= 1 << rng.randrange(8)
        return bytes(b), 'header bits'
    if k == 4:
        b = bytearray(raw)
        s = rng.randrange(4, fmt.HDR)
        e = min(fmt.HDR, s + rng.choice([1, 4, 16, 32, 600]))
        b[s:e] = rng.choice([b'\xff' * (e - s), bytes(e - s), rng.randbytes(e - s)])
        return bytes(b), 'run %d-%d' % (s, e)
    if (k in (5, 6) or kind == 'keystore' and rng.random() < .25) and a.h.part_list():
        # the bytes that a wrong size asks for are there
        h = a.h.__class__(a.h.pack())
        p = rng.choice(h.part_list())
        p.size = rng.choice([4095, 4096, 4097, 8192, 65535, 65536, rng.randint(1, 70000)])
        p.padb = fmt.padlen(p.size)
        v = rng.randrange(4)
        if v == 0:
            p.size = rng.choice([(1 << 64) - p.size - p.padb, (1 << 63) - 512, p.size])
            p.padb = fmt.padlen(p.size)
        elif v < 3:
            p.flags |= 2
            p.tsize = rng.choice([0, 1, 100, 294, p.size, 512])
        cx.count('kind wrong size, bytes present')
        return h.pack() + raw[fmt.HDR:] + rng.randbytes(rng.choice([512, 9000, 70000])), \
            'wrong size %r' % p
    h = a.h.__class__(a.h.pack())
    what = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(12)
        pl = h.part_list()
        ml = [m for m in h.metas if m.id]
        if k <= 2:
            m = rng.choice(ml) if ml and rng.random() < .6 else h.metas[rng.randrange(
                min(32, len(ml) + 2))]
            if rng.random() < .6 or not m.id:
                m.id = rng.choice(WELL + [1])
            if rng.random() < .4:
                m.ref = rng.choice([0, 0] + [p.id for p in pl])
            v = rng.randrange(5)
            if v == 0:
                m.size, m.offset = rng.choice([(1921, 0), (1, 1920), (65535, 65535), (65535, 0),
                                               (0, 1921), (0, 65535), (32768, 32768), (1920, 1),
                                               (8, 1913), (1, 65535)])
                what.append('metadata outside')
                cx.count('kind metadata outside')
            elif v == 1:
                n = rng.choice([0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 33])
                m.size, m.offset = n, fmt.META_BYTES - n
                what.append('meta at the end %d' % n)
            elif v == 2:
                m.size, m.offset = fmt.META_BYTES, 0
                what.append('meta of all')
            else:
                m.size = rng.choice([0, 1, 3, 4, 7, 8, 15, 16, 31, 33, 64, 200])
                m.offset = min(m.offset, fmt.META_BYTES - m.size)
                what.append('meta size %d' % m.size)
        elif k <= 6:
            p = rng.choice(pl) if pl and rng.random() < .8 else h.parts[rng.randrange(
                min(32, len(pl) + 2))]
            if not p.id:
                p.id = rng.choice([1, 7] + [q.id for q in pl])
            v = rng.randrange(8)
            if v == 0:
                p.size = rng.choice(HUGE)
                p.padb = fmt.padlen(p.size) if rng.random() < .8 else 0
            elif v == 1:
                p.tsize = rng.choice(HUGE + [0, 1])
                p.flags |= 2
            elif v == 2:
                p.padb = rng.choice([0, 1, 511, 513, 65535, 65024, 512])
            elif v == 3:
                p.flags = rng.choice([0, 1, 2, 3, 255])
            elif v == 4:
                p.offset = rng.choice(HUGE + [0, 1])
            elif v == 5:
                p.id = rng.choice([q.id for q in pl] + [fmt.tree_id(q.id) for q in pl] + [1])
            elif v == 6:
                p.size = rng.choice([0, 1, max(0, p.size - 1), p.size + 1,
                                     p.size + 512]) & ((1 << 64) - 1)
                p.padb = fmt.padlen(p.size)
            else:
                p.id = 0
            what.append('part %r' % p)
            if (p.size + p.padb) % 512 and p.id:
                cx.count('kind alignment')
        elif k == 7:
            h.hash_kind = rng.choice([0, 1, 2, 3, 4, 255])
            what.append('hash kind %d' % h.hash_kind)
        elif k == 8:
            h.sign_kind = rng.choice([0, 1, 2, 3, 4, 5, 255])
            what.append('sign kind %d' % h.sign_kind)
        elif k == 9:
            h.signature_sz = rng.choice([0, 1, 64, 70, 72, 511, 512, 513, 600, 65535])
            if rng.random() < .5:
                h.signature = rng.randbytes(512)
            what.append('signature size %d' % h.signature_sz)
        elif k == 10:
            # fill the tables
            for m in h.metas:
                if not m.id:
                    m.id, m.ref = rng.choice(WELL), rng.choice([0] + [p.id for p in pl])
                    m.size = rng.choice([0, 4, 16, 32])
                    m.offset = rng.choice([0, 1920 - m.size, 8])
            what.append('meta table full')
        else:
            for p in h.parts:
                if not p.id:
                    p.id = rng.getrandbits(32) | 1
                    p.size = rng.choice([0, 512, 1 << 62, (1 << 63) - 512, 4096])
                    p.flags = rng.choice([0, 0, 2])
                    p.tsize = rng.choice([0, 1, 1 << 62])
            what.append('part table full')
    raw = h.pack() + b''.join(a.data)
    if rng.random() < .1:
        raw = raw[:rng.randint(fmt.HDR, len(raw))]
        what.append('cut')
    return raw, ', '.join(what)


def must_refuse(raw):
    """the header is incomplete or breaks a documented validity rule"""
    if len(raw) < fmt.HDR:
        return True
    h = fmt.Hdr(raw)
    if h.hash_kind == 0:
        return True
    h.hash_kind = 1
    return not h.valid()


def too_big(raw):
    h = fmt.Hdr(raw)
    a = b = fmt.HDR
    for p in h.part_list():
        a += p.size + p.padb
        b += p.stored()
    return max(a, b) >= 1 << 63


class Ops:
    """library operations on one file"""

    def __init__(self, cx, L, rng, d, raw, keys, tag):
        self.cx, self.L, self.rng, self.d, self.raw, self.keys = cx, L, rng, d, raw, keys
        self.tag = tag
        self.bad = must_refuse(raw)
        self.path = gen.put(d, 'h.bpak', raw)
        self.dig = hashlib.sha1(raw).digest()

    def done(self, name, rc):
        cx = self.cx
        cx.count('lib operations')
        cx.count('lib ok' if rc == 0 else 'lib refused')
        cx.eval((self.dig, name) if len(self.raw) >= fmt.HDR else None)
        if self.bad:
            cx.check_that(rc != 0, 'invalid-archive-accepted:' + name, self.tag)
            cx.count('invalid refused')

    def bounded(self, path, name):
        if os.path.exists(path):
            self.cx.check_that(os.path.getsize(path) <= len(self.raw) + (8 << 20),
                               'unbounded-output:' + name, lambda: '%s: %d bytes' % (
                                   self.tag, os.path.getsize(path)))

    def readers(self):
        L, rng, cx = self.L, self.rng, self.cx
        p = clib.Pkg(L, self.path, 'r')
        self.done('open', p.rc)
        if p.rc:
            return
        cx.count('valid header')
        L.pkg_size(p.p), L.pkg_installed_size(p.p)
        hb = p.header()
        h = fmt.Hdr(hb)
        n = C.c_size_t(rng.choice([0, 1, 31, 32, 48, 64, 100]))
        out = clib.Buf(n.value)
        self.done('hash', L.pkg_update_hash(p.p, out.p, C.byref(n)))
        key = rng.choice(sorted(self.keys))
        kb = C.c_void_p()
        if L.crypto_load_public_key(self.keys[key].pub.encode(), C.byref(kb)) == 0:
            self.done('verify', L.pkg_verify(p.p, kb))
            L.free(kb)
        for q in {x.id for x in h.part_list()} | {5}:
            o = os.path.join(self.d, 'ex')
            self.done('extract', L.pkg_extract_file(p.p, q, o.encode()))
            self.bounded(o, 'extract')
            sh = clib.Buf(rng.choice([32, 32, 31, 64]))
            L.pkg_part_sha256(p.p, sh.p, sh.n, q)
        for k in range(fmt.NMETA):
            m = L.sh_meta_at(p.hptr(), k)
            b = clib.Buf(rng.choice([0, 1, 8, 40, 128, 256]), 0x55)
            L.meta_to_string(p.hptr(), m, b.p, b.n)
        for mid in WELL:
            x = C.c_void_p()
            L.get_meta_anyref(p.hptr(), mid, C.byref(x))
        p.close()
        cx.check_that(gen.read(self.path) == self.raw, 'reader-changes-file', self.tag)
        # keystore lookups
        for kn in rng.sample(sorted(self.keys), 2):
            x = C.c_void_p()
            rc = L.keystore_load_key_from_file(self.path.encode(), 0x1234, fmt.bid(kn), None, None,
                                               C.byref(x))
            self.done('keystore', rc)
            if rc == 0:
                L.free(x)
        for q in [x.id for x in h.part_list()][:3]:
            x = C.c_void_p()
            rc = L.keystore_load_key_from_file(self.path.encode(), 0x1234, q, None, None,
                                               C.byref(x))
            self.done('keystore', rc)
            if rc == 0:
                L.free(x)

    def transports(self, other):
        L, rng = self.L, self.rng
        op = os.path.join(self.d, 'out.bpak')
        ot = gen.put(self.d, 'other.bpak', other)
        for name, inp, org in (('decode', self.path, self.path), ('decode', self.path, None),
                               ('encode', self.path, self.path), ('encode', ot, self.path),
                               ('decode', self.path, ot), ('encode', self.path, ot)):
            p = clib.Pkg(L, inp, 'r')
            g = clib.Pkg(L, org, 'r') if org else None
            o = clib.Pkg(L, op, 'w+')
            rc = p.rc or o.rc or (g.rc if g else 0)
            if rc == 0:
                f = L.pkg_transport_encode if name == 'encode' else L.pkg_transport_decode
                rc = f(p.p, o.p, g.p if g else None)
                self.cx.count('transports ok', rc == 0)
            for x in (p, g, o):
                if x:
                    x.close()
            self.done(name, rc)
            self.bounded(op, name)

    def writers(self):
        L, rng, cx = self.L, self.rng, self.cx
        w = os.path.join(self.d, 'w.bpak')
        small = gen.put(self.d, 's.bin', b'x' * 600)
        blk = gen.put(self.d, 'b.bin', b'y' * 8192)
        h = fmt.Hdr(self.raw) if len(self.raw) >= fmt.HDR else fmt.Hdr()
        ids = [x.id for x in h.part_list()] or [1]
        k = self.keys[rng.choice(sorted(self.keys))]
        sg = clib.Buf(b's' * rng.choice([80, 80, 1, 512, 513]))
        ops = {
            'add': lambda p: L.pkg_add_file(p, small.encode(), b'zz-new', 0),
            'merkle': lambda p: L.pkg_add_file_with_merkle_tree(p, blk.encode(), b'zz-fs', 0),
            'key': lambda p: L.pkg_add_key(p, k.pub.encode(), b'zz-key', 0),
            'delete': lambda p: L.pkg_delete_part(p, rng.choice(ids), rng.random() < .5),
            'delete-all': lambda p: L.pkg_delete_all_parts(p, rng.random() < .5),
            'sign': lambda p: L.pkg_sign(p, k.priv.encode()),
            'raw-signature': lambda p: L.pkg_write_raw_signature(p, sg.p, sg.n),
        }
        for name, f in ops.items():
            gen.put(self.d, 'w.bpak', self.raw)
            p = clib.Pkg(L, w, 'r+')
            rc = p.rc
            if rc == 0:
                rc = f(p.p)
            p.close()
            self.done(name, rc)
            self.bounded(w, name)
            if self.bad:
                cx.check_that(gen.read(w) == self.raw, 'invalid-archive-changed:' + name, self.tag)


def tool(cx, rng, d, raw, keys, other, tag, n):
    h = fmt.Hdr(raw) if len(raw) >= fmt.HDR else fmt.Hdr()
    ids = [x.id for x in h.part_list()] or [1]
    ms = [m for m in h.metas if m.id] or [fmt.Meta(1)]
    bad = must_refuse(raw)
    gen.put(d, 'h.bpak', raw)
    gen.put(d, 'other.bpak', other)
    gen.put(d, 's.bin', b'x' * 700)
    gen.put(d, 'b.bin', b'y' * 4096)
    key = keys[rng.choice(sorted(keys))]
    pid, m = rng.choice(ids), rng.choice(ms)
    ro = [['show', 'h.bpak'], ['show', 'h.bpak', '-v', '-v'], ['show', 'h.bpak', '-v', '-v', '-v'],
          ['show', 'h.bpak', '--hash', 'x'], ['show', 'h.bpak', '--binary-hash'],
          ['show', 'h.bpak', '--hash'],
          ['show', 'h.bpak', '--part', '0x%x' % pid],
          ['show', 'h.bpak', '--part', '0x%x' % pid, '--part-hash'],
          ['show', 'h.bpak', '--meta', '0x%x' % m.id],
          ['show', 'h.bpak', '--meta', '0x%x' % m.id, '--part', '0x%x' % m.ref],
          ['extract', 'h.bpak', '--part', '0x%x' % pid, '-o', 'o.bin'],
          ['extract', 'h.bpak', '--part', '0x%x' % pid],
          ['extract', 'h.bpak', '--meta', '0x%x' % m.id, '-o', 'o.bin'],
          ['extract', 'h.bpak', '--meta', '0x%x' % m.id, '--part-ref', '0x%x' % m.ref],
          ['compare', 'h.bpak', 'other.bpak'], ['compare', 'other.bpak', 'h.bpak'],
          ['compare', 'h.bpak', 'h.bpak'],
          ['verify', 'h.bpak', '--key', key.pub],
          ['verify', 'other.bpak', '--keystore', 'h.bpak'],
          ['verify', 'h.bpak', '--keystore', 'other.bpak'],
          ['generate', 'keystore', 'h.bpak', '--name', 'ks'],
          ['generate', 'keystore', 'h.bpak', '--name', 'ks', '--decorate'],
          ['transport', 'h.bpak', '--encode', '--origin', 'other.bpak', '--output', 'o.bin'],
          ['transport', 'other.bpak', '--encode', '--origin', 'h.bpak', '--output', 'o.bin'],
          ['transport', 'h.bpak', '--decode', '--origin', 'other.bpak', '--output', 'o.bin'],
          ['transport', 'h.bpak', '--decode', '--output', 'o.bin'],
          ['transport', 'h.bpak', '--encode', '--origin', 'h.bpak', '--output', 'o.bin']]
    rw = [['add', 'h.bpak', '--part', 'zz', '--from-file', 's.bin'],
          ['add', 'h.bpak', '--part', 'zz', '--from-file', 'b.bin', '--encoder', 'merkle'],
          ['add', 'h.bpak', '--meta', 'zz', '--from-string', 'some text'],
          ['add', 'h.bpak', '--part', 'zz', '--from-file', key.pub, '--encoder', 'key'],
          ['set', 'h.bpak', '--meta', 'bpak-version', '--from-string', 'x' * 20],
          ['set', 'h.bpak', '--meta', 'bpak-package', '--from-string', '1'],
          ['set', 'h.bpak', '--key-id', '0x10'], ['set', 'h.bpak', '--keystore-id', '0x10'],
          ['delete', 'h.bpak', '--part', '0x%x' % pid],
          ['delete', 'h.bpak', '--part', '0x%x' % pid, '--keep-meta'],
          ['delete', 'h.bpak', '--all'],
          ['sign', 'h.bpak', '--key', key.priv], ['sign', 'h.bpak', '--signature', 's.bin'],
          ['transport', 'h.bpak', '--add', '--part-ref', '0x%x' % pid, '--encoder', 'bsdiff',
           '--decoder', 'bspatch']]
    todo = rng.sample(ro, min(n, len(ro))) + rng.sample(rw, max(2, n // 2))
    for a in todo:
        gen.put(d, 'h.bpak', raw)
        if os.path.exists(os.path.join(d, 'o.bin')):
            os.unlink(os.path.join(d, 'o.bin'))
        r = cli.run(cx, a, d, fsize=LIMIT, cpu=60)
        cx.count('tool commands')
        cx.count('tool ok' if r.ok else 'tool refused')
        if bad:
            # 'other' alone may be what is read: verify with a foreign keystore still reads both
            cx.check_that(not r.ok, 'invalid-archive-accepted:tool-' + a[0], lambda: '%s\n%s' % (
                tag, r.brief()))
            cx.check_that(gen.read(os.path.join(d, 'h.bpak')) == raw,
                          'invalid-archive-changed:tool-' + a[0], lambda: '%s\n%s' % (
                              tag, r.brief()))
            cx.count('invalid refused')
        for f in ('o.bin', 'h.bpak'):
            f = os.path.join(d, f)
            if os.path.exists(f):
                cx.check_that(os.path.getsize(f) <= len(raw) + len(other) + (8 << 20),
                              'unbounded-output:tool-' + a[0], lambda: '%s\n%s' % (
                                  tag, r.brief()))
        cx.check_that(len(r.out) <= len(raw) * 8 + (1 << 20), 'unbounded-stdout:' + a[0],
                      lambda: '%s\n%s' % (tag, r.brief()))
        cx.eval((hashlib.sha1(raw).digest(), tuple(a[2:])) if len(raw) >= fmt.HDR else None)


def run_case(cx, i, rng):
    resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, resource.RLIM_INFINITY))
    L = clib.load(cx)
    keys = gen.keys(cx)
    d = cx.tmp()
    kind = ('package', 'keystore', 'pair', 'package', 'encoded', 'pair')[i % 6]
    a = base(cx, rng, keys, kind)
    other = getattr(a, 'partner', None) or base(
        cx, rng, keys, rng.choice(['package', 'encoded', 'keystore'])).bytes()
    for k in range(7):
        raw, what = hostile(cx, rng, a, kind)
        tag = '%s: %s' % (kind, what)
        o = Ops(cx, L, rng, d, raw, keys, tag)
        if len(raw) >= fmt.HDR:
            hb = clib.Buf(raw[:fmt.HDR])
            ok = L.valid_header(hb.p) == 0
            if o.bad:
                cx.check_that(not ok, 'valid-header-accepts', tag)
            elif not too_big(raw) and fmt.Hdr(raw).hash_kind in (1, 2, 3):
                cx.check_that(ok, 'valid-header-refuses', tag)
        o.readers()
        o.transports(other)
        o.writers()
        if k < 2:
            tool(cx, rng, d, raw, keys, other, tag, 6)
    cx.sample(tag)
    cx.drop(d)
