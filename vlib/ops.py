"""Self-contained library operations: each starts from files written by
World.reset(), runs one operation through the given library handle and returns
(rc, value).  Used with fault injection, allocation ledgers and repeated runs."""
import ctypes as C
import os
import struct

from . import clib, fmt, gen, pk
from checks import c02


class World:
    """scratch directory with a set of archives"""

    def __init__(self, cx, rng, d, big=9000):
        self.cx, self.rng, self.d = cx, rng, d
        self.keys = gen.keys(cx)
        self.inputs = {}
        s = gen.spec(rng, maxparts=3, big=big, minparts=1, empty=True)
        s.metas = [m for m in s.metas if m[0] not in ('bpak-package',)]
        a = gen.model(s, rng=rng)
        self.spec = s
        self.arc = a
        self.key = self.keys[rng.choice(sorted(self.keys))]
        self.key2 = self.keys[rng.choice([k for k in sorted(self.keys) if k != self.key.name])]
        self.inputs['a.bpak'] = a.bytes()
        b = gen.model(s, rng=rng)
        c02.sign(b, self.key)
        self.inputs['s.bpak'] = b.bytes()
        self.signed = b
        self.inputs['f.bin'] = rng.randbytes(rng.choice([0, 1, 511, 512, 5000]))
        self.inputs['m.bin'] = gen.content(rng, 4096 * rng.choice([1, 2, 3, 129]))
        self.inputs['sig.bin'] = rng.randbytes(rng.choice([70, 512]))
        self.ksid = rng.getrandbits(32)
        k = fmt.Archive()
        k.meta(fmt.PKG_ID, bytes(16))
        k.meta(fmt.KSP_ID, struct.pack('<I', self.ksid))
        k.add('k1', self.key2.der)
        k.add('k2', self.key.der)
        self.inputs['ks.bpak'] = k.finish().bytes()
        shapes = ['near', 'random']
        from checks import c04
        shapes = [x for x in c04.SHAPES if x not in ('big',)]
        self.org, self.new, self.plan = gen.pair(rng, maxparts=3, big=big, shapes=shapes)
        c02.sign(self.new, self.key)
        self.inputs['o.bpak'] = self.org.bytes()
        self.inputs['n.bpak'] = self.new.bytes()
        self.reset()

    def path(self, n):
        return os.path.join(self.d, n)

    def reset(self):
        for n in os.listdir(self.d):
            if n not in self.inputs:
                p = self.path(n)
                if os.path.isfile(p):
                    os.unlink(p)
        for n, v in self.inputs.items():
            gen.put(self.d, n, v)

    def state(self):
        return {n: gen.read(self.path(n)) for n in sorted(os.listdir(self.d))
                if os.path.isfile(self.path(n))}

    def add_input(self, n, v):
        self.inputs[n] = v
        gen.put(self.d, n, v)


def with_pkg(T, path, mode, f):
    p = clib.Pkg(T, path, mode)
    if p.rc:
        return p.rc, None
    try:
        r = f(p)
    finally:
        rc = p.close()
    if isinstance(r, tuple):
        return (r[0] or rc), r[1]
    return (r or rc), None


def handed(T, rc, out):
    """contents of a key handed out, given back to the library"""
    if rc:
        return rc, None
    k = out.value
    v = (T.sh_key_kind(k), T.sh_key_id(k), C.string_at(T.sh_key_data(k), T.sh_key_size(k)))
    T.free(k)
    return 0, v


def io_addr(T, name):
    return C.cast(getattr(T._L.dll if hasattr(T, '_L') else T.dll, name), clib.IO)


def catalogue(w, L, include_random=True):
    """list of (name, fn(T) -> (rc, value), mutates, sig)"""
    rng = w.rng
    P = w.path
    e = lambda n: P(n).encode()
    parts = w.arc.h.part_list()
    pid = rng.choice(parts).id
    pname = [p.name for p in w.spec.parts]
    fl = rng.choice([0, 0, 1])
    key, key2 = w.key, w.key2
    pub = rng.choice(key.pubs).encode()
    pub2 = rng.choice(key2.pubs).encode()
    priv = rng.choice(key.privs).encode()
    ops = []

    def op(name, fn, sig=False):
        ops.append((name, fn, sig))

    op('open', lambda T: with_pkg(T, P('a.bpak'), 'r', lambda p: (0, p.header())))
    op('open-missing', lambda T: with_pkg(T, P('nope'), 'r', lambda p: 0))
    op('open-short', lambda T: with_pkg(T, P('sig.bin'), 'r', lambda p: 0))
    op('add-file', lambda T: with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_add_file(
        p.p, e('f.bin'), b'zz', fl)))
    op('add-key', lambda T: with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_add_key(
        p.p, pub, b'zz', fl)))
    op('add-merkle', lambda T: with_pkg(T, P('a.bpak'), 'r+',
                                        lambda p: T.pkg_add_file_with_merkle_tree(
        p.p, e('m.bin'), b'zz', fl)))
    rng_flag = rng.random() < .5
    op('delete', lambda T: with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_delete_part(
        p.p, pid, rng_flag)))
    op('delete-all', lambda T: with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_delete_all_parts(
        p.p, rng_flag)))
    op('sign', lambda T: with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_sign(p.p, priv)), True)

    def raw(T):
        b = clib.Buf(w.inputs['sig.bin'])
        return with_pkg(T, P('a.bpak'), 'r+', lambda p: T.pkg_write_raw_signature(p.p, b.p, b.n))
    op('raw-signature', raw)

    def meta(T):
        def f(p):
            out = C.c_void_p()
            rc = T.add_meta(p.hptr(), 0x1234567, 0, 8, C.byref(out))
            return rc or T.pkg_write_header(p.p)
        return with_pkg(T, P('a.bpak'), 'r+', f)
    op('add-meta', meta)

    def verify(pubf, arc):
        def f(T):
            out = C.c_void_p()
            rc = T.crypto_load_public_key(pubf, C.byref(out))
            if rc:
                return rc, None
            k = out.value
            r = with_pkg(T, P(arc), 'r', lambda p: T.pkg_verify(p.p, k))
            T.free(k)
            return r
        return f
    op('verify', verify(pub, 's.bpak'))
    op('verify-wrong-key', verify(pub2, 's.bpak'))
    op('verify-unsigned', verify(pub, 'a.bpak'))
    if 'bad.bpak' in w.inputs:
        op('verify-tampered', verify(pub, 'bad.bpak'))

    def hashes(T):
        def f(p):
            b = clib.Buf(64, 0)
            n = C.c_size_t(64)
            rc = T.pkg_update_hash(p.p, b.p, C.byref(n))
            return rc, (b.get(n.value) if not rc else None)
        return with_pkg(T, P('a.bpak'), 'r', f)
    op('update-hash', hashes)

    def part_hash(T):
        def f(p):
            b = clib.Buf(32, 0)
            rc = T.pkg_part_sha256(p.p, b.p, 32, pid)
            return rc, (b.get() if not rc else None)
        return with_pkg(T, P('a.bpak'), 'r', f)
    op('part-hash', part_hash)
    op('extract', lambda T: with_pkg(T, P('a.bpak'), 'r', lambda p: T.pkg_extract_file(
        p.p, pid, e('x.out'))))
    op('extract-missing', lambda T: with_pkg(T, P('a.bpak'), 'r', lambda p: T.pkg_extract_file(
        p.p, 0xfffffffe, e('x.out'))))

    def load(fn, f):
        def g(T):
            out = C.c_void_p()
            rc = getattr(T, fn)(f, C.byref(out))
            return handed(T, rc, out)
        return g
    op('load-public', load('crypto_load_public_key', pub))
    op('load-private', load('crypto_load_private_key', priv))
    op('load-garbage', load('crypto_load_public_key', e('m.bin')))

    def parse(T):
        b = clib.Buf(key.der)
        out = C.c_void_p()
        rc = T.crypto_parse_public_key(b.p, b.n, C.byref(out))
        return handed(T, rc, out)
    op('parse-public', parse)

    def kstore(ksid, kid):
        def g(T):
            out = C.c_void_p()
            rc = T.keystore_load_key_from_file(e('ks.bpak'), ksid, kid, None, None, C.byref(out))
            return handed(T, rc, out)
        return g
    op('keystore', kstore(w.ksid, fmt.bid('k2')))
    op('keystore-mismatch', kstore(w.ksid ^ 1, fmt.bid('k2')))
    op('keystore-no-key', kstore(w.ksid, 17))

    def xport(what, inp, org):
        def g(T):
            p = clib.Pkg(T, P(inp), 'r')
            o = clib.Pkg(T, P('t.out'), 'w+')
            q = clib.Pkg(T, P(org), 'r') if org else None
            rc = p.rc or o.rc or (q.rc if q else 0)
            if not rc:
                f = T.pkg_transport_encode if what == 'e' else T.pkg_transport_decode
                rc = f(p.p, o.p, q.p if q else None)
            p.close()
            if q:
                q.close()
            c = o.close()
            return (rc or c), None
        return g
    op('encode', xport('e', 'n.bpak', 'o.bpak'))
    op('encode-no-origin', xport('e', 'n.bpak', None))
    op('encode-wrong-origin', xport('e', 'n.bpak', 's.bpak'))
    if 'e.bpak' in w.inputs:
        op('decode', xport('d', 'e.bpak', 'o.bpak'))
        op('decode-no-origin', xport('d', 'e.bpak', None))
        op('decode-broken', xport('d', 'eb.bpak', 'o.bpak'))
    if 'e.bpak' in w.inputs:
        enc, eb, oraw = w.inputs['e.bpak'], w.inputs['eb.bpak'], w.inputs['o.bpak']
        chunk = rng.choice([300, 4096, 100000])
        stop = rng.randint(1, 6)
        op('stream-decode', lambda T: tdecode(T, enc, oraw, chunk))
        op('stream-decode-broken', lambda T: tdecode(T, eb, oraw, chunk))
        op('stream-decode-abandoned', lambda T: tdecode(T, enc, oraw, chunk, stop))
        op('stream-decode-no-origin', lambda T: tdecode(T, enc, None, chunk))
    rng_hash = rng.randbytes(32)
    op('crypto-verify-sign', lambda T: crypto(T, priv, pub, rng_hash), True)
    from checks import c04
    shape = rng.choice([s for s in c04.SHAPES if s not in ('big',)])
    o, t = c04.gen(rng, shape, 'quick')
    o, t = o[:6000], t[:6000]
    for comp in ('none', 'hs', 'lzma'):
        op('bsdiff-' + comp, (lambda comp: lambda T: bsdiff(T, o, t, comp))(comp))
        op('bsdiff-full-' + comp, (lambda comp: lambda T: bsdiff(T, o, t, comp, cap=20))(comp))
        op('bsdiff-abandoned-' + comp, (lambda comp: lambda T: bsdiff(T, o, t, comp, run=False))(
            comp))
        pd = fmt.compress(simple_patch(o, t), comp)
        op('bspatch-' + comp, (lambda comp, pd: lambda T: bspatch(T, o, pd, comp, len(t), 777))(
            comp, pd))
        op('bspatch-cut-' + comp, (lambda comp, pd: lambda T: bspatch(
            T, o, pd[:len(pd) * 2 // 3], comp, len(t), 333))(comp, pd))
        bad = bytearray(pd)
        for _ in range(6):
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
        op('bspatch-bad-' + comp, (lambda comp, pd: lambda T: bspatch(
            T, o, pd, comp, len(t), 100))(comp, bytes(bad)))
        op('bspatch-abort-' + comp, (lambda comp, pd: lambda T: bspatch(
            T, o, pd[:len(pd) // 2], comp, len(t), 100, abort=True))(comp, pd))
    data = w.inputs['m.bin']
    salt = bytes(range(32))
    op('merkle', lambda T: merkle(T, data, salt))
    vr = fmt.Archive(rng.choice([1, 2, 3]))
    vr.add('first', rng.randbytes(rng.randint(1, 5000)))
    vr.add_merkle('second', data, salt, rng.choice([0, 1]))
    vraw = vr.finish().bytes()
    pos = {p.id: o for p, o, n in part_ranges(vr.h)}
    sec = fmt.bid('second')
    root = bytes(vr.h.get(fmt.ROOT_ID, sec))
    margs = (pos[sec], len(data), pos[fmt.tree_id(sec)], root, salt)
    flip = bytearray(vraw)
    flip[fmt.HDR + pos[sec] + rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    flip2 = bytearray(vraw)
    flip2[fmt.HDR] ^= 1
    op('stream-hash', lambda T: stream_verify(T, 'hash', vraw))
    op('stream-payload', lambda T: stream_verify(T, 'payload', vraw))
    op('stream-payload-bad', lambda T: stream_verify(T, 'payload', bytes(flip)))
    op('stream-payload-bad2', lambda T: stream_verify(T, 'payload', bytes(flip2)))
    op('stream-tree', lambda T: stream_verify(T, 'tree', vraw, margs))
    op('stream-tree-bad', lambda T: stream_verify(T, 'tree', bytes(flip), margs))
    op('hash', lambda T: hashing(T, data))
    return ops


def simple_patch(o, t):
    n = min(len(o), len(t)) // 2
    d = bytes((a - b) & 255 for a, b in zip(t[:n], o[:n]))
    out = fmt.pack_sm64(n) + fmt.pack_sm64(len(t) - n) + fmt.pack_sm64(0)
    return out + d + t[n:]


def cfun(T, name):
    dll = T._L.dll if hasattr(T, '_L') else T.dll
    return C.cast(getattr(dll, name), clib.IO)


class Io:
    """fault to arm on every stream object made, and what happened"""
    fault = (0, 0)
    calls = 0
    bad = 0


def new_io(T, data, n, cap):
    io = T.sh_io_new(data, n, cap)
    T.sh_io_fault(io, *Io.fault)
    return io


def free_io(T, io):
    Io.calls = T.sh_io_stat(io, 0)
    Io.bad += T.sh_io_stat(io, 3)
    T.sh_io_free(io)


def stream_verify(T, what, raw, args=None):
    hb = clib.Buf(raw[:fmt.HDR])
    ob = clib.Buf(raw[fmt.HDR:])
    io = new_io(T, ob.p, ob.n, 0)
    rd = cfun(T, 'sh_io_read_origin')
    v = None
    if what == 'hash':
        b = clib.Buf(64, 0)
        n = C.c_size_t(64)
        rc = T.verify_compute_payload_hash(hb.p, rd, 0, io, b.p, C.byref(n))
        v = b.get(n.value) if not rc else None
    elif what == 'payload':
        rc = T.verify_payload(hb.p, rd, 0, io)
    else:
        data_off, size, tree_off, root, salt = args
        rb, sb = clib.Buf(root), clib.Buf(salt)
        rc = T.verify_merkle_tree(rd, data_off, size, tree_off, rb.p, sb.p, io)
    free_io(T, io)
    return rc, v


def crypto(T, priv, pub, h):
    out = C.c_void_p()
    rc = T.crypto_load_private_key(priv, C.byref(out))
    if rc:
        return rc, None
    k = out.value
    hb, sb = clib.Buf(h), clib.Buf(512, 0)
    n = C.c_size_t(512)
    rc = T.crypto_sign(hb.p, 32, 1, k, sb.p, C.byref(n))
    T.free(k)
    if rc:
        return rc, None
    out = C.c_void_p()
    rc = T.crypto_load_public_key(pub, C.byref(out))
    if rc:
        return rc, None
    v = C.c_bool(False)
    rc = T.crypto_verify(sb.p, n.value, hb.p, 32, 1, out.value, C.byref(v))
    T.free(out.value)
    return rc, v.value


def tdecode(T, enc, oraw, chunk, stop=None):
    """decode through streams; with stop the user gives up after that many calls"""
    h = fmt.Hdr(enc)
    hb = clib.Buf(enc[:fmt.HDR])
    gh = clib.Buf(oraw[:fmt.HDR] if oraw else bytes(fmt.HDR))
    size = T._L.size if hasattr(T, '_L') else T.size
    rc = T.valid_header(hb.p)
    if rc:
        return rc, None
    ob = clib.Buf(oraw[fmt.HDR:] if oraw else b'')
    io = new_io(T, ob.p, ob.n, 1 << 20)
    work = clib.Buf(512, 0x31)
    ctx = clib.Buf(size(clib.TDECODE), 0xc7)
    rc = T.transport_decode_init(ctx.p, work.p, work.n, hb.p, cfun(T, 'sh_io_write_output'),
                                 cfun(T, 'sh_io_read_output'), 0,
                                 cfun(T, 'sh_io_write_header'), io)
    if rc:
        free_io(T, io)
        return rc, None
    if oraw:
        rc = T.transport_decode_set_origin(ctx.p, gh.p, cfun(T, 'sh_io_read_origin'), 0)
    pos = fmt.HDR
    left = stop or 1 << 30
    for k in range(fmt.NPART):
        p = h.parts[k]
        if rc or not p.id or left <= 0:
            break
        rc = T.transport_decode_start(ctx.p, T.sh_part_at(hb.p, k))
        left -= 1
        body = enc[pos:pos + p.stored()]
        pos += len(body)
        i = 0
        while i < len(body) and not rc and left > 0:
            b = clib.Buf(body[i:i + chunk])
            rc = T.transport_decode_write_chunk(ctx.p, b.p, b.n)
            i += chunk
            left -= 1
        if not rc and left > 0:
            rc = T.transport_decode_finish(ctx.p)
            left -= 1
    T.transport_decode_free(ctx.p)
    v = None
    if not rc:
        v = (C.string_at(T.sh_io_data(io, 1), T.sh_io_stat(io, 2)),
             C.string_at(T.sh_io_data(io, 0), T.sh_io_stat(io, 1)))
    free_io(T, io)
    return rc, v


def bsdiff(T, o, t, comp, cap=1 << 17, run=True):
    ob, tb = clib.Buf(o), clib.Buf(t)
    io = new_io(T, ob.p, 0, cap)
    ctx = clib.Buf(T.size(clib.BSDIFF) if not hasattr(T, '_L') else T._L.size(clib.BSDIFF), 0xc7)
    rc = T.bsdiff_init(ctx.p, ob.p, ob.n, tb.p, tb.n, cfun(T, 'sh_io_write_output'), 0,
                       fmt.COMP[comp], io)
    v = None
    if rc == 0:
        n = T.bsdiff(ctx.p) if run else 0
        rc = n if n < 0 else 0
        T.bsdiff_free(ctx.p)
        if not rc:
            v = C.string_at(T.sh_io_data(io, 0), T.sh_io_stat(io, 1))
    free_io(T, io)
    return rc, v


def bspatch(T, o, pd, comp, outlen, chunk, abort=False):
    ob = clib.Buf(o)
    io = new_io(T, ob.p, ob.n, outlen + 4096)
    work = clib.Buf(512, 0x33)
    size = T._L.size if hasattr(T, '_L') else T.size
    ctx = clib.Buf(size(clib.BSPATCH), 0xc7)
    rc = T.bspatch_init(ctx.p, work.p, work.n, len(pd), cfun(T, 'sh_io_read_origin'), 0,
                        cfun(T, 'sh_io_write_output'), 0, fmt.COMP[comp], io)
    v = None
    if rc == 0:
        i = 0
        while i < len(pd) and rc == 0:
            ch = clib.Buf(pd[i:i + chunk])
            rc = T.bspatch_write(ctx.p, ch.p, ch.n)
            i += chunk
        if rc == 0 and not abort:
            n = T.bspatch_final(ctx.p)
            rc = n if n < 0 else 0
            if not rc:
                v = (n, C.string_at(T.sh_io_data(io, 0), T.sh_io_stat(io, 1)))
        T.bspatch_free(ctx.p)
    free_io(T, io)
    return rc, v


def merkle(T, data, salt):
    sb = clib.Buf(salt)
    ob = clib.Buf(b'')
    size = T._L.size if hasattr(T, '_L') else T.size
    n = T.merkle_compute_size(len(data))
    io = new_io(T, ob.p, 0, n)
    ctx = clib.Buf(size(clib.MERKLE), 0xc7)
    rc = T.merkle_init(ctx.p, len(data), sb.p, 32, cfun(T, 'sh_io_write_output'),
                       cfun(T, 'sh_io_read_output'), 0, True, io)
    root = clib.Buf(32, 0)
    i = 0
    while rc == 0 and i < len(data):
        c = clib.Buf(data[i:i + 5000])
        rc = T.merkle_write_chunk(ctx.p, c.p, c.n)
        i += 5000
    v = None
    if rc == 0:
        rc = T.merkle_finish(ctx.p, root.p)
        v = (root.get(), C.string_at(T.sh_io_data(io, 0), T.sh_io_stat(io, 1)))
    free_io(T, io)
    return rc, v


def hashing(T, data):
    out = []
    size = T._L.size if hasattr(T, '_L') else T.size
    for kind in (1, 2, 3):
        ctx = clib.Buf(size(clib.HASHCTX), 0xc7)
        rc = T.hash_init(ctx.p, kind)
        if rc:
            return rc, None
        b = clib.Buf(data)
        rc = T.hash_update(ctx.p, b.p, b.n)
        h = clib.Buf(64, 0)
        n = C.c_size_t(0)
        rc = rc or T.hash_final(ctx.p, h.p, 64, C.byref(n))
        T.hash_free(ctx.p)
        if rc:
            return rc, None
        out.append(h.get(n.value))
    return 0, out


def add_encoded(cx, L, w):
    """inputs made by the model's encoder and a tampered signed archive"""
    from checks import c05
    rng = w.rng
    h, body = c05.encode(cx, L, rng, w.org, w.new, w.plan)
    w.add_input('e.bpak', h.pack() + b''.join(body))
    w.enc = w.inputs['e.bpak']
    for _ in range(20):
        r = c05.break_archive(cx, rng, h, body, w.org, w.plan)
        if r and r[2] and sum(p.size for p in fmt.Hdr(r[0]).part_list()) < 1 << 20:
            break
    else:
        r = (w.enc[:-1], None, None)
    w.add_input('eb.bpak', r[0])
    w.add_input('bad.bpak', tamper(rng, w.inputs["s.bpak"]))


def tamper(rng, raw):
    """a signed archive with one covered header byte changed"""
    b = bytearray(raw)
    b[fmt.META_OFF + rng.randrange(16)] ^= 1 << rng.randrange(8)
    return bytes(b)


_seen = {}


def checked(key, digest, kind, sig):
    k = (id(key), digest, kind, sig)
    if k not in _seen:
        if len(_seen) > 5000:
            _seen.clear()
        _seen[k] = (pk.verify(key, digest, kind, sig), key)
    return _seen[k][0]


def norm(w, raw):
    """bytes with valid random values (signature, salt of a part added here)
    replaced, so that two runs can be compared"""
    if raw is None or len(raw) < fmt.HDR or raw[:4] != w.inputs['a.bpak'][:4]:
        return raw
    h = fmt.Hdr(raw)
    if not h.valid():
        return raw
    sig = bytes(h.signature[:h.signature_sz])
    marks = b''
    body = raw[fmt.HDR:]
    zz = fmt.bid('zz')
    if sig and any(h.hash_kind == k for k in (1, 2, 3)) and any(
            checked(k.key, fmt.package_hash(h), h.hash_kind, sig) for k in (w.key,)):
        if bytes(h.signature[h.signature_sz:]).strip(b'\0') == b'':
            marks += b'signed'
            h.signature = bytes(512)
            h.signature_sz = 0
    salt, root = h.get(fmt.SALT_ID, zz), h.get(fmt.ROOT_ID, zz)
    part, tree = h.part(zz), h.part(fmt.tree_id(zz))
    if salt is not None and len(salt) == 32 and root and part and tree:
        try:
            pos = {p.id: (o, n) for p, o, n in part_ranges(h)}
            o, n = pos[zz]
            t, r = fmt.merkle_tree(body[o:o + part.size], salt)
            to, tn = pos[tree.id]
            if r == bytes(root) and body[to:to + len(t)] == t and tree.size == len(t):
                if bytes(h.payload_hash) == fmt.payload_hash(h, raw).ljust(64, b'\0'):
                    h.payload_hash = bytes(64)
                    marks += b'payload'
                body = body[:to] + bytes(len(t)) + body[to + len(t):]
                md = bytearray(h.metadata)
                for m in h.metas:
                    if m.ref == zz and m.id in (fmt.SALT_ID, fmt.ROOT_ID):
                        md[m.offset:m.offset + 32] = bytes(32)
                h.metadata = md
                marks += b'tree'
        except Exception:
            if os.environ.get('BPAK_DEBUG'):
                raise
            return raw
    return marks + h.pack() + body


def part_ranges(h):
    o = 0
    for p in h.part_list():
        n = p.stored()
        yield p, o, n
        o += n


class ToolOp:
    """one command; reads: files it only reads, output: file it creates,
    mod: archive it changes, text: what it prints is its result"""

    def __init__(self, name, args, reads=(), output=None, mod=None, text=False):
        self.name, self.args, self.reads = name, args, list(reads)
        self.output, self.mod, self.text = output, mod, text

    def files(self):
        return self.reads + [x for x in (self.output, self.mod) if x]


def tool_catalogue(w):
    """commands on the files of World (run in w.d); the caller resets the world"""
    rng = w.rng
    names = [p.name for p in w.spec.parts]
    pn = rng.choice(names)
    key, key2 = w.key, w.key2
    pub, priv, pub2 = rng.choice(key.pubs), rng.choice(key.privs), rng.choice(key2.pubs)
    import shutil
    for n, src in (('pub.key', pub), ('priv.key', priv), ('pub2.key', pub2)):
        w.add_input(n, gen.read(src))
    w.add_input('m.txt', rng.randbytes(rng.randint(1, 60)))
    A = 'a.bpak'
    fl = rng.choice([[], ['--set-flag', 'dont-hash']])
    r = []

    def op(*a, **k):
        r.append(ToolOp(*a, **k))
    op('create', ['create', 'c.bpak', '-H', rng.choice(['sha256', 'sha384', 'sha512'])],
       output='c.bpak')
    op('create-over', ['create', '-Y', A], mod=A)
    op('add', ['add', A, '--part', 'zz', '--from-file', 'f.bin'] + fl, reads=['f.bin'], mod=A)
    op('add-merkle', ['add', A, '--part', 'zz', '--from-file', 'm.bin', '--encoder', 'merkle'] + fl,
       reads=['m.bin'], mod=A)
    op('add-key', ['add', A, '--part', 'zz', '--from-file', 'pub.key', '--encoder', 'key'] + fl,
       reads=['pub.key'], mod=A)
    op('add-meta', ['add', A, '--meta', 'mm', '--from-string', 'some value'], mod=A)
    op('add-meta-int', ['add', A, '--meta', 'mm', '--from-string', '0x1234', '--encoder',
                        'integer'], mod=A)
    op('add-meta-uuid', ['add', A, '--meta', 'bpak-package2', '--from-string',
                         '12345678-9abc-def0-1122-334455667788', '--encoder', 'uuid'], mod=A)
    op('add-meta-file', ['add', A, '--meta', 'mm', '--from-file', 'm.txt', '--part-ref', pn],
       reads=['m.txt'], mod=A)
    op('set', ['set', 's2.bpak', '--meta', 'note', '--from-string', 'new'], mod='s2.bpak')
    op('set-grow', ['set', 's2.bpak', '--meta', 'note', '--from-string', 'n' * 300], mod='s2.bpak')
    op('set-integer', ['set', 's2.bpak', '--meta', 'num', '--from-string', '77', '--encoder',
                       'integer'], mod='s2.bpak')
    op('set-key-id', ['set', A, '--key-id', '0x11223344', '--keystore-id', 'some-name'], mod=A)
    a2 = gen.fmt.Archive()
    a2.meta(fmt.bid('note'), b'old value\0')
    a2.meta(fmt.bid('num'), bytes(8))
    a2.meta(fmt.bid('other'), b'kept')
    a2.add('one', rng.randbytes(700))
    w.add_input('s2.bpak', a2.finish().bytes())
    op('delete', ['delete', A, '--part', pn], mod=A)
    op('delete-keep', ['delete', A, '--part', pn, '--keep-meta'], mod=A)
    op('delete-all', ['delete', A, '--all'], mod=A)
    op('sign', ['sign', A, '--key', 'priv.key'], reads=['priv.key'], mod=A)
    op('sign-raw', ['sign', A, '--signature', 'sig.bin'], reads=['sig.bin'], mod=A)
    op('verify', ['verify', 's.bpak', '--key', 'pub.key'], reads=['s.bpak', 'pub.key'])
    op('verify-tampered', ['verify', 'bad.bpak', '--key', 'pub.key'], reads=['bad.bpak', 'pub.key'])
    op('verify-wrong-key', ['verify', 's.bpak', '--key', 'pub2.key'], reads=['s.bpak', 'pub2.key'])
    op('verify-unsigned', ['verify', A, '--key', 'pub.key'], reads=[A, 'pub.key'])
    kv = fmt.Archive()
    kv.h.key_id, kv.h.keystore_id = fmt.bid('k2'), w.ksid
    kv.meta(fmt.PKG_ID, b'v' * 16)
    kv.add('data', rng.randbytes(900))
    kv.finish()
    c02.sign(kv, key)
    w.add_input('kv.bpak', kv.bytes())
    op('verify-keystore', ['verify', 'kv.bpak', '--keystore', 'ks.bpak'],
       reads=['kv.bpak', 'ks.bpak'])
    kv.h.key_id = fmt.bid('k1')
    c02.sign(kv, key)
    w.add_input('kw.bpak', kv.bytes())
    op('verify-keystore-wrong', ['verify', 'kw.bpak', '--keystore', 'ks.bpak'],
       reads=['kw.bpak', 'ks.bpak'])
    for n, x in (('show', []), ('show-v', ['-v']), ('show-hash', ['--hash']),
                 ('show-binary', ['--binary-hash']), ('show-part', ['-p', pn]), ('show-part-hash', ['--part-hash', pn])):
        op(n, ['show', A] + x, reads=[A], text=True)
    op('extract-part', ['extract', A, '--part', pn, '-o', 'x.out'], reads=[A], output='x.out')
    op('extract-part-stdout', ['extract', A, '--part', pn], reads=[A], text=True)
    op('show-meta', ['show', 's2.bpak', '-m', 'note'], reads=['s2.bpak'], text=True)
    op('extract-meta', ['extract', 's2.bpak', '--meta', 'note', '-o', 'x.out'],
       reads=['s2.bpak'], output='x.out')
    op('extract-meta-stdout', ['extract', 's2.bpak', '--meta', 'note'], reads=['s2.bpak'],
       text=True)
    op('extract-missing', ['extract', A, '--part', 'not-there', '-o', 'x.out'], reads=[A],
       output='x.out')
    op('compare', ['compare', A, 's2.bpak'], reads=[A, 's2.bpak'], text=True)
    op('compare-same', ['compare', A, A], reads=[A], text=True)
    op('generate-id', ['generate', 'id', 'some-name'], text=True)
    op('generate-keystore', ['generate', 'keystore', 'ks.bpak', '--name', 'ks'], reads=['ks.bpak'],
       text=True)
    op('transport-add', ['transport', A, '--add', '--part-ref', pn, '--encoder', 'bsdiff',
                         '--decoder', 'bspatch'], mod=A)
    op('encode', ['transport', 'n.bpak', '--encode', '--origin', 'o.bpak', '--output', 't.out'],
       reads=['n.bpak', 'o.bpak'], output='t.out')
    op('encode-wrong', ['transport', 'n.bpak', '--encode', '--origin', 's.bpak', '--output',
                        't.out'], reads=['n.bpak', 's.bpak'], output='t.out')
    op('decode', ['transport', 'e.bpak', '--decode', '--origin', 'o.bpak', '--output', 't.out'],
       reads=['e.bpak', 'o.bpak'], output='t.out')
    op('decode-broken', ['transport', 'eb.bpak', '--decode', '--origin', 'o.bpak', '--output',
                         't.out'], reads=['eb.bpak', 'o.bpak'], output='t.out')
    w.reset()
    return r
