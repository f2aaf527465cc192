"""Generators shared by the checks: archive contents, keys, builders that use
the tool, the library or the format model."""
import hashlib
import os
import struct

from . import cli, clib, fmt, pk

KEYDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'keys')
CURVE = {'p256': 'prime256v1', 'p384': 'secp384r1', 'p521': 'secp521r1'}
_KIND = {}


class SignKey:
    """a signing key with files in a scratch directory"""

    def __init__(self, name, key, priv_path, pub_path, pub_der, variants):
        self.name, self.key = name, key
        self.priv, self.pub, self.der = priv_path, pub_path, pub_der
        self.privs, self.pubs = variants

    def __repr__(self):
        return 'SignKey(%s)' % self.name


def curve_names():
    return sorted(pk.CURVES)


_cache = {}


def pem_of(label, der):
    import base64
    b = base64.b64encode(der)
    return (('-----BEGIN %s-----\n' % label).encode() +
            b'\n'.join(b[i:i + 64] for i in range(0, len(b), 64)) +
            ('\n-----END %s-----\n' % label).encode())


def pkcs8(alg, inner):
    return pk.enc(0x30, pk.enc_int(0) + pk.enc(0x30, alg) + pk.enc(4, inner))


def keys(cx):
    """name -> SignKey: two keys of every supported type"""
    base = os.path.join(cx.scratch, 'keep-keys')
    if base in _cache:
        return _cache[base]
    os.makedirs(base, exist_ok=True)
    out = {}

    def put(fn, data):
        p = os.path.join(base, fn)
        open(p, 'wb').write(data)
        return p

    import base64
    for curve in ('p256', 'p384', 'p521'):
        for n in (0, 1):
            cname = [c for c in pk.CURVES if c in (curve, CURVE[curve], 'secp256r1')
                     or pk.CURVES[c].bits == int(curve[1:])][0]
            k = pk.ec_key(cname, (curve, n))
            nm = '%s-%d' % (curve, n)
            spem = pk.priv_pem(k)
            sder = base64.b64decode(b''.join(spem.split(b'\n')[1:-2]))
            p8 = pkcs8(pk.enc(6, bytes.fromhex(pk.OID_EC)) +
                       pk.enc(6, bytes.fromhex(pk.CURVES[cname].oid)), sder)
            pv = [put(nm + '.pem', spem), put(nm + '.priv.der', sder),
                  put(nm + '.p8.der', p8), put(nm + '.p8.pem', pem_of('PRIVATE KEY', p8))]
            pu = [put(nm + '.pub.der', k.spki()), put(nm + '.pub.pem', k.pem())]
            out[nm] = SignKey(nm, k, pv[0], pu[0], k.spki(), (pv, pu))
    for n in (1, 2):
        nm = 'rsa-%d' % (n - 1)
        pem = open(os.path.join(KEYDIR, 'rsa%d.pem' % n), 'rb').read()
        k = pk.parse_any(pem)
        der = base64.b64decode(b''.join(x for x in pem.split(b'\n') if not x.startswith(b'---')))
        p1 = pk.seq(pk.tlv(der)[1])[2][1]       # the file is PKCS#8
        pv = [put(nm + '.pem', pem), put(nm + '.p8.der', der), put(nm + '.p1.der', p1),
              put(nm + '.p1.pem', pem_of('RSA PRIVATE KEY', p1))]
        pu = [put(nm + '.pub.der', k.spki()), put(nm + '.pub.pem', k.pem())]
        out[nm] = SignKey(nm, k, pv[0], pu[0], k.spki(), (pv, pu))
    _cache[base] = out
    return out


SIGNOPT = {'p256': 'prime256v1', 'p384': 'secp384r1', 'p521': 'secp521r1', 'rsa': 'rsa4096'}
SIGNNUM = {'rsa': 1, 'p256': 2, 'p384': 3, 'p521': 4}


class PartSpec:
    __slots__ = ('name', 'data', 'kind', 'exclude')

    def __init__(self, name, data, kind='plain', exclude=False):
        self.name, self.data, self.kind, self.exclude = name, data, kind, exclude

    def __repr__(self):
        return '%s:%s:%d%s' % (self.name, self.kind, len(self.data), 'x' if self.exclude else '')


class Spec:
    """what an archive should contain"""

    def __init__(self):
        self.hash_kind, self.sign_kind = 1, 2
        self.parts = []
        self.metas = []     # (name, ref name or None, bytes)
        self.key_id = self.keystore_id = 0

    def digest(self):
        h = hashlib.sha1(repr((self.hash_kind, self.sign_kind, self.key_id,
                               self.keystore_id)).encode())
        for p in self.parts:
            h.update(repr((p.name, p.kind, p.exclude)).encode() + p.data + b'|')
        for m in self.metas:
            h.update(repr(m).encode())
        return h.hexdigest()

    def __repr__(self):
        return 'Spec(%s/%s parts=%r metas=%r)' % (
            fmt.HASH_NAMES[self.hash_kind], fmt.SIGN_NAMES[self.sign_kind], self.parts,
            [(m[0], m[1], len(m[2])) for m in self.metas])


def size(rng, big=20000):
    k = rng.randrange(10)
    if k == 0:
        return 0
    if k == 1:
        return rng.choice([1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192])
    if k < 5:
        return rng.randint(1, 700)
    if k < 9:
        return rng.randint(1, big // 4)
    return rng.randint(1, big)


def content(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes(n)
    if k == 1:
        u = rng.randbytes(rng.randint(1, 40))
        return (u * (n // len(u) + 1))[:n]
    return rng.randbytes(n)


NAMES = ['kernel', 'fs', 'rootfs', 'dtb', 'p', 'pb-rec', 'loader', 'data', 'very-long-part-name-x']


def uniq(rng, used, pool=NAMES):
    while True:
        n = rng.choice(pool)
        if n in used or rng.random() < 0.5:
            n = n + '-%d' % rng.randrange(10000)
        if n not in used and fmt.bid(n) and fmt.bid(n) not in [fmt.bid(u) for u in used]:
            used.add(n)
            return n


def spec(rng, maxparts=5, big=20000, merkle=True, metas=True, keyparts=None, plain_exclude=True,
         minparts=0, empty=False):
    s = Spec()
    s.hash_kind = rng.choice([1, 1, 2, 3])
    s.sign_kind = rng.randint(1, 4)
    used = set()
    k = rng.randrange(8)
    n = minparts if k == 0 else rng.randint(max(1, minparts), maxparts)
    for _ in range(n):
        nm = uniq(rng, used)
        k = rng.randrange(10)
        if merkle and k < 3:
            blocks = rng.choice([1, 1, 2, 3, 5, 127, 128, 129]) if rng.random() < 0.7 else \
                rng.randint(1, max(1, big // 4096))
            while blocks * 4096 > max(big, 8192):
                blocks = max(1, blocks // 2)
            s.parts.append(PartSpec(nm, content(rng, blocks * 4096), 'merkle',
                                    rng.random() < 0.5))
            used.add(nm + '-hash-tree')
        elif keyparts and k == 3:
            key = rng.choice(keyparts)
            s.parts.append(PartSpec(nm, key.der, 'key'))
        else:
            s.parts.append(PartSpec(nm, content(rng, size(rng, big)), 'plain',
                                    plain_exclude and rng.random() < 0.2))
    if metas:
        mu = set()
        budget = 1500
        for _ in range(rng.randint(0, 6)):
            nm = rng.choice(['bpak-version', 'meta-a', 'meta-b', 'pb-load-addr', 'note',
                             'custom-%d' % rng.randrange(99)])
            ref = rng.choice(s.parts).name if s.parts and rng.random() < 0.4 else None
            if (nm, ref) in mu:
                continue
            v = content(rng, rng.choice([0] * empty + [1, 2, 7, 8, 9, 16, rng.randint(1, 200)]))
            if len(v) + 8 > budget:
                continue
            if rng.random() < 0.4:
                v = bytes(rng.choice(b'abcdefghij 0123') for _ in range(len(v)))
            budget -= len(v) + 8
            mu.add((nm, ref))
            s.metas.append((nm, ref, v))
    if rng.random() < 0.4:
        s.key_id, s.keystore_id = rng.getrandbits(32), rng.getrandbits(32)
    return s


def model(s, salt=None, rng=None):
    """archive bytes built by the format model"""
    a = fmt.Archive(s.hash_kind, s.sign_kind)
    a.h.key_id, a.h.keystore_id = s.key_id, s.keystore_id
    for p in s.parts:
        if p.kind == 'merkle':
            sl = salt or (rng.randbytes(32) if rng else b'\x5a' * 32)
            a.add_merkle(p.name, p.data, sl, fmt.F_EXCLUDE if p.exclude else 0)
        else:
            a.add(p.name, p.data, fmt.F_EXCLUDE if p.exclude else 0)
    for nm, ref, v in s.metas:
        a.meta(nm, v, fmt.bid(ref) if ref else 0)
    return a.finish()


def shuffle(rng, a, after=()):
    """the same archive with the parts stored in another order; after: ids
    of hash trees that have to stay behind their data"""
    n = len(a.data)
    order = list(range(n))
    rng.shuffle(order)
    ids = [p.id for p in a.h.part_list()]
    for t, b in after:
        x, y = order.index(ids.index(t)), order.index(ids.index(b))
        if x < y:
            order[x], order[y] = order[y], order[x]
    parts = a.h.parts
    a.h.parts = [parts[k] for k in order] + parts[n:]
    a.data = [a.data[k] for k in order]
    return a.finish()


def put(d, name, data):
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def read(p):
    with open(p, 'rb') as f:
        return f.read()


HOPT = {1: 'sha256', 2: 'sha384', 3: 'sha512'}
SOPT = {1: 'rsa4096', 2: 'prime256v1', 3: 'secp384r1', 4: 'secp521r1'}


def must(r, what='tool-refused-valid-request'):
    from . import core
    if not r.ok:
        raise core.Violation(what + ':' + r.args[1], r.brief())
    return r


def build_tool(cx, s, d, name='a.bpak', flavour='asan', defaults=False):
    """build with the command line tool; returns path"""
    a = ['create', name, '-Y', '-H', HOPT[s.hash_kind], '-S', SOPT[s.sign_kind]]
    must(cli.run(cx, a, d, flavour))
    for i, p in enumerate(s.parts):
        f = 'in%d.bin' % i
        put(d, f, p.data)
        a = ['add', name, '--part', p.name, '--from-file', f]
        if p.kind == 'merkle':
            a += ['--encoder', 'merkle']
        elif p.kind == 'key':
            a += ['--encoder', 'key']
        if p.exclude:
            a += ['--set-flag', 'dont-hash']
        must(cli.run(cx, a, d, flavour))
    for i, (nm, ref, v) in enumerate(s.metas):
        put(d, 'm.bin', v)
        a = ['add', name, '--meta', nm, '--from-file', 'm.bin']
        if ref:
            a += ['--part-ref', ref]
        must(cli.run(cx, a, d, flavour))
    if s.key_id:
        must(cli.run(cx, ['set', name, '--key-id', '0x%x' % s.key_id], d, flavour))
    if s.keystore_id:
        must(cli.run(cx, ['set', name, '--keystore-id', '0x%x' % s.keystore_id], d, flavour))
    return os.path.join(d, name)


def build_lib(cx, L, s, d, name='a.bpak'):
    """build with the library"""
    import ctypes as C
    from . import core
    path = os.path.join(d, name)
    raw = fmt.Archive(s.hash_kind, s.sign_kind).finish().bytes()
    put(d, name, raw)
    p = clib.Pkg(L, path, 'r+')
    if p.rc:
        raise core.Violation('open-refused', '%s' % p.rc)
    for i, q in enumerate(s.parts):
        f = put(d, 'lin%d.bin' % i, q.data).encode()
        fl = fmt.F_EXCLUDE if q.exclude else 0
        if q.kind == 'merkle':
            rc = L.pkg_add_file_with_merkle_tree(p.p, f, q.name.encode(), fl)
        elif q.kind == 'key':
            rc = L.pkg_add_key(p.p, f, q.name.encode(), fl)
        else:
            rc = L.pkg_add_file(p.p, f, q.name.encode(), fl)
        if rc:
            raise core.Violation('lib-refused-valid-request:add', '%r -> %d' % (q, rc))
    for nm, ref, v in s.metas:
        out = C.c_void_p()
        rc = L.add_meta(p.hptr(), fmt.bid(nm), fmt.bid(ref) if ref else 0, len(v), C.byref(out))
        if rc:
            raise core.Violation('lib-refused-valid-request:meta', '%r -> %d' % (nm, rc))
        base = p.hptr() + fmt.META_OFF
        off = struct.unpack_from('<H', C.string_at(out.value, 16), 6)[0]
        C.memmove(base + off, v, len(v))
    L.set_key_id(p.hptr(), s.key_id)
    L.set_keystore_id(p.hptr(), s.keystore_id)
    rc = L.pkg_write_header(p.p)
    if rc:
        raise core.Violation('lib-refused-valid-request:write-header', str(rc))
    p.close()
    return path


# ---- transport ---------------------------------------------------------------
ENCODERS = [('bsdiff', 'bspatch', 'hs'), ('bsdiff-no-comp', 'bspatch-no-comp', 'none'),
            ('bsdiff-lzma', 'bspatch-lzma', 'lzma')]


def pair(rng, maxparts=5, big=20000, deltas=True, shapes=None, remove=True):
    """(origin archive, new archive, plan): the same package twice; plan maps a
    part id to ('copy',) | ('delta', comp) | ('remove',)"""
    from checks import c04
    uuid = rng.randbytes(16)
    org = fmt.Archive(rng.choice([1, 2, 3]), rng.randint(1, 4))
    new = fmt.Archive(rng.choice([1, 2, 3]), rng.randint(1, 4))
    org.meta(fmt.PKG_ID, uuid)
    new.meta(fmt.PKG_ID, uuid)
    new.h.key_id, new.h.keystore_id = rng.getrandbits(32) | 1, rng.getrandbits(32)
    plan = {}
    used = set()
    items = []
    for _ in range(rng.randint(1, maxparts)):
        nm = uniq(rng, used)
        merkle = rng.random() < 0.35
        delta = deltas and rng.random() < 0.7
        if merkle:
            used.add(nm + '-hash-tree')
            n = rng.choice([1, 1, 2, 3, 5]) if rng.random() < .8 else rng.choice([127, 128, 129, 130])
            a = content(rng, 4096 * rng.choice([1, 2, 3]))
            b = bytearray(content(rng, 4096 * n))
            k = min(len(a), len(b))
            o = rng.randrange(0, k)
            b[o:k] = a[o:k]
            b = bytes(b)
        else:
            a, b = c04.gen(rng, rng.choice(shapes or c04.SHAPES), 'quick')
            a, b = a[:big], b[:big]
        items.append((nm, merkle, delta, a, b))
    oitems = [it for it in items if it[2] or rng.random() < 0.6]
    if rng.random() < 0.3:
        rng.shuffle(oitems)
    if rng.random() < 0.3:
        oitems.insert(rng.randint(0, len(oitems)), (uniq(rng, used), False, False,
                                                    rng.randbytes(rng.randint(0, 900)), b''))
    for nm, merkle, delta, a, b in oitems:
        if merkle and rng.random() < .8:
            org.add_merkle(nm, a, rng.randbytes(32), rng.choice([0, fmt.F_EXCLUDE]))
        else:
            org.add(nm, a, rng.choice([0, 0, fmt.F_EXCLUDE]))
    later = []
    for nm, merkle, delta, a, b in items:
        pid = fmt.bid(nm)
        if merkle:
            new.add_merkle(nm, b, rng.randbytes(32), rng.choice([0, fmt.F_EXCLUDE]))
            tid = fmt.tree_id(pid)
            if remove and rng.random() < 0.8:
                plan[tid] = ('remove',)
                later.append((tid, 'remove-data', 'merkle-generate'))
            elif deltas and org.h.part(tid) is not None and rng.random() < .5:
                e = rng.choice(ENCODERS)
                plan[tid] = ('delta', e[2])
                later.append((tid, e[0], e[1]))
            else:
                plan[tid] = ('copy',)
        else:
            new.add(nm, b, rng.choice([0, 0, fmt.F_EXCLUDE]))
        if delta:
            e = rng.choice(ENCODERS)
            plan[pid] = ('delta', e[2])
            later.append((pid, e[0], e[1]))
        else:
            plan[pid] = ('copy',)
    rng.shuffle(later)
    for pid, e, dd in later:
        new.transport(pid, e, dd)
    if rng.random() < .5:
        new.meta('bpak-version', b'1.%d.0\0' % rng.randrange(9))
    if rng.random() < .3 and items:
        new.meta('note', rng.randbytes(rng.randint(1, 60)), fmt.bid(items[0][0]))
    if rng.random() < .3:
        shuffle(rng, org)
    if rng.random() < .3:
        # (trees are generated from data decoded before them)
        shuffle(rng, new, [(t, pid) for pid in plan for t in [fmt.tree_id(pid)]
                           if plan.get(t) == ('remove',)])
    if rng.random() < .15:
        # flag bits without a meaning in this version are kept
        for p in new.h.part_list():
            p.flags |= rng.choice([0, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xfc])
    org.finish()
    new.finish()
    return org, new, plan
