"""C28: a configured hash or signature backend does all the work."""
import ctypes as C
import hashlib
import os

from vlib import clib, core, fmt, gen, ops, pk
from checks import c02

PROPERTY = 'C28'
LEVEL = 'exploration'
TECHNIQUE = ('online trace monitor: instrumented hash and signature backends installed with '
             'bpak_hash_setup/bpak_crypto_setup observe every call of every operation, with '
             'injected backend failures; results against a second copy of the library with its '
             'built-in backend and against independent models; AddressSanitizer')
LEVEL_NOTE = ('Seeded archives; the whole catalogue of library operations; the failing backend '
              'call is drawn over all calls of the operation.')
BUILD = {'asan': ['lib'], 'plain': ['lib']}
PRELOAD = 'asan'
RULE = ('One judged execution per operation run with an installed backend that was called (or '
        'deliberately absent) at least once. Distinct: by input digest, operation and mode.')
REQUIRED = {'same': 900, 'masked': 350, 'failing': 1500, 'absent': 350, 'hash calls': 300000,
            'contexts': 9000, 'failed init': 250, 'failed update': 500, 'failed final': 250,
            'merkle trees': 120, 'sign': 60, 'verify': 200, 'add_key': 60, 'keystore': 60,
            'keys released': 200, 'free absent': 60, 'no hash needed': 100, 'other error': 300}
ASSUMPTIONS = ['backends are replaced between operations, not while one runs',
               'a tree generation or decoding that the caller gives up half way is not judged',
               'a delete whose backend fails after data was moved is only required to be reported']

IK = C.CFUNCTYPE(C.c_int, C.c_void_p)
UP = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_size_t)
FI = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p)
FR = C.CFUNCTYPE(None, C.c_void_p)
VE = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t, C.c_int, C.c_void_p,
                 C.c_void_p)
SI = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_size_t, C.c_int, C.c_void_p, C.c_void_p, C.c_void_p)
LK = C.CFUNCTYPE(C.c_int, C.c_char_p, C.c_void_p)
PK = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_size_t, C.c_void_p)

NEW = {1: hashlib.sha256, 2: hashlib.sha384, 3: hashlib.sha512}
# operations of the catalogue that give up half way on purpose
GIVES_UP = ('stream-decode-abandoned',)


def cases(tier):
    return 32 if tier == 'quick' else 1200


def plain(kind, d):
    return d


def mask(kind, d):
    return bytes(x ^ 0x5a ^ kind ^ (7 * i & 255) for i, x in enumerate(d))


class Hash:
    """a hash backend that keeps its contexts elsewhere and watches its caller"""

    def __init__(self, view=plain, fail=None, nofree=False):
        self.view, self.fail = view, fail
        self.live, self.done, self.dead = {}, set(), set()
        self.n = 0
        self.calls = []             # what each call was
        self.bad = []
        self.made = 0
        self.next = 0x1000
        self.hit = None
        f = (IK(self.guard(self.init, -1)), UP(self.guard(self.update, -1)),
             FI(self.guard(self.final, -1)), FR(self.guard(self.free, None)))
        self.f = [C.cast(x, C.c_void_p) for x in f]
        self.keep = f
        if nofree:
            self.f[3] = None

    def guard(self, f, bad):
        def g(*a):
            try:
                return f(*a)
            except Exception as e:
                self.bad.append('monitor: %r' % e)
                return bad
        return g

    def turn(self, what):
        self.calls.append(what)
        self.n += 1
        if self.fail == self.n:
            self.hit = what
            return True
        return False

    def token(self, p, what):
        t = C.c_uint64.from_address(p + 8).value
        if t in self.live:
            return t
        if t in self.dead:
            self.bad.append('%s on a context already released' % what)
        else:
            self.bad.append('%s on something that is no context (%#x)' % (what, t))
        return None

    def init(self, p):
        if self.turn('init'):
            return -5
        kind = C.c_uint32.from_address(p).value
        if kind not in NEW:
            return -6
        self.next += 1
        C.c_uint64.from_address(p + 8).value = self.next
        self.live[self.next] = (kind, NEW[kind]())
        self.made += 1
        return 0

    def update(self, p, b, n):
        if self.turn('update'):
            return -5
        t = self.token(p, 'update')
        if t is None:
            return -7
        if t in self.done:
            self.bad.append('update after final')
            return -7
        if n and (not b or poisoned(b, n)):
            self.bad.append('update with %d bytes that are not there' % n)
            return -7
        self.live[t][1].update(C.string_at(b, n) if n else b'')
        return 0

    def final(self, p, b, n, out):
        if self.turn('final'):
            return -5
        t = self.token(p, 'final')
        if t is None:
            return -7
        if t in self.done:
            self.bad.append('final twice')
            return -7
        kind, h = self.live[t]
        d = self.view(kind, h.digest())
        if n < len(d):
            return -8
        if not b or poisoned(b, n):
            self.bad.append('final into %d bytes that are not there' % n)
            return -7
        C.memmove(b, d, len(d))
        if out:
            C.c_size_t.from_address(out).value = len(d)
        self.done.add(t)
        return 0

    def free(self, p):
        t = C.c_uint64.from_address(p + 8).value
        if t == 0:
            return              # never initialised
        t = self.token(p, 'free')
        if t is not None:
            del self.live[t]
            self.dead.add(t)


def poisoned(p, n):
    return bool(clib._poisoned(p, n)) if clib._poisoned and n else False


class Crypto:
    """a signature backend that only records"""

    def __init__(self, L, **k):
        self.L = L
        self.log = []
        self.bad = []
        self.k = {'verify': (0, True), 'sign': (0, b''), 'priv': None, 'pub': None, 'parse': None}
        self.k.update(k)
        self.keys = []
        f = (VE(self.guard(self.verify)), SI(self.guard(self.sign)),
             LK(self.guard(self.load('pub'))), LK(self.guard(self.load('priv'))),
             PK(self.guard(self.parse)))
        self.keep = f
        self.f = [C.cast(x, C.c_void_p) for x in f]

    def guard(self, f):
        def g(*a):
            try:
                return f(*a)
            except Exception as e:
                self.bad.append('monitor: %r' % e)
                return -1
        return g

    def mem(self, p, n, what):
        if n and (not p or poisoned(p, n)):
            self.bad.append('%s: %d bytes that are not there' % (what, n))
            return None
        return C.string_at(p, n) if n else b''

    def verify(self, s, sn, h, hn, kind, key, out):
        self.log.append(('verify', self.mem(s, sn, 'signature'), self.mem(h, hn, 'hash'), kind,
                         key))
        rc, v = self.k['verify']
        if v is not None:
            C.c_bool.from_address(out).value = v
        return rc

    def sign(self, h, hn, kind, key, s, n):
        room = C.c_size_t.from_address(n).value
        self.log.append(('sign', self.mem(h, hn, 'hash'), kind, key, room))
        rc, v = self.k['sign']
        if rc:
            return rc
        if poisoned(s, room):
            self.bad.append('signature buffer smaller than said')
        if room < len(v):
            return -3
        if v:
            C.memmove(s, v, len(v))
        C.c_size_t.from_address(n).value = len(v)
        return 0

    def key(self, data, kind=1):
        ks = self.L.sh_keystore_new(1, 1, 0)
        b = clib.Buf(data)
        p = self.L.sh_keystore_set(ks, 0, 0, kind, b.p, len(data))
        clib.libc.free(ks)
        self.keys.append(p)
        return p

    def give(self, v, out):
        if isinstance(v, int):
            return v
        C.c_uint64.from_address(out).value = self.key(v)
        return 0

    def load(self, which):
        def f(name, out):
            self.log.append((which, name))
            return self.give(self.k[which], out)
        return f

    def parse(self, b, n, out):
        self.log.append(('parse', self.mem(b, n, 'key')))
        return self.give(self.k['parse'], out)


def install(L, h):
    L.hash_setup(*(h.f if h else [None] * 4))


def tree(data, salt):
    """the hash tree with masked hashes"""
    H = lambda b: mask(1, hashlib.sha256(salt + b).digest())
    if len(data) == 4096:
        h = H(data)
        return h + bytes(4096 - 32), h
    cur, levels = data, []
    while len(cur) > 4096:
        nxt = b''.join(H(cur[i:i + 4096]) for i in range(0, len(cur), 4096))
        nxt += bytes(-len(nxt) % 4096)
        levels.append(nxt)
        cur = nxt
    return b''.join(reversed(levels)), H(cur)


def masked_payload(h, raw):
    return mask(h.hash_kind, fmt.payload_hash(h, raw))


def masked_package(h):
    return mask(h.hash_kind, fmt.package_hash(h))


class Case:
    def __init__(self, cx, rng, w, L, R):
        self.cx, self.rng, self.w, self.L, self.R = cx, rng, w, L, R
        self.dig = hashlib.sha1(w.inputs['a.bpak']).hexdigest()[:8]

    def run(self, T, fn):
        self.w.reset()
        clib.libc.srandom(7)
        rc, v = fn(T)
        return rc, v, self.w.state()

    def balanced(self, name, h, what):
        cx = self.cx
        cx.count('hash calls', h.n)
        cx.count('contexts', h.made)
        cx.check_that(not h.bad, 'backend-misused:' + name,
                      '%s, %s: %s\ncalls %s' % (name, what, h.bad[:4], h.calls[-12:]))
        if name not in GIVES_UP and h.f[3]:
            cx.check_that(not h.live, 'context-not-released:' + name,
                          '%s, %s: %d of %d contexts were never released\ncalls %s' % (
                              name, what, len(h.live), h.made, h.calls[-12:]))

    def same(self, name, fn, nofree=False, tag=''):
        """returns the number of backend calls"""
        ref = self.ref(name + tag, fn)
        h = Hash(nofree=nofree)
        install(self.L, h)
        got = self.run(self.L, fn)
        what = 'own backend' + (' without free' if nofree else '') + tag
        self.balanced(name, h, what)
        if not h.n:
            self.cx.count('no hash needed')
            return 0
        self.cx.count('other error' if tag and got[0] else 'free absent' if nofree else 'same')
        self.cx.eval((self.dig, name, what))
        ok = bool(ref[0]) == bool(got[0]) and ref[1:] == got[1:]
        self.cx.check_that(ok, 'backend-changes-result:' + name,
                           '%s with the same hash function from outside: %s instead of %s%s' % (
                               name, show(got), show(ref),
                               [n for n in ref[2] if ref[2][n] != got[2].get(n)]))
        return h.n

    def damaged(self, users):
        """errors that have nothing to do with the backend"""
        w, rng = self.w, self.rng
        keep = dict(w.inputs)
        for n in ('a.bpak', 's.bpak', 'e.bpak', 'n.bpak', 'o.bpak'):
            if n in keep and len(keep[n]) > fmt.HDR:
                w.inputs[n] = keep[n][:rng.randrange(fmt.HDR, len(keep[n]))]
        for name, fn, n in users:
            if not name.startswith('stream-') and name not in ('hash', 'merkle'):
                self.same(name, fn, tag=' short')
        w.inputs.clear()
        w.inputs.update(keep)
        for name, fn, n in users:
            if name.startswith('stream-') or name == 'merkle':
                for _ in range(3):
                    k = rng.randint(1, rng.choice([3, 12, 200]))
                    ops.Io.fault = rng.choice([(k, 0), (0, k)])
                    try:
                        self.same(name, fn, tag=' stream fault %s %s' % ops.Io.fault)
                    finally:
                        ops.Io.fault = (0, 0)

    def ref(self, name, fn):
        if name not in self.refs:
            self.refs[name] = self.run(self.R, fn)
        return self.refs[name]

    def failing(self, name, fn, calls):
        h = Hash(fail=self.rng.choice(calls))
        install(self.L, h)
        before = dict(self.w.inputs)
        rc, v, st = self.run(self.L, fn)
        what = 'call %d (%s) of the backend failing' % (h.fail, h.hit)
        self.balanced(name, h, what)
        if not h.hit:
            return
        self.cx.count('failing')
        self.cx.count('failed ' + h.hit)
        self.cx.eval((self.dig, name, what))
        self.cx.check_that(rc, 'backend-failure-not-reported:' + name,
                           '%s, %s: result %s' % (name, what, rc))
        self.unchanged(name, what, before, st)

    def unchanged(self, name, what, before, st):
        if name.startswith('delete'):
            return
        bad = [n for n in before if n in st and n.endswith('.bpak') and package(st[n]) !=
               package(before[n])]
        self.cx.check_that(not bad, 'changed-by-failed-operation:' + name,
                           '%s, %s: changed %s' % (name, what, bad))

    def absent(self, name, fn):
        install(self.L, None)
        before = dict(self.w.inputs)
        rc, v, st = self.run(self.L, fn)
        self.cx.count('absent')
        self.cx.eval((self.dig, name, 'absent'))
        self.cx.check_that(rc, 'works-without-backend:' + name,
                           '%s needs a hash, none is configured: result %s' % (name, rc))
        self.unchanged(name, 'no backend', before, st)


def package(raw):
    if raw is None or len(raw) < fmt.HDR:
        return raw
    h = fmt.Hdr(raw)
    return raw[:fmt.HDR + sum(p.stored() for p in h.part_list())]


def show(r):
    v = r[1]
    if isinstance(v, (bytes, tuple, list)):
        v = hashlib.sha1(repr(v).encode()).hexdigest()[:10]
    return '(%s, %s)' % (r[0], v)


def masked(c, w, cat):
    """hash values that only the installed backend knows"""
    cx, L, rng = c.cx, c.L, c.rng
    ref = {n: f for n, f, s in cat}

    def go(name):
        h = Hash(view=mask)
        install(L, h)
        r = c.run(L, ref[name])
        c.balanced(name, h, 'masked')
        cx.count('masked')
        cx.eval((c.dig, name, 'masked'))
        return r

    def need(ok, name, msg):
        cx.check_that(ok, 'hash-not-from-backend:' + name, msg)

    zz = fmt.bid('zz')
    for name in ('add-file', 'add-key', 'add-merkle', 'delete', 'delete-all', 'sign'):
        rc, v, st = go(name)
        rrc, rv, rst = c.ref(name, ref[name])
        if rrc or rc:
            need(bool(rc) == bool(rrc), name, 'result %s, built-in %s' % (rc, rrc))
            continue
        raw, rraw = st['a.bpak'], rst['a.bpak']
        h, rh = fmt.Hdr(raw), fmt.Hdr(rraw)
        want = masked_payload(h, raw).ljust(64, b'\0')
        if not (name == 'sign' and bytes(h.payload_hash) ==
                fmt.payload_hash(h, raw).ljust(64, b'\0')):
            need(bytes(h.payload_hash) == want, name, 'payload hash %s, the backend gives %s' % (
                bytes(h.payload_hash).hex(), want.hex()))
        if name == 'sign':
            sig = bytes(h.signature[:h.signature_sz])
            need(pk.verify(w.key.key, masked_package(h), h.hash_kind, sig), name,
                 'the signature is not for the hash of the backend')
            h.signature = rh.signature = bytes(512)
            h.signature_sz = rh.signature_sz = 0
        if name == 'add-merkle':
            salt, root = h.get(fmt.SALT_ID, zz), h.get(fmt.ROOT_ID, zz)
            pos = {p.id: (o, n) for p, o, n in ops.part_ranges(h)}
            body = raw[fmt.HDR:]
            t, r = tree(w.inputs['m.bin'], bytes(salt))
            o, n = pos[fmt.tree_id(zz)]
            need(body[o:o + n] == t and bytes(root) == r, name,
                 'the hash tree is not made by the backend')
            cx.count('merkle trees')
            continue
        h.payload_hash = rh.payload_hash = bytes(64)
        need(h.pack() == rh.pack() and raw[fmt.HDR:] == rraw[fmt.HDR:], name,
             'the archive differs in more than its hash')
    # results of reading operations
    a = fmt.Hdr(w.inputs['a.bpak'])
    rc, v, st = go('update-hash')
    a.payload_hash = masked_payload(a, w.inputs['a.bpak']).ljust(64, b'\0')
    need(rc == 0 and v == masked_package(a), 'update-hash', 'result %s %s' % (rc, v and v.hex()))
    rc, v, st = go('part-hash')
    rrc, rv, _ = c.ref('part-hash', ref['part-hash'])
    need(rc == rrc and (rc or v == mask(1, rv)), 'part-hash', 'result %s %s' % (rc, v and v.hex()))
    rc, v, st = go('hash')
    rrc, rv, _ = c.ref('hash', ref['hash'])
    need(rc == 0 and v == [mask(k + 1, x) for k, x in enumerate(rv)], 'hash', 'result %s' % rc)
    rc, v, st = go('merkle')
    t, r = tree(w.inputs['m.bin'], bytes(range(32)))
    need(rc == 0 and v[0] == r and v[1] == t, 'merkle', 'result %s' % rc)
    cx.count('merkle trees')
    for name in ('stream-payload', 'stream-tree', 'verify'):
        rc, v, st = go(name)
        need(rc, name, 'accepted although the hashes are not those of the backend')
    # archives made with this backend
    b = fmt.Archive(rng.choice([1, 2, 3]))
    b.add('p0', rng.randbytes(rng.randint(0, 3000)))
    data = w.inputs['m.bin']
    salt = rng.randbytes(32)
    if rng.random() < .7:
        b.add_merkle('p1', data, salt, rng.choice([0, 1]))
        b.finish()
        raw = bytearray(b.bytes())
        h = fmt.Hdr(bytes(raw))
        p1 = fmt.bid('p1')
        t, r = tree(data, salt)
        o, n = {p.id: (o, n) for p, o, n in ops.part_ranges(h)}[fmt.tree_id(p1)]
        raw[fmt.HDR + o:fmt.HDR + o + n] = t
        for m in h.metas:
            if m.id == fmt.ROOT_ID and m.ref == p1:
                md = bytearray(h.metadata)
                md[m.offset:m.offset + 32] = r
                h.metadata = md
        cx.count('merkle trees')
    else:
        b.finish()
        raw = bytearray(b.bytes())
        h = fmt.Hdr(bytes(raw))
    h.payload_hash = masked_payload(h, h.pack() + bytes(raw[fmt.HDR:])).ljust(64, b'\0')
    sig = pk.sign(w.key.key, masked_package(h), h.hash_kind, 0)
    h.signature = sig.ljust(512, b'\0')
    h.signature_sz = len(sig)
    raw = h.pack() + bytes(raw[fmt.HDR:])
    flipped = bytearray(raw)
    at = rng.randrange(fmt.HDR, len(raw)) if len(raw) > fmt.HDR else 600
    flipped[at] ^= 1
    hit = masked_payload(h, bytes(flipped)) != masked_payload(h, raw)
    k = load(c, w)
    for what, x, ok in (('intact', raw, True), ('changed', bytes(flipped), not hit)):
        hh = Hash(view=mask)
        install(L, hh)
        p = os.path.join(w.d, 'mm.bpak')
        gen.put(w.d, 'mm.bpak', x)
        g = clib.Pkg(L, p, 'r')
        rc = g.rc or L.pkg_verify(g.p, k)
        g.close()
        c.balanced('verify', hh, 'masked archive')
        cx.count('masked')
        cx.eval((c.dig, 'verify', 'masked archive', what, hashlib.sha1(x).hexdigest()[:8]))
        if what == 'changed' and not hit:
            continue        # covered by a tree or by nothing
        need((rc == 0) == ok, 'verify', 'archive made with the backend, %s: %s' % (what, rc))
        os.unlink(p)
    L.free(k)


def load(c, w):
    """public key as the built-in backend understands it, on the library's heap"""
    out = C.c_void_p()
    rc = c.L.crypto_load_public_key(w.key.pubs[0].encode(), C.byref(out))
    if rc:
        raise core.Violation('key-refused', '%s: %d' % (w.key.pubs[0], rc))
    return out.value


def crypto(c, w):
    """an installed signature backend; the built-in one cannot be brought back"""
    cx, L, rng = c.cx, c.L, c.rng
    install(L, Hash())
    A = w.path('a.bpak')

    def use(**k):
        m = Crypto(L, **k)
        L.crypto_setup(*m.f)
        return m

    def ran(what, m, detail):
        cx.count(what)
        cx.eval((c.dig, what, detail))
        cx.check_that(not m.bad, 'backend-misused:' + what, '%s %s: %s' % (what, detail, m.bad))

    def released(what, m):
        for p in m.keys:
            cx.count('keys released')
            cx.check_that(poisoned(p, 1), 'key-not-released:' + what,
                          'a key the backend made was not given back')

    def with_a(mode, f):
        w.reset()
        r = ops.with_pkg(L, A, mode, f)
        return r, gen.read(A)

    old = w.inputs['a.bpak']
    name = rng.choice(['k.pem', '/no/such/file', 'x' * 40, 'ä key']).encode()
    kdata = rng.randbytes(rng.choice([1, 91, 300, 550]))
    # signing
    plainraw = w.inputs['a.bpak']
    for stale in (False, True):
        h = fmt.Hdr(plainraw)
        if stale:
            h.signature = rng.randbytes(512)
            h.signature_sz = 512
        old = w.inputs['a.bpak'] = h.pack() + plainraw[fmt.HDR:]
        sig = rng.randbytes(rng.choice([1, 70, 71, 511, 512]))
        err = -rng.choice([1, 5, 31])
        for detail, k in (('ok', {}), ('no key', {'priv': err}), ('refused', {'sign': (err, b'')})):
            m = use(**dict({'priv': kdata, 'sign': (0, sig)}, **k))
            (rc, _v), raw = with_a('r+', lambda p: L.pkg_sign(p.p, name))
            ran('sign', m, detail)
            released('sign', m)
            calls = [x[0] for x in m.log]
            cx.check_that(all(x[1] == name for x in m.log if x[0] == 'priv'),
                          'backend-arguments:sign', 'key file %r: %r' % (name, m.log))
            if detail != 'ok':
                cx.check_that(rc and package(raw) == package(old), 'backend-failure-not-reported:sign',
                              '%s: result %s, archive %s' % (
                                  detail, rc, 'changed' if raw != old else 'unchanged'))
                continue
            h = fmt.Hdr(raw)
            cx.check_that(rc == 0 and calls.count('sign') == 1 and calls.count('priv') == 1,
                          'backend-not-used:sign', 'result %s calls %s' % (rc, calls))
            s = [x for x in m.log if x[0] == 'sign'][0]
            cx.check_that(s[1] == fmt.package_hash(h) and s[2] == h.hash_kind and
                          s[3] == m.keys[0] and s[4] == 512, 'backend-arguments:sign',
                          'asked to sign %s kind %d room %d; the package hash is %s kind %d' % (
                              s[1].hex(), s[2], s[4], fmt.package_hash(h).hex(), h.hash_kind))
            cx.check_that(bytes(h.signature) == sig.ljust(512, b'\0') and
                          h.signature_sz == len(sig), 'signature-not-stored:sign',
                          '%d bytes from the backend, %d stored: %s' % (
                              len(sig), h.signature_sz, bytes(h.signature[:80]).hex()))
    old = w.inputs['a.bpak'] = plainraw
    # verification
    arcs = {'good': w.inputs['s.bpak']}
    bad = bytearray(arcs['good'])
    hs = fmt.Hdr(arcs['good'])
    cov = [(o, n) for p, o, n in ops.part_ranges(hs) if not p.flags & 1 and n]
    if cov:
        o, n = rng.choice(cov)
        bad[fmt.HDR + o + rng.randrange(n)] ^= 4
        arcs['bad payload'] = bytes(bad)
    h = fmt.Hdr(arcs['good'])
    h.signature = rng.randbytes(512)
    h.signature_sz = rng.choice([1, 64, 512])
    arcs['foreign signature'] = h.pack() + arcs['good'][fmt.HDR:]
    for n, raw in arcs.items():
        hd = fmt.Hdr(raw)
        for ans in ((0, True), (0, False), (0, None), (-3, True), (-3, False), (-9, None)):
            m = use(verify=ans)
            gen.put(w.d, 'v.bpak', raw)
            k = m.key(kdata)
            rc, _v = ops.with_pkg(L, w.path('v.bpak'), 'r', lambda p: L.pkg_verify(p.p, k))
            ran('verify', m, (n, ans))
            L.free(k)
            want = ans == (0, True) and n != 'bad payload'
            cx.check_that((rc == 0) == want, 'verdict-not-from-backend:verify',
                          '%s archive, backend answers (%d, %s): result %d' % (
                              n, ans[0], ans[1], rc))
            cx.check_that(m.log == [('verify', bytes(hd.signature[:hd.signature_sz]),
                                     fmt.package_hash(hd), hd.hash_kind, k)],
                          'backend-arguments:verify', '%s: %r' % (n, m.log))
            v = C.c_bool(False)
            m.log.clear()
            hb, sb = clib.Buf(kdata[:32]), clib.Buf(sig)
            r2 = L.crypto_verify(sb.p, sb.n, hb.p, hb.n, 1, m.key(b'k'), C.byref(v))
            cx.check_that(r2 == ans[0] and v.value == bool(ans[1]) and
                          m.log == [('verify', sig, kdata[:32], 1, m.keys[-1])],
                          'backend-arguments:crypto_verify', '%d %s %r' % (r2, v.value, m.log))
            L.free(m.keys[-1])
    # adding a key
    for detail, x in (('ok', kdata), ('refused', -rng.choice([1, 5, 31]))):
        m = use(pub=x)
        fl = rng.choice([0, 1])
        (rc, _v), raw = with_a('r+', lambda p: L.pkg_add_key(p.p, name, b'zz', fl))
        ran('add_key', m, detail)
        released('add_key', m)
        cx.check_that(m.log == [('pub', name)], 'backend-arguments:add_key', repr(m.log))
        if detail != 'ok':
            cx.check_that(rc and package(raw) == package(old),
                          'backend-failure-not-reported:add_key', 'result %s' % rc)
            continue
        h = fmt.Hdr(raw)
        p = h.part(fmt.bid('zz'))
        pos = {p.id: o for p, o, n in ops.part_ranges(h)}
        cx.check_that(rc == 0 and p and p.size == len(kdata) and
                      raw[fmt.HDR + pos[p.id]:][:p.stored()] ==
                      kdata.ljust(p.stored(), b'\0') and p.flags == fl,
                      'key-not-stored:add_key', 'result %s, %d bytes from the backend' % (
                          rc, len(kdata)))
        cx.check_that(bytes(h.payload_hash) == fmt.payload_hash(h, raw).ljust(64, b'\0'),
                      'key-not-stored:add_key', 'payload hash')
    # keys from a key store
    ks = fmt.Archive(rng.choice([1, 2, 3]))
    ks.meta(fmt.PKG_ID, bytes(16))
    ksid = rng.getrandbits(32)
    ks.meta(fmt.KSP_ID, ksid.to_bytes(4, 'little'))
    content = {n: rng.randbytes(rng.choice([1, 91, 550, 1024])) for n in ('k1', 'k2', 'k3')}
    for n, v in content.items():
        ks.add(n, v)
    gen.put(w.d, 'kk.bpak', ks.finish().bytes())
    for detail, x in (('ok', kdata), ('refused', -rng.choice([1, 5, 31]))):
        n = rng.choice(sorted(content))
        m = use(parse=x)
        out = C.c_void_p()
        rc = L.keystore_load_key_from_file(w.path('kk.bpak').encode(), ksid, fmt.bid(n), None,
                                           None, C.byref(out))
        ran('keystore', m, detail)
        cx.check_that(m.log == [('parse', content[n])], 'backend-arguments:keystore',
                      'key %s of %d bytes: %r' % (n, len(content[n]), m.log))
        if detail == 'ok':
            ok = rc == 0 and out.value == m.keys[0]
            cx.check_that(ok, 'key-not-from-backend:keystore', 'result %s' % rc)
            cx.check_that(L.sh_key_id(out.value) == fmt.bid(n) and C.string_at(
                L.sh_key_data(out.value), L.sh_key_size(out.value)) == kdata,
                'key-not-from-backend:keystore', 'key id %#x' % L.sh_key_id(out.value))
            L.free(out.value)
        else:
            cx.check_that(rc, 'backend-failure-not-reported:keystore', 'result 0')
    # nothing configured
    L.crypto_setup(None, None, None, None, None)
    k = Crypto(L).key(kdata)
    out = C.c_void_p()
    todo = {
        'sign': lambda: with_a('r+', lambda p: L.pkg_sign(p.p, name))[0][0],
        'verify': lambda: ops.with_pkg(L, w.path('s.bpak'), 'r', lambda p: L.pkg_verify(
            p.p, k))[0],
        'add_key': lambda: with_a('r+', lambda p: L.pkg_add_key(p.p, name, b'zz', 0))[0][0],
        'keystore': lambda: L.keystore_load_key_from_file(
            w.path('ks.bpak').encode(), w.ksid, fmt.bid('k1'), None, None, C.byref(out)),
    }
    for what, f in todo.items():
        w.reset()
        rc = f()
        cx.count('absent')
        cx.eval((c.dig, what, 'absent'))
        cx.check_that(rc, 'works-without-backend:' + what, 'result 0 without a backend')
        cx.check_that(package(gen.read(A)) == package(old), 'changed-by-failed-operation:' + what,
                      'no backend')
    L.free(k)


def run_case(cx, i, rng):
    d = os.path.join(cx.tmp(), 'w')
    os.makedirs(d)
    w = ops.World(cx, rng, d, big=3000)
    # each case has a library of its own, as the built-in backend is not restored
    import shutil
    path = os.path.join(cx.tmp(), 'lib%d.so' % i)
    shutil.copy(cx.builds['asan']['lib'], path)
    L = clib.Lib(path)
    R = clib.load(cx, 'plain')
    ops.add_encoded(cx, R, w)
    cat = ops.catalogue(w, R)
    c = Case(cx, rng, w, L, R)
    c.refs = {}
    users = []
    for name, fn, sig in cat:
        n = c.same(name, fn)
        if n:
            users.append((name, fn, n))
    masked(c, w, cat)
    for name, fn, n in users:
        install(L, None)
        ks = {1, n, max(1, n - 1)} | {rng.randint(1, n) for _ in range(2)}
        for k in rng.sample(sorted(ks), min(len(ks), 3)):
            c.failing(name, fn, [k])
    for name, fn, n in rng.sample(users, min(len(users), 12)):
        c.absent(name, fn)
    for name, fn, n in rng.sample(users, min(len(users), 3)):
        c.same(name, fn, nofree=True)
    c.damaged(users)
    crypto(c, w)
