"""Archives of several gigabytes in sparse files.

One part that is excluded from the payload hash is 2..9 GiB long, so that
everything behind it lies beyond 2^31 or 2^32; nothing ever needs to read it
as a whole.  Only its first and last bytes carry data."""
import os
import subprocess

from . import fmt, gen, pk

EDGE = 4096
SIZES = [(1 << 31) - 4096, (1 << 31) - 512, 1 << 31, (1 << 31) + 512, (1 << 32) - 8192,
         (1 << 32) - 4096, (1 << 32) - 512, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
         (1 << 32) + 512, 5 << 30, (1 << 33) + 777]


class Huge:
    """parts: [id, size, flags, tsize, data]; the data of the huge one is None"""

    def __init__(self, rng, hk=None, metas=True, size=None, before=None):
        self.a = fmt.Archive(hk or rng.randint(1, 3), rng.randint(1, 4))
        self.parts = []
        self.names = {}
        self.head = rng.randbytes(EDGE)
        self.tail = rng.randbytes(EDGE)
        for k in range(rng.randint(0, 2) if before is None else before):
            self.new('before%d' % k, rng.randbytes(rng.choice([0, 1, 512, 600, 5000])),
                     rng.choice([0, 0, 1]))
        self.hsize = rng.choice(SIZES) if rng.random() < .7 else rng.randint(1 << 31, 5 << 30)
        self.hsize = size or self.hsize
        self.hid = fmt.bid('rootfs')
        self.names[self.hid] = 'rootfs'
        self.parts.append([self.hid, self.hsize, fmt.F_EXCLUDE, 0, None])
        for k in range(rng.randint(1, 3)):
            self.new('behind%d' % k, rng.randbytes(rng.choice([1, 512, 513, 4096, 9000])),
                     rng.choice([0, 0, 0, 1]))
        if metas:
            self.a.meta('bpak-package', rng.randbytes(16))
            self.a.meta('note', b'about\0', self.hid)
        self.metas = list(self.a.h.meta_list())

    def new(self, name, data, flags):
        pid = fmt.bid(name)
        self.names[pid] = name
        self.parts.append([pid, len(data), flags, 0, data])

    @staticmethod
    def room(p):
        return p[1] + fmt.padlen(p[1])

    def positions(self):
        at, r = fmt.HDR, []
        for p in self.parts:
            r.append(at)
            at += self.room(p)
        return r, at

    def header(self):
        """the header the archive has to have"""
        h = fmt.Hdr(self.a.h.pack())
        at, _ = self.positions()
        for k in range(fmt.NPART):
            h.parts[k] = fmt.Part()
        for k, (p, o) in enumerate(zip(self.parts, at)):
            h.parts[k] = fmt.Part(p[0], p[1], o, 0, fmt.padlen(p[1]), p[2])
        for m in h.metas:
            m.id = m.ref = m.size = m.offset = 0
        h.metadata = bytearray(fmt.META_BYTES)
        for (i, r), v in self.metas:
            h.add_meta(i, r, v)
        d = fmt.HASHES[h.hash_kind]()
        for p in self.parts:
            if not p[2] & fmt.F_EXCLUDE:
                d.update(p[4] + bytes(fmt.padlen(p[1])))
        n = d.digest()
        h.payload_hash = n + bytes(64 - len(n))
        return h

    def tree(self, name, data, flags, salt):
        """a part with its hash tree behind the others"""
        pid = fmt.bid(name)
        t, root = fmt.merkle_tree(data, salt)
        self.metas += [((fmt.SALT_ID, pid), salt), ((fmt.ROOT_ID, pid), root)]
        self.new(name, data, flags)
        self.new(name + '-hash-tree', t, flags)

    def signed(self, key, rnd):
        """the header with a signature of the independent signer"""
        h = self.header()
        h.sign_kind = gen.SIGNNUM[key.key.kind]
        sig = pk.sign(key.key, fmt.package_hash(h), h.hash_kind, rnd)
        h.signature = sig.ljust(512, b'\0')
        h.signature_sz = len(sig)
        return h

    def write(self, path, h=None):
        h = h or self.header()
        at, end = self.positions()
        with open(path, 'wb') as f:
            f.truncate(end)
            f.write(h.pack())
            for p, o in zip(self.parts, at):
                if p[4] is not None:
                    f.seek(o)
                    f.write(p[4])
                else:
                    f.seek(o)
                    f.write(self.head)
                    f.seek(o + p[1] - EDGE)
                    f.write(self.tail)

    def differs(self, path):
        """None if the file is what it has to be"""
        h = self.header()
        at, end = self.positions()
        n = os.path.getsize(path)
        if n != end:
            return 'size', 'the file has %d bytes, must have %d: %s' % (n, end, self)
        with open(path, 'rb') as f:
            got = fmt.Hdr(f.read(fmt.HDR))
            if [p.key() for p in got.part_list()] != [p.key() for p in h.part_list()]:
                return 'part-table', '%r\nwant %r' % (got.part_list(), h.part_list())
            if got.meta_list() != h.meta_list():
                return 'metadata', '%r\nwant %r' % (got.meta_list(), h.meta_list())
            if got.payload_hash != h.payload_hash:
                return 'payload-hash', '%s want %s: %s' % (
                    got.payload_hash.hex(), h.payload_hash.hex(), self)
            for p, o in zip(self.parts, at):
                f.seek(o)
                if p[4] is not None:
                    if f.read(self.room(p)) != p[4] + bytes(fmt.padlen(p[1])):
                        return 'data', 'part %x at %d: %s' % (p[0], o, self)
                else:
                    if f.read(EDGE) != self.head:
                        return 'data', 'first bytes of the huge part at %d: %s' % (o, self)
                    f.seek(o + p[1] - EDGE)
                    if f.read(EDGE + fmt.padlen(p[1])) != self.tail + bytes(fmt.padlen(p[1])):
                        return 'data', 'last bytes of the huge part at %d: %s' % (o, self)
        return None

    def small(self):
        return [p for p in self.parts if p[4] is not None]

    def behind(self):
        """indexes of the parts behind the huge one"""
        ids = [p[0] for p in self.parts]
        k = ids.index(self.hid) + 1 if self.hid in ids else 0
        return list(range(k, len(ids)))

    def __str__(self):
        return ' '.join('%s:%d%s' % (self.names.get(p[0], hex(p[0])), p[1],
                                     'x' if p[2] & 1 else '') for p in self.parts)


def space(d, need=24 << 30):
    v = os.statvfs(d)
    return v.f_bavail * v.f_frsize > need


def head(path):
    with open(path, 'rb') as f:
        return f.read(fmt.HDR)


def put(d, name, h):
    path = os.path.join(d, name)
    h.write(path)
    return path


class Hashed:
    """a part of more than 4 GiB that really is hashed: zeroes between two
    known ends, signed by the independent signer"""

    def __init__(self, rng, key, hk):
        self.n = (1 << 32) + rng.choice([-512, 0, 100, 5000, 1 << 20])
        self.first, self.last = rng.randbytes(700), rng.randbytes(512)
        a = fmt.Archive(hk, gen.SIGNNUM[key.key.kind])
        h = self.h = a.h
        self.big = fmt.HDR + 1024
        h.parts[0] = fmt.Part(7, 700, fmt.HDR, 0, fmt.padlen(700), 0)
        h.parts[1] = fmt.Part(8, self.n, self.big, 0, fmt.padlen(self.n), 0)
        d = fmt.HASHES[hk](self.first + bytes(324))
        z = bytes(1 << 20)
        left = self.n - 512
        while left:
            k = min(left, len(z))
            d.update(z[:k])
            left -= k
        d.update(self.last + bytes(fmt.padlen(self.n)))
        h.payload_hash = d.digest().ljust(64, b'\0')
        self.key, self.rnd = key, rng.random()

    def signed(self):
        h = fmt.Hdr(self.h.pack())
        sig = pk.sign(self.key.key, fmt.package_hash(h), h.hash_kind, self.rnd)
        h.signature = sig.ljust(512, b'\0')
        h.signature_sz = len(sig)
        return h

    def write(self, path, h):
        with open(path, 'wb') as f:
            f.write(h.pack() + self.first)
            f.truncate(self.big + self.n + fmt.padlen(self.n))
            f.seek(self.big + self.n - 512)
            f.write(self.last)


def parallel(cmds, d, timeout=70):
    """[(exit status, output)] or None if it takes too long"""
    run = [subprocess.Popen(c, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT) for c in cmds]
    res = []
    try:
        for p in run:
            out, _ = p.communicate(timeout=timeout)
            res.append((p.returncode, out))
    except subprocess.TimeoutExpired:
        return None
    finally:
        for p in run:
            if p.poll() is None:
                p.kill()
                p.wait()
    return res


__all__ = ['Huge', 'put', 'SIZES', 'EDGE', 'gen']
