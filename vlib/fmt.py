"""Independent model of the bpak formats, written from the documentation and
the layout of the on-disk structures.  Nothing here uses code of the tree under
test."""
import hashlib
import lzma
import struct

MAGIC = 0x42504132
HDR = 4096
NMETA = 32
NPART = 32
META_BYTES = 1920
META_OFF = 1544
ALIGN = 512
F_EXCLUDE = 1
F_TRANSPORT = 2

HASHES = {1: hashlib.sha256, 2: hashlib.sha384, 3: hashlib.sha512}
HASH_NAMES = {1: 'sha256', 2: 'sha384', 3: 'sha512'}
SIGN_NAMES = {1: 'rsa4096', 2: 'prime256v1', 3: 'secp384r1', 4: 'secp521r1'}


def _crc_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0xEDB88320 if c & 1 else c >> 1
        t.append(c)
    return t


_T = _crc_table()


def crc(data, c=0):
    for b in data:
        c = _T[(c ^ b) & 0xff] ^ (c >> 8)
    return c


def bid(name):
    if isinstance(name, str):
        name = name.encode('utf-8', 'surrogateescape')
    return crc(name)


def tree_id(part_id):
    return crc(b'-hash-tree', part_id)


ID = {n: bid(n) for n in (
    'bpak-transport', 'merkle-salt', 'merkle-root-hash', 'keystore-provider-id',
    'bpak-version', 'pb-load-addr', 'bpak-package', 'bpak-key-id', 'bpak-key-store')}
T_ID = ID['bpak-transport']
SALT_ID = ID['merkle-salt']
ROOT_ID = ID['merkle-root-hash']
PKG_ID = ID['bpak-package']
KSP_ID = ID['keystore-provider-id']
ENC = {'bsdiff': bid('bsdiff'), 'bsdiff-lzma': bid('bsdiff-lzma'),
       'bsdiff-no-comp': bid('bsdiff-no-comp'),
       'remove-data': bid('remove-data')}
DEC = {'bspatch': bid('bspatch'), 'bspatch-lzma': bid('bspatch-lzma'),
       'bspatch-no-comp': bid('bspatch-no-comp'),
       'merkle-generate': bid('merkle-generate')}


def padlen(n, a=ALIGN):
    return (-n) % a


class Meta:
    __slots__ = ('id', 'size', 'offset', 'ref', 'pad')

    def __init__(self, id=0, size=0, offset=0, ref=0, pad=b'\0' * 4):
        self.id, self.size, self.offset, self.ref, self.pad = id, size, offset, ref, pad

    def pack(self):
        return struct.pack('<IHHI4s', self.id, self.size, self.offset, self.ref, self.pad)


class Part:
    __slots__ = ('id', 'size', 'offset', 'tsize', 'padb', 'flags', 'rest')

    def __init__(self, id=0, size=0, offset=0, tsize=0, padb=0, flags=0, rest=b'\0'):
        (self.id, self.size, self.offset, self.tsize, self.padb, self.flags,
         self.rest) = id, size, offset, tsize, padb, flags, rest

    def pack(self):
        return struct.pack('<IQQQH', self.id, self.size, self.offset, self.tsize,
                           self.padb) + bytes([self.flags]) + self.rest

    def stored(self):
        """bytes the part occupies in the file"""
        return self.tsize if self.flags & F_TRANSPORT else self.size + self.padb

    def key(self):
        return (self.id, self.size, self.offset, self.tsize, self.padb, self.flags)

    def __repr__(self):
        return 'Part(id=%x size=%d off=%d tsize=%d pad=%d flags=%x)' % self.key()


class Hdr:
    """parsed header; unpacks and repacks every byte"""

    def __init__(self, raw=None):
        if raw is None:
            raw = struct.pack('<I', MAGIC) + bytes(HDR - 4)
        assert len(raw) >= HDR
        self.magic, self.pad0 = struct.unpack_from('<I4s', raw, 0)
        self.metas = []
        for i in range(NMETA):
            self.metas.append(Meta(*struct.unpack_from('<IHHI4s', raw, 8 + 16 * i)))
        self.parts = []
        for i in range(NPART):
            o = 520 + 32 * i
            pid, size, off, ts, padb = struct.unpack_from('<IQQQH', raw, o)
            self.parts.append(Part(pid, size, off, ts, padb, raw[o + 30], bytes(raw[o + 31:o + 32])))
        self.metadata = bytearray(raw[META_OFF:META_OFF + META_BYTES])
        o = META_OFF + META_BYTES
        (self.hash_kind, self.sign_kind, self.alignment) = struct.unpack_from('<BBH', raw, o)
        self.payload_hash = bytes(raw[o + 4:o + 68])
        self.key_id, self.keystore_id = struct.unpack_from('<II', raw, o + 68)
        self.pad1 = bytes(raw[o + 76:o + 118])
        self.signature = bytes(raw[o + 118:o + 630])
        self.signature_sz = struct.unpack_from('<H', raw, o + 630)[0]
        assert o + 632 == HDR

    def pack(self):
        out = struct.pack('<I4s', self.magic, self.pad0)
        out += b''.join(m.pack() for m in self.metas)
        out += b''.join(p.pack() for p in self.parts)
        out += bytes(self.metadata)
        out += struct.pack('<BBH', self.hash_kind, self.sign_kind, self.alignment)
        out += self.payload_hash.ljust(64, b'\0')
        out += struct.pack('<II', self.key_id, self.keystore_id)
        out += self.pad1
        out += self.signature.ljust(512, b'\0')[:512]
        out += struct.pack('<H', self.signature_sz)
        assert len(out) == HDR, len(out)
        return out

    def meta_list(self):
        """(id, ref) -> value bytes, in table order"""
        return [((m.id, m.ref), bytes(self.metadata[m.offset:m.offset + m.size]))
                for m in self.metas if m.id]

    def meta_dict(self):
        return dict(self.meta_list())

    def part_list(self):
        return [p for p in self.parts if p.id]

    def part(self, pid):
        for p in self.parts:
            if p.id == pid:
                return p
        return None

    def get(self, mid, ref=0):
        for (k, v) in self.meta_list():
            if k == (mid, ref):
                return v
        return None

    def valid(self):
        """the validity rules of the format"""
        if self.magic != MAGIC:
            return False
        for m in self.metas:
            if m.id and m.size + m.offset > META_BYTES:
                return False
        for p in self.parts:
            if p.id and (p.size + p.padb) % ALIGN:
                return False
        return self.hash_kind in (1, 2, 3)

    # builders -------------------------------------------------------------
    def add_meta(self, mid, ref, data):
        end = 0
        slot = None
        for m in self.metas:
            if m.id:
                end = max(end, (m.offset + m.size + 7) & ~7)
            elif slot is None:
                slot = m
        assert slot is not None and end + len(data) <= META_BYTES
        slot.id, slot.ref, slot.size, slot.offset = mid, ref, len(data), end
        self.metadata[end:end + len(data)] = data

    def add_part(self, pid, size, flags=0, offset=None):
        off = HDR
        slot = None
        for p in self.parts:
            if p.id:
                off += p.stored()
            elif slot is None:
                slot = p
        slot.id, slot.size, slot.padb, slot.flags = pid, size, padlen(size), flags
        slot.offset = off if offset is None else offset
        slot.tsize = 0
        return slot


def positions(h):
    """file position of each part of the header's table, in order"""
    pos = HDR
    out = []
    for p in h.part_list():
        out.append((p, pos))
        pos += p.stored()
    return out, pos


def payload_hash(h, blob):
    d = HASHES[h.hash_kind]()
    pl, _ = positions(h)
    for p, pos in pl:
        if p.flags & F_EXCLUDE:
            continue
        d.update(blob[pos:pos + p.stored()])
    return d.digest()


def package_hash(h_or_raw):
    raw = h_or_raw.pack() if isinstance(h_or_raw, Hdr) else bytes(h_or_raw[:HDR])
    kind = raw[META_OFF + META_BYTES]
    return HASHES[kind](raw[:HDR - 514] + bytes(514)).digest()


class Archive:
    """model of an archive: header plus part contents; builds the bytes"""

    def __init__(self, hash_kind=1, sign_kind=2):
        self.h = Hdr()
        self.h.hash_kind, self.h.sign_kind = hash_kind, sign_kind
        self.h.alignment = ALIGN
        self.data = []      # stored bytes per part, padded

    def meta(self, mid, data, ref=0):
        self.h.add_meta(bid(mid) if isinstance(mid, str) else mid, ref, data)
        return self

    def add(self, name, data, flags=0):
        pid = bid(name) if isinstance(name, str) else name
        self.h.add_part(pid, len(data), flags)
        self.data.append(bytes(data) + bytes(padlen(len(data))))
        return self

    def add_merkle(self, name, data, salt=b'\x5a' * 32, flags=F_EXCLUDE, tflags=None):
        pid = bid(name) if isinstance(name, str) else name
        tree, root = merkle_tree(data, salt)
        self.add(pid, data, flags)
        self.meta(SALT_ID, salt, pid)
        self.meta(ROOT_ID, root, pid)
        self.add(tree_id(pid), tree, flags if tflags is None else tflags)
        return self

    def transport(self, name, enc, dec):
        pid = bid(name) if isinstance(name, str) else name
        e = enc if isinstance(enc, int) else bid(enc)
        d = dec if isinstance(dec, int) else bid(dec)
        self.meta(T_ID, struct.pack('<II24x', e, d), pid)
        return self

    def finish(self):
        blob = self.h.pack() + b''.join(self.data)
        self.h.payload_hash = payload_hash(self.h, blob).ljust(64, b'\0')
        return self

    def bytes(self):
        return self.h.pack() + b''.join(self.data)

    def set_signature(self, sig):
        self.h.signature = sig.ljust(512, b'\0')
        self.h.signature_sz = len(sig)
        return self


# ---- merkle ------------------------------------------------------------------
BLK = 4096


def merkle_levels(n):
    """bytes of each level, level 0 (closest to the data) first"""
    lv = []
    while True:
        blocks = n // BLK
        n = -(-(blocks * 32) // BLK) * BLK
        lv.append(n)
        if n == BLK:
            return lv


def merkle_tree(data, salt):
    """returns (tree, root)"""
    assert len(data) % BLK == 0 and data
    if len(data) == BLK:
        h = hashlib.sha256(salt + data).digest()
        return h + bytes(BLK - 32), h
    cur = data
    levels = []
    while len(cur) > BLK:
        nxt = b''.join(hashlib.sha256(salt + cur[i:i + BLK]).digest()
                       for i in range(0, len(cur), BLK))
        nxt += bytes(-len(nxt) % BLK)
        levels.append(nxt)
        cur = nxt
    root = hashlib.sha256(salt + cur).digest()
    return b''.join(reversed(levels)), root


# ---- binary patch --------------------------------------------------------------
class PatchError(Exception):
    pass


def sm64(b):
    v = struct.unpack('<Q', b)[0]
    return -(v & (1 << 63) - 1) if v >> 63 else v


def pack_sm64(v):
    return struct.pack('<Q', v if v >= 0 else (-v) | (1 << 63))


def apply_patch(origin, patch):
    """strict application of an uncompressed patch"""
    out = bytearray()
    pos = 0
    opos = 0
    n = len(patch)
    while pos < n:
        if pos + 24 > n:
            raise PatchError('short control block')
        diff, extra, adj = (sm64(patch[pos + 8 * i:pos + 8 * i + 8]) for i in range(3))
        pos += 24
        if diff < 0 or extra < 0:
            raise PatchError('negative length')
        if pos + diff + extra > n:
            raise PatchError('short patch')
        if diff:
            if opos < 0 or opos + diff > len(origin):
                raise PatchError('origin range')
            o = origin[opos:opos + diff]
            out += bytes((a + b) & 255 for a, b in zip(o, patch[pos:pos + diff]))
        pos += diff
        opos += diff
        out += patch[pos:pos + extra]
        pos += extra
        opos += adj
    return bytes(out)


def make_patch(blocks):
    """blocks: (diff bytes, extra bytes, adjust)"""
    o = b''
    for d, e, a in blocks:
        o += pack_sm64(len(d)) + pack_sm64(len(e)) + pack_sm64(a) + d + e
    return o


def hs_decode(data, w=8, l=7, limit=1 << 26):
    """heatshrink decoder"""
    out = bytearray()
    nbits = len(data) * 8
    v = int.from_bytes(data, 'big')
    pos = 0
    # work in windows to keep the big int operations cheap
    CH = 4096
    buf = 0
    have = 0
    idx = 0
    n = len(data)

    def need(k):
        nonlocal buf, have, idx
        while have < k:
            if idx >= n:
                return False
            buf = ((buf << 8) | data[idx]) & 0xffffffff
            idx += 1
            have += 8
        return True

    def take(k):
        nonlocal have
        have -= k
        return (buf >> have) & ((1 << k) - 1)

    while len(out) < limit:
        if not need(1):
            break
        if take(1):
            if not need(8):
                break
            out.append(take(8))
        else:
            if not need(w):
                break
            idx_back = take(w) + 1
            if not need(l):
                break
            cnt = take(l) + 1
            for _ in range(cnt):
                out.append(out[-idx_back] if idx_back <= len(out) else 0)
    return bytes(out)


def hs_encode(data, w=8, l=7):
    """heatshrink encoder: literals and greedy back references"""
    bits = []
    i = 0
    n = len(data)
    win = 1 << w
    mx = 1 << l
    while i < n:
        best = 0
        bd = 0
        if n - i >= 3:
            key = data[i:i + 3]
            lo = max(0, i - win)
            j = data.rfind(key, lo, i + 2)
            tries = 0
            while j != -1 and j >= lo and tries < 4:
                if j < i:
                    k = 3
                    while k < mx and i + k < n and data[j + k] == data[i + k]:
                        k += 1
                    if k > best:
                        best, bd = k, i - j
                tries += 1
                j = data.rfind(key, lo, j + 2) if j > lo else -1
        if best >= 3:
            bits.append('0' + format(bd - 1, '0%db' % w) + format(best - 1, '0%db' % l))
            i += best
        else:
            bits.append('1' + format(data[i], '08b'))
            i += 1
    s = ''.join(bits)
    s += '0' * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, 'big') if s else b''


def lz_encode(data):
    return lzma.compress(data, format=lzma.FORMAT_XZ, check=lzma.CHECK_CRC64,
                         filters=[{'id': lzma.FILTER_X86},
                                  {'id': lzma.FILTER_LZMA2, 'preset': 6}])


def lz_decode(data):
    d = lzma.LZMADecompressor(format=lzma.FORMAT_XZ)
    out = d.decompress(data)
    if not d.eof:
        raise PatchError('truncated lzma stream')
    return out


COMP = {'none': 0, 'hs': 1, 'lzma': 2}


def decompress(data, how):
    if how == 'none':
        return data
    if how == 'lzma':
        return lz_decode(data)
    return hs_decode(data)


def compress(data, how):
    if how == 'none':
        return data
    if how == 'lzma':
        return lz_encode(data)
    return hs_encode(data)


# ---- text notation -------------------------------------------------------------
def uuid_text(b):
    h = b.hex()
    return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def meta_text(mid, v):
    """documented notation of a metadata value; None: not renderable"""
    if mid in (ID['bpak-key-id'], ID['bpak-key-store']):
        return '%x' % struct.unpack_from('<I', v)[0] if len(v) >= 4 else None
    if mid == KSP_ID:
        return '0x%x' % struct.unpack_from('<I', v)[0] if len(v) >= 4 else None
    if mid == PKG_ID:
        return uuid_text(v[:16]) if len(v) >= 16 else None
    if mid == T_ID:
        return ('Encode: %8.8x, Decode: %8.8x'.replace('8.8', '08') %
                struct.unpack_from('<II', v)) if len(v) >= 8 else None
    if mid in (SALT_ID, ROOT_ID):
        return v[:32].hex() if len(v) >= 32 else None
    if mid == ID['pb-load-addr']:
        return 'Entry: 0x%08X' % struct.unpack_from('<Q', v)[0] if len(v) >= 8 else None
    if mid == ID['bpak-version']:
        return v.split(b'\0')[0].decode('latin1')
    return ''
