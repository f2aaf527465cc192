"""C08: the metadata and part tables behave as exact tables for every history."""
import ctypes as C
import struct

from vlib import clib, fmt

PROPERTY = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('lock-step monitor: every table operation of the real library is compared with a '
             'dictionary model after each step, under ASan/UBSan')
LEVEL_NOTE = ('Random histories (up to 260 steps each, biased to full tables, exhausted metadata '
              'space, colliding keys and 16-bit sizes); the complete 4096-byte header is compared '
              'after every step. Sampled, not exhaustive.')
BUILD = {'asan': ['lib']}
PRELOAD = 'asan'
RULE = ('A case is a random history of add/get/delete operations on one header. Every step is a '
        'judged execution; distinct and non-trivial: by (operation, outcome, table state digest).')
REQUIRED = {'refused: exists': 50, 'refused: no space': 50, 'refused: table full': 20,
            'meta deleted': 200, 'part deleted': 100, 'meta added': 500, 'parts added': 300}
ASSUMPTIONS = ['histories start from bpak_init_header']


def cases(tier):
    return 320 if tier == 'quick' else 6000


class Model:
    def __init__(self):
        self.metas = []     # [id, ref, bytes]
        self.parts = []     # [id, size, offset, tsize, padb, flags]
        self.key_id = self.keystore_id = 0

    def find(self, mid, ref):
        for k, m in enumerate(self.metas):
            if m[0] == mid and m[1] == ref:
                return k
        return None


def compare(cx, hb, M, base, what):
    raw = hb.get()
    h = fmt.Hdr(raw)
    got = [[m.id, m.ref, bytes(h.metadata[m.offset:m.offset + m.size])] for m in h.metas if m.id]
    if got != M.metas:
        cx.violation('meta-table', '%s: expected %s got %s' % (what, brief(M.metas), brief(got)))
        return False
    used = bytearray(fmt.META_BYTES)
    seen_empty = False
    for m in h.metas:
        if not m.id:
            seen_empty = True
            if m.size or m.offset or m.ref or any(m.pad):
                cx.violation('meta-entry-trace', '%s: unused entry keeps %r' % (what, m.pack()))
                return False
            continue
        if seen_empty:
            cx.violation('meta-hole', '%s: used entry behind an unused one' % what)
            return False
        if m.offset + m.size > fmt.META_BYTES:
            cx.violation('meta-range', '%s: %d+%d' % (what, m.offset, m.size))
            return False
        for k in range(m.offset, m.offset + m.size):
            if used[k]:
                cx.violation('meta-overlap', what)
                return False
            used[k] = 1
    for k in range(fmt.META_BYTES):
        if not used[k] and h.metadata[k]:
            cx.violation('meta-residue', '%s: byte %d of the metadata area is %02x but unused' %
                         (what, k, h.metadata[k]))
            return False
    gp = [list(p.key()) for p in h.parts if p.id]
    if gp != M.parts:
        cx.violation('part-table', '%s: expected %s got %s' % (what, M.parts, gp))
        return False
    k = len(gp)
    if any(any(p.pack()) for p in h.parts[k:]):
        cx.violation('part-entry-trace', '%s: unused part entries are not clear' % what)
        return False
    if (h.key_id, h.keystore_id) != (M.key_id, M.keystore_id):
        cx.violation('identity-fields', what)
        return False
    if raw[:8] != base[:8] or raw[fmt.META_OFF + fmt.META_BYTES:][:68] != \
            base[fmt.META_OFF + fmt.META_BYTES:][:68] or raw[-556:] != base[-556:]:
        cx.violation('other-fields', '%s: a field outside of the tables changed' % what)
        return False
    return True


def brief(ms):
    return [(hex(a), hex(b), len(c), c[:6].hex()) for a, b, c in ms][:40]


def run_case(cx, i, rng):
    L = clib.load(cx)
    hb = clib.Buf(fmt.HDR)
    hb.set(rng.randbytes(fmt.HDR))
    L.init_header(hb.p)
    base = hb.get()
    h0 = fmt.Hdr(base)
    if not (h0.magic == fmt.MAGIC and h0.hash_kind == 1 and h0.sign_kind == 2 and
            h0.alignment == 512 and base == fmt.Archive().h.pack()):
        cx.violation('init-header', 'initialised header has unexpected contents')
        return
    M = Model()
    steps = rng.choice([20, 60, 120, 260])
    style = rng.choice(['small', 'mixed', 'fill', 'zero', 'churn', 'parts', 'few'])
    ids = [rng.choice([1, 2, 0xffffffff, rng.getrandbits(32) | 1]) for _ in range(3)] + \
          [rng.getrandbits(32) | 1 for _ in range(3 if style == 'few' else
                                                  120 if style == 'parts' else 40)]
    ids = list(dict.fromkeys(ids))
    refs = [0, 0, ids[0], ids[1], rng.getrandbits(32), 0xffffffff]
    out = clib.Buf(8)

    def ptr():
        return struct.unpack('<Q', out.get())[0]

    for st in range(steps):
        before = hb.get()
        r = rng.random()
        hist = 'step %d' % st
        mark = None
        if style == 'parts':
            r = 0.62 + r * 0.33
            # up to the full table and down from there, again and again
            if len(M.parts) >= fmt.NPART - 1 and rng.random() < .6:
                r = 0.77
            elif len(M.parts) < fmt.NPART and rng.random() < .5:
                r = 0.7
        elif style in ('zero', 'small') and len(M.metas) >= fmt.NMETA - 1 and rng.random() < .4:
            r = 0.5
        if r < (0.45 if style != 'churn' else 0.33):
            mid = rng.choice(ids) if rng.random() < 0.97 else 0
            ref = rng.choice(refs)
            used = 0
            for m in M.metas:
                used = (used + len(m[2]) + 7) & ~7
            left = fmt.META_BYTES - used
            size = {'small': rng.randint(0, 12), 'mixed': rng.randint(0, 200),
                    'fill': rng.choice([left, left + 1, max(left - 1, 0), left // 2, 8, 65535,
                                        65536 - used if used else 1921, rng.randint(0, 64)]),
                    'zero': 0, 'churn': rng.randint(1, 90), 'parts': rng.randint(0, 30),
                    'few': rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 255, 256, 257, 600])}[style]
            size = max(0, min(size, 65535))
            what = '%s add_meta(%x, ref %x, %d)' % (hist, mid, ref, size)
            out.set(bytes(8))
            transport = size == 32 and rng.random() < .5
            if rng.random() < 0.05:
                transport, size = True, 32
            if transport:
                mid = fmt.T_ID
                e, d = rng.getrandbits(32), rng.getrandbits(32)
                rc = L.add_transport_meta(hb.p, ref, e, d)
                what = '%s add_transport_meta(%x)' % (hist, ref)
                data = struct.pack('<II24x', e, d)
            else:
                rc = L.add_meta(hb.p, mid, ref, size, out.p)
            dup = M.find(mid, ref) is not None
            fits = used + size <= fmt.META_BYTES
            if mid == 0:
                exp = 'zero id'
            elif dup:
                exp = 'exists'
            elif len(M.metas) >= fmt.NMETA:
                exp = 'table full'
            elif not fits:
                exp = 'no space'
            else:
                exp = None
            if exp:
                cx.count('refused: ' + exp)
                cx.check_that(rc != 0, 'accepted:' + exp, what)
                if not cx.check_that(hb.get() == before, 'refused-but-changed:' + exp, what):
                    return
                mark = ('r', exp)
            else:
                if rc:
                    cx.violation('refused:valid-add', '%s rc=%d used=%d' % (what, rc, used))
                    return
                if not transport:
                    p = ptr()
                    off = p - hb.p - 8
                    if not cx.check_that(off % 16 == 0 and 0 <= off < 512, 'meta-pointer', what):
                        return
                    m = fmt.Meta(*struct.unpack('<IHHI4s', hb.get(16, 8 + off)))
                    if (m.id, m.ref, m.size) != (mid, ref, size) or m.offset + size > 1920:
                        cx.violation('meta-pointer', '%s -> %r' % (what, m.pack()))
                        return
                    z = hb.get(size, fmt.META_OFF + m.offset) if size else b''
                    cx.check_that(not any(z), 'new-meta-not-clear', what)
                    data = bytes(rng.randrange(1, 256) for _ in range(size))
                    hb.set(data, fmt.META_OFF + m.offset)
                M.metas.append([mid, ref, data])
                cx.count('meta added')
                mark = ('a', size, len(M.metas))
        elif r < 0.62:
            if M.metas and rng.random() < 0.95:
                k = rng.choice([rng.randrange(len(M.metas))] * 2 + [0, len(M.metas) - 1])
                if len(M.metas) == fmt.NMETA:
                    cx.count('meta deleted from a full table')
                mid, ref, _ = M.metas[k]
                rc = L.get_meta(hb.p, mid, ref, out.p)
                if not cx.check_that(rc == 0, 'lookup-fails', '%s get_meta(%x,%x)' % (hist, mid, ref)):
                    return
                what = '%s del_meta(%d of %d, %d bytes)' % (hist, k, len(M.metas),
                                                            len(M.metas[k][2]))
                L.del_meta(hb.p, ptr())
                del M.metas[k]
                cx.count('meta deleted')
                mark = ('d', k, len(M.metas))
            else:
                continue
        elif r < 0.74:
            pid = rng.choice(ids) if rng.random() < 0.97 else 0
            what = '%s add_part(%x)' % (hist, pid)
            out.set(bytes(8))
            rc = L.add_part(hb.p, pid, out.p)
            dup = any(p[0] == pid for p in M.parts)
            exp = 'zero id' if not pid else 'exists' if dup else \
                'table full' if len(M.parts) >= fmt.NPART else None
            if exp:
                cx.count('refused: ' + exp)
                cx.check_that(rc != 0,
                              'part-accepted:' + exp, '%s rc=%d' % (what, rc))
                if not cx.check_that(hb.get() == before, 'refused-but-changed:part', what):
                    return
                mark = ('pr', exp)
            else:
                if not cx.check_that(rc == 0, 'refused:valid-part', '%s rc=%d' % (what, rc)):
                    return
                off = ptr() - hb.p - 520
                if not cx.check_that(off % 32 == 0 and 0 <= off < 1024 and
                                     hb.get(4, 520 + off) == struct.pack('<I', pid) and
                                     not any(hb.get(28, 524 + off)), 'part-pointer', what):
                    return
                size = rng.choice([0, 1, 511, 512, 513, rng.randint(0, 1 << 40)])
                e = [pid, size, rng.randint(0, 1 << 41), rng.choice([0, rng.randint(0, 1 << 40)]),
                     fmt.padlen(size), rng.choice([0, 1, 2, 3])]
                hb.set(fmt.Part(*e).pack(), 520 + off)
                M.parts.append(e)
                cx.count('parts added')
                mark = ('pa', len(M.parts))
        elif r < 0.80:
            if not M.parts:
                continue
            k = rng.choice([rng.randrange(len(M.parts)), 0, len(M.parts) - 1])
            if len(M.parts) == fmt.NPART:
                cx.count('part deleted from a full table')
            what = '%s del_part(%d of %d)' % (hist, k, len(M.parts))
            rc = L.get_part(hb.p, M.parts[k][0], out.p)
            if not cx.check_that(rc == 0, 'part-lookup-fails', what):
                return
            L.del_part(hb.p, ptr())
            del M.parts[k]
            cx.count('part deleted')
            mark = ('pd', k, len(M.parts))
        elif r < 0.95:
            # lookups
            what = hist + ' lookups'
            for mid in rng.sample(ids, min(len(ids), 4)) + [0]:
                for ref in refs[:4]:
                    rc = L.get_meta(hb.p, mid, ref, out.p)
                    k = M.find(mid, ref)
                    if k is None:
                        cx.check_that(rc != 0, 'lookup-invents', 'get_meta(%x,%x)' % (mid, ref))
                    else:
                        q = (ptr() - hb.p - 8) // 16
                        cx.check_that(rc == 0 and q == k, 'lookup-wrong',
                                      'get_meta(%x,%x) entry %d' % (mid, ref, q))
                rc = L.get_meta_anyref(hb.p, mid, out.p)
                k = [x for x, m in enumerate(M.metas) if m[0] == mid]
                if not k:
                    cx.check_that(rc != 0, 'anyref-invents', '%x' % mid)
                else:
                    cx.check_that(rc == 0 and (ptr() - hb.p - 8) // 16 in k, 'anyref-wrong',
                                  '%x' % mid)
                rc = L.get_part(hb.p, mid, out.p)
                k = next((x for x, m in enumerate(M.parts) if m[0] == mid), None)
                if k is None:
                    cx.check_that(rc != 0, 'part-invents', '%x' % mid)
                else:
                    cx.check_that(rc == 0 and (ptr() - hb.p - 520) // 32 == k, 'part-wrong',
                                  '%x' % mid)
            pos = fmt.HDR
            for k, p in enumerate(M.parts):
                pp = L.sh_part_at(hb.p, k)
                fp = fmt.Part(*p)
                cx.check_that(L.part_offset(hb.p, pp) == pos, 'part-offset', '%r' % fp)
                cx.check_that(L.part_size(pp) == fp.stored(), 'part-size', '%r' % fp)
                cx.check_that(L.part_size_wo_pad(pp) == (fp.tsize if fp.flags & 2 else fp.size),
                              'part-size-wo-pad', '%r' % fp)
                pos += fp.stored()
            cx.check_that(hb.get() == before, 'lookup-changes-header', what)
            cx.count('lookups', 20)
            mark = ('l', len(M.metas), len(M.parts))
        else:
            v = rng.getrandbits(32)
            what = '%s set ids %x' % (hist, v)
            if rng.random() < .5:
                rc = L.set_key_id(hb.p, v)
                M.key_id = v
            else:
                rc = L.set_keystore_id(hb.p, v)
                M.keystore_id = v
            cx.check_that(rc == 0, 'set-id', what)
            mark = ('s',)
        cx.check_that(L.valid_header(hb.p) == 0, 'header-not-valid', what)
        cx.eval((mark, fmt.crc(hb.get()[:600])))
        if not compare(cx, hb, M, base, what):
            return
    cx.sample('%s history of %d steps ended with %d metas and %d parts' %
              (style, steps, len(M.metas), len(M.parts)))
