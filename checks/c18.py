"""C18: the Python bindings equal the model of the format and are safe."""
import ctypes as C
import gc
import hashlib
import os
import struct
import sys
import uuid

from vlib import core, fmt, gen, huge, pk
from checks import c07

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('online model monitor inside the interpreter: random histories of binding calls, the '
             'file and every readable value are compared with a model after each call; heap, '
             'reference and descriptor accounting over repeated calls; ASan/UBSan')
LEVEL_NOTE = ('Random histories with valid, refused and wrong-typed calls on open, read-only, '
              'closed and re-opened packages. Trusts vlib/fmt.py, vlib/pk.py.')
BUILD = {'asan': ['py']}
PRELOAD = 'asan'
RULE = ('One judged execution per binding call: result or exception, file bytes and all readable '
        'values. Distinct: by resulting archive, call and outcome.')
REQUIRED = {'calls': 6000, 'accepted': 2500, 'refused': 1500, 'wrong types': 1000,
            'read-only refusals': 250, 'changed sources accepted': 60,
            'changed sources refused': 150, 'clashing references': 15, 'closed calls': 500, 'stale handles': 150, 'op add_file': 200,
            'op merkle': 60, 'op add_key': 40, 'op add_meta': 300, 'op part.delete': 80,
            'op meta.delete': 80, 'op set id': 100, 'op raw_data': 60, 'op header field': 150,
            'op sign': 60, 'op signature': 60, 'verifications': 60, 'leak loops': 200,
            'transports': 40, 'log callbacks': 20, 'reopened': 150, 'huge archive op': 30}
ASSUMPTIONS = ['identifiers passed to calls are 32 bit values; larger ones must only not crash',
               'a log callback does not close or change the package that is being used',
               'modes r, r+, w+ (and binary variants)']


def cases(tier):
    return 200 if tier == 'quick' else 3000


def module(cx):
    m = cx.state.get('bpak')
    if m is None:
        p = os.path.dirname(cx.builds['asan']['py'])
        if p not in sys.path:
            sys.path.insert(0, p)
        import bpak as m
        cx.state['bpak'] = m
        cx.state['san'] = C.CDLL(None).__sanitizer_get_current_allocated_bytes
        cx.state['san'].restype = C.c_size_t
    return m


class Drv:
    """one archive, its model and the package object that works on it"""

    def __init__(self, cx, rng, d, i):
        self.cx, self.rng, self.d = cx, rng, d
        self.B = module(cx)
        self.keys = gen.keys(cx)
        self.path = os.path.join(d, 'a.bpak')
        self.names = {}
        self.log = []
        self.stale = False          # payload hash not renewed after a change of the hash kind
        self.tail = False           # hash kind was changed: bytes after the digest are open
        self.mode = 'r+'
        if i % 4 == 0:
            if rng.random() < .5:
                gen.put(d, 'a.bpak', rng.randbytes(rng.choice([10, 9000])))
            self.M = c07.Model(fmt.Archive().finish())
            self.mode = 'w+'
        else:
            s = gen.spec(rng, maxparts=4, big=4000, empty=True)
            a = gen.model(s, rng=rng)
            self.M = c07.Model(a)
            if i % 4 == 1 and len(a.h.part_list()) > 0:
                k = rng.randrange(len(a.h.part_list()))
                p = a.h.part_list()[k]
                p.flags |= fmt.F_TRANSPORT
                a.data[k] = rng.randbytes(rng.choice([0, 1, 511, 700]))
                p.tsize = len(a.data[k])
                at = fmt.HDR
                for p in a.h.part_list():
                    p.offset = at
                    at += p.stored()
                a.finish()
                self.M = c07.Model(a)
            gen.put(d, 'a.bpak', a.bytes())
            for x in s.parts:
                self.names[fmt.bid(x.name)] = x.name
        self.raw = None
        self.p = None
        self.parts, self.metas = [], []     # handles: [object, id] and [object, id, ref]

    def open(self, mode=None):
        self.mode = mode or self.mode
        self.p = self.B.Package(self.path, self.mode)
        if self.mode.startswith('w'):
            self.mode = 'r+'
        self.judge('open')

    def close(self):
        self.p.close()
        self.p = None

    # -- oracles
    def build(self):
        hk = self.M.h.hash_kind
        if hk in fmt.HASHES:
            return self.M.build()
        self.M.h.hash_kind = 1
        a = self.M.build()
        self.M.h.hash_kind = a.h.hash_kind = hk
        return a

    def judge(self, what):
        """file and readable values after an accepted call"""
        cx = self.cx
        raw = gen.read(self.path)
        a = self.build()
        h = fmt.Hdr(raw)
        n = len(fmt.HASHES[h.hash_kind](b'').digest()) if h.hash_kind in fmt.HASHES else 0
        fresh = h.payload_hash[:n] == a.h.payload_hash[:n] and (
            self.tail or h.payload_hash == a.h.payload_hash)
        if self.stale and not fresh:
            # as it was, or renewed by a look at the digest between two changes of the kind
            fresh = self.raw is not None and h.payload_hash == fmt.Hdr(self.raw).payload_hash
            kind = self.M.h.hash_kind
            for k in fmt.HASHES:
                self.M.h.hash_kind = k
                n = len(fmt.HASHES[k](b'').digest())
                fresh = fresh or h.payload_hash[:n] == self.M.build().h.payload_hash[:n]
            self.M.h.hash_kind = kind
        cx.check_that(fresh, 'payload-hash:' + what, lambda: '%s %s' % (h.payload_hash.hex(),
                                                                       self.log[-4:]))
        a.h.payload_hash = h.payload_hash
        want = a.bytes()
        if raw != want:
            k = next((k for k in range(min(len(raw), len(want))) if raw[k] != want[k]),
                     min(len(raw), len(want)))
            cx.violation('file-differs:' + what, 'at %d (sizes %d, model %d)\n%s' % (
                k, len(raw), len(want), self.log[-6:]))
        self.raw = raw
        self.values(what)
        cx.eval((hashlib.sha1(raw).digest(), what))

    def values(self, what):
        if self.p is not None:
            got = state(self.p)
            want = expected(gen.read(self.path))
            self.cx.check_that(got == want, 'reported-values:' + what,
                               lambda: '%s\ngot  %r\nfile %r' % (self.log[-5:], got, want))

    def refuse(self, what, fn, types=Exception):
        """the call must raise and change nothing"""
        cx = self.cx
        before = gen.read(self.path)
        st = state(self.p) if self.p is not None else None
        self.log.append('!' + what)
        cx.count('calls')
        try:
            r = fn()
        except SystemError as e:
            # "returned a result with an exception set", "returned NULL without ..."
            cx.violation('broken-call-protocol:' + what, '%r %s' % (e, self.log[-4:]))
            ok = True
        except types as e:
            ok = True
            cx.count('refused')
        except Exception as e:
            cx.violation('wrong-exception:' + what, '%r %s' % (e, self.log[-4:]))
            ok = True
        else:
            cx.violation('not-refused:' + what, '%r %s' % (r, self.log[-4:]))
            ok = False
        cx.check_that(gen.read(self.path) == before, 'refused-call-changed-file:' + what,
                      lambda: '%s' % self.log[-4:])
        if st is not None:
            now = state(self.p)
            cx.check_that(now == st, 'refused-call-changed-values:' + what,
                          lambda: '%s\nwas %r\nis  %r' % (self.log[-4:], st, now))
        cx.eval((hashlib.sha1(before).digest(), '!' + what))
        return ok

    def accept(self, what, fn):
        self.cx.count('calls')
        self.log.append(what)
        try:
            r = fn()
        except Exception as e:
            raise core.Violation('refused:' + what.split(' ')[0], '%r %s' % (e, self.log[-5:]))
        self.cx.count('accepted')
        return r


def state(p):
    """everything a package reports"""
    return (p.size, p.installed_size, p.hash_kind, p.signature_kind, p.key_id, p.keystore_id,
            p.signature, [(x.id, x.size, x.offset, x.is_transport_encoded) for x in p.parts],
            [(m.id, m.part_id_ref, m.size, m.raw_data) for m in p.meta])


def expected(raw):
    h = fmt.Hdr(raw)
    pos, end = fmt.positions(h)
    return (end, sum(p.size + p.padb for p in h.part_list()), h.hash_kind, h.sign_kind,
            h.key_id, h.keystore_id, h.signature[:h.signature_sz],
            [(p.id, p.stored(), at, bool(p.flags & fmt.F_TRANSPORT)) for p, at in pos],
            [(k[0], k[1], len(v), v) for k, v in h.meta_list()])


# ------------------------------------------------------------------ operations
def op_add(D):
    cx, rng, M = D.cx, D.rng, D.M
    name = gen.uniq(rng, set(), ['q%d' % rng.randrange(10 ** 6), 'k', 'fs', 'Äpart'])
    pid = fmt.bid(name)
    kind = rng.choice(['file', 'file', 'file', 'key', 'merkle'])
    src = os.path.join(D.d, 'src.bin')
    free = fmt.NPART - len(M.parts)
    if rng.random() < .2:
        # refused
        k = rng.randrange(5)
        if k == 0 and M.parts and D.names:
            have = [n for i_, n in D.names.items() if i_ in M.ids()]
            if have:
                n = rng.choice(have)
                gen.put(D.d, 'src.bin', bytes(4096))
                return D.refuse('add existing', lambda: D.p.add_file(n, src, rng.random() < .3))
        if k == 1:
            return D.refuse('add missing', lambda: D.p.add_file(name, D.d + '/none'))
        if k == 2:
            return D.refuse('add directory', lambda: D.p.add_file(name, D.d))
        if k == 3:
            gen.put(D.d, 'src.bin', rng.randbytes(90))
            return D.refuse('add bad key', lambda: D.p.add_key(name, src))
        gen.put(D.d, 'src.bin', rng.randbytes(rng.choice([0, 4095, 4097, 100])))
        return D.refuse('add unaligned merkle', lambda: D.p.add_file(name, src, True))
    if pid in M.ids() or fmt.tree_id(pid) in M.ids() or M.h.hash_kind not in fmt.HASHES:
        return
    if kind == 'merkle' and (free < 2 or M.space() < 64 or len(M.metas) > 30 or any(
            m[0][1] == pid for m in M.metas)) or free < 1:
        if kind == 'merkle' and free >= 2 and any(m[0][1] == pid for m in M.metas):
            return
        gen.put(D.d, 'src.bin', bytes(4096))
        return D.refuse('add to full', lambda: D.p.add_file(name, src, kind == 'merkle'))
    if kind == 'key':
        k = D.keys[rng.choice(sorted(D.keys))]
        f = rng.choice(k.pubs)
        r = D.accept('add_key ' + name, lambda: D.p.add_key(name, f))
        data = k.der
        cx.count('op add_key')
    elif kind == 'file':
        data = gen.content(rng, c07.size(rng, 'quick') % 9000)
        gen.put(D.d, 'src.bin', data)
        f = src if rng.random() < .8 else src.encode()
        r = D.accept('add_file %s %d' % (name, len(data)), lambda: rng.choice([
            lambda: D.p.add_file(name, f), lambda: D.p.add_file(part_name=name, filename=f),
            lambda: D.p.add_file(name, f, False)])())
        cx.count('op add_file')
    else:
        data = gen.content(rng, 4096 * rng.choice([1, 1, 2, 3, 129]))
        gen.put(D.d, 'src.bin', data)
        r = D.accept('add_file merkle %s' % name, lambda: D.p.add_file(
            name, src, with_merkle_tree=rng.choice([True, 1, 'x'])))
        c07.absorb_salt(M, gen.read(D.path), name, data, 0, cx)
        cx.count('op merkle')
    if kind != 'merkle':
        M.parts.append([pid, len(data), 0, 0, data + bytes(fmt.padlen(len(data)))])
    D.names[pid] = name
    D.stale = False
    cx.check_that(r.id == pid and type(r) is D.B.Part, 'returned-part', '%x %x' % (r.id, pid))
    cx.check_that(r.read_data() == data, 'read-data', name)
    D.parts.append([r, pid])
    D.judge('add ' + kind)


def op_meta(D):
    cx, rng, M = D.cx, D.rng, D.M
    mid = rng.choice([fmt.bid('m%d' % rng.randrange(40)), rng.getrandbits(32) | 1, 1, 0xffffffff])
    ref = rng.choice([0, 0, rng.getrandbits(32)] + M.ids())
    have = dict(M.metas)
    n = rng.choice([0, 1, 3, 7, 8, 9, 16, 32, 100, 500]) if rng.random() < .9 else \
        max(0, M.space() - rng.choice([0, 1, 8]))
    kind = rng.randrange(5)
    if rng.random() < .15 and have:
        mid, ref = rng.choice(sorted(have))
    elif rng.random() < .4:
        # the same identifier for something else
        mid = rng.choice([i for i, _ in sorted(have) if i not in (fmt.SALT_ID, fmt.ROOT_ID,
                                                                  fmt.PKG_ID, fmt.T_ID)] + [mid])
    if rng.random() < .05:
        n = M.space() + rng.choice([1, 8, 2000, 65535 - M.space(), 70000])
    if rng.random() < .03:
        mid = 0
    data = rng.randbytes(n)
    args, kw = [mid], {}
    if ref or rng.random() < .5:
        args.append(ref)
    if kind == 0:
        kw['size'] = n
        want = bytes(n)
    elif kind == 1:
        text = ''.join(rng.choice('abz09 -~') for _ in range(max(0, n - 1)))
        kw['data'] = text
        want = text.encode() + b'\0'
    elif kind == 2:
        want = data
        kw['data'] = data
    elif kind == 3:
        k = rng.randint(0, n + 20)
        kw['data'] = data
        kw['size'] = k
        want = data[:k] + bytes(max(0, k - n))
    else:
        kw['data'] = data
        kw['size'] = rng.choice([-1, -5])
        want = data
    what = 'add_meta %x %x %d kind %d' % (mid, ref, len(want), kind)
    call = lambda: D.p.add_meta(*args, **kw)
    if mid == 0 or (mid, ref) in have or len(M.metas) >= fmt.NMETA or len(want) > M.space():
        return D.refuse(what.split(' ')[0] + ' refused', call)
    r = D.accept(what, call)
    M.metas.append(((mid, ref), want))
    cx.check_that((r.id, r.part_id_ref, r.size, r.raw_data) == (mid, ref, len(want), want),
                  'returned-meta', '%r %r' % ((r.id, r.part_id_ref, r.size), what))
    D.metas.append([r, mid, ref])
    cx.count('op add_meta')
    D.judge('add_meta')


def pick_part(D):
    M = D.M
    if not M.parts:
        return None
    k = D.rng.randrange(len(M.parts))
    pid = M.parts[k][0]
    old = [h for h in D.parts if h[1] == pid]
    if old and D.rng.random() < .4:
        h = D.rng.choice(old)
    else:
        h = [D.rng.choice([lambda: D.p.get_part(pid), lambda: D.p.parts[k],
                           lambda: D.p.get_part(id=pid)])(), pid]
        D.parts.append(h)
    return k, h


def pick_meta(D):
    M = D.M
    if not M.metas:
        return None
    k = D.rng.randrange(len(M.metas))
    mid, ref = M.metas[k][0]
    old = [h for h in D.metas if (h[1], h[2]) == (mid, ref)]
    if old and D.rng.random() < .4:
        h = D.rng.choice(old)
    else:
        h = [D.rng.choice([lambda: D.p.get_meta(mid, ref), lambda: D.p.meta[k]])(), mid, ref]
        D.metas.append(h)
    return k, h


def op_part(D):
    cx, rng, M = D.cx, D.rng, D.M
    x = pick_part(D)
    if not x:
        return
    k, h = x
    o, pid = h
    row = M.parts[k]
    op = rng.choice(['read', 'delete', 'id', 'id', 'repr'])
    if op == 'read':
        if row[2] & fmt.F_TRANSPORT:
            return
        got = D.accept('read_data', o.read_data)
        cx.check_that(got == row[4][:row[1]], 'read-data', '%d of %d bytes' % (len(got), row[1]))
        cx.eval((got, 'read'))
    elif op == 'delete':
        if M.h.hash_kind not in fmt.HASHES:
            return D.refuse('part.delete hash kind', o.delete)
        D.accept('part.delete', o.delete)
        M.metas = [m for m in M.metas if m[0][1] != pid]
        del M.parts[k]
        cx.count('op part.delete')
        D.stale = False
        D.judge('part.delete')
    elif op == 'id':
        new = rng.choice([rng.getrandbits(32) | 1, pid, 1, 0xffffffff, rng.choice(M.ids()), 0,
                          1 << 32, -1])
        def call():
            o.id = new
        if not 0 < new <= 0xffffffff or (new != pid and new in M.ids()):
            D.refuse('part.id', call)
        else:
            D.accept('part.id', call)
            row[0] = new
            h[1] = new
            if pid in D.names:
                del D.names[pid]
            cx.count('op set id')
            D.judge('part.id')
            cx.check_that(o.id == new, 'id-after-set')
    else:
        t = D.accept('repr', lambda: repr(o))
        cx.check_that('%08x' % pid in t, 'repr', t)


def op_metaobj(D):
    cx, rng, M = D.cx, D.rng, D.M
    x = pick_meta(D)
    if not x:
        return
    k, h = x
    o, mid, ref = h
    v = M.metas[k][1]
    op = rng.choice(['read', 'delete', 'id', 'ref', 'raw', 'raw', 'text'])
    ids = [m[0] for m in M.metas]
    if op == 'read':
        got = D.accept('raw_data', lambda: o.raw_data)
        cx.check_that(got == v and o.size == len(v), 'raw-data', '%r %r' % (got, v))
        repr(o)
        cx.eval((v, 'raw'))
    elif op == 'text':
        if rng.random() < .5:
            want = v.split(b'\0')[0]
            if all(c < 128 for c in want):
                got = D.accept('as_string', o.as_string)
                cx.check_that(got == want.decode(), 'as-string', '%r %r' % (got, v))
            else:
                D.refuse('as_string', o.as_string)
        elif len(v) == 16:
            got = D.accept('as_uuid', o.as_uuid)
            cx.check_that(got == uuid.UUID(bytes=v), 'as-uuid', '%r %r' % (got, v))
        else:
            D.refuse('as_uuid', o.as_uuid)
    elif op == 'delete':
        D.accept('meta.delete', o.delete)
        del M.metas[k]
        cx.count('op meta.delete')
        D.judge('meta.delete')
    elif op == 'id':
        new = rng.choice([rng.getrandbits(32) | 1, mid, 0xffffffff, rng.choice(ids)[0], 0, 1 << 32,
                          -1])
        def call():
            o.id = new
        if not 0 < new <= 0xffffffff or (new != mid and (new, ref) in ids):
            D.refuse('meta.id', call)
        else:
            D.accept('meta.id', call)
            M.metas[k] = ((new, ref), v)
            h[1] = new
            cx.count('op set id')
            D.judge('meta.id')
    elif op == 'ref':
        new = rng.choice([rng.getrandbits(32), 0, None, rng.choice(ids)[1], 1 << 32, -1] + M.ids())
        clash = [x for i, x in ids if i == mid and x != ref]
        if clash and rng.random() < .8:
            new = rng.choice(clash)
            cx.count('clashing references')
        n = new or 0
        def call():
            o.part_id_ref = new
        if not 0 <= n <= 0xffffffff or (n != ref and (mid, n) in ids):
            D.refuse('meta.part_id_ref', call)
        else:
            D.accept('meta.part_id_ref', call)
            M.metas[k] = ((mid, n), v)
            h[2] = n
            cx.count('op set id')
            D.judge('meta.part_id_ref')
    else:
        n = rng.choice([len(v), len(v), rng.randint(0, len(v)), 0, len(v) + 1, len(v) + 2000])
        if rng.random() < .5:
            t = ''.join(rng.choice('abc ~0') for _ in range(max(0, n - 1)))
            val, w = t, t.encode() + b'\0'
        else:
            val = w = rng.randbytes(n)
        def call():
            o.raw_data = val
        if len(w) > len(v):
            D.refuse('raw_data too long', call)
        else:
            D.accept('raw_data set', call)
            M.metas[k] = ((mid, ref), w + bytes(len(v) - len(w)))
            cx.count('op raw_data')
            D.judge('raw_data')


def op_field(D):
    cx, rng, M = D.cx, D.rng, D.M
    f, a, lim = rng.choice([('key_id', 'key_id', 32), ('keystore_id', 'keystore_id', 32),
                            ('signature_kind', 'sign_kind', 8), ('hash_kind', 'hash_kind', 8)])
    if rng.random() < .25:
        v = rng.choice([-1, 1 << lim, 1 << 64, -(1 << 70), 1 << 80])
        return D.refuse('%s out of range' % f, lambda: setattr(D.p, f, v))
    v = rng.choice([0, (1 << lim) - 1, 1 << (lim - 1)] + [rng.getrandbits(lim)] * 6)
    if f == 'hash_kind':
        v = rng.choice([1, 2, 3, 1, 2, 3, 7, 255])
    if f == 'signature_kind' and rng.random() < .6:
        v = rng.randint(1, 4)
    D.accept('%s=%d' % (f, v), lambda: setattr(D.p, f, v))
    if f == 'hash_kind' and v != M.h.hash_kind:
        D.stale = D.tail = True
    setattr(M.h, a, v)
    cx.count('op header field')
    D.judge(f)


def intact(M):
    """the hash trees that the metadata announces are there and right"""
    metas = dict(M.metas)
    rows = {r[0]: r for r in M.parts}
    for (mid, ref), root in M.metas:
        if mid != fmt.ROOT_ID or ref not in rows:
            continue
        data, tree = rows[ref], rows.get(fmt.tree_id(ref))
        salt = metas.get((fmt.SALT_ID, ref))
        if tree is None or salt is None or len(salt) != 32 or (data[2] | tree[2]) & fmt.F_TRANSPORT:
            return False
        if not data[4] or len(data[4]) % 4096:
            return False
        t, r = fmt.merkle_tree(data[4], salt)
        if t != tree[4] or r != root:
            return False
    return True


def op_sign(D):
    cx, rng, M = D.cx, D.rng, D.M
    k = D.keys[rng.choice(sorted(D.keys))]
    x = rng.random()
    if x < .25:
        bad = rng.choice([k.pubs[0], os.path.join(D.d, 'none'), D.d, D.path])
        return D.refuse('sign bad key', lambda: D.p.sign(bad))
    if x < .6:
        v = rng.choice([b'', rng.randbytes(rng.choice([1, 70, 511, 512])), None])
        if rng.random() < .2:
            v = rng.randbytes(rng.choice([513, 65536, 65537, 70000]))
            return D.refuse('signature too long', lambda: setattr(D.p, 'signature', v))
        D.accept('signature=%s' % (v if v is None else len(v)),
                 lambda: setattr(D.p, 'signature', v) if v is not None or rng.random() < .5
                 else delattr(D.p, 'signature'))
        M.h.signature = (v or b'').ljust(512, b'\0')
        M.h.signature_sz = len(v or b'')
        cx.count('op signature')
        D.judge('signature')
        return
    if M.h.hash_kind not in fmt.HASHES:
        return D.refuse('sign hash kind', lambda: D.p.sign(k.privs[0]))
    r = D.accept('sign ' + k.key.kind, lambda: D.p.sign(rng.choice(k.privs)))
    cx.count('op sign')
    h = fmt.Hdr(gen.read(D.path))
    M.h.signature, M.h.signature_sz = h.signature, h.signature_sz
    D.stale = False
    cx.check_that(pk.verify(k.key, fmt.package_hash(h), h.hash_kind,
                            h.signature[:h.signature_sz]), 'signature-invalid', repr(k))
    D.judge('sign')
    if intact(M):
        r = D.accept('verify', lambda: D.p.verify(k.pub))
        cx.check_that(r is True, 'verify-result', r)
    o = D.keys[rng.choice([n for n in sorted(D.keys) if D.keys[n] is not k])]
    D.refuse('verify other key', lambda: D.p.verify(o.pub))
    cx.count('verifications')


def op_digest(D):
    cx, M = D.cx, D.M
    g = D.accept('digest', lambda: D.p.digest)
    if M.h.hash_kind not in fmt.HASHES:
        cx.check_that(g is None, 'digest-of-unknown-kind', g)
    elif not D.tail:
        a = M.build()
        cx.check_that(g == fmt.package_hash(a.h), 'digest', D.log[-4:])
    else:
        cx.check_that(isinstance(g, bytes) and len(g) == len(
            fmt.HASHES[M.h.hash_kind](b'').digest()), 'digest-length', repr(g))
    D.values('digest')
    cx.eval((g, 'digest'))


def op_lookup(D):
    cx, rng, M = D.cx, D.rng, D.M
    pid = rng.getrandbits(32) | 1
    if pid not in M.ids():
        D.refuse('get_part', lambda: D.p.get_part(pid), KeyError)
    D.refuse('get_meta', lambda: D.p.get_meta(pid, rng.getrandbits(32)), KeyError)
    ids = [m[0] for m in M.metas]
    if ids:
        mid, ref = rng.choice(ids)
        r = rng.choice([0] + M.ids())
        if (mid, r) not in ids:
            D.refuse('get_meta other part', lambda: D.p.get_meta(mid, r), KeyError)
        got = D.accept('get_meta', lambda: D.p.get_meta(mid, ref).raw_data)
        cx.check_that(got == dict(M.metas)[(mid, ref)], 'get-meta', '%x %x' % (mid, ref))


class Weird:
    pass


def wrong_calls(B, p, part, meta, d):
    """calls with wrong argument types: all must raise"""
    w = Weird()
    nul = 'a\0b'
    out = [
        ('id()', lambda: B.id()), ('id(3)', lambda: B.id(3)), ('id(bytes)', lambda: B.id(b'a')),
        ('id(nul)', lambda: B.id(nul)), ('id(None)', lambda: B.id(None)),
        ('id(surrogate)', lambda: B.id('\udc80')),
        ('Package()', lambda: B.Package()), ('Package(1)', lambda: B.Package(1, 'r')),
        ('Package(a)', lambda: B.Package(d + '/a.bpak', 3)),
        ('Package(nul)', lambda: B.Package('a\0b', 'r')),
        ('Package(none)', lambda: B.Package(d + '/none', 'r')),
        ('Package(dir)', lambda: B.Package(d, 'r')),
        ('Package(mode)', lambda: B.Package(d + '/a.bpak', 'q')),
        ('Package(nomode)', lambda: B.Package(d + '/a.bpak')),
        ('Package(empty mode)', lambda: B.Package(d + '/a.bpak', '')),
        ('Package(extra)', lambda: B.Package(d + '/a.bpak', 'r', 1)),
        ('Part()', lambda: B.Part()), ('Meta()', lambda: B.Meta()),
        ('set_log_func()', lambda: B.set_log_func()),
        ('transport_encode()', lambda: B.transport_encode()),
        ('transport_encode(types)', lambda: B.transport_encode(p, w)),
        ('transport_decode(types)', lambda: B.transport_decode(w, p, p)),
        ('transport_decode(none)', lambda: B.transport_decode(p, None)),
        ('transport_encode(origin)', lambda: B.transport_encode(p, p, 7)),
        ('add_file()', lambda: p.add_file()), ('add_file(1)', lambda: p.add_file('zz')),
        ('add_file(types)', lambda: p.add_file(w, w)),
        ('add_file(name)', lambda: p.add_file(b'zz', d + '/a.bpak')),
        ('add_file(nul)', lambda: p.add_file('z\0z', d + '/a.bpak')),
        ('add_file(path)', lambda: p.add_file('zz', 17)),
        ('add_file(path nul)', lambda: p.add_file('zz', 'x\0y')),
        ('add_file(kw)', lambda: p.add_file('zz', d + '/a.bpak', bogus=1)),
        ('add_key()', lambda: p.add_key()), ('add_key(types)', lambda: p.add_key(w, w)),
        ('add_key(path)', lambda: p.add_key('zz', 1.5)),
        ('add_meta()', lambda: p.add_meta()), ('add_meta(1)', lambda: p.add_meta(77)),
        ('add_meta(str)', lambda: p.add_meta('a', data=b'x')),
        ('add_meta(list)', lambda: p.add_meta(77, 0, [1])),
        ('add_meta(None)', lambda: p.add_meta(77, 0, None)),
        ('add_meta(bytearray)', lambda: p.add_meta(77, 0, w)),
        ('add_meta(non ascii)', lambda: p.add_meta(77, 0, 'å')),
        ('add_meta(surrogate)', lambda: p.add_meta(77, 0, '\ud800')),
        ('add_meta(size)', lambda: p.add_meta(77, 0, b'x', 'y')),
        ('add_meta(big size)', lambda: p.add_meta(77, 0, b'x', 1 << 70)),
        ('add_meta(65536)', lambda: p.add_meta(77, 0, size=65536)),
        ('add_meta(65537)', lambda: p.add_meta(77, 0, b'abc', 65536 + 3)),
        ('add_meta(1921)', lambda: p.add_meta(77, 0, size=1921)),
        ('add_meta(neg)', lambda: p.add_meta(77, 0, size=-3)),
        ('add_meta(float)', lambda: p.add_meta(1.5, data=b'x')),
        ('get_part()', lambda: p.get_part()), ('get_part(str)', lambda: p.get_part('kernel')),
        ('get_meta()', lambda: p.get_meta()), ('get_meta(str)', lambda: p.get_meta('a', 'b')),
        ('get_meta(None)', lambda: p.get_meta(5, None)),
        ('verify()', lambda: p.verify()), ('verify(3)', lambda: p.verify(3)),
        ('verify(none)', lambda: p.verify(d + '/none')), ('verify(dir)', lambda: p.verify(d)),
        ('verify(archive)', lambda: p.verify(d + '/a.bpak')),
        ('sign()', lambda: p.sign()), ('sign(3)', lambda: p.sign(None)),
        ('sign(none)', lambda: p.sign(d + '/none')), ('sign(archive)', lambda: p.sign(d + '/a.bpak')),
        ('close(1)', lambda: p.close(1)),
        ('no attribute', lambda: p.bogus), ('digest=', lambda: setattr(p, 'digest', b'x')),
        ('size=', lambda: setattr(p, 'size', 1)), ('parts=', lambda: setattr(p, 'parts', [])),
        ('meta=', lambda: setattr(p, 'meta', None)),
        ('installed_size=', lambda: setattr(p, 'installed_size', None)),
    ]
    for a in ('hash_kind', 'key_id', 'keystore_id', 'signature_kind'):
        for v in ('1', None, 1.0, b'1', w):
            out.append(('%s=%r' % (a, type(v).__name__), lambda a=a, v=v: setattr(p, a, v)))
        out.append(('del ' + a, lambda a=a: delattr(p, a)))
    for v in ('abc', 12, [1], w):
        out.append(('signature=' + type(v).__name__, lambda v=v: setattr(p, 'signature', v)))
    for o, nm, ats in ((part, 'part', ('id',)), (meta, 'meta', ('id', 'part_id_ref'))):
        if o is None:
            continue
        for a in ats:
            for v in ('1', 1.0, b'1', w):
                out.append(('%s.%s=%s' % (nm, a, type(v).__name__),
                            lambda o=o, a=a, v=v: setattr(o, a, v)))
            out.append(('del %s.%s' % (nm, a), lambda o=o, a=a: delattr(o, a)))
        out.append((nm + '.size=', lambda o=o: setattr(o, 'size', 1)))
        out.append((nm + '.delete(1)', lambda o=o: o.delete(1)))
    if part is not None:
        out += [('part.offset=', lambda: setattr(part, 'offset', 1)),
                ('part.read_data(1)', lambda: part.read_data(1)),
                ('part.is_transport_encoded=', lambda: setattr(part, 'is_transport_encoded', 1))]
    if meta is not None:
        for v in (1, None, [b'x'], w, 'å', '\ud800'):
            out.append(('raw_data=' + type(v).__name__, lambda v=v: setattr(meta, 'raw_data', v)))
        out += [('del raw_data', lambda: delattr(meta, 'raw_data')),
                ('as_uuid(1)', lambda: meta.as_uuid(1)), ('as_string(1)', lambda: meta.as_string(1))]
    return out


def wrong(D, n):
    part = D.p.parts[0] if D.M.parts else None
    meta = D.p.meta[0] if D.M.metas else None
    cs = wrong_calls(D.B, D.p, part, meta, D.d)
    for name, fn in (D.rng.sample(cs, n) if n < len(cs) else cs):
        D.refuse('type ' + name, fn)
        D.cx.count('wrong types')


def stale(D):
    """handles whose part or metadata is gone (or has another id now)"""
    cx, rng, M = D.cx, D.rng, D.M
    for o, pid in [h for h in D.parts if h[1] not in M.ids()][:3]:
        for nm, fn in (('size', lambda: o.size), ('read_data', o.read_data), ('delete', o.delete),
                       ('offset', lambda: o.offset), ('repr', lambda: repr(o)),
                       ('te', lambda: o.is_transport_encoded),
                       ('id', lambda: setattr(o, 'id', 5))):
            D.refuse('gone part.' + nm, fn)
            cx.count('stale handles')
    ids = [m[0] for m in M.metas]
    for o, mid, ref in [h for h in D.metas if (h[1], h[2]) not in ids][:3]:
        for nm, fn in (('size', lambda: o.size), ('raw', lambda: o.raw_data), ('delete', o.delete),
                       ('str', o.as_string), ('uuid', o.as_uuid), ('repr', lambda: repr(o)),
                       ('set', lambda: setattr(o, 'raw_data', b'')),
                       ('id', lambda: setattr(o, 'id', 5)),
                       ('ref', lambda: setattr(o, 'part_id_ref', 5))):
            D.refuse('gone meta.' + nm, fn)
            cx.count('stale handles')


def writers(D, p, part, meta):
    """one call of every kind that changes the archive, valid when it is writable"""
    k = D.keys['p256-0']
    gen.put(D.d, 'src.bin', bytes(4096))
    s = os.path.join(D.d, 'src.bin')
    out = [('add_file', lambda: p.add_file('fresh', s)),
           ('merkle', lambda: p.add_file('fresh', s, True)),
           ('add_key', lambda: p.add_key('fresh', k.pub)),
           ('add_meta', lambda: p.add_meta(0x12345, 0, b'abc')),
           ('sign', lambda: p.sign(k.priv)),
           ('signature', lambda: setattr(p, 'signature', b'12')),
           ('clear signature', lambda: setattr(p, 'signature', None)),
           ('hash_kind', lambda: setattr(p, 'hash_kind', 2 if p.hash_kind != 2 else 1)),
           ('key_id', lambda: setattr(p, 'key_id', 0x77)),
           ('keystore_id', lambda: setattr(p, 'keystore_id', 0x77)),
           ('signature_kind', lambda: setattr(p, 'signature_kind', 77))]
    if part is not None:
        out += [('part.id', lambda: setattr(part, 'id', 0x4242)), ('part.delete', part.delete)]
    if meta is not None:
        out += [('meta.id', lambda: setattr(meta, 'id', 0x4242)),
                ('meta.ref', lambda: setattr(meta, 'part_id_ref', 0x4242)),
                ('meta.raw_data', lambda: setattr(meta, 'raw_data', b'')),
                ('meta.delete', meta.delete)]
    return out


def readonly(D):
    D.close()
    D.open(D.rng.choice(['r', 'rb']))
    part = D.p.parts[-1] if D.M.parts else None
    meta = D.p.meta[0] if D.M.metas else None
    for nm, fn in writers(D, D.p, part, meta):
        D.refuse('read-only ' + nm, fn)
        D.cx.count('read-only refusals')
    op_digest(D)
    for k, x in enumerate(D.p.parts):
        row = D.M.parts[k]
        if not row[2] & fmt.F_TRANSPORT:
            D.cx.check_that(x.read_data() == row[4][:row[1]], 'read-data', 'read only')
    D.close()
    D.open('r+')


def closed(D):
    """a closed package: nothing crashes, nothing can be changed"""
    p = D.p
    part = p.parts[0] if D.M.parts else None
    meta = p.meta[-1] if D.M.metas else None
    D.close()
    calls = writers(D, p, part, meta)
    q = D.B.Package.__new__(D.B.Package)
    if D.rng.random() < .5:
        calls += writers(D, q, None, None)
    class Sub(D.B.Package):
        def __init__(self):
            pass
    calls += D.rng.sample(writers(D, Sub(), None, None), 3)
    calls += [('verify', lambda: p.verify(D.keys['p256-0'].pub)), ('digest', lambda: p.digest),
              ('encode', lambda: D.B.transport_encode(p, q)),
              ('decode', lambda: D.B.transport_decode(q, p, p))]
    r = D.B.Package(D.path, 'r')
    out = D.B.Package(D.d + '/closed.bpak', 'w+')
    calls += [('origin of encode', lambda: D.B.transport_encode(r, out, p)),
              ('origin of decode', lambda: D.B.transport_decode(r, out, p)),
              ('output', lambda: D.B.transport_encode(r, p)),
              ('input', lambda: D.B.transport_encode(p, out))]
    if part is not None:
        calls += [('read_data', part.read_data)]
    for nm, fn in calls:
        D.refuse('closed ' + nm, fn)
        D.cx.count('closed calls')
    r.close()
    out.close()
    for o in (p, q, part, meta):
        if o is None:
            continue
        for a in dir(o):
            if a.startswith('_') or callable(getattr(type(o), a, None)):
                continue
            try:
                getattr(o, a)
            except Exception:
                pass
            D.cx.count('closed calls')
        try:
            repr(o)
        except Exception:
            pass
    p.close()
    p.close()
    D.open('r+')


def handles(D):
    """references: every handle keeps its package alive and gives it back"""
    cx = D.cx
    base = sys.getrefcount(D.p)
    hs = list(D.p.parts) + list(D.p.meta)
    cx.check_that(sys.getrefcount(D.p) == base + len(hs), 'refcount-with-handles',
                  '%d %d %d' % (base, len(hs), sys.getrefcount(D.p)))
    del hs
    cx.check_that(sys.getrefcount(D.p) == base, 'refcount-after-handles',
                  '%d %d' % (base, sys.getrefcount(D.p)))
    with D.B.Package(D.path, 'r') as q:
        hs = q.parts + q.meta
        cx.check_that(state(q) == expected(gen.read(D.path)), 'reported-values:with')
    del q
    for h in hs:
        # the package object is only held by the handles now, and it is closed
        try:
            h.size
        except Exception:
            pass
    cx.eval((hashlib.sha1(gen.read(D.path)).digest(), 'handles'))


def measure(san, fn, n):
    gc.collect()
    fd = len(os.listdir('/proc/self/fd'))
    a = san()
    for _ in range(n):
        try:
            fn()
        except Exception:
            pass
    gc.collect()
    return san() - a, len(os.listdir('/proc/self/fd')) - fd


def leak(D, name, fn, args=()):
    """repeated calls neither keep memory nor descriptors nor references"""
    cx = D.cx
    san = cx.state['san']
    for _ in range(4):
        try:
            fn()
        except Exception:
            pass
    n = 24
    rc = [sys.getrefcount(x) for x in args]
    mem, fds = measure(san, fn, n)
    if mem >= 16 * n or fds:
        mem, fds = measure(san, fn, n)
    cx.check_that(mem < 16 * n, 'memory-kept:' + name, '%d bytes after %d calls' % (mem, n))
    cx.check_that(fds < n / 2, 'descriptors-kept:' + name, '%d after %d calls' % (fds, n))
    now = [sys.getrefcount(x) for x in args]
    cx.check_that(all(abs(x - y) < n / 2 for x, y in zip(rc, now)), 'references-kept:' + name,
                  '%r %r' % (rc, now))
    cx.count('leak loops')
    cx.eval((name, 'leak'))


def leaks(D):
    rng, B = D.rng, D.B
    if not D.M.parts:
        op_add(D)
    p = D.p
    part = p.parts[0] if D.M.parts else None
    meta = p.meta[0] if D.M.metas else None
    k = D.keys['p256-0']
    w = Weird()
    gen.put(D.d, 'leak.bin', bytes(4096))
    s = os.path.join(D.d, 'leak.bin')
    s = ''.join([s[:3], s[3:]])
    data = bytes(rng.randrange(128) for _ in range(33))
    text = 'text of value %d' % rng.randrange(999)
    D.refuse('x', lambda: B.Package(D.d + '/none', 'r'))

    def cycle_meta(v):
        m = p.add_meta(0x77665544, 0, v)
        m.raw_data, m.size, m.id, m.part_id_ref
        m.raw_data = v
        m.as_string()
        m.delete()

    def cycle_small():
        # less room than the value takes, and a value that is no identifier
        m = p.add_meta(0x77665544, 0, text, 5)
        try:
            m.as_uuid()
        except ValueError:
            pass
        m.delete()
        p.add_meta(0x77665544, 0, text, 0).delete()

    def cycle_part():
        x = p.add_file('leak-part', s)
        x.read_data()
        x.delete()

    def openclose():
        q = B.Package(D.path, 'r')
        q.parts, q.meta

    def reinit():
        q = B.Package(D.path, 'r')
        q.__init__(D.path, 'r+')
        q.__init__(D.d + '/none', 'r')

    def sub():
        class S(B.Package):
            pass
        S(D.path, 'r').parts

    ops = [('cycle meta bytes', lambda: cycle_meta(data), (data, p)),
           ('cycle meta str', lambda: cycle_meta(text), (text, p)),
           ('cycle part', cycle_part, (s, p)), ('cycle small', cycle_small, (text, p)),
           ('cycle merkle', lambda: [x.delete() for x in (p.add_file('lm', s, True),
                                                         p.get_part(fmt.tree_id(fmt.bid('lm'))))],
            (s, p)),
           ('cycle key', lambda: p.add_key('leak-key', k.pub).delete(), (p,)),
           ('state', lambda: state(p), (p,)), ('digest', lambda: p.digest, (p,)),
           ('sign', lambda: p.sign(k.priv), (p,)), ('verify', lambda: p.verify(k.pub), (p,)),
           ('verify fails', lambda: p.verify(D.keys['p256-1'].pub), (p,)),
           ('verify rsa', lambda: p.verify(D.keys['rsa-0'].pub), (p,)),
           ('open', openclose, ()), ('reinit', reinit, ()), ('sub', sub, ()),
           ('signature', lambda: setattr(p, 'signature', data), (data, p)),
           ('del signature', lambda: delattr(p, 'signature'), (p,)),
           ('get_part missing', lambda: p.get_part(0x12), (p,)),
           ('id', lambda: B.id(text), (text,)),
           ('log', lambda: B.set_log_func(w), (w,)),
           ('log none', lambda: B.set_log_func(None), ()),
           ('encode', lambda: B.transport_encode(p, B.Package(D.d + '/o.bpak', 'w+')), (p,)),
           ('encode origin', lambda: B.transport_encode(p, B.Package(D.d + '/o.bpak', 'w+'), p),
            (p,)),
           ('encode refused', lambda: B.transport_encode(p, q0), (p,))]
    q0 = B.Package.__new__(B.Package)
    cs = wrong_calls(B, p, part, meta, D.d)
    ops += [('type ' + n, f, (p,)) for n, f in rng.sample(cs, 25)]
    h = D.parts and [x for x in D.parts if x[1] not in D.M.ids()]
    if h:
        o = h[0][0]
        ops += [('gone read', o.read_data, (p,)), ('gone delete', o.delete, (p,)),
                ('gone repr', lambda: repr(o), (p,))]
    for name, fn, args in ops:
        if name == 'log':
            # not callable: reported to the hook for unraisable exceptions only
            hook, sys.unraisablehook = sys.unraisablehook, lambda x: None
            leak(D, name, fn, args)
            B.set_log_func(None)
            sys.unraisablehook = hook
        else:
            leak(D, name, fn, args)
    B.set_log_func(None)
    # the loops end where they began, except for payload hash and signature
    h = fmt.Hdr(gen.read(D.path))
    D.M.h.signature, D.M.h.signature_sz = h.signature, h.signature_sz
    D.stale = D.stale and h.hash_kind not in fmt.HASHES
    D.judge('after loops')


def transport(D):
    cx, rng, B = D.cx, D.rng, D.B
    from checks import c03
    org, new, plan = gen.pair(rng, maxparts=3, big=3000,
                              shapes=[s for s in c03.c04.SHAPES if s != 'big'])
    d = D.d
    gen.put(d, 'new.bpak', new.bytes())
    gen.put(d, 'org.bpak', org.bytes())
    j = lambda x: os.path.join(d, x)
    n, o, e = B.Package(j('new.bpak'), 'r'), B.Package(j('org.bpak'), 'r'), \
        B.Package(j('e.bpak'), 'w+')

    def same(p, name, what):
        raw = gen.read(j(name))
        got, want = state(p), expected(raw)
        cx.check_that(got == want, 'reported-values:' + what, lambda: '%s\ngot  %r\nfile %r' % (
            plan, got, want))

    D.accept('transport_encode', lambda: B.transport_encode(n, e, o))
    e.add_meta(0x1234567, 0, b'kept')
    e.get_meta(0x1234567).delete()
    same(n, 'new.bpak', 'input of encode')
    same(o, 'org.bpak', 'origin of encode')
    same(e, 'e.bpak', 'output of encode')
    e.close()
    e = B.Package(j('e.bpak'), 'r')
    r = B.Package(j('r.bpak'), 'w+')
    D.accept('transport_decode', lambda: B.transport_decode(e, r, o))
    same(e, 'e.bpak', 'input of decode')
    cx.check_that(state(r)[7] == expected(new.bytes())[7], 'reported-values:output of decode',
                  lambda: '%r\n%r' % (state(r), expected(new.bytes())))
    r.key_id = 0x31
    new.h.key_id = 0x31
    r.close()
    cx.check_that(gen.read(j('r.bpak')) == new.bytes(), 'decoded-differs', repr(plan))
    if any(v[0] == 'delta' for v in plan.values()):
        r = B.Package(j('r2.bpak'), 'w+')
        try:
            B.transport_decode(e, r)
            cx.violation('not-refused:decode without origin', repr(plan))
        except Exception:
            pass
        r.close()
        same(e, 'e.bpak', 'input of refused decode')
    for x in (n, o, e):
        x.close()
    cx.count('transports')
    cx.eval((hashlib.sha1(new.bytes()).digest(), 'transport'))


def logs(D):
    """log callbacks, including ones that fail or replace themselves"""
    cx, rng, B = D.cx, D.rng, D.B
    seen = []
    hook, sys.unraisablehook = sys.unraisablehook, lambda x: seen.append(1)

    def bad(level, text):
        raise ValueError(text)

    def swap(level, text):
        B.set_log_func(lambda a, b: seen.append((a, b)))

    class Obj:
        def __call__(self, level, text):
            B.set_log_func(None)

    for f in (lambda a, b: seen.append((a, b)), bad, swap, Obj(), 7, lambda: 0):
        B.set_log_func(f)
        D.refuse('log add missing', lambda: D.p.add_file('zz', D.d + '/none'))
        D.refuse('log get', lambda: B.Package(D.d + '/none', 'r'))
        q = B.Package(D.path, 'r')
        cx.check_that(state(q) == expected(gen.read(D.path)), 'reported-values:log')
        q.close()
        cx.count('log callbacks')
    B.set_log_func(None)
    sys.unraisablehook = hook
    cx.check_that(any(isinstance(x, tuple) and isinstance(x[1], str) for x in seen),
                  'log-never-called')


def sources(D):
    """the file that is added changes between the looks the call takes at it: what is stored is
    what was read and as long as announced, with the right tree, or the call is refused"""
    cx, rng, B, M = D.cx, D.rng, D.B, D.M
    src = os.path.join(D.d, 'moving.bin')
    for step in range(3):
        if fmt.NPART - len(M.parts) < 2 or M.space() < 64 or len(M.metas) > 30:
            return
        name = 'moving%d' % rng.randrange(10 ** 9)
        merkle = rng.random() < .6
        n = 4096 * rng.choice([1, 2, 3, 129]) if merkle else \
            rng.choice([0, 1, 511, 512, 4096, 4097, 9000])
        old = gen.content(rng, n)
        new = gen.content(rng, max(0, rng.choice([
            n, n, n + 1, n + 512, n + 4096, n + 4096 * 130, n - 1, n - 512, n - 4096, 0])))
        gone = rng.random() < .15
        when = rng.choice(['Adding', 'Allocated']) if merkle else 'Adding'
        if when == 'Allocated' and len(new) == n and not gone:
            new += bytes(4096)
        gen.put(D.d, 'moving.bin', old)
        hit = []

        def log(level, text):
            if text.startswith(when) and not hit:
                hit.append(text)
                if gone:
                    os.unlink(src)
                else:
                    with open(src, 'r+b') as f:
                        f.truncate(len(new))
                        f.write(new)

        what = 'moving %s %d->%s at %s' % ('merkle' if merkle else 'file', n,
                                           'gone' if gone else len(new), when)
        D.log.append(what)
        B.set_log_func(log)
        try:
            x = D.p.add_file(name, src, merkle)
            ok = True
        except (B.Error, OSError, KeyError):
            ok = False
        finally:
            B.set_log_func(None)
        if not hit:
            cx.count('source changes not seen')
        cx.check_that(ok or hit, 'refused:moving source', what)
        if ok:
            data = x.read_data()
            m = len(data)
            cx.check_that(data in (old, new, new[:n], old[:len(new)]) and m in (n, len(new)),
                          'changed-source:stored', '%s: %d bytes' % (what, m))
            if merkle:
                c07.absorb_salt(M, gen.read(D.path), name, data, 0, cx)
            else:
                M.parts.append([fmt.bid(name), m, 0, 0, data + bytes(fmt.padlen(m))])
            D.names[fmt.bid(name)] = name
            D.stale = False
            D.judge('moving source')
            cx.count('changed sources accepted')
        else:
            # nothing of it is in the package
            D.values('refused moving source')
            D.close()
            raw = gen.read(D.path)
            end = fmt.positions(fmt.Hdr(raw))[1]
            os.truncate(D.path, max(end, min(len(raw), len(D.raw or b''))))
            D.open('r+')
            D.parts, D.metas = [], []
            cx.count('changed sources refused')
        cx.eval((hashlib.sha1(old).digest(), what))


def truncated(D):
    """part data is missing: reading and changes are refused"""
    if not D.M.parts or not D.M.parts[-1][4]:
        return
    D.close()
    raw = gen.read(D.path)
    n = D.rng.randint(1, len(D.M.parts[-1][4]))
    gen.put(D.d, 'a.bpak', raw[:-n])
    p = D.p = D.B.Package(D.path, 'r+')
    last = p.parts[-1]
    row = D.M.parts[-1]
    if n > len(row[4]) - row[1] and not row[2] & fmt.F_TRANSPORT:
        D.refuse('truncated read', last.read_data)
        leak(D, 'truncated read', last.read_data, (p, last))
    D.refuse('truncated delete', p.parts[0].delete)
    gen.put(D.d, 'src.bin', bytes(4096))
    D.refuse('truncated add', lambda: p.add_file('nn', D.d + '/src.bin'))
    D.refuse('truncated merkle', lambda: p.add_file('nn', D.d + '/src.bin', True))
    if not row[2] & fmt.F_EXCLUDE:
        D.refuse('truncated sign', lambda: p.sign(D.keys['p256-0'].priv))
        D.cx.check_that(p.digest is None, 'digest-of-missing-data')
    p.close()
    gen.put(D.d, 'a.bpak', raw)
    D.open('r+')


def huge_case(cx, rng):
    """parts beyond 2 and 4 GiB"""
    d = cx.tmp()
    B, keys = module(cx), gen.keys(cx)
    H = huge.Huge(rng)
    path = huge.put(d, 'a.bpak', H)
    log = [str(H)]
    p = B.Package(path, 'r+')
    for step in range(rng.randint(4, 8)):
        op = rng.choice(['add', 'merkle', 'key', 'delete', 'read', 'read', 'sign', 'meta', 'reopen'])
        name = 'n%d' % step
        log.append(op)
        try:
            if op in ('add', 'merkle'):
                data = gen.content(rng, 4096 * rng.choice([1, 2, 129]) if op == 'merkle' else
                                   rng.choice([0, 1, 512, 5000]))
                p.add_file(name, gen.put(d, 'src.bin', data), op == 'merkle')
                if op == 'merkle':
                    salt = fmt.Hdr(huge.head(path)).get(fmt.SALT_ID, fmt.bid(name))
                    H.tree(name, data, 0, salt)
                else:
                    H.new(name, data, 0)
            elif op == 'key':
                k = keys[rng.choice(sorted(keys))]
                p.add_key(name, k.pub)
                H.new(name, k.der, 0)
            elif op == 'meta':
                p.add_meta(fmt.bid(name), H.parts[-1][0], b'value')
                H.metas.append(((fmt.bid(name), H.parts[-1][0]), b'value'))
            elif op == 'delete':
                ids = [x[0] for x in H.parts]
                can = H.behind() + ([ids.index(H.hid)] if H.hid in ids and rng.random() < .3 else [])
                if not can:
                    continue
                k = rng.choice(can)
                p.get_part(ids[k]).delete()
                H.metas = [m for m in H.metas if m[0][1] != ids[k]]
                del H.parts[k]
            elif op == 'read':
                for x in H.small():
                    got = p.get_part(x[0]).read_data()
                    cx.check_that(got == x[4], 'huge-archive:read-data', '%x %s' % (x[0], log))
            elif op == 'sign':
                k = keys['p256-%d' % rng.randint(0, 1)]
                p.sign(k.priv)
                cx.check_that(p.verify(k.pub) in (True, None, 0), 'huge-archive:verify', log)
            else:
                p.close()
                p = B.Package(path, 'r+')
        except Exception as e:
            raise core.Violation('huge-archive:refused:' + op, '%r %s' % (e, log))
        x = H.differs(path)
        cx.check_that(not x, 'huge-archive:file:' + op, lambda: '%s %s %s' % (x[0], x[1], log))
        raw = huge.head(path)
        want = expected(raw)
        cx.check_that(want[0] == os.path.getsize(path), 'huge-archive:size')
        got = state(p)
        cx.check_that(got == want, 'huge-archive:reported-values:' + op,
                      lambda: '%s\ngot  %r\nfile %r' % (log, got, want))
        cx.count('huge archive op')
        cx.eval(('huge', str(H), op))
    p.close()
    cx.sample('huge: ' + '; '.join(log)[:280])
    cx.drop(d)


def run_case(cx, i, rng):
    if i % 12 == 5:
        return huge_case(cx, rng)
    d = cx.tmp()
    D = Drv(cx, rng, d, i)
    D.open()
    if i % 20 == 11:
        for k in range(40):         # full tables
            (op_add if k % 2 else op_meta)(D)
    n = rng.randint(12, 30)
    for step in range(n):
        rng.choice([op_add, op_add, op_meta, op_meta, op_part, op_part, op_metaobj, op_metaobj,
                    op_metaobj, op_field, op_sign, op_digest, op_lookup])(D)
        x = rng.random()
        if x < .12:
            stale(D)
        elif x < .22:
            D.close()
            D.open(rng.choice(['r+', 'rb+', 'r+b']))
            cx.count('reopened')
            if rng.random() < .5:
                D.parts, D.metas = [], []
            else:
                # handles of a closed package stay closed
                for h in D.parts[:2]:
                    D.refuse('handle of closed', h[0].delete)
                D.parts, D.metas = [], []
    if M_unknown(D):
        D.p.hash_kind = D.M.h.hash_kind = 1
        D.stale = D.tail = True
        D.judge('hash_kind')
    what = [wrong, readonly, closed, handles, transport, logs, truncated, sources, sources]
    wrong(D, 25 if i % 8 else 999)
    for f in rng.sample(what[1:], 3):
        f(D)
    if i % 16 == 3:
        leaks(D)
    D.close()
    cx.sample(' '.join(D.log)[:280])
    D.parts = D.metas = None
    cx.drop(d)


def M_unknown(D):
    return D.M.h.hash_kind not in fmt.HASHES
