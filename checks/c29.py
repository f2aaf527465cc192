"""C29: a library built with fewer features does the rest like the full one."""
import ctypes as C
import hashlib
import os

from vlib import clib, core, fmt, gen, ops
from checks import c28

PROPERTY = 'C29'
LEVEL = 'exploration'
TECHNIQUE = ('differential execution: every library operation by AddressSanitizer builds without '
             'LZMA, without merkle trees and without all optional features, against the full '
             'library; the header functions of the minimal library made by the project\'s build '
             'files against the full one')
LEVEL_NOTE = 'Seeded archives, deltas, broken input; the whole catalogue of library operations.'
BUILD = {'nolzma': ['lib'], 'nomerkle': ['lib'], 'lean': ['lib'], 'plain': ['lib'],
         'minimal': ['minimal']}
PRELOAD = 'asan'
RULE = ('One judged execution per operation and reduced library (a header function call sequence '
        'counts once). Distinct: by input digest, operation and build.')
REQUIRED = {'nolzma': 1200, 'nomerkle': 1200, 'lean': 1200, 'lean alone': 400, 'same': 3000,
            'refused, feature missing': 250, 'header sequences': 150, 'header calls': 6000,
            'decoded without lzma': 10, 'chunked decode': 60}
ASSUMPTIONS = ['a library without merkle support does not check hash trees when it verifies',
               'without mbedTLS the backends are supplied by the user (see C28)']


def cases(tier):
    return 24 if tier == 'quick' else 1000


LZMA_IDS = [fmt.bid(x) for x in ('bsdiff-lzma', 'bspatch-lzma')]
# operations that need no hash, signature or key
BARE = ('open', 'extract', 'bsdiff', 'bspatch')


def lacks(w, name, missing):
    """may the reduced library refuse this operation?"""
    if 'LZMA' in missing and 'lzma' in name:
        return True
    if 'code' in name and ('LZMA' in missing or 'MERKLE' in missing):
        return True             # depends on the parts
    return False


def run_case(cx, i, rng):
    d = os.path.join(cx.tmp(), 'w')
    os.makedirs(d)
    w = ops.World(cx, rng, d, big=3000)
    R = clib.load(cx, 'plain')
    ops.add_encoded(cx, R, w)
    cat = ops.catalogue(w, R)
    dig = hashlib.sha1(w.inputs['a.bpak'] + w.inputs['e.bpak']).hexdigest()[:8]

    def run(T, fn):
        w.reset()
        clib.libc.srandom(7)
        rc, v = fn(T)
        return rc, v, w.state()

    ref = {}
    for name, fn, sig in cat:
        ref[name] = run(R, fn)
    for flavour, missing, backend in (('nolzma', ['LZMA'], 1), ('nomerkle', ['MERKLE'], 1),
                                      ('lean', ['LZMA', 'MERKLE'], 1),
                                      ('lean', ['LZMA', 'MERKLE', 'MBEDTLS'], 0)):
        L = clib.load(cx, flavour)
        h = None
        if flavour == 'lean':
            h = c28.Hash() if backend else None
            c28.install(L, h)
            L.crypto_setup(*([C.cast(getattr(R, n), C.c_void_p) for n in (
                'crypto_verify', 'crypto_sign', 'crypto_load_public_key',
                'crypto_load_private_key', 'crypto_parse_public_key')] if backend
                else [None] * 5))
        what = flavour if backend else 'lean alone'
        for name, fn, sig in cat:
            if 'MERKLE' in missing and (name == 'add-merkle' or name.startswith('stream-tree')):
                continue        # there is no such function
            got = run(L, fn)
            want = ref[name]
            cx.count(what)
            cx.eval((dig, what, name))
            tell = '%s, %s: result %s %s, full library %s %s, files %s' % (
                name, what, got[0], c28.show(got), want[0], c28.show(want),
                [n for n in want[2] if want[2][n] != got[2].get(n)])
            cx.check_that(not h or not h.bad, 'reduced-misuses-backend:' + name,
                          tell + str(h and h.bad[:3]))
            same = bool(got[0]) == bool(want[0]) and (
                got[2] == want[2] if got[0] else got[1:] == want[1:])
            if same:
                cx.count('same')
                if not got[0] and 'decode' in name and 'LZMA' in missing:
                    cx.count('decoded without lzma')
                continue
            if got[0] and want[0]:
                # refused by both; what is left of the output does not matter
                bad = changed(w, got[2])
                cx.check_that(not bad, 'reduced-changes-input:' + name, tell)
                continue
            refused = bool(got[0])
            if refused and (lacks(w, name, missing) or not backend and
                            not name.startswith(BARE)):
                cx.count('refused, feature missing')
                cx.check_that(not changed(w, got[2]) or name.startswith('delete'),
                              'reduced-changes-input:' + name, tell)
                continue
            if not refused and 'MERKLE' in missing and name == 'stream-payload-bad':
                continue        # may be protected by the tree only
            cx.check_that(False, 'reduced-differs:%s:%s' % (flavour, name), tell)
        if h:
            cx.check_that(not h.live, 'reduced-misuses-backend:contexts',
                          '%d contexts not released' % len(h.live))
    chunked(cx, rng, w, R, dig)
    headers(cx, rng, w, R, dig)


def changed(w, st):
    return [n for n in w.inputs if n in st and n.endswith('.bpak') and
            c28.package(st[n]) != c28.package(w.inputs[n])]


def chunked(cx, rng, w, R, dig):
    """streaming decode, part by part, with all chunk sizes"""
    for _ in range(2):
        chunk = rng.choice([1, 7, 64, 1000, 5000, 1 << 20])
        want = ops.tdecode(R, w.inputs['e.bpak'], w.inputs['o.bpak'], max(chunk, 40))
        for flavour in ('nolzma', 'nomerkle', 'lean'):
            L = clib.load(cx, flavour)
            got = ops.tdecode(L, w.inputs['e.bpak'], w.inputs['o.bpak'], max(chunk, 40))
            cx.count('chunked decode')
            cx.eval((dig, 'chunked', flavour, chunk))
            need = set()
            h = fmt.Hdr(w.inputs['e.bpak'])
            for m, v in h.meta_list():
                p = h.part(m[1])
                if m[0] == fmt.bid('bpak-transport') and p and p.flags & 2:
                    a = int.from_bytes(bytes(v)[4:8], 'little')
                    if a == fmt.bid('bspatch-lzma'):
                        need.add('LZMA')
                    elif a == fmt.bid('merkle-generate'):
                        need.add('MERKLE')
            from vlib.build import WITHOUT
            if got[0] and need & set(WITHOUT[flavour]):
                cx.count('refused, feature missing')
                continue
            cx.check_that(bool(got[0]) == bool(want[0]) and got[1] == want[1],
                          'reduced-differs:%s:chunked' % flavour,
                          'result %s, full library %s, decoders %s' % (got[0], want[0], need))


SKIP = {}


def headers(cx, rng, w, R, dig):
    """the functions of the minimal library on the same headers"""
    path = cx.builds['minimal']['minimal']
    if path not in SKIP:
        try:
            SKIP[path] = clib.Lib(path)
        except OSError as e:
            cx.violation('minimal-library-unusable', str(e))
            SKIP[path] = None
        for n in NAMES:
            cx.check_that(SKIP[path] is None or hasattr(SKIP[path], n),
                          'missing-in-minimal:' + n, n)
    M = SKIP[path]
    if M is None:
        return
    for _ in range(8):
        src = w.inputs[rng.choice(['a.bpak', 's.bpak', 'e.bpak', 'ks.bpak'])]
        raw = bytearray(src[:fmt.HDR])
        if rng.random() < .3:
            raw[rng.randrange(3470)] ^= 1 << rng.randrange(8)
            b = clib.Buf(bytes(raw))
            if R.valid_header(b.p):
                raw = bytearray(src[:fmt.HDR])
        hd = fmt.Hdr(bytes(raw))
        ids = [m.id for m in hd.metas if m.id] + [p.id for p in hd.parts if p.id] + [1, fmt.PKG_ID]
        plan = [step(rng, ids) for _ in range(rng.randint(3, 30))]
        a, b = apply(R, bytes(raw), plan), apply(M, bytes(raw), plan)
        cx.count('header sequences')
        cx.count('header calls', len(plan))
        cx.eval((dig, 'headers', hashlib.sha1(repr(plan).encode()).hexdigest()[:10]))
        if a != b:
            k = next((k for k in range(len(plan)) if a[k] != b[k]), -1)
            cx.violation('minimal-differs:' + plan[k][0], '%s: full %r minimal %r' % (
                plan[k], str(a[k])[:200], str(b[k])[:200]))


NAMES = ['id', 'crc32', 'get_meta', 'get_meta_anyref', 'add_meta', 'del_meta', 'get_part',
         'add_part', 'del_part', 'valid_header', 'copyz_signature', 'init_header', 'part_offset',
         'part_size', 'part_size_wo_pad', 'error_string', 'signature_kind', 'hash_kind',
         'set_key_id', 'set_keystore_id', 'add_transport_meta', 'version', 'bin2hex', 'meta_to_string', 'uuid_to_string', 'part_name_to_hash_tree_id',
         'part_id_to_hash_tree_id', 'hash_tree_id_to_part_id', 'keystore_get']


def step(rng, ids):
    n = rng.choice(['id', 'crc32', 'get_meta', 'get_meta_anyref', 'add_meta', 'del_meta',
                    'get_part', 'add_part', 'del_part', 'valid_header', 'init_header',
                    'error_string', 'signature_kind', 'hash_kind', 'set_key_id',
                    'set_keystore_id', 'add_transport_meta', 'bin2hex', 'meta_to_string',
                    'uuid_to_string', 'tree_ids', 'part_sizes', 'copyz_signature'])
    some = lambda: rng.choice(ids + [rng.getrandbits(32) or 1])
    return (n, some(), rng.choice([0, 0, some()]), rng.choice([0, 1, 8, 16, 33, 600, 1921, 65535]),
            rng.randbytes(rng.randint(1, 40)))


def apply(T, raw, plan):
    hb = clib.Buf(raw)
    base = hb.p
    out = []
    p = C.c_void_p()
    P = C.byref(p)
    for n, a, b, k, data in plan:
        db = clib.Buf(data + b'\0')
        r = None
        if n == 'id':
            r = T.id(data.replace(b'\0', b'x'))
        elif n == 'crc32':
            r = T.crc32(a, db.p, len(data))
        elif n in ('get_meta', 'add_meta', 'del_meta', 'meta_to_string', 'get_meta_anyref'):
            p.value = None
            if n == 'add_meta':
                r = T.add_meta(base, a, b, k, P)
            elif n == 'get_meta_anyref':
                r = T.get_meta_anyref(base, a, P)
            else:
                r = T.get_meta(base, a, b, P)
            if not r:
                r = (r, p.value - base)
                if n == 'del_meta':
                    T.del_meta(base, p.value)
                elif n == 'meta_to_string':
                    s = clib.Buf(128, 0)
                    rc = T.meta_to_string(base, p.value, s.p, s.n)
                    r = (r, rc, s.get() if not rc else None)
        elif n in ('get_part', 'add_part', 'del_part', 'part_sizes'):
            p.value = None
            r = T.add_part(base, a, P) if n == 'add_part' else T.get_part(base, a, P)
            if not r:
                at = p.value
                r = (r, at - base)
                if n == 'del_part':
                    T.del_part(base, at)
                elif n == 'part_sizes':
                    r = (r, T.part_offset(base, at), T.part_size(at), T.part_size_wo_pad(at))
        elif n in ('valid_header', 'init_header'):
            r = getattr(T, n)(base)
        elif n == 'error_string':
            r = T.error_string(-(k % 60))
        elif n in ('signature_kind', 'hash_kind'):
            r = getattr(T, n)(k & 255)
        elif n in ('set_key_id', 'set_keystore_id'):
            r = getattr(T, n)(base, a)
        elif n == 'add_transport_meta':
            r = T.add_transport_meta(base, a, b, k)
        elif n == 'bin2hex':
            s = clib.Buf(90, 0)
            r = T.bin2hex(db.p, len(data), s.p, s.n), s.get()
        elif n == 'uuid_to_string':
            u = clib.Buf(data.ljust(16, b'u')[:16])
            s = clib.Buf(64, 0)
            r = T.uuid_to_string(u.p, s.p, s.n), s.get()
        elif n == 'tree_ids':
            r = (T.part_id_to_hash_tree_id(a), T.part_name_to_hash_tree_id(b'abc'),
                 T.hash_tree_id_to_part_id(base, a))
        elif n == 'copyz_signature':
            s, z = clib.Buf(512, 0), C.c_size_t(512)
            r = T.copyz_signature(base, s.p, C.byref(z)), z.value, s.get()
        out.append((n, r, hashlib.sha1(hb.get()).digest()))
    return out
