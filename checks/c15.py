"""C15: all library memory goes through the configured allocator and is released."""
import ctypes as C
import hashlib
import os
import re

from vlib import clib, core, fmt, gen, ops, pk
from checks import c02, c05, c06, c10

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('allocation ledger: a recording allocator with guard zones and quarantine installed '
             'through the public interface plus an interposed malloc ledger with caller '
             'attribution, checked after every operation; every allocation refused in turn')
LEVEL_NOTE = ('Catalogue of some 60 operations with success and failure outcomes on seeded '
              'archives, refusal catalogue of C10 and hostile archives of C06; for each operation '
              'each allocation (single and from there on) is refused.')
BUILD = {'plain': ['lib', 'mtrace']}
PRELOAD = 'mtrace'
RULE = ('One judged execution per operation run with the ledgers balanced afterwards, fault free '
        'or with the k-th allocation refused. Distinct: by operation, input digest and fault.')
REQUIRED = {'ops ok': 1800, 'ops refused': 2500, 'blocks': 5000, 'refused allocations': 4000,
            'handed out': 120, 'hostile': 1500, 'malloc seen': 500000, 'refusal catalogue': 1000}
ASSUMPTIONS = ['allocations made inside libc, mbedtls and the dynamic loader are not the '
               "library's own, but whatever they hold must be released as well",
               'an operation one of whose allocations is refused reports an error']
ALLOWED_CALLER = re.compile(r'^(libc|libmbed|ld-linux|libpthread|libgcc)')


def cases(tier):
    return 80 if tier == 'quick' else 1200


def balance(cx, L, T, name, how):
    """nothing left, nothing foreign, nothing damaged"""
    if L.sh_alloc_stat(2):
        cx.violation('foreign-free:' + name, how)
    n = L.sh_alloc_stat(3)
    if n:
        cx.violation('leak:' + name, '%s: %d of %d blocks left' % (how, n, L.sh_alloc_stat(0)))
    if L.sh_alloc_damage(0):
        cx.violation('write-outside-block:' + name, how)
    if L.sh_alloc_damage(1):
        cx.violation('write-after-release:' + name, how)
    if T.mt_stat(4):
        raise core.Inconclusive('ledger overflow')
    if T.mt_stat(1):
        cx.violation('leak-elsewhere:' + name, '%s: %s' % (how, T.live_blocks()))
    for c in T.callers():
        if not ALLOWED_CALLER.match(c):
            cx.violation('bypass:' + name, '%s: allocation by %s' % (how, c))
    cx.count('malloc seen', T.mt_stat(0))
    with open('/proc/self/maps') as f:
        kept = [x.split()[-1] for x in f if '.bpak' in x]
    cx.check_that(not kept, 'mapping-kept:' + name, lambda: '%s: %s' % (how, kept[:3]))


def run(cx, L, T, name, fn, how, fail=0, before=None):
    if before:
        before()
    L.sh_alloc_reset(fail)
    T.mt_reset(0)
    r = fn(T)
    balance(cx, L, T, name, how)
    return r


def faults(cx, rng, n, quick):
    ks = list(range(1, n + 1))
    lim = 5 if quick else 40
    if n > lim:
        ks = sorted(set([1, n] + rng.sample(ks, lim - 2)))
    r = []
    for k in ks:
        r.append(k)
        if k < n:
            r.append(-k)
    return r


def judge_op(cx, L, T, rng, name, fn, before, dig, quick):
    rc, v = run(cx, L, T, name, fn, 'fault free', 0, before)
    n = L.sh_alloc_stat(0)
    cx.count('blocks', n)
    cx.count('ops ok' if rc == 0 else 'ops refused')
    if os.environ.get('C15_OPS'):
        cx.count('%s %d' % (name, rc != 0))
    cx.eval((name, dig, 0))
    if isinstance(v, tuple) and len(v) == 3:
        cx.count('handed out')
    for k in faults(cx, rng, n, quick):
        rc, v = run(cx, L, T, name, fn, 'allocation %d of %d refused' % (k, n), k, before)
        if L.sh_alloc_stat(4):
            cx.count('refused allocations')
            cx.check_that(rc != 0, 'refusal-not-reported:' + name,
                          'allocation %d of %d' % (k, n))
        cx.eval((name, dig, k))


def run_case(cx, i, rng):
    L = clib.load(cx, 'plain')
    T = clib.Tracked(L)
    d = cx.tmp()
    L.sh_alloc_guard(1)
    L.sh_alloc_reset(0)
    L.sh_alloc_install()
    try:
        k = i % 4
        if k < 2:
            catalogue(cx, L, T, rng, d)
        elif k == 2:
            refusals(cx, L, T, rng, d)
        else:
            hostile(cx, L, T, rng, d)
    finally:
        L.sh_alloc_default()
        L.sh_alloc_reset(0)
        L.sh_alloc_guard(0)
    cx.drop(d)


def catalogue(cx, L, T, rng, d):
    w = ops.World(cx, rng, d)
    ops.add_encoded(cx, L, w)
    dig = hashlib.sha1(w.inputs['a.bpak'] + w.inputs['e.bpak']).digest()
    for name, fn, sig in ops.catalogue(w, L):
        judge_op(cx, L, T, rng, name, fn, w.reset, dig, cx.tier == 'quick')


def refusals(cx, L, T, rng, d):
    keys = gen.keys(cx)
    for state in rng.sample(c10.STATES, 3):
        a, raw = c10.build(cx, rng, state, keys)
        c10.tool_ops(rng, d, a.h, keys, state)      # writes the input files
        dig = hashlib.sha1(raw).digest()
        path = os.path.join(d, 'a.bpak')

        def before():
            gen.put(d, 'a.bpak', raw)
        for name, f in c10.lib_ops(T, rng, d, a.h, keys, state):
            st = rng.getstate()

            def fn(T, f=f):
                rng.setstate(st)
                return ops.with_pkg(T, path, 'r+', lambda p: f(p.p))
            judge_op(cx, L, T, rng, name, fn, before, dig, cx.tier == 'quick')
            cx.count('refusal catalogue')


def hostile(cx, L, T, rng, d):
    keys = gen.keys(cx)
    e = lambda n: os.path.join(d, n).encode()
    org, new, plan = gen.pair(rng, maxparts=2, big=3000)
    gen.put(d, 'o.bpak', org.bytes())
    gen.put(d, 'f.bin', b'x' * 777)
    gen.put(d, 'm.bin', b'x' * 8192)
    for _ in range(12 if cx.tier == 'quick' else 40):
        kind = rng.choice(['plain', 'keystore', 'encoded', 'plain'])
        a = c06.base(cx, rng, keys, kind)
        raw, what = c06.hostile(cx, rng, a)
        if len(raw) > 1 << 20:
            continue
        dig = hashlib.sha1(raw).digest()
        h = fmt.Hdr(raw) if len(raw) >= fmt.HDR else None
        ids = [p.id for p in h.part_list()] if h else [1]
        pid = rng.choice(ids or [1])
        pub = keys[rng.choice(sorted(keys))].pub.encode()
        kinds = []
        # huge announced sizes make writers work for a long time
        small = h is None or (sum(p.size for p in h.part_list()) < 1 << 20)

        def before():
            gen.put(d, 'h.bpak', raw)
            for x in ('x.out', 't.out'):
                if os.path.exists(os.path.join(d, x)):
                    os.unlink(os.path.join(d, x))

        def pkg(mode, f):
            return lambda T: ops.with_pkg(T, os.path.join(d, 'h.bpak'), mode, lambda p: f(T, p))

        def hashes(T, p):
            b = clib.Buf(64, 0)
            n = C.c_size_t(64)
            return T.pkg_update_hash(p.p, b.p, C.byref(n))

        def ver(T):
            out = C.c_void_p()
            rc = T.crypto_load_public_key(pub, C.byref(out))
            if rc:
                return rc, None
            r = ops.with_pkg(T, os.path.join(d, 'h.bpak'), 'r',
                             lambda p: T.pkg_verify(p.p, out.value))
            T.free(out.value)
            return r

        def kst(T):
            out = C.c_void_p()
            rc = T.keystore_load_key_from_file(e('h.bpak'), 0x1234, pid, None, None,
                                               C.byref(out))
            return ops.handed(T, rc, out)

        def xp(enc, i, o):
            def g(T):
                p = clib.Pkg(T, os.path.join(d, i), 'r')
                q = clib.Pkg(T, os.path.join(d, o), 'r')
                t = clib.Pkg(T, os.path.join(d, 't.out'), 'w+')
                rc = p.rc or q.rc or t.rc
                if not rc:
                    f = T.pkg_transport_encode if enc else T.pkg_transport_decode
                    rc = f(p.p, t.p, q.p)
                for x in (p, q, t):
                    rc = x.close() or rc
                return rc, None
            return g
        lst = [('h-keystore', kst), ('h-open', pkg('r', lambda T, p: 0)),
               ('h-delete', pkg('r+', lambda T, p: T.pkg_delete_part(p.p, pid, True))),
               ('h-delete-all', pkg('r+', lambda T, p: T.pkg_delete_all_parts(p.p, False)))]
        if small:
            lst += [('h-hash', pkg('r', hashes)), ('h-verify', ver),
                    ('h-extract', pkg('r', lambda T, p: T.pkg_extract_file(p.p, pid, e('x.out')))),
                    ('h-add', pkg('r+', lambda T, p: T.pkg_add_file(p.p, e('f.bin'), b'q', 0))),
                    ('h-merkle', pkg('r+', lambda T, p: T.pkg_add_file_with_merkle_tree(
                        p.p, e('m.bin'), b'q', 0))),
                    ('h-key', pkg('r+', lambda T, p: T.pkg_add_key(p.p, pub, b'q', 0))),
                    ('h-encode', xp(True, 'h.bpak', 'o.bpak')),
                    ('h-encode-origin', xp(True, 'o.bpak', 'h.bpak')),
                    ('h-decode', xp(False, 'h.bpak', 'o.bpak'))]
        for name, fn in lst:
            judge_op(cx, L, T, rng, name, fn, before, dig, True)
            cx.count('hostile')
