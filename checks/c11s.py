"""Part of C11 that needs the sanitizers: failing and short stream callbacks and
refused library allocations."""
import hashlib

from vlib import clib, core, ops

BUILD = {}
PRELOAD = 'asan'
CPU_LIMIT = 100


def run_case(cx, i, rng):
    L = clib.load(cx, 'asan')
    d = cx.tmp()
    w = ops.World(cx, rng, d, big=3000)
    ops.add_encoded(cx, L, w)
    dig = hashlib.sha1(w.inputs['a.bpak']).digest()
    quick = cx.tier == 'quick'
    for name, fn, sig in ops.catalogue(w, L):
        ops.Io.fault, ops.Io.calls, ops.Io.bad = (0, 0), 0, 0
        w.reset()
        L.sh_alloc_reset(0)
        L.sh_alloc_install()
        try:
            rc0, v0 = fn(L)
            ref = w.state()
            n, blocks = ops.Io.calls, L.sh_alloc_stat(0)
            for k in faults(rng, blocks, 4 if quick else 30):
                for f in (k, -k):
                    w.reset()
                    L.sh_alloc_reset(f)
                    rc, v = fn(L)
                    cx.count('fault allocator')
                    cx.eval((name, dig, 'alloc', f))
                    judge(cx, w, name, rc0, v0, rc, v, ref, 'allocation %d of %d refused' % (
                        f, blocks), sig)
            L.sh_alloc_reset(0)
            for k in faults(rng, n, 10 if quick else 120):
                for what in ((k, 0), (0, k)):
                    ops.Io.fault = what
                    rc, v = fn(L)
                    cx.count('fault stream-short' if what[1] else 'fault stream')
                    cx.eval((name, dig, 'io', what))
                    judge(cx, w, name, rc0, v0, rc, v, ref, 'stream call %d of %d %s' % (
                        k, n, 'short' if what[1] else 'failed'), sig)
        finally:
            ops.Io.fault = (0, 0)
            L.sh_alloc_default()
    cx.drop(d)


def faults(rng, n, lim):
    ks = list(range(1, n + 1))
    if n > lim:
        ks = sorted({1, 2, n} | set(rng.sample(ks, lim - 3)))
    return ks


def judge(cx, w, name, rc0, v0, rc, v, ref, how, sig):
    if rc:
        cx.count('reported')
        return
    cx.count('survived')
    if not cx.check_that(rc0 == 0, 'success-because-of-fault:' + name, how):
        return
    from checks import c11
    cx.check_that(v == v0 or sig, 'wrong-value:' + name, how)
    st = w.state()
    cx.check_that(c11.same(w, ref, st), 'success-with-other-content:' + name,
                  lambda: '%s: %s' % (how, c11.diff(w, ref, st)))
