"""C27: a package stays usable after a failure."""
import ctypes as C
import hashlib
import os
import resource
import sys
import traceback

from vlib import clib, core, fmt, gen, ops

PROPERTY = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('fault injection in the middle of a history on one open package (library and Python '
             'objects): file size limits and refused allocations while one operation runs, then '
             'further operations without faults; oracle: fault-free histories with and without '
             'the failed operation')
LEVEL_NOTE = ('Random histories of up to four operations on seeded archives; the fault is drawn '
              'over all allocations and over file sizes around every boundary.')
BUILD = {'plain': ['lib', 'py', 'mtrace']}
PRELOAD = 'mtrace'
RULE = ('One judged execution per history in which an operation was reported as failed. Distinct: '
        'by input digest, operations and fault; histories whose fault was not reached or had no '
        'effect are not counted.')
REQUIRED = {'histories': 3000, 'fault malloc': 500, 'fault fsize': 900, 'lib': 1200, 'python': 900,
            'repeated': 1000, 'other operation': 900, 'as if not attempted': 1500,
            'failed twice': 300, 'streams repeated': 40, 'fault pymem': 200, 'fault read': 150, 'fault write': 150}
ASSUMPTIONS = ['the fault is over when the next operation starts, or persists for one more',
               'an I/O error in the middle of moving data during a delete is not repairable and '
               'not judged (C11 demands that it is reported)',
               'bytes behind the end of the package are not judged']

L_OPS = ['file', 'file', 'merkle', 'merkle', 'key', 'meta', 'del', 'delall', 'sign', 'rawsig',
         'verify', 'digest', 'parthash', 'extract', 'write']
P_OPS = ['file', 'file', 'merkle', 'merkle', 'key', 'meta', 'del', 'sign', 'rawsig', 'verify',
         'digest', 'read', 'keyid', 'ksid', 'skind', 'setid', 'metaid', 'metaref', 'metaraw',
         'delmeta', 'list']


def cases(tier):
    return 96 if tier == 'quick' else 2500


class Op:
    def __init__(self, w, rng, name):
        self.name = name
        self.pn = rng.choice(['zz', 'zz', w.spec.parts[0].name])
        self.pid = rng.choice(w.arc.h.part_list()).id
        self.flag = rng.choice([0, 1])
        self.data = rng.randbytes(rng.choice([0, 1, 8, 40, 300]))
        self.mid = rng.choice([0x1234567, 77])
        self.val = rng.getrandbits(32) or 1
        self.key = w.key
        self.pub = rng.choice(w.key.pubs)
        self.priv = rng.choice(w.key.privs)
        self.sig = w.inputs['sig.bin']
        m = w.arc.h.meta_list()
        self.meta = rng.choice(m)[0] if m else (0, 0)

    @property
    def rsa(self):
        return self.name in ('sign', 'verify', 'key') and self.key.key.kind == 'rsa'


class Lib:
    kind = 'lib'

    def __init__(self, cx, w):
        self.cx, self.w = cx, w
        self.L = clib.load(cx, 'plain')
        self.p = clib.Pkg(self.L, w.path('a.bpak'), 'r+')
        if self.p.rc:
            raise core.Violation('valid-archive-refused', str(self.p.rc))

    def call(self, o, T):
        """(rc, value)"""
        p, w = self.p.p, self.w
        e = lambda n: w.path(n).encode()
        n = o.name
        if n == 'file':
            return T.pkg_add_file(p, e('f.bin'), o.pn.encode(), o.flag), None
        if n == 'merkle':
            return T.pkg_add_file_with_merkle_tree(p, e('m.bin'), o.pn.encode(), o.flag), None
        if n == 'key':
            return T.pkg_add_key(p, o.pub.encode(), o.pn.encode(), o.flag), None
        if n == 'meta':
            # the caller looks after the header it changed
            old = self.p.header()
            out = C.c_void_p()
            rc = T.add_meta(self.p.hptr(), o.mid, 0, 8, C.byref(out))
            rc = rc or T.pkg_write_header(p)
            if rc:
                C.memmove(self.p.hptr(), old, fmt.HDR)
            return rc, None
        if n == 'del':
            return T.pkg_delete_part(p, o.pid, bool(o.flag)), None
        if n == 'delall':
            return T.pkg_delete_all_parts(p, bool(o.flag)), None
        if n == 'sign':
            return T.pkg_sign(p, o.priv.encode()), None
        if n == 'rawsig':
            b = clib.Buf(o.sig)
            return T.pkg_write_raw_signature(p, b.p, b.n), None
        if n == 'verify':
            out = C.c_void_p()
            rc = T.crypto_load_public_key(o.pub.encode(), C.byref(out))
            if rc:
                return rc, None
            k = out.value
            rc = T.pkg_verify(p, k)
            T.free(k)
            return rc, None
        if n == 'digest':
            b = clib.Buf(64, 0)
            s = C.c_size_t(64)
            rc = T.pkg_update_hash(p, b.p, C.byref(s))
            return rc, (None if rc else b.get(s.value))
        if n == 'parthash':
            b = clib.Buf(32, 0)
            rc = T.pkg_part_sha256(p, b.p, 32, o.pid)
            return rc, (None if rc else b.get())
        if n == 'extract':
            rc = T.pkg_extract_file(p, o.pid, e('x.out'))
            return rc, (None if rc else gen.read(w.path('x.out')))
        if n == 'write':
            return T.pkg_write_header(p), None
        raise AssertionError(n)

    def run(self, o, k=0):
        T = clib.Tracked(self.L) if k else self.L
        return self.call(o, T)

    def close(self):
        return self.p.close()


class Py:
    kind = 'python'

    def __init__(self, cx, w):
        self.w = w
        self.B = module(cx)
        self.p = self.B.Package(w.path('a.bpak'), 'r+')
        self.mt = C.CDLL(None)

    def call(self, o):
        p, w, n = self.p, self.w, o.name
        if n == 'file':
            return p.add_file(o.pn, w.path('f.bin'))
        if n == 'merkle':
            return p.add_file(o.pn, w.path('m.bin'), True)
        if n == 'key':
            return p.add_key(o.pn, o.pub)
        if n == 'meta':
            return p.add_meta(o.mid, 0, o.data)
        if n == 'del':
            return p.get_part(o.pid).delete()
        if n == 'setid':
            p.get_part(o.pid).id = o.val
            return None
        if n == 'read':
            return p.get_part(o.pid).read_data()
        if n in ('metaid', 'metaref', 'metaraw', 'delmeta'):
            m = p.get_meta(*o.meta)
            if n == 'metaid':
                m.id = o.val
            elif n == 'metaref':
                m.part_id_ref = o.val
            elif n == 'metaraw':
                m.raw_data = (o.data + bytes(m.size))[:m.size]
            else:
                m.delete()
            return None
        if n == 'sign':
            return p.sign(o.priv)
        if n == 'rawsig':
            p.signature = o.sig
            return None
        if n == 'verify':
            return p.verify(o.pub)
        if n == 'digest':
            d = p.digest
            if d is None:
                raise ValueError('no digest')
            return d
        if n == 'keyid':
            p.key_id = o.val
        elif n == 'ksid':
            p.keystore_id = o.val
        elif n == 'skind':
            p.signature_kind = o.val % 5
        elif n == 'list':
            return [(x.id, x.size, x.offset) for x in p.parts], \
                [(m.id, m.part_id_ref, m.raw_data) for m in p.meta]

    def run(self, o, k=0):
        try:
            if k:
                self.mt.mt_enable(1)
            try:
                v = self.call(o)
            finally:
                if k:
                    self.mt.mt_enable(0)
        except SystemError as e:
            if e.__traceback__.tb_next is None:
                return 1, None      # the interpreter could not even make the call
            raise core.Violation('broken-call-protocol:' + o.name, traceback.format_exc())
        except Exception:
            return 1, None
        if type(v).__name__ in ('Part', 'Meta', 'bool'):
            v = None
        return 0, v

    def close(self):
        try:
            self.p.close()
        except Exception:
            return 1
        return 0


def module(cx):
    m = cx.state.get('bpak')
    if m is None:
        d = os.path.dirname(cx.builds['plain']['py'])
        if d not in sys.path:
            sys.path.insert(0, d)
        import bpak as m
        cx.state['bpak'] = m
        try:
            import _testcapi as t
        except ImportError:
            t = None
        cx.state['testcapi'] = t
        f = C.CDLL(None).mt_reset
        f.argtypes, f.restype = [C.c_long], None
        C.CDLL(None).mt_stat.restype = C.c_long
    return m


class Limit:
    """largest file size"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class NoAccess:
    """every read (or write) of the open file fails"""

    def __init__(self, path, what):
        self.path, self.what = os.path.realpath(path), what

    def __enter__(self):
        self.fd = [int(f) for f in os.listdir('/proc/self/fd')
                   if link('/proc/self/fd/' + f) == self.path]
        self.was = [os.dup(f) for f in self.fd]
        mode = os.O_WRONLY if self.what == 'read' else os.O_RDONLY
        for f in self.fd:
            at = os.lseek(f, 0, os.SEEK_CUR)
            t = os.open(self.path, mode)
            os.dup2(t, f)
            os.close(t)
            os.lseek(f, at, os.SEEK_SET)

    def __exit__(self, *a):
        for f, o in zip(self.fd, self.was):
            os.lseek(o, os.lseek(f, 0, os.SEEK_CUR), os.SEEK_SET)
            os.dup2(o, f)
            os.close(o)


def link(p):
    try:
        return os.readlink(p)
    except OSError:
        return None


def package(raw):
    """the bytes that belong to the package"""
    if raw is None or len(raw) < fmt.HDR:
        return raw
    h = fmt.Hdr(raw)
    return raw[:fmt.HDR + sum(p.stored() for p in h.part_list())]


class Out:
    """what a history left behind"""

    def __init__(self, w, rcs, vals, close):
        self.rcs, self.vals, self.close = rcs, vals, close
        self.raw = package(gen.read(w.path('a.bpak')))
        self.norm = ops.norm(w, self.raw)

    def key(self):
        return [bool(r) for r in self.rcs], bool(self.close), self.norm

    def show(self):
        return 'results %s close %d, %d bytes %s' % (self.rcs, self.close, len(self.raw or b''),
                                                     hashlib.sha1(self.norm or b'').hexdigest()[:10])


libc = C.CDLL(None)


def history(cx, w, api, lst, fault=None, times=1):
    """run the operations; the first one [times] times under the fault.
    Returns (failed, reached, Out of the rest)"""
    w.reset()
    o = api(cx, w)
    failed = []
    reached = 0
    kept = False
    if fault:
        kind, k = fault
        for _ in range(times):
            libc.srandom(7)
            if kind == 'fsize':
                with Limit(k):
                    r = o.run(lst[0])
                reached += 1
            elif kind in ('read', 'write'):
                with NoAccess(w.path('a.bpak'), kind):
                    r = o.run(lst[0])
                reached += 1
            elif kind == 'malloc':
                T = C.CDLL(None)
                T.mt_exempt(b'python' if api is Py else b'')
                T.mt_reset(C.c_long(k))
                r = o.run(lst[0], 1)
                reached += T.mt_stat(3)
                T.mt_reset(C.c_long(0))
                T.mt_exempt(b'')
            else:
                t = cx.state['testcapi']
                t.set_nomemory(k, k + 1)
                try:
                    r = o.run(lst[0])
                except MemoryError:
                    r = 1, None
                finally:
                    t.remove_mem_hooks()
                reached += 1
            failed.append(r[0])
        lst = lst[1:]
        now = gen.read(w.path('a.bpak'))
        kept = now is not None and package(now) == package(w.inputs['a.bpak'])
    rcs, vals = [], []
    for x in lst:
        libc.srandom(7)
        r, v = o.run(x)
        rcs.append(r)
        vals.append(v)
    c = o.close()
    out = Out(w, rcs, vals, c)
    out.kept = kept
    return failed, reached, out


def allocations(cx, w, api, op):
    w.reset()
    o = api(cx, w)
    T = C.CDLL(None)
    T.mt_exempt(b'python' if api is Py else b'')
    T.mt_reset(C.c_long(0))
    o.run(op, 1)
    n = T.mt_stat(0)
    T.mt_reset(C.c_long(0))
    T.mt_exempt(b'')
    o.close()
    return n


def run_case(cx, i, rng):
    d = os.path.join(cx.tmp(), 'w')
    os.makedirs(d)
    w = ops.World(cx, rng, d, big=3000)
    module(cx)
    dig = hashlib.sha1(w.inputs['a.bpak']).hexdigest()[:8]
    api = Py if i % 2 else Lib
    names = P_OPS if api is Py else L_OPS
    for j in range(8 if cx.tier == 'quick' else 14):
        # every operation in turn
        a = Op(w, rng, names[(i // 2 * 8 + j) % len(names)])
        one(cx, rng, w, api, a, dig)
    if i % 4 == 0:
        streams(cx, rng, w, dig)


def one(cx, rng, w, api, a, dig):
    names = P_OPS if api is Py else L_OPS
    w.reset()
    libc.srandom(7)
    faults = []
    if not a.rsa:
        n = allocations(cx, w, api, a)
        ks = sorted(set(rng.sample(range(1, n + 1), min(n, 4))))
        faults += [('malloc', k if rng.random() < .7 else -k) for k in ks]
        if api is Py and cx.state['testcapi']:
            faults += [('pymem', rng.randint(0, 8)), ('pymem', rng.randint(0, 30))]
    if a.name != 'del':
        alone = history(cx, w, api, [a])[2]
        top = max(len(alone.raw or b''), len(w.inputs['a.bpak']))
        pts = {0, 1, 511, 4095, 4096, top - 1, top - 512, top - 4096, top - 4097,
               len(w.inputs['a.bpak']), len(w.inputs['a.bpak']) + 1, rng.randrange(top)}
        pts |= {rng.randrange(len(w.inputs['a.bpak']), top + 1) for _ in range(3)}
        faults += [('fsize', k) for k in rng.sample(sorted(p for p in pts if 0 <= p < top), 6)]
        faults.append(('write', 0))
    faults.append(('read', 0))
    for f in faults:
        k = rng.randrange(10)
        if k < 5:
            rest = [a]
            what = 'repeated'
        else:
            rest = [Op(w, rng, rng.choice(names))]
            what = 'other operation'
        if rng.random() < .4:
            rest.append(Op(w, rng, rng.choice(names)))
        if f[0] == 'fsize' and f[1] < fmt.HDR or f[0] == 'write':
            # the header in the file may be torn until it is written again
            rest.append(Op(w, rng, 'write' if api is Lib else 'ksid'))
        times = 2 if rng.random() < .25 else 1
        failed, reached, got = history(cx, w, api, [a] + rest, f, times)
        if not reached or not any(failed):
            continue
        if not failed[-1]:
            continue            # the second attempt worked
        names_ = [o.name for o in [a] + rest]
        without = history(cx, w, api, rest)[2]
        done = history(cx, w, api, [a] + rest)[2]
        done.rcs, done.vals = done.rcs[1:], done.vals[1:]
        cx.count('histories')
        cx.count('fault ' + f[0])
        cx.count(api.kind)
        cx.count(what)
        cx.count('failed twice', int(times == 2))
        cx.eval((dig, tuple(names_), a.pn, f, times))
        salted = any(o.name == 'merkle' for o in [a] + rest)

        def same(x):
            return got.key() == x.key() and (salted or got.vals == x.vals)
        if same(without):
            cx.count('as if not attempted')
            continue
        if same(done) and not got.kept:
            cx.count('as if completed')
            continue
        k = next((k for k in range(min(len(got.norm), len(without.norm)))
                  if got.norm[k] != without.norm[k]), -1)
        cx.violation('unusable-after-failure:%s:%s' % (api.kind, a.name),
                     '%s under %s (%d times), then %s\ngot      %s\nwithout  %s\nafter it %s\n'
                     'archive left unchanged by it: %s\nfirst difference to "without" at %d' % (
                         a.name, f, times, names_[1:], got.show(), without.show(), done.show(),
                         got.kept, k))


def streams(cx, rng, w, dig):
    """encode and decode again with the same three packages"""
    L = clib.load(cx, 'plain')
    ops.add_encoded(cx, L, w)
    if 'e.bpak' not in w.inputs:
        return
    for what, inp in (('encode', 'n.bpak'), ('decode', 'e.bpak')):
        w.reset()
        ref = xport(L, w, what, inp, [None])
        if ref[0][-1]:
            continue
        n = len(ref[1])
        T = clib.Tracked(L)
        T.mt_reset(0)
        xport(T, w, what, inp, [None])
        al = T.mt_stat(0)
        faults = [('fsize', rng.randrange(n)) for _ in range(4)]
        faults += [('fsize', k) for k in (0, 4095, 4096, n - 1) if k < n]
        faults += [('malloc', rng.randint(1, al)) for _ in range(6)]
        for f in faults:
            w.reset()
            got = xport(T, w, what, inp, [f, None])
            if not got[0][0]:
                continue
            cx.count('streams repeated')
            cx.eval((dig, what, f))
            cx.check_that(not got[0][1] and package(got[1]) == package(ref[1]),
                          'unusable-after-failure:' + what,
                          '%s under %s, then again: %s, %d bytes instead of %d' % (
                              what, f, got[0], len(got[1]), n))


def xport(T, w, what, inp, faults):
    p = clib.Pkg(T, w.path(inp), 'r')
    q = clib.Pkg(T, w.path('o.bpak'), 'r')
    o = clib.Pkg(T, w.path('t.out'), 'w+')
    f = T.pkg_transport_encode if what == 'encode' else T.pkg_transport_decode
    rcs = []
    for x in faults:
        if x and x[0] == 'fsize':
            with Limit(x[1]):
                rcs.append(f(p.p, o.p, q.p))
        else:
            if x:
                T.mt_reset(x[1])
            rcs.append(f(p.p, o.p, q.p))
            if x:
                T.mt_reset(0)
    rcs[-1] = rcs[-1] or o.close()
    p.close()
    q.close()
    return rcs, gen.read(w.path('t.out'))
