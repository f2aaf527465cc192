"""C12: package and payload hashes equal an independent computation."""
import ctypes as C
import hashlib
import json
import os
import re
import subprocess
import sys

from vlib import cli, clib, core, fmt, gen, huge
from checks import c17

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('differential monitor: stored, library, tool and Python digests of the same archive '
             'against hashlib over the documented byte ranges, read requests recorded; ASan/UBSan '
             'on exact-size result buffers')
LEVEL_NOTE = ('Sampled archives (built by tool, library and model; all hash kinds, excluded, '
              'merkle, transport-encoded and empty parts, sizes around the internal chunk size); '
              'trusts hashlib and vlib/fmt.py.')
BUILD = {'asan': ['lib', 'tool', 'py'], 'plain': ['tool']}
PRELOAD = 'asan'
RULE = ('A case draws an archive and compares the digests of every interface. Distinct: by digest '
        'of the archive bytes and interface.')
REQUIRED = {'signatures taken': 2000, 'stored payload hashes': 60, 'library digests': 150, 'tool digests': 60,
            'python digests': 20, 'part digests': 200, 'short buffers refused': 300,
            'streams hashed': 300, 'huge archives': 5}
ASSUMPTIONS = []

PY = r'''
import sys, bpak, json
out = []
for a in json.loads(sys.stdin.read()):
    p = bpak.Package(a, 'r')
    d = p.digest
    out.append([d.hex() if d is not None else None, p.hash_kind])
    p.close()
print(json.dumps(out))
'''


def cases(tier):
    return 200 if tier == 'quick' else 3000


def take_signature(cx, L, rng, raw, ident):
    """the signature taken out of a header leaves exactly the bytes that the package
    hash is made of"""
    for ln in {0, 1, 70, 511, 512, 513, 65535, rng.randint(2, 510)}:
        h = fmt.Hdr(raw)
        # bytes behind the recorded length belong to the zeroed fields too
        h.signature = rng.randbytes(512) if rng.random() < .7 else \
            rng.randbytes(min(ln, 512)).ljust(512, b'\0')
        h.signature_sz = ln
        before = h.pack()
        for cap in {ln, ln - 1, 512, 0, 511, rng.randint(0, 600), 70000 if ln > 512 else 512}:
            if cap < 0:
                continue
            hb, sb, n = clib.Buf(before), clib.Buf(cap), C.c_size_t(cap)
            sb.set(b'\xa5' * cap)
            rc = L.copyz_signature(hb.p, sb.p, C.byref(n))
            what = '%d bytes into %d: %d' % (ln, cap, rc)
            cx.eval(('take', ident, ln, cap))
            cx.count('signatures taken')
            if not 1 <= ln <= 512 or cap < ln:
                cx.check_that(rc != 0 and hb.get() == before, 'take-signature-not-refused', what)
                continue
            cx.check_that(rc == 0 and n.value == ln and sb.get() == h.signature[:ln] +
                          b'\xa5' * (cap - ln), 'taken-signature-differs', what)
            left = hb.get()
            cx.check_that(left == before[:fmt.HDR - 514] + bytes(514) and
                          fmt.HASHES[h.hash_kind](left).digest() == fmt.package_hash(before),
                          'header-without-signature', what)


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 1000 == 3:
        return huge_hash(cx, rng)
    if i % 20 == 11:
        return huge_case(cx, L, rng)
    d = cx.tmp()
    s = gen.spec(rng, maxparts=6, big=rng.choice([3000, 20000, 70000]))
    how = ['tool', 'model', 'lib', 'model', 'model-transport', 'maxparts'][i % 6]
    if how == 'tool':
        path = gen.build_tool(cx, s, d)
    elif how == 'lib':
        path = gen.build_lib(cx, L, s, d)
    elif how == 'maxparts':
        a = fmt.Archive(s.hash_kind, s.sign_kind)
        for k in range(rng.choice([31, 32])):
            a.add('p%d' % k, gen.content(rng, gen.size(rng, 3000)),
                  fmt.F_EXCLUDE if rng.random() < .3 else 0)
        path = gen.put(d, 'a.bpak', a.finish().bytes())
    else:
        a = gen.model(s, rng=rng)
        if how == 'model-transport':
            for k, p in enumerate(a.h.part_list()):
                if rng.random() < 0.6:
                    p.flags |= fmt.F_TRANSPORT
                    p.tsize = rng.choice([0, 1, p.size, rng.randint(0, 5000)])
                    a.data[k] = rng.randbytes(p.tsize)
            a.finish()
        path = gen.put(d, 'a.bpak', a.bytes())
    raw = gen.read(path)
    h = fmt.Hdr(raw)
    dl = fmt.HASHES[h.hash_kind]().digest_size
    pay = fmt.payload_hash(h, raw)
    ident = hashlib.sha1(raw).hexdigest()
    if how in ('tool', 'lib'):
        cx.check_that(h.payload_hash == pay.ljust(64, b'\0'), 'stored-payload-hash',
                      '%s %r %s != %s' % (how, s, h.payload_hash.hex(), pay.hex()))
        cx.count('stored payload hashes')
        cx.eval(('stored', ident))
    pkgh = fmt.package_hash(raw)

    # library: header hash and payload hash of a stream at any offset
    hb = clib.Buf(raw[:fmt.HDR])
    base = rng.choice([fmt.HDR, 0, 1, 12345])
    m = clib.Mem(bytes(base) + raw[fmt.HDR:])
    for want in (0, 1):
        for cap in {0, 1, dl - 1, dl, dl + 1, 64, rng.randint(0, 64)}:
            out = clib.Buf(cap)
            n = C.c_size_t(cap)
            if want:
                rc = L.verify_compute_header_hash(hb.p, out.p, C.byref(n))
                exp = pkgh
            else:
                rc = L.verify_compute_payload_hash(hb.p, m.r, base, None, out.p, C.byref(n))
                exp = pay
            nm = ('header', 'payload')[1 - want]
            if cap < dl:
                cx.check_that(rc < 0, 'short-buffer-accepted:' + nm, 'cap %d rc %d' % (cap, rc))
                cx.count('short buffers refused')
            else:
                cx.check_that(rc == 0 and n.value == dl and out.get(dl) == exp, nm + '-hash',
                              lambda: '%r cap %d rc %d n %d %s != %s' % (
                                  s, cap, rc, n.value, out.get(min(dl, cap)).hex(), exp.hex()))
                cx.count('library digests')
            cx.eval((nm, cap, ident))
    cx.check_that(hb.get() == raw[:fmt.HDR], 'hashing-changes-header', repr(s))
    cx.check_that(not m.bad, 'bad-read', str(m.bad))

    take_signature(cx, L, rng, raw, ident)

    # library: package file
    p = clib.Pkg(L, path, 'r')
    if p.rc:
        raise core.Violation('open', str(p.rc))
    for cap in (64, dl, dl - 1, 0):
        out, n = clib.Buf(cap), C.c_size_t(cap)
        rc = L.pkg_update_hash(p.p, out.p, C.byref(n))
        if cap < dl:
            cx.check_that(rc < 0, 'short-buffer-accepted:package', 'cap %d' % cap)
            cx.count('short buffers refused')
        else:
            cx.check_that(rc == 0 and n.value == dl and out.get(dl) == pkgh, 'package-hash',
                          lambda: '%s %r %d %s %s' % (how, s, rc, out.get(dl).hex(), pkgh.hex()))
            cx.count('library digests')
        cx.eval(('pkg', cap, ident))
    cx.check_that(p.header() == raw[:fmt.HDR], 'update-hash-changes-more', repr(s))
    # a stale payload hash is recomputed, as documented
    pl, end = fmt.positions(h)
    for q, pos in pl:
        own = raw[pos:pos + (q.tsize if q.flags & fmt.F_TRANSPORT else q.size)]
        for cap in (32, rng.choice([33, 64]), rng.randint(0, 31)):
            out = clib.Buf(cap)
            rc = L.pkg_part_sha256(p.p, out.p, cap, q.id)
            if cap < 32:
                cx.check_that(rc < 0, 'short-buffer-accepted:part', 'cap %d' % cap)
                cx.count('short buffers refused')
            else:
                cx.check_that(rc == 0 and out.get(32) == hashlib.sha256(own).digest(),
                              'part-hash', lambda: '%r rc %d' % (q, rc))
                cx.count('part digests')
            cx.eval(('part', ident, q.id, cap))
    miss = rng.getrandbits(32) | 1
    if h.part(miss) is None:
        cx.check_that(L.pkg_part_sha256(p.p, clib.Buf(32).p, 32, miss) < 0, 'missing-part-hash', '')
    # the flag of a single part decides about it
    if pl and rng.random() < 0.5:
        k = rng.randrange(len(pl))
        h2 = fmt.Hdr(raw)
        h2.part_list()[k].flags ^= fmt.F_EXCLUDE
        out, n = clib.Buf(64), C.c_size_t(64)
        b2 = clib.Buf(h2.pack())
        rc = L.verify_compute_payload_hash(b2.p, m.r, base, None, out.p, C.byref(n))
        cx.check_that(rc == 0 and out.get(dl) == fmt.payload_hash(h2, raw), 'exclude-flag',
                      repr(pl[k][0]))
        cx.eval(('flag', ident, k))
    p.close()

    # tool
    if i % 2 == 0:
        r = cli.run(cx, ['show', 'a.bpak', '--hash'], d)
        cx.check_that(r.ok and r.out.strip().lower() == pkgh.hex().encode(), 'tool-text-hash',
                      lambda: '%s expected %s' % (r.brief(), pkgh.hex()))
        r = cli.run(cx, ['show', 'a.bpak', '--binary-hash'], d)
        cx.check_that(r.ok and r.out == pkgh, 'tool-binary-hash', lambda: r.out.hex())
        r = cli.run(cx, ['show', 'a.bpak'] + (['-v'] if rng.random() < .3 else []), d)
        mm = re.search(rb'Header hash: +([0-9a-f]+)', r.out)
        mp = re.search(rb'Payload hash: +([0-9a-f]+)', r.out)
        cx.check_that(r.ok and mm and mp and mm.group(1) == pkgh.hex().encode() and
                      mp.group(1) == pay.hex().encode(), 'tool-listing-hash', r.brief)
        cx.check_that(b'does not match payload' not in r.out, 'tool-false-warning', r.brief)
        cx.count('tool digests', 3)
        cx.eval(('tool', ident), 3)
        for q, pos in pl[:4]:
            own = raw[pos:pos + (q.tsize if q.flags & fmt.F_TRANSPORT else q.size)]
            r = cli.run(cx, ['show', 'a.bpak', '--part-hash', '0x%x' % q.id], d)
            cx.check_that(r.ok and r.out.strip() == hashlib.sha256(own).hexdigest().encode(),
                          'tool-part-hash', r.brief)
            cx.count('part digests')
    if i % 4 == 1 or how == 'tool':
        pr = subprocess.run([sys.executable, '-c', PY], input=json.dumps([path]).encode(),
                            env=c17.python_env(cx), stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, timeout=200)
        k = core.san_summary(pr.stderr.decode('utf-8', 'replace'))
        if k or pr.returncode:
            raise core.Violation(k or 'python-fails', pr.stderr[-2000:].decode('utf-8', 'replace'))
        got = json.loads(pr.stdout)[0]
        cx.check_that(got == [pkgh.hex(), h.hash_kind], 'python-digest', '%r %s' % (got, pkgh.hex()))
        cx.count('python digests')
        cx.eval(('py', ident))
    cx.check_that(gen.read(path) == raw, 'hashing-changes-file', repr(s))
    stream(cx, L, rng)
    cx.sample('%s %r' % (how, s))
    cx.drop(d)


def huge_case(cx, L, rng):
    """the digests of archives with parts beyond 2 and 4 GiB"""
    d = cx.tmp()
    H = huge.Huge(rng)
    path = huge.put(d, 'a.bpak', H)
    h = H.header()
    dl = fmt.HASHES[h.hash_kind]().digest_size
    pay, pkgh = h.payload_hash[:dl], fmt.package_hash(h)
    what = 'huge archive %s' % H
    # by callbacks, from any place of a stream
    at, end = H.positions()
    base = rng.choice([0, fmt.HDR, rng.choice([1 << 31, (1 << 32) - 100, 1 << 40])])
    m = clib.Sparse()
    for p, o in zip(H.parts, at):
        if p[4] is not None:
            m.store(base + o - fmt.HDR, p[4] + bytes(fmt.padlen(p[1])))
    hb, out, n = clib.Buf(h.pack()), clib.Buf(64), C.c_size_t(64)
    rc = L.verify_compute_payload_hash(hb.p, m.r, base, None, out.p, C.byref(n))
    cx.check_that(rc == 0 and out.get(dl) == pay and not m.bad, 'payload-hash',
                  lambda: '%s rc %d %s' % (what, rc, m.bad))
    with clib.Pkg(L, path, 'r') as p:
        if p.rc:
            raise core.Violation('open', '%s %d' % (what, p.rc))
        out, n = clib.Buf(64), C.c_size_t(64)
        rc = L.pkg_update_hash(p.p, out.p, C.byref(n))
        cx.check_that(rc == 0 and out.get(dl) == pkgh, 'package-hash', '%s %d' % (what, rc))
        for q in H.small():
            out = clib.Buf(32)
            rc = L.pkg_part_sha256(p.p, out.p, 32, q[0])
            cx.check_that(rc == 0 and out.get(32) == hashlib.sha256(q[4]).digest(), 'part-hash',
                          '%s %x rc %d' % (what, q[0], rc))
    r = cli.run(cx, ['show', 'a.bpak', '--hash'], d)
    cx.check_that(r.ok and r.out.strip().lower() == pkgh.hex().encode(), 'tool-text-hash', r.brief)
    r = cli.run(cx, ['show', 'a.bpak', '-v'], d)
    cx.check_that(r.ok and b'does not match payload' not in r.out, 'tool-false-warning', r.brief)
    q = rng.choice(H.small())
    r = cli.run(cx, ['show', 'a.bpak', '--part-hash', '0x%x' % q[0]], d)
    cx.check_that(r.ok and r.out.strip() == hashlib.sha256(q[4]).hexdigest().encode(),
                  'tool-part-hash', r.brief)
    x = H.differs(path)
    cx.check_that(x is None, 'hashing-changes-file', lambda: '%s %s' % (what, x))
    cx.count('huge archives')
    cx.eval(('huge', str(H), base), 3)
    cx.sample(what)
    cx.drop(d)


def huge_hash(cx, rng):
    """4 GiB that are really hashed"""
    d = cx.tmp()
    hk = rng.choice([1, 3])
    n = (1 << 32) + rng.choice([-512, 0, 100, 5000])
    first = rng.randbytes(700)
    h = fmt.Archive(hk).h
    h.parts[0] = fmt.Part(7, 700, fmt.HDR, 0, fmt.padlen(700), 0)
    h.parts[1] = fmt.Part(8, n, fmt.HDR + 1024, 0, fmt.padlen(n), 0)
    path = os.path.join(d, 'a.bpak')
    with open(path, 'wb') as f:
        f.write(h.pack() + first)
        f.truncate(fmt.HDR + 1024 + n + fmt.padlen(n))
    run = [subprocess.Popen([cx.builds['plain']['tool'], 'show', 'a.bpak'] + args, cwd=d,
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT)
           for args in (['--hash'], ['--part-hash', '0x8'])]
    pay = fmt.HASHES[hk](first + bytes(324))
    own = hashlib.sha256()
    z = bytes(1 << 20)
    left = n
    while left:
        k = min(left, len(z))
        pay.update(z[:k])
        own.update(z[:k])
        left -= k
    pay.update(bytes(fmt.padlen(n)))
    h.payload_hash = pay.digest().ljust(64, b'\0')
    for p, want in zip(run, (fmt.package_hash(h), own.digest())):
        try:
            out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            for x in run:
                x.kill()
                x.wait()
            raise core.Inconclusive('hashing 4 GiB takes too long here')
        cx.check_that(p.returncode == 0 and out.strip() == want.hex().encode(),
                      'huge-part-hash', '%d bytes %s: %s want %s' % (n, p.args[3:], out, want.hex()))
        cx.eval((n, hk, p.args[3]))
    cx.count('hashed 4 GiB', 2)
    cx.sample('a part of %d bytes hashed' % n)
    cx.drop(d)


def stream(cx, L, rng):
    """the streaming digest interface"""
    for kind in (1, 2, 3, 0, 4, rng.randint(5, 255)):
        ctx = clib.Buf(L.size(clib.HASHCTX), 0x5a)
        rc = L.hash_init(ctx.p, kind)
        if kind not in fmt.HASHES:
            cx.check_that(rc < 0, 'unknown-hash-kind-accepted', 'kind %d' % kind)
            continue
        data = gen.content(rng, gen.size(rng, 9000))
        pos = 0
        while pos < len(data):
            n = rng.choice([1, 63, 64, 65, 127, 128, 129, rng.randint(1, 4000)])
            b = clib.Buf(data[pos:pos + n])
            rc |= L.hash_update(ctx.p, b.p, b.n)
            pos += n
        dl = fmt.HASHES[kind]().digest_size
        cap = rng.choice([dl, dl, 64, dl - 1, 0])
        out, n = clib.Buf(cap), C.c_size_t(77)
        rc |= L.hash_final(ctx.p, out.p, cap, rng.choice([C.byref(n), None])
                           if cap >= dl else C.byref(n))
        if cap < dl:
            cx.check_that(rc < 0, 'short-buffer-accepted:stream', 'kind %d cap %d' % (kind, cap))
            cx.count('short buffers refused')
        else:
            cx.check_that(rc == 0 and out.get(dl) == fmt.HASHES[kind](data).digest() and
                          n.value in (77, dl), 'stream-digest', 'kind %d len %d' % (kind, len(data)))
        L.hash_free(ctx.p)
        cx.count('streams hashed')
        cx.eval(('stream', kind, len(data), cap))
