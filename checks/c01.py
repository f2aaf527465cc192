"""C01: every package signed with a supported key verifies with the matching key."""
import base64
import ctypes as C
import json
import os
import subprocess
import sys

from vlib import cli, clib, core, fmt, gen, huge, pk
from checks import c17

PROPERTY = 'C01'
LEVEL = 'exploration'
TECHNIQUE = ('differential monitor: signatures made by tool, library, Python and externally are '
             'verified by every interface and by an independent ECDSA/RSA verifier, file '
             'difference monitored; ASan/UBSan')
LEVEL_NOTE = ('Sampled archives, all hash kinds x key types x signing and verifying interfaces and '
              'key file formats per run; the oracle is an independent verifier (vlib/pk.py, '
              'checked against openssl).')
BUILD = {'asan': ['lib', 'tool', 'py'], 'plain': ['tool']}
PRELOAD = 'asan'
RULE = ('A case draws an archive, a hash kind, a key (type, file format) and a signing interface, '
        'signs (possibly twice), checks signature and file difference and verifies with tool '
        '(key and keystore), library and Python. Distinct: by archive, key, interfaces.')
REQUIRED = {'huge archives': 3, 'signed by tool': 20, 'signed by lib': 20, 'signed by python': 10,
            'signed by external': 20, 'verifications': 300, 'keystore verifications': 40,
            'type rsa': 15, 'type p256': 15, 'type p384': 15, 'type p521': 15,
            'hash 1': 15, 'hash 2': 15, 'hash 3': 15, 'resigned': 15, 'drbg signatures': 40,
            'parts in another order': 8, 'parts added again': 3}
ASSUMPTIONS = ['RSA-4096 signatures are PKCS#1 v1.5, ECDSA signatures DER encoded (as openssl '
               'makes and accepts)']

PY_SIGN = r'''
import sys, bpak, json
d = json.loads(sys.stdin.read())
p = bpak.Package(d['a'], 'r+')
p.sign(d['k'])
s = p.signature
p.close()
print(json.dumps({'sig': s.hex() if s is not None else None}))
'''
PY_VERIFY = r'''
import sys, bpak, json
d = json.loads(sys.stdin.read())
res = []
for a, k in d['todo']:
    p = bpak.Package(a, 'r')
    try:
        r = p.verify(k)
    except Exception as e:
        r = repr(e)
    p.close()
    res.append(r)
print(json.dumps(res))
'''


def cases(tier):
    return 144 if tier == 'quick' else 2400


def python(cx, code, arg):
    p = subprocess.run([sys.executable, '-c', code], input=json.dumps(arg).encode(),
                       env=c17.python_env(cx), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=240)
    k = core.san_summary(p.stderr.decode('utf-8', 'replace'))
    if k:
        raise core.Violation(k, p.stderr[-3000:].decode('utf-8', 'replace'))
    if p.returncode < 0:
        raise core.Violation('python-signal', p.stderr[-2000:].decode('utf-8', 'replace'))
    if p.returncode:
        return None, p.stderr[-2000:].decode('utf-8', 'replace')
    return json.loads(p.stdout.splitlines()[-1]), p.stderr.decode('utf-8', 'replace')


def load_pub(cx, L, path):
    out = C.c_void_p()
    rc = L.crypto_load_public_key(path.encode(), C.byref(out))
    if rc:
        raise core.Violation('supported-public-key-refused', '%s -> %d' % (path, rc))
    return out


def keystore(rng, d, keys, ksid, name='ks.bpak'):
    """a keystore archive with several keys"""
    a = fmt.Archive()
    a.meta(fmt.KSP_ID, fmt.struct.pack('<I', ksid))
    for nm, k in keys:
        a.add(nm, k.der)
    return gen.put(d, name, a.finish().bytes())


def check_signature(cx, key, raw, before, tag):
    """the stored signature is right and nothing else changed"""
    h = fmt.Hdr(raw)
    b = fmt.Hdr(before)
    n = h.signature_sz
    if key.key.kind == 'rsa':
        ln = 512
    else:
        t = h.signature
        ln = (2 + t[1]) if t[1] < 0x80 else 3 + t[2]
    cx.check_that(n == ln, 'signature-length:' + tag, '%s: recorded %d, is %d' % (key, n, ln))
    cx.check_that(not any(h.signature[n:]), 'signature-leftovers:' + tag, '%s %s' % (
        key, h.signature[n:].hex()))
    dg = fmt.package_hash(raw)
    cx.check_that(pk.verify(key.key, dg, h.hash_kind, h.signature[:n]), 'signature-invalid:' + tag,
                  '%s %s' % (key, h.signature[:n].hex()))
    cx.check_that(h.payload_hash == fmt.payload_hash(h, raw).ljust(64, b'\0'),
                  'payload-hash:' + tag, repr(key))
    b.payload_hash, b.signature, b.signature_sz = h.payload_hash, h.signature, h.signature_sz
    cx.check_that(b.pack() == raw[:fmt.HDR] and raw[fmt.HDR:] == before[fmt.HDR:],
                  'signing-changes-more:' + tag,
                  lambda: 'first difference at %d' % next(
                      (j for j in range(max(len(raw), len(before)))
                       if (b.pack() + before[fmt.HDR:])[j:j + 1] != raw[j:j + 1]), -1))


def sign(cx, L, rng, how, d, name, key):
    path = os.path.join(d, name)
    priv = rng.choice(key.privs)
    if how == 'tool':
        gen.must(cli.run(cx, ['sign', name, '--key', priv], d), 'signing-fails')
    elif how == 'lib':
        p = clib.Pkg(L, path, 'r+')
        rc = p.rc or L.pkg_sign(p.p, priv.encode())
        cx.check_that(rc == 0, 'signing-fails:lib', '%s %s -> %d' % (key, priv, rc))
        rc = p.close()
        cx.check_that(rc == 0, 'close-fails', str(rc))
    elif how == 'python':
        r, err = python(cx, PY_SIGN, {'a': path, 'k': priv})
        if r is None:
            raise core.Violation('signing-fails:python', err)
        h = fmt.Hdr(gen.read(path))
        cx.check_that(r['sig'] == h.signature[:h.signature_sz].hex(), 'python-signature', repr(r))
    else:
        # externally: over the hash that the package reports
        if rng.random() < 0.5:
            dg = gen.must(cli.run(cx, ['show', name, '--binary-hash'], d)).out
        else:
            dg = bytes.fromhex(gen.must(cli.run(cx, ['show', name, '--hash'], d)).out
                               .decode().strip())
        hk = fmt.Hdr(gen.read(path)).hash_kind
        how = 'external'
        if rng.random() < 0.3:
            gen.put(d, 'dg', dg)
            subprocess.run(['openssl', 'pkeyutl', '-sign', '-inkey', key.priv, '-in', 'dg',
                            '-out', 'sig', '-pkeyopt', 'digest:' + fmt.HASH_NAMES[hk]] , cwd=d,
                           check=True, env={'PATH': '/usr/bin:/bin'}, stderr=subprocess.DEVNULL)
            sig = gen.read(os.path.join(d, 'sig'))
        else:
            sig = pk.sign(key.key, dg, hk, rng.random())
            gen.put(d, 'sig', sig)
        if rng.random() < 0.5:
            gen.must(cli.run(cx, ['sign', name, '--signature', 'sig'], d), 'attaching-fails')
        else:
            p = clib.Pkg(L, path, 'r+')
            sb = clib.Buf(sig)
            rc = p.rc or L.pkg_write_raw_signature(p.p, sb.p, sb.n)
            cx.check_that(rc == 0, 'attaching-fails:lib', str(rc))
            p.close()
        h = fmt.Hdr(gen.read(path))
        cx.check_that(h.signature[:h.signature_sz] == sig, 'attached-signature-differs',
                      '%s stored %s' % (sig.hex(), h.signature[:h.signature_sz].hex()))
    cx.count('signed by ' + how)


def verify_all(cx, L, rng, d, name, key, others, full=True):
    path = os.path.join(d, name)
    raw = gen.read(path)
    h = fmt.Hdr(raw)
    pub = rng.choice(key.pubs)
    k = load_pub(cx, L, pub)
    p = clib.Pkg(L, path, 'r')
    rc = p.rc or L.pkg_verify(p.p, k)
    p.close()
    L.free(k)
    cx.check_that(rc == 0, 'verify-fails:lib', '%s %s -> %d' % (key, pub, rc))
    cx.count('verifications')
    r = cli.run(cx, ['verify', name, '--key', rng.choice(key.pubs)], d)
    cx.check_that(r.ok, 'verify-fails:tool', r.brief)
    cx.count('verifications')
    if full:
        ks = [('k%d' % j, o) for j, o in enumerate(others)]
        # the package names key and keystore: put the key under that id
        a = fmt.Archive()
        a.meta(fmt.KSP_ID, fmt.struct.pack('<I', h.keystore_id))
        todo = [(fmt.bid(n), o) for n, o in ks if fmt.bid(n) != h.key_id]
        todo.insert(rng.randint(0, len(todo)), (h.key_id, key))
        if h.key_id:
            for n, o in todo:
                a.add(n, o.der)
            gen.put(d, 'ks.bpak', a.finish().bytes())
            r = cli.run(cx, ['verify', name, '--keystore', 'ks.bpak'], d)
            cx.check_that(r.ok, 'verify-fails:keystore', r.brief)
            cx.count('keystore verifications')
            cx.count('verifications')
    cx.check_that(gen.read(path) == raw, 'verification-changes-file', '')


def readd(cx, L, rng, d, s):
    """a part is taken out with its metadata kept and put back at the end"""
    p = rng.choice(s.parts)
    gen.must(cli.run(cx, ['delete', 'a.bpak', '--part', p.name, '--keep-meta'], d))
    gen.put(d, 're', p.data)
    r = cli.run(cx, ['add', 'a.bpak', '--part', p.name, '--from-file', 're'] +
                (['--encoder', 'key'] if p.kind == 'key' else []) +
                (['--set-flag', 'dont-hash'] if p.exclude else []), d)
    gen.must(r)
    cx.count('parts added again')


def huge_hashed(cx, rng):
    """signing and verifying a part of more than 4 GiB"""
    d = cx.tmp()
    keys = gen.keys(cx)
    key = keys[rng.choice(sorted(keys))]
    H = huge.Hashed(rng, key, rng.randint(2, 3))
    h = H.signed()
    H.write(os.path.join(d, 'v.bpak'), h)
    u = fmt.Hdr(H.h.pack())
    u.payload_hash = rng.choice([bytes(64), h.payload_hash])
    H.write(os.path.join(d, 's.bpak'), u)
    tool = cx.builds['plain']['tool']
    res = huge.parallel([[tool, 'verify', 'v.bpak', '--key', key.pub],
                         [tool, 'sign', 's.bpak', '--key', rng.choice(key.privs)]], d)
    if res is None:
        raise core.Inconclusive('hashing 4 GiB takes too long here')
    for (rc, out), what in zip(res, ('verify', 'sign')):
        cx.check_that(rc == 0, 'huge-hashed:%s-fails' % what, '%s, %d bytes: exit %d %r' % (
            key, H.n, rc, out[:300]))
        cx.eval((H.n, h.hash_kind, what))
    got = fmt.Hdr(huge.head(os.path.join(d, 's.bpak')))
    cx.check_that(got.payload_hash == h.payload_hash, 'huge-hashed:payload-hash', '%d bytes' % H.n)
    cx.check_that(pk.verify(key.key, fmt.package_hash(h), h.hash_kind,
                            got.signature[:got.signature_sz]),
                  'huge-hashed:signature-invalid', '%s %d bytes' % (key, H.n))
    cx.count('hashed 4 GiB', 2)
    cx.sample('a part of %d bytes signed' % H.n)
    cx.drop(d)


def huge_case(cx, L, i, rng):
    """signed parts and their hash trees beyond 2 and 4 GiB"""
    d = cx.tmp()
    ks = gen.keys(cx)
    key = ks[rng.choice(sorted(ks))]
    H = huge.Huge(rng)
    for k in range(rng.randint(0, 2)):
        H.tree('fs%d' % k, gen.content(rng, 4096 * rng.choice([1, 3, 130])),
               rng.choice([0, fmt.F_EXCLUDE]), rng.randbytes(32))
    H.a.h.sign_kind = gen.SIGNNUM[key.key.kind]
    path = huge.put(d, 'a.bpak', H)
    how = ('tool', 'lib', 'python')[i // 24 % 3]
    if how == 'tool':
        r = cli.run(cx, ['sign', 'a.bpak', '--key', key.priv], d, fsize=1 << 40)
        cx.check_that(r.ok, 'huge-archive:signing-fails:tool', r.brief)
    elif how == 'lib':
        with clib.Pkg(L, path, 'r+') as p:
            rc = p.rc or L.pkg_sign(p.p, key.priv.encode())
        cx.check_that(rc == 0, 'huge-archive:signing-fails:lib', '%s %s' % (rc, H))
    else:
        r, err = python(cx, PY_SIGN, {'a': path, 'k': key.priv})
        cx.check_that(r, 'huge-archive:signing-fails:python', '%s %s' % (err, H))
    x = H.differs(path)
    cx.check_that(not x, 'huge-archive:signing-changes-more', lambda: '%s: %s' % (x[0], x[1]))
    h = fmt.Hdr(huge.head(path))
    cx.check_that(pk.verify(key.key, fmt.package_hash(h), h.hash_kind,
                            h.signature[:h.signature_sz]), 'huge-archive:signature-invalid',
                  '%s %s' % (how, H))
    k = load_pub(cx, L, key.pub)
    with clib.Pkg(L, path, 'r') as p:
        rc = p.rc or L.pkg_verify(p.p, k)
    L.free(k)
    cx.check_that(rc == 0, 'huge-archive:verify-fails:lib', '%s %s' % (rc, H))
    r = cli.run(cx, ['verify', 'a.bpak', '--key', key.pub], d)
    cx.check_that(r.ok, 'huge-archive:verify-fails:tool', r.brief)
    res, err = python(cx, PY_VERIFY, {'todo': [[path, key.pub]]})
    cx.check_that(res and res[0] in (True, None, 0), 'huge-archive:verify-fails:python',
                  '%r %s' % (res, err))
    cx.count('huge archives')
    cx.eval(('huge', str(H), how, h.signature))
    cx.sample('huge: %s signed by %s with %s' % (H, how, key))
    cx.drop(d)


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 600 == 2:
        return huge_hashed(cx, rng)
    if i % 24 == 19:
        return huge_case(cx, L, i, rng)
    d = cx.tmp()
    ks = gen.keys(cx)
    hk = 1 + i % 3
    kt = ['p256', 'p384', 'p521', 'rsa'][(i // 3) % 4]
    how = ['tool', 'lib', 'external', 'python'][(i // 12) % 4]
    key = ks['%s-%d' % (kt, rng.randint(0, 1))]
    others = [k for k in ks.values() if k is not key]
    rng.shuffle(others)
    s = gen.spec(rng, maxparts=5, big=rng.choice([3000, 20000, 60000]),
                 keyparts=list(ks.values()))
    s.hash_kind, s.sign_kind = hk, gen.SIGNNUM[kt]
    if rng.random() < 0.7:
        s.key_id, s.keystore_id = rng.getrandbits(32) | 1, rng.getrandbits(32)
    made = rng.choice(['tool', 'model', 'model', 'lib'])
    if made == 'tool':
        gen.build_tool(cx, s, d)
    elif made == 'lib':
        gen.build_lib(cx, L, s, d)
    else:
        a = gen.model(s, rng=rng)
        if rng.random() < 0.5 and len(a.data) > 1:
            # a hash tree need not lie behind its data
            gen.shuffle(rng, a)
            cx.count('parts in another order')
        if rng.random() < 0.3 and how != 'external':
            # a payload hash that is not up to date: signing has to renew it
            a.h.payload_hash = rng.randbytes(32).ljust(64, b'\0')
        gen.put(d, 'a.bpak', a.bytes())
    path = os.path.join(d, 'a.bpak')
    if made != 'model' and s.parts and rng.random() < .3:
        readd(cx, L, rng, d, s)
    before = gen.read(path)
    sign(cx, L, rng, how, d, 'a.bpak', key)
    raw = gen.read(path)
    check_signature(cx, key, raw, before, how)
    verify_all(cx, L, rng, d, 'a.bpak', key, others[:rng.randint(0, 5)])
    cx.eval((fmt.package_hash(raw), key.name, how, made))
    cx.count('type ' + kt)
    cx.count('hash %d' % hk)
    todo = [[path, p] for p in key.pubs]
    if rng.random() < 0.5:
        # sign again, with the same or another key, over another signature
        key2 = rng.choice([key] + others[:3])
        how2 = rng.choice(['tool', 'lib', 'external'])
        before = gen.read(path)
        sign(cx, L, rng, how2, d, 'a.bpak', key2)
        raw = gen.read(path)
        check_signature(cx, key2, raw, before, 're-' + how2)
        verify_all(cx, L, rng, d, 'a.bpak', key2, [], full=False)
        todo = [[path, p] for p in key2.pubs]
        cx.count('resigned')
        cx.eval((fmt.package_hash(raw), key2.name, how2, 're'))
    if rng.random() < 0.4:
        res, err = python(cx, PY_VERIFY, {'todo': todo})
        cx.check_that(res and all(x in (True, None, 0) for x in res), 'verify-fails:python',
                      '%r %s' % (res, err))
        cx.count('verifications', 2)
    # many signatures over digests: lengths of r and s vary
    lk = C.c_void_p()
    rc = L.crypto_load_private_key(key.priv.encode(), C.byref(lk))
    if rc:
        raise core.Violation('supported-private-key-refused', '%s %d' % (key, rc))
    pub = load_pub(cx, L, key.pub)
    for _ in range(4 if kt == 'rsa' else 12):
        dl = fmt.HASHES[hk]().digest_size
        dg = rng.choice([rng.randbytes(dl), bytes(dl), b'\xff' * dl, b'\0' * (dl - 1) + b'\1'])
        db, sb, n = clib.Buf(dg), clib.Buf(512), C.c_size_t(512)
        rc = L.crypto_sign(db.p, dl, hk, lk, sb.p, C.byref(n))
        ok = rc == 0 and n.value <= 512 and pk.verify(key.key, dg, hk, sb.get(n.value))
        cx.check_that(ok, 'digest-signature-invalid', '%s rc %d n %d %s' % (
            key, rc, n.value, sb.get(min(n.value, 512)).hex()))
        v = clib.Buf(1)
        v.set(b'\0')
        sx = clib.Buf(sb.get(n.value))
        rc = L.crypto_verify(sx.p, sx.n, db.p, dl, hk, pub, v.p)
        cx.check_that(rc == 0 and v.get() == b'\1', 'digest-verify-fails', '%s %d' % (key, rc))
        # and signatures of the independent implementation
        es = pk.sign(key.key, dg, hk, rng.random())
        sx = clib.Buf(es)
        v.set(b'\0')
        rc = L.crypto_verify(sx.p, sx.n, db.p, dl, hk, pub, v.p)
        cx.check_that(rc == 0 and v.get() == b'\1', 'foreign-signature-refused',
                      '%s %d %s' % (key, rc, es.hex()))
        cx.count('drbg signatures')
        cx.eval((dg, key.name, es))
    L.free(lk)
    L.free(pub)
    cx.sample('%s archive %r signed by %s with %s' % (made, s, how, key))
    cx.drop(d)
