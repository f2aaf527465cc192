"""C13: keys and keystores yield exactly the right key or none."""
import ctypes as C
import hashlib
import os
import struct
import subprocess

from vlib import build, cli, clib, core, fmt, gen, pk
from checks import c01

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('differential monitor: keys stored, loaded, looked up and generated as C source '
             '(compiled and run) are compared with an independent DER encoder; malformed keys and '
             'archives under ASan/UBSan with a recording allocator')
LEVEL_NOTE = ('Seeded keys of all four types (fresh points, coordinates with leading zeros, RSA '
              'exponents of 2..64 bits), DER/PEM/PKCS#1 inputs, every other key type installed, '
              'bit flips, cuts and nested-length edits; keystores with 0..32 keys.')
BUILD = {'asan': ['lib', 'tool', 'py']}
PRELOAD = 'asan'
RULE = ('One judged execution per key stored, loaded, looked up or generated and per malformed '
        'input. Distinct: by input digest and route.')
REQUIRED = {'stored': 300, 'loaded': 600, 'lookup hit': 300, 'lookup miss': 1200,
            'callback refusals': 100, 'memory lookups': 800, 'unverified lookups': 300,
            'generated': 80, 'generated keys': 300, 'malformed': 3000, 'malformed refused': 1500,
            'unsupported': 500, 'private loaded': 60, 'leading zero coordinate': 20}
ASSUMPTIONS = ['keystore names consist of letters, digits, "-" and "_"',
               'gcc compiles the generated source (GNU C, as the headers need it)',
               'what a key loader accepts beyond strict DER (trailing bytes) is not judged as long '
               'as the key it yields is the one in the input']

KINDNUM = {'rsa': 1, 'p256': 2, 'p384': 3, 'p521': 4}
MAIN = r'''
#include <stdio.h>
#include <bpak/bpak.h>
#include <bpak/keystore.h>
%(ext)s
static void dump(const char *n, const struct bpak_keystore *k)
{
    printf("S %%s %%u %%u %%d\n", n, k->id, k->no_of_keys, (int) k->verified);
    for (int i = 0; i < k->no_of_keys; i++) {
        printf("K %%u %%d %%u ", k->keys[i]->id, (int) k->keys[i]->kind, k->keys[i]->size);
        for (int j = 0; j < k->keys[i]->size; j++)
            printf("%%02x", k->keys[i]->data[j]);
        printf("\n");
    }
}
int main(void)
{
%(calls)s
    return 0;
}
'''


def cases(tier):
    return 280 if tier == 'quick' else 2000


def curve(name):
    return [c for c in pk.CURVES if pk.CURVES[c].bits == int(name[1:])][0]


_zero = {}


def a_key(cx, rng, keys):
    """(pk.Key, kind number) with a public part only"""
    k = rng.randrange(6)
    if k == 0:
        g = keys[rng.choice(sorted(keys))]
        return g.key
    if k == 1:
        n = rng.getrandbits(4096) | (1 << 4095) | 1
        e = rng.choice([3, 17, 257, 65537, rng.getrandbits(64) | (1 << 63) | 1])
        return pk.Key('rsa', (n, e))
    if k == 2 and rng.random() < .5:
        # a coordinate with leading zero bytes
        if 'z' not in _zero:
            out = []
            c = curve('p256')
            j = 0
            while len(out) < 3:
                q = pk.ec_key(c, ('z', j))
                j += 1
                if min(q.pub) >> 248 == 0:
                    out.append(q)
            _zero['z'] = out
        cx.count('leading zero coordinate')
        return rng.choice(_zero['z'])
    c = curve(rng.choice(['p256', 'p384', 'p521']))
    return pk.ec_key(c, ('c13', rng.randrange(40)))


def kindno(key):
    return 1 if key.kind == 'rsa' else {256: 2, 384: 3, 521: 4}[pk.CURVES[key.kind].bits]


def encodings(key):
    """files that hold this public key"""
    der = key.spki()
    out = [('pub.der', der), ('pub.pem', key.pem())]
    out.append(('pub.pem', b'some text\n' + key.pem() + b'\n'))
    if key.kind == 'rsa':
        p1 = pk.enc(0x30, pk.enc_int(key.pub[0]) + pk.enc_int(key.pub[1]))
        out += [('p1.der', p1), ('p1.pem', gen.pem_of('RSA PUBLIC KEY', p1))]
    return out


def live(L):
    return L.sh_alloc_stat(3), L.sh_alloc_stat(2)


def take(L, rc, out, what, cx):
    """contents of a key object or None; frees it"""
    if rc:
        cx.check_that(live(L) == (0, 0), 'leak-on-refusal:' + what, repr(live(L)))
        return None
    k = out.value
    cx.check_that(bool(k) and L.sh_alloc_is_live(k) and live(L) == (1, 0), 'leak:' + what,
                  repr(live(L)))
    r = (L.sh_key_kind(k), L.sh_key_id(k), C.string_at(L.sh_key_data(k), L.sh_key_size(k)))
    L.free(k)
    cx.check_that(live(L) == (0, 0), 'free:' + what, repr(live(L)))
    return r


def begin(L):
    L.sh_alloc_reset(0)
    L.sh_alloc_install()


def end(L):
    L.sh_alloc_default()


def run_case(cx, i, rng):
    L = clib.load(cx)
    keys = gen.keys(cx)
    d = cx.tmp()
    begin(L)
    try:
        k = i % 4
        if k == 0:
            store(cx, L, rng, d, keys)
        elif k == 1:
            keystores(cx, L, rng, d, keys)
        elif k == 2:
            malformed(cx, L, rng, d, keys)
        else:
            generated(cx, L, rng, d, keys)
        memory(cx, L, rng, keys)
    finally:
        end(L)
    cx.drop(d)


def store(cx, L, rng, d, keys):
    """add, load and parse well-formed keys"""
    a = fmt.Archive()
    a.add('before', rng.randbytes(rng.choice([0, 1, 512, 700])))
    gen.put(d, 'a.bpak', a.finish().bytes())
    path = os.path.join(d, 'a.bpak')
    for j in range(rng.randint(3, 7)):
        key = a_key(cx, rng, keys)
        der = key.spki()
        fn, data = rng.choice(encodings(key))
        f = gen.put(d, fn, data)
        out = C.c_void_p()
        rc = L.crypto_load_public_key(f.encode(), C.byref(out))
        r = take(L, rc, out, 'load_public', cx)
        cx.check_that(r is not None and r[0] == kindno(key) and r[2] == der, 'loaded-key',
                      lambda: '%s: rc %d %r\nexpected %s' % (fn, rc, r, der.hex()))
        out = C.c_void_p()
        b = clib.Buf(data if not fn.endswith('.pem') else data + b'\0')
        rc = L.crypto_parse_public_key(b.p, b.n, C.byref(out))
        r = take(L, rc, out, 'parse_public', cx)
        cx.check_that(r is not None and r[0] == kindno(key) and r[2] == der, 'parsed-key',
                      lambda: '%s: rc %d %r\nexpected %s' % (fn, rc, r, der.hex()))
        cx.count('loaded', 2)
        nm = 'key%d' % j
        how = rng.choice(['tool', 'lib', 'python'])
        fl = rng.choice([0, 0, 1]) if how != 'python' else 0
        if how == 'tool':
            gen.must(cli.run(cx, ['add', 'a.bpak', '--part', nm, '--from-file', f, '--encoder',
                                  'key'] + (['--set-flag', 'dont-hash'] if fl else []), d),
                     'supported-key-refused')
        elif how == 'lib':
            p = clib.Pkg(L, path, 'r+')
            rc = p.rc or L.pkg_add_key(p.p, f.encode(), nm.encode(), fl)
            cx.check_that(rc == 0, 'supported-key-refused:lib', '%s %d' % (fn, rc))
            p.close()
            cx.check_that(live(L) == (0, 0), 'leak:add_key', repr(live(L)))
        else:
            r, err = c01.python(cx, 'import sys,json,bpak\nq=json.load(sys.stdin)\n'
                                'with bpak.Package(q["a"],"r+") as p:\n p.add_key(q["n"],q["f"])\n'
                                'print(1)', {'a': path, 'n': nm, 'f': f})
            cx.check_that(r == 1, 'supported-key-refused:python', err)
        a.add(nm, der, fl)
        exp = a.finish().bytes()
        got = gen.read(path)
        cx.check_that(got == exp, 'stored-key', lambda: '%s %s: %s' % (
            how, fn, [(p.id, p.size, p.flags) for p in fmt.Hdr(got).part_list()]))
        cx.count('stored')
        cx.eval((hashlib.sha1(data).digest(), how))
    # private keys: kind and an equal key
    g = keys[rng.choice(sorted(keys))]
    f = rng.choice(g.privs)
    out = C.c_void_p()
    rc = L.crypto_load_private_key(f.encode(), C.byref(out))
    r = take(L, rc, out, 'load_private', cx)
    ok = r is not None and r[0] == kindno(g.key) + 4
    if ok:
        q = pk.parse_any(r[2])
        ok = q.priv == g.key.priv and q.pub == g.key.pub
    cx.check_that(ok, 'private-key', lambda: '%s rc %d' % (f, rc))
    cx.count('private loaded')
    cx.eval(('priv', f))
    cx.sample('%d keys stored, last %s from %s' % (j + 1, key.kind, fn))


CHECKHDR = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


def keystores(cx, L, rng, d, keys):
    a = fmt.Archive(rng.randint(1, 3), rng.randint(1, 4))
    ksid = rng.choice([rng.getrandbits(32), 0, 0xffffffff, 1])
    for _ in range(rng.randint(0, 2)):
        a.meta('note%d' % rng.randrange(99999), rng.randbytes(rng.randint(1, 30)))
    if rng.random() < .3:
        # the same metadata of a part is not the identity of the keystore
        a.meta(fmt.KSP_ID, struct.pack('<I', ksid ^ 0x5555), 0x1234)
    have = rng.random() < .93
    if have:
        a.meta(fmt.KSP_ID, struct.pack('<I', ksid) + bytes(rng.choice([0, 0, 4])))
    ids = {}
    order = []
    for j in range(rng.choice([0, 1, 2, 3, 5, 9, 32])):
        pid = rng.choice([rng.getrandbits(32) | 1, 1, 0xffffffff, fmt.bid('key-%d' % j)])
        if pid in ids:
            continue
        key = a_key(cx, rng, keys)
        ids[pid] = key
        a.add(pid, key.spki(), rng.choice([0, 0, 1]))
        order.append(pid)
    raw = a.finish().bytes()
    f = gen.put(d, 'ks.bpak', raw)
    dig = hashlib.sha1(raw).digest()
    asks = [(ksid, p) for p in rng.sample(order, min(len(order), 8))]
    asks += [(ksid ^ (1 << rng.randrange(32)), p) for p in rng.sample(order, min(len(order), 3))]
    asks += [(ksid ^ 0x5555, p) for p in order[:1]]
    asks += [(ksid, rng.getrandbits(32) | 1), (ksid, 0), (0, 0), (ksid, 0xfffffffe)]
    asks += [(ksid, p ^ (1 << rng.randrange(32))) for p in order[:3]]
    seen = []

    def chk(h, user):
        seen.append(C.string_at(h, fmt.HDR) == raw[:fmt.HDR])
        return veto[0]
    cb = CHECKHDR(chk)
    for ks, kid in asks:
        for mode in (0, 1, 2):
            if mode and rng.random() < .5:
                continue
            veto = [0 if mode < 2 else rng.choice([-1, -7, -17])]
            del seen[:]
            out = C.c_void_p()
            rc = L.keystore_load_key_from_file(f.encode(), ks, kid,
                                               C.cast(cb, C.c_void_p) if mode else None, None,
                                               C.byref(out))
            r = take(L, rc, out, 'lookup', cx)
            want = ids.get(kid) if have and ks == ksid and mode != 2 else None
            if want is None:
                cx.check_that(r is None, 'wrong-key-returned', lambda: 'asked %x/%x of %x %s, '
                              'check_header %s: %r' % (ks, kid, ksid, [hex(x) for x in order],
                                                       veto if mode else None, r))
                cx.count('lookup miss')
                if mode == 2:
                    cx.count('callback refusals')
            else:
                cx.check_that(r == (kindno(want), kid, want.spki()), 'key-lookup',
                              lambda: 'asked %x/%x: rc %d %r\nexpected %s' % (
                                  ks, kid, rc, r, want.spki().hex()))
                cx.count('lookup hit')
            if mode:
                cx.check_that(seen == [True], 'check-header-callback', repr(seen))
            cx.eval((dig, ks, kid, mode))
    cx.check_that(gen.read(f) == raw, 'lookup-changes-file')
    cx.sample('keystore %x with %d keys' % (ksid, len(order)))


def memory(cx, L, rng, keys):
    """keystores in memory"""
    n = rng.choice([0, 1, 2, 7])
    for verified in (0, 1):
        ks = L.sh_keystore_new(rng.getrandbits(32), n, verified)
        ents = []
        for j in range(n):
            pid = rng.choice([rng.getrandbits(32), 0, 1, 0xffffffff])
            data = rng.randbytes(rng.randint(0, 40))
            b = clib.Buf(data)
            p = L.sh_keystore_set(ks, j, pid, rng.randint(1, 4), b.p, len(data))
            ents.append((pid, p))
        for q in [e[0] for e in ents] + [rng.getrandbits(32), 0, 0xffffffff]:
            out = C.c_void_p(0x1111)
            rc = L.keystore_get(ks, q, C.byref(out))
            want = [p for pid, p in ents if pid == q]
            if verified and want:
                ok = rc == 0 and out.value in want
            else:
                ok = rc != 0 and not out.value
            cx.check_that(ok, 'memory-keystore', lambda: 'verified %d, asked %x of %s: %d %s' % (
                verified, q, [hex(e[0]) for e in ents], rc, out.value))
            cx.count('memory lookups')
            if not verified:
                cx.count('unverified lookups')
            cx.eval(('mem', verified, n, q, tuple(e[0] for e in ents)))
        for _, p in ents:
            clib.libc.free(p)
        clib.libc.free(ks)


def occurs(key, data):
    """the numbers of the key are in the input (possibly base64 coded)"""
    if b'-----BEGIN' in data:
        import base64
        import re
        m = re.findall(rb'-----BEGIN [A-Z ]+-----(.*?)-----END', data, re.S)
        alls = []
        for x in m:
            try:
                alls.append(base64.b64decode(x, validate=False))
            except ValueError:
                pass
        data = b'|'.join(alls)
    if key.kind == 'rsa':
        return all(x.to_bytes((x.bit_length() + 7) // 8, 'big') in data for x in key.pub)
    c = pk.CURVES[key.kind]
    return b'\4' + key.pub[0].to_bytes(c.len, 'big') + key.pub[1].to_bytes(c.len, 'big') in data


def judge_any(cx, r, data, where):
    """whatever was accepted must be a supported key that the input holds"""
    try:
        k = pk.parse_spki(r[2])
        ok = k.spki() == r[2] and kindno(k) == r[0]
        if k.kind == 'rsa':
            ok = ok and k.pub[0].bit_length() == 4096
        else:
            ok = ok and pk.CURVES[k.kind].on(k.pub)
        ok = ok and occurs(k, data)
    except (pk.DerError, KeyError, IndexError, ValueError) as e:
        ok = False
    cx.check_that(ok, 'accepted-malformed-key:' + where, lambda: '%r\ninput %s' % (
        r, data.hex()[:3000]))


def spoil(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.randrange(7)
        if not b:
            break
        o = rng.randrange(len(b)) if rng.random() < .5 else rng.randrange(min(len(b), 40))
        if k == 0:
            b[o] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[o] = rng.choice([0, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff, 0x30, 3, 6])
        elif k == 2:
            b = b[:o]
        elif k == 3:
            b[o:o] = rng.randbytes(rng.choice([1, 2, 100, 2000]))
        elif k == 4:
            del b[o:o + rng.choice([1, 2, 30])]
        elif k == 5:
            b += rng.randbytes(rng.choice([1, 10, 1000, 5000]))
        else:
            b[o:o + 2] = b'\xff\xff'
    return bytes(b)


def unsupported(rng):
    """public keys of other kinds"""
    out = []
    for x in ('brainpool256', 'brainpool384', 'secp256k1', 'secp224r1', 'ed25519', 'rsa2048',
              'rsa3072'):
        out.append((x, gen.read(os.path.join(gen.KEYDIR, x + '.pub.der'))))
    for bits in (1024, 4088, 4095, 4097, 4104, 8192):
        n = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        out.append(('rsa%d' % bits, pk.Key('rsa', (n, 65537)).spki()))
    n = rng.getrandbits(4096) | (1 << 4095) | 1
    out.append(('rsa-long-e', pk.Key('rsa', (n, rng.getrandbits(4096) | (1 << 4095) | 1)).spki()))
    k = pk.ec_key(curve(rng.choice(['p256', 'p384', 'p521'])), ('u', rng.randrange(9)))
    bad = pk.Key(k.kind, (k.pub[0], (k.pub[1] + 1) % pk.CURVES[k.kind].p))
    out.append(('off-curve', bad.spki()))
    out.append(('origin', pk.Key(k.kind, (0, 0)).spki()))
    return out


def routes(cx, L, rng, d, data, nm):
    """feed key bytes to every loader; yields (where, result)"""
    f = gen.put(d, 'bad.key', data)
    out = C.c_void_p()
    rc = L.crypto_load_public_key(f.encode(), C.byref(out))
    yield 'load', take(L, rc, out, 'load', cx)
    out = C.c_void_p()
    b = clib.Buf(data)
    rc = L.crypto_parse_public_key(b.p, b.n, C.byref(out))
    yield 'parse', take(L, rc, out, 'parse', cx)
    a = fmt.Archive()
    a.meta(fmt.KSP_ID, struct.pack('<I', 7))
    if rng.random() < .5:
        a.add('first', rng.randbytes(100))
    a.add('k', data)
    if rng.random() < .5:
        a.add('last', rng.randbytes(1500))
    ks = gen.put(d, 'ks.bpak', a.finish().bytes())
    out = C.c_void_p()
    rc = L.keystore_load_key_from_file(ks.encode(), 7, fmt.bid('k'), None, None, C.byref(out))
    yield 'keystore', take(L, rc, out, 'keystore', cx)
    out = C.c_void_p()
    rc = L.crypto_load_private_key(f.encode(), C.byref(out))
    take(L, rc, out, 'load-private', cx)
    if rng.random() < .12:
        a = fmt.Archive()
        gen.put(d, 'n.bpak', a.finish().bytes())
        r = cli.run(cx, ['add', 'n.bpak', '--part', 'k', '--from-file', 'bad.key', '--encoder',
                         'key'], d)
        raw = gen.read(os.path.join(d, 'n.bpak'))
        if r.ok:
            p = fmt.Hdr(raw).part_list()[0]
            v = raw[fmt.HDR:fmt.HDR + p.size]
            try:
                kn = kindno(pk.parse_spki(v))
            except Exception:
                kn = 0
            yield 'tool-add', (kn, 0, v)
        else:
            yield 'tool-add', None
        r = cli.run(cx, ['generate', 'keystore', 'ks.bpak', '--name', 'x'], d)
        if b'first' not in data and r.ok and fmt.bid('first') in [
                p.id for p in fmt.Hdr(gen.read(ks)).part_list()]:
            cx.violation('generate-accepts-garbage', r.brief())


def malformed(cx, L, rng, d, keys):
    for nm, data in unsupported(rng):
        for form in rng.sample([data, gen.pem_of('PUBLIC KEY', data)], 1 + (rng.random() < .2)):
            for where, r in routes(cx, L, rng, d, form, nm):
                cx.check_that(r is None, 'unsupported-key-accepted:%s:%s' % (nm, where),
                              lambda: '%r' % (r,))
                cx.count('unsupported')
                cx.eval((hashlib.sha1(form).digest(), where))
    for j in range(30 if cx.tier == 'quick' else 80):
        key = a_key(cx, rng, keys)
        fn, data = rng.choice(encodings(key))
        if rng.random() < .25:
            g = keys[rng.choice(sorted(keys))]
            data = gen.read(rng.choice(g.privs))
        bad = spoil(rng, data)
        if rng.random() < .05:
            bad = rng.choice([b'', b'\0', b'-----BEGIN PUBLIC KEY-----\n', b'\x30\x80',
                              b'\x30\x82\xff\xff' + data[4:], rng.randbytes(1025),
                              data + bytes(1024 - len(data)) if len(data) < 1024 else data])
        for where, r in routes(cx, L, rng, d, bad, fn):
            cx.count('malformed')
            if r is None:
                cx.count('malformed refused')
            else:
                judge_any(cx, r, bad, where)
            cx.eval((hashlib.sha1(bad).digest(), where))
    # a listed key whose data is missing
    key = a_key(cx, rng, keys)
    a = fmt.Archive()
    a.meta(fmt.KSP_ID, struct.pack('<I', 7))
    a.add('k', key.spki())
    raw = a.finish().bytes()
    n = rng.randrange(fmt.HDR, fmt.HDR + len(key.spki()))
    ks = gen.put(d, 'cut.bpak', raw[:n])
    out = C.c_void_p()
    rc = L.keystore_load_key_from_file(ks.encode(), 7, fmt.bid('k'), None, None, C.byref(out))
    r = take(L, rc, out, 'cut', cx)
    cx.check_that(r is None, 'key-from-missing-data', lambda: repr(r))
    r = cli.run(cx, ['generate', 'keystore', 'cut.bpak', '--name', 'x'], d)
    cx.check_that(not r.ok, 'generate-from-missing-data', r.brief)
    cx.eval(('cut', n, hashlib.sha1(raw).digest()))
    cx.sample('malformed, last: %s %d bytes' % (fn, len(bad)))


def generated(cx, L, rng, d, keys):
    stores = []
    for j in range(rng.randint(1, 4)):
        a = fmt.Archive(rng.randint(1, 3))
        a.meta(fmt.PKG_ID, rng.randbytes(16))
        ksid = rng.choice([rng.getrandbits(32), 0, 0xffffffff])
        a.meta(fmt.KSP_ID, struct.pack('<I', ksid))
        ents = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 32 if rng.random() < .3 else 5])):
            pid = rng.choice([rng.getrandbits(32) | 1, 0xffffffff, 1])
            if pid in [e[0] for e in ents]:
                continue
            key = a_key(cx, rng, keys)
            a.add(pid, key.spki(), rng.choice([0, 0, 1]))
            ents.append((pid, kindno(key), key.spki()))
        nm = rng.choice(['store', 'a-b', 'a_b-c-d', '0', 'X9', 'my-key-store-']) + str(j)
        raw = a.finish().bytes()
        if rng.random() < .2:
            raw += rng.randbytes(100)
        gen.put(d, 'g%d.bpak' % j, raw)
        dec = rng.random() < .4
        r = cli.run(cx, ['generate', 'keystore', 'g%d.bpak' % j, '--name', nm] +
                    (['--decorate'] if dec else []), d)
        if not cx.check_that(r.ok, 'generate-refused', r.brief):
            return
        gen.put(d, 'g%d.c' % j, r.out)
        sym = 'keystore_' + nm.replace('-', '_')
        stores.append((sym, ksid, ents, dec, raw))
        cx.check_that(gen.read(os.path.join(d, 'g%d.bpak' % j)) == raw, 'generate-changes-file')
    ext = ''.join('extern const struct bpak_keystore %s;\n' % s[0] for s in stores)
    calls = ''.join('    dump("%s", &%s);\n' % (s[0], s[0]) for s in stores)
    gen.put(d, 'main.c', (MAIN % {'ext': ext, 'calls': calls}).encode())
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TMPDIR': d}
    inc = ['-I' + os.path.join(build.REPO, 'include'),
           '-I' + os.path.join(cx.builds['asan']['dir'], 'inc')]
    p = subprocess.run(['gcc', '-w', '-O0', '-o', 'prog', 'main.c'] +
                       ['g%d.c' % j for j in range(len(stores))] + inc, cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not cx.check_that(p.returncode == 0, 'generated-source-does-not-compile',
                         lambda: p.stdout[-3000:].decode('utf-8', 'replace')):
        return
    p = subprocess.run([os.path.join(d, 'prog')], stdout=subprocess.PIPE, env=env)
    exp = []
    for sym, ksid, ents, dec, raw in stores:
        exp.append('S %s %d %d 1' % (sym, ksid, len(ents)))
        exp += ['K %d %d %d %s' % (pid, kn, len(der), der.hex()) for pid, kn, der in ents]
        cx.count('generated')
        cx.count('generated keys', len(ents))
        cx.eval((hashlib.sha1(raw).digest(), sym, dec))
    got = p.stdout.decode().split('\n')[:-1]
    cx.check_that(got == exp, 'generated-keystore', lambda: '\n'.join(
        ['got'] + [x for x in got if x not in exp] + ['expected'] + [x for x in exp if x not in got]))
    if any(s[3] for s in stores):
        s = subprocess.run(['readelf', '-SW', 'prog'], cwd=d, env=env, stdout=subprocess.PIPE)
        cx.check_that(b'.keystore_header' in s.stdout and
                      (b'.keystore_key' in s.stdout or not any(x[2] for x in stores if x[3])),
                      'decoration-missing', lambda: s.stdout.decode())
    cx.sample('generated %s' % [(s[0], len(s[2])) for s in stores])
