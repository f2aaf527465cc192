"""C17: names map to one identifier everywhere."""
import os
import re
import struct
import subprocess
import sys

from vlib import build, cli, clib, core, fmt

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('cross-interface differential monitor: every place that turns a name into an '
             'identifier is observed (library, tool output, stored tables, Python) and compared '
             'with an independent CRC; ASan/UBSan')
LEVEL_NOTE = ('Names sampled over all byte values, lengths 0..2000, hexadecimal look-alikes and '
              'non-ASCII; all constants of include/bpak/id.h and all ids the tool can name are '
              'enumerated.')
BUILD = {'asan': ['lib', 'tool', 'py']}
PRELOAD = 'asan'
RULE = ('A case draws names and follows them through the library, the tool (generate id, create, '
        'add, extract, delete, show, set, transport) and the Python bindings. Distinct: by '
        '(interface, name).')
REQUIRED = {'library ids': 2000, 'tool generate': 100, 'stored parts': 30, 'stored metas': 30,
            'python ids': 300, 'hex references': 60, 'tree ids': 1000, 'constants': 10}
ASSUMPTIONS = []

PYCODE = r'''
import sys, bpak, json
out = []
for n in json.loads(sys.stdin.read()):
    out.append(bpak.id(n))
print(json.dumps(out))
'''

SPECIAL = ['', '0', '0x', '0xg', '0x1g', '0X1', '1', '-1', '0x 1', ' 0x1', '0x+1', '0x-1',
           '0x100000000', '0xfffffffff', '0x1.', 'x', 'kernel', 'fs', 'kernel-hash-tree',
           'bpak-package', 'bpak-transport', 'merkle-salt', 'merkle-root-hash', 'pb-load-addr',
           'bpak-version', 'keystore-provider-id', 'bsdiff', 'bspatch', '0xzz', 'deadbeef',
           'ÅÄÖ', 'naïve', '名前', '\u20ac', 'a' * 255, 'b' * 1000]


def cases(tier):
    return 96 if tier == 'quick' else 1600


def name(rng, ascii_only=False):
    k = rng.randrange(7)
    if k == 0:
        return rng.choice(SPECIAL)
    if k == 1 and not ascii_only:
        return ''.join(chr(rng.choice([rng.randint(1, 0x7f), rng.randint(0x80, 0xd7ff),
                                       rng.randint(0x10000, 0x10ffff)]))
                       for _ in range(rng.randint(1, 12)))
    if k == 2:
        return ''.join(chr(rng.randint(33, 126)) for _ in range(rng.randint(1, 300)))
    if k == 3:
        return '0x' + ''.join(rng.choice('0123456789abcdefgxz') for _ in range(rng.randint(1, 10)))
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz-_.0123456789')
                   for _ in range(rng.randint(1, 24)))


def hexref(s):
    """the identifier an option value denotes where references are accepted"""
    m = re.fullmatch(r'0x([0-9a-fA-F]{1,8})', s)
    if m:
        return int(m.group(1), 16)
    return fmt.bid(s)


def run_case(cx, i, rng):
    L = clib.load(cx)
    kind = i % 6
    # library
    for _ in range(40):
        b = rng.choice([name(rng).encode('utf-8'),
                        bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 60))),
                        bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 2000)))])
        b = b.replace(b'\0', b'')
        zb = clib.Buf(b + b'\0')
        import ctypes as C
        got = L.bpak_id_raw(zb) if hasattr(L, 'bpak_id_raw') else L.id(b)
        exp = fmt.crc(b)
        cx.check_that(got == exp, 'library-id', '%r: %08x != %08x' % (b, got, exp))
        cx.count('library ids')
        db = clib.Buf(b)
        k = rng.randint(0, len(b))
        c1 = L.crc32(0, db.p, k)
        c2 = L.crc32(c1, db.p + k, len(b) - k)
        cx.check_that(c2 == exp and c1 == fmt.crc(b[:k]), 'crc-chain', '%r' % b)
        t = L.part_name_to_hash_tree_id(b)
        t2 = L.part_id_to_hash_tree_id(exp)
        xt = fmt.crc(b + b'-hash-tree')
        cx.check_that(t == xt and t2 == xt and fmt.tree_id(exp) == xt, 'tree-id',
                      '%r %08x %08x %08x' % (b, t, t2, xt))
        cx.count('tree ids')
        cx.eval(('lib', b))
    # reverse lookup of a tree id
    h = fmt.Hdr()
    h.hash_kind = 1
    names = list(dict.fromkeys(name(rng) for _ in range(rng.randint(1, 12))))
    pids = [fmt.bid(n) for n in names if fmt.bid(n)]
    pids = list(dict.fromkeys(pids))
    for p in pids:
        h.add_part(p, 0)
    hb = clib.Buf(h.pack())
    for p in pids:
        cx.check_that(L.hash_tree_id_to_part_id(hb.p, fmt.tree_id(p)) == p, 'tree-id-reverse',
                      '%08x' % p)
    q = rng.getrandbits(32)
    if q not in [fmt.tree_id(p) for p in pids] and q != fmt.tree_id(0):
        cx.check_that(L.hash_tree_id_to_part_id(hb.p, q) == 0, 'tree-id-invented', '%08x' % q)
    if kind == 0:
        tool_generate(cx, rng)
    elif kind in (1, 2):
        tool_store(cx, rng)
    elif kind == 3:
        python_ids(cx, rng)
    elif kind == 4:
        if i < 12:
            constants(cx)
        python_store(cx, rng)
    else:
        tool_refs(cx, rng)
    cx.sample('%s names such as %r' % (['generate', 'store', 'store', 'python', 'python-store',
                                        'refs'][kind], names[:3]))


def tool_generate(cx, rng):
    d = cx.tmp()
    for _ in range(14):
        n = name(rng)
        if n.startswith('-') or not n:
            continue
        b = n.encode('utf-8')
        r = cli.run(cx, ['generate', 'id', b], d)
        m = re.search(rb'0x([0-9a-fA-F]{8})\s*$', r.out)
        cx.check_that(r.ok and m and int(m.group(1), 16) == fmt.crc(b) and
                      b'id("' + b + b'")' in r.out, 'tool-generate', r.brief)
        cx.count('tool generate')
        cx.eval(('gen', b))
    cx.drop(d)


def tool_store(cx, rng):
    d = cx.tmp()
    a = os.path.join(d, 'a')
    cli.run(cx, ['create', 'a'], d)
    open(os.path.join(d, 'f'), 'wb').write(b'x' * rng.randint(1, 600))
    open(os.path.join(d, 'm4096'), 'wb').write(rng.randbytes(4096))
    parts, metas = [], []
    for _ in range(5):
        n = name(rng)
        if not n or n.startswith('-') or fmt.bid(n) in parts:
            continue
        merkle = rng.random() < .3
        ids = [fmt.bid(n)] + ([fmt.tree_id(fmt.bid(n))] if merkle else [])
        if any(x in parts or not x for x in ids):
            continue
        r = cli.run(cx, ['add', 'a', '--part', n, '--from-file', 'm4096' if merkle else 'f'] +
                    (['--encoder', 'merkle'] if merkle else []), d)
        cx.check_that(r.ok, 'add-part-fails', r.brief)
        parts += ids
        if merkle:
            metas += [(fmt.SALT_ID, ids[0]), (fmt.ROOT_ID, ids[0])]
        cx.count('stored parts')
        cx.eval(('part', n, merkle))
    for _ in range(5):
        n = name(rng)
        if not n or n.startswith('-'):
            continue
        ref = rng.choice([None, name(rng), '0x%x' % rng.getrandbits(32), '0x%08X' % 0xabc])
        if ref is not None and (ref.startswith('-') or not ref):
            ref = None
        key = (fmt.bid(n), hexref(ref) if ref is not None else 0)
        if key in metas or not key[0] or len(metas) > 28:
            continue
        r = cli.run(cx, ['add', 'a', '--meta', n, '--from-string', 's'] +
                    (['--part-ref', ref] if ref is not None else []), d)
        cx.check_that(r.ok, 'add-meta-fails', r.brief)
        metas.append(key)
        cx.count('stored metas')
        cx.eval(('meta', n, ref))
        # an encoded identifier
        n2 = name(rng)
        if n2 and not n2.startswith('-') and (fmt.bid('idv'), 0) not in metas:
            r = cli.run(cx, ['add', 'a', '--meta', 'idv', '--from-string', n2, '--encoder', 'id'], d)
            if cx.check_that(r.ok, 'add-id-fails', r.brief):
                metas.append((fmt.bid('idv'), 0))
                h = fmt.Hdr(open(a, 'rb').read())
                v = h.get(fmt.bid('idv'))
                cx.check_that(v[:4] == struct.pack('<I', fmt.bid(n2)), 'id-encoder',
                              '%r stored %r' % (n2, v))
    h = fmt.Hdr(open(a, 'rb').read())
    cx.check_that([p.id for p in h.part_list()] == parts, 'stored-part-ids',
                  '%s != %s' % ([hex(p.id) for p in h.part_list()], [hex(p) for p in parts]))
    cx.check_that(sorted(k for k, _ in h.meta_list()) == sorted(metas), 'stored-meta-ids',
                  '%s != %s' % (h.meta_list(), metas))
    cx.drop(d)


def tool_refs(cx, rng):
    """names and hexadecimal references find the same items"""
    d = cx.tmp()
    names = list(dict.fromkeys(n for n in (name(rng) for _ in range(6))
                               if n and not n.startswith('-') and fmt.bid(n)))
    a = fmt.Archive()
    data = {}
    for n in names:
        if a.h.part(fmt.bid(n)):
            continue
        v = rng.randbytes(rng.randint(1, 900))
        a.add(n, v)
        data[n] = v
        a.meta(fmt.bid('note'), b'v-' + v[:4], fmt.bid(n))
        a.meta(fmt.bid('m' + n), b'w-' + v[:4])
    # a part whose id is spelled by a hexadecimal reference only
    raw = rng.choice([rng.getrandbits(32) | 1, 0xffffffff, 0x1, 0xabcdef01])
    if a.h.part(raw) is None:
        a.add(raw, b'raw part')
        data[raw] = b'raw part'
    open(os.path.join(d, 'a'), 'wb').write(a.finish().bytes())
    blob = open(os.path.join(d, 'a'), 'rb').read()

    def forms(n):
        pid = n if isinstance(n, int) else fmt.bid(n)
        f = ['0x%x' % pid, '0x%08x' % pid, '0x%X' % pid]
        if not isinstance(n, int) and hexref(n) == pid:
            f.append(n)
        return pid, f

    for n, v in list(data.items()):
        pid, fs = forms(n)
        for f in rng.sample(fs, min(len(fs), 2)):
            cx.count('hex references')
            r = cli.run(cx, ['extract', 'a', '--part', f, '--output', 'o'], d)
            ok = r.ok and open(os.path.join(d, 'o'), 'rb').read() == v
            cx.check_that(ok, 'extract-part-ref', lambda: '%r %s' % (n, r.brief()))
            r = cli.run(cx, ['show', 'a', '--part', f], d)
            cx.check_that(r.ok and b'0x%x' % pid in r.out and str(len(v)).encode() in r.out,
                          'show-part-ref', r.brief)
            r = cli.run(cx, ['show', 'a', '--part-hash', f], d)
            import hashlib
            cx.check_that(r.ok and r.out.strip() == hashlib.sha256(v).hexdigest().encode(),
                          'show-hash-ref', r.brief)
            cx.eval(('ref', f))
            if not isinstance(n, int):
                r = cli.run(cx, ['extract', 'a', '--meta', 'note', '--part-ref', f, '--output',
                                 'o'], d)
                cx.check_that(r.ok and open(os.path.join(d, 'o'), 'rb').read() == b'v-' + v[:4],
                              'extract-meta-partref', r.brief)
                r = cli.run(cx, ['extract', 'a', '--meta', '0x%x' % fmt.bid('m' + n), '--output',
                                 'o'], d)
                cx.check_that(r.ok and open(os.path.join(d, 'o'), 'rb').read() == b'w-' + v[:4],
                              'extract-meta-ref', r.brief)
    # references that spell nothing stored are refused
    miss = '0x%x' % (rng.getrandbits(32) | 1)
    if hexref(miss) not in [p.id for p in a.h.part_list()]:
        r = cli.run(cx, ['extract', 'a', '--part', miss, '--output', 'o2'], d)
        cx.check_that(not r.ok, 'missing-part-found', r.brief)
    cx.check_that(open(os.path.join(d, 'a'), 'rb').read() == blob, 'reference-use-changes', '')
    # delete and transport take references, too
    n = rng.choice(list(data))
    pid, fs = forms(n)
    f = rng.choice(fs)
    r = cli.run(cx, ['transport', 'a', '--add', '--part-ref', f, '--encoder', 'bsdiff',
                     '--decoder', 'bspatch'], d)
    h = fmt.Hdr(open(os.path.join(d, 'a'), 'rb').read())
    cx.check_that(r.ok and h.get(fmt.T_ID, pid) == struct.pack(
        '<II24x', fmt.ENC['bsdiff'], fmt.DEC['bspatch']), 'transport-ref', r.brief)
    v = rng.choice(names + ['0x%x' % rng.getrandbits(32)])
    r = cli.run(cx, ['set', 'a', '--key-id', v, '--keystore-id', miss], d)
    h = fmt.Hdr(open(os.path.join(d, 'a'), 'rb').read())
    cx.check_that(r.ok and h.key_id == hexref(v) and h.keystore_id == hexref(miss), 'set-id-ref',
                  lambda: '%s %x %x' % (r.brief(), h.key_id, h.keystore_id))
    r = cli.run(cx, ['delete', 'a', '--part', f], d)
    h2 = fmt.Hdr(open(os.path.join(d, 'a'), 'rb').read())
    cx.check_that(r.ok and [p.id for p in h2.part_list()] ==
                  [p.id for p in h.part_list() if p.id != pid], 'delete-ref', r.brief)
    cx.drop(d)


def python_env(cx):
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONMALLOC': 'malloc',
           'PYTHONPATH': os.path.dirname(cx.builds['asan']['py']),
           'PYTHONDONTWRITEBYTECODE': '1', 'LD_PRELOAD': build.sanlib('libasan.so')}
    env.update(core.asan_env())
    return env


def python_ids(cx, rng):
    import json
    ns = [name(rng) for _ in range(60)]
    p = subprocess.run([sys.executable, '-c', PYCODE], input=json.dumps(ns).encode(),
                       env=python_env(cx), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=200)
    k = core.san_summary(p.stderr.decode('utf-8', 'replace'))
    if k or p.returncode:
        raise core.Violation(k or 'python-id-fails', p.stderr[-2000:].decode('utf-8', 'replace'))
    for n, v in zip(ns, json.loads(p.stdout)):
        cx.check_that(v == fmt.bid(n), 'python-id', '%r %r' % (n, v))
        cx.count('python ids')
        cx.eval(('py', n))


PYSTORE = r'''
import sys, bpak, json
d = json.loads(sys.stdin.read())
p = bpak.Package(d['a'], 'r+')
for n in d['parts']:
    p.add_file(n, d['f'])
res = {'ids': [x.id for x in p.parts]}
res['get'] = [p.get_part(bpak.id(n)).id for n in d['parts']]
p.close()
print(json.dumps(res))
'''


def python_store(cx, rng):
    import json
    d = cx.tmp()
    cli.run(cx, ['create', 'a'], d)
    open(os.path.join(d, 'f'), 'wb').write(b'data')
    ns = []
    for _ in range(6):
        n = name(rng)
        if fmt.bid(n) and fmt.bid(n) not in [fmt.bid(x) for x in ns]:
            ns.append(n)
    p = subprocess.run([sys.executable, '-c', PYSTORE], env=python_env(cx),
                       input=json.dumps({'a': os.path.join(d, 'a'), 'f': os.path.join(d, 'f'),
                                         'parts': ns}).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    k = core.san_summary(p.stderr.decode('utf-8', 'replace'))
    if k or p.returncode:
        raise core.Violation(k or 'python-store-fails',
                             repr(ns) + p.stderr[-2000:].decode('utf-8', 'replace'))
    r = json.loads(p.stdout)
    exp = [fmt.bid(n) for n in ns]
    h = fmt.Hdr(open(os.path.join(d, 'a'), 'rb').read())
    cx.check_that(r['ids'] == exp and r['get'] == exp and [x.id for x in h.part_list()] == exp,
                  'python-stored-ids', '%r %r' % (ns, r))
    cx.count('python ids', len(ns))
    cx.eval(('pystore', tuple(ns)))
    cx.drop(d)


def constants(cx):
    L = clib.load(cx)
    text = open(os.path.join(build.REPO, 'include/bpak/id.h')).read()
    vals = {}
    for m in re.finditer(r'#define\s+BPAK_ID_(\w+)\s+\(?\s*(0x[0-9a-fA-F]+)', text):
        vals[m.group(1)] = int(m.group(2), 16)
    for n, v in vals.items():
        nm = n.lower().replace('_', '-')
        cx.check_that(fmt.bid(nm) == v, 'constant', '%s %08x is not id("%s") %08x' % (
            n, v, nm, fmt.bid(nm)))
        cx.count('constants')
        cx.eval(('const', n))
    if hasattr(L.dll, 'bpak_id_to_string'):
        import ctypes as C
        f = L.dll.bpak_id_to_string
        f.restype, f.argtypes = C.c_char_p, [C.c_uint32]
        ids = list(vals.values()) + list(fmt.ID.values())
        for v in ids:
            s = f(v)
            cx.check_that(s == b'' or fmt.crc(s) == v, 'id-to-string', '%08x %r' % (v, s))
        for nm in ('bpak-package', 'bpak-transport', 'merkle-salt', 'merkle-root-hash',
                   'pb-load-addr', 'bpak-version', 'keystore-provider-id'):
            cx.check_that(f(fmt.bid(nm)) == nm.encode(), 'id-to-string', nm)
