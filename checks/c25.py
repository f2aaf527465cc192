"""C25: inspecting an archive reports exactly what it holds."""
import ctypes as C
import hashlib
import os
import re

from vlib import cli, clib, core, fmt, gen
from checks import c18

PROPERTY = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('archives written by an independent model are inspected through every interface '
             '(show and all its options, extract, library accessors, Python attributes); the '
             'parsed reports must equal the model, present or absent; ASan/UBSan')
LEVEL_NOTE = ('Seeded archives over all field values: full tables, every flag combination, sizes '
              'up to 2^63, unknown kinds, stale payload hashes, gaps in the metadata table, '
              'truncated files. Trusts vlib/fmt.py.')
BUILD = {'asan': ['lib', 'tool', 'py']}
PRELOAD = 'asan'
RULE = ('One judged execution per inspecting command or call; distinct: by digest of the archive '
        'and the request.')
REQUIRED = {'listings': 200, 'metadata rows': 800, 'part rows': 700, 'stale hashes': 30,
            'fresh hashes': 60, 'verbose sizes': 60, 'part lookups': 300, 'meta lookups': 400,
            'absent parts': 300, 'absent metas': 300, 'extracted parts': 150,
            'extracted metas': 200, 'enormous sizes': 30, 'truncated files': 15,
            'full tables': 8, 'python packages': 100, 'library lookups': 2000,
            'zero identifiers': 60, 'unknown kinds': 20}
ASSUMPTIONS = ['no two entries of a table have the same key', 'a used part entry never follows an '
               'unused one', 'metadata that does not fit the 127 characters of the tool may be '
               'shown empty', 'contents of parts in transport form are not extracted']

NAMED = ['bpak-transport', 'merkle-salt', 'merkle-root-hash', 'keystore-provider-id',
         'bpak-version', 'pb-load-addr', 'bpak-package']
NAMES = {fmt.ID[n]: n for n in NAMED}
MAYBE = {fmt.ID[n]: n for n in ('bpak-key-id', 'bpak-key-store')}


def cases(tier):
    return 480 if tier == 'quick' else 4000


def anyid(rng, used):
    while True:
        v = rng.choice([rng.getrandbits(32), fmt.bid(rng.choice(gen.NAMES)), 1, 0xffffffff,
                        0x10, 0x80000000, fmt.bid('p%d' % rng.randrange(99))])
        if v and v not in used:
            return v


def value(rng, mid):
    """a value for an entry; version texts are printable"""
    if mid == fmt.ID['bpak-version']:
        v = bytes(rng.choice(b'v.-+0123456789abcz') for _ in range(rng.choice([0, 1, 5, 30, 127])))
        return v + rng.choice([b'', b'\0', b'\0\0rest'])
    n = rng.choice([0, 1, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 60])
    if mid in NAMES and rng.random() < .7:
        n = {'bpak-transport': rng.choice([8, 32]), 'merkle-salt': 32, 'merkle-root-hash': 32,
             'keystore-provider-id': 4, 'pb-load-addr': 8, 'bpak-package': 16}.get(NAMES[mid], n)
    return rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n, b'\1' + bytes(max(0, n - 1))])[:n] \
        if n else b''


def make(cx, rng, i):
    """(header, body or None, exact): body None when the data is not there"""
    h = fmt.Hdr()
    h.hash_kind = rng.randint(1, 3)
    h.sign_kind = rng.choice([1, 2, 3, 4, 4, 0, 5, 255])
    if h.sign_kind not in fmt.SIGN_NAMES:
        cx.count('unknown kinds')
    h.alignment = rng.choice([512, 512, 0, 4096])
    h.key_id, h.keystore_id = (rng.choice([0, 1, rng.getrandbits(32), 0xffffffff]) for _ in 'ab')
    h.signature = rng.choice([bytes(512), rng.randbytes(512)])
    h.signature_sz = rng.choice([0, 70, 512, 1])
    h.pad1 = rng.choice([bytes(42), rng.randbytes(42)])
    enormous = i % 9 == 4
    full = i % 15 == 7
    if full:
        cx.count('full tables')
    used, body = set(), []
    nparts = fmt.NPART if full else rng.choice([0, 1, 2, 3, 4, 6, 12])
    left = (1 << 63) - 1 - fmt.HDR
    for k in range(nparts):
        pid = anyid(rng, used)
        used.add(pid)
        fl = rng.choice([0, 0, 0, 1, 1, 2, 3, rng.getrandbits(8)])
        if enormous and rng.random() < .7:
            n = rng.choice([1 << 32, (1 << 32) - 1, (1 << 31) + 5, 1 << 40, 1 << 62,
                            999999999999, (1 << 53) + 1, left // 2 & ~511])
            n = min(n, (left - 70000) & ~511)
            if n < 0:
                n = 0
            fl |= 1
        else:
            n = rng.choice([0, 1, 511, 512, 513, 4095, rng.randint(0, 3000)])
        # any padding that leads to the next boundary
        pad = fmt.padlen(n)
        if rng.random() < .1 and pad + 512 * 126 < 65536:
            pad += 512 * rng.choice([1, 2, 126])
            cx.count('wide paddings')
        if n + pad > left:
            break
        ts = rng.choice([0, rng.getrandbits(64), rng.randrange(5000)]) if not fl & 2 else \
            rng.choice([0, 1, 24, 777, n])
        if fl & 2 and ts > left:
            ts = 5
        left -= max(n + pad, ts if fl & 2 else 0)
        p = fmt.Part(pid, n, 0, ts, pad, fl)
        h.parts[k] = p
        body.append(None if enormous else rng.randbytes(p.stored()))
    at = fmt.HDR
    for p in h.part_list():
        p.offset = at if rng.random() < .7 else rng.getrandbits(63)
        at += p.stored()
    keys = set()
    room = fmt.META_BYTES
    slots = list(range(fmt.NMETA))
    if not full:
        slots = slots[:rng.choice([0, 1, 3, 6, 10])]
        if rng.random() < .2:
            slots = sorted(rng.sample(range(fmt.NMETA), len(slots)))
            cx.count('gaps in the metadata table')
    end = 0
    for k in slots:
        mid = rng.choice([fmt.ID[rng.choice(sorted(fmt.ID))], anyid(rng, ())])
        ref = rng.choice([0, 0, rng.getrandbits(32)] + sorted(used))
        v = value(rng, mid)
        if (mid, ref) in keys or end + len(v) > room:
            continue
        keys.add((mid, ref))
        h.metas[k] = fmt.Meta(mid, len(v), end, ref)
        h.metadata[end:end + len(v)] = v
        end = (end + len(v) + 7) & ~7
    if enormous:
        # nothing that enters the hash lies behind the end of the file
        for p in h.part_list():
            p.flags |= 1
        cx.count('enormous sizes')
    raw = h.pack() + (b'' if enormous else b''.join(body))
    h.payload_hash = fmt.payload_hash(h, raw).ljust(64, b'\0')
    stale = False
    if rng.random() < .3:
        n = fmt.HASHES[h.hash_kind]().digest_size
        x = bytearray(h.payload_hash)
        x[rng.choice([0, n - 1, rng.randrange(n)])] ^= 1 << rng.randrange(8)
        h.payload_hash = bytes(x)
        stale = True
    return h, None if enormous else body, stale


def squeeze(b):
    return ' '.join(b.decode('latin1').split())


def listing(cx, rng, d, h, raw, body, stale, cut, ident):
    args = rng.choice([[], [], ['-v'], ['-v', '-v'], ['-vvv']])
    r = cli.run(cx, ['show', 'a.bpak'] + args, d)
    out = r.out
    cx.count('listings')
    cx.eval((ident, 'show', tuple(args)))
    what = r.brief
    if not cut:
        cx.check_that(r.ok, 'listing-fails', what)
    for label, want in ((rb'Hash', fmt.HASH_NAMES[h.hash_kind]),
                        (rb'Signature', fmt.SIGN_NAMES.get(h.sign_kind, 'Unknown')),
                        (rb'Key ID', '%08x' % h.key_id), (rb'Keystore ID', '%08x' % h.keystore_id)):
        m = re.search(rb'^' + label + rb':\s+(\S+)\s*$', out, re.M)
        cx.check_that(m and m.group(1).decode() == want, 'listing-field:' + label.decode(),
                      lambda: '%s, expected %s' % (what, want))
    cx.check_that(re.search(rb'^BPAK File: a\.bpak\s*$', out, re.M), 'listing-field:file', what)
    i, j = out.find(b'\nMetadata:\n'), out.find(b'\nParts:\n')
    k = out.find(b'\n\n', j + 1) if j >= 0 else -1
    if not cx.check_that(0 <= i < j, 'listing-sections', what):
        return
    rows = [x for x in out[i:j].split(b'\n')[3:] if x.strip()]
    want = []
    for m in h.metas:
        if not m.id:
            continue
        v = bytes(h.metadata[m.offset:m.offset + m.size])
        t = fmt.meta_text(m.id, v) or ''
        names = [NAMES[m.id]] if m.id in NAMES else ['', MAYBE[m.id]] if m.id in MAYBE else ['']
        alts = []
        for n in names:
            for tt in [t] + ([''] if len(t) > 127 else []):
                alts.append(' '.join(x for x in ('%08x' % m.id, str(m.size), n,
                                                 '%08x' % m.ref if m.ref else '', tt) if x))
        want.append([' '.join(x.split()) for x in alts])
    cx.check_that(len(rows) == len(want), 'metadata-rows', lambda: '%d entries: %s' % (
        len(want), what))
    for x, alts in zip(rows, want):
        cx.count('metadata rows')
        if not cx.check_that(squeeze(x) in alts, 'metadata-row', lambda: '%r, expected %r' % (
                x, alts)):
            break
    rows = [x for x in out[j:k if k >= 0 else len(out)].split(b'\n')[3:] if x.strip()]
    want = []
    for p in h.part_list():
        f = ('h' if p.flags & 1 else '-') + ('T' if p.flags & 2 else '-') + '------'
        want.append('%08x %d %d %s %d' % (p.id, p.size, p.padb, f,
                                          p.tsize if p.flags & 2 else p.size))
    cx.check_that([squeeze(x) for x in rows[:len(want)]] == want and
                  (k < 0 or len(rows) == len(want)), 'part-rows', lambda: '%r\nexpected %r' % (
        rows, want))
    cx.count('part rows', len(want))
    if cut:
        return
    n = fmt.HASHES[h.hash_kind]().digest_size
    h2 = fmt.Hdr(raw)
    if stale:
        h2.payload_hash = fmt.payload_hash(h2, raw).ljust(64, b'\0')
    for label, x in ((b'Header hash', fmt.package_hash(h2)), (b'Payload hash', h2.payload_hash[:n])):
        m = re.search(rb'^' + label + rb':\s+([0-9a-f]+)\s*$', out, re.M)
        cx.check_that(m and m.group(1) == x.hex().encode(), 'listing-' + label.decode().replace(
            ' ', '-').lower(), lambda: '%s, expected %s' % (what, x.hex()))
    warned = b'Warning' in out[k:]
    cx.check_that(warned == stale, 'stale-warning', lambda: 'stale %s: %s' % (stale, what))
    cx.count('stale hashes' if stale else 'fresh hashes')
    if args:
        cx.count('verbose sizes')
        pl, end = fmt.positions(h)
        for label, v in ((rb'Metadata usage: (\d+)/1920 bytes', sum(m.size for m in h.metas)),
                         (rb'Transport size: (\d+) bytes', end),
                         (rb'Installed size: (\d+) bytes',
                          sum(p.size + p.padb for p in h.part_list()))):
            m = re.search(rb'^' + label, out, re.M)
            cx.check_that(m and int(m.group(1)) == v, 'verbose-size', lambda: '%r %d %s' % (
                label, v, what))


def absent(rng, have):
    """identifiers that are not there: similar ones, zero, arbitrary"""
    have = sorted(have)
    out = [0, rng.getrandbits(32), 1, 0xffffffff]
    for x in have[:4]:
        out += [x ^ (1 << rng.randrange(32)), fmt.tree_id(x), x & 0xffff, x & 0xffffff00]
    return [x for x in out if x not in have]


def option(rng, v):
    for n in gen.NAMES:
        if fmt.bid(n) == v and rng.random() < .5:
            return n
    return rng.choice(['0x%x', '0x%08x', '0x%X'])  % v


def lookups(cx, rng, d, h, raw, cut, ident):
    ids = {p.id for p in h.part_list()}
    pos, end = fmt.positions(h)
    for p, at in rng.sample(pos, min(3, len(pos))):
        r = cli.run(cx, ['show', 'a.bpak', '--part', option(rng, p.id)], d)
        cx.check_that(r.ok and squeeze(r.out) == 'Found 0x%x, %d bytes' % (p.id, p.size),
                      'part-lookup', lambda: '%s size %d' % (r.brief, p.size))
        cx.count('part lookups')
        cx.eval((ident, 'part', p.id))
        if p.flags & 2 or at + p.size > len(raw):
            continue
        own = raw[at:at + p.size]
        if rng.random() < .5:
            r = cli.run(cx, ['show', 'a.bpak', '--part-hash', option(rng, p.id)], d)
            cx.check_that(r.ok and r.out.strip() == hashlib.sha256(own).hexdigest().encode(),
                          'part-hash', r.brief)
        o = rng.random() < .5
        if o and rng.random() < .5:
            gen.put(d, 'out', b'leftover' * rng.choice([1, 1000]))
        r = cli.run(cx, ['extract', 'a.bpak', '--part', option(rng, p.id)] +
                    (['-o', 'out'] if o else []), d)
        got = gen.read(os.path.join(d, 'out')) if o and r.ok else r.out
        cx.check_that(r.ok and got == own, 'extracted-part', lambda: '%s: %d of %d bytes' % (
            r.brief[:900], len(got), len(own)))
        cx.count('extracted parts')
    for x in rng.sample(absent(rng, ids), 2) + [0]:
        v = option(rng, x)
        cx.count('zero identifiers', x == 0)
        for a in (['show', 'a.bpak', '--part', v], ['show', 'a.bpak', '--part-hash', v],
                  ['extract', 'a.bpak', '--part', v, '-o', 'never']):
            r = cli.run(cx, a, d)
            cx.check_that(not r.ok and b'Found' not in r.out, 'absent-part-reported', r.brief)
            cx.count('absent parts')
            cx.eval((ident, a[0] + a[2], x))
    metas = h.meta_list()
    keys = {k for k, v in metas}
    for (mid, ref), v in rng.sample(metas, min(4, len(metas))):
        first = next(k for k, _ in metas if k[0] == mid)
        # without a reference any entry of that name may be meant
        same = [x for k, x in metas if k[0] == mid]
        for a, vals in (([], same), (['-p', option(rng, ref)], [v])):
            r = cli.run(cx, ['show', 'a.bpak', '-m', option(rng, mid)] + a, d)
            exp = []
            for x in vals:
                t = fmt.meta_text(mid, x) or ''
                exp += [t] + ([''] if len(t) > 127 else [])
            got = r.out.decode('latin1')
            cx.check_that(r.ok and got in [t + '\n' if t else '' for t in exp], 'meta-lookup',
                          lambda: '%s\nexpected one of %r' % (r.brief, exp))
            cx.count('meta lookups')
            cx.eval((ident, 'meta', mid, ref, len(a)))
        if rng.random() < .5:
            o = rng.random() < .4
            r = cli.run(cx, ['extract', 'a.bpak', '--meta', option(rng, mid)] +
                        (['-r', option(rng, ref)] if ref or rng.random() < .3 else []) +
                        (['-o', 'mout'] if o else []), d)
            got = gen.read(os.path.join(d, 'mout')) if o and r.ok else r.out
            cx.check_that(r.ok and got == v, 'extracted-meta', lambda: '%s %r' % (r.brief, v))
            cx.count('extracted metas')
    mids = {k[0] for k in keys}
    # metadata of a part is not metadata of the package
    for mid in [m for m in sorted(mids) if (m, 0) not in keys][:2]:
        r = cli.run(cx, ['extract', 'a.bpak', '--meta', option(rng, mid), '-o', 'never'], d)
        cx.check_that(not r.ok, 'absent-meta-reported', r.brief)
        cx.count('absent metas')
        cx.eval((ident, 'extract', mid, 0))
    for x in rng.sample(absent(rng, mids), 2) + [0]:
        cx.count('zero identifiers', x == 0)
        for a in (['show', 'a.bpak', '-m', option(rng, x)],
                  ['extract', 'a.bpak', '-m', option(rng, x), '-o', 'never']):
            r = cli.run(cx, a, d)
            cx.check_that(not r.ok, 'absent-meta-reported', r.brief)
            cx.count('absent metas')
            cx.eval((ident, a[0] + a[2], x))
    # the right name with a reference that does not exist
    for (mid, ref), v in rng.sample(metas, min(2, len(metas))):
        other = rng.choice([ref ^ (1 << rng.randrange(32)), rng.getrandbits(32), 1])
        if (mid, other) in keys:
            continue
        for a in (['show', 'a.bpak', '-m', option(rng, mid), '-p', option(rng, other)],
                  ['extract', 'a.bpak', '-m', option(rng, mid), '-r', option(rng, other),
                   '-o', 'never']):
            r = cli.run(cx, a, d)
            cx.check_that(not r.ok, 'absent-meta-reported', r.brief)
            cx.count('absent metas')
            cx.eval((ident, a[0] + a[2], mid, other))


def library(cx, L, rng, d, h, raw, ident):
    hb = clib.Buf(raw[:fmt.HDR])
    cx.check_that(L.valid_header(hb.p) == 0, 'valid-header-refused', repr(h.part_list()))
    vp = C.c_void_p
    pos, end = fmt.positions(h)
    row = {h.parts[k].id: k for k in range(fmt.NPART) if h.parts[k].id}
    for p, at in pos:
        q = vp()
        rc = L.get_part(hb.p, p.id, C.byref(q))
        e = L.sh_part_at(hb.p, row[p.id])
        cx.check_that(rc == 0 and q.value == e, 'get-part', '%x' % p.id)
        got = (L.part_offset(hb.p, e), L.part_size(e), L.part_size_wo_pad(e))
        want = (at, p.stored(), p.tsize if p.flags & 2 else p.size)
        cx.check_that(got == want, 'part-numbers', '%r %r want %r' % (p, got, want))
        cx.count('library lookups')
    for x in absent(rng, row):
        q = vp()
        cx.check_that(L.get_part(hb.p, x, C.byref(q)) != 0, 'get-part-invents', '%x' % x)
        cx.count('library lookups')
    metas = h.meta_list()
    mrow = {(m.id, m.ref): k for k, m in enumerate(h.metas) if m.id}
    for (mid, ref), v in metas:
        q = vp()
        rc = L.get_meta(hb.p, mid, ref, C.byref(q))
        cx.check_that(rc == 0 and q.value == L.sh_meta_at(hb.p, mrow[mid, ref]), 'get-meta',
                      '%x %x' % (mid, ref))
        rc = L.get_meta_anyref(hb.p, mid, C.byref(q))
        cx.check_that(rc == 0 and q.value in [L.sh_meta_at(hb.p, k) for (m, _), k in mrow.items()
                                              if m == mid], 'get-meta-anyref', '%x' % mid)
        cx.count('library lookups')
    for x in absent(rng, {k[0] for k in mrow}):
        q = vp()
        cx.check_that(L.get_meta(hb.p, x, 0, C.byref(q)) != 0 and
                      L.get_meta_anyref(hb.p, x, C.byref(q)) != 0, 'get-meta-invents', '%x' % x)
        cx.count('library lookups')
    for (mid, ref), v in metas:
        other = ref ^ (1 << rng.randrange(32))
        if (mid, other) not in mrow:
            q = vp()
            cx.check_that(L.get_meta(hb.p, mid, other, C.byref(q)) != 0, 'get-meta-invents',
                          '%x %x' % (mid, other))
    cx.check_that(hb.get() == raw[:fmt.HDR], 'lookup-changes-header', ident.hex())
    cx.eval((ident, 'lib'))
    with clib.Pkg(L, os.path.join(d, 'a.bpak'), 'r') as p:
        if p.rc:
            raise core.Violation('open', '%d' % p.rc)
        got = (L.pkg_size(p.p), L.pkg_installed_size(p.p))
        want = (end, sum(p.size + p.padb for p in h.part_list()))
        cx.check_that(got == want, 'package-sizes', '%r %r' % (got, want))


def python(cx, rng, d, h, raw, ident):
    B = c18.module(cx)
    with B.Package(os.path.join(d, 'a.bpak'), 'r') as p:
        h2 = fmt.Hdr(raw)
        if h2.signature_sz > 512:
            return
        got, want = c18.state(p), c18.expected(raw)
        cx.check_that(got == want, 'python-values', lambda: '%r\nwant %r' % (got, want))
        ids = {q.id for q in h.part_list()}
        pos = dict((q.id, (q, at)) for q, at in fmt.positions(h)[0])
        for x in sorted(ids)[:6]:
            o = p.get_part(x)
            q, at = pos[x]
            cx.check_that((o.id, o.size, o.offset) == (x, q.stored() - (
                0 if q.flags & 2 else 0), at), 'python-part', '%r %d' % (q, o.size))
            if at + q.size <= len(raw) and not q.flags & 2:
                cx.check_that(o.read_data() == raw[at:at + q.size], 'python-read', repr(q))
        for x in absent(rng, ids):
            try:
                p.get_part(x)
            except KeyError:
                continue
            cx.violation('python-part-invented', '%x' % x)
        keys = {k: v for k, v in h.meta_list()}
        for (mid, ref), v in list(keys.items())[:6]:
            o = p.get_meta(mid, ref)
            cx.check_that((o.id, o.part_id_ref, o.size, o.raw_data) == (mid, ref, len(v), v),
                          'python-meta', '%x %x' % (mid, ref))
        for x in absent(rng, {k[0] for k in keys}):
            try:
                p.get_meta(x)
            except KeyError:
                continue
            cx.violation('python-meta-invented', '%x' % x)
        cx.count('python packages')
        cx.eval((ident, 'py'))


def run_case(cx, i, rng):
    L = clib.load(cx)
    d = cx.tmp()
    h, body, stale = make(cx, rng, i)
    raw = h.pack() + (b''.join(body) if body is not None else b'')
    cut = False
    hashed = [at + p.stored() for p, at in fmt.positions(h)[0] if not p.flags & 1]
    if body is not None and max(hashed, default=0) > fmt.HDR and i % 9 == 6:
        # data that enters the payload hash is missing
        raw = raw[:rng.randrange(fmt.HDR, max(hashed))]
        if max(e for e in hashed) > len(raw):
            cut = True
            cx.count('truncated files')
    gen.put(d, 'a.bpak', raw)
    ident = hashlib.sha1(raw).digest()
    library(cx, L, rng, d, h, raw, ident)
    python(cx, rng, d, h, raw, ident)
    listing(cx, rng, d, h, raw, body, stale, cut, ident)
    lookups(cx, rng, d, h, raw, cut, ident)
    cx.check_that(gen.read(os.path.join(d, 'a.bpak')) == raw, 'inspection-changes-file', '')
    cx.check_that(not os.path.exists(os.path.join(d, 'never')) or os.path.getsize(
        os.path.join(d, 'never')) == 0, 'absent-entry-extracted', '')
    cx.sample('%d parts, %d metadata entries, hash kind %d, %s' % (
        len(h.part_list()), len(h.meta_list()), h.hash_kind, 'stale' if stale else 'fresh'))
    cx.drop(d)
