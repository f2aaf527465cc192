"""C24: comparison reports exactly the differences between two archives."""
import copy
import hashlib
import os
import re

from vlib import cli, core, fmt, gen

PROPERTY = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('the marks printed by "bpak compare" are parsed and compared with a byte-wise '
             'comparison made by a model of the format, both directions; ASan/UBSan')
LEVEL_NOTE = ('Seeded pairs: an archive and a copy with 0..6 changes of single bytes at any place '
              '(chunk edges, padding, last byte), sizes, flags, references, order and presence; '
              'full tables; truncated files.')
BUILD = {'asan': ['tool']}
RULE = ('One judged execution per compare run; distinct: by the digests of the two files. Pairs '
        'without any difference count as self comparisons.')
REQUIRED = {'mark =': 2000, 'mark *': 400, 'mark +': 150, 'mark -': 150, 'self': 100,
            'one-byte part change': 40, 'padding change': 10, 'meta byte change': 30,
            'truncated': 10, 'encoded parts': 300, 'full tables': 5}
ASSUMPTIONS = ['a part whose table entry differs only in its offset may be shown as equal or '
               'changed', 'archives have unique keys in their tables']

ANSI = re.compile(rb'\x1b\[[0-9;]*m')
LINE = re.compile(rb'^([=+*-])   ([0-9a-f]{8})   (\d+) ')


def cases(tier):
    return 2400 if tier == 'quick' else 30000


def parse(out):
    out = ANSI.sub(b'', out)
    i, j = out.find(b'Metadata:\n'), out.find(b'\nParts:\n')
    if i < 0 or j < i:
        return None
    # metadata values are rendered as they are and may hold line breaks:
    # lines that do not look like entries belong to a value
    res = []
    for sec in (out[i:j], out[j:]):
        rows = []
        for ln in sec.split(b'\n')[2:]:
            m = LINE.match(ln)
            if m:
                rows.append((m.group(1).decode(), int(m.group(2), 16), int(m.group(3)), ln))
        res.append(rows)
    return res


def entries(raw):
    h = fmt.Hdr(raw)
    pl, end = fmt.positions(h)
    parts = {}
    for p, pos in pl:
        parts[p.id] = (p, raw[pos:pos + p.stored()])
    return h.meta_dict(), parts


def expected(a, b):
    """(metadata rows, part rows); a part row has a set of possible marks"""
    m1, p1 = entries(a)
    m2, p2 = entries(b)
    mr = []
    for k, v in m1.items():
        mr.append(('-' if k not in m2 else '=' if m2[k] == v else '*', k[0], len(v)))
    mr += [('+', k[0], len(v)) for k, v in m2.items() if k not in m1]
    pr = {}
    for k, (e, d) in p1.items():
        if k not in p2:
            pr[k] = ('-', e.size)
            continue
        f, d2 = p2[k]
        if d != d2 or (e.size, e.padb, e.flags, e.tsize) != (f.size, f.padb, f.flags, f.tsize):
            pr[k] = ('*', e.size)
        elif e.pack() != f.pack():
            pr[k] = ('=*', e.size)
        else:
            pr[k] = ('=', e.size)
    for k, (e, d) in p2.items():
        if k not in p1:
            pr[k] = ('+', e.size)
    return sorted(mr), pr


class Arc:
    """editable archive"""

    def __init__(s, a):
        h = a.h
        s.h = copy.deepcopy(h)
        s.metas = [[k, v] for k, v in h.meta_list()]
        s.parts = [[p.id, d[:p.size], d[p.size:], p.flags, p.tsize]
                   for p, d in zip(h.part_list(), a.data)]

    def clone(s):
        return copy.deepcopy(s)

    def bytes(s, slots=None):
        a = fmt.Archive(s.h.hash_kind, s.h.sign_kind)
        a.h.key_id, a.h.keystore_id = s.h.key_id, s.h.keystore_id
        for (mid, ref), v in s.metas:
            a.meta(mid, v, ref)
        for pid, d, pad, fl, ts in s.parts:
            a.add(pid, d, fl)
            n = fmt.padlen(len(d))
            if n:
                a.data[-1] = d + pad.ljust(n, b'\0')[:n]
            a.h.part_list()[-1].tsize = ts
            if fl & 2:
                # the encoded data is stored as it is, of any length
                a.data[-1] = d
                a.h.part_list()[-1].tsize = len(d)
                a.h.part_list()[-1].size = ts % 100000
                a.h.part_list()[-1].padb = fmt.padlen(ts % 100000)
        a.finish()
        return a.bytes()


def flip(rng, v):
    if not v:
        return b'x'
    i = rng.choice([0, len(v) - 1, rng.randrange(len(v)), max(0, len(v) - rng.randint(1, 600)), min(len(v) - 1, rng.choice(
        [4095, 4096, 4097, 8191, 8192]))])
    return v[:i] + bytes([v[i] ^ (1 << rng.randrange(8))]) + v[i + 1:]


def mutate(cx, rng, s):
    k = rng.choice([0, 1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9, 10, 11, 12])
    if k == 0 and s.metas:
        m = rng.choice(s.metas)
        m[1] = flip(rng, m[1])
        cx.count('meta byte change')
    elif k == 1 and s.metas:
        m = rng.choice(s.metas)
        n = rng.choice([1, 1, 7, 8])
        m[1] = (m[1] + rng.choice([bytes(n), rng.randbytes(n)])) if rng.random() < .5 else \
            (m[1][:-n] or b'z')
    elif k == 2 and s.metas:
        s.metas.remove(rng.choice(s.metas))
    elif k == 3 and len(s.metas) < 32:
        key = (rng.choice([m[0][0] for m in s.metas] + [rng.getrandbits(32) | 1]),
               rng.choice([0, rng.getrandbits(32)]))
        if key not in [m[0] for m in s.metas]:
            s.metas.insert(rng.randint(0, len(s.metas)), [key, rng.randbytes(rng.randint(1, 20))])
    elif k == 4 and s.metas:
        m = rng.choice(s.metas)
        key = (m[0][0], rng.choice([0, m[0][1] ^ (1 << rng.randrange(32))]))
        if key not in [x[0] for x in s.metas]:
            m[0] = key
    elif k == 5 and s.parts:
        p = rng.choice(s.parts)
        if p[1]:
            p[1] = flip(rng, p[1])
            cx.count('one-byte part change')
    elif k == 6 and s.parts:
        p = rng.choice(s.parts)
        if fmt.padlen(len(p[1])):
            p[2] = flip(rng, p[2].ljust(fmt.padlen(len(p[1])), b'\0')[:fmt.padlen(len(p[1]))])
            cx.count('padding change')
    elif k == 7 and s.parts:
        p = rng.choice(s.parts)
        n = rng.choice([1, 511, 512])
        p[1] = p[1] + bytes(n) if rng.random() < .5 else p[1][:max(0, len(p[1]) - n)]
    elif k == 8 and s.parts:
        s.parts.remove(rng.choice(s.parts))
    elif k == 9 and len(s.parts) < 32:
        pid = rng.choice([rng.getrandbits(32) | 1, 1, 0xffffffff])
        if pid not in [p[0] for p in s.parts]:
            s.parts.insert(rng.randint(0, len(s.parts)),
                           [pid, rng.randbytes(rng.randint(0, 2000)), b'', 0, 0])
    elif k == 10 and s.parts:
        rng.choice(s.parts)[3] ^= rng.choice([1, 1, 4, 0x80])
    elif k == 11:
        rng.shuffle(s.parts) if rng.random() < .5 else rng.shuffle(s.metas)
    elif s.parts:
        p = rng.choice(s.parts)
        if not p[3] & 2 or rng.random() < .5:
            p[4] ^= 1 << rng.randrange(64)


def run_case(cx, i, rng):
    d = cx.tmp()
    sp = gen.spec(rng, maxparts=6, big=rng.choice([3000, 14000, 40000]), empty=True)
    A = Arc(gen.model(sp, rng=rng))
    if i % 12 == 0:
        while len(A.parts) < 32:
            A.parts.append([rng.getrandbits(32) | 1, rng.randbytes(rng.randint(0, 600)), b'', 0, 0])
        while len(A.metas) < 32:
            A.metas.append([(rng.getrandbits(32) | 1, 0), b'v' * rng.randint(1, 8)])
        cx.count('full tables')
    for p in A.parts:
        if rng.random() < .15:
            p[3] |= 2
            cx.count('encoded parts')
    B = A.clone()
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
        mutate(cx, rng, B)
    budget = lambda s: sum((len(m[1]) + 7) & ~7 for m in s.metas) <= 1912
    if not budget(B) or not budget(A):
        return
    a, b = A.bytes(), B.bytes()
    gen.put(d, 'a.bpak', a)
    gen.put(d, 'b.bpak', b)
    gen.put(d, 'c.bpak', a)
    for x, y, dx, dy in (('a', 'b', a, b), ('b', 'a', b, a), ('a', 'a', a, a), ('a', 'c', a, a)):
        r = cli.run(cx, ['compare', x + '.bpak', y + '.bpak'], d)
        one(cx, r, dx, dy)
        if dx == dy:
            cx.count('self')
    # a file whose data is cut is not equal to the complete one
    pl, end = fmt.positions(fmt.Hdr(b))
    if end > fmt.HDR and rng.random() < .3:
        n = rng.randrange(fmt.HDR, end)
        gen.put(d, 't.bpak', b[:n])
        lost = [p.id for p, pos in pl if pos + p.stored() > n]
        for args in (['t', 'b'], ['b', 't']):
            r = cli.run(cx, ['compare', args[0] + '.bpak', args[1] + '.bpak'], d)
            cx.count('truncated')
            if r.ok:
                rows = parse(r.out)
                cx.check_that(rows is not None and not [x for x in rows[1] if x[1] in lost and
                                                        x[0] == '='],
                              'missing-data-reported-equal', r.brief)
            cx.eval((hashlib.sha1(b[:n]).digest(), 'cut', args[0]))
    cx.sample('%d/%d parts, %d/%d metas' % (len(A.parts), len(B.parts), len(A.metas),
                                            len(B.metas)))
    cx.drop(d)


def one(cx, r, dx, dy):
    if not cx.check_that(r.ok, 'compare-fails', r.brief):
        return
    rows = parse(r.out)
    if not cx.check_that(rows is not None, 'compare-output', r.brief):
        return
    em, ep = expected(dx, dy)
    gm = sorted((m, k, n) for m, k, n, _ in rows[0])
    cx.check_that(gm == em, 'metadata-marks', lambda: 'got %s\nexpected %s\n%s' % (
        [x for x in gm if x not in em], [x for x in em if x not in gm], r.brief()))
    seen = {}
    for m, k, n, ln in rows[1]:
        cx.check_that(k not in seen, 'part-listed-twice', r.brief)
        seen[k] = (m, n)
        e = fmt.Hdr(dy if m == '+' else dx).part(k)
        if e:
            want = '%08x %d %d %s %d' % (
                k, e.size, e.padb, 'h-'[not e.flags & 1] + 'T-'[not e.flags & 2] + '------',
                e.tsize if e.flags & 2 else e.size)
            cx.check_that(' '.join(ln[1:].decode('latin1').split()) == want, 'part-row',
                          lambda: '%r, expected %r\n%s' % (ln, want, r.brief()))
    ok = set(seen) == set(ep) and all(seen[k][0] in ep[k][0] and seen[k][1] == ep[k][1]
                                      for k in ep)
    cx.check_that(ok, 'part-marks', lambda: 'got %s\nexpected %s\n%s' % (seen, ep, r.brief()))
    for m, k, n in gm:
        cx.count('mark ' + m)
    for m, n in seen.values():
        cx.count('mark ' + m)
    cx.eval(hashlib.sha1(dx).digest() + hashlib.sha1(dy).digest())
