"""C14: metadata values round-trip through the command line and stay isolated."""
import hashlib
import os
import re
import struct
import uuid

from vlib import cli, core, fmt, gen

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('online checker: histories of metadata commands run against a dictionary model; after '
             'every command the file is parsed by an independent reader, values are read back '
             'through extract and show; ASan/UBSan')
LEVEL_NOTE = ('Seeded histories of 6-30 commands over all encoders, sources, reference spellings, '
              'values of 1..1920 bytes, growing and shrinking, on empty, merkle, signed and nearly '
              'full archives.')
BUILD = {'asan': ['tool']}
RULE = ('One judged execution per command that changed the archive and per value read back. '
        'Distinct: by archive digest and command.')
REQUIRED = {'add string': 300, 'add file': 300, 'add integer': 200, 'add uuid': 150, 'add id': 150,
            'set string': 200, 'set grows': 80, 'set integer': 40, 'set id': 20, 'set identity': 80,
            'with reference': 250, 'extracted': 1500, 'shown': 1500, 'listings': 300,
            'near full': 60}
ASSUMPTIONS = ['a value that does not fit into the line buffer of "show" (127 characters) may be '
               'left out there', 'a value replaced by a shorter text may keep its size if the rest '
               'is zero']

MNAMES = ['bpak-version', 'pb-load-addr', 'bpak-key-id', 'bpak-key-store', 'bpak-package',
          'keystore-provider-id', 'merkle-salt', 'merkle-root-hash', 'bpak-transport',
          'note', 'm1', 'm2', 'meta-with-a-very-long-name-indeed', 'Ünïcode']


def cases(tier):
    return 560 if tier == 'quick' else 8000


def text(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 2, 6, 7, 8, 9, 15, 16, 31, rng.randint(0, 130), rng.randint(0, 600)])
    k = rng.randrange(4)
    if k == 0:
        b = ''.join(rng.choice('0123456789.') for _ in range(n))
    elif k == 1:
        b = ''.join(chr(rng.randint(1, 127)) for _ in range(n))
    elif k == 2:
        b = bytes(rng.randint(1, 255) for _ in range(n))
    else:
        b = ''.join(rng.choice('abc def-%s%n"\'') for _ in range(n))
    b = b if isinstance(b, bytes) else b.encode()
    return b.lstrip(b'-')


def integer(rng):
    v = rng.choice([0, 1, -1, 9, 255, 2**31, 2**32, 2**63 - 1, -2**63, rng.getrandbits(16),
                    rng.getrandbits(63), -rng.getrandbits(63), rng.getrandbits(32)])
    f = rng.randrange(5)
    s = '%d' % v
    if f == 1:
        s = '%s0x%x' % ('-' if v < 0 else '', abs(v))
    elif f == 2:
        s = '%s0%o' % ('-' if v < 0 else '', abs(v)) if v else '0'
    elif f == 3:
        s = ' ' + s
    elif f == 4:
        s = '%s0X%X' % ('-' if v < 0 else '', abs(v))
    return s, struct.pack('<Q', v & (2**64 - 1))


class State:
    def __init__(s, raw):
        h = fmt.Hdr(raw)
        s.metas = h.meta_list()     # (key, value) in order
        s.h = h
        s.body = raw[fmt.HDR:]

    def keys(s):
        return [k for k, _ in s.metas]

    def used(s):
        return sum((len(v) + 7) & ~7 for _, v in s.metas)

    def raw_used(s):
        return sum(len(v) for _, v in s.metas)


def same_else(a, b, fields=()):
    """header fields and parts that must not change"""
    out = []
    for f in ('magic', 'pad0', 'hash_kind', 'sign_kind', 'alignment', 'payload_hash', 'key_id',
              'keystore_id', 'pad1', 'signature', 'signature_sz'):
        if f not in fields and getattr(a.h, f) != getattr(b.h, f):
            out.append(f)
    if [p.pack() for p in a.h.parts] != [p.pack() for p in b.h.parts]:
        out.append('parts')
    if a.body != b.body:
        out.append('part data')
    return out


def start(cx, rng, d):
    s = gen.spec(rng, maxparts=3, big=9000, empty=True)
    if rng.random() < .3:
        s.metas = []
    a = gen.model(s, rng=rng)
    if rng.random() < .25:
        n = 1920 - sum((len(v) + 7) & ~7 for _, v in a.h.meta_list()) - rng.choice(
            [8, 16, 24, 40, 64, 100])
        if n > 0:
            a.meta('filler', rng.randbytes(n))
            cx.count('near full')
    if rng.random() < .2:
        a.set_signature(rng.randbytes(rng.choice([70, 512])))
    a.finish()
    gen.put(d, 'a.bpak', a.bytes())
    return s, State(a.bytes())


def run_case(cx, i, rng):
    d = cx.tmp()
    s, st = start(cx, rng, d)
    A = os.path.join(d, 'a.bpak')
    refs = [None, None, None] + [p.name for p in s.parts] + ['no-such-part', '0x%x' %
                                                             rng.getrandbits(32)]
    for p in s.parts:
        refs.append('0x%x' % fmt.bid(p.name))
    names = rng.sample(MNAMES, rng.randint(3, len(MNAMES)))
    for step in range(rng.randint(6, 14 if cx.tier == 'quick' else 30)):
        st = one_step(cx, rng, d, A, s, st, names, refs)
        if st is None:
            break
    else:
        listing(cx, d, st)
    cx.drop(d)


def refid(ref):
    if ref is None:
        return 0
    m = re.fullmatch(r'0x([0-9a-fA-F]{1,8})', ref)
    return int(m.group(1), 16) if m else fmt.bid(ref)


def one_step(cx, rng, d, A, s, st, names, refs):
    k = rng.randrange(10)
    plain = [(n, v) for n in names for (key, v) in st.metas if key == (fmt.bid(n), 0)]
    if k < 5 or (k < 8 and not plain):
        n = rng.choice(names)
        ref = rng.choice(refs)
        key = (fmt.bid(n), refid(ref))
        src = rng.choice(['string', 'string', 'file', 'integer', 'uuid', 'id'])
        args = ['add', 'a.bpak', '--meta', n]
        file_src = rng.random() < .4
        if src == 'string':
            t = text(rng)
            v = t + b'\0'
            args += ['--from-string', t]
        elif src == 'file':
            v = gen.content(rng, rng.choice([1, 2, 8, 9, 32, rng.randint(1, 300),
                                             rng.randint(1, 1920)]))
            gen.put(d, 'm.in', v)
            args += ['--from-file', 'm.in']
        else:
            if src == 'integer':
                t, v = integer(rng)
            elif src == 'uuid':
                u = uuid.UUID(bytes=rng.randbytes(16))
                t, v = str(u), u.bytes
                if rng.random() < .4:
                    t = t.upper()
            else:
                t = text(rng, rng.randint(0, 40)).decode('latin1')
                t = ''.join(c for c in t if 32 <= ord(c) < 127).lstrip('-')
                v = struct.pack('<I', fmt.bid(t))
                if not t:
                    file_src = False
            if file_src:
                gen.put(d, 'm.in', t.encode() + (b'\n' if src == 'integer' and
                                                 rng.random() < .5 else b''))
                args += ['--from-file', 'm.in', '--encoder', src]
            elif t.startswith('-') and rng.random() < .5:
                args += ['--from-string=' + t, '--encoder', src]
            else:
                args += ['--from-string', t, '--encoder', src]
        if ref is not None:
            args += rng.choice([['--part-ref', ref], ['-r', ref]])
        r = cli.run(cx, args, d)
        new = State(gen.read(A))
        exists = key in st.keys()
        full = len(st.metas) >= 32
        fits = ((st.used() + len(v) + 7) & ~7) <= 1920
        never = st.raw_used() + len(v) > 1920
        exp = st.metas + [(key, v)]
        bad = ()
        if not r.ok:
            if not (exists or full or not fits):
                raise core.Violation('valid-add-refused:' + src, r.brief())
            if new.metas != st.metas or same_else(st, new):
                raise core.Violation('refused-but-changed', r.brief())
            return new
        if exists or full or never:
            raise core.Violation('impossible-add-accepted', r.brief())
        cx.count('add ' + src)
        if ref is not None:
            cx.count('with reference')
    elif k < 8:
        n, old = rng.choice(plain)
        key = (fmt.bid(n), 0)
        enc = rng.choice([None, None, 'integer', 'id'])
        if len(old) == 8 and rng.random() < .5:
            enc = 'integer'
        if len(old) == 4 and rng.random() < .5:
            enc = 'id'
        if enc is None:
            t = text(rng, rng.choice([None, len(old) - 1, len(old), len(old) + 1, len(old) + 8]))
            v = t + b'\0'
            args = ['set', 'a.bpak', '--meta', n, '--from-string', t]
            grow = len(v) > len(old)
            fits = ((st.used() - ((len(old) + 7) & ~7) + len(v) + 7) & ~7) <= 1920
            never = st.raw_used() - len(old) + len(v) > 1920
        else:
            if enc == 'integer':
                t, v = integer(rng)
            else:
                t = 'name-%d' % rng.randrange(1000)
                v = struct.pack('<I', fmt.bid(t))
            args = ['set', 'a.bpak', '--meta', n, '--encoder', enc, '--from-string', t]
            grow = False
            fits = len(v) == len(old)
            never = not fits
        r = cli.run(cx, args, d)
        new = State(gen.read(A))
        if not r.ok:
            if fits:
                raise core.Violation('valid-set-refused:%s' % enc, r.brief())
            if new.metas != st.metas or same_else(st, new):
                raise core.Violation('refused-but-changed', r.brief())
            return new
        if never and enc is None:
            raise core.Violation('impossible-set-accepted', r.brief())
        got = dict(new.metas).get(key)
        ok = got is not None and got[:len(v)] == v and not got[len(v):].strip(b'\0') and \
            (len(got) in (len(v), len(old)))
        cx.check_that(ok, 'set-value:%s' % enc, lambda: '%s\nstored %r expected %r' % (
            r.brief(), got, v))
        v = got
        exp = None
        rest = [x for x in st.metas if x[0] != key]
        cx.check_that([x for x in new.metas if x[0] != key] == rest, 'set-touches-others',
                      lambda: r.brief() + '\n%r\n%r' % (st.metas, new.metas))
        cx.count('set ' + (enc or 'string'))
        if grow:
            cx.count('set grows')
        ref = None
    else:
        a, b = rng.choice([(1, 0), (0, 1), (1, 1)])
        args = ['set', 'a.bpak']
        fields = []
        want = {}
        for on, opt, f in ((a, rng.choice(['--key-id', '-k']), 'key_id'),
                           (b, rng.choice(['--keystore-id', '-i']), 'keystore_id')):
            if on:
                t = rng.choice(['0x%x' % rng.getrandbits(32), 'name-%d' % rng.randrange(99),
                                '0xffffffff', 'some name'])
                args += [opt, t]
                fields.append(f)
                want[f] = refid(t)
        r = cli.run(cx, args, d)
        new = State(gen.read(A))
        cx.check_that(r.ok and all(getattr(new.h, f) == want[f] for f in want), 'set-identity',
                      lambda: r.brief() + repr(want))
        bad = same_else(st, new, fields)
        cx.check_that(not bad and new.metas == st.metas, 'set-identity-touches-others',
                      lambda: '%s: %s' % (r.brief(), bad))
        cx.count('set identity')
        cx.eval((hashlib.sha1(gen.read(A)).digest(), tuple(args)))
        return new
    bad = same_else(st, new)
    cx.check_that(not bad, 'other-field-changed', lambda: '%s: %s' % (r.brief(), bad))
    if exp is not None:
        cx.check_that(dict(new.metas) == dict(exp) and len(new.metas) == len(exp),
                      'add-result', lambda: '%s\nmissing %r\nextra %r' % (
            r.brief(), [x for x in exp if x not in new.metas],
            [x for x in new.metas if x not in exp]))
    # values never overlap
    iv = sorted((m.offset, m.offset + m.size) for m in new.h.metas if m.id)
    cx.check_that(all(x[1] <= y[0] for x, y in zip(iv, iv[1:])) and
                  all(y <= 1920 for x, y in iv), 'values-overlap', lambda: repr(iv) + r.brief())
    cx.eval((hashlib.sha1(gen.read(A)).digest(), tuple(map(str, args))))
    # read the value and one other back
    items = [(n, ref, key, v)]
    for key2, v2 in rng.sample(new.metas, min(2, len(new.metas))):
        n2 = [x for x in names if fmt.bid(x) == key2[0]]
        items.append((n2[0] if n2 and rng.random() < .6 else '0x%x' % key2[0],
                      '0x%x' % key2[1] if key2[1] or rng.random() < .3 else None, key2, v2))
    before = gen.read(A)
    for n, ref, key, v in items:
        o = rng.choice([['--output', 'v.out'], ['-o', 'v.out'], []])
        if o:
            gen.put(d, 'v.out', b'leftover ' * rng.choice([1, 400]))
        r = cli.run(cx, ['extract', 'a.bpak', '--meta', n] + (['-r', ref] if ref is not None
                                                              else []) + o, d)
        got = gen.read(os.path.join(d, 'v.out')) if o else r.out
        cx.check_that(r.ok and got == v, 'extract-value', lambda: '%s\ngot %r\nstored %r' % (
            r.brief(), got, v))
        cx.count('extracted')
        cx.eval((n, ref, v))
        uniq = len([1 for k2, _ in new.metas if k2[0] == key[0]]) == 1
        if uniq or key[1]:
            pr = ['-p', '0x%x' % key[1]] if key[1] and (not uniq or rng.random() < .5) else []
            r = cli.run(cx, ['show', 'a.bpak', '-m', n] + pr, d)
            t = fmt.meta_text(key[0], v)
            if t is None:
                exp_t = [b'']
            else:
                t = t.encode('latin1')
                exp_t = [t + b'\n' if t else b''] + ([b''] if len(t) > 127 else [])
            cx.check_that(r.ok and r.out in exp_t, 'show-value', lambda: '%s\nexpected %r' % (
                r.brief(), exp_t))
            cx.count('shown')
            cx.eval(('show', n, v))
    cx.check_that(gen.read(A) == before, 'reading-changes-file', r.brief)
    if rng.random() < .3:
        listing(cx, d, new)
    cx.sample('%s' % ' '.join(map(repr, args)))
    return new


def listing(cx, d, st):
    r = cli.run(cx, ['show', 'a.bpak'], d)
    out = r.out
    if not cx.check_that(r.ok, 'listing', r.brief):
        return
    cx.count('listings')
    cx.eval(out)
    m = re.search(rb'^Key ID:\s+([0-9a-f]+)\s*$', out, re.M)
    m2 = re.search(rb'^Keystore ID:\s+([0-9a-f]+)\s*$', out, re.M)
    cx.check_that(m and m2 and int(m.group(1), 16) == st.h.key_id and
                  int(m2.group(1), 16) == st.h.keystore_id, 'listing-identity', r.brief)
    pos = out.find(b'\nMetadata:\n')
    pos = out.find(b'\n', pos + 11)
    end = out.rfind(b'\nParts:\n')
    sec = out[pos:end + 1]
    o = 0
    for (mid, ref), v in st.metas:
        t = fmt.meta_text(mid, v)
        t = b'' if t is None else t.encode('latin1')
        name = b'[^\n]*?'
        best = None
        for tt in [t] + ([b''] if len(t) > 127 else []):
            rx = re.compile(rb'\n {2,}%08x +%d +%s%s *%s *(?=\n)' % (
                mid, len(v), name, (b' %08x' % ref) if ref else rb'', re.escape(tt)))
            m = rx.match(sec, o)
            if m:
                best = m
                break
        if not cx.check_that(best, 'listing-entry', lambda: '%08x %08x %r\n%s' % (
                mid, ref, v, out.decode('latin1'))):
            return
        o = best.end()
    cx.check_that(sec[o:].strip() == b'', 'listing-extra', lambda: repr(sec[o:]))
