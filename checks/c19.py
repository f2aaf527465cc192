"""C19: updates are only built from and applied to the right origin."""
import ctypes as C
import hashlib
import os

from vlib import cli, clib, core, fmt, gen
from checks import c01, c02, c03, c05

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('refusal monitor: encode and decode through tool, library, Python and streams with '
             'origins of another or missing identity, no origin or an origin without the needed '
             'part; every refused decode is followed by verification of what it left behind; '
             'ASan/UBSan')
LEVEL_NOTE = ('Seeded package pairs, every single-bit identity difference over the cases, missing '
              'identities on each side, decoys (identity under a part reference or under another '
              'name), damaged updates of C05 as further refused decodes.')
BUILD = {'asan': ['lib', 'tool', 'py']}
PRELOAD = 'asan'
RULE = ('One judged execution per transport operation that has to be refused or accepted and per '
        'verification of a refused output. Distinct: by input digests, variation and interface.')
REQUIRED = {'refused encode': 350, 'refused decode': 500, 'accepted': 200, 'outputs verified': 500,
            'identity bit': 100, 'missing identity': 60, 'decoy': 60, 'no origin': 30,
            'part missing': 30, 'data missing': 100, 'damaged': 250, 'streams refused': 100, 'outputs with all hashed '
            'parts complete': 5}
ASSUMPTIONS = ['an identity is the 16 byte package id without part reference; shorter values are '
               'not judged', 'output and input are different files']
HOW = ['tool', 'lib', 'lib', 'tool', 'python']


def cases(tier):
    return 80 if tier == 'quick' else 1500


def clone(a):
    b = fmt.Archive()
    b.h = fmt.Hdr(a.h.pack())
    b.data = list(a.data)
    return b


def without_part(a, pid):
    b = clone(a)
    pl = [(p, d) for p, d in zip(a.h.part_list(), a.data) if p.id != pid]
    n = fmt.Archive(a.h.hash_kind, a.h.sign_kind)
    for (mid, ref), v in a.h.meta_list():
        n.meta(mid, v, ref)
    n.h.key_id, n.h.keystore_id = a.h.key_id, a.h.keystore_id
    for p, d in pl:
        n.add(p.id, d[:p.size], p.flags)
    return n.finish()


def with_identity(rng, a, kind, uid):
    """a copy whose identity is changed"""
    n = fmt.Archive(a.h.hash_kind, a.h.sign_kind)
    n.h.key_id, n.h.keystore_id = a.h.key_id, a.h.keystore_id
    ids = [p.id for p in a.h.part_list()]
    for (mid, ref), v in a.h.meta_list():
        if mid == fmt.PKG_ID and ref == 0:
            if kind == 'missing':
                continue
            if kind == 'under-part':
                n.meta(mid, v, rng.choice(ids) if ids else 5)
                continue
            if kind == 'other-name':
                n.meta(fmt.bid('bpak-package-id'), v, 0)
                continue
            if kind == 'decoy':
                # right value under a part reference first, wrong value as identity
                if rng.random() < .5:
                    n.meta(mid, v, rng.choice(ids) if ids else 5)
                    n.meta(mid, uid, 0)
                else:
                    n.meta(mid, uid, 0)
                    n.meta(mid, v, rng.choice(ids) if ids else 5)
                continue
            v = uid
        n.meta(mid, v, ref)
    for p, d in zip(a.h.part_list(), a.data):
        n.add(p.id, d[:p.size], p.flags)
    return n.finish()


def variation(cx, rng, i, org, new):
    """(origin, new, what)"""
    uid = new.h.get(fmt.PKG_ID)
    k = i % 8
    if k < 4:
        b = bytearray(uid)
        bit = (i // 8 * 4 + k) * 3 % 128
        if rng.random() < .7:
            b[bit // 8] ^= 1 << (bit % 8)
        else:
            b = bytearray(rng.choice([bytes(16), rng.randbytes(16), bytes(reversed(uid)),
                                      uid[:8] + uid[:8], uid[1:] + uid[:1]]))
            if bytes(b) == uid:
                b[0] ^= 1
        cx.count('identity bit')
        if rng.random() < .5:
            return with_identity(rng, org, 'other', bytes(b)), new, 'origin identity differs'
        return org, with_identity(rng, new, 'other', bytes(b)), 'input identity differs'
    if k in (4, 5):
        cx.count('missing identity')
        s = rng.randrange(3)
        o = with_identity(rng, org, 'missing', None) if s != 1 else org
        n = with_identity(rng, new, 'missing', None) if s != 0 else new
        return o, n, 'identity missing (%s)' % ('origin', 'input', 'both')[s]
    cx.count('decoy')
    kind = rng.choice(['under-part', 'other-name', 'decoy'])
    if rng.random() < .5:
        return with_identity(rng, org, kind, rng.randbytes(16)), new, 'origin ' + kind
    return org, with_identity(rng, new, kind, rng.randbytes(16)), 'input ' + kind


class Case:
    def __init__(self, cx, L, rng, d, key, keys):
        self.cx, self.L, self.rng, self.d, self.key, self.keys = cx, L, rng, d, key, keys
        self.pub = c01.load_pub(cx, L, key.pub)

    def verifies(self, name):
        """does an output verify with the signer's key"""
        p = os.path.join(self.d, name)
        if not os.path.exists(p):
            return False
        self.cx.count('outputs verified')
        if self.rng.random() < .3:
            r = cli.run(self.cx, ['verify', name, '--key', self.key.pub], self.d)
            return r.ok
        k = clib.Pkg(self.L, p, 'r')
        rc = k.rc or self.L.pkg_verify(k.p, self.pub)
        k.close()
        return rc == 0

    def refuse(self, op, how, inp, org, what, mark, must=True):
        cx = self.cx
        out = 'out-%s.bpak' % op
        path = os.path.join(self.d, out)
        if os.path.exists(path):
            os.unlink(path)
        if self.rng.random() < .3:
            gen.put(self.d, out, self.rng.randbytes(self.rng.choice([100, 9000])))
        err = c03.run(cx, self.L, op, how, self.d, inp, out, org)
        cx.eval((mark, op, how, what))
        if err is None:
            if must:
                cx.violation('accepted:%s:%s' % (op, what.split(' (')[0]), how)
            return False
        cx.count('refused ' + op)
        if op == 'decode':
            cx.check_that(not self.verifies(out), 'refused-output-verifies:' +
                          what.split(' (')[0], lambda: '%s: %s' % (how, err))
        return True

    def accept(self, op, how, inp, org, out, what):
        err = c03.run(self.cx, self.L, op, how, self.d, inp, out, org)
        self.cx.count('accepted')
        self.cx.eval((inp, op, how, what))
        return self.cx.check_that(err is None, 'refused-right-origin:' + op, lambda: '%s: %s' % (
            how, err))


def run_case(cx, i, rng):
    L = clib.load(cx)
    keys = gen.keys(cx)
    d = cx.tmp()
    key = keys[rng.choice(sorted(keys))]
    org, new, plan = gen.pair(rng, maxparts=3, big=4000, shapes=[s for s in c03.c04.SHAPES
                                                                 if s != 'big'])
    c02.sign(new, key)
    c = Case(cx, L, rng, d, key, keys)
    dig = hashlib.sha1(org.bytes() + new.bytes()).hexdigest()
    gen.put(d, 'org.bpak', org.bytes())
    gen.put(d, 'new.bpak', new.bytes())
    h, body = c05.encode(cx, L, rng, org, new, plan)
    enc = h.pack() + b''.join(body)
    gen.put(d, 'enc.bpak', enc)
    # right origin
    how = rng.choice(HOW)
    if c.accept('encode', how, 'new.bpak', 'org.bpak', 'e.bpak', 'right'):
        c.accept('decode', rng.choice(HOW), 'e.bpak', 'org.bpak', 'r.bpak', 'right')
    if c.accept('decode', how, 'enc.bpak', 'org.bpak', 'r.bpak', 'right'):
        cx.check_that(c.verifies('r.bpak'), 'accepted-does-not-verify', how)
    # another or no identity
    for j in range(3):
        o, n, what = variation(cx, rng, i * 3 + j, org, new)
        c02.sign(n, key)
        gen.put(d, 'o1.bpak', o.bytes())
        gen.put(d, 'n1.bpak', n.bytes())
        hh = fmt.Hdr(n.h.pack())
        for p, q in zip(hh.parts, h.parts):
            p.flags, p.tsize = q.flags, q.tsize
        e1 = hh.pack() + b''.join(body)
        gen.put(d, 'e1.bpak', e1)
        mark = hashlib.sha1(o.bytes()[:fmt.HDR] + e1).hexdigest()
        for how in rng.sample(['tool', 'lib', 'python'], 2):
            if how == 'python' and rng.random() < .6:
                how = 'tool'
            c.refuse('encode', how, 'n1.bpak', 'o1.bpak', what, mark)
            c.refuse('decode', how, 'e1.bpak', 'o1.bpak', what, mark)
        stream(cx, L, rng, e1, o.bytes(), what, mark)
    need = [pid for pid, pl in plan.items() if pl[0] == 'delta']
    if need:
        # no origin
        for how in rng.sample(['tool', 'lib', 'python'], 2):
            c.refuse('encode', how, 'new.bpak', None, 'no origin', dig)
            c.refuse('decode', how, 'enc.bpak', None, 'no origin', dig)
            cx.count('no origin')
        stream(cx, L, rng, enc, None, 'no origin', dig)
        # origin without the part
        for pid in rng.sample(need, 1) + [need[-1]]:
            o = without_part(org, pid)
            gen.put(d, 'o2.bpak', o.bytes())
            how = rng.choice(HOW)
            c.refuse('encode', how, 'new.bpak', 'o2.bpak', 'part missing', dig)
            c.refuse('decode', how, 'enc.bpak', 'o2.bpak', 'part missing', dig)
            stream(cx, L, rng, enc, o.bytes(), 'part missing', dig)
            cx.count('part missing')
    for _ in range(2):
        incomplete(c, org, new, h, enc, plan, dig)
    trailing(c, i, dig)
    # damaged updates: refused or not, what is refused must not verify
    for _ in range(5 if cx.tier == 'quick' else 15):
        r = c05.break_archive(cx, rng, h, body, org, plan)
        if not r or not r[2]:
            continue
        e2, o2, what = r[0], r[1], r[2]
        if sum(p.size + p.padb for p in fmt.Hdr(e2).part_list()) > 8 << 20:
            continue
        gen.put(d, 'e2.bpak', e2)
        gen.put(d, 'o3.bpak', o2 if isinstance(o2, bytes) else org.bytes())
        c.refuse('decode', rng.choice(['lib', 'lib', 'tool']), 'e2.bpak', 'o3.bpak',
                 'damaged', hashlib.sha1(e2).hexdigest(), must=False)
        cx.count('damaged')
    L.free(c.pub)
    cx.sample('%d parts, %d deltas' % (len(plan), len(need)))
    cx.drop(d)


def incomplete(c, org, new, h, enc, plan, dig):
    """data that an operation needs is missing at the end of a file"""
    cx, rng = c.cx, c.rng
    which = rng.choice(['origin', 'origin', 'input', 'encoded'])
    raw = {'origin': org.bytes(), 'input': new.bytes(), 'encoded': enc}[which]
    hh = {'origin': org.h, 'input': new.h, 'encoded': h}[which]
    last = fmt.HDR
    for p, at in fmt.positions(hh)[0]:
        pl = plan.get(p.id, ('copy',))
        if which == 'origin' and pl[0] != 'delta' or which == 'input' and pl[0] == 'remove':
            continue
        n = p.tsize if p.flags & fmt.F_TRANSPORT else p.size
        if n:
            last = at + n
    if last == fmt.HDR:
        return
    cut = max(fmt.HDR, rng.choice([last - 1, last - rng.randint(1, 512), last - 4096,
                                   rng.randrange(fmt.HDR, last)]))
    gen.put(c.d, 'cut.bpak', raw[:cut])
    what = '%s data missing' % which
    how = rng.choice(HOW)
    if which == 'origin':
        c.refuse('encode', how, 'new.bpak', 'cut.bpak', what, dig)
        # the delta does not have to use what is missing
        if not c.refuse('decode', how, 'enc.bpak', 'cut.bpak', what, dig, must=False):
            cx.check_that(c.verifies('out-decode.bpak'), 'accepted-does-not-verify:' + what, how)
    elif which == 'input':
        c.refuse('encode', how, 'cut.bpak', 'org.bpak', what, dig)
    else:
        c.refuse('decode', how, 'cut.bpak', 'org.bpak', what, dig)
    cx.count('data missing')


def trailing(c, i, dig):
    """the refusal comes when everything the signature covers is already there"""
    cx, rng, L = c.cx, c.rng, c.L
    uid = rng.randbytes(16)
    org = fmt.Archive()
    new = fmt.Archive(rng.choice([1, 2, 3]))
    for a in (org, new):
        a.meta(fmt.PKG_ID, uid)
    plan = {}
    for k in range(rng.randint(0, 2)):
        dt = rng.randbytes(rng.randint(1, 3000))
        org.add('p%d' % k, dt)
        new.add('p%d' % k, dt + b'x', 0)
        pid = fmt.bid('p%d' % k)
        plan[pid] = rng.choice([('copy',), ('delta', 'hs'), ('delta', 'none')])
    a = rng.randbytes(rng.randint(600, 3000))
    org.add('last', a)
    new.add('last', a[:-5] + rng.randbytes(40), fmt.F_EXCLUDE)
    plan[fmt.bid('last')] = (('copy',) if i % 6 == 1 else
                             ('delta', rng.choice(['hs', 'none', 'lzma'])))
    names = {'hs': ('bsdiff', 'bspatch'), 'none': ('bsdiff-no-comp', 'bspatch-no-comp'),
             'lzma': ('bsdiff-lzma', 'bspatch-lzma')}
    for pid, pl in plan.items():
        if pl[0] == 'delta':
            new.transport(pid, *names[pl[1]])
    org.finish()
    new.finish()
    c02.sign(new, c.key)
    h, body = c05.encode(cx, L, rng, org, new, plan)
    o = without_part(org, fmt.bid('last'))
    gen.put(c.d, 'org.bpak', o.bytes())
    k = i % 3
    if k == 0:
        what = 'last part missing in origin'
    elif k == 1:
        gen.put(c.d, 'org.bpak', org.bytes())
        body[-1] = body[-1][:len(body[-1]) // 2]
        what = 'input ends early'
        if rng.random() < .5 and plan[fmt.bid('last')][0] == 'delta':
            h.part_list()[-1].tsize = len(body[-1])
            what = 'last delta is cut'
    else:
        gen.put(c.d, 'org.bpak', org.bytes())
        body[-1] = rng.randbytes(len(body[-1]))
        what = 'last delta is damaged'
    gen.put(c.d, 'enc.bpak', h.pack() + b''.join(body))
    for how in ('tool', 'lib', 'python')[:2 + (i % 4 == 0)]:
        if c.refuse('decode', how, 'enc.bpak', 'org.bpak', what, dig, must=k != 2):
            cx.count('outputs with all hashed parts complete')


def stream(cx, L, rng, enc, oraw, what, mark):
    """the same through the streaming decoder: some call must fail"""
    hb = clib.Buf(enc[:fmt.HDR])
    if L.valid_header(hb.p):
        raise core.Inconclusive('header')
    gh = clib.Buf(oraw[:fmt.HDR]) if oraw else None
    h = fmt.Hdr(enc)
    out, hdr = clib.Mem(b'', limit=1 << 24), clib.Mem(b'', limit=fmt.HDR)
    gm = clib.Mem(oraw[fmt.HDR:] if oraw else b'')
    work = clib.Buf(512, 0x77)
    ctx = clib.Buf(L.size(clib.TDECODE), 0x99)
    rc = L.transport_decode_init(ctx.p, work.p, work.n, hb.p, out.w, out.r, 0, hdr.w, None)
    if not rc and oraw:
        rc = L.transport_decode_set_origin(ctx.p, gh.p, gm.r, 0)
        if rc:
            cx.check_that(not out.data and not gm.reads, 'stream-touched-before-refusal', what)
    pos = fmt.HDR
    for k in range(fmt.NPART):
        if rc or not h.parts[k].id:
            break
        rc = L.transport_decode_start(ctx.p, L.sh_part_at(hb.p, k))
        n = h.parts[k].stored()
        bd = enc[pos:pos + n]
        pos += n
        j = 0
        while j < len(bd) and not rc:
            ch = clib.Buf(bd[j:j + 2000])
            rc = L.transport_decode_write_chunk(ctx.p, ch.p, ch.n)
            j += 2000
        rc = rc or L.transport_decode_finish(ctx.p)
    L.transport_decode_free(ctx.p)
    cx.check_that(rc != 0, 'accepted:stream:' + what.split(' (')[0], mark)
    cx.count('streams refused')
    cx.eval((mark, 'stream', what))
