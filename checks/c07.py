"""C07: archive layout and content follow the operations for every history.

Random histories of tool and library operations run against the real code; a
model of the archive predicts the whole file after every step."""
import ctypes as C
import hashlib
import os
import struct
import subprocess

from vlib import cli, clib, core, fmt, gen, huge

PROPERTY = 'C07'
LEVEL = 'exploration'
TECHNIQUE = ('online model monitor: after every operation of random tool/library histories the '
             'complete file is compared with a model of the archive; ASan/UBSan')
LEVEL_NOTE = ('Random histories of up to 40 operations (tool and library mixed, up to 32 parts, '
              'sizes around all block and alignment edges); the file is judged byte for byte after '
              'each. Trusts the format model vlib/fmt.py.')
BUILD = {'asan': ['lib', 'tool'], 'plain': ['tool']}
PRELOAD = 'asan'
RULE = ('A case is a history of create/add/add key/add merkle/delete/delete all/metadata '
        'operations. One judged execution per operation (file compared with the model) and per '
        'extraction; distinct: by digest of the resulting archive and the operation.')
REQUIRED = {'op add': 300, 'op merkle': 100, 'op key': 60, 'op delete': 150, 'op delete-all': 20,
            'op meta': 100, 'extracted': 500, 'full part table': 3, 'by tool': 300, 'by lib': 600,
            'create': 40, 'deleted first': 20, 'deleted middle': 20, 'deleted last': 20,
            'start with encoded parts': 10, 'huge archive op': 60}
ASSUMPTIONS = ['merkle salts are random and taken from the file']

FSIZE = 1 << 35


def cases(tier):
    return 800 if tier == 'quick' else 2500


class Model:
    def __init__(self, arch):
        self.h = fmt.Hdr(arch.h.pack())
        self.parts = [[p.id, p.size, p.flags, p.tsize, d]
                      for p, d in zip(arch.h.part_list(), arch.data)]
        self.metas = arch.h.meta_list()

    def ids(self):
        return [p[0] for p in self.parts]

    def build(self):
        """the archive this state stands for"""
        a = fmt.Archive(self.h.hash_kind, self.h.sign_kind)
        for k in ('key_id', 'keystore_id', 'signature', 'signature_sz', 'alignment', 'pad1',
                  'pad0'):
            setattr(a.h, k, getattr(self.h, k))
        for (mid, ref), v in self.metas:
            a.meta(mid, v, ref)
        for pid, size, flags, tsize, d in self.parts:
            q = a.h.add_part(pid, size, flags)
            q.tsize = tsize
            a.data.append(d)
        return a.finish()

    def space(self):
        end = 0
        for _, v in self.metas:
            end = (end + len(v) + 7) & ~7
        return fmt.META_BYTES - end


def judge(cx, M, path, what):
    raw = gen.read(path)
    a = M.build()
    h = fmt.Hdr(raw)
    want = a.h.part_list()
    got = h.part_list()
    cx.check_that([p.key() for p in want] == [p.key() for p in got], 'part-table:' + what,
                  lambda: '%s\nwant %r\ngot %r' % (what, want, got))
    body = b''.join(a.data)
    if raw[fmt.HDR:] != body:
        n = next((i for i in range(min(len(body), len(raw) - fmt.HDR))
                  if raw[fmt.HDR + i] != body[i]), min(len(body), len(raw) - fmt.HDR))
        cx.violation('data-area:' + what, 'file has %d bytes, want %d, first difference at %d, '
                     'parts %r' % (len(raw), fmt.HDR + len(body), fmt.HDR + n, want))
    cx.check_that(h.meta_list() == a.h.meta_list(), 'metadata:' + what,
                  lambda: '%r\n%r' % (h.meta_list(), a.h.meta_list()))
    cx.check_that(h.payload_hash == a.h.payload_hash, 'payload-hash:' + what,
                  lambda: '%s %r' % (h.payload_hash.hex(), want))
    same = ('hash_kind', 'sign_kind', 'alignment', 'key_id', 'keystore_id', 'signature',
            'signature_sz', 'magic')
    cx.check_that(all(getattr(h, k) == getattr(a.h, k) for k in same), 'header-field:' + what,
                  lambda: str([(k, getattr(h, k), getattr(a.h, k)) for k in same]))
    cx.check_that(h.valid(), 'header-invalid:' + what)
    cx.eval((hashlib.sha1(raw).digest(), what) if got or h.meta_list() else None)
    return raw


def absorb_salt(M, raw, name, data, flags, cx):
    """a merkle add: the salt is random, everything else is predicted"""
    pid = fmt.bid(name)
    salt = fmt.Hdr(raw).get(fmt.SALT_ID, pid)
    if not cx.check_that(salt is not None and len(salt) == 32, 'salt-missing'):
        raise core.Violation('salt-missing', name)
    tree, root = fmt.merkle_tree(data, salt)
    M.parts.append([pid, len(data), flags, 0, data])
    M.metas.append(((fmt.SALT_ID, pid), salt))
    M.metas.append(((fmt.ROOT_ID, pid), root))
    M.parts.append([fmt.tree_id(pid), len(tree), flags, 0, tree])


def size(rng, tier):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, 2, 510, 511, 512, 513, 514, 1023, 1024, 1025])
    if k == 1:
        return rng.choice([4095, 4096, 4097, 8191, 8192, 8193, 2048, 1536])
    if k == 2:
        return 512 * rng.randint(1, 40)
    if k == 3:
        return rng.randint(1, 60000 if tier == 'quick' else 2000000)
    return rng.randint(1, 3000)


def tree_of(M, pid):
    return fmt.tree_id(pid)


def huge_case(cx, L, rng):
    """the same operations with everything behind 2 or 4 GiB"""
    d = cx.tmp()
    keys = gen.keys(cx)
    H = huge.Huge(rng)
    path = huge.put(d, 'a.bpak', H)
    log = [str(H)]

    def bad(what, text):
        raise core.Violation('huge-archive:' + what, '%s\n%s' % (text, log))

    for step in range(rng.randint(3, 6)):
        tool = rng.random() < .5
        op = rng.choice(['add', 'add', 'merkle', 'key', 'delete', 'delete', 'extract', 'meta'])
        what = '%s:%s' % (op, 'tool' if tool else 'lib')
        fl = fmt.F_EXCLUDE if rng.random() < .25 else 0
        name = 'n%d' % step
        pid = fmt.bid(name)
        p = None
        if not tool:
            p = clib.Pkg(L, path, 'r+')
            if p.rc:
                bad('open', p.rc)
        if op in ('add', 'merkle', 'key'):
            data = rng.randbytes(rng.choice([0, 1, 512, 700, 5000]))
            if op == 'merkle':
                data = gen.content(rng, 4096 * rng.choice([1, 2, 3, 129]))
            if op == 'key':
                k = keys[rng.choice(sorted(keys))]
                src, data = k.pub, k.der
            else:
                src = gen.put(d, 'src.bin', data)
            if tool:
                r = cli.run(cx, ['add', 'a.bpak', '--part', name, '--from-file', src] +
                            (['--encoder', op] if op != 'add' else []) +
                            (['--set-flag', 'dont-hash'] if fl else []), d, fsize=FSIZE)
                rc = 0 if r.ok else r.brief()
            else:
                f = {'add': L.pkg_add_file, 'key': L.pkg_add_key,
                     'merkle': L.pkg_add_file_with_merkle_tree}[op]
                rc = f(p.p, src.encode(), name.encode(), fl) or p.close()
            if rc:
                bad(what, rc)
            H.new(name, data, fl)
            if op == 'merkle':
                with open(path, 'rb') as f:
                    salt = fmt.Hdr(f.read(fmt.HDR)).get(fmt.SALT_ID, pid)
                if not salt or len(salt) != 32:
                    bad(what, 'no salt')
                tree, root = fmt.merkle_tree(data, salt)
                H.metas += [((fmt.SALT_ID, pid), salt), ((fmt.ROOT_ID, pid), root)]
                H.new(name + '-hash-tree', tree, fl)
        elif op == 'delete':
            ids = [x[0] for x in H.parts]
            can = H.behind()
            if H.hid in ids and rng.random() < .3:
                can = [ids.index(H.hid)]
            if not can:
                continue
            k = rng.choice(can)
            if tool:
                r = cli.run(cx, ['delete', 'a.bpak', '--part', '0x%x' % ids[k]], d, fsize=FSIZE)
                rc = 0 if r.ok else r.brief()
            else:
                rc = L.pkg_delete_part(p.p, ids[k], True) or p.close()
            if rc:
                bad(what, rc)
            H.metas = [m for m in H.metas if m[0][1] != ids[k]]
            del H.parts[k]
        elif op == 'meta':
            gen.must(cli.run(cx, ['add', 'a.bpak', '--meta', name, '--from-string', 'v',
                                  '--part-ref', '0x%x' % H.parts[-1][0]], d, fsize=FSIZE))
            H.metas.append(((pid, H.parts[-1][0]), b'v\0'))
        else:
            for x in H.small():
                out = os.path.join(d, 'out')
                if tool:
                    r = cli.run(cx, ['extract', 'a.bpak', '--part', '0x%x' % x[0], '-o', 'out'], d)
                    rc = 0 if r.ok else r.brief()
                else:
                    rc = L.pkg_extract_file(p.p, x[0], out.encode())
                if rc or gen.read(out) != x[4]:
                    bad(what, '%s part %x' % (rc, x[0]))
                cx.count('extracted')
        log.append('%s %s' % (what, name))
        if p is not None:
            p.close()
        x = H.differs(path)
        if x:
            bad('%s:%s' % (x[0], op), '%s: %s' % (what, x[1]))
        with clib.Pkg(L, path, 'r') as q:
            _, end = H.positions()
            if q.rc or L.pkg_size(q.p) != end or L.pkg_installed_size(q.p) != end - fmt.HDR:
                bad('size', '%s: %d %d, has %d' % (q.rc, L.pkg_size(q.p),
                                                   L.pkg_installed_size(q.p), end))
        cx.count('op ' + op)
        cx.count('huge archive op')
        cx.eval(('huge', str(H), what))
    cx.count('huge archives')
    cx.sample('huge: ' + '; '.join(log)[:280])
    cx.drop(d)


def huge_move(cx, rng):
    """4 GiB are really moved and extracted"""
    d = cx.tmp()
    if not huge.space(d):
        cx.count('no space to move 4 GiB')
        return
    n = (1 << 32) + rng.choice([512, 4096, 70000, 1 << 20]) + rng.randint(0, 600)
    H = huge.Huge(rng, size=n, before=1)
    path = huge.put(d, 'a.bpak', H)
    for args in (['delete', 'a.bpak', '--part', 'before0'],
                 ['extract', 'a.bpak', '--part', 'rootfs', '-o', 'out']):
        try:
            p = subprocess.run([cx.builds['plain']['tool']] + args, cwd=d,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=65)
        except subprocess.TimeoutExpired:
            raise core.Inconclusive('moving 4 GiB takes too long here')
        if p.returncode:
            raise core.Violation('huge-archive:move', '%s: %d %s' % (args, p.returncode, p.stdout))
        if args[0] == 'delete':
            del H.parts[0]
        x = H.differs(path)
        if x:
            raise core.Violation('huge-archive:move:' + x[0], '%s: %s' % (args, x[1]))
        cx.eval((n, args[0]))
    out = os.path.join(d, 'out')
    with open(out, 'rb') as f:
        a = f.read(huge.EDGE)
        f.seek(n - huge.EDGE)
        b = f.read()
    cx.check_that((a, b) == (H.head, H.tail) and os.path.getsize(out) == n, 'huge-archive:extract',
                  '%d bytes, want %d' % (os.path.getsize(out), n))
    os.unlink(out)
    cx.count('moved and extracted 4 GiB')
    cx.sample('huge: move and extract %d bytes' % n)
    cx.drop(d)


def run_case(cx, i, rng):
    L = clib.load(cx)
    if i % 1000 == 33:
        return huge_move(cx, rng)
    if i % 20 == 13:
        return huge_case(cx, L, rng)
    d = cx.tmp()
    path = os.path.join(d, 'a.bpak')
    keys = gen.keys(cx)
    start = i % 4
    many = i % 10 == 7
    if start in (0, 1):
        hk, sk = rng.randint(1, 3), rng.randint(1, 4)
        if rng.random() < .3:
            gen.put(d, 'a.bpak', rng.randbytes(rng.choice([0, 100, 5000])))
        r = cli.run(cx, ['create', 'a.bpak', '-Y', '-H', gen.HOPT[hk], '-S', gen.SOPT[sk]], d)
        gen.must(r)
        M = Model(fmt.Archive(hk, sk))
        cx.count('create')
        judge(cx, M, path, 'create')
    elif start == 2:
        a = gen.model(gen.spec(rng, maxparts=4, empty=True), rng=rng)
        if rng.random() < .5:
            a.set_signature(rng.randbytes(rng.choice([70, 512])))
        gen.put(d, 'a.bpak', a.bytes())
        M = Model(a)
    else:
        # with transport encoded parts of odd sizes
        a = fmt.Archive(rng.randint(1, 3))
        for k in range(rng.randint(1, 4)):
            a.add('p%d' % k, rng.randbytes(rng.randint(0, 2000)))
        for k, p in enumerate(a.h.part_list()):
            if rng.random() < .6:
                p.flags |= fmt.F_TRANSPORT
                a.data[k] = rng.randbytes(rng.choice([0, 1, 7, 511, 513, 3000]))
                p.tsize = len(a.data[k])
        at = fmt.HDR
        for k, p in enumerate(a.h.part_list()):
            p.offset = at
            at += p.stored()
        a.finish()
        gen.put(d, 'a.bpak', a.bytes())
        M = Model(a)
        cx.count('start with encoded parts')
    n = rng.randint(6, 16) if not many else 45
    libonly = many or rng.random() < .4
    pkg = None
    names = {}
    log = []

    def close():
        nonlocal pkg
        if pkg is not None:
            rc = pkg.close()
            pkg = None
            if rc:
                raise core.Violation('close-fails', '%d after %s' % (rc, log[-3:]))

    def openp():
        nonlocal pkg
        if pkg is None:
            pkg = clib.Pkg(L, path, 'r+')
            if pkg.rc:
                raise core.Violation('open-refused', '%d after %s' % (pkg.rc, log[-3:]))
        return pkg

    for step in range(n):
        tool = not libonly and rng.random() < .45
        if tool:
            close()
        op = rng.choice(['add'] * 4 + ['merkle', 'merkle', 'key', 'delete', 'delete', 'meta',
                                       'delete-all'] if not many else
                        ['add'] * 9 + ['key', 'delete', 'merkle'])
        if op == 'delete-all' and rng.random() < .6:
            op = 'meta'
        fl = fmt.F_EXCLUDE if rng.random() < .25 else 0
        what = '%s:%s' % (op, 'tool' if tool else 'lib')
        left = fmt.NPART - len(M.parts)
        if op in ('add', 'merkle', 'key'):
            name = gen.uniq(rng, set(), ['q%d' % rng.randrange(10 ** 6), 'k', 'fs', 'Äpart',
                                         'x' * 60])
            pid = fmt.bid(name)
            if pid in M.ids() or fmt.tree_id(pid) in M.ids():
                continue
            need = 2 if op == 'merkle' else 1
            if op == 'merkle':
                bl = rng.choice([1, 1, 2, 3, rng.randint(1, 12), 127, 128, 129, 130]) \
                    if not many else 1
                data = gen.content(rng, bl * 4096)
                if M.space() < 80 or len(M.metas) > 29 or \
                        ((fmt.SALT_ID, pid) in dict(M.metas)) or ((fmt.ROOT_ID, pid) in
                                                                  dict(M.metas)):
                    continue
            elif op == 'key':
                k = keys[rng.choice(sorted(keys))]
                src = rng.choice(k.pubs)
                data = k.der
            else:
                data = gen.content(rng, size(rng, cx.tier) if not many else rng.randint(0, 600))
            if op != 'key':
                src = gen.put(d, 'src.bin', data)
            if left < need:
                cx.count('full part table')
                before = gen.read(path)
                if not many:
                    continue
                if op == 'key':
                    rc = L.pkg_add_key(openp().p, src.encode(), name.encode(), fl)
                elif op == 'add':
                    rc = L.pkg_add_file(openp().p, src.encode(), name.encode(), fl)
                else:
                    rc = L.pkg_add_file_with_merkle_tree(openp().p, src.encode(), name.encode(),
                                                         fl)
                close()
                cx.check_that(rc != 0 and gen.read(path) == before, 'add-to-full-table', rc)
                continue
            if tool:
                a = ['add', 'a.bpak', '--part', name, '--from-file', src]
                if op != 'add':
                    a += ['--encoder', op]
                if fl:
                    a += ['--set-flag', 'dont-hash']
                gen.must(cli.run(cx, a, d), 'valid-operation-refused')
            else:
                f = {'add': L.pkg_add_file, 'key': L.pkg_add_key,
                     'merkle': L.pkg_add_file_with_merkle_tree}[op]
                rc = f(openp().p, src.encode(), name.encode(), fl)
                if rc:
                    raise core.Violation('valid-operation-refused:' + what, '%d %r' % (rc, log))
            if op == 'merkle':
                if not tool:
                    clib.libc.fflush(None)
                absorb_salt(M, gen.read(path), name, data, fl, cx)
            else:
                M.parts.append([pid, len(data), fl, 0,
                                data + bytes(fmt.padlen(len(data)))])
            names[pid] = name
            log.append('%s %s %d' % (what, name, len(data)))
        elif op == 'delete':
            if not M.parts:
                continue
            k = rng.choice([0, len(M.parts) - 1, rng.randrange(len(M.parts))])
            pid = M.parts[k][0]
            keep = rng.random() < .4
            cx.count('deleted first' if k == 0 else
                     'deleted last' if k == len(M.parts) - 1 else 'deleted middle')
            if tool:
                ref = names.get(pid) if rng.random() < .5 else None
                a = ['delete', 'a.bpak', '--part', ref or '0x%x' % pid]
                if keep:
                    a.append('--keep-meta')
                gen.must(cli.run(cx, a, d), 'valid-operation-refused')
            else:
                rc = L.pkg_delete_part(openp().p, pid, not keep)
                if rc:
                    raise core.Violation('valid-operation-refused:' + what, '%d %r' % (rc, log))
            del M.parts[k]
            if not keep:
                M.metas = [m for m in M.metas if m[0][1] != pid]
            log.append('%s %d keep=%s' % (what, k, keep))
        elif op == 'delete-all':
            keep = rng.random() < .4
            if tool:
                gen.must(cli.run(cx, ['delete', 'a.bpak', '--all'] +
                                 (['--keep-meta'] if keep else []), d), 'valid-operation-refused')
            else:
                rc = L.pkg_delete_all_parts(openp().p, not keep)
                if rc:
                    raise core.Violation('valid-operation-refused:' + what, '%d' % rc)
            M.parts = []
            if not keep:
                M.metas = [m for m in M.metas if not m[0][1]]
            log.append('%s keep=%s' % (what, keep))
        else:
            mn = 'm%d' % rng.randrange(12)
            ref = rng.choice([0] + M.ids())
            key = (fmt.bid(mn), ref)
            if key in dict(M.metas):
                if tool:
                    continue
                # the library removes an entry and writes the header
                p = openp()
                out = C.c_void_p()
                if L.get_meta(p.hptr(), key[0], key[1], C.byref(out)):
                    raise core.Violation('metadata-lost', '%r %r' % (key, log))
                L.del_meta(p.hptr(), out.value)
                rc = L.pkg_write_header(p.p)
                if rc:
                    raise core.Violation('valid-operation-refused:write-header', rc)
                M.metas = [m for m in M.metas if m[0] != key]
                log.append('del meta')
            else:
                v = rng.randbytes(rng.choice([1, 4, 7, 8, 9, 32, 60] + [0] * (not tool)))
                if M.space() < len(v) + 8 or len(M.metas) > 30:
                    continue
                if tool:
                    gen.put(d, 'm.bin', v)
                    a = ['add', 'a.bpak', '--meta', mn, '--from-file', 'm.bin']
                    if ref:
                        a += ['--part-ref', '0x%x' % ref]
                    gen.must(cli.run(cx, a, d), 'valid-operation-refused')
                else:
                    p = openp()
                    out = C.c_void_p()
                    rc = L.add_meta(p.hptr(), key[0], ref, len(v), C.byref(out))
                    if rc:
                        raise core.Violation('valid-operation-refused:meta', rc)
                    o = struct.unpack_from('<H', C.string_at(out.value, 16), 6)[0]
                    C.memmove(p.hptr() + fmt.META_OFF + o, v, len(v))
                    rc = L.pkg_write_header(p.p)
                    if rc:
                        raise core.Violation('valid-operation-refused:write-header', rc)
                M.metas.append((key, v))
                cx.count('empty metadata', int(not v))
                log.append('add meta %d' % len(v))
        cx.count('op ' + op)
        cx.count('by tool' if tool else 'by lib')
        if not tool:
            p = openp()
            st = sum(len(x[4]) for x in M.parts)
            inst = sum(x[1] + fmt.padlen(x[1]) for x in M.parts)
            sizes(cx, L, p, st, inst, log)
            if rng.random() < .5:
                close()
            clib.libc.fflush(None)
        judge(cx, M, path, what)
    if rng.random() < .5:
        close()
    clib.libc.fflush(None)
    extract(cx, L, rng, M, d, path, names, log, None if pkg is None else pkg)
    close()
    with clib.Pkg(L, path, 'r') as p:
        if cx.check_that(p.rc == 0, 'open-refused', '%s' % log):
            sizes(cx, L, p, sum(len(x[4]) for x in M.parts),
                  sum(x[1] + fmt.padlen(x[1]) for x in M.parts), log)
    judge(cx, M, path, 'end')
    cx.sample(' '.join(log)[:280])
    cx.drop(d)


def sizes(cx, L, p, stored, inst, log):
    a, b = L.pkg_size(p.p), L.pkg_installed_size(p.p)
    cx.check_that(a == fmt.HDR + stored, 'reported-size', lambda: '%d, file has %d: %s' % (
        a, fmt.HDR + stored, log))
    cx.check_that(b == inst, 'reported-installed-size', lambda: '%d, is %d: %s' % (
        b, inst, log))


def extract(cx, L, rng, M, d, path, names, log, pkg):
    for k, (pid, sz, flags, tsize, data) in enumerate(M.parts):
        if flags & fmt.F_TRANSPORT:
            continue            # what an encoded part extracts to is not specified
        want = data[:sz]
        how = rng.choice(['tool', 'stdout', 'lib', 'lib'] if len(M.parts) < 8 else ['lib'] * 9 +
                         ['tool'])
        if how == 'lib':
            out = os.path.join(d, 'out%d' % k)
            if rng.random() < .3:
                gen.put(d, 'out%d' % k, rng.randbytes(sz + 99))
            p = pkg or clib.Pkg(L, path, 'r')
            rc = p.rc or L.pkg_extract_file(p.p, pid, out.encode())
            if pkg is None:
                p.close()
            got = gen.read(out) if rc == 0 else None
        else:
            ref = names.get(pid) or '0x%x' % pid
            a = ['extract', 'a.bpak', '--part', ref]
            out = os.path.join(d, 'tout')
            if how == 'tool':
                if rng.random() < .5:
                    gen.put(d, 'tout', rng.randbytes(sz + 99))
                a += ['-o', 'tout']
            r = cli.run(cx, a, d)
            rc = 0 if r.ok else r.brief()
            got = None if rc else gen.read(out) if how == 'tool' else r.out
        cx.check_that(got == want, 'extract-differs:' + how, lambda: 'part %d of %d, size %d, rc %s,'
                      ' got %s bytes: %s' % (k, len(M.parts), sz, rc,
                                             got is not None and len(got), log))
        cx.count('extracted')
        cx.eval((pid, sz, fmt.crc(want[:100]), how))
