"""C23: interrupting an update of an archive never loses what was already in it."""
import hashlib
import os
import re
import signal
import subprocess

from vlib import cli, clib, core, fmt, gen, ops, pk
from checks import c02, c11

PROPERTY = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('crash injection: the file states after every system call of a recorded run (and at '
             'page boundaries within a write) are rebuilt and judged, and the tool is really '
             'killed with strace at sampled calls; oracle is an independent reader and the '
             'signature check of the tree and of the model')
LEVEL_NOTE = ('Every state between two system calls of the modifying commands of a catalogue on '
              'seeded archives; page-torn writes; real kills validate the reconstruction. Loss of '
              'power (unflushed page cache) is outside the property.')
BUILD = {'plain': ['lib', 'tool']}
PRELOAD = None
RULE = ('One judged execution per crash state. Distinct: by command, input digest and content of '
        'the file after the crash.')
REQUIRED = {'crash states': 2000, 'real kills': 500, 'torn states': 60, 'state old': 150,
            'state new': 120, 'state extended': 150, 'decode states': 600, 'delete states': 100,
            'verified after crash': 60, 'not verified after crash': 400,
            'kill confirmed by replay': 300}
ASSUMPTIONS = ['a kill during a write leaves a prefix of it that ends on a page boundary',
               'the file system keeps completed writes of a killed process']

TRACE = ('openat,open,creat,read,write,pread64,pwrite64,readv,writev,lseek,ftruncate,truncate,'
         'rename,renameat,renameat2,unlink,unlinkat,link,linkat,close,dup,dup2,dup3,fallocate,'
         'copy_file_range,sendfile,mmap')
SAFE = ['add', 'add-merkle', 'add-key', 'add-meta', 'add-meta-int', 'add-meta-uuid',
        'add-meta-file', 'set', 'set-grow', 'set-integer', 'set-key-id', 'sign', 'sign-raw',
        'transport-add']
WEAK = ['delete', 'delete-keep', 'delete-all', 'decode', 'decode', 'decode-broken']


def cases(tier):
    return 120 if tier == 'quick' else 2000


def run_case(cx, i, rng):
    d = cx.tmp()
    L = clib.load(cx, 'plain')
    for _ in range(20):
        w = ops.World(cx, rng, d, big=rng.choice([2000, 9000, 30000]))
        ops.add_encoded(cx, L, w)
        if max(len(v) for v in w.inputs.values()) < 250000 or cx.tier != 'quick':
            break
    w.inputs['f.bin'] = rng.randbytes(rng.choice([0, 1, 511, 512, 5000, 40000, 70001]))
    signed = rng.random() < .5
    weak = i % 2
    if signed or weak:
        w.inputs['a.bpak'] = w.inputs['s.bpak']
    if rng.random() < .25:
        # left by an earlier interrupted command
        w.inputs['a.bpak'] += rng.randbytes(rng.choice([1, 511, 4096, 20000]))
    cat = {o.name: o for o in ops.tool_catalogue(w)}
    names = WEAK if weak else SAFE
    n = 4 if cx.tier == 'quick' else 6
    for j in range(n):
        op = cat[names[(i // 2 * n + j) % len(names)]]
        command(cx, L, rng, w, op, weak)
    cx.drop(d)


# ---- recorded run ------------------------------------------------------------------
class Replay:
    """states of one file, rebuilt from the system calls of a run"""

    def __init__(self, w, name, log, before):
        self.path = os.path.realpath(w.path(name))
        self.cwd = os.path.realpath(w.d)
        self.files = {os.path.realpath(w.path(n)): bytearray(v) for n, v in before.items()}
        self.fds = {}
        self.states = []        # (label, contents or None)
        self.torn = []
        self.ok = True
        self.note('start')
        for line in join_lines(log):
            try:
                self.step(line)
            except (ValueError, IndexError, KeyError):
                self.ok = False

    def note(self, label):
        v = self.files.get(self.path)
        v = None if v is None else bytes(v)
        if not self.states or self.states[-1][1] != v:
            self.states.append((label, v))

    def full(self, s):
        return os.path.realpath(os.path.join(self.cwd, s))

    def step(self, line):
        m = re.match(r'(?:\d+ +)?(\w+)\((.*)\)\s+= (-?\d+)(?:<[^>]*>)?', line, re.S)
        if not m:
            return
        name, args, ret = m.group(1), m.group(2), int(m.group(3))
        if ret < 0:
            return
        fd = re.match(r'(\d+)(?:<([^>]*)>)?', args)
        f = int(fd.group(1)) if fd else None
        if name in ('openat', 'open', 'creat'):
            p = self.full(unhex(re.search(r'"((?:[^"\\]|\\.)*)"', args).group(1)).decode())
            if 'O_TRUNC' in args or name == 'creat' or (
                    'O_CREAT' in args and p not in self.files):
                if not p.startswith(self.cwd):
                    return
                self.files[p] = bytearray()
                self.note('%s %s' % (name, os.path.basename(p)))
            if p in self.files or os.path.exists(p):
                self.fds[ret] = [p, 0, 'O_APPEND' in args]
        elif name == 'close':
            self.fds.pop(f, None)
        elif name in ('dup', 'dup2', 'dup3', 'fallocate', 'copy_file_range', 'sendfile',
                      'readv', 'writev', 'link', 'linkat', 'truncate'):
            if f in self.fds and self.fds[f][0] in self.files:
                self.ok = False
        elif name in ('unlink', 'unlinkat'):
            p = self.full(unhex(re.search(r'"((?:[^"\\]|\\.)*)"', args).group(1)).decode())
            self.files.pop(p, None)
            self.note(name)
        elif name.startswith('rename'):
            a, b = [self.full(unhex(x).decode()) for x in
                    re.findall(r'"((?:[^"\\]|\\.)*)"', args)]
            self.files[b] = self.files.pop(a)
            for v in self.fds.values():
                if v[0] == a:
                    v[0] = b
            self.note(name)
        elif f not in self.fds:
            return
        elif name == 'read':
            self.fds[f][1] += ret
        elif name == 'lseek':
            self.fds[f][1] = ret
        elif name == 'ftruncate':
            n = int(args.rsplit(',', 1)[1])
            v = self.files[self.fds[f][0]]
            if len(v) > n:
                del v[n:]
            else:
                v.extend(bytes(n - len(v)))
            self.note('ftruncate')
        elif name in ('write', 'pwrite64'):
            q = re.search(r'"((?:[^"\\]|\\.)*)"', args)
            data = unhex(q.group(1))[:ret]
            e = self.fds[f]
            v = self.files[e[0]]
            if name == 'pwrite64':
                pos = int(args.rsplit(',', 1)[1])
            else:
                pos = len(v) if e[2] else e[1]
                e[1] = pos + ret
            if len(data) != ret:
                self.ok = False
            old = bytes(v)
            page = (pos // 4096 + 1) * 4096
            while page < pos + ret and e[0] == self.path:
                t = bytearray(old)
                apply(t, pos, data[:page - pos])
                self.torn.append(('%s torn at %d' % (name, page), bytes(t)))
                page += 4096
            apply(v, pos, data)
            self.note('%s %d at %d' % (name, ret, pos))


def apply(v, pos, data):
    if not data:
        return
    if len(v) < pos:
        v.extend(bytes(pos - len(v)))
    v[pos:pos + len(data)] = data


def unhex(s):
    if '\\' not in s:
        return s.encode('latin1')
    return bytes.fromhex(s.replace('\\x', ''))


def join_lines(log):
    for line in log.splitlines():
        if 'unfinished' in line or 'resumed' in line:
            continue
        yield line


# ---- one command ----------------------------------------------------------------------
def command(cx, L, rng, w, op, weak):
    quick = cx.tier == 'quick'
    target = op.mod or op.output
    w.reset()
    left = None
    if op.output and rng.random() < .5:
        # the destination already holds a signed package, or a part of one
        left = w.inputs[rng.choice(['n.bpak', 's.bpak'])]
        if rng.random() < .3:
            left = left[:rng.randrange(len(left))]
        gen.put(w.d, target, left)
    before = w.state()
    s = c11.Strace(cx, w, op, ['-y', '-xx', '-s', '4000000', '-e', 'trace=' + TRACE])
    r = s.res(op)
    cli.judge_end(cx, r)
    after = w.state()
    ctx = Judge(cx, L, w, op, weak, before.get(target), after.get(target), r.ok)
    rep = Replay(w, target, s.log, before)
    if rep.states[-1][1] != after.get(target):
        rep.ok = False
    known = set()
    if rep.ok:
        cx.count('runs replayed')
        todo = list(rep.states)
        torn = rep.torn if len(rep.torn) < 40 or not quick else rng.sample(rep.torn, 40)
        if len(todo) > 400 and quick:
            todo = todo[:100] + rng.sample(todo[100:-60], 240) + todo[-60:]
        for label, st in todo:
            ctx.state(label, st)
        known = {x for _, x in rep.states} | {x for _, x in rep.torn}
        for label, st in torn:
            cx.count('torn states')
            ctx.state(label, st)
    else:
        cx.count('runs not replayed')
    # the tool is really killed
    tg = c11.targets(w, op, plain_log(s.log))
    pts = [(n, f, k) for (n, f), c in sorted(tg.items()) for k in range(1, c + 1)]
    many = (6 if rep.ok else 25) if quick else 60
    if len(pts) > many:
        pts = rng.sample(pts, many)
    for n, f, k in pts:
        w.reset()
        if left is not None:
            gen.put(w.d, target, left)
        x = c11.Strace(cx, w, op, ['-P', f, '-P', os.path.realpath(w.path(f)), '-e',
                                   'trace=' + n, '-e', 'inject=%s:signal=KILL:when=%d' % (n, k)], bpf=False)
        if x.rc != -signal.SIGKILL and '+++ killed by SIGKILL' not in x.log:
            cx.count('kill not reached')
            continue
        cx.count('real kills')
        st = w.state().get(target)
        if st in known:
            cx.count('kill confirmed by replay')
        elif rep.ok:
            cx.count('kill with another state')
        ctx.state('killed at %s of %s, call %d' % (n, f, k), st)
    w.reset()


def plain_log(log):
    """paths in a -xx log as text"""
    return re.sub(r'"((?:\\x[0-9a-f]{2})+)"',
                  lambda m: '"%s"' % (unhex(m.group(1)).decode('latin1').replace('"', '\\"')
                                      if len(m.group(1)) < 4000 else '...'),
                  re.sub(r'<((?:\\x[0-9a-f]{2})+)>',
                         lambda m: '<%s>' % unhex(m.group(1)).decode('latin1'), log))


def contents(raw):
    """({part id: (entry, stored bytes)}, {(meta id, ref): value}) or None"""
    h = fmt.Hdr(raw)
    body = raw[fmt.HDR:]
    parts = {}
    for p, o, n in ops.part_ranges(h):
        parts[p.id] = (p, body[o:o + n])
    return h, parts, h.meta_list()


class Judge:
    def __init__(self, cx, L, w, op, weak, old, new, ok):
        self.cx, self.L, self.w, self.op, self.weak = cx, L, w, op, weak
        self.old, self.new, self.ok = old, new, ok
        self.seen = set()
        self.dig = hashlib.sha1((old or b'') + op.name.encode()).digest()
        self.o = contents(old) if old and len(old) >= fmt.HDR and not op.output else None
        self.n = contents(new) if new and len(new) >= fmt.HDR and ok else None
        self.pub = None

    def state(self, label, st):
        if st in self.seen:
            return
        self.seen.add(st)
        cx = self.cx
        cx.count('crash states')
        cx.eval((self.dig, hashlib.sha1(st or b'').digest()))
        cx.count('state old' if st == self.old else 'state new' if st == self.new else
                 'state extended' if self.old and st and st[:fmt.HDR] == self.old[:fmt.HDR] else
                 'state other')
        how = '%s, interrupted after %s' % (' '.join(self.op.args), label)
        if self.weak:
            cx.count(('decode' if self.op.output else 'delete') + ' states')
            self.never_verifies(how, st)
            return
        bad = self.intact(st)
        if bad:
            cx.violation('%s:%s' % (bad[0], self.op.name), '%s: %s' % (how, bad[1]))

    def intact(self, st):
        if st is None or len(st) < fmt.HDR:
            return 'archive-lost', 'no archive with a complete header'
        gen.put(self.w.d, 'crashed', st)
        p = clib.Pkg(self.L, self.w.path('crashed'), 'r')
        rc = p.rc
        p.close()
        if rc:
            return 'does-not-open', 'open reports %d' % rc
        h, parts, metas = contents(st)
        oh, oparts, ometas = self.o
        nparts, nmetas = (self.n[1], dict(self.n[2])) if self.n else ({}, {})
        ids = [q.id for q in h.part_list()]
        if len(set(ids)) != len(ids):
            return 'part-listed-twice', ''
        for pid, (e, data) in oparts.items():
            if pid not in parts:
                return 'part-lost', '%x' % pid
            f, d2 = parts[pid]
            if (e.size, e.padb, e.flags, e.tsize) != (f.size, f.padb, f.flags, f.tsize):
                return 'part-entry-changed', '%x' % pid
            if d2 != data:
                return 'part-content-changed', '%x' % pid
        cur = {}
        for k, v in metas:
            cur.setdefault(k, []).append(v)
        for k, v in ometas:
            have = cur.get(k, [])
            if v not in have and not (k in nmetas and nmetas[k] in have and nmetas[k] != v):
                return 'metadata-lost', '%x/%x' % k
        for pid, (e, data) in parts.items():
            if len(data) != e.stored():
                return 'part-incomplete', '%x: %d of %d bytes' % (pid, len(data), e.stored())
            if pid in oparts:
                continue
            if pid not in nparts:
                return 'part-invented', '%x' % pid
            want = nparts[pid][1]
            if data == want:
                continue
            zz = fmt.bid('zz')
            if pid == fmt.tree_id(zz) and zz in parts:
                c = dict(metas)
                salt, root = c.get((fmt.SALT_ID, zz)), c.get((fmt.ROOT_ID, zz))
                if salt and root:
                    t, rt = fmt.merkle_tree(parts[zz][1][:parts[zz][0].size], salt)
                    if rt == root and data[:len(t)] == t:
                        continue
            return 'part-incomplete', '%x has other content' % pid
        for k, v in metas:
            if k not in dict(ometas) and k not in nmetas:
                return 'metadata-invented', '%x/%x' % k
            if k not in dict(ometas) and k[0] not in (fmt.SALT_ID, fmt.ROOT_ID) and \
                    nmetas[k] != v:
                return 'metadata-incomplete', '%x/%x' % k
        return None

    def never_verifies(self, how, st):
        cx = self.cx
        if st is None:
            return
        gen.put(self.w.d, 'crashed', st)
        p = clib.Pkg(self.L, self.w.path('crashed'), 'r')
        ok = False
        if not p.rc:
            import ctypes as C
            out = C.c_void_p()
            rc = self.L.crypto_load_public_key(self.w.key.pubs[0].encode(), C.byref(out))
            if rc:
                raise core.Inconclusive('public key does not load')
            ok = self.L.pkg_verify(p.p, out.value) == 0
            self.L.free(out.value)
        p.close()
        if not ok:
            cx.count('not verified after crash')
            return
        cx.count('verified after crash')
        why = self.authentic(st)
        cx.check_that(not why, 'verifies-incomplete:' + self.op.name, '%s: %s' % (how, why))

    def authentic(self, st):
        """reason why a package that verifies is not one of those signed"""
        cands = {'the signed input': self.w.inputs['s.bpak'],
                 'the signed package': self.w.inputs['n.bpak']}
        if self.old:
            cands['the file there before'] = self.old
        h, parts, metas = contents(st)
        for name, raw in cands.items():
            if len(raw) < fmt.HDR:
                continue
            if fmt.package_hash(raw) != fmt.package_hash(st):
                continue
            _, cparts, cmetas = contents(raw)
            if metas != cmetas or list(parts) != list(cparts):
                return 'other parts or metadata than ' + name
            for pid, (e, data) in cparts.items():
                if e.flags & fmt.F_EXCLUDE:
                    continue
                if parts[pid][1] != data or len(data) != e.stored():
                    return 'part %x is not the one of %s' % (pid, name)
            return ''
        return 'nobody signed this header'
