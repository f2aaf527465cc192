"""Small helper of the demonstrations: drives /repo's build products (cwd is
/repo) inside a scratch directory that is removed at the end."""
import atexit
import ctypes as C
import hashlib
import os
import random
import shutil
import struct
import subprocess
import sys
import tempfile

REPO = os.getcwd()
TOOL = os.path.join(REPO, '_build/src/bpak')
KEYS = os.path.join(REPO, 'test')
D = tempfile.mkdtemp(prefix='bpakdemo.')
atexit.register(shutil.rmtree, D, True)
L = C.CDLL(os.path.join(REPO, '_build/lib/libbpak.so'))
for _n in ('bpak_id', 'bpak_crc32'):
    getattr(L, _n).restype = C.c_uint32
L.bpak_id.argtypes = [C.c_char_p]
IO = C.CFUNCTYPE(C.c_ssize_t, C.c_int64, C.c_void_p, C.c_size_t, C.c_void_p)
sys.stdout.reconfigure(line_buffering=True)


def p(name):
    return os.path.join(D, name)


def put(name, data):
    with open(p(name), 'wb') as f:
        f.write(data)
    return p(name)


def get(name):
    with open(p(name), 'rb') as f:
        return f.read()


def rnd(n, seed=1):
    return random.Random(seed).randbytes(n)


def text(n, seed=1):
    r = random.Random(seed)
    return bytes(r.choice(b'abcdefgh ') for _ in range(n))


def bpak(*a, ok=True, timeout=100):
    """Run the tool in the scratch directory; ok: True/False/None."""
    r = subprocess.run([TOOL] + [str(x) for x in a], cwd=D,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    if ok is not None and (r.returncode == 0) != ok:
        fail('bpak %s: exit %d, expected %s\n%s' %
             (' '.join(map(str, a)), r.returncode,
              'success' if ok else 'failure',
              (r.stdout + r.stderr).decode('utf-8', 'replace')[:600]))
    return r


def fail(msg):
    print('FAIL: ' + msg)
    sys.stdout.flush()
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def ident(name):
    return L.bpak_id(name.encode())


class Part:
    def __init__(self, raw):
        (self.id, self.size, self.offset, self.transport_size,
         self.pad, self.flags) = struct.unpack('<IQQQHB', raw[:31])
        self.raw = raw


class Meta:
    def __init__(self, raw):
        self.id, self.size, self.offset, self.ref = struct.unpack(
            '<IHHI', raw[:12])


class Archive:
    def __init__(self, data):
        self.data = data
        self.meta = [m for m in (Meta(data[8 + 16 * i:24 + 16 * i])
                                 for i in range(32)) if m.id]
        self.parts = [q for q in (Part(data[520 + 32 * i:552 + 32 * i])
                                  for i in range(32)) if q.id]
        self.hash_kind = data[3464]
        self.payload_hash = data[3468:3468 + 64]

    def value(self, m):
        return self.data[1544 + m.offset:1544 + m.offset + m.size]

    def get_meta(self, name, ref=None):
        i = name if isinstance(name, int) else ident(name)
        for m in self.meta:
            if m.id == i and (ref is None or m.ref == ref):
                return self.value(m)

    def part(self, name):
        i = name if isinstance(name, int) else ident(name)
        for q in self.parts:
            if q.id == i:
                return q

    def content(self, name):
        q = self.part(name)
        n = q.transport_size if q.flags & 2 else q.size
        return self.data[q.offset:q.offset + n]


def archive(name):
    return Archive(get(name))


def digest(kind, data):
    return hashlib.new({1: 'sha256', 2: 'sha384', 3: 'sha512'}[kind],
                       data).digest()


class Mem:
    """A byte store behind the library's read/write callbacks."""

    def __init__(self, data=b'', chunk=None):
        self.b = bytearray(data)
        self.chunk = chunk
        self.rd = IO(self._rd)
        self.wr = IO(self._wr)

    def _rd(self, off, buf, n, user):
        if self.chunk:
            n = min(n, self.chunk)
        d = bytes(self.b[off:off + n])
        C.memmove(buf, d, len(d))
        return len(d)

    def _wr(self, off, buf, n, user):
        d = C.string_at(buf, n)
        if len(self.b) < off + n:
            self.b.extend(b'\0' * (off + n - len(self.b)))
        self.b[off:off + n] = d
        return n


def python(code, *args):
    """Run code with the built Python module; returns the process result."""
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, '_build/python'))
    return subprocess.run([sys.executable, '-c', code] + list(args), cwd=D,
                          env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=100)


def cc(src, name='prog', flags=()):
    """Compile a C program against the built library."""
    put(name + '.c', src.encode())
    r = subprocess.run(['gcc', '-std=gnu99', '-g', '-w', '-o', p(name),
                        p(name + '.c'), '-I', REPO + '/include',
                        '-I', REPO + '/_build/lib', '-I', REPO + '/_build/include',
                        '-L', REPO + '/_build/lib', '-lbpak',
                        '-Wl,-rpath,' + REPO + '/_build/lib', '-lpthread']
                       + list(flags), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        fail('cannot compile the demonstration: ' +
             r.stdout.decode()[:800])
    return p(name)


def signed(name, parts, hash='sha256', sign='prime256v1', key=None,
           meta=(), flags={}):
    """create + add parts [(name, bytes)] + sign."""
    if os.path.exists(p(name)):
        os.unlink(p(name))
    bpak('create', name, '-Y', '-H', hash, '-S', sign)
    for k, v in meta:
        bpak('add', name, '--meta', k, '--from-string', v)
    for k, v in parts:
        put('part.tmp', v)
        a = ['add', name, '--part', k, '--from-file', 'part.tmp']
        if flags.get(k):
            a += ['--set-flag', flags[k]]
        bpak(*a)
    if key:
        bpak('sign', name, '--key', os.path.join(KEYS, key))
