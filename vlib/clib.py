"""ctypes access to the library under test (sanitized build, LD_PRELOADed
libasan): exact-size heap buffers and monitored I/O callbacks."""
import ctypes as C

from . import fmt

IO = C.CFUNCTYPE(C.c_ssize_t, C.c_long, C.c_void_p, C.c_size_t, C.c_void_p)
CHECKHDR = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)
vp, sz, ss, i32, u32, off = C.c_void_p, C.c_size_t, C.c_ssize_t, C.c_int, C.c_uint32, C.c_long
cp = C.c_char_p
NULLIO = IO()

libc = C.CDLL(None, use_errno=True)
libc.malloc.restype = vp
libc.malloc.argtypes = [sz]
libc.free.argtypes = [vp]
libc.memcpy.argtypes = [vp, vp, sz]
libc.memcpy.restype = vp
libc.fflush.argtypes = [vp]
try:
    # ASan builds: tells whether any byte of a region is off limits
    _poisoned = libc.__asan_region_is_poisoned
    _poisoned.restype = vp
    _poisoned.argtypes = [vp, sz]
except AttributeError:
    _poisoned = None

SIG = {
    'bpak_id': (u32, [cp]),
    'bpak_crc32': (u32, [u32, vp, sz]),
    'bpak_get_meta': (i32, [vp, u32, u32, vp]),
    'bpak_get_meta_anyref': (i32, [vp, u32, vp]),
    'bpak_add_meta': (i32, [vp, u32, u32, C.c_uint16, vp]),
    'bpak_del_meta': (None, [vp, vp]),
    'bpak_get_part': (i32, [vp, u32, vp]),
    'bpak_add_part': (i32, [vp, u32, vp]),
    'bpak_del_part': (None, [vp, vp]),
    'bpak_valid_header': (i32, [vp]),
    'bpak_copyz_signature': (i32, [vp, vp, vp]),
    'bpak_init_header': (i32, [vp]),
    'bpak_part_offset': (off, [vp, vp]),
    'bpak_part_size': (sz, [vp]),
    'bpak_part_size_wo_pad': (sz, [vp]),
    'bpak_error_string': (cp, [i32]),
    'bpak_signature_kind': (cp, [C.c_uint8]),
    'bpak_hash_kind': (cp, [C.c_uint8]),
    'bpak_set_key_id': (i32, [vp, u32]),
    'bpak_set_keystore_id': (i32, [vp, u32]),
    'bpak_add_transport_meta': (i32, [vp, u32, u32, u32]),
    'bpak_version': (cp, []),
    'bpak_calloc': (vp, [sz, sz]),
    'bpak_free': (None, [vp]),
    'bpak_pkg_open': (i32, [vp, cp, cp]),
    'bpak_pkg_close': (i32, [vp]),
    'bpak_pkg_update_hash': (i32, [vp, vp, vp]),
    'bpak_pkg_installed_size': (sz, [vp]),
    'bpak_pkg_size': (sz, [vp]),
    'bpak_pkg_header': (vp, [vp]),
    'bpak_pkg_write_raw_signature': (i32, [vp, vp, sz]),
    'bpak_pkg_sign': (i32, [vp, cp]),
    'bpak_pkg_verify': (i32, [vp, vp]),
    'bpak_pkg_part_sha256': (i32, [vp, vp, sz, u32]),
    'bpak_pkg_transport_encode': (i32, [vp, vp, vp]),
    'bpak_pkg_transport_decode': (i32, [vp, vp, vp]),
    'bpak_pkg_write_header': (i32, [vp]),
    'bpak_pkg_add_file': (i32, [vp, cp, cp, C.c_uint8]),
    'bpak_pkg_add_file_with_merkle_tree': (i32, [vp, cp, cp, C.c_uint8]),
    'bpak_pkg_add_key': (i32, [vp, cp, cp, C.c_uint8]),
    'bpak_pkg_extract_file': (i32, [vp, u32, cp]),
    'bpak_pkg_delete_part': (i32, [vp, u32, C.c_bool]),
    'bpak_pkg_delete_all_parts': (i32, [vp, C.c_bool]),
    'bpak_merkle_compute_size': (ss, [sz]),
    'bpak_merkle_get_size': (sz, [vp]),
    'bpak_merkle_init': (i32, [vp, sz, vp, sz, IO, IO, off, C.c_bool, vp]),
    'bpak_merkle_write_chunk': (i32, [vp, vp, sz]),
    'bpak_merkle_finish': (i32, [vp, vp]),
    'bpak_bsdiff_init': (i32, [vp, vp, sz, vp, sz, IO, off, i32, vp]),
    'bpak_bsdiff': (ss, [vp]),
    'bpak_bsdiff_free': (None, [vp]),
    'bpak_bspatch_init': (i32, [vp, vp, sz, sz, IO, off, IO, off, i32, vp]),
    'bpak_bspatch_write': (i32, [vp, vp, sz]),
    'bpak_bspatch_final': (ss, [vp]),
    'bpak_bspatch_free': (None, [vp]),
    'bpak_transport_decode_init': (i32, [vp, vp, sz, vp, IO, IO, off, IO, vp]),
    'bpak_transport_decode_set_origin': (i32, [vp, vp, IO, off]),
    'bpak_transport_decode_start': (i32, [vp, vp]),
    'bpak_transport_decode_write_chunk': (i32, [vp, vp, sz]),
    'bpak_transport_decode_finish': (i32, [vp]),
    'bpak_transport_decode_free': (None, [vp]),
    'bpak_verify_compute_header_hash': (i32, [vp, vp, vp]),
    'bpak_verify_compute_payload_hash': (i32, [vp, IO, off, vp, vp, vp]),
    'bpak_verify_merkle_tree': (i32, [IO, off, sz, off, vp, vp, vp]),
    'bpak_verify_payload': (i32, [vp, IO, off, vp]),
    'bpak_hash_init': (i32, [vp, i32]),
    'bpak_hash_update': (i32, [vp, vp, sz]),
    'bpak_hash_final': (i32, [vp, vp, sz, vp]),
    'bpak_hash_free': (None, [vp]),
    'bpak_hash_setup': (None, [vp] * 4),
    'bpak_crypto_setup': (None, [vp] * 5),
    'bpak_crypto_verify': (i32, [vp, sz, vp, sz, i32, vp, vp]),
    'bpak_crypto_sign': (i32, [vp, sz, i32, vp, vp, vp]),
    'bpak_crypto_load_public_key': (i32, [cp, vp]),
    'bpak_crypto_load_private_key': (i32, [cp, vp]),
    'bpak_crypto_parse_public_key': (i32, [vp, sz, vp]),
    'bpak_keystore_get': (i32, [vp, u32, vp]),
    'bpak_keystore_load_key_from_file': (i32, [cp, u32, u32, vp, vp, vp]),
    'bpak_bin2hex': (i32, [vp, sz, vp, sz]),
    'bpak_meta_to_string': (i32, [vp, vp, vp, sz]),
    'bpak_uuid_to_string': (i32, [vp, vp, sz]),
    'bpak_part_name_to_hash_tree_id': (u32, [cp]),
    'bpak_part_id_to_hash_tree_id': (u32, [u32]),
    'bpak_hash_tree_id_to_part_id': (u32, [vp, u32]),
    'sh_sizeof': (sz, [i32]),
    'sh_alloc_install': (i32, []),
    'sh_alloc_default': (i32, []),
    'sh_alloc_reset': (None, [C.c_long]),
    'sh_alloc_stat': (C.c_long, [i32]),
    'sh_alloc_damage': (C.c_long, [i32]), 'sh_alloc_guard': (None, [i32]),
    'sh_alloc_is_live': (i32, [vp]),
    'sh_pkg_header': (vp, [vp]),
    'sh_key_kind': (i32, [vp]), 'sh_key_size': (i32, [vp]), 'sh_key_id': (u32, [vp]),
    'sh_key_set_id': (None, [vp, u32]), 'sh_key_data': (vp, [vp]),
    'sh_keystore_new': (vp, [u32, i32, i32]),
    'sh_keystore_set': (vp, [vp, i32, u32, i32, vp, i32]),
    'sh_call': (C.c_long, [vp, vp]),
    'sh_io_new': (vp, [vp, sz, sz]), 'sh_io_free': (None, [vp]),
    'sh_io_fault': (None, [vp, C.c_long, C.c_long]),
    'sh_io_stat': (C.c_long, [vp, i32]), 'sh_io_data': (vp, [vp, i32]),
    'sh_io_set_output': (None, [vp, vp, sz]),
    'sh_dirty_stack': (None, [i32, sz]),
    'sh_meta_at': (vp, [vp, i32]), 'sh_part_at': (vp, [vp, i32]),
}

HEADER, PACKAGE, BSDIFF, BSPATCH, MERKLE, TDECODE, HASHCTX, KEY, KEYSTORE = range(9)


class Lib:
    def __init__(self, path):
        self.dll = C.CDLL(path, use_errno=True)
        for n, (res, args) in SIG.items():
            try:
                f = getattr(self.dll, n)
            except AttributeError:
                continue
            f.restype, f.argtypes = res, args
            setattr(self, n[5:] if n.startswith('bpak_') else n, f)

    def size(self, what):
        return self.sh_sizeof(what)


class Tracked:
    """the same interface as Lib; library functions run with the malloc ledger
    switched on (worker preloaded with mtrace.so)"""

    def __init__(self, L):
        self._L = L
        self._mt = C.CDLL(None)
        for n, res, args in (('mt_reset', None, [C.c_long]), ('mt_stat', C.c_long, [C.c_int]),
                             ('mt_arm', None, [C.c_long]), ('mt_exempt', None, [cp]),
                             ('mt_caller', C.c_int, [C.c_int, vp, sz]),
                             ('mt_live', C.c_int, [C.c_int, vp, sz])):
            f = getattr(self._mt, n)
            f.restype, f.argtypes = res, args
            setattr(self, n, f)

    def __getattr__(self, name):
        L = self._L
        f = getattr(L, name)
        sig = SIG.get('bpak_' + name)
        if sig is None:
            return f
        addr = C.cast(f, vp).value
        res = sig[0]
        call = L.sh_call

        def tracked(*args):
            a = (C.c_long * 10)()
            keep = []
            for i, x in enumerate(args):
                if x is None:
                    a[i] = 0
                elif isinstance(x, int):
                    x &= (1 << 64) - 1
                    a[i] = x - (1 << 64) if x >> 63 else x
                elif isinstance(x, bytes):
                    b = C.create_string_buffer(x)
                    keep.append(b)
                    a[i] = C.addressof(b)
                else:
                    keep.append(x)
                    v = C.cast(x, vp).value or 0
                    a[i] = v
            r = call(addr, a)
            if res is None:
                return None
            if res is i32:
                r = C.c_int(r).value
            elif res is u32:
                r &= 0xffffffff
            elif res is sz:
                r &= (1 << 64) - 1
            elif res is vp:
                r = (r & ((1 << 64) - 1)) or None
            return r
        setattr(self, name, tracked)
        return tracked

    def live_blocks(self, n=10):
        out = []
        b = C.create_string_buffer(400)
        for i in range(n):
            if not self.mt_live(i, b, 400):
                break
            out.append(b.value.decode())
        return out

    def callers(self):
        out = []
        b = C.create_string_buffer(400)
        i = 0
        while self.mt_caller(i, b, 400):
            out.append(b.value.decode())
            i += 1
        return out


_libs = {}


def load(cx, flavour=None):
    if flavour is None:
        flavour = 'asan' if 'asan' in cx.builds else sorted(cx.builds)[0]
    p = cx.builds[flavour]['lib']
    if p not in _libs:
        _libs[p] = Lib(p)
    return _libs[p]


class Mix:
    """changes the initial contents of buffers handed to the library"""
    value = 0


class Buf:
    """exact-size malloc block; out of bounds accesses are caught by ASan"""

    def __init__(self, data_or_n, fill=None):
        if isinstance(data_or_n, int):
            self.n = data_or_n
            self.p = libc.malloc(self.n)
            if fill is not None and self.n:
                C.memset(self.p, fill ^ Mix.value, self.n)
        else:
            data = bytes(data_or_n)
            self.n = len(data)
            self.p = libc.malloc(self.n)
            if self.n:
                C.memmove(self.p, data, self.n)
        if not self.p:
            raise MemoryError

    def get(self, n=None, o=0):
        n = self.n if n is None else n
        return C.string_at(self.p + o, n) if n else b''

    def set(self, data, o=0):
        assert o + len(data) <= self.n
        if data:
            C.memmove(self.p + o, bytes(data), len(data))

    def free(self):
        if self.p:
            libc.free(self.p)
            self.p = None

    def __del__(self):
        self.free()


class Mem:
    """monitored stream: every request is recorded and checked"""

    def __init__(self, data=b'', grow=True, limit=1 << 28, fail_at=None, short_at=None):
        self.data = bytearray(data)
        self.grow, self.limit = grow, limit
        self.calls = 0
        self.reads = []
        self.writes = []
        self.bad = []           # requests that break the contract
        self.fail_at, self.short_at = fail_at, short_at
        self.err = None
        self.refuse = None      # end of the medium: writes beyond it fail
        self.maxreq = 0
        self.log = True
        self.r = IO(self._read)
        self.w = IO(self._write)

    def _read(self, o, p, n, user):
        try:
            self.calls += 1
            if n > self.maxreq:
                self.maxreq = n
            if self.log and len(self.reads) < 100000:
                self.reads.append((o, n))
            if o < 0:
                self.bad.append(('read negative offset', o, n))
                return -1
            if n > (1 << 62):
                self.bad.append(('read negative length', o, n))
                return -1
            if n and _poisoned and _poisoned(p, n):
                self.bad.append(('read into memory that is not the buffer', o, n))
                return -1
            if self.fail_at is not None and self.calls == self.fail_at:
                return -1
            d = self.fetch(o, n)
            if self.short_at is not None and self.calls == self.short_at:
                d = d[:len(d) // 2]
            if d:
                # ASan checks that the whole requested range is writable
                libc.memcpy(p, d, len(d))
            return len(d)
        except Exception as e:      # pragma: no cover
            self.err = e
            return -1

    def _write(self, o, p, n, user):
        try:
            self.calls += 1
            if n > self.maxreq:
                self.maxreq = n
            if self.log and len(self.writes) < 100000:
                self.writes.append((o, n))
            if o < 0:
                self.bad.append(('write negative offset', o, n))
                return -1
            if n > (1 << 62):
                self.bad.append(('write negative length', o, n))
                return -1
            if n and _poisoned and _poisoned(p, n):
                self.bad.append(('write from memory that is not the buffer', o, n))
                return -1
            if self.refuse is not None and o + n > self.refuse:
                return -1
            if o + n > self.limit:
                self.bad.append(('write beyond limit', o, n))
                return -1
            if self.fail_at is not None and self.calls == self.fail_at:
                return -1
            d = C.string_at(p, n) if n else b''
            if self.short_at is not None and self.calls == self.short_at:
                d = d[:len(d) // 2]
            self.store(o, d)
            return len(d)
        except Exception as e:      # pragma: no cover
            self.err = e
            return -1

    def fetch(self, o, n):
        return bytes(self.data[o:o + n])

    def store(self, o, d):
        if len(self.data) < o:
            self.data.extend(bytes(o - len(self.data)))
        self.data[o:o + len(d)] = d

    def since(self, o):
        return bytes(self.data[o:])

    def size(self):
        return len(self.data)


class Sparse(Mem):
    """a stream whose contents lie far behind its start"""
    PAGE = 1 << 16

    def __init__(self, *a, **k):
        self.pages = {}
        self.end = 0
        k.setdefault('limit', 1 << 62)
        super().__init__(*a, **k)

    def fetch(self, o, n):
        n = max(0, min(n, self.end - o))
        r = bytearray()
        while n:
            p, x = divmod(o, self.PAGE)
            k = min(n, self.PAGE - x)
            b = self.pages.get(p)
            r += bytes(k) if b is None else b[x:x + k]
            o += k
            n -= k
        return bytes(r)

    def store(self, o, d):
        self.end = max(self.end, o + len(d))
        i = 0
        while i < len(d):
            p, x = divmod(o + i, self.PAGE)
            k = min(len(d) - i, self.PAGE - x)
            if p not in self.pages:
                if len(self.pages) > 4096:
                    raise AssertionError('too much for a sparse stream')
                self.pages[p] = bytearray(self.PAGE)
            self.pages[p][x:x + k] = d[i:i + k]
            i += k

    def since(self, o):
        return self.fetch(o, self.end - o) if self.end > o else b''

    def size(self):
        return self.end


class Pkg:
    """struct bpak_package on an exact-size block"""

    def __init__(self, L, path, mode):
        self.L = L
        self.b = Buf(L.size(PACKAGE), 0xa5)
        self.path = path if isinstance(path, bytes) else path.encode('utf-8', 'surrogateescape')
        self.rc = L.pkg_open(self.b.p, self.path, mode.encode())
        self.open = self.rc == 0

    @property
    def p(self):
        return self.b.p

    def header(self):
        return C.string_at(self.L.sh_pkg_header(self.b.p), fmt.HDR)

    def hptr(self):
        return self.L.sh_pkg_header(self.b.p)

    def close(self):
        rc = 0
        if self.open:
            self.open = False
            rc = self.L.pkg_close(self.b.p)
        return rc

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass
