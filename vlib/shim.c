/* Glue between the checks and the library: structure sizes, an allocator that
 * records what it hands out, and a bpak_printf that really formats. */
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <bpak/bpak.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/crypto.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
#include <bpak/merkle.h>
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <bpak/verify.h>

static char sh_log[8192];
static __thread int sh_quiet;

int bpak_printf(int verbosity, const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int rc = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    return rc;
}

size_t sh_sizeof(int what)
{
    switch (what) {
    case 0: return sizeof(struct bpak_header);
    case 1: return sizeof(struct bpak_package);
    case 2: return sizeof(struct bpak_bsdiff_context);
    case 3: return sizeof(struct bpak_bspatch_context);
    case 4: return sizeof(struct bpak_merkle_context);
    case 5: return sizeof(struct bpak_transport_decode);
    case 6: return sizeof(struct bpak_hash_context);
    case 7: return sizeof(struct bpak_key);
    case 8: return sizeof(struct bpak_keystore);
    case 9: return offsetof(struct bpak_package, header);
    case 10: return offsetof(struct bpak_keystore, keys);
    }
    return 0;
}

/* ---- recording allocator ------------------------------------------------ */
#define SH_MAX 65536
static void *sh_ptrs[SH_MAX];
static size_t sh_sizes[SH_MAX];
static pthread_mutex_t sh_mu = PTHREAD_MUTEX_INITIALIZER;
static long sh_nalloc, sh_nfree, sh_foreign, sh_double, sh_failat, sh_failed, sh_live_n;
static long sh_live_bytes, sh_peak;
/* guard mode (no sanitizer in the process): blocks sit between guard zones and
 * released blocks are kept, filled, until the next reset */
#define SH_GUARD 64
#define SH_QMAX 65536
static int sh_guarded;
static void *sh_q[SH_QMAX];
static size_t sh_qsize[SH_QMAX];
static long sh_nq, sh_qbytes, sh_overrun, sh_late;

static int sh_filled(const unsigned char *p, int v, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++)
        if (p[i] != v)
            return 0;
    return 1;
}

/* present when the process is preloaded with mtrace.so */
extern void mt_enable(int) __attribute__((weak));
extern int mt_enabled(void) __attribute__((weak));

static int sh_untrack(void)
{
    int was = 0;
    if (mt_enable) {
        was = mt_enabled();
        mt_enable(0);
    }
    return was;
}

static void sh_track(int v)
{
    if (mt_enable)
        mt_enable(v);
}

/* call a library function with the malloc ledger switched on */
long sh_call(long (*f)(long, long, long, long, long, long, long, long, long, long), long *a)
{
    long r;
    sh_track(1);
    r = f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    sh_track(0);
    return r;
}

static void *sh_calloc(size_t n, size_t m)
{
    void *p = NULL;
    int was = sh_untrack();
    pthread_mutex_lock(&sh_mu);
    sh_nalloc++;
    if (sh_failat && (sh_nalloc == sh_failat || (sh_failat < 0 && sh_nalloc >= -sh_failat))) {
        sh_failed++;
    } else {
        if (sh_guarded) {
            size_t sz = n * m;
            unsigned char *q = m && n > ((size_t) -1 >> 8) / m ? NULL
                                                               : malloc(sz + 2 * SH_GUARD);
            if (q) {
                memset(q, 0xfd, SH_GUARD);
                memset(q + SH_GUARD, 0, sz);
                memset(q + SH_GUARD + sz, 0xfd, SH_GUARD);
                p = q + SH_GUARD;
            }
        } else {
            p = calloc(n, m);
        }
        if (p) {
            int i;
            for (i = 0; i < SH_MAX; i++)
                if (!sh_ptrs[i]) {
                    sh_ptrs[i] = p;
                    sh_sizes[i] = n * m;
                    sh_live_n++;
                    sh_live_bytes += n * m;
                    if (sh_live_bytes > sh_peak)
                        sh_peak = sh_live_bytes;
                    break;
                }
        }
    }
    pthread_mutex_unlock(&sh_mu);
    sh_track(was);
    return p;
}

static void sh_freefn(void *p)
{
    if (!p)
        return;
    pthread_mutex_lock(&sh_mu);
    int i;
    for (i = 0; i < SH_MAX; i++)
        if (sh_ptrs[i] == p)
            break;
    if (i == SH_MAX) {
        sh_foreign++;           /* not ours: do not touch it */
        pthread_mutex_unlock(&sh_mu);
        return;
    }
    size_t n = sh_sizes[i];
    sh_ptrs[i] = NULL;
    sh_nfree++;
    sh_live_n--;
    sh_live_bytes -= n;
    if (sh_guarded) {
        unsigned char *q = (unsigned char *) p - SH_GUARD;
        if (!sh_filled(q, 0xfd, SH_GUARD) || !sh_filled(q + SH_GUARD + n, 0xfd, SH_GUARD))
            sh_overrun++;
        memset(q, 0xdb, n + 2 * SH_GUARD);
        if (sh_nq < SH_QMAX && sh_qbytes + (long) n < (64 << 20)) {
            sh_q[sh_nq] = q;
            sh_qsize[sh_nq++] = n + 2 * SH_GUARD;
            sh_qbytes += n;
            p = NULL;
        } else {
            p = q;
        }
    }
    pthread_mutex_unlock(&sh_mu);
    int was = sh_untrack();
    free(p);
    sh_track(was);
}

/* releases the blocks that were kept; counts those written to after release */
static void sh_flush(void)
{
    long i;
    for (i = 0; i < sh_nq; i++) {
        if (!sh_filled(sh_q[i], 0xdb, sh_qsize[i]))
            sh_late++;
        free(sh_q[i]);
    }
    sh_nq = sh_qbytes = 0;
}

/* 0: writes outside a block, 1: writes after release */
long sh_alloc_damage(int what)
{
    pthread_mutex_lock(&sh_mu);
    sh_flush();
    pthread_mutex_unlock(&sh_mu);
    return what ? sh_late : sh_overrun;
}

void sh_alloc_guard(int v)
{
    sh_guarded = v;
}

int sh_alloc_install(void)
{
    return bpak_set_calloc_free(sh_calloc, sh_freefn);
}

int sh_alloc_default(void)
{
    return bpak_set_calloc_free(calloc, free);
}

void sh_alloc_reset(long failat)
{
    pthread_mutex_lock(&sh_mu);
    sh_flush();
    sh_overrun = sh_late = 0;
    memset(sh_ptrs, 0, sizeof(sh_ptrs));
    sh_nalloc = sh_nfree = sh_foreign = sh_failed = sh_live_n = 0;
    sh_live_bytes = sh_peak = 0;
    sh_failat = failat;
    pthread_mutex_unlock(&sh_mu);
}

long sh_alloc_stat(int what)
{
    switch (what) {
    case 0: return sh_nalloc;
    case 1: return sh_nfree;
    case 2: return sh_foreign;
    case 3: return sh_live_n;
    case 4: return sh_failed;
    case 5: return sh_peak;
    }
    return -1;
}

int sh_alloc_is_live(void *p)
{
    int i, r = 0;
    pthread_mutex_lock(&sh_mu);
    for (i = 0; i < SH_MAX; i++)
        if (sh_ptrs[i] == p)
            r = 1;
    pthread_mutex_unlock(&sh_mu);
    return r;
}

/* ---- packages ------------------------------------------------------------ */
struct bpak_header *sh_pkg_header(struct bpak_package *p)
{
    return &p->header;
}

FILE *sh_pkg_fp(struct bpak_package *p)
{
    return p->fp;
}

/* ---- keys ------------------------------------------------------------------ */
int sh_key_kind(struct bpak_key *k) { return (int) k->kind; }
int sh_key_size(struct bpak_key *k) { return (int) k->size; }
unsigned sh_key_id(struct bpak_key *k) { return (unsigned) k->id; }
void sh_key_set_id(struct bpak_key *k, unsigned id) { k->id = id; }
uint8_t *sh_key_data(struct bpak_key *k) { return k->data; }

struct bpak_keystore *sh_keystore_new(unsigned id, int n, int verified)
{
    struct bpak_keystore *ks = calloc(1, sizeof(*ks) + n * sizeof(struct bpak_key *));
    ks->id = id;
    ks->no_of_keys = n;
    ks->verified = verified;
    return ks;
}

struct bpak_key *sh_keystore_set(struct bpak_keystore *ks, int i, unsigned id, int kind,
                                 const uint8_t *data, int size)
{
    struct bpak_key *k = calloc(1, sizeof(*k) + size);
    k->kind = (enum bpak_key_kind) kind;
    k->size = size;
    k->id = id;
    memcpy(k->data, data, size);
    ks->keys[i] = k;
    return k;
}

/* ---- header access through the public macros ------------------------------- */
struct bpak_meta_header *sh_meta_at(struct bpak_header *h, int i) { return &h->meta[i]; }
struct bpak_part_header *sh_part_at(struct bpak_header *h, int i) { return &h->parts[i]; }

/* ---- streams in memory, without help from the interpreter --------------------- */
struct sh_mem {
    uint8_t *data;
    size_t len, cap;
    long calls, fail_at, short_at;
};

struct sh_io {
    struct sh_mem origin, output, header;
    long calls, fail_at, short_at;
    int bad;
};

static ssize_t sh_rd(struct sh_io *io, struct sh_mem *m, off_t o, uint8_t *p, size_t n)
{
    io->calls++;
    if (o < 0 || n > ((size_t) 1 << 62)) {
        io->bad++;
        return -1;
    }
    if (io->fail_at == io->calls)
        return -1;
    if ((size_t) o >= m->len)
        return 0;
    if (n > m->len - o)
        n = m->len - o;
    if (io->short_at == io->calls)
        n /= 2;
    memcpy(p, m->data + o, n);
    return n;
}

static ssize_t sh_wr(struct sh_io *io, struct sh_mem *m, off_t o, uint8_t *p, size_t n)
{
    io->calls++;
    if (o < 0 || n > ((size_t) 1 << 62)) {
        io->bad++;
        return -1;
    }
    if (io->fail_at == io->calls)
        return -1;
    if (io->short_at == io->calls)
        n /= 2;
    if ((size_t) o > m->cap || n > m->cap - o)
        return -1;
    memcpy(m->data + o, p, n);
    if (o + n > m->len)
        m->len = o + n;
    return n;
}

ssize_t sh_io_read_origin(off_t o, uint8_t *p, size_t n, void *u)
{
    return sh_rd(u, &((struct sh_io *) u)->origin, o, p, n);
}
ssize_t sh_io_read_output(off_t o, uint8_t *p, size_t n, void *u)
{
    return sh_rd(u, &((struct sh_io *) u)->output, o, p, n);
}
ssize_t sh_io_write_output(off_t o, uint8_t *p, size_t n, void *u)
{
    return sh_wr(u, &((struct sh_io *) u)->output, o, p, n);
}
ssize_t sh_io_write_header(off_t o, uint8_t *p, size_t n, void *u)
{
    return sh_wr(u, &((struct sh_io *) u)->header, o, p, n);
}

struct sh_io *sh_io_new(const uint8_t *origin, size_t n, size_t cap)
{
    struct sh_io *io = calloc(1, sizeof(*io));
    io->origin.data = calloc(1, n + 1);
    memcpy(io->origin.data, origin, n);
    io->origin.len = io->origin.cap = n;
    io->output.data = calloc(1, cap + 1);
    io->output.cap = cap;
    io->header.data = calloc(1, 8192);
    io->header.cap = 8192;
    return io;
}

void sh_io_fault(struct sh_io *io, long fail_at, long short_at)
{
    io->fail_at = fail_at;
    io->short_at = short_at;
}

long sh_io_stat(struct sh_io *io, int what)
{
    switch (what) {
    case 0: return io->calls;
    case 1: return io->output.len;
    case 2: return io->header.len;
    case 3: return io->bad;
    }
    return -1;
}

uint8_t *sh_io_data(struct sh_io *io, int what)
{
    return what ? io->header.data : io->output.data;
}

void sh_io_set_output(struct sh_io *io, const uint8_t *p, size_t n)
{
    memcpy(io->output.data, p, n);
    io->output.len = n;
}

void sh_io_free(struct sh_io *io)
{
    free(io->origin.data);
    free(io->output.data);
    free(io->header.data);
    free(io);
}

/* leaves n bytes of the given value below the caller's stack frame */
void __attribute__((noinline)) sh_dirty_stack(int value, size_t n)
{
    volatile uint8_t *p = __builtin_alloca(n);
    size_t i;
    for (i = 0; i < n; i++)
        p[i] = (uint8_t) (value + (value & 1 ? i * 7 : 0));
}
