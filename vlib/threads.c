/* C22: threads that work on objects of their own at the same time.
 *
 * threads seq|par PLAN LOG: PLAN has one line per operation "thread op seed";
 * every thread runs its operations in order in its own directory t<thread>.
 * LOG gets "thread index op digest start end" per operation.  With seq the
 * threads run one after the other. */
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
#include <bpak/bpak.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/crc.h>
#include <bpak/crypto.h>
#include <bpak/id.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
#include <bpak/merkle.h>
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <bpak/utils.h>
#include <bpak/verify.h>
#include <bpak/version.h>

#define MAXT 16
#define MAXOP 400

struct op {
    char name[32];
    unsigned long seed;
    unsigned long digest;
    long start, end;
};

struct thread {
    int no;
    int n;
    struct op op[MAXOP];
    unsigned long rnd;      /* plan driven */
    unsigned long noise;    /* delays only */
    unsigned long dig;
    char dir[200];
};

static struct thread threads[MAXT];
static __thread struct thread *self;
static int noisy;
static pthread_barrier_t bar;

static unsigned long rnd(struct thread *t)
{
    t->rnd ^= t->rnd << 13;
    t->rnd ^= t->rnd >> 7;
    t->rnd ^= t->rnd << 17;
    return t->rnd >> 8;
}

static void delay(void)
{
    struct thread *t = self;
    if (!noisy || !t)
        return;
    t->noise = t->noise * 6364136223846793005UL + 1442695040888963407UL;
    unsigned v = t->noise >> 40;
    if (v % 16 == 0)
        sched_yield();
    else if (v % 64 == 1) {
        struct timespec ts = { 0, 1000 * (1 + v % 90) };
        nanosleep(&ts, NULL);
    }
}

static void mix(const void *p, size_t n)
{
    const uint8_t *b = p;
    unsigned long h = self->dig;
    while (n--)
        h = (h ^ *b++) * 1099511628211UL;
    self->dig = h;
}

static void mixi(long v)
{
    mix(&v, sizeof(v));
}

static void mixs(const char *s)
{
    if (s)
        mix(s, strlen(s) + 1);
    else
        mixi(-1);
}

int bpak_printf(int verbosity, const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int rc = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    delay();
    return rc;
}

static void *my_calloc(size_t n, size_t m)
{
    delay();
    return calloc(n, m);
}

static void my_free(void *p)
{
    delay();
    free(p);
}

/* ---- files ---------------------------------------------------------------- */
static char *in(char *buf, const char *name)
{
    sprintf(buf, "%s", name);
    return buf;
}

static char *own(char *buf, const char *name)
{
    sprintf(buf, "%s/%s", self->dir, name);
    return buf;
}

static uint8_t *slurp(const char *path, size_t *n)
{
    struct stat st;
    *n = 0;
    FILE *f = fopen(path, "rb");
    if (!f)
        return calloc(1, 1);
    fstat(fileno(f), &st);
    uint8_t *p = calloc(1, st.st_size + 1);
    *n = fread(p, 1, st.st_size, f);
    fclose(f);
    return p;
}

static void put(const char *path, const void *p, size_t n)
{
    FILE *f = fopen(path, "wb");
    if (!f || fwrite(p, 1, n, f) != n || fclose(f))
        _exit(77);
}

static void copy(const char *from, const char *to)
{
    size_t n;
    uint8_t *p = slurp(from, &n);
    put(to, p, n);
    free(p);
}

static void mixfile(const char *path)
{
    size_t n;
    uint8_t *p = slurp(path, &n);
    mixi(n);
    mix(p, n);
    free(p);
}

/* ---- streams -------------------------------------------------------------- */
struct mem {
    uint8_t *p;
    size_t n, cap;
    struct mem *origin;
    struct mem *header;
};

static ssize_t m_rd(struct mem *m, off_t o, uint8_t *b, size_t n)
{
    delay();
    if (o < 0 || (size_t) o > m->n)
        return -1;
    if (n > m->n - o)
        n = m->n - o;
    memcpy(b, m->p + o, n);
    return n;
}

static ssize_t m_wr(struct mem *m, off_t o, const uint8_t *b, size_t n)
{
    delay();
    if (o < 0 || o + n > m->cap)
        return -1;
    memcpy(m->p + o, b, n);
    if (m->n < o + n)
        m->n = o + n;
    return n;
}

static ssize_t rd_out(off_t o, uint8_t *b, size_t n, void *u) { return m_rd(u, o, b, n); }
static ssize_t wr_out(off_t o, uint8_t *b, size_t n, void *u) { return m_wr(u, o, b, n); }
static ssize_t rd_org(off_t o, uint8_t *b, size_t n, void *u)
{
    return m_rd(((struct mem *) u)->origin, o, b, n);
}
static ssize_t wr_hdr(off_t o, uint8_t *b, size_t n, void *u)
{
    return m_wr(((struct mem *) u)->header, o, b, n);
}

static void m_new(struct mem *m, size_t cap)
{
    memset(m, 0, sizeof(*m));
    m->p = calloc(1, cap + 1);
    m->cap = cap;
}

/* ---- digest of an archive without what is random -------------------------- */
static void mixpkg(const char *path)
{
    size_t n;
    uint8_t *p = slurp(path, &n);
    mixi(n);
    if (n < sizeof(struct bpak_header)) {
        mix(p, n);
        free(p);
        return;
    }
    struct bpak_header *h = (struct bpak_header *) p;
    struct mem m = { p + sizeof(*h), n - sizeof(*h), n - sizeof(*h) };
    int i, j, random_tree = 0;
    uint32_t zz = bpak_id("zz");
    uint32_t tree = bpak_part_id_to_hash_tree_id(zz);
    uint32_t salt_id = bpak_id("merkle-salt"), root_id = bpak_id("merkle-root-hash");
    int rc = bpak_valid_header(h);
    mixi(rc);
    mixi(rc ? 0 : bpak_verify_payload(h, rd_out, 0, &m));
    struct bpak_part_header *dp = NULL, *tp = NULL;
    struct bpak_meta_header *sm = NULL, *rm = NULL;
    if (!rc && !bpak_get_part(h, zz, &dp) && !bpak_get_part(h, tree, &tp) &&
        !bpak_get_meta(h, salt_id, zz, &sm) && !bpak_get_meta(h, root_id, zz, &rm)) {
        uint8_t *data = m.p + (bpak_part_offset(h, dp) - sizeof(*h));
        (void) data;
        rc = bpak_verify_merkle_tree(rd_out, bpak_part_offset(h, dp) - sizeof(*h), dp->size,
                                     bpak_part_offset(h, tp) - sizeof(*h),
                                     &h->metadata[rm->offset], &h->metadata[sm->offset], &m);
        mixi(rc);
        random_tree = rc == 0;
    }
    mixi(h->hash_kind);
    mixi(h->signature_kind);
    mixi(h->key_id);
    mixi(h->keystore_id);
    mixi(h->alignment);
    if (!random_tree)
        mix(h->payload_hash, sizeof(h->payload_hash));
    for (i = 0; i < BPAK_MAX_META; i++) {
        struct bpak_meta_header *e = &h->meta[i];
        mix(e, sizeof(*e));
        if (e->id && e->offset + e->size <= sizeof(h->metadata) &&
            !(random_tree && (e->id == salt_id || e->id == root_id)))
            mix(&h->metadata[e->offset], e->size);
    }
    size_t o = 0;
    for (i = 0; i < BPAK_MAX_PARTS; i++) {
        struct bpak_part_header *e = &h->parts[i];
        mix(e, sizeof(*e));
        if (!e->id)
            continue;
        size_t k = bpak_part_size(e);
        if (o + k <= m.n && !(random_tree && e->id == tree))
            mix(m.p + o, k);
        o += k;
    }
    free(p);
}

static void mixkey(int rc, struct bpak_key **key)
{
    struct bpak_key *k;
    mixi(rc);
    if (rc)
        return;
    k = *key;
    mixi(k->kind);
    mixi(k->size);
    mixi(k->id);
    mix(k->data, k->size);
    bpak_free(k);
}

static const char *KEYS[] = { "rsa4096", "secp256r1", "secp384r1", "secp521r1" };

/* ---- operations ----------------------------------------------------------- */
static void op_build(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    struct bpak_meta_header *m = NULL;
    copy(in(f, "a.bpak"), own(a, "a.bpak"));
    int rc = bpak_pkg_open(&pkg, a, "r+");
    mixi(rc);
    if (rc)
        return;
    mixi(bpak_pkg_add_file(&pkg, in(f, "f.bin"), "plain", rnd(t) % 2));
    sprintf(f, "%s.pub", KEYS[rnd(t) % 4]);
    mixi(bpak_pkg_add_key(&pkg, f, "key", 0));
    mixi(bpak_pkg_add_file_with_merkle_tree(&pkg, in(f, "m.bin"), "zz", 0));
    mixi(bpak_add_meta(bpak_pkg_header(&pkg), 0x77, 0, 16, &m));
    if (m)
        memset(&bpak_pkg_header(&pkg)->metadata[m->offset], 0x55, 16);
    mixi(bpak_set_key_id(bpak_pkg_header(&pkg), rnd(t)));
    mixi(bpak_set_keystore_id(bpak_pkg_header(&pkg), rnd(t)));
    mixi(bpak_add_transport_meta(bpak_pkg_header(&pkg), bpak_id("plain"), 1, 2));
    mixi(bpak_pkg_write_header(&pkg));
    mixi(bpak_pkg_size(&pkg));
    mixi(bpak_pkg_installed_size(&pkg));
    mixi(bpak_pkg_close(&pkg));
    mixpkg(a);
}

static void op_create(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    int rc = bpak_pkg_open(&pkg, own(a, "c.bpak"), "w+");
    mixi(rc);
    if (rc)
        return;
    struct bpak_header *h = bpak_pkg_header(&pkg);
    bpak_init_header(h);
    h->hash_kind = 1 + rnd(t) % 3;
    h->signature_kind = 1 + rnd(t) % 4;
    mixi(bpak_pkg_write_header(&pkg));
    mixi(bpak_pkg_add_file(&pkg, in(f, "m.bin"), "one", 0));
    mixi(bpak_pkg_add_file(&pkg, in(f, "f.bin"), "two", BPAK_FLAG_EXCLUDE_FROM_HASH));
    mixi(bpak_pkg_add_file(&pkg, in(f, "f.bin"), "two", 0));
    mixi(bpak_pkg_close(&pkg));
    mixfile(a);
}

static void op_sign(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    struct bpak_key *k = NULL;
    int n = rnd(t) % 4, other = rnd(t) % 4;
    if (n == 0 && rnd(t) % 3)
        n = 1;                          /* RSA signatures are slow */
    copy(in(f, "a.bpak"), own(a, "sg.bpak"));
    int rc = bpak_pkg_open(&pkg, a, "r+");
    mixi(rc);
    if (rc)
        return;
    bpak_pkg_header(&pkg)->signature_kind = n + 1;
    sprintf(f, "%s.priv", KEYS[n]);
    mixi(bpak_pkg_sign(&pkg, f));
    mixi(bpak_pkg_close(&pkg));
    mixpkg(a);
    rc = bpak_pkg_open(&pkg, a, "r");
    mixi(rc);
    if (rc)
        return;
    sprintf(f, "%s.pub", KEYS[n]);
    rc = bpak_crypto_load_public_key(f, &k);
    mixi(rc);
    if (!rc) {
        mixi(bpak_pkg_verify(&pkg, k));
        bpak_free(k);
    }
    sprintf(f, "%s.pub", KEYS[other]);
    rc = bpak_crypto_load_public_key(f, &k);
    mixi(rc);
    if (!rc) {
        mixi(bpak_pkg_verify(&pkg, k));
        bpak_free(k);
    }
    mixi(bpak_pkg_close(&pkg));
}

static void op_raw(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    uint8_t sig[512];
    size_t n = 1 + rnd(t) % 512, i;
    copy(in(f, "a.bpak"), own(a, "rw.bpak"));
    for (i = 0; i < n; i++)
        sig[i] = rnd(t);
    int rc = bpak_pkg_open(&pkg, a, "r+");
    mixi(rc);
    if (rc)
        return;
    mixi(bpak_pkg_write_raw_signature(&pkg, sig, n));
    uint8_t out[512];
    size_t k = sizeof(out);
    memset(out, 0, sizeof(out));
    mixi(bpak_copyz_signature(bpak_pkg_header(&pkg), out, &k));
    mixi(k);
    mixi(bpak_pkg_close(&pkg));
    mixfile(a);
}

static void op_delete(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    int all = rnd(t) % 3 == 0, k = rnd(t) % 6, meta = rnd(t) & 1;
    copy(in(f, "a.bpak"), own(a, "d.bpak"));
    int rc = bpak_pkg_open(&pkg, a, "r+");
    mixi(rc);
    if (rc)
        return;
    if (all)
        mixi(bpak_pkg_delete_all_parts(&pkg, meta));
    else
        mixi(bpak_pkg_delete_part(&pkg, bpak_pkg_header(&pkg)->parts[k].id, meta));
    mixi(bpak_pkg_close(&pkg));
    mixfile(a);
}

static void op_read(struct thread *t)
{
    char a[300], f[300];
    struct bpak_package pkg;
    uint8_t b[64];
    char hb[64];
    size_t n = sizeof(hb);
    int i;
    int rc = bpak_pkg_open(&pkg, in(a, rnd(t) & 1 ? "a.bpak" : "s.bpak"), "r");
    mixi(rc);
    if (rc)
        return;
    rc = bpak_pkg_update_hash(&pkg, hb, &n);
    mixi(rc);
    if (!rc)
        mix(hb, n);
    mixi(bpak_pkg_size(&pkg));
    for (i = 0; i < BPAK_MAX_PARTS; i++) {
        uint32_t id = bpak_pkg_header(&pkg)->parts[i].id;
        if (!id)
            continue;
        memset(b, 0, sizeof(b));
        mixi(bpak_pkg_part_sha256(&pkg, b, 32, id));
        mix(b, 32);
        mixi(bpak_pkg_extract_file(&pkg, id, own(f, "x.out")));
        mixfile(f);
    }
    mixi(bpak_pkg_extract_file(&pkg, 0x1234, own(f, "x.out")));
    mixi(bpak_pkg_close(&pkg));
}

static void transport(int decode, const char *i, const char *o, const char *g)
{
    struct bpak_package a, b, c;
    char f[300];
    int rc = bpak_pkg_open(&a, i, "r");
    mixi(rc);
    if (rc)
        return;
    rc = bpak_pkg_open(&b, own(f, o), "w+");
    mixi(rc);
    if (rc) {
        bpak_pkg_close(&a);
        return;
    }
    rc = g ? bpak_pkg_open(&c, g, "r") : 0;
    mixi(rc);
    if (!rc) {
        if (decode)
            mixi(bpak_pkg_transport_decode(&a, &b, g ? &c : NULL));
        else
            mixi(bpak_pkg_transport_encode(&a, &b, g ? &c : NULL));
        if (g)
            bpak_pkg_close(&c);
    }
    bpak_pkg_close(&a);
    mixi(bpak_pkg_close(&b));
    mixfile(f);
}

static void op_encode(struct thread *t)
{
    transport(0, "n.bpak", "enc.bpak", rnd(t) % 8 ? "o.bpak" : NULL);
}

static void op_decode(struct thread *t)
{
    int k = rnd(t) % 8;
    transport(1, k == 1 ? "eb.bpak" : "e.bpak", "dec.bpak", k ? "o.bpak" : NULL);
}

static void diff_pair(struct thread *t, struct mem *o, struct mem *n)
{
    size_t i, k;
    uint8_t *p;
    k = 500 + rnd(t) % 5000;
    m_new(o, k);
    p = slurp("m.bin", &i);
    o->n = k;
    for (i = 0; i < k; i++)
        o->p[i] = p[i % 4096] ^ (i % 700 < 40 ? rnd(t) : 0);
    free(p);
    m_new(n, k + 2000);
    n->n = k - rnd(t) % 300 + rnd(t) % 900;
    size_t sh = rnd(t) % 200;
    for (i = 0; i < n->n; i++)
        n->p[i] = o->p[(i + sh) % k] + (i % 97 == 0) + (i > k ? rnd(t) : 0);
}

static void op_delta(struct thread *t)
{
    struct mem o, n, p, r;
    int comp = rnd(t) % 3;
    int broken = rnd(t) % 4 == 0;
    struct bpak_bsdiff_context d;
    struct bpak_bspatch_context s;
    uint8_t work[512];
    size_t i, step = 100 + rnd(t) % 3000;
    diff_pair(t, &o, &n);
    m_new(&p, 1 << 17);
    m_new(&r, 1 << 14);
    memset(&d, 0xc7, sizeof(d));
    int rc = bpak_bsdiff_init(&d, o.p, o.n, n.p, n.n, wr_out, 0, comp, &p);
    mixi(rc);
    if (!rc) {
        mixi(bpak_bsdiff(&d));
        bpak_bsdiff_free(&d);
        mix(p.p, p.n);
        if (broken)
            for (i = 0; i < 5; i++)
                p.p[rnd(t) % p.n] ^= 1 << rnd(t) % 8;
        r.origin = &o;
        memset(&s, 0xc7, sizeof(s));
        rc = bpak_bspatch_init(&s, work, sizeof(work), p.n, rd_org, 0, wr_out, 0, comp, &r);
        mixi(rc);
        if (!rc) {
            for (i = 0; i < p.n && !rc; i += step)
                rc = bpak_bspatch_write(&s, p.p + i, p.n - i < step ? p.n - i : step);
            mixi(rc);
            if (!rc)
                mixi(bpak_bspatch_final(&s));
            bpak_bspatch_free(&s);
            if (!broken) {
                mixi(r.n == n.n && !memcmp(r.p, n.p, n.n));
            }
            mix(r.p, r.n);
        }
    }
    free(o.p);
    free(n.p);
    free(p.p);
    free(r.p);
}

static void op_merkle(struct thread *t)
{
    size_t n, i;
    uint8_t *data = slurp("m.bin", &n);
    uint8_t salt[32];
    struct bpak_merkle_context c;
    bpak_merkle_hash_t root;
    struct mem m;
    for (i = 0; i < 32; i++)
        salt[i] = rnd(t);
    for (i = 0; i < 50; i++)
        data[rnd(t) % n] = rnd(t);
    size_t k = bpak_merkle_compute_size(n);
    m_new(&m, n + k);
    memcpy(m.p, data, n);
    memset(&c, 0xc7, sizeof(c));
    memset(root, 0, sizeof(root));
    int rc = bpak_merkle_init(&c, n, salt, 32, wr_out, rd_out, n, true, &m);
    mixi(rc);
    for (i = 0; i < n && !rc; i += 5000)
        rc = bpak_merkle_write_chunk(&c, data + i, n - i < 5000 ? n - i : 5000);
    mixi(rc);
    mixi(bpak_merkle_finish(&c, root));
    mix(root, 32);
    mix(m.p, m.n);
    mixi(bpak_verify_merkle_tree(rd_out, 0, n, n, root, salt, &m));
    m.p[rnd(t) % n] ^= 4;
    mixi(bpak_verify_merkle_tree(rd_out, 0, n, n, root, salt, &m));
    free(m.p);
    free(data);
}

static void op_hash(struct thread *t)
{
    size_t n, i;
    uint8_t *data = slurp("m.bin", &n), out[64];
    int kind;
    for (kind = 1; kind <= 3; kind++) {
        struct bpak_hash_context c;
        memset(&c, 0xc7, sizeof(c));
        mixi(bpak_hash_init(&c, kind));
        for (i = 0; i < n; i += 1700) {
            mixi(bpak_hash_update(&c, data + i, n - i < 1700 ? n - i : 1700));
            delay();
        }
        size_t k = 0;
        memset(out, 0, sizeof(out));
        mixi(bpak_hash_final(&c, out, sizeof(out), &k));
        mix(out, k);
        bpak_hash_free(&c);
    }
    free(data);
}

static void op_stream(struct thread *t)
{
    size_t n, k = 64;
    uint8_t *p = slurp(rnd(t) & 1 ? "s.bpak" : "n.bpak", &n), out[64];
    struct bpak_header *h = (struct bpak_header *) p;
    struct mem m = { p + sizeof(*h), n - sizeof(*h), n - sizeof(*h) };
    int rc = bpak_verify_compute_header_hash(h, out, &k);
    mixi(rc);
    if (!rc)
        mix(out, k);
    k = 64;
    rc = bpak_verify_compute_payload_hash(h, rd_out, 0, &m, out, &k);
    mixi(rc);
    if (!rc)
        mix(out, k);
    mixi(bpak_verify_payload(h, rd_out, 0, &m));
    if (m.n) {
        m.p[rnd(t) % m.n] ^= 1;
        mixi(bpak_verify_payload(h, rd_out, 0, &m));
    }
    free(p);
}

static void op_sdecode(struct thread *t)
{
    size_t n, gn, i, step = 200 + rnd(t) % 9000, pos = sizeof(struct bpak_header);
    uint8_t *p = slurp(rnd(t) % 5 ? "e.bpak" : "eb.bpak", &n), *g = slurp("o.bpak", &gn);
    struct bpak_header *h = (struct bpak_header *) p;
    struct mem out, hdr, org = { g + sizeof(*h), gn - sizeof(*h), gn - sizeof(*h) };
    struct bpak_transport_decode c;
    uint8_t work[512];
    int rc, k;
    m_new(&out, 1 << 20);
    m_new(&hdr, 8192);
    out.header = &hdr;
    out.origin = &org;
    memset(&c, 0xc7, sizeof(c));
    rc = bpak_valid_header(h);
    if (!rc)
        rc = bpak_transport_decode_init(&c, work, sizeof(work), h, wr_out, rd_out, 0, wr_hdr,
                                        &out);
    mixi(rc);
    if (!rc) {
        rc = bpak_transport_decode_set_origin(&c, (struct bpak_header *) g, rd_org, 0);
        for (k = 0; k < BPAK_MAX_PARTS && !rc && h->parts[k].id; k++) {
            rc = bpak_transport_decode_start(&c, &h->parts[k]);
            size_t left = bpak_part_size(&h->parts[k]);
            if (left > n - pos)
                left = n - pos;
            for (i = 0; i < left && !rc; i += step)
                rc = bpak_transport_decode_write_chunk(&c, p + pos + i,
                                                       left - i < step ? left - i : step);
            pos += left;
            if (!rc)
                rc = bpak_transport_decode_finish(&c);
        }
        bpak_transport_decode_free(&c);
        mixi(rc);
        mix(out.p, out.n);
        mix(hdr.p, hdr.n);
    }
    free(out.p);
    free(hdr.p);
    free(p);
    free(g);
}

static void op_keys(struct thread *t)
{
    char f[300];
    struct bpak_key *k = NULL;
    size_t n;
    int j = rnd(t) % 4;
    sprintf(f, "%s.pub", KEYS[j]);
    uint8_t *der = slurp(f, &n);
    mixkey(bpak_crypto_load_public_key(f, &k), &k);
    mixkey(bpak_crypto_parse_public_key(der, n, &k), &k);
    mixkey(bpak_crypto_parse_public_key(der, n - 1 - rnd(t) % (n - 1), &k), &k);
    free(der);
    sprintf(f, "%s.priv", KEYS[j]);
    mixkey(bpak_crypto_load_private_key(f, &k), &k);
    mixkey(bpak_crypto_load_private_key("m.bin", &k), &k);
    mixkey(bpak_crypto_load_public_key("nope", &k), &k);
}

static void op_crypto(struct thread *t)
{
    char f[300];
    struct bpak_key *k = NULL, *q = NULL;
    uint8_t h[64], sig[512];
    size_t n = sizeof(sig), i;
    bool ok = false;
    int j = 1 + rnd(t) % 3, kind = 1 + rnd(t) % 3, len = kind == 1 ? 32 : kind == 2 ? 48 : 64;
    for (i = 0; i < 64; i++)
        h[i] = rnd(t);
    sprintf(f, "%s.priv", KEYS[j]);
    int rc = bpak_crypto_load_private_key(f, &k);
    mixi(rc);
    if (rc)
        return;
    rc = bpak_crypto_sign(h, len, kind, k, sig, &n);
    mixi(rc);
    bpak_free(k);
    sprintf(f, "%s.pub", KEYS[j]);
    int rc2 = bpak_crypto_load_public_key(f, &q);
    mixi(rc2);
    if (rc2)
        return;
    if (!rc) {
        mixi(bpak_crypto_verify(sig, n, h, len, kind, q, &ok));
        mixi(ok);
        h[rnd(t) % len] ^= 8;
        ok = false;
        bpak_crypto_verify(sig, n, h, len, kind, q, &ok);
        mixi(ok);
    }
    bpak_free(q);
}

static int check_hdr(struct bpak_header *h, void *user)
{
    *(int *) user += 1;
    return 0;
}

static void op_keystore(struct thread *t)
{
    struct bpak_key *k = NULL;
    size_t n;
    uint8_t *p = slurp("ksid", &n);
    uint32_t id = strtoul((char *) p, NULL, 10);
    int calls = 0;
    free(p);
    mixkey(bpak_keystore_load_key_from_file("ks.bpak", id, bpak_id("k1"), check_hdr, &calls, &k), &k);
    mixkey(bpak_keystore_load_key_from_file("ks.bpak", id, bpak_id("k2"), NULL, NULL, &k), &k);
    mixkey(bpak_keystore_load_key_from_file("ks.bpak", id + 1, bpak_id("k2"), NULL, NULL, &k), &k);
    mixkey(bpak_keystore_load_key_from_file("ks.bpak", id, 99, NULL, NULL, &k), &k);
    mixi(calls);
    struct bpak_keystore *ks = calloc(1, sizeof(*ks) + 2 * sizeof(void *));
    struct bpak_key a = { .kind = 1, .id = 7 }, b = { .kind = 2, .id = rnd(t) | 1 };
    ks->no_of_keys = 2;
    ks->keys[0] = &a;
    ks->keys[1] = &b;
    mixi(bpak_keystore_get(ks, b.id, &k));
    ks->verified = true;
    mixi(bpak_keystore_get(ks, b.id, &k));
    mixi(k == &b);
    mixi(bpak_keystore_get(ks, 12345, &k));
    free(ks);
}

static void op_header(struct thread *t)
{
    struct bpak_header *h = calloc(1, sizeof(*h));
    struct bpak_meta_header *m;
    struct bpak_part_header *p;
    char text[300];
    int i;
    mixi(bpak_init_header(h));
    for (i = 0; i < 60; i++) {
        uint32_t id = 1 + rnd(t) % 40, ref = rnd(t) % 3;
        m = NULL;
        p = NULL;
        switch (rnd(t) % 7) {
        case 0: case 1: {
            int rc = bpak_add_meta(h, id, ref, rnd(t) % 120, &m);
            mixi(rc);
            if (!rc)
                memset(&h->metadata[m->offset], id, m->size);
            break;
        }
        case 2:
            if (!bpak_get_meta(h, id, ref, &m))
                bpak_del_meta(h, m);
            break;
        case 3: {
            int rc = bpak_add_part(h, id, &p);
            mixi(rc);
            if (!rc)
                p->size = rnd(t) % 4096;
            break;
        }
        case 4:
            if (!bpak_get_part(h, id, &p))
                bpak_del_part(h, p);
            break;
        case 5:
            mixi(bpak_get_meta_anyref(h, id, &m));
            if (m) {
                memset(text, 0, sizeof(text));
                mixi(bpak_meta_to_string(h, m, text, sizeof(text)) < 0);
                mixs(text);
            }
            break;
        case 6:
            mixi(bpak_add_transport_meta(h, id, rnd(t), rnd(t)));
            mixi(bpak_get_part(h, id, &p));
            if (p) {
                mixi(bpak_part_offset(h, p));
                mixi(bpak_part_size(p));
                mixi(bpak_part_size_wo_pad(p));
            }
        }
        delay();
    }
    for (i = 0; i < BPAK_MAX_PARTS; i++)
        h->parts[i].pad_bytes = h->parts[i].id ? (512 - h->parts[i].size % 512) % 512 : 0;
    mixi(bpak_valid_header(h));
    mixi(bpak_hash_tree_id_to_part_id(h, h->parts[0].id));
    mix(h, sizeof(*h));
    /* package and transport information as text */
    mixi(bpak_init_header(h));
    static const char *names[] = { "bpak-package", "bpak-version", "merkle-salt",
                                   "bpak-dependency", "bpak-transport", "other" };
    for (i = 0; i < 6; i++)
        if (!bpak_add_meta(h, bpak_id(names[i]), 0, 40, &m)) {
            int j;
            for (j = 0; j < 40; j++)
                h->metadata[m->offset + j] = i == 1 || i == 3 ? (j < 39 ? 'a' + rnd(t) % 26 : 0)
                                                              : rnd(t);
            memset(text, 0, sizeof(text));
            mixi(bpak_meta_to_string(h, m, text, sizeof(text)));
            mixs(text);
        }
    free(h);
}

static void op_text(struct thread *t)
{
    char b[200];
    uint8_t u[40];
    int i;
    uint8_t data[1000];
    for (i = 0; i < 40; i++)
        u[i] = rnd(t);
    for (i = 0; i < 1000; i++)
        data[i] = rnd(t);
    for (i = -40; i < 5; i++) {
        mixs(bpak_error_string(i));
        delay();
    }
    for (i = 0; i < 6; i++) {
        mixs(bpak_hash_kind(i));
        mixs(bpak_signature_kind(i));
    }
    mixs(bpak_version());
    memset(b, 0, sizeof(b));
    mixi(bpak_uuid_to_string(u, b, sizeof(b)));
    mixs(b);
    memset(b, 0, sizeof(b));
    mixi(bpak_bin2hex(u, 40, b, sizeof(b)));
    mixs(b);
    mixi(bpak_bin2hex(u, 40, b, 20));
    for (i = 0; i < 30; i++) {
        sprintf(b, "name-%lu", rnd(t) % 1000);
        mixi(bpak_id(b));
        mixi(bpak_part_name_to_hash_tree_id(b));
        mixi(bpak_part_id_to_hash_tree_id(rnd(t)));
        mixi(bpak_crc32(0, data, rnd(t) % 1000));
    }
}

static void op_errors(struct thread *t)
{
    struct bpak_package pkg;
    char a[300], f[300];
    struct bpak_key *k = NULL;
    mixi(bpak_pkg_open(&pkg, "nope", "r"));
    mixi(bpak_pkg_open(&pkg, "f.bin", "r") != 0 ? 1 : bpak_pkg_close(&pkg));
    int rc = bpak_pkg_open(&pkg, "bad.bpak", "r");
    mixi(rc);
    if (!rc) {
        rc = bpak_crypto_load_public_key("signer.pub", &k);
        mixi(rc);
        if (!rc) {
            mixi(bpak_pkg_verify(&pkg, k));
            bpak_free(k);
        }
        bpak_pkg_close(&pkg);
    }
    copy("a.bpak", own(a, "er.bpak"));
    rc = bpak_pkg_open(&pkg, a, "r+");
    mixi(rc);
    if (rc)
        return;
    mixi(bpak_pkg_add_file(&pkg, "nope", "q", 0));
    mixi(bpak_pkg_add_file(&pkg, ".", "q", 0));
    mixi(bpak_pkg_add_key(&pkg, "m.bin", "q", 0));
    mixi(bpak_pkg_add_file_with_merkle_tree(&pkg, "nope", "q", 0));
    mixi(bpak_pkg_delete_part(&pkg, 0x99999999, true));
    mixi(bpak_pkg_extract_file(&pkg, 0x99999999, own(f, "x.out")));
    mixi(bpak_pkg_sign(&pkg, "m.bin"));
    mixi(bpak_pkg_sign(&pkg, "nope"));
    mixi(bpak_pkg_close(&pkg));
    mixfile(a);
}

static const struct {
    const char *name;
    void (*f)(struct thread *);
} OPS[] = {
    { "build", op_build }, { "create", op_create }, { "sign", op_sign }, { "raw", op_raw },
    { "delete", op_delete }, { "read", op_read }, { "encode", op_encode },
    { "decode", op_decode }, { "delta", op_delta }, { "merkle", op_merkle },
    { "hash", op_hash }, { "stream", op_stream }, { "sdecode", op_sdecode },
    { "keys", op_keys }, { "crypto", op_crypto }, { "keystore", op_keystore },
    { "header", op_header }, { "text", op_text }, { "errors", op_errors },
};

static long now(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000L + ts.tv_nsec;
}

static void run(struct thread *t)
{
    int i, j;
    self = t;
    for (i = 0; i < t->n; i++) {
        t->dig = 14695981039346656037UL;
        t->rnd = t->op[i].seed * 2654435761UL + 88172645463325252UL;
        t->op[i].start = now();
        for (j = 0; j < sizeof(OPS) / sizeof(OPS[0]); j++)
            if (!strcmp(OPS[j].name, t->op[i].name))
                OPS[j].f(t);
        t->op[i].end = now();
        t->op[i].digest = t->dig;
    }
}

static void *thread_main(void *p)
{
    pthread_barrier_wait(&bar);
    run(p);
    return NULL;
}

int main(int argc, char **argv)
{
    char name[32];
    int no, n = 0, i, j;
    unsigned long seed;
    FILE *f = fopen(argv[2], "r");
    int par = !strcmp(argv[1], "par");
    if (!f)
        return 77;
    while (fscanf(f, "%d %31s %lu", &no, name, &seed) == 3) {
        struct thread *t = &threads[no];
        if (no >= n)
            n = no + 1;
        if (t->n == MAXOP)
            return 77;
        t->no = no;
        sprintf(t->dir, "t%d", no);
        strcpy(t->op[t->n].name, name);
        t->op[t->n++].seed = seed;
    }
    fclose(f);
    noisy = par && getenv("NOISE");
    for (i = 0; i < n; i++) {
        mkdir(threads[i].dir, 0700);
        threads[i].noise = getenv("NOISE") ? strtoul(getenv("NOISE"), NULL, 10) + i * 977 : 0;
    }
    if (getenv("HOOKS"))
        bpak_set_calloc_free(my_calloc, my_free);
    if (par) {
        pthread_t th[MAXT];
        pthread_barrier_init(&bar, NULL, n);
        for (i = 0; i < n; i++)
            if (pthread_create(&th[i], NULL, thread_main, &threads[i]))
                return 77;
        for (i = 0; i < n; i++)
            pthread_join(th[i], NULL);
    } else {
        for (i = 0; i < n; i++)
            run(&threads[i]);
    }
    f = fopen(argv[3], "w");
    for (i = 0; i < n; i++)
        for (j = 0; j < threads[i].n; j++)
            fprintf(f, "%d %d %s %lx %ld %ld\n", i, j, threads[i].op[j].name,
                    threads[i].op[j].digest, threads[i].op[j].start, threads[i].op[j].end);
    fclose(f);
    return 0;
}
