/* Preloaded ledger of malloc & co for code that runs between mt_enable(1) and
 * mt_enable(0) on the same thread; can refuse the n-th request.  With MT_FAIL
 * in the environment the whole process is covered and a summary is written to
 * the file named by MT_OUT at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define N (1 << 18)
struct ent { void *p; size_t n; void *caller; };
static struct ent tab[N];
#define NC 4096
static void *callers[NC];
static long ccount[NC];
static int ncallers;
static long n_alloc, n_live, n_bytes, n_failed, failat, n_over;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int on __attribute__((tls_model("initial-exec")));
static const char *outfile;

static unsigned hash(void *p)
{
    uint64_t x = (uint64_t) p >> 4;
    x *= 0x9e3779b97f4a7c15ull;
    return (unsigned) (x >> 40) & (N - 1);
}

static void put(void *p, size_t n, void *caller)
{
    unsigned h;
    int i;
    pthread_mutex_lock(&mu);
    for (i = 0, h = hash(p); i < N; i++, h = (h + 1) & (N - 1))
        if (!tab[h].p || tab[h].p == (void *) 1)
            break;
    if (i == N) {
        n_over++;
    } else {
        tab[h].p = p;
        tab[h].n = n;
        tab[h].caller = caller;
        n_live++;
        n_bytes += n;
    }
    for (i = 0; i < ncallers; i++)
        if (callers[i] == caller)
            break;
    if (i == ncallers && ncallers < NC)
        callers[ncallers++] = caller;
    if (i < NC)
        ccount[i]++;
    pthread_mutex_unlock(&mu);
}

static void drop(void *p)
{
    unsigned h;
    int i;
    if (!n_live)
        return;
    pthread_mutex_lock(&mu);
    for (i = 0, h = hash(p); i < N && tab[h].p; i++, h = (h + 1) & (N - 1))
        if (tab[h].p == p) {
            tab[h].p = (void *) 1;
            n_live--;
            n_bytes -= tab[h].n;
            break;
        }
    pthread_mutex_unlock(&mu);
}

static char exempt[64];

static int is_exempt(void *caller)
{
    Dl_info d;
    int was = on, r;
    on = 0;
    r = dladdr(caller, &d) && d.dli_fname && strstr(d.dli_fname, exempt);
    on = was;
    return r;
}

/* requests made by code of that library are not refused and not counted */
void mt_exempt(const char *lib)
{
    snprintf(exempt, sizeof(exempt), "%s", lib);
}

static int refuse_(void *caller)
{
    if (exempt[0] && is_exempt(caller))
        return 0;
    long k = __sync_add_and_fetch(&n_alloc, 1);
    if (failat && (k == failat || (failat < 0 && k >= -failat))) {
        n_failed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc(size_t n)
{
    void *p;
    if (!on)
        return __libc_malloc(n);
    if (refuse_(__builtin_return_address(0)))
        return NULL;
    p = __libc_malloc(n);
    if (p)
        put(p, n, __builtin_return_address(0));
    return p;
}

void *calloc(size_t a, size_t b)
{
    void *p;
    if (!on)
        return __libc_calloc(a, b);
    if (refuse_(__builtin_return_address(0)))
        return NULL;
    p = __libc_calloc(a, b);
    if (p)
        put(p, a * b, __builtin_return_address(0));
    return p;
}

void *realloc(void *o, size_t n)
{
    void *p;
    if (!on) {
        if (o)
            drop(o);
        return __libc_realloc(o, n);
    }
    if (n && refuse_(__builtin_return_address(0)))
        return NULL;
    if (o)
        drop(o);
    p = __libc_realloc(o, n);
    if (p)
        put(p, n, __builtin_return_address(0));
    return p;
}

static void *aligned(size_t al, size_t n, void *caller)
{
    void *p;
    if (on && refuse_(caller))
        return NULL;
    p = __libc_memalign(al, n);
    if (on && p)
        put(p, n, caller);
    return p;
}

void *memalign(size_t al, size_t n)
{
    return aligned(al, n, __builtin_return_address(0));
}

void *aligned_alloc(size_t al, size_t n)
{
    return aligned(al, n, __builtin_return_address(0));
}

int posix_memalign(void **out, size_t al, size_t n)
{
    void *p = aligned(al, n, __builtin_return_address(0));
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}

static char *mt_dup(const char *s, size_t n, void *caller)
{
    char *p;
    if (on && refuse_(caller))
        return NULL;
    p = __libc_malloc(n + 1);
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
        if (on)
            put(p, n + 1, caller);
    }
    return p;
}

char *strdup(const char *s)
{
    return mt_dup(s, strlen(s), __builtin_return_address(0));
}

char *strndup(const char *s, size_t n)
{
    return mt_dup(s, strnlen(s, n), __builtin_return_address(0));
}

void free(void *p)
{
    if (p)
        drop(p);
    __libc_free(p);
}

void mt_enable(int v)
{
    on = v;
}

int mt_enabled(void)
{
    return on;
}

void mt_reset(long fail)
{
    pthread_mutex_lock(&mu);
    memset(tab, 0, sizeof(tab));
    n_alloc = n_live = n_bytes = n_failed = n_over = 0;
    ncallers = 0;
    memset(ccount, 0, sizeof(ccount));
    failat = fail;
    pthread_mutex_unlock(&mu);
}

/* new fault, ledger kept */
void mt_arm(long fail)
{
    n_alloc = n_failed = 0;
    failat = fail;
}

long mt_stat(int what)
{
    switch (what) {
    case 0: return n_alloc;
    case 1: return n_live;
    case 2: return n_bytes;
    case 3: return n_failed;
    case 4: return n_over;
    case 5: return ncallers;
    }
    return -1;
}

static void name(void *a, char *buf, size_t n)
{
    Dl_info d;
    int was = on;
    on = 0;
    if (dladdr(a, &d)) {
        const char *b = d.dli_fname ? strrchr(d.dli_fname, '/') : NULL;
        snprintf(buf, n, "%s:%s", b ? b + 1 : "?", d.dli_sname ? d.dli_sname : "?");
    } else {
        snprintf(buf, n, "?:?");
    }
    on = was;
}

int mt_caller(int i, char *buf, size_t n)
{
    if (i < 0 || i >= ncallers)
        return 0;
    name(callers[i], buf, n);
    return 1;
}

/* i-th live block */
int mt_live(int i, char *buf, size_t n)
{
    int h;
    for (h = 0; h < N; h++)
        if ((uintptr_t) tab[h].p > 1 && i-- == 0) {
            char nm[200];
            name(tab[h].caller, nm, sizeof(nm));
            snprintf(buf, n, "%zu bytes from %s", tab[h].n, nm);
            return 1;
        }
    return 0;
}

__attribute__((constructor)) static void start(void)
{
    const char *s = getenv("MT_FAIL");
    outfile = getenv("MT_OUT");
    if (getenv("MT_EXEMPT"))
        mt_exempt(getenv("MT_EXEMPT"));
    if (s) {
        failat = atol(s);
        on = 1;
    }
}

__attribute__((destructor)) static void stop(void)
{
    char b[100];
    int fd, n;
    on = 0;
    if (!outfile)
        return;
    fd = open(outfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        n = snprintf(b, sizeof(b), "%ld %ld\n", n_alloc, n_failed);
        if (write(fd, b, n) != n) {}
        close(fd);
    }
}
