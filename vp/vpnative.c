/* Native side of the harness interface: replays one assignment of the symbolic bytes. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static uint8_t *buf;
static size_t nbuf, pos;
static int loaded;
static uint64_t h = 0xcbf29ce484222325ull;
static uint64_t a_total, a_max, a_limit = 64u << 20;

static void finish(void) {
    char s[64];
    int n = snprintf(s, sizeof s, "VPOUT %016llx\n", (unsigned long long)h);
    if (write(1, s, n)) {}
}
static void load(void) {
    if (loaded) return;
    loaded = 1;
    atexit(finish);
    const char *f = getenv("VP_REPLAY");
    if (!f) return;
    size_t n = strlen(f) / 2;
    buf = calloc(n + 1, 1);
    if (f[0] == '-') return;
    for (size_t i = 0; i < n; i++) {
        unsigned x;
        sscanf(f + 2 * i, "%2x", &x);
        buf[i] = x;
    }
    nbuf = n;
}
static uint8_t next(void) {
    load();
    return pos < nbuf ? buf[pos++] : (pos++, 0);
}
void vp_sym(uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = next();
}
uint32_t vp_choose(uint32_t n) {
    uint8_t b = next();
    if (b >= n) { printf("VPASSUME\n"); fflush(stdout); _exit(77); }
    return b;
}
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_assume(uint8_t c) {
    load();
    if (!c) { printf("VPASSUME\n"); fflush(stdout); _exit(77); }
}
void vp_check(uint8_t c, const char *id, size_t n) {
    load();
    for (const char *s = getenv("VP_SKIP"); s && *s;) {
        size_t k = strcspn(s, ",");
        if (k && k <= n && !memcmp(s, id, k)) return;
        s += k + (s[k] == ',');
    }
    if (!c) { printf("VPFAIL check %.*s\n", (int)n, id); fflush(stdout); _exit(70); }
}
void vp_cover(const char *id, size_t n) { load(); if (getenv("VP_VERBOSE")) fprintf(stderr, "cover %.*s\n", (int)n, id); }
void vp_out(const uint8_t *p, size_t n) {
    load();
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
}
void vp_stop(void) { load(); exit(0); }
uint64_t vp_param(void) { const char *s = getenv("VP_PARAM"); return s ? strtoull(s, 0, 10) : 0; }
void vp_alloc_limit(uint64_t n) {
    const char *s = getenv("VP_SKIP");
    if (!s || !strstr(s, "alloc:")) a_limit = n;
}
void vp_alloc_reset(void) { load(); a_total = a_max = 0; }
uint64_t vp_alloc_total(void) { return a_total; }
uint64_t vp_alloc_max(void) { return a_max; }
/* the clock stands still unless the harness moves it, as in the symbolic executor */
static uint64_t now = 1000000000000ull;
void vp_advance_time(uint64_t ns) { now += ns; }
int clock_gettime(clockid_t id, struct timespec *t) {
    (void)id;
    t->tv_sec = now / 1000000000ull;
    t->tv_nsec = now % 1000000000ull;
    return 0;
}
void vp_debug(const char *p, size_t n) { fprintf(stderr, "debug: %.*s\n", (int)n, p); }

/* allocator with accounting, as in the symbolic executor */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static void note(size_t n) {
    a_total += n;
    if (n > a_max) a_max = n;
    if (n > a_limit) {
        static const char m[] = "VPFAIL alloc allocation over the limit\n";
        if (write(1, m, sizeof m - 1)) {}
        _exit(70);
    }
}
void *malloc(size_t n) { note(n); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { note(a * b); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { note(n); return __libc_realloc(p, n); }
void *aligned_alloc(size_t a, size_t n) { note(n); return __libc_memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
    note(n);
    *r = __libc_memalign(a, n);
    return *r ? 0 : ENOMEM;
}
void free(void *p) { __libc_free(p); }
