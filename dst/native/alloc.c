/* The allocator of the code under test: every block ends at an inaccessible page, carries canaries in front and
   behind, is filled with junk, and any chosen allocation fails.  Faults end the call, not the process. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

#define PAGE 4096u
#define MAXB 4096

typedef struct { uint8_t *map, *p; size_t len, n; int live; } blk;
static blk B[MAXB];
static int nb;
static uint64_t fails;          /* bit k: allocation number k of the code under test fails */
static int seq, nfailed, own;
static int bad;                 /* 1 canary, 2 unknown or second free */
static uint32_t lcg = 1;
sigjmp_buf al_jb;
volatile int al_in;

static void check(blk *b) {
    size_t k;
    for (k = 0; k < (size_t)(b->p - b->map); k++)
        if (b->map[k] != 0xA5) { bad |= 1; return; }
    for (k = 0; b->p + b->n + k < b->map + b->len - PAGE; k++)
        if (b->p[b->n + k] != 0x5A) { bad |= 1; return; }
}

static void *get(size_t n, int align) {
    if (nb >= MAXB || n > ((size_t)1 << 31)) return NULL;
    size_t body = (n + PAGE - 1) / PAGE * PAGE;
    if (!body) body = PAGE;
    uint8_t *m = mmap(NULL, body + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return NULL;
    mprotect(m + body, PAGE, PROT_NONE);
    uint8_t *p = m + ((body - n) & ~(size_t)(align - 1));
    size_t k;
    memset(m, 0xA5, p - m);
    for (k = 0; k < n && k < 65536; k++) { lcg = lcg * 1664525u + 1013904223u; p[k] = lcg >> 24; }
    if (n > k) memset(p + k, 0xC3, n - k);
    memset(p + n, 0x5A, m + body - (p + n));
    blk *b = &B[nb++];
    b->map = m; b->p = p; b->len = body + PAGE; b->n = n; b->live = 1;
    return p;
}

static blk *find(void *p) {
    int k;
    for (k = nb - 1; k >= 0; k--) if (B[k].p == p && B[k].live) return &B[k];
    return NULL;
}

static void drop(blk *b) {
    check(b);
    b->live = 0;
    mprotect(b->map, b->len, PROT_NONE);
}

static int fail(void) {
    int k = seq++;
    if (k < 64 && fails >> k & 1) { nfailed++; return 1; }
    return 0;
}

void *__wrap_malloc(size_t n) { return fail() ? NULL : get(n, 16); }
void *__wrap_calloc(size_t a, size_t b) {
    if (fail() || (b && a > ((size_t)1 << 40) / b)) return NULL;
    void *p = get(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p) {
    if (!p) return;
    blk *b = find(p);
    if (!b) { bad |= 2; return; }
    drop(b);
}
void *__wrap_realloc(void *p, size_t n) {
    if (fail()) return NULL;
    if (!p) return get(n, 16);
    blk *b = find(p);
    if (!b) { bad |= 2; return NULL; }
    size_t old = b->n;
    void *q = get(n, 16);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    drop(find(p));
    return q;
}

/* ---- for the harness ---- */
void al_reset(uint64_t failing, uint32_t junk) {
    int k;
    for (k = 0; k < nb; k++) munmap(B[k].map, B[k].len);
    nb = 0; fails = failing; seq = nfailed = bad = own = 0; lcg = junk;
}
void *al_buf(size_t n) { own++; return get(n, 2); }
void al_fails(uint64_t failing) { fails = failing; seq = 0; }
int al_failed(void) { return nfailed; }
int al_count(void) { return seq; }
void al_free(void *p) { __wrap_free(p); }
int al_leaks(void) { int k, n = 0; for (k = 0; k < nb; k++) n += B[k].live; return n - own; }
int al_bad(void) { int k; for (k = 0; k < nb; k++) if (B[k].live) check(&B[k]); return bad; }
long al_size(void *p) { blk *b = find(p); return b ? (long)b->n : -1; }

static void handler(int sig) {
    if (al_in) siglongjmp(al_jb, sig);
    signal(sig, SIG_DFL);
    raise(sig);
}
static char altstack[65536];
void al_init(void) {
    stack_t ss; struct sigaction sa; int s[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM }, k;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = handler;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (k = 0; k < 6; k++) sigaction(s[k], &sa, NULL);
}
void al_timer(int sec) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, NULL);
}
