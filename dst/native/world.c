/* What the software runs on: physical memory, a Xilinx AXI DMA (simple mode), the AXI-lite port and the streams of the
   real core (compiled RTL) or of a stand-in, system calls that fail on demand, and a clock that only the simulator moves.
   Registers are reached through the compiler's instrumentation of memory accesses; everything else is plain memory. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "world.h"

extern sigjmp_buf al_jb;
extern volatile int al_in;
void al_timer(int);
int __real_munmap(void *, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_open(const char *, int, ...);

world W;
static uint8_t *arena;              /* shadows of register windows: WINS slots of 128 KB */
static uint8_t *ddr;
#define WINS 16
#define SLOT 0x20000u
#define ARENA (WINS * SLOT)
static struct { uint32_t base, len; int kind, used; } win[WINS];
static int nwin;
static struct { int on, win, size; uint32_t off; } pend;

/* ---- how a run of the software ends early */
static void stop(int code) {
    if (al_in) siglongjmp(al_jb, code);
    abort();
}
static void trouble(int bit) { W.trouble |= bit; }

/* ---- cyclic timing lists */
static uint32_t next(list *l) {
    uint32_t v = l->n ? l->v[l->k % l->n] : 0;
    l->k++;
    return v;
}

/* ---- DMA engine */
static void chan_defaults(chan *c) {
    c->cr = 0x00010002; c->sr = 1; c->addr = c->len = c->active = 0; c->haltin = -1; c->endin = -1;
}
static void finish(chan *c, int k) {
    c->endin = -1; c->active = 0; c->sr |= 1u << 12 | 2;
    c->done++; c->t_done = W.cyc; W.idles_done = 0;
    if (W.nlog < LOGS) { W.log[W.nlog].kind = 2; W.log[W.nlog].ch = k; W.log[W.nlog].a = c->addr; W.log[W.nlog].b = c->pos; W.log[W.nlog++].t = W.cyc; }
}
/* the transfer is over: its two flags come up after a while, one of them perhaps before the other */
static void ending(chan *c) {
    uint32_t k = next(&W.l_skew);
    if (c->sr & 1u << 12) k |= 1;       /* with an old completion flag the idle flag is the end */
    c->skew = (int)(k >> 1);
    c->early = c->skew ? (k & 1 ? 1u << 12 : 2) : 0;
    c->endin = (int)next(&W.l_end) + c->skew;
}
static void fault(chan *c, uint32_t bits) {
    c->active = 0; c->sr |= bits | 1u << 14 | 1; c->cr &= ~1u; c->endin = -1; W.nfault++; W.idles_done = 0;
    if (c == &W.ch[1]) c->len = c->pos;
}
static void chan_event(int kind, int k, uint32_t a, uint32_t b) {
    if (W.nlog < LOGS) { evt *e = &W.log[W.nlog++]; e->kind = kind; e->ch = k; e->a = a; e->b = b; e->t = W.cyc; }
}
static uint32_t dma_read(uint32_t off) {
    chan *c = &W.ch[off >= 0x30];
    uint32_t r = off >= 0x30 ? off - 0x30 : off;
    if (off > 0x5C) return 0;
    if (r == 0) return c->cr | (W.resetting > 0 && c->rst ? 4 : 0);
    if (W.resetting > 0) return r == 4 ? 1 : 0;
    if (r == 4) return c->sr;
    if (r == 0x18) return c->addr;
    if (r == 0x28) return c->len;
    return 0;
}
static void dma_write(uint32_t off, uint32_t v) {
    int k = off >= 0x30, i;
    chan *c = &W.ch[k];
    uint32_t r = k ? off - 0x30 : off;
    chan_event(1, k, off, v);
    if (W.resetting > 0) {          /* lost, but the other channel's reset bit is set all the same */
        W.lost++;
        if (r == 0 && v & 4) c->rst = 1;
        return;
    }
    if (off > 0x5C) return;
    if (r == 0) {
        if (v & 4) {                /* one channel resets the whole engine */
            for (i = 0; i < 2; i++) { if (W.ch[i].active) W.aborted++; chan_defaults(&W.ch[i]); W.ch[i].rst = 0; }
            c->rst = 1;
            W.resets++;
            W.resetting = (int)next(&W.l_reset) + 1;
            return;
        }
        uint32_t was = c->cr & 1;
        c->cr = (v & ~4u) | 2;
        if (v & 1) { if (!was) { c->haltin = (int)next(&W.l_halt); c->sr &= ~(uint32_t)(W.idle0 ? 0 : 2); if (W.idle0) c->sr |= 2; } }
        else if (was) { if (c->active) { W.aborted++; c->active = 0; } c->haltin = (int)next(&W.l_halt); }
    } else if (r == 4)
        c->sr &= ~(v & 0x7000u);
    else if (r == 0x18) {
        c->addr = v;
        if (c->active) W.trouble |= T_ACTIVE;
    } else if (r == 0x28) {
        if (!(c->cr & 1)) { W.ignored++; return; }
        if (c->active) { trouble(T_ACTIVE); return; }
        c->len = v & W.lenmask;
        if (!c->len) return;
        c->active = 1; c->pos = 0; c->sr &= ~2u; c->starts++; c->wait = (int)next(&W.l_start);
        if (v & ~W.lenmask) trouble(T_LEN);
        chan_event(3, k, c->addr, c->len);
        if (!(c->addr >= W.ddr_base && (uint64_t)c->addr + c->len <= (uint64_t)W.ddr_base + W.ddr_len)) { trouble(T_STRAY); c->active = 0; }
    }
}
static uint64_t get_beat(chan *c) {
    uint64_t v = 0;
    memcpy(&v, ddr + (c->addr - W.ddr_base) + c->pos, W.in_bytes);
    return v;
}

/* ---- one clock cycle of everything */
static void tick(void) {
    chan *m = &W.ch[0], *s = &W.ch[1];
    int k, off, rdy, valid = 0, last = 0, ready = 0;
    uint64_t data = 0;
    if (W.resetting > 0 && --W.resetting == 0)
        for (k = 0; k < 2; k++) { chan_defaults(&W.ch[k]); W.ch[k].rst = 0; }
    for (k = 0; k < 2; k++) {
        chan *c = &W.ch[k];
        if (c->haltin >= 0 && c->haltin-- == 0) { c->sr = (c->sr & ~1u) | !(c->cr & 1); if (!(c->cr & 1)) c->sr &= ~2u; }
        if (c->endin >= 0 && c->early && c->endin == c->skew) { c->sr |= c->early; c->early = 0; }
        if (c->endin >= 0 && c->endin-- == 0) finish(c, k);
    }
    /* MM2S offers a beat and keeps it until it is taken */
    off = m->active && m->endin < 0 && m->pos < m->len;
    if (off && m->wait > 0) { m->wait--; off = 0; }
    if (off && W.err_ch == 0 && W.err_at == m->pos / W.in_bytes && W.err_bits) { fault(m, W.err_bits); W.err_bits = 0; off = 0; }
    rdy = s->active && s->endin < 0;
    if (rdy && s->wait > 0) { s->wait--; rdy = 0; }
    if (rdy && W.err_ch == 1 && W.err_at <= s->pos / W.out_bytes && W.err_bits) { fault(s, W.err_bits); W.err_bits = 0; rdy = 0; }
    if (rdy) {
        if (W.stall_left == 0) { W.stall_on = !W.stall_on; W.stall_left = next(&W.l_stall); if (!W.l_stall.n) { W.stall_on = 0; W.stall_left = 1; } }
        if (W.stall_left) { W.stall_left--; if (W.stall_on) rdy = 0; }
    }
    if (W.step && (!W.stub || W.in_lite)) {
        W.in[W.i_valid] = off && !W.stub;
        if (off) { W.in[W.i_data] = get_beat(m); if (W.i_last >= 0) W.in[W.i_last] = m->pos + W.in_bytes >= m->len; }
        W.in[W.i_ready] = rdy && !W.stub;
        W.step(W.rtl, W.in, W.out);
        ready = W.out[W.o_ready] & 1;
        valid = W.out[W.o_valid] & 1;
        data = W.out[W.o_data];
        last = W.out[W.o_last] & 1;
    }
    if (!W.step || W.stub) {
        ready = 1;
        last = 0;
        valid = W.sw_pos < W.sw_len && (m->done + (m->pos >= W.sw_need)) > 0;
        if (valid) { data = W.sw[W.sw_pos]; last = W.sw_pos + 1 == W.sw_len; }
    }
    if (off && ready) {
        W.beats++;
        m->pos += W.in_bytes;
        m->wait = (int)next(&W.l_gap);
        if (m->pos >= m->len) ending(m);
    }
    if (!rdy && s->active && valid) W.stalled++;
    if (valid && rdy) {
        W.words++;
        W.sw_pos++;
        if (s->pos + W.out_bytes > s->len) fault(s, 1u << 4);
        else {
            memcpy(ddr + (s->addr - W.ddr_base) + s->pos, &data, W.out_bytes);
            if (W.flip_n && W.words == W.flip_n) { *(ddr + (s->addr - W.ddr_base) + s->pos) ^= W.flip_x; W.flip_x = 0; }
            s->pos += W.out_bytes;
            if (last) { s->len = s->pos; ending(s); }
            else if (s->pos == s->len) { W.full++; ending(s); }
        }
    }
    W.cyc++;
}
static void ticks(uint64_t n) {
    while (n--) {
        tick();
        /* nothing can happen until the software acts */
        if (!W.step && !W.ch[0].active && !W.ch[1].active && W.resetting <= 0 && W.ch[0].haltin < 0 && W.ch[1].haltin < 0 && n) { W.cyc += n; return; }
        /* the core has delivered everything and the clock only runs for the software's sleep */
    }
}

/* ---- AXI-lite */
static uint32_t lite(int wr, uint32_t addr, uint32_t data, int strb) {
    uint32_t da = next(&W.l_lite), dw = wr ? next(&W.l_lite) : 0, dr = next(&W.l_lite), n;
    int a = 0, w = 0, wait = -1;
    uint64_t *I = W.in, *O = W.out;
    if (!W.step) { W.trouble |= T_STRAY; return 0; }
    W.lites++;
    W.in_lite = 1;
    for (n = 0; n < 20000; n++) {
        int resp = 0, rdy;
        rdy = dr == 0 || (wait >= 0 && (uint32_t)wait >= dr);
        if (wr) {
            I[W.x.awvalid] = !a && n >= da; I[W.x.awaddr] = addr;
            I[W.x.wvalid] = !w && n >= dw; I[W.x.wdata] = data; I[W.x.wstrb] = strb; I[W.x.bready] = rdy;
        } else { I[W.x.arvalid] = !a && n >= da; I[W.x.araddr] = addr; I[W.x.rready] = rdy; }
        tick();
        if (wr) {
            if (I[W.x.awvalid] && O[W.x.awready]) a = 1;
            if (I[W.x.wvalid] && O[W.x.wready]) w = 1;
            resp = O[W.x.bvalid] & 1;
        } else { if (I[W.x.arvalid] && O[W.x.arready]) a = 1; resp = O[W.x.rvalid] & 1; }
        if (resp) {
            uint32_t code = wr ? O[W.x.bresp] : O[W.x.rresp];
            if (wait < 0) wait = 0; else wait++;
            if (rdy) {
                uint32_t v = wr ? 0 : (uint32_t)O[W.x.rdata];
                I[W.x.awvalid] = I[W.x.wvalid] = I[W.x.bready] = I[W.x.arvalid] = I[W.x.rready] = 0;
                W.in_lite = 0;
                if (code) { trouble(T_BUSERR); W.buserr = addr; }
                return v;
            }
        }
    }
    trouble(T_DEADBUS);
    stop(E_HANG);
    return 0;
}

/* ---- accesses of the program */
static uint32_t dev_read(int k, uint32_t off) {
    W.accesses++;
    ticks(next(&W.l_cpu) + 1);
    if (++W.spin > W.spin_max) { trouble(T_SPIN); stop(E_HANG); }
    if (win[k].kind == K_DMA) return dma_read(off);
    return lite(0, win[k].base + off, 0, 0);
}
static void dev_write(int k, uint32_t off, uint32_t v, int strb) {
    W.accesses++;
    ticks(next(&W.l_cpu) + 1);
    W.spin = 0;
    if (win[k].kind == K_DMA) {
        if (strb != 15) trouble(T_SIZE);
        dma_write(off, v);
        if (W.resetting < 0) W.resetting = 0;
    } else lite(1, win[k].base + off, v, strb);
}
static void flush(void) {
    int k = pend.win, n;
    uint8_t *p = arena + (size_t)k * SLOT + pend.off;
    pend.on = 0;
    for (n = 0; n < pend.size; n += 4) {
        uint32_t o = pend.off + n, lane = o & 3, v = 0, size = pend.size - n > 4 ? 4 : pend.size - n;
        memcpy(&v, p + n, size);
        dev_write(k, o & ~3u, v << 8 * lane, (int)(((1u << size) - 1) << lane) & 15);
    }
}
static void hook(uint8_t *p, int size, int wr) {
    size_t d = (size_t)(p - arena);
    if (pend.on) flush();
    if (d >= ARENA) return;
    int k = (int)(d / SLOT), n;
    uint32_t off = d % SLOT;
    if (!win[k].used) { W.trouble |= T_STRAY; return; }
    if (wr) { pend.on = 1; pend.win = k; pend.off = off; pend.size = size; return; }
    for (n = 0; n < size; n += 4) {
        uint32_t o = off + n, lane = o & 3, v = dev_read(k, o & ~3u), sz = size - n > 4 ? 4 : size - n;
        v >>= 8 * lane;
        memcpy(p + n, &v, sz);
    }
}
void w_sync(void) { if (pend.on) flush(); }
#define H(n) void __tsan_read##n(void *p) { hook(p, n, 0); } void __tsan_write##n(void *p) { hook(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { hook(p, n, 0); } void __tsan_volatile_write##n(void *p) { hook(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { hook(p, n, 0); } void __tsan_unaligned_write##n(void *p) { hook(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { hook(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { hook(p, n, 1); } \
    void __tsan_read_write##n(void *p) { hook(p, n, 0); hook(p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { hook(p, n, 0); hook(p, n, 1); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_read(void **p) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_read_range(void *p, unsigned long n) { if (pend.on) flush(); }
void __tsan_write_range(void *p, unsigned long n) { if (pend.on) flush(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (pend.on) flush(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (pend.on) flush(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (pend.on) flush(); return memset(d, c, n); }

/* ---- system calls */
static vfile *vopen(const char *n);
static int file_open(const char *path, int flags), file_close(int fd), file_fd(int fd);
static int fails(int what) { int k = W.nth[what]++; return k < 32 && W.fail[what] >> k & 1 ? (W.nfailed++, 1) : 0; }
int __wrap_open(const char *path, int flags, ...) {
    w_sync();
    if (vopen(path)) return file_open(path, flags);
    if (strcmp(path, "/dev/mem")) { trouble(T_STRAY); return -1; }
    if (fails(F_OPEN)) return -1;
    if ((flags & O_ACCMODE) != O_RDWR) trouble(T_MODE);
    if (!(flags & O_SYNC)) trouble(T_CACHED);
    if (W.nfd >= 32) return -1;
    W.fd[W.nfd] = 1;
    return W.fd0 + W.nfd++;
}
int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags); }
int __wrap_openat(int dir, const char *path, int flags, ...) { return __wrap_open(path, flags); }
int __wrap_close(int fd) {
    w_sync();
    if (file_close(fd)) return 0;
    if (fd < W.fd0 || fd >= W.fd0 + W.nfd || !W.fd[fd - W.fd0]) { trouble(T_CLOSE); return -1; }
    W.fd[fd - W.fd0] = 0;
    return 0;
}
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
    if (fd == -1 || file_fd(fd)) return __real_mmap(a, len, prot, flags, fd, off);
    w_sync();
    if (fd < W.fd0 || fd >= W.fd0 + W.nfd || !W.fd[fd - W.fd0]) { trouble(T_CLOSE); return MAP_FAILED; }
    uint64_t base = (uint64_t)off;
    if (fails(F_MMAP)) return MAP_FAILED;
    if ((prot & 3) != 3 || !(flags & MAP_SHARED)) trouble(T_MODE);
    W.maps++;
    if (base >= W.ddr_base && base + len <= (uint64_t)W.ddr_base + W.ddr_len) return ddr + (base - W.ddr_base);
    int kind = base == W.dma_base ? K_DMA : base == W.core_base ? K_CORE : 0;
    if (!kind || nwin >= WINS || len > 0x10000) { trouble(T_STRAY); return MAP_FAILED; }
    win[nwin].base = base; win[nwin].kind = kind; win[nwin].used = 1; win[nwin].len = len;
    return arena + (size_t)nwin++ * SLOT;
}
void *__wrap_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_munmap(void *a, size_t len) {
    uint8_t *p = a;
    size_t k = (size_t)(p - arena) / SLOT;
    w_sync();
    if (p >= ddr && p < ddr + W.ddr_len) return 0;
    if (p < arena || k >= WINS) return __real_munmap(a, len);
    if (!win[k].used) trouble(T_STRAY);
    win[k].used = 0;        /* whatever touches it from now on strays */
    return 0;
}
static void slept(uint64_t us) {
    w_sync();
    W.sleeps++;
    W.spin = 0;
    uint64_t n = us * W.per_us / 256 + 1;
    ticks(n);
    if (!W.ch[0].active && !W.ch[1].active && W.resetting <= 0 && ++W.idles_done > 200) { trouble(T_ASLEEP); stop(E_HANG); }
    if (W.cyc > W.cyc_max) { trouble(T_LATE); stop(E_HANG); }
}
int __wrap_usleep(unsigned us) { slept(us); return 0; }
unsigned __wrap_sleep(unsigned s) { slept((uint64_t)s * 1000000); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { slept((uint64_t)a->tv_sec * 1000000 + a->tv_nsec / 1000); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b) {
    if (!flags) return __wrap_nanosleep(a, b);
    int64_t ns = a->tv_sec * 1000000000ll + a->tv_nsec - (int64_t)(W.cyc * 10 + W.t0);
    slept(ns > 0 ? ns / 1000 : 0);
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    uint64_t ns = W.cyc * 10 + W.t0;
    w_sync();
    t->tv_sec = ns / 1000000000u; t->tv_nsec = ns % 1000000000u;
    return 0;
}
void __wrap_exit(int code) { w_sync(); W.exitcode = code; stop(E_EXIT); for (;;) ; }
void __wrap__exit(int code) { __wrap_exit(code); }
void __wrap__Exit(int code) { __wrap_exit(code); }
void __wrap_quick_exit(int code) { __wrap_exit(code); }

/* ---- files: two real files (in memory) whose calls can fail */
FILE *__real_fopen(const char *, const char *);
size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_fclose(FILE *), __real_ferror(FILE *), __real_open(const char *, int, ...), __real_close(int);
static struct { FILE *h; int fd, on; vfile *f; } hs[16];
static vfile *vopen(const char *n) { int k; for (k = 0; k < 2; k++) if (n && W.file[k].path[0] && !strcmp(n, W.file[k].path)) return &W.file[k]; return NULL; }
static int slot(FILE *h, int fd) { int k; for (k = 0; k < 16; k++) if (hs[k].on && hs[k].h == h && (h || hs[k].fd == fd)) return k; return -1; }
static int enter(vfile *f, FILE *h, int fd) {
    int k;
    for (k = 0; k < 16; k++) if (!hs[k].on) { hs[k].on = 1; hs[k].h = h; hs[k].fd = fd; hs[k].f = f; f->open++; return 1; }
    return 0;
}
static void leave(int k) { hs[k].on = 0; hs[k].f->open--; if (hs[k].h) __real_fclose(hs[k].h); else __real_close(hs[k].fd); }
static int file_open(const char *path, int flags) {
    vfile *f = vopen(path);
    int fd = fails(F_FOPEN) ? -1 : __real_open(path, flags, 0);
    if (fd >= 0 && !enter(f, NULL, fd)) { __real_close(fd); return -1; }
    return fd;
}
static int file_close(int fd) { int k = slot(NULL, fd); if (k < 0) return 0; leave(k); return 1; }
static int file_fd(int fd) { return slot(NULL, fd) >= 0; }
int __wrap_stat(const char *path, struct stat *st) {
    vfile *f = vopen(path);
    memset(st, 0, sizeof *st);
    if (!f || fails(F_STAT)) return -1;
    f->sized = 1;
    st->st_size = f->len; st->st_mode = S_IFREG | 0644;
    return 0;
}
FILE *__wrap_fopen(const char *path, const char *mode) {
    vfile *f = vopen(path);
    if (!f || fails(F_FOPEN)) return NULL;
    FILE *h = __real_fopen(path, mode);
    if (h && !enter(f, h, -1)) { __real_fclose(h); return NULL; }
    return h;
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
size_t __wrap_fread(void *p, size_t size, size_t n, FILE *h) {
    int k = slot(h, -1);
    if (k < 0) { trouble(T_CLOSE); return 0; }
    vfile *f = hs[k].f;
    uint64_t want = (uint64_t)size * n;
    /* what cannot be read once cannot be read later either */
    if (fails(F_FREAD) && f->limit < 0) f->limit = ftell(h) + want / 2;
    if (f->limit >= 0) {
        long have = f->limit - ftell(h);
        if (have < 0) have = 0;
        if (want > (uint64_t)have) want = have;
    }
    uint64_t got = __real_fread(p, 1, want, h);
    return size ? got / size : 0;
}
int __wrap_ferror(FILE *h) {
    int k = slot(h, -1);
    if (k >= 0 && hs[k].f->limit >= 0 && ftell(h) >= hs[k].f->limit) return 1;
    return __real_ferror(h);
}
int __wrap_fclose(FILE *h) {
    int k = slot(h, -1);
    if (k < 0) { trouble(T_CLOSE); return -1; }
    leave(k);
    return 0;
}
static void files_reset(void) { int k; for (k = 0; k < 16; k++) if (hs[k].on) leave(k); }

/* ---- the program's static data, as it is when the process starts */
extern char edge_d0[], edge_d1[], edge_b0[], edge_b1[];
static char *pristine[2];
static void statics(int restore) {
    char *lo[2] = { edge_d0, edge_b0 }, *hi[2] = { edge_d1, edge_b1 };
    for (int k = 0; k < 2; k++) {
        if (hi[k] <= lo[k]) abort();
        if (restore) memcpy(lo[k], pristine[k], hi[k] - lo[k]);
        else { pristine[k] = __real_mmap(NULL, hi[k] - lo[k], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(pristine[k], lo[k], hi[k] - lo[k]); }
    }
}

/* ---- for the harness */
world *w_get(void) { return &W; }
uint8_t *w_ddr(void) { return ddr; }
void w_init(uint32_t len) {
    arena = __real_mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ddr = __real_mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    W.ddr_len = len;
    statics(0);
}
void w_reset(void) {
    uint32_t len = W.ddr_len;
    files_reset();
    statics(1);
    memset(&W, 0, sizeof W);
    memset(win, 0, sizeof win);
    nwin = 0; pend.on = 0;
    W.ddr_len = len; W.lenmask = 0x3FFFFFF; W.spin_max = 100000; W.cyc_max = ~0ull; W.per_us = 256; W.err_ch = -1;
    W.in_bytes = 4; W.out_bytes = 2; W.i_last = -1;
    chan_defaults(&W.ch[0]); chan_defaults(&W.ch[1]);
}
void w_ticks(uint64_t n) { w_sync(); ticks(n); }
uint32_t w_lite(int wr, uint32_t addr, uint32_t data) { return lite(wr, addr, data, 15); }

/* ---- stdout of the program */
static int saved = -1, memfd = -1;
int w_capture(void) {
    fflush(stdout);
    if (memfd < 0) memfd = memfd_create("out", 0);
    if (ftruncate(memfd, 0) || lseek(memfd, 0, SEEK_SET)) return -1;
    saved = dup(1);
    return dup2(memfd, 1);
}
long w_release(char *buf, long n) {
    long k, t = 0;
    fflush(stdout);
    dup2(saved, 1);
    syscall(3 /* close */, saved);
    while (t < n && (k = pread(memfd, buf + t, n - t, t)) > 0) t += k;
    return t;
}
