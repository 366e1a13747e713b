#ifndef WORLD_H
#define WORLD_H
#include <stdint.h>
#include <stdio.h>
enum { K_DMA = 1, K_CORE };
enum { F_OPEN, F_MMAP, F_STAT, F_FOPEN, F_FREAD, F_N };
enum { T_STRAY = 1, T_ACTIVE = 2, T_LEN = 4, T_BUSERR = 8, T_DEADBUS = 16, T_SPIN = 32, T_SIZE = 64, T_MODE = 128, T_CACHED = 256, T_CLOSE = 512, T_ASLEEP = 1024,
       T_LATE = 2048 };
enum { E_EXIT = 500, E_HANG = 501 };
enum { LOGS = 8192 };
typedef struct { uint32_t *v; uint32_t n; uint64_t k; } list;
typedef struct { uint32_t cr, sr, addr, len, pos, active, rst; int haltin, endin, wait, skew; uint32_t early, starts, done; uint64_t t_done; } chan;
typedef struct { uint32_t kind, ch, a, b; uint64_t t; } evt;
typedef struct { uint64_t len; long limit; int open, sized; char path[40]; } vfile;
typedef struct {
    uint64_t cyc, cyc_max, t0, accesses, beats, words, stalled, sleeps, lites, lost, spin, spin_max, idles_done;
    uint32_t trouble, ignored, aborted, resets, nfault, nfailed, maps, full, buserr;
    int resetting, exitcode, nfd, idle0, stall_on, stub, in_lite;
    uint32_t stall_left, lenmask, per_us;
    uint32_t dma_base, core_base, ddr_base, ddr_len, in_bytes, out_bytes;
    chan ch[2];
    list l_reset, l_halt, l_start, l_gap, l_stall, l_end, l_lite, l_cpu, l_skew;
    int fd0, err_ch; uint32_t err_at, err_bits;
    uint64_t flip_n; uint32_t flip_x;
    uint8_t fd[32];
    uint32_t fail[8]; int nth[8];
    vfile file[2];
    evt log[8192]; int nlog;
    void (*step)(void *, const uint64_t *, uint64_t *);
    void *rtl; uint64_t *in, *out;
    int i_valid, i_data, i_last, i_ready, o_ready, o_valid, o_data, o_last;
    struct { int awvalid, awaddr, wvalid, wdata, wstrb, bready, arvalid, araddr, rready, awready, wready, bvalid, bresp, arready, rvalid, rresp, rdata; } x;
    const uint16_t *sw; uint64_t sw_len, sw_pos; uint32_t sw_need;
} world;
#endif
