/* calls into the real software (drivers and test program) that survive its ends */
#include <setjmp.h>
#include <string.h>
#include <string>
#include <vector>
#include <new>
#include "tools.h"
#include "mmap_handler.h"
#include "xilinx_dma.h"
#include "core_axi_lite.h"
#include "config.h"

extern "C" {
extern sigjmp_buf al_jb;
extern volatile int al_in;
void al_timer(int);
void w_sync(void);
#ifdef SW_MAIN
int sw_main(int, char **);
#endif
static XilinxDMA *dma;
static CoreAXILite *core[2];
static char text[1 << 16];
static void put(const std::vector<std::string> &v) {
    size_t n = 0;
    for (size_t i = 0; i < v.size(); i++) {
        if (n + v[i].size() + 2 > sizeof text) break;
        memcpy(text + n, v[i].data(), v[i].size());
        n += v[i].size();
        text[n++] = '\n';
    }
    text[n] = 0;
}
static uint32_t ret;
static int argc_;
static char *argv_[8];
static void go(int op, uint32_t a, uint32_t b) {
    ret = 0;
    switch (op) {
    case 0: dma = new XilinxDMA(a); break;
    case 1: delete dma; dma = 0; break;
    case 2: dma->reset_dma(); break;
    case 3: dma->halt_dma(); break;
    case 4: dma->set_dma_src_dist(a, b); break;
    case 5: dma->start_dma(); break;
    case 6: dma->set_dma_transfer_len(a, b); break;
    case 7: if (a) dma->dma_s2mm_sync(); else dma->dma_mm2s_sync(); break;
    case 8: put(a ? dma->dma_s2mm_status() : dma->dma_mm2s_status()); break;
    case 20: case 21: core[op & 1] = new CoreAXILite(a, (uint8_t)b); break;
    case 22: case 23: delete core[op & 1]; core[op & 1] = 0; break;
    case 24: case 25: ret = core[op & 1]->get_height(); break;
    case 26: case 27: ret = core[op & 1]->get_width(); break;
    case 28: case 29: ret = core[op & 1]->get_allowed_cycles(); break;
    case 30: case 31: put(core[op & 1]->get_ssss()); break;
    case 32: case 33: put(core[op & 1]->get_debug()); break;
    case 34: case 35: core[op & 1]->set_height(a); break;
    case 36: case 37: core[op & 1]->set_width(a); break;
    case 38: case 39: core[op & 1]->set_allowed_cycles(a); break;
#ifdef SW_MAIN
    case 50: ret = sw_main(argc_, argv_); break;
#endif
    }
}
/* 0, 1000 + signal, or 1000 + one of the ends in world.h */
int sw_call(int op, uint32_t a, uint32_t b, int cpu_s) {
    int s = sigsetjmp(al_jb, 1);
    if (s) { al_in = 0; al_timer(0); return 1000 + s; }
    al_in = 1;
    al_timer(cpu_s);
    try { go(op, a, b); w_sync(); } catch (...) { al_timer(0); al_in = 0; return 999; }
    al_timer(0);
    al_in = 0;
    return 0;
}
uint32_t sw_ret(void) { return ret; }
char *sw_text(void) { return text; }
void sw_forget(void) { dma = 0; core[0] = core[1] = 0; text[0] = 0; }
void sw_args(int n, char *a, char *b, char *c) { argc_ = n; argv_[0] = a; argv_[1] = b; argv_[2] = c; argv_[3] = 0; }
uint32_t sw_config(int k) {
    uint32_t v[] = { DMA_BASE, SOURCE_BASE, DEST_BASE, AXI_LITE_ENABLE, AXI_LITE_BASE, DEBUG_REG_ENABLE, CORE_BIT_DEPTH, INPUT_LENGTH };
    return v[k];
}
}
