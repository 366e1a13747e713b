/* the real liblj92, compiled into this file's library, behind calls that survive its faults */
#include <stdint.h>
#include <setjmp.h>
#include <stdlib.h>
#include "lj92.h"

extern sigjmp_buf al_jb;
extern volatile int al_in;
void al_timer(int);
#define GUARD(call) { int s_ = sigsetjmp(al_jb, 1), r_; if (s_) { al_in = 0; al_timer(0); return 1000 + s_; } \
    al_in = 1; al_timer(20); r_ = (call); al_timer(0); al_in = 0; return r_; }
static int close_(lj92 h) { lj92_close(h); return 0; }
int t_open(void **h, uint8_t *d, int n, int *o) GUARD(lj92_open((lj92 *)h, d, n, o, o + 1, o + 2, o + 3))
int t_decode(void *h, uint16_t *t, int wl, int sk, uint16_t *lin, int nl) GUARD(lj92_decode((lj92)h, t, wl, sk, lin, nl))
int t_close(void *h) GUARD(close_((lj92)h))
int t_encode(uint16_t *im, int w, int h, int bd, int rl, int sk, uint16_t *de, int nd, uint8_t **e, int *n)
    GUARD(lj92_encode(im, w, h, bd, rl, sk, de, nd, e, n))
