"""Build the C and C++ software of /repo's current tree with its allocator, system calls and registers replaced."""
import os, hashlib, json, fcntl, shutil, tempfile
import rtl
from rtl import BuildError, REPO, BUILD, HERE

NAT = os.path.join(HERE, "native")
_ffi = {}


def files(*dirs):
    out = []
    for d in dirs:
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p) and n.rsplit(".", 1)[-1] in ("c", "cpp", "h", "hpp"):
                out.append(p)
    return out


def key(name, deps, cmd):
    h = hashlib.sha256(json.dumps([name, cmd]).encode())
    for p in deps:
        with open(p, "rb") as f:
            h.update(os.path.basename(p).encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:24]


def build(name, deps, steps):
    """steps: [[command with {tmp} and {out}]]; -> path of the shared object"""
    k = key(name, deps, steps)
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "%s-%s.so" % (name, k))
    if os.path.exists(so):
        return so
    with open(so + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        tmp = tempfile.mkdtemp(prefix="dst", dir=BUILD)
        try:
            for s in steps:
                rtl.run([x.replace("{tmp}", tmp).replace("{out}", os.path.join(tmp, "out.so")) for x in s])
            shutil.move(os.path.join(tmp, "out.so"), so)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return so


WRAP_ALLOC = ",".join("--wrap=" + x for x in ("malloc", "calloc", "realloc", "free"))


def liblj92():
    lj = os.path.join(REPO, "liblj92")
    base = ["/usr/bin/clang", "-O1", "-g", "-fwrapv", "-fPIC", "-w", "-c"]
    return build("lj92", files(lj, NAT), [
        base + ["-o", "{tmp}/lj92.o", os.path.join(lj, "lj92.c")],
        base + ["-I", lj, "-o", "{tmp}/lj.o", os.path.join(NAT, "lj.c")],
        base + ["-fno-builtin", "-o", "{tmp}/alloc.o", os.path.join(NAT, "alloc.c")],
        ["/usr/bin/clang", "-shared", "-o", "{out}", "{tmp}/lj92.o", "{tmp}/lj.o", "{tmp}/alloc.o", "-Wl," + WRAP_ALLOC]])


CDEF_ALLOC = """void al_reset(uint64_t, uint32_t); void *al_buf(size_t); void al_fails(uint64_t); int al_failed(void); int al_count(void);
int al_leaks(void); int al_bad(void); long al_size(void*); void al_init(void); void al_free(void*);"""
CDEF_LJ = CDEF_ALLOC + """int t_open(void **h, uint8_t *d, int n, int *o); int t_decode(void *h, uint16_t *t, int wl, int sk, uint16_t *lin, int nl);
int t_close(void *h); int t_encode(uint16_t *im, int w, int h, int bd, int rl, int sk, uint16_t *de, int nd, uint8_t **e, int *n);"""


def load(so, cdef):
    import cffi
    f = _ffi.get(cdef)
    if f is None:
        f = _ffi[cdef] = cffi.FFI()
        f.cdef(cdef)
    return f, f.dlopen(so)


TSAN = ["-fsanitize=thread"] + [x for o in ("distinguish-volatile=1", "instrument-func-entry-exit=0", "instrument-memintrinsics=0", "instrument-atomics=0",
                                            "handle-cxx-exceptions=0") for x in ("-mllvm", "-tsan-" + o)]
WRAP_SYS = ",".join("--wrap=" + x for x in ("open", "open64", "close", "mmap", "mmap64", "usleep", "sleep", "nanosleep", "clock_gettime", "exit", "stat", "fopen",
                                            "fread", "fclose", "ferror", "openat", "fopen64", "munmap", "clock_nanosleep", "_exit", "_Exit", "quick_exit"))


def software(input_length=None):
    """the drivers and the test program; their memory accesses, system calls and allocations are the simulator's"""
    src = os.path.join(REPO, "software", "src")
    cxx = ["/usr/bin/clang++", "-std=c++11", "-O1", "-g", "-fwrapv", "-fPIC", "-w", "-c", "-I", src, "-I", NAT]
    if input_length:
        cxx += ["-include", "{tmp}/config_.h"]
    steps = []
    if input_length:
        steps.append(["/usr/bin/sed", "-e", "s/#define *INPUT_LENGTH.*/#define INPUT_LENGTH (%d)/w {tmp}/hit" % input_length, "-n", "-e", "w {tmp}/config_.h", os.path.join(src, "config.h")])
    objs = []
    for n in sorted(os.listdir(src)):
        if n.endswith(".cpp"):
            objs.append("{tmp}/%s.o" % n[:-4])
            steps.append(cxx + TSAN + ["-o", objs[-1], os.path.join(src, n)])
    for n, d in (("begin", "-DEDGE_BEGIN"), ("end", "-DEDGE_END")):
        steps.append(["/usr/bin/clang", "-O1", "-fPIC", "-c", d, "-o", "{tmp}/%s_.o" % n, os.path.join(NAT, "edge.c")])
    objs = ["{tmp}/begin_.o"] + objs + ["{tmp}/end_.o"]
    steps.append(["/usr/bin/objcopy", "--redefine-sym", "main=sw_main", "{tmp}/xilinx_test.o"])
    steps.append(cxx + ["-DSW_MAIN", "-o", "{tmp}/entry_.o", os.path.join(NAT, "entry.cpp")])
    for n in ("alloc", "world"):
        steps.append(["/usr/bin/clang", "-O2", "-g", "-fwrapv", "-fPIC", "-w", "-fno-builtin-malloc", "-c", "-I", NAT, "-o", "{tmp}/%s_.o" % n, os.path.join(NAT, n + ".c")])
    steps.append(["/usr/bin/clang++", "-shared", "-o", "{out}"] + objs + ["{tmp}/entry_.o", "{tmp}/alloc_.o", "{tmp}/world_.o", "-Wl,-Bsymbolic," + WRAP_ALLOC + "," + WRAP_SYS])
    return build("sw", files(src, NAT), steps)


CDEF_SW = CDEF_ALLOC + """
typedef struct { uint32_t *v; uint32_t n; uint64_t k; } list;
typedef struct { uint32_t cr, sr, addr, len, pos, active, rst; int haltin, endin, wait, skew; uint32_t early, starts, done; uint64_t t_done; } chan;
typedef struct { uint32_t kind, ch, a, b; uint64_t t; } evt;
typedef struct { uint64_t len; long limit; int open, sized; char path[40]; } vfile;
""" + open(os.path.join(NAT, "world.h")).read().split("} vfile;")[1].replace("#endif", "") + """
int sw_call(int, uint32_t, uint32_t, int); uint32_t sw_ret(void); char *sw_text(void); void sw_forget(void); void sw_args(int, char*, char*, char*);
uint32_t sw_config(int); world *w_get(void); uint8_t *w_ddr(void); void w_init(uint32_t); void w_reset(void); void w_ticks(uint64_t);
uint32_t w_lite(int, uint32_t, uint32_t); int w_capture(void); long w_release(char*, long);
"""
