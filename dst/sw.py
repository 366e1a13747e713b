"""The real drivers and the real test program on a simulated machine (native/world.c)."""
import os
import native, rtl
from core import Violation

TROUBLE = ["stray-access", "reprogrammed-while-active", "length-does-not-fit", "bus-error-response", "dead-bus", "spinning", "access-size", "mapping-mode",
           "cached-mapping", "bad-descriptor", "waits-for-nothing", "never-finishes"]
LISTS = ("reset", "halt", "start", "gap", "stall", "end", "lite", "cpu", "skew")
E_EXIT, E_HANG = 1500, 1501
OP = {"new": 0, "del": 1, "reset": 2, "halt": 3, "addr": 4, "start": 5, "len": 6, "sync": 7, "status": 8, "cnew": 20, "cdel": 22, "height": 24, "width": 26,
      "cycles": 28, "ssss": 30, "debug": 32, "set_height": 34, "set_width": 36, "set_cycles": 38, "main": 50}
FAILS = ("open", "mmap", "stat", "fopen", "fread")
DDR_LEN = 0x4000000


_mem = {}


def memfile(k):
    key = os.getpid(), k
    if key not in _mem:
        fd = os.memfd_create("f%d" % k)
        _mem[key] = 900 + k
        os.dup2(fd, 900 + k)
        os.close(fd)
    return _mem[key]


class Machine:
    def __init__(self, input_length=None):
        self.so = native.software(input_length)
        self.f, self.lib = native.load(self.so, native.CDEF_SW)
        self.lib.al_init()
        self.lib.w_init(DDR_LEN)
        self.W = self.lib.w_get()
        self.ddr = self.lib.w_ddr()
        self.dirty = []

    def config(self):
        names = ("dma", "src", "dst", "axil", "core", "debug", "bd", "input")
        return {n: self.lib.sw_config(k) for k, n in enumerate(names)}

    def reset(self, scn, dma=0x40400000, core=0x83C00000, ddr=0x10000000):
        lib, f, W = self.lib, self.f, self.W
        for a, n in self.dirty:
            f.memmove(self.ddr + a, b"\0" * n, n)
        self.dirty = []
        lib.al_reset(scn.get("malloc", 0), scn.get("junk", 0))
        lib.w_reset()
        lib.sw_forget()
        W.dma_base, W.core_base, W.ddr_base = dma, core, ddr
        self.keep = []
        for n in LISTS:
            v = scn.get(n, [])
            if n == "stall" and v and not any(v[1::2]):       # never ready: not a stall
                v = []
            arr = f.new("uint32_t[]", [max(0, x) for x in v] or 1)
            self.keep.append(arr)
            l = getattr(W, "l_" + n)
            l.v, l.n = arr, len(v)
        W.per_us = max(1, scn.get("per_us", 256))
        W.t0 = scn.get("t0", 0)
        W.fd0 = scn.get("fd0", 3)
        W.idle0 = scn.get("idle0", 0)
        for k, n in enumerate(FAILS):
            W.fail[k] = scn.get("fail_" + n, 0)
        e = scn.get("err")
        if e:
            W.err_ch, W.err_at, W.err_bits = e

    def attach(self, s, in_bytes=4, out_bytes=2, last=True):
        W, f = self.W, self.f
        g = rtl.ffi()

        def ptr(t, p):
            return f.cast(t, int(g.cast("uintptr_t", p)))
        W.step = ptr("void (*)(void *, const uint64_t *, uint64_t *)", g.addressof(s.lib, "sim_step"))
        W.rtl, W.out = ptr("void *", s.p), ptr("uint64_t *", s.o)
        setattr(W, "in", ptr("uint64_t *", s.i))
        W.in_bytes, W.out_bytes = in_bytes, out_bytes
        ii, oi = s.ii, s.oi
        # signals the design does not have go to the spare words behind the real ones
        spare_i, spare_o = s.meta["nin"], s.meta["nout"]
        W.i_valid, W.i_data, W.i_last, W.i_ready = ii.get("tvalid", spare_i), ii.get("tdata", spare_i), ii.get("tlast", spare_i), ii.get("tready", spare_i)
        W.o_ready, W.o_valid, W.o_data, W.o_last = oi.get("ready", spare_o), oi.get("valid", spare_o), oi.get("data", spare_o), oi.get("last", spare_o)
        for n in ("awvalid", "awaddr", "wvalid", "wdata", "wstrb", "bready", "arvalid", "araddr", "rready"):
            setattr(W.x, n, ii.get(n, spare_i))
        for n in ("awready", "wready", "bvalid", "bresp", "arready", "rvalid", "rresp", "rdata"):
            setattr(W.x, n, oi.get(n, spare_o))
        self.keep.append(s)

    def words(self, ws, need=0):
        """the stand-in for the core: delivers these words once `need` bytes were read"""
        arr = self.f.new("uint16_t[]", ws or 1)
        self.keep.append(arr)
        W = self.W
        W.sw, W.sw_len, W.sw_pos, W.sw_need = arr, len(ws), 0, need

    def file(self, k, data, real=None):
        """file k of the program: a file in memory with this content; real: it ends earlier than its size says"""
        v = self.W.file[k]
        fd = memfile(k)
        os.ftruncate(fd, 0)
        os.pwrite(fd, bytes(data) if real is None else bytes(data[:real]), 0)
        v.len, v.limit, v.path = len(data), -1, b"/proc/self/fd/%d" % fd

    def poke(self, addr, data):
        a = addr - self.W.ddr_base
        self.f.memmove(self.ddr + a, data, len(data))
        self.dirty.append((a, len(data)))

    def peek(self, addr, n):
        a = addr - self.W.ddr_base
        self.dirty.append((a, n))
        return self.f.buffer(self.ddr + a, n)[:]

    def call(self, op, a=0, b=0, cpu_s=30):
        r = self.lib.sw_call(op if isinstance(op, int) else OP[op], a, b, cpu_s)
        if r == 999:
            raise Violation("exception", "%s ended with a C++ exception" % op)
        if 1000 <= r < E_EXIT:
            if r == 1026:
                raise Violation("hang", "%s does not return" % op)
            raise Violation("crash", "%s died of signal %d" % (op, r - 1000))
        t = self.W.trouble
        if t & ~(1 << 10 | 1 << 11 | 1 << 5 | 1 << 4):
            raise Violation(self.trouble(), "in %s" % op, self.W.cyc)
        return r

    def trouble(self):
        t = self.W.trouble
        return "+".join(n for k, n in enumerate(TROUBLE) if t >> k & 1) or "hang"

    def text(self):
        return bytes(self.f.string(self.lib.sw_text())).decode("latin-1").split("\n")[:-1]

    def ret(self):
        return self.lib.sw_ret()

    def captured(self, fn):
        self.lib.w_capture()
        buf = self.f.new("char[]", 1 << 20)
        try:
            r = fn()
        finally:
            n = self.lib.w_release(buf, 1 << 20)
        return r, bytes(self.f.buffer(buf, n)[:]).decode("latin-1").split("\n")

    def events(self, start=0):
        W = self.W
        return [(e.kind, e.ch, e.a, e.b, e.t) for e in (W.log[k] for k in range(start, W.nlog))]
