"""Small cycle bench for a demonstration: the design runs in nmigen's own simulator (pysim).
Run with /opt/pypyvenv/bin/python, cwd = the repository."""
import sys, os, functools, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.join(os.getcwd(), "migen_src"))


def _patch(cls, names, post=None):
    orig = cls.__init__

    @functools.wraps(orig)
    def init(self, *args, **kw):
        for n, a in zip(names, args):
            kw[n] = a
        orig(self, **kw)
        if post:
            post(self)
    cls.__init__ = init


import nmigen.hdl.mem as _mem
import nmigen.lib.fifo as _fifo
from nmigen import Signal, Module
from nmigen.back import pysim


def _replace(self):
    if not hasattr(self, "replace"):
        self.replace = Signal(name="fifo_replace")


# the repository passes these arguments by position, the installed nmigen takes them by keyword
_patch(_mem.Memory, ["width", "depth", "init"])
_patch(_fifo.SyncFIFO, ["width", "depth", "fwft"], _replace)
_patch(_fifo.SyncFIFOBuffered, ["width", "depth"], _replace)


def run(dut, ins, outs, step, cycles, domain="sync", rst=None, wrap=None):
    """ins/outs: {name: signal}.  step(cycle, outputs of the cycle before or None) -> {input: value} or None to stop;
    with react(cycle, outs) semantics: step sees the registered outputs of this cycle through `peek`."""
    m = Module()
    m.submodules.dut = dut
    P, O = {}, {}
    for n, s in ins.items():
        P[n] = Signal(len(s), name="i_" + n)
        m.d.comb += s.eq(P[n])
    for n, s in outs.items():
        O[n] = Signal(len(s), name="o_" + n)
        m.d.comb += O[n].eq(s)
    if wrap:
        wrap(m)
    if rst is not None:
        P["rst"] = rst
    with pysim.Simulator(m) as sim:
        def proc():
            last = None
            for c in range(cycles):
                row = step(c, last)
                if row is None:
                    return
                for k, v in row.items():
                    yield P[k].eq(v)
                yield pysim.Delay(3e-9)
                last = {}
                for k in O:
                    last[k] = (yield O[k])
                yield pysim.Tick(domain)
                yield pysim.Delay(1e-9)
        sim.add_clock(1e-8, domain=domain)
        sim.add_process(proc())
        sim.run()


# ---- reference encoder: predictor 1, four interleaved components, the core's default code table
TABLE = [(14, 4), (0, 3), (1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 3), (30, 5), (62, 6), (126, 7), (254, 8), (510, 9),
         (1022, 10), (2046, 11), (4094, 12), (8190, 13)]


def codes(pix, width, bd):
    out = []
    for k, p in enumerate(pix):
        col = k % width
        pr = pix[k - 4] if col >= 4 else pix[k - width] if k >= width else 1 << (bd - 1)
        d = p - pr
        s = abs(d).bit_length()
        code, ln = TABLE[s]
        out.append(((code << s) | (d if d > 0 else d + (1 << s) - 1) if s else code, ln + s))
    return out


def words(cs, wbits):
    out, acc, n = [], 0, 0
    for c, l in cs:
        acc, n = (acc << l) | c, n + l
        while n >= wbits:
            n -= wbits
            out.append((acc >> n) & ((1 << wbits) - 1))
            acc &= (1 << n) - 1
    if n:
        out.append((acc << (wbits - n)) & ((1 << wbits) - 1))
    return out


def stuff(w16):
    b = bytearray()
    for w in w16:
        for x in (w >> 8, w & 255):
            b.append(x)
            if x == 255:
                b.append(0)
    if len(b) & 1:
        b.append(0)
    return [(b[i] << 8) | b[i + 1] for i in range(0, len(b), 2)]


class Rng:
    """small generator of its own, so that every run is the same"""

    def __init__(self, s):
        self.s = s * 2654435761 % (1 << 32) or 1

    def __call__(self, n):
        self.s ^= (self.s << 13) & 0xffffffff
        self.s ^= self.s >> 17
        self.s ^= (self.s << 5) & 0xffffffff
        return self.s % n


def check(ok, text):
    if not ok:
        print("FAILED: " + text)
        sys.stdout.flush()
        os._exit(1)


def stub_geometry(h, w, allowed=0xffffff):
    """the constant RegisterFile gives h x w instead of 3072 x 4096 (a whole frame of that size is too slow here)"""
    import register_file
    import clk_domains

    def elaborate(self, platform):
        m = Module()
        clk_domains.load_clk(m)
        m.d.comb += [self.height.eq(h), self.width.eq(w), self.allowed_cycles.eq(allowed)]
        return m
    register_file.RegisterFile.elaborate = elaborate


def force_config(**over):
    import integration_3
    orig = integration_3.Integration3.__init__

    def init(self, config, cons):
        config.update(over)
        orig(self, config, cons)
    integration_3.Integration3.__init__ = init


def beta(frames, gap=lambda c: 0, stall=lambda c: 0, budget=40000):
    """Frames (12-bit pixels) through BetaIntegrationAxiStream -> [(word, last)] that the sink took."""
    import beta_integration_axistream
    d = beta_integration_axistream.BetaIntegrationAxiStream()
    beats = [(p[i] << 20) | (p[i + 1] << 8) for p in frames for i in range(0, len(p), 2)]
    got, st = [], {"i": 0, "v": 0, "r": 0, "n": 0}

    def step(c, o):
        if o is not None:
            if o["ready"] and st["v"]:
                st["i"] += 1
                st["v"] = 0
            if o["valid"] and st["r"]:
                got.append((o["data"], o["last"]))
                if o["last"]:
                    st["n"] += 1
        if st["n"] == len(frames):
            return None
        if not st["v"] and st["i"] < len(beats) and not gap(c):
            st["v"] = 1
        st["r"] = 0 if stall(c) else 1
        return {"tvalid": st["v"], "tdata": beats[st["i"]] if st["v"] else 0, "tready": st["r"]}
    run(d, {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready},
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, step, budget, domain="full")
    return got


def framed(pix, width):
    w = [0xffff] * 8 + stuff(words(codes(pix, width, 12), 16)) + [0xffff] * 8
    return [(x, int(i == len(w) - 1)) for i, x in enumerate(w)]
