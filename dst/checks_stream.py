"""Whole-core checks: a simulated pixel source, the real core (every stage), a simulated sink."""
import bisect
import itertools
import random
from math import ceil
import core, e2e, axil, ref
from core import Check, Violation

FAULTS = {
    "sink_stall_cycles": "the sink refuses the offered word (or is simply not ready)",
    "source_gap_cycles": "the source has no pixel although the core could take one",
}
RST = {"resets": "external reset at an arbitrary cycle, everything in flight lost"}
FORCE = {"forced_ends": "the frame's cycle budget runs out and the core abandons the frame"}
BUS = {"bus_ops_during_frames": "AXI-lite transactions while a frame is being encoded",
       "bus_stall_cycles": "the bus master delays the acceptance of a response"}
ASSUME = ["a clean batch is evidence, not proof: schedules are sampled",
          "two-state simulation (no X propagation, no metastability), every clock is the same net as in the design",
          "frame geometry is in the core's domain: whole beats per row, at least 2 beats and 4 pixels per row, 3 beats per frame"]
STREAM_REAL = "every module of the top level: predictor, difference, normalize, encode, merge, pipeline FIFO, converter, " \
              "converter FIFO, vbits_to_cbits, 0xFF fixers, markers, force_end, auto_reset, signals"
STREAM_STUB = "register_file's three constants (frame size, cycle budget) are inputs of the harness; pixel source and word sink are simulated"


class Stream(Check):
    design = "beta_axis"
    params = None
    faults = FAULTS
    assumptions = ASSUME
    real = STREAM_REAL
    stub = STREAM_STUB
    rule = "a run is one scenario (frames, source gaps, sink stalls, resets, budgets); non-trivial: at least one gap, stall, " \
           "reset or forced end fired; distinct: by hash of the per-cycle handshake trace"
    required = ["sink_stall_cycles", "source_gap_cycles", "frames"]

    TOPS = ()

    def designs(self, tier, seed):
        return [(t, None) for t in dict.fromkeys(self.TOPS)] or [(self.design, self.params)]

    def top(self, idx):
        return self.base(self.TOPS[idx // 8 % len(self.TOPS)])

    def execute(self, scn, st):
        return e2e.run(self, scn, st)

    def shrink(self, scn):
        return e2e.shrink(scn)

    def valid(self, scn):
        return e2e.valid(scn)

    def base(self, design=None, params=None):
        scn = {"design": design or self.design}
        if params or self.params:
            scn["params"] = params or self.params
        return scn, e2e.kind_of(scn)


class C01(Stream):
    pid = "C01"
    runs = {"quick": 24000, "thorough": 500000}
    TOPS = ("beta_axis", "beta_axis", "micro_axis", "beta_axis", "int3_axis")

    def generate(self, rng, tier, idx):
        scn, k = self.top(idx)
        x = rng.random()
        if idx % 1000 == 7:
            scn["frames"] = [e2e.gen_huge(rng, k, 400000, idx // 1000)]
            return e2e.gen_env(rng, scn, k)
        if x < 0.02:
            scn.update(e2e.gen_fill(rng, k, rng.choice((700, 1400, 2500))))
            return scn
        scn["frames"] = e2e.gen_frames(rng, k, 1, x < 0.12)
        return e2e.gen_env(rng, scn, k)


class C04(Stream):
    """several frames back to back, geometry changing between them"""
    pid = "C04"
    runs = {"quick": 16000, "thorough": 300000}
    TOPS = ("beta_axis", "beta_axis", "micro_axis", "int3_axis")

    def generate(self, rng, tier, idx):
        scn, k = self.top(idx)
        n = rng.randrange(2, 6)
        if e2e.many(rng, idx):
            n = e2e.many(rng, idx)
            scn["frames"] = e2e.gen_tiny(rng, k, n)
        else:
            scn["frames"] = e2e.gen_frames(rng, k, n, rng.random() < 0.05)
        if k.framed and rng.random() < 0.1:
            i = rng.randrange(n)
            scn["frames"][i]["allowed"] = rng.randrange(0, 200)
        if idx % 400 == 3:
            scn["frames"].insert(rng.randrange(n), e2e.gen_huge(rng, k, 100000))
        return e2e.gen_env(rng, scn, k)


class C05(Stream):
    """external reset at any cycle"""
    pid = "C05"
    runs = {"quick": 18000, "thorough": 300000}
    TOPS = ("beta_axis", "beta_axis", "micro_axis", "beta_fifo_axis", "beta_axis", "int3_axis", "beta_lvds")
    faults = dict(FAULTS, **RST)
    required = Stream.required + ["resets"]

    def generate(self, rng, tier, idx):
        scn, k = self.top(idx)
        x = rng.random()
        if x < 0.02:
            scn.update(e2e.gen_fill(rng, k, rng.choice((700, 1400))))
            total = e2e.nbeats_of(k, scn["frames"][0])
            scn["rst"] = [[rng.randrange(1, 4 * total), rng.randrange(1, 4)]]
            return scn
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 4), x < 0.06)
        e2e.gen_env(rng, scn, k)
        if scn["design"] in ("beta_axis", "micro_axis") and rng.random() < 0.15:
            scn["frames"][rng.randrange(len(scn["frames"]))]["allowed"] = rng.randrange(0, 150)
        span = 3 * sum(e2e.nbeats_of(k, f) for f in scn["frames"]) + 200
        n = e2e.many(rng, idx)
        if n:
            scn["frames"] = e2e.gen_tiny(rng, k, rng.randrange(1, 12))
            scn["gaps"], scn["sink"] = scn["gaps"][:20], scn["sink"][:20]
            span = 60 * n
        scn["rst"] = sorted([rng.randrange(span), rng.choice((1, 1, 1, 2, 3, 17))] for _ in range(n or rng.choice((1, 1, 2, 3, 6))))
        return scn


class C06(Stream):
    """the cycle budget"""
    pid = "C06"
    runs = {"quick": 18000, "thorough": 300000}
    TOPS = ("beta_axis", "beta_axis", "micro_axis")
    faults = dict(FAULTS, **FORCE)
    required = Stream.required + ["forced_ends"]

    def generate(self, rng, tier, idx):
        scn, k = self.top(idx)
        if idx % 1000 == 11:
            # a budget that needs all the bits of the counter
            f = {"w": 8, "h": 65000 if tier == "thorough" else 20000, "g": [rng.randrange(1 << 30), 0],
                 "allowed": rng.choice((65535, 65536, 65537, 70000, 100000, (1 << 17) + 5))}
            if tier == "thorough" and idx % 10000 == 11:
                f["allowed"] = rng.choice(((1 << 20) + 3, (1 << 22) + 1, (1 << 23) + 77))
            scn["frames"] = [f]
            scn["gaps"] = [0] * rng.randrange(2000) + [f["allowed"] * 2]
            scn["sink"] = rng.choice(([], [1, 5] * 300))
            return scn
        if idx % 500 in (23, 28):
            scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 3), False)
            return long_budget(rng, scn, k, tier)
        scn["frames"] = e2e.gen_tiny(rng, k, e2e.many(rng, idx)) or e2e.gen_frames(rng, k, rng.randrange(1, 4), rng.random() < 0.1)
        e2e.gen_env(rng, scn, k)
        for f in scn["frames"]:
            if rng.random() < 0.75:
                n = e2e.nbeats_of(k, f)
                f["allowed"] = rng.choice((0, 1, 2, rng.randrange(60), rng.randrange(2 * n + 60), n + rng.randrange(80), 1000))
        return scn


class C03(Stream):
    """the framing seen by a receiver that knows nothing about the encoder: parse and decode the raw words"""
    pid = "C03"
    runs = {"quick": 14000, "thorough": 250000}

    def generate(self, rng, tier, idx):
        scn, k = self.base(rng.choice(("beta_axis", "beta_axis", "beta_fifo_axis", "micro_axis")))
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 4), rng.random() < 0.1)
        for f in scn["frames"]:
            if rng.random() < 0.5:       # plenty of 0xFF bytes
                f["pix"] = e2e.gen_pixels(rng, len(f["pix"]), f["w"], k.bd, mode=rng.choice((2, 5, 6, 7)))
        return e2e.gen_env(rng, scn, k)

    def designs(self, tier, seed):
        return [("beta_axis", None), ("beta_fifo_axis", None), ("micro_axis", None)]

    def execute(self, scn, st):
        kind = e2e.kind_of(scn)

        class O(e2e.Opt):
            content = False
            collect = []
        O.collect = []
        h = e2e.run(self, scn, st, O)
        frames = {}
        for fr, d, la, forced in O.collect:
            frames.setdefault(fr, []).append((d, la))
        for i, f in enumerate(scn["frames"]):
            self.parse(i, f, frames.get(i, []), kind, st)
        return h

    def parse(self, i, f, ws, kind, st):
        if len(ws) < 17:
            raise Violation("bad-framing", "frame %d has %d words" % (i, len(ws)))
        d = [w for w, _ in ws]
        if d[:8] != [0xFFFF] * 8:
            raise Violation("bad-start-marker", "frame %d starts with %s" % (i, " ".join("%04x" % x for x in d[:8])))
        if d[-8:] != [0xFFFF] * 8:
            raise Violation("bad-end-marker", "frame %d ends with %s" % (i, " ".join("%04x" % x for x in d[-8:])))
        if [la for _, la in ws] != [0] * (len(ws) - 1) + [1]:
            raise Violation("last-flag", "frame %d: last flag on words %s of %d" % (i, [j for j, w in enumerate(ws) if w[1]], len(ws)))
        body = bytearray()
        for w in d[8:-8]:
            body.append(w >> 8)
            body.append(w & 255)
        j = 0
        n = len(body)
        while j < n:
            if body[j] == 255:
                st.add("stuffed_bytes")
                if j + 1 >= n or body[j + 1] != 0:
                    raise Violation("unstuffed-0xff", "frame %d: byte %d of %d is 0xff and the next one is not 0" % (i, j, n))
            j += 1
        try:
            pix, rest = ref.decode(bytes(body), f["w"], f["h"], kind.bd)
        except ref.DecodeError as e:
            raise Violation("not-decodable", "frame %d: %s" % (i, e))
        if pix != e2e.pixels(kind, f):
            bad = [j for j, (a, b) in enumerate(zip(pix, e2e.pixels(kind, f))) if a != b]
            raise Violation("wrong-pixels", "frame %d: first wrong pixel %d" % (i, bad[0]))
        # at most the padding of the last code word and of the last output word is left
        if rest.strip("0") or len(rest) >= 32:
            raise Violation("trailing-data", "frame %d: %d bits after the last pixel: %s" % (i, len(rest), rest[:40]))


class C08(Stream):
    """word stability and independence from ready on every top level"""
    pid = "C08"
    runs = {"quick": 12000, "thorough": 150000}
    TOPS = ("beta_axis", "beta_fifo_axis", "beta_lvds", "micro_axis", "int3_axis")
    required = ["sink_stall_cycles", "frames"]

    def designs(self, tier, seed):
        return [(t, None) for t in self.TOPS]

    def generate(self, rng, tier, idx):
        scn, k = self.base(self.TOPS[idx // 8 % len(self.TOPS)])
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 3), False)
        e2e.gen_env(rng, scn, k)
        m = rng.randrange(3)
        nb = sum(e2e.nbeats_of(k, f) for f in scn["frames"])
        if m == 0:
            scn["lazy"] = [rng.choice((0, 0, 1, 2, 5, 30)) for _ in range(rng.randrange(10, 4 * nb + 40))]
        elif m == 1:
            scn["sink"] = [x for _ in range(2 * nb + 20) for x in (1, rng.choice((1, 1, 2, 3, 9)))]
        if k.framed and not k.lvds and scn["design"] != "beta_fifo_axis" and rng.random() < 0.3:
            scn["frames"][0]["allowed"] = rng.randrange(0, 3 * nb + 60)
        return scn

    def execute(self, scn, st):
        class O(e2e.Opt):
            comb = True
        return e2e.run(self, scn, st, O)


class C09(Stream):
    """the wrappers with an input FIFO: AXI stream and 40-bit LVDS output"""
    pid = "C09"
    runs = {"quick": 16000, "thorough": 250000}
    TOPS = ("beta_fifo_axis", "beta_lvds")
    faults = dict(FAULTS, **RST)
    required = Stream.required + ["resets"]

    def designs(self, tier, seed):
        return [(t, None) for t in self.TOPS]

    def generate(self, rng, tier, idx):
        scn, k = self.base(self.TOPS[idx // 8 % 2])
        x = rng.random()
        if idx % 1000 in (3, 9):
            scn["frames"] = [e2e.gen_huge(rng, k, 200000, idx // 1000)]
            return e2e.gen_env(rng, scn, k)
        if x < 0.02:
            scn.update(e2e.gen_fill(rng, k, rng.choice((700, 1400))))
            return scn
        scn["frames"] = e2e.gen_tiny(rng, k, e2e.many(rng, idx)) or e2e.gen_frames(rng, k, rng.randrange(1, 5), x < 0.08)
        e2e.gen_env(rng, scn, k)
        if rng.random() < 0.15:
            scn["rst"] = [[rng.randrange(300), rng.randrange(1, 4)]]
        return scn


class C07(Stream):
    """every supported configuration of the core"""
    pid = "C07"
    configs = True
    runs = {"quick": 12000, "thorough": 120000}
    design = "int3"
    FIXED = [
        {"bd": 12, "ps": 2, "fifo": 512, "out": 16, "conv": 30, "cfifo": 512, "buf": 77},
        {"bd": 12, "ps": 4, "fifo": 128, "out": 32, "conv": 48, "cfifo": 256, "buf": 144},
        {"bd": 12, "ps": 1, "fifo": 512, "out": 16, "conv": 15, "cfifo": 1024, "buf": 41},
        {"bd": 16, "ps": 4, "fifo": 25, "out": 64, "conv": 124, "cfifo": 8, "buf": 188},
        {"bd": 16, "ps": 1, "fifo": 25, "out": 8, "conv": 7, "cfifo": 12, "buf": 15},
        {"bd": 16, "ps": 2, "fifo": 32, "out": 24, "conv": 17, "cfifo": 11, "buf": 41},
        {"bd": 2, "ps": 4, "fifo": 25, "out": 8, "conv": 72, "cfifo": 8, "buf": 80},
        {"bd": 2, "ps": 1, "fifo": 26, "out": 8, "conv": 3, "cfifo": 13, "buf": 11},
        {"bd": 15, "ps": 2, "fifo": 33, "out": 40, "conv": 62, "cfifo": 8, "buf": 102},
        {"bd": 8, "ps": 4, "fifo": 64, "out": 48, "conv": 33, "cfifo": 16, "buf": 90},
        {"bd": 14, "ps": 2, "fifo": 128, "out": 32, "conv": 36, "cfifo": 128, "buf": 128},
        {"bd": 10, "ps": 1, "fifo": 25, "out": 32, "conv": 1, "cfifo": 33, "buf": 33},
    ]

    @staticmethod
    def rand_cfg(rng, bd=0, ps=0, out=0):
        bd, ps = bd or rng.randrange(2, 17), ps or rng.choice((1, 2, 4))
        tot = min(16 + bd, 31) * ps
        conv = rng.choice((rng.randrange(1, tot + 1), rng.randrange(max(1, tot // 3), tot + 1)))
        steps = ceil(tot / float(conv)) + 3
        out = out or 8 * rng.randrange(1, 9)
        return {"bd": bd, "ps": ps, "fifo": rng.choice((25, 26, 31, 32, 33, 64, 128, 200)), "conv": conv,
                "cfifo": rng.choice((steps + 4, steps + 5, steps + 8, 64 + steps)), "out": out,
                "buf": conv + out + rng.choice((0, 0, 1, 7, conv))}

    def cfgs(self, tier, seed):
        r = random.Random("cfg|%s" % seed)
        # every bit depth with every number of pixels, the output widths spread over them
        have = {(c["bd"], c["ps"]) for c in self.FIXED}
        a = [self.rand_cfg(r, bd, ps, 8 + (bd * 8 + 24 * ps + r.randrange(2) * 32) % 64) for bd in range(2, 17) for ps in (1, 2, 4) if (bd, ps) not in have]
        return self.FIXED + a + [self.rand_cfg(r) for _ in range(2 if tier == "quick" else 120)]

    def full(self, c):
        return dict(c, axil=False, debug=False)

    def designs(self, tier, seed):
        self.cc = [self.full(c) for c in self.cfgs(tier, seed)]
        return [("int3", c) for c in self.cc]

    def prepare(self, tier, seed):
        ref.selftest(seed)
        Stream.prepare(self, tier, seed)

    def generate(self, rng, tier, idx):
        p = self.cc[idx // 8 % len(self.cc)]
        scn, k = self.base("int3", p)
        x = rng.random()
        if x < 0.12:
            need = 2 * p["fifo"] + 60 + 2 * p["cfifo"] * p["conv"] // (4 * p["ps"])
            scn.update(e2e.gen_fill(rng, k, min(need, 4000)))
            return scn
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 3), x < 0.25)
        if idx % 500 == 3:
            scn["frames"] = [e2e.gen_huge(rng, k, 150000, idx // 500)]
        e2e.gen_env(rng, scn, k)
        if rng.random() < 0.1:
            scn["rst"] = [[rng.randrange(300), 1]]
        return scn

    def execute(self, scn, st):
        h = Stream.execute(self, scn, st)
        st.seen("configurations", str(sorted(scn["params"].items())))
        return h


class Axil(Stream):
    faults = dict(FAULTS, **BUS)
    assumptions = ASSUME + ["the host programs the geometry while the core is idle, as the documentation asks"]
    required = Stream.required + ["bus_ops_during_frames", "bus_stall_cycles"]
    stub = "pixel source, word sink and AXI-lite master are simulated"

    def again(self, rng, frames, i, k, prob):
        """perhaps give frame i the size and budget of the one before, and offer it without waiting for that one's last word"""
        if not i or rng.random() >= prob:
            return
        f, p = frames[i], frames[i - 1]
        if "g" in f or "g" in p or p["w"] * p["h"] > 400 or "table" in f or "table" in p:
            return
        f["w"], f["h"] = p["w"], p["h"]
        f["pix"] = e2e.gen_pixels(rng, f["w"] * f["h"], f["w"], k.bd)
        f.pop("allowed", None)
        if "allowed" in p:
            f["allowed"] = p["allowed"]
        if rng.random() < 0.8:
            f["eager"] = 1

    def traffic(self, rng, k, n):
        pool = [0x400 + rng.randrange(2 * (k.bd + 1)), 0x400 + rng.randrange(64), 0x800, 0x801, 0x1000 + rng.randrange(8), 0, rng.randrange(0x400)]
        out = []
        for _ in range(n):
            a = e2e.BASE + 4 * rng.choice(pool)
            i = a >> 2 & 0x1FFF
            if (i < 0x400 or i >= 0x1000 or (i & 0x400 and (i & 63) >= 2 * (k.bd + 1))) and rng.random() < 0.4:
                # a write that hits nothing must change nothing
                out.append(axil.w(rng, a, rng.randrange(1 << 32), rng.randrange(16)))
            elif rng.random() < 0.1:
                out.append(axil.w(rng, e2e.BASE + 4 * rng.choice((0x400, 0x40D, 0x800, 0x801)), rng.randrange(1 << 32), 0))
            else:
                out.append(axil.r(rng, a))
        return out


class C10(Axil):
    """register-programmed cores (Micro; Beta with its register interface on): geometry and budget from the bus"""
    pid = "C10"
    runs = {"quick": 6000, "thorough": 200000}
    TOPS = ("micro_axis", "micro_axis", "beta_axis_axil")
    faults = dict(FAULTS, **dict(BUS, **dict(RST, **FORCE)))
    required = Axil.required + ["resets", "forced_ends"]

    def designs(self, tier, seed):
        return [(t, None) for t in sorted(set(self.TOPS))]

    def generate(self, rng, tier, idx):
        scn, k = self.base(self.TOPS[idx // 8 % len(self.TOPS)])
        x = rng.random()
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 5), x < 0.08)
        if idx % 500 == 5:
            scn["frames"] = [e2e.gen_huge(rng, k, 150000, idx // 500)]
        elif idx % 500 in (23, 28):
            return long_budget(rng, scn, k, tier)
        elif x > 0.985:
            scn.update(e2e.gen_fill(rng, k, 1500))
        elif e2e.many(rng, idx):
            scn["frames"] = e2e.gen_tiny(rng, k, rng.randrange(12, 40))
        e2e.gen_env(rng, scn, k)
        fr = scn["frames"]
        for i, f in enumerate(fr):
            f["ps"] = rng.randrange(1 << 20) * rng.randrange(2)
            f["keep"] = rng.randrange(2)
            self.again(rng, fr, i, k, 0.4)
            if rng.random() < 0.12 and not f.get("eager"):
                f["allowed"] = rng.choice((0, 5, rng.randrange(300)))
        scn["traffic"] = self.traffic(rng, k, rng.choice((0, 5, 30, 100)))
        if rng.random() < 0.15:
            scn["rst"] = [[rng.randrange(500), rng.randrange(1, 4)]]
        return scn


def long_budget(rng, scn, k, tier):
    """one frame whose cycle budget needs the upper bits of the 24-bit counter: long waits around it"""
    f = scn["frames"][0]
    a = f["allowed"] = min(0xFFFFFE, rng.choice((1 << 16, 1 << 17, 1 << 20, rng.randrange(1 << 18, 1 << 21), 1 << 22, rng.randrange(1 << 21, 1 << 24))) + rng.randrange(-2, 3)
                           if tier == "quick" else rng.randrange(1 << rng.randrange(16, 25)))
    n = e2e.nbeats_of(k, f)
    x = rng.randrange(1, n)
    m = rng.randrange(3)
    d = rng.choice((a + rng.randrange(2000), max(0, a - rng.randrange(10 * n + 100))))      # over and (perhaps) under the budget
    if m == 0:
        scn["gaps"] = [0] * x + [d]
    elif m == 1:
        scn["sink"] = [rng.randrange(n), d]
    else:
        scn["gaps"] = [0] * x + [d // 2]
        scn["sink"] = [rng.randrange(n + 8) + d // 2, d // 2]
    scn["warp"] = 1
    return scn


def gen_table(rng, bd):
    """a valid prefix code for SSSS 0..bd: 1 to 16 bits per code, not all ones, and code + value bits fit"""
    n = bd + 1
    cap = [min(16, 31 - (i if i < 16 else 0)) for i in range(n)]
    for _ in range(50):
        m = rng.randrange(4)
        if m == 0:
            lens = [rng.randrange(1, 17) for _ in range(n)]
        elif m == 1:
            lens = list(range(1, n + 1))
            rng.shuffle(lens)
        elif m == 2:
            b = max(1, (n - 1).bit_length())
            lens = [b + rng.randrange(0, 3) for _ in range(n)]
        else:
            lens = [16 if rng.random() < 0.3 else rng.randrange(3, 13) for _ in range(n)]
        lens = [min(l, c) for l, c in zip(lens, cap)]
        if sum(2.0 ** -l for l in lens) < 1.0:
            break
        # lengthen until the code fits
        order = list(range(n))
        rng.shuffle(order)
        for _ in range(16):
            for i in order:
                if sum(2.0 ** -l for l in lens) >= 1.0 and lens[i] < cap[i]:
                    lens[i] += 1
        if sum(2.0 ** -l for l in lens) < 1.0:
            break
    else:
        return [list(x) for x in ref.STD_SSSS[:n]]
    order = sorted(range(n), key=lambda i: (lens[i], rng.random()))
    code = 0
    prev = 0
    tab = [None] * n
    for i in order:
        code <<= lens[i] - prev
        prev = lens[i]
        tab[i] = [code, lens[i]]
        code += 1
    return tab


class C11(Axil):
    """any valid Huffman table written over the bus is the table in force"""
    pid = "C11"
    configs = True
    runs = {"quick": 7000, "thorough": 100000}
    TOPS = [("micro_axis", None), ("beta_axis_axil", None)] + [
        ("int3", dict(c, axil=True, debug=False)) for c in (
            {"bd": 16, "ps": 1, "fifo": 64, "out": 16, "conv": 15, "cfifo": 64, "buf": 41},
            {"bd": 16, "ps": 4, "fifo": 64, "out": 32, "conv": 48, "cfifo": 64, "buf": 144},
            {"bd": 15, "ps": 2, "fifo": 64, "out": 16, "conv": 31, "cfifo": 64, "buf": 77},
            {"bd": 8, "ps": 1, "fifo": 64, "out": 8, "conv": 24, "cfifo": 64, "buf": 41},
            {"bd": 11, "ps": 2, "fifo": 64, "out": 16, "conv": 31, "cfifo": 64, "buf": 77},
            {"bd": 3, "ps": 4, "fifo": 64, "out": 16, "conv": 31, "cfifo": 64, "buf": 77},
            {"bd": 2, "ps": 1, "fifo": 32, "out": 8, "conv": 9, "cfifo": 32, "buf": 41},
            {"bd": 4, "ps": 2, "fifo": 32, "out": 16, "conv": 20, "cfifo": 32, "buf": 41},
            {"bd": 7, "ps": 4, "fifo": 32, "out": 24, "conv": 40, "cfifo": 32, "buf": 77},
            {"bd": 10, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41},
            {"bd": 13, "ps": 2, "fifo": 32, "out": 32, "conv": 40, "cfifo": 32, "buf": 77},
            {"bd": 14, "ps": 4, "fifo": 32, "out": 64, "conv": 60, "cfifo": 32, "buf": 144})]
    required = Axil.required + ["tables"]

    def designs(self, tier, seed):
        return self.TOPS

    def generate(self, rng, tier, idx):
        d, p = self.TOPS[idx // 8 % len(self.TOPS)]
        scn, k = self.base(d, p)
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 4), rng.random() < 0.1)
        e2e.gen_env(rng, scn, k)
        tab = None
        for f in scn["frames"]:
            f["ps"] = rng.randrange(1 << 20) * rng.randrange(2)
            f["keep"] = rng.randrange(2)
            x = rng.random()
            if x < 0.65:
                tab = gen_table(rng, k.bd)
            elif x < 0.75:
                tab = None
            if tab:
                f["table"] = tab
        scn["traffic"] = self.traffic(rng, k, rng.choice((0, 5, 30)))
        if rng.random() < 0.1:
            scn["rst"] = [[rng.randrange(2000), 1]]
        return scn

    def execute(self, scn, st):
        h = Stream.execute(self, scn, st)
        st.add("tables", sum(1 for f in scn["frames"] if f.get("table")))
        return h


class C13(Axil):
    """the debug counters of Beta and Micro"""
    pid = "C13"
    runs = {"quick": 5000, "thorough": 200000}
    TOPS = ("beta_axis_dbg", "micro_axis_dbg")
    faults = dict(FAULTS, **dict(BUS, **RST))
    required = Axil.required + ["resets", "counters_read"]
    assumptions = Axil.assumptions + ["whether idle time between two frames counts is left open (Beta: no, Micro: yes); 4 counts of pipeline delay per frame are allowed"]
    stub = "pixel source, word sink and AXI-lite master are simulated"
    NAMES = ("valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0")

    def designs(self, tier, seed):
        return [(t, None) for t in self.TOPS]

    def generate(self, rng, tier, idx):
        scn, k = self.base(self.TOPS[idx // 8 % 2])
        if idx in (0, 8) or tier == "thorough" and idx % 20000 in (0, 8):
            # a full-size frame: millions of transfers are counted
            scn["frames"] = [{"w": 4096, "h": 3072 // (idx // 8 % 2 + 1), "g": [rng.randrange(1 << 30), "camera"]}]
            scn["gaps"] = [0] * rng.randrange(1, 200000) + [rng.randrange(60000)]
            scn["sink"] = [rng.randrange(1 << 20), rng.randrange(60000)]
            scn["traffic"] = []
            return scn
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 4), rng.random() < 0.1)
        if idx % 500 in (3, 12):
            # counts that need the upper bits of the counters: long waits of the source and of the sink
            top = 22 if tier == "quick" else 25
            n = sum(e2e.nbeats_of(k, f) for f in scn["frames"])
            scn["gaps"] = [0] * n
            scn["gaps"][rng.randrange(1, n)] = rng.randrange(1 << rng.randrange(14, top))
            scn["sink"] = [rng.randrange(n + 30), rng.randrange(1 << rng.randrange(14, top))]
            scn["warp"] = 1
            if idx < 500:
                # a wait near the frame's budget in each of several frames: more than 24 bits in the end
                scn["frames"] = e2e.gen_frames(rng, k, 3 + rng.randrange(2), False)
                scn["sink"], scn["gaps"] = [], []
                for f in scn["frames"]:
                    n = e2e.nbeats_of(k, f)
                    g = [0] * n
                    if n > 1:
                        g[rng.randrange(1, n)] = 6000000 + rng.randrange(300000)
                    scn["gaps"] += g
            return scn
        e2e.gen_env(rng, scn, k)
        for i, f in enumerate(scn["frames"]):
            f["ps"] = rng.randrange(1 << 20) * rng.randrange(2)
            f["keep"] = rng.randrange(2)
            self.again(rng, scn["frames"], i, k, 0.4)
        if rng.random() < 0.1:
            scn["frames"][0]["allowed"] = rng.randrange(300)
        scn["traffic"] = self.traffic(rng, k, rng.choice((0, 5, 30)))
        if rng.random() < 0.5:
            for _ in range(rng.randrange(1, 30)):
                scn["traffic"].insert(rng.randrange(len(scn["traffic"]) + 1), axil.r(rng, e2e.BASE + 4 * (0x1000 + rng.randrange(8))))
        if rng.random() < 0.12:
            scn["rst"] = [[rng.randrange(500), rng.randrange(1, 4)]]
        return scn

    def execute(self, scn, st):
        lo, hi = [0] * 8, [0] * 8
        hl, hh = {}, {}
        state = [0, 0, 0, 0]        # a frame is in progress, one was ever, frames started
        got = {}
        check = self

        class O(e2e.Opt):
            final = [["r", e2e.BASE + 4 * (0x1000 + k), 0, -1, 0] for k in range(8)]

            def tap(cyc, off, ready=0, v=0, rd=0, la=0, n=1):
                if off is None:
                    lo[:] = hi[:] = [0] * 8
                    state[:] = [0, 0, 0, 0]
                    got.clear()
                else:
                    if off and not state[0]:
                        state[0] = state[1] = 1
                        state[2] += 1
                    if state[1] and not la:
                        for k, b in enumerate((not off, off, not v, v, not ready, ready, not rd, rd)):
                            if b:
                                hi[k] += n
                                if state[0]:
                                    lo[k] += n
                    if la and v and rd:
                        state[0] = 0
                if len(hl) > 200000:        # bus operations take less than 50000 cycles
                    for c in [c for c in hl if c < cyc - 50000]:
                        del hl[c], hh[c]
                hl[cyc], hh[cyc] = tuple(lo), tuple(hi)
                state[3] = cyc

            def onlog(log):
                for e in log:
                    a = e[1][1] >> 2 & 0x1FFF
                    if e[1][0] == "r" and a & 0x1000 and e[2] == 0:
                        k = a & 7
                        st.add("counters_read")
                        tol = 4 * (state[2] + 1)
                        if not hl[e[4]][k] - tol <= e[3] <= hh[e[5]][k] + tol:
                            raise Violation("wrong-debug-counter", "%s read as %d, %d to %d such cycles so far" % (check.NAMES[k], e[3], hl[e[4]][k], hh[e[5]][k]), e[5])
                        got[k] = (e[4], e[3])
        h = e2e.run(self, scn, st, type("O2", (O,), {"tap": staticmethod(O.tap), "onlog": staticmethod(O.onlog)}))
        if len(got) == 8 and self.sims and scn["design"] == "beta_axis_dbg":
            # all cores are idle: Beta's counters stand still, and each pair splits the same time
            s = [got[k][1] + got[k + 1][1] for k in (0, 2, 4, 6)]
            if max(s) - min(s) > 4 * (state[2] + 1):
                raise Violation("counter-pairs-differ", "sums %s" % s)
        return h


class C22(Stream):
    """the cores as shipped: constant geometry and budget (4096 x 3072, 6666000 cycles)"""
    pid = "C22"
    runs = {"quick": 16, "thorough": 120}
    faults = dict(FAULTS, **FORCE)
    required = ["sink_stall_cycles", "source_gap_cycles", "forced_ends", "complete_frames"]
    stub = "pixel source and word sink are simulated; the register file is the real one"
    TOPS = ("beta_axis_full", "beta_fifo_axis_full", "beta_lvds_full")
    W, H, BUDGET = 4096, 3072, 6666000
    rule = "a run is one or two full-size frames with their gaps and stalls; distinct: by hash of the handshake trace"

    def designs(self, tier, seed):
        return [(t, None) for t in self.TOPS]

    def prepare(self, tier, seed):
        ref.selftest(seed)
        Stream.prepare(self, tier, seed)

    def frame(self, rng, part=None):
        f = {"w": self.W, "h": self.H, "g": [rng.randrange(1 << 30), "camera"], "allowed": self.BUDGET}
        if part:
            f["part"] = part
        return f

    def generate(self, rng, tier, idx):
        m = idx % 8
        full = m in (0, 4, 5)
        scn = {"design": self.TOPS[1 if m == 4 else 2 if m == 5 else 0], "warp": 1}
        k = e2e.kind_of(scn)
        if full:
            # a complete frame; gaps and stalls within (about) what the budget leaves
            scn["frames"] = [self.frame(rng)]
            scn["gaps"] = [0] * rng.randrange(1, 200000) + [rng.randrange(60000)]
            t = 0
            s = []
            while t < 60000:
                a, b = rng.choice((1, 3, 40, 1000, 100000)), rng.choice((1, 1, 2, 9, 600, 20000))
                s += [a, b]
                t += b + a // 50
            scn["sink"] = s
            if m == 5 or m == 4:
                # content that always fits into the budget: a forced end would be a violation
                del scn["frames"][0]["allowed"]
                scn["frames"][0]["calm"] = 1
        else:
            # the budget runs out while the source or the sink waits; what follows starts cleanly
            n = rng.choice((1, 2))
            scn["frames"] = []
            gaps, sink = [], []
            for _ in range(n):
                beats = rng.choice((rng.randrange(3, 50), rng.randrange(3, 4000), rng.randrange(2048, 20000)))
                scn["frames"].append(self.frame(rng, beats * k.ppb))
                d = self.BUDGET + rng.randrange(1000)
                gaps += [0] * (beats - 1 if gaps else beats) + [d]
            scn["gaps"] = gaps
            if rng.random() < 0.5:
                scn["sink"] = [rng.randrange(beats), rng.randrange(self.BUDGET)]
        return scn

    def valid(self, scn):
        return True

    def shrink(self, scn):
        return ()

    def execute(self, scn, st):
        h = Stream.execute(self, scn, st)
        st.add("complete_frames", sum(1 for f in scn["frames"] if "part" not in f))
        return h


class C29(Axil):
    """no cycle is lost: one beat a cycle in, one converter step or one word a cycle, waits outside cost at most themselves"""
    pid = "C29"
    runs = {"quick": 6000, "thorough": 120000}
    TOPS = ("beta_axis", "beta_fifo_axis", "beta_lvds", "micro_axis", "beta_axis", "int3_axis", "beta_axis_axil")
    faults = dict(FAULTS, **BUS)
    required = Axil.required + ["frames_timed", "refused", "refused_full"]
    assumptions = Axil.assumptions + ["the allowance above the sum of the stages' own times is measured, not documented: see DESIGN.md"]
    stub = "register_file's constants are inputs of the harness where it is used; pixel source, word sink and AXI-lite master are simulated"
    # converter step (bits), output stage's pace (cycles per word at worst), constant and relative allowance
    PACE = {"beta_axis": (30, 1, 60, 0.005), "beta_axis_axil": (30, 1, 60, 0.005), "beta_fifo_axis": (30, 1, 70, 0.005),
            "beta_lvds": (30, 1.2, 70, 0.005), "micro_axis": (15, 1.55, 65, 0.02), "int3_axis": (48, 1, 40, 0.005)}
    DEPTH = {"micro_axis": (512, 1024), "int3_axis": (128, 256)}      # entries of the two FIFOs; the others have 512 and 512
    SLACK = 24       # entries of each FIFO that may be unused when a beat is refused
    START = 40       # cycles after the previous frame's last word (or the end of the programming) until a waiting source's first beat is taken

    def designs(self, tier, seed):
        return [(t, None) for t in sorted(set(self.TOPS))]

    def classes(self, rng, n, bd):
        """pixels whose differences are of few classes: the load of the stages is chosen, not left to chance"""
        cl = [rng.randrange(bd + 1) for _ in range(rng.choice((1, 1, 2, 2, 3, 6)))]
        prob = rng.choice((0, 0.5, 0.9))
        top = 1 << bd
        last, out = [top >> 1] * 4, []
        for i in range(n):
            c = cl[0] if rng.random() < prob else rng.choice(cl)
            p = last[i & 3]
            d = rng.randrange(1 << (c - 1), 1 << c) if c else 0
            q = p + d if rng.random() < 0.5 else p - d
            if not 0 <= q < top:
                q = 2 * p - q
            if 0 <= q < top:
                p = q
            last[i & 3] = p
            out.append(p)
        return out

    def generate(self, rng, tier, idx):
        top = self.TOPS[idx // 8 % len(self.TOPS)]
        scn, k = self.base(top)
        fr = scn["frames"] = []
        size = 20000 if idx % 100 == 3 else 3000 if rng.random() < 0.3 else rng.choice((60, 400, 400))
        for _ in range(1 if size > 400 or top == "beta_lvds" else rng.randrange(1, 5)):
            w = k.ppb * rng.randrange(4, 40 if size < 1000 else 300)
            w = max(w, e2e.min_width(k, 2))
            h = max(2, rng.randrange(size // 2, size + 1) * k.ppb // w)
            f = {"w": w, "h": h}
            if rng.random() < 0.5:
                f["pix"] = self.classes(rng, w * h, k.bd)
            else:
                f["g"] = [rng.randrange(1 << 30), rng.choice((0, 1, 2, 3, 4, 5, 6, 7, "camera"))]
            if k.axil:
                f["ps"] = rng.randrange(1 << 20) * rng.randrange(2)
                f["keep"] = 1
            fr.append(f)
        x = rng.random()
        nb = sum(e2e.nbeats_of(k, f) for f in fr)
        if x > 0.85:
            e2e.gen_env(rng, scn, k)
        elif x > 0.8 or size > 400 and x > 0.6:
            # the sink stops for long enough to fill everything
            scn["sink"] = [rng.randrange(1, nb // 2), rng.randrange(1500, 3500)] + [rng.randrange(1, nb // 2), rng.randrange(10, 3000)] * rng.randrange(2)
        elif x > 0.7:
            # a few waits only: each must cost no more than itself
            if rng.random() < 0.7:
                scn["gaps"] = [0] * rng.randrange(nb) + [rng.randrange(1, 300)]
            if rng.random() < 0.7:
                scn["sink"] = [rng.randrange(2 * nb), rng.randrange(1, 300)]
        scn["junk"] = rng.randrange(1 << 30) * rng.randrange(2)
        if k.axil:
            scn["traffic"] = self.traffic(rng, k, rng.choice((0, 0, 20)))
        return scn

    def least(self, k, top, pix, w):
        """cycles the slowest combination of stages needs, and the load the estimate's allowance is for"""
        conv, eff, const, rel = self.PACE[top]
        codes = ref.encode_bits(pix, w, k.bd)
        ps, nby = k.ps, min(k.obits, 32 if not k.framed else 16) // 8
        cost = [nby + (x.to_bytes(nby, "big").count(255) if k.framed else 0) for x in ref.words(codes, nby * 8)]
        # three stations in a row: pixels in, converter steps, output words (which also take at most one step a cycle)
        a = b = bits = steps = 0
        wb = 8 * nby
        for i in range(0, len(pix), ps):
            n = sum(c[1] for c in codes[i:i + ps])
            s = -(-n // conv)
            steps += s
            a = max(a, i // ps) + s
            w0, bits = bits, bits + n
            out = sum(cost[w0 // wb:bits // wb]) / nby
            b = max(b, a) + max(s, out * eff)
        beats = len(pix) // ps
        light = steps < 1.05 * beats and sum(cost) * eff / nby < 0.9 * beats
        return b, const + b * (min(rel, 0.005) if light else rel)

    def execute(self, scn, st):
        k = e2e.kind_of(scn)
        top = scn["design"]
        frames = scn["frames"]
        # frame, cycle of its first beat, beats taken, waits since then, wait of the first beat,
        # words taken, cycles the beat is being refused, cycles the word waits, core beats whose bits are all out
        s = [0, -1, 0, 0, 0, 0, 0, 0, 0]
        depth, cdepth = self.DEPTH.get(top, (512, 512))
        conv, nogaps, memo = self.PACE[top][0], not any(scn.get("gaps", ())), {}
        nbs = [e2e.nbeats_of(k, f) for f in frames]
        mine = self

        def end(cyc):
            f = frames[s[0]]
            least, more = mine.least(k, top, e2e.pixels(k, f), f["w"])
            took = cyc - s[1] + 1
            st.add("frames_timed")
            if took > least + more + s[3]:
                raise Violation("too-slow", "frame %d of %d beats took %d cycles: the slowest stage needs %d, the sink and the source waited for %d, %d more are allowed" % (
                    s[0], nbs[s[0]], took, least, s[3], more), cyc)
            s[:] = [s[0] + 1, -1, 0, 0, 0, 0, 0, 0, 0]
            memo.clear()

        def refused(cyc):
            """a beat is refused: the input FIFO must be (nearly) full, and behind a long stop of the sink the other one as well"""
            f = frames[s[0]]
            if not memo:
                pix = e2e.pixels(k, f)
                codes = ref.encode_bits(pix, f["w"], k.bd)
                n = memo["bits"] = [sum(c[1] for c in codes[i:i + k.ps]) for i in range(0, len(pix), k.ps)]
                memo["ends"] = list(itertools.accumulate(n))
                # bytes at the output up to and including each 16-bit word of the encoding
                memo["out"] = k.framed and list(itertools.accumulate(2 + x.to_bytes(2, "big").count(255) for x in ref.words(codes, 16)))
            bits = s[5] * k.obits
            if k.framed:
                bits = 16 * bisect.bisect_right(memo["out"], bits // 8 - 16)
            ends, n, j = memo["ends"], memo["bits"], s[8]
            while j < len(ends) and ends[j] <= bits:
                j += 1
            s[8] = j
            need = depth - mine.SLACK
            full = nogaps and s[7] >= cdepth + 100
            if full:
                room = cdepth - mine.SLACK
                while j < len(n) and room > 0:
                    room -= -(-n[j] // conv)
                    need += 1
                    j += 1
            have = s[2] * k.ppb // k.ps - s[8]
            st.add("refused_full" if full else "refused")
            if have < need:
                raise Violation("refused", "frame %d, beat %d is refused although at most %d of at least %d beats are waiting inside" % (s[0], s[2], have, need), cyc)

        class O(e2e.Opt):
            def tap(cyc, off, ready=0, v=0, rd=0, la=0, n=1):
                if s[0] >= len(frames) or off is None:
                    return
                if s[1] < 0:
                    if off and ready:
                        s[1], s[2] = cyc, 1
                    elif off:
                        s[4] += n
                        if s[4] > mine.START:
                            raise Violation("late-start", "frame %d: its first beat waits for %d cycles" % (s[0], s[4]), cyc)
                    return
                if off and ready:
                    s[2] += 1
                    s[6] = 0
                elif not off and s[2] < nbs[s[0]]:
                    s[3] += n
                elif s[2] < nbs[s[0]]:
                    s[6] += n
                    if s[6] >= 4 and cyc > s[1] + mine.START:
                        refused(cyc)
                if v and rd:
                    s[5] += 1
                    s[7] = 0
                if v and not rd:
                    s[3] += n
                    s[7] += n
                elif v and k.lvds:
                    s[4] = cyc
                if v and rd and la and not k.lvds:
                    end(cyc)
        h = e2e.run(self, scn, st, type("O2", (O,), {"tap": staticmethod(O.tap)}))
        if k.lvds and s[1] >= 0:
            end(s[4])
        return h
