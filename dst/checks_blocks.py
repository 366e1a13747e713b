"""Blocks on their own, between a simulated source and sink (inputs the whole core cannot produce, far more runs)."""
import random
from math import ceil
import core, e2e, ref, stage
from core import Check, Violation
from checks_stream import FAULTS, RST

ASSUME = ["a clean batch is evidence, not proof: schedules are sampled", "two-state simulation, one clock"]
RULE = "a run is one scenario (items, source gaps, sink stalls, resets); non-trivial: at least one gap, stall or reset fired; " \
       "distinct: by hash of the per-cycle handshake trace"


class Block(Check):
    assumptions = ASSUME
    rule = RULE
    faults = dict(FAULTS, **RST)
    required = ["sink_stall_cycles", "source_gap_cycles", "items"]
    stub = "source and sink of the block are simulated"

    def env(self, rng, scn, n, m=None):
        scn["gaps"] = e2e.gen_gaps(rng, n) if n else []
        scn["sink"] = e2e.gen_runs(rng, 2 * (m or n) + 20)
        if rng.random() < 0.5:
            scn["junk"] = rng.randrange(1, 1 << 30)
        return scn

    def valid(self, scn):
        return all(len(x) == 2 and x[1] >= 1 for k in ("rst", "crst") for x in scn.get(k, []))


def words(rng, n, bits):
    """bit patterns rich in boundaries"""
    m = rng.randrange(4)
    mx = (1 << bits) - 1
    if m == 0:
        return [rng.randrange(mx + 1) for _ in range(n)]
    if m == 1:
        return [rng.choice((0, mx, rng.randrange(mx + 1))) for _ in range(n)]
    if m == 2:
        return [(i * 0x0101010101010101 + i) & mx for i in range(1, n + 1)]
    return [int("".join(rng.choice(("ff", "00", "%02x" % rng.randrange(256))) for _ in range(bits // 8)), 16) for _ in range(n)]


class C15(Block):
    """width converters"""
    pid = "C15"
    runs = {"quick": 40000, "thorough": 700000}
    real = "b16_b40, b16_b64, b64_b32, b64_b32_2"
    KINDS = ("b16_b40", "b16_b64", "b64_b32", "b64_b32_2")
    required = Block.required + ["resets"]

    def designs(self, tier, seed):
        return [(k, None) for k in self.KINDS]

    def generate(self, rng, tier, idx):
        d = self.KINDS[idx // 8 % 4]
        bits = 16 if d.startswith("b16") else 64
        n = 20 * e2e.many(rng, idx) or rng.choice((rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(60, 300)))
        scn = {"design": d, "items": words(rng, n, bits)}
        if d == "b16_b64" and rng.random() < 0.5:
            scn["ends"] = sorted({rng.choice((n - 1, rng.randrange(n))) for _ in range(rng.randrange(1, 4))})
        self.env(rng, scn, n)
        if rng.random() < 0.2:
            scn["rst"] = sorted([rng.randrange(3 * n + 10), rng.randrange(1, 3)] for _ in range(rng.randrange(1, 3)))
        if d in ("b16_b40", "b64_b32_2") and rng.random() < 0.3:
            # the core's self reset at the end of a frame must not touch the converter
            scn["crst"] = sorted([rng.randrange(3 * n + 10), 1] for _ in range(rng.randrange(1, 6)))
        return scn

    def valid(self, scn):
        m = (1 << (16 if scn["design"].startswith("b16") else 64)) - 1
        return Block.valid(self, scn) and all(0 <= x <= m for x in scn["items"])

    def execute(self, scn, st):
        d, it = scn["design"], scn["items"]

        class S(stage.Spec):
            iports, oports = ("data_in",), ("data_out",)
            crst = "core_rst"
        if d == "b16_b64":
            S.iports = ("data_in", "end_in")
            ends = set(scn.get("ends", []))         # the end of a frame moves no data
            items = [(x, 1 if i in ends else 0) for i, x in enumerate(it)]
            exp = [(it[i] << 48 | it[i + 1] << 32 | it[i + 2] << 16 | it[i + 3],) for i in range(0, len(it) - 3, 4)]
        elif d == "b16_b40":
            items = [(x,) for x in it]
            b = b"".join(x.to_bytes(2, "big") for x in it)
            exp = [(int.from_bytes(b[i:i + 5], "big"),) for i in range(0, len(b) - 4, 5)]
        elif d == "b64_b32":
            items = [(x,) for x in it]
            exp = [(y,) for x in it for y in (x >> 32, x & 0xFFFFFFFF)]
        else:
            items = [(x,) for x in it]
            exp = [(y,) for x in it for y in (x >> 40 & 0xFFFFFF, x >> 16 & 0xFFFFFF)]
        stage.run(self, scn, st, S, items, exp)


class C20(Block):
    """byte stuffing and framing of arbitrary word streams"""
    pid = "C20"
    runs = {"quick": 20000, "thorough": 700000}
    real = "fix_0xff, fix_0xff2, markers (connected by their handshakes)"
    required = Block.required + ["resets", "forced_ends", "stuffed_bytes"]
    faults = dict(Block.faults, forced_ends="the forced end is raised at an arbitrary cycle")

    def designs(self, tier, seed):
        return [("out_stage", None)]

    def generate(self, rng, tier, idx):
        n = 20 * e2e.many(rng, idx) or rng.choice((1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(60, 400)))
        p = rng.random()
        it = [(rng.choice((255, 255, 0, 254)) if rng.random() < p else rng.randrange(256)) << 8 |
              (rng.choice((255, 255, 0, 254)) if rng.random() < p else rng.randrange(256)) for _ in range(n)]
        scn = {"design": "out_stage", "items": it}
        self.env(rng, scn, n)
        if rng.random() < 0.2:
            scn["rst"] = sorted([rng.randrange(3 * n + 40), 1] for _ in range(rng.randrange(1, 3)))
        elif rng.random() < 0.25:
            scn["fend"] = rng.randrange(3 * n + 30)
        return scn

    def valid(self, scn):
        return Block.valid(self, scn) and bool(scn["items"]) and all(0 <= x < 65536 for x in scn["items"])

    def execute(self, scn, st):
        it = scn["items"]
        body = ref.stuffed(it)
        st.add("stuffed_bytes", 2 * len(body) - 2 * len(it))
        exp = [(0xFFFF, 0)] * 8 + [(x, 0) for x in body] + [(0xFFFF, 0)] * 7 + [(0xFFFF, 1)]
        items = [(x, 0) for x in it[:-1]] + [(it[-1], 1)]
        if "fend" in scn:
            return self.forced(scn, st, items, [e for e in exp])

        class S(stage.Spec):
            iports, oports = ("data_in", "end_in"), ("data_out", "end_out")
        stage.run(self, scn, st, S, items, exp)

    def forced(self, scn, st, items, exp):
        """the forced end is raised at cycle fend and stays up until the reset"""
        s = self.sim(scn["design"])
        I, O = s.i, s.o
        sink, gaps = scn.get("sink", []), scn.get("gaps", [])
        fend = scn["fend"]
        budget = sum(sink) + sum(gaps) + 20 * len(exp) + fend + 200
        k = n = f = gi = 0
        wait = gaps[0] if gaps else 0
        off = 0
        pv = None
        fresh = True
        si, sleft, sready = 0, (sink[0] if sink else -1), 1
        cyc = 0
        tail = 0
        h = 7
        while True:
            if not off and k < len(items):
                if wait:
                    wait -= 1
                else:
                    off = 1
            I[s.ii["valid_in"]] = off
            if off:
                I[s.ii["data_in"]], I[s.ii["end_in"]] = items[k]
            while sleft == 0:
                si += 1
                sready ^= 1
                if si < len(sink):
                    sleft = sink[si]
                else:
                    sleft, sready = -1, 1
            if sleft > 0:
                sleft -= 1
            rd = sready
            I[s.ii["i_busy"]] = 1 - rd
            I[s.ii["fend"]] = 1 if cyc >= fend else 0
            s.step()
            if off and not O[s.oi["o_busy"]]:
                k += 1
                off = 0
                gi += 1
                wait = gaps[gi] if gi < len(gaps) else 0
            v, d, la = O[s.oi["valid_out"]], O[s.oi["data_out"]], O[s.oi["end_out"]]
            h = ((h ^ (v * 2 + rd + 4 * off)) * 16777619) & 0xFFFFFFFF
            if pv is not None and (not v or (d, la) != pv):
                raise Violation("valid-withdrawn", "%04x/%d was offered, then %d %04x/%d" % (pv + (v, d, la)), cyc)
            pv = (d, la) if v and not rd else None
            if v and rd:
                if f >= 8 or (f == 0 and n == len(exp)):
                    raise Violation("extra-output", "%04x after the end" % d, cyc)
                if f == 0 and d == 0xFFFE and cyc >= fend and 8 <= n <= len(exp) - 8:
                    # body words never look like this here: 0xFF is followed by 0x00 ... but may start a word
                    f = 1
                elif f:
                    if d != 0xFFFE or la != (f == 7):
                        raise Violation("bad-forced-marker", "word %d of the forced end: %04x last=%d" % (f, d, la), cyc)
                    f += 1
                else:
                    if (d, la) != exp[n]:
                        raise Violation("wrong-output", "output %d: %04x/%d, expected %04x/%d" % ((n, d, la) + exp[n]), cyc)
                    n += 1
            # a body word offered before the forced end took effect may still be taken; no other
            if v and d != 0xFFFE and f == 0 and 8 <= n - (1 if rd else 0) < len(exp) - 8 and fresh and cyc > fend + 3:
                raise Violation("forced-end-missed", "body word %d offered %d cycles after the forced end was raised" % (n, cyc - fend), cyc)
            fresh = not v or rd
            cyc += 1
            if (f == 8 or n == len(exp)) and sleft < 0:
                tail += 1
                if tail > 30:
                    break
            if cyc > budget:
                raise Violation("no-progress", "%d outputs, forced end %d/8 after %d cycles" % (n, f, cyc), cyc)
        if f:
            st.add("forced_ends")
        st.add("cycles", cyc)
        st.add("items", len(items))
        st.seen("runs", h)


class C21(Block):
    """variable-length words -> fixed words (FIFO, converter, FIFO, bit packer), any lengths, any configuration"""
    pid = "C21"
    configs = True
    runs = {"quick": 24000, "thorough": 250000}
    real = "lj92_pipeline_fifo, converter, converter_fifo, vbits_to_cbits, wired by integration_2 and integration_3"
    stub = "the pixel pipeline is replaced by arbitrary words of the harness (with its latency); source and sink are simulated"
    FIXED = [
        {"bd": 12, "ps": 2, "fifo": 512, "out": 16, "conv": 30, "cfifo": 512, "buf": 77},
        {"bd": 12, "ps": 4, "fifo": 128, "out": 32, "conv": 48, "cfifo": 256, "buf": 144},
        {"bd": 12, "ps": 1, "fifo": 512, "out": 16, "conv": 15, "cfifo": 1024, "buf": 41},
        {"bd": 16, "ps": 4, "fifo": 25, "out": 64, "conv": 124, "cfifo": 8, "buf": 188},
        {"bd": 16, "ps": 1, "fifo": 25, "out": 8, "conv": 7, "cfifo": 12, "buf": 15},
        {"bd": 2, "ps": 1, "fifo": 26, "out": 8, "conv": 3, "cfifo": 13, "buf": 11},
        {"bd": 15, "ps": 2, "fifo": 33, "out": 40, "conv": 62, "cfifo": 8, "buf": 102},
        {"bd": 10, "ps": 1, "fifo": 25, "out": 32, "conv": 1, "cfifo": 33, "buf": 33},
    ]

    def designs(self, tier, seed):
        import checks_stream
        r = random.Random("cfg21|%s" % seed)
        cs = self.FIXED + [checks_stream.C07.rand_cfg(r) for _ in range(20 if tier == "quick" else 60)]
        self.cc = cs
        return [("repack", c) for c in cs]

    def generate(self, rng, tier, idx):
        p = self.cc[idx // 8 % len(self.cc)]
        tot = min(31, 16 + p["bd"]) * p["ps"]
        n = 10 * e2e.many(rng, idx) or rng.choice((1, 2, 3, rng.randrange(1, 20), rng.randrange(20, 200), rng.randrange(1, 20)))
        if rng.random() < 0.08:
            n = min(1500, p["fifo"] * 2 + p["cfifo"] * p["conv"] // 8 + 20)
        m = rng.randrange(6)
        c = p["conv"]
        lens = [[rng.randrange(1, tot + 1), tot, rng.choice([x for x in (1, c - 1, c, c + 1, 2 * c, 2 * c + 1, tot) if 1 <= x <= tot]),
                 min(tot, 1 + int(rng.expovariate(0.2))), rng.choice((1, tot)), 1][m] for _ in range(n)]
        lens = [max(1, l) for l in lens]
        scn = {"design": "repack", "params": p, "items": [[l, rng.choice((0, (1 << l) - 1, rng.randrange(1 << l), rng.randrange(1 << l)))] for l in lens]}
        self.env(rng, scn, n, sum(lens) // p["out"] + n)
        if rng.random() < 0.15:
            scn["rst"] = sorted([rng.randrange(3 * n + 40), 1] for _ in range(rng.randrange(1, 3)))
        return scn

    def valid(self, scn):
        p = scn["params"]
        tot = min(31, 16 + p["bd"]) * p["ps"]
        return Block.valid(self, scn) and bool(scn["items"]) and all(len(x) == 2 and 1 <= x[0] <= tot and 0 <= x[1] < 1 << x[0] for x in scn["items"])

    def shrink(self, scn):
        it = scn["items"]
        n = len(it)
        k = n
        while k >= 1:
            for a in range(0, n, k):
                if k < n:
                    yield dict(scn, items=it[:a] + it[a + k:])
            k //= 2
        for i, (l, c) in enumerate(it):
            if c:
                yield dict(scn, items=it[:i] + [[l, 0]] + it[i + 1:])
            for l2 in (1, l // 2, l - 1):
                if 1 <= l2 < l:
                    yield dict(scn, items=it[:i] + [[l2, c & ((1 << l2) - 1)]] + it[i + 1:])
        rest = {k: v for k, v in scn.items() if k not in ("items", "params", "design")}
        for c in core.generic_shrink(rest):
            yield dict(scn, **c)

    def execute(self, scn, st):
        p = scn["params"]
        it = scn["items"]
        ws = ref.words([(c, l) for l, c in it], p["out"])
        exp = [(w, 1 if i == len(ws) - 1 else 0) for i, w in enumerate(ws)]
        items = [(c, l, 1 if i == len(it) - 1 else 0) for i, (l, c) in enumerate(it)]

        class S(stage.Spec):
            iports, oports = ("data_in", "ctr", "end"), ("data_out", "end_out")
            budget_per_item = 24 + 4 * min(31, 16 + p["bd"]) * p["ps"] // p["conv"]
        stage.run(self, scn, st, S, items, exp)
        st.seen("configurations", str(sorted(p.items())))


class Fifo(Block):
    pass


class C16(Block):
    """FIFOs: order, no loss, and the room they promise"""
    pid = "C16"
    configs = True
    runs = {"quick": 24000, "thorough": 400000}
    real = "axihp_fifo, lj92_pipeline_fifo, converter_fifo"
    faults = {"stall_cycles": "the reader does not read", "pushes_after_close": "words pushed although the FIFO already said it closes", "resets": "reset while words are stored"}
    required = ["stall_cycles", "pushes_after_close", "full_level_runs", "items", "resets"]
    FIX = [("axihp_fifo", None), ("pipe_fifo", {"bd": 12, "ps": 2, "depth": 512}), ("pipe_fifo", {"bd": 16, "ps": 1, "depth": 25}),
           ("pipe_fifo", {"bd": 2, "ps": 4, "depth": 26}), ("pipe_fifo", {"bd": 16, "ps": 4, "depth": 64}),
           ("conv_fifo", {"bd": 12, "ps": 2, "conv": 30, "depth": 512}), ("conv_fifo", {"bd": 16, "ps": 4, "conv": 124, "depth": 8}),
           ("conv_fifo", {"bd": 16, "ps": 1, "conv": 7, "depth": 12}), ("conv_fifo", {"bd": 8, "ps": 2, "conv": 1, "depth": 60})]

    def designs(self, tier, seed):
        return self.FIX

    def generate(self, rng, tier, idx):
        d, p = self.FIX[idx // 8 % len(self.FIX)]
        depth = p["depth"] if p else 32
        scn = {"design": d, "seed": rng.randrange(1 << 30)}
        if p:
            scn["params"] = p
        n = 20 * e2e.many(rng, idx) or rng.choice((rng.randrange(1, 20), rng.randrange(1, depth + 40), rng.randrange(1, 3 * depth)))
        scn["n"] = n
        scn["push"] = e2e.gen_runs(rng, n + 20)
        scn["pull"] = e2e.gen_runs(rng, 2 * n + 20)
        scn["mode"] = rng.randrange(2)
        if rng.random() < 0.15:
            scn["cut"], scn["cutlen"] = rng.randrange(2 * n + 3), rng.randrange(1, 3)
        return scn

    def execute(self, scn, st):
        s = self.sim(scn["design"], scn.get("params"))
        if "cut" in scn:
            self.life(s, scn, st, scn["cut"])
            s.i[s.ii["full_rst"]] = 1
            for _ in range(scn["cutlen"]):
                s.step()
            s.i[s.ii["full_rst"]] = 0
            st.add("resets", 1)
        self.life(s, scn, st, None)

    def life(self, s, scn, st, cut):
        I, O = s.i, s.o
        hp = scn["design"] == "axihp_fifo"
        ports = ["data_in"] + ([] if hp else ["ctr_in"]) + ["end_in"]
        outs = ["data_out"] + ([] if hp else ["ctr_out"]) + ["end_out"]
        iw = [stage.len_of(s.meta["in"], x) for x in ports]
        ip = [s.ii[x] + j for x, (w, m) in zip(ports, iw) for j in range(m)]
        op = [s.oi[x] + j for x, (w, m) in zip(outs, [stage.len_of(s.meta["out"], x) for x in outs]) for j in range(m)]
        assert [w for w, m in iw] == [stage.len_of(s.meta["out"], x)[0] for x in outs]
        rng = random.Random(scn["seed"])
        n = scn["n"]
        items = [stage.flat([rng.choice((0, (1 << w) - 1, rng.randrange(1 << w))) for w, m in iw], iw) for _ in range(n)]
        p = scn.get("params")
        if hp:
            depth, promise = 32, 0
        elif scn["design"] == "pipe_fifo":
            depth, promise = p["depth"], 8          # the pipeline in front holds up to 8 words
        else:
            steps = ceil(min(31, 16 + p["bd"]) * p["ps"] / float(p["conv"]))
            depth, promise = p["depth"], steps + 1   # one whole input word, split, and its successor's first part
        push, pull = scn["push"], scn["pull"]
        pi, pleft, pon = 0, (push[0] if push else -1), 1
        qi, qleft, qon = 0, (pull[0] if pull else -1), 1
        k = g = 0
        closed_for = 0
        over = 0
        cyc = 0
        h = 1
        budget = sum(push) + sum(pull) + 8 * n + 200
        burst_in = burst_out = 0
        nst = npc = full = 0
        held = None
        while True:
            if cyc == cut:
                return
            while pleft == 0:
                pi += 1
                pon ^= 1
                pleft, pon = (push[pi], pon) if pi < len(push) else (-1, 1)
            if pleft > 0:
                pleft -= 1
            while qleft == 0:
                qi += 1
                qon ^= 1
                qleft, qon = (pull[qi], qon) if qi < len(pull) else (-1, 1)
            if qleft > 0:
                qleft -= 1
            # decisions use the flags as they are in this cycle
            s.eval()
            if hp:
                w16, r16, wr = O[s.oi["writable16"]], O[s.oi["readable16"]], O[s.oi["writable"]]
                if burst_in == 0 and w16 and pon and scn["mode"]:
                    burst_in = 16
                we = k < n and (burst_in > 0 or (pon and wr))
                if we and not wr:
                    raise Violation("burst-does-not-fit", "%d words of a burst of 16 written after room for 16 was promised, now full" % (16 - burst_in), cyc)
                if burst_in:
                    burst_in -= 1
                if burst_out == 0 and r16 and qon and scn["mode"]:
                    burst_out = 16
                re = burst_out > 0 or qon
                if burst_out and not O[s.oi["valid_out"]]:
                    raise Violation("burst-runs-dry", "%d words left of a burst of 16 that was promised" % burst_out, cyc)
                if burst_out:
                    burst_out -= 1
            else:
                cl = O[s.oi["close"]]
                if not cl:
                    over = 0
                we = k < n and pon and (not cl or over < promise)
                if we and cl:
                    over += 1
                    npc += 1
                re = qon
                if cl:
                    full = 1
            I[s.ii["valid_in"]] = 1 if we else 0
            if we:
                for a, x in zip(ip, items[k]):
                    I[a] = x
            I[s.ii["read"]] = 1 if re else 0
            s.step()
            if hp:
                full |= O[s.oi["writable"]] == 0
            v = O[s.oi["valid_out"]]
            got = tuple(O[a] for a in op)
            if held is not None and (not v or got != held):
                raise Violation("output-changed", "the front of the FIFO changed without a read", cyc)
            held = got if v and not re else None
            if v and not re:
                nst += 1
            if v and re:
                if g >= k:
                    raise Violation("word-from-nowhere", "read %d words, only %d written" % (g + 1, k), cyc)
                if got != items[g]:
                    raise Violation("wrong-word", "word %d: got %s, expected %s" % (g, stage.fmt(got), stage.fmt(items[g])), cyc)
                g += 1
            if we:
                k += 1
            h = ((h ^ (we * 1 + re * 2 + v * 4)) * 16777619) & 0xFFFFFFFF
            if cyc < 2000:
                st.seen("control_states", s.ctl())
            cyc += 1
            if k == n and g == n and qleft < 0:
                break
            if cyc > budget:
                raise Violation("no-progress", "%d written, %d read of %d after %d cycles" % (k, g, n, cyc), cyc)
        st.add("cycles", cyc)
        st.add("items", n)
        st.add("stall_cycles", nst)
        st.add("pushes_after_close", npc)
        st.add("full_level_runs", 1 if full else 0)
        if nst or npc:
            st.seen("runs", h)
