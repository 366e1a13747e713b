"""Buses: AXI-lite register blocks, the AXI3 bridge, the HP reader and writer and the DMA subsystem around them."""
import random
import core, e2e, axil, ref
from core import Check, Violation

ASSUME = ["a clean batch is evidence, not proof: schedules are sampled", "two-state simulation, one clock"]
BASES = (0x43C00000, 0, 0x7FFF8000, 0xFFFF8000)


class Runs:
    """alternating on/off run lengths: on() is called once per cycle (after the last: on for ever)"""

    def __init__(self, runs):
        self.r, self.k, self.v = runs, 0, 1
        self.left = runs[0] if runs else -1

    def on(self):
        while self.left == 0:
            self.k += 1
            self.v ^= 1
            if self.k < len(self.r):
                self.left = self.r[self.k]
            else:
                self.left, self.v = -1, 1
        if self.left > 0:
            self.left -= 1
        return self.v


class Regs(Check):
    """a register block driven by random programs"""
    assumptions = ASSUME + ["documented addresses only: one enable bit of the address map at a time"]
    rule = "a run is one program of bus operations with its timing and resets; non-trivial: a response was stalled, operations overlapped, " \
           "data preceded its address or a reset fired; distinct: by hash of the per-cycle handshake trace"
    faults = {"bus_stall_cycles": "the master delays the acceptance of a response", "data_before_address": "write data offered before the address",
              "overlapping": "a read and a write at the same time", "resets": "external reset at an arbitrary cycle"}
    required = ["bus_stall_cycles", "overlapping", "resets", "bus_ops"]
    stub = "the bus master is simulated"

    def valid(self, scn):
        return all(len(x) == 2 and x[1] >= 1 for x in scn.get("rst", [])) and all(len(o) == (8 if o[0] == "w" else 5) for o in scn["ops"])

    def shrink(self, scn):
        ops = scn["ops"]
        n = len(ops)
        k = n
        while k >= 1:
            for a in range(0, n, k):
                if k < n:
                    yield dict(scn, ops=ops[:a] + ops[a + k:])
            k //= 2
        for i, o in enumerate(ops):
            c = o[:-4] + [0, 0, -1, 0] if o[0] == "w" else o[:2] + [0, -1, 0]
            if c != o:
                yield dict(scn, ops=ops[:i] + [c] + ops[i + 1:])
        rest = {k: v for k, v in scn.items() if k not in ("ops", "params", "design")}
        for c in core.generic_shrink(rest):
            yield dict(scn, **c)

    def env(self, rng, scn):
        n = sum(axil.op_cost(o) + 10 for o in scn["ops"])
        if rng.random() < 0.25:
            scn["rst"] = sorted([rng.randrange(n), rng.randrange(1, 3)] for _ in range(rng.choice((1, 1, 2, 4))))
        scn["live"] = rng.randrange(1 << 20) * rng.randrange(2)
        return scn

    def loop(self, scn, st, model, live_init, live_step, live_value, outs):
        """live_*: inputs whose value a read may return; outs(O) compares the registers' outputs with the model"""
        s = self.sim(scn["design"], scn.get("params"))
        I, O = s.i, s.o
        host = axil.Master(s)
        rst = scn.get("rst", [])
        ops = [list(o) for o in scn["ops"]]
        host.load(ops)
        live = live_init(s)
        lr = random.Random("live/%s" % scn["live"]) if scn["live"] else None
        budget = sum(axil.op_cost(o) + 40 for o in ops) + 200 + sum(c + l + 10 for c, l in rst)
        ri = rleft = 0
        cyc = quiet = 0
        h = 1
        prev = None
        pend = []
        while True:
            if ri < len(rst) and not rleft and cyc >= rst[ri][0]:
                rleft = rst[ri][1]
                ri += 1
                st.add("resets")
                if host.log:
                    self.check(host, model, live_value)
                f = host.w
                if f is not None:
                    model.forget(f.op[1], f.op[2], f.op[3])
                left = ops[host.n:] if not pend else pend
                pend = left
                host.abort()
                I[s.ii["full_rst"]] = 1
            if not rleft:
                host.pre(cyc)
            live_step(s, lr)
            s.step()
            if cyc < 2000:
                st.seen("control_states", s.ctl())
            if rleft:
                rleft -= 1
                if not rleft:
                    I[s.ii["full_rst"]] = 0
                    model.reset()
                    ops = pend
                    pend = []
                    host.load(ops)
                    live = live_init(s, live)
                prev = None
                cyc += 1
                quiet = 0
                continue
            live_value(s, live, cyc)
            host.post(cyc)
            h = ((h ^ (O[host.o_arready] | O[host.o_rvalid] << 1 | O[host.o_awready] << 2 | O[host.o_wready] << 3 | O[host.o_bvalid] << 4 |
                       I[host.i_arvalid] << 5 | I[host.i_awvalid] << 6 | I[host.i_wvalid] << 7)) * 16777619) & 0xFFFFFFFF
            if host.log and host.r is None and host.w is None:
                self.check(host, model, live_value)
            vals = outs(O, s.oi, model, host.idle() and quiet > 4)
            if prev is not None and vals != prev and (host.w is None or host.w.tw < 0) and host.t_last < cyc - 1:
                raise Violation("register-changed-by-itself", "%s became %s with no write in flight" % (prev, vals), cyc)
            prev = vals
            cyc += 1
            if host.idle():
                quiet += 1
                if quiet > 12 and ri >= len(rst):
                    break
            else:
                quiet = 0
            if cyc > budget:
                raise Violation("no-response", "operation %s did not finish" % ((host.w or host.r).op if host.w or host.r else None), cyc)
        st.add("cycles", cyc)
        st.add("bus_ops", host.nops)
        st.add("bus_stall_cycles", host.nstall)
        st.add("data_before_address", host.ndata_first)
        st.add("overlapping", host.npar)
        if host.nstall or host.npar or rst or host.ndata_first:
            st.seen("runs", h)

    def check(self, host, model, live):
        for e in host.log:
            if e[1][0] == "r":
                w = model.live(e[1][1])
                if w is not None and e[2] == 0:
                    self.check_live(w, e)
        axil.check_history(host.log, model)
        host.log = []


class CoreRegs(axil.CoreMap):
    def forget(self, addr, data, strb):
        w = self.where(addr)
        if w and w[0] == "mem":
            self.mem[w[1]] = None

    def live(self, addr):
        w = self.where(addr)
        return w[1] if w and w[0] == "debug" else None


class C12(Regs):
    """the core's AXI-lite register block"""
    pid = "C12"
    configs = True
    runs = {"quick": 12000, "thorough": 250000}
    real = "core_axi_lite, debug_module, the Huffman memory of encode (inside the whole integration_3)"
    CFG = [{"bd": 12, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 12, "ps": 2, "fifo": 32, "out": 16, "conv": 30, "cfifo": 32, "buf": 77, "axil": True, "debug": False},
           {"bd": 16, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 2, "ps": 1, "fifo": 32, "out": 8, "conv": 9, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 11, "ps": 4, "fifo": 32, "out": 16, "conv": 40, "cfifo": 32, "buf": 77, "axil": True, "debug": True}]

    def designs(self, tier, seed):
        return [("regs", c) for c in self.CFG]

    def generate(self, rng, tier, idx):
        p = self.CFG[idx // 8 % len(self.CFG)]
        base = rng.choice(BASES)
        n = 5 * e2e.many(rng, idx) or rng.choice((rng.randrange(1, 8), rng.randrange(1, 30), rng.randrange(30, 80)))
        nm = 2 * (p["bd"] + 1)
        hot = [0x400 + rng.randrange(nm) for _ in range(2)]
        hot.append(hot[0] ^ 1)
        ops = []
        tm = rng.choice((None, None, 0, 1, 2))
        par = rng.random()
        for _ in range(n):
            x = rng.random()
            i = rng.choice(hot) if x < 0.3 else 0x400 + rng.randrange(nm) if x < 0.5 else rng.choice((0x800, 0x801)) if x < 0.8 else \
                0x1000 + rng.randrange(8) if x < 0.88 else 0x400 + rng.randrange(nm, 64) if x < 0.94 else rng.choice((rng.randrange(0x400), rng.randrange(nm))) | rng.choice((0, 0x2000))
            a = (base + 4 * i + (rng.randrange(4) if rng.random() < 0.1 else 0)) & 0xFFFFFFFF
            pp = 1 if rng.random() < par else 0
            if rng.random() < 0.5:
                ops.append(axil.w(rng, a, rng.choice((rng.randrange(1 << 32), 0xFFFFFFFF, 0)), rng.choice((15, 15, 3, 12, rng.randrange(16))), tm, pp))
            else:
                ops.append(axil.r(rng, a, tm, pp))
        return self.env(rng, {"design": "regs", "params": p, "ops": ops})

    def execute(self, scn, st):
        p = scn["params"]
        model = CoreRegs(p["bd"], axil.entries(p["bd"], ref.STD_SSSS), p["debug"])
        cnt = [0] * 8
        hist = {}
        self.hist = hist
        dbg = p["debug"]

        def init(s, old=None):
            for k in range(8):
                cnt[k] = 0
            if dbg:
                s.i[s.ii["debug_en"]] = 0
            return cnt

        def step(s, lr):
            if dbg and lr is not None and lr.random() < 0.3:
                s.i[s.ii["debug_en"]] = lr.randrange(256)

        def value(s, live, cyc):
            if dbg:
                hist[cyc] = tuple(cnt)
                e = s.i[s.ii["debug_en"]]
                if e:
                    for k in range(8):
                        if e >> k & 1:
                            cnt[k] += 1

        def outs(O, oi, m, settled):
            v = (O[oi["height"]], O[oi["width"]], O[oi["allowed"]])
            if settled:
                for got, want, name in ((v[0], None if m.hw is None else m.hw & 0xFFFF, "height"), (v[1], None if m.hw is None else m.hw >> 16, "width"),
                                        (v[2], m.allowed, "allowed cycles")):
                    if want is not None and got != want:
                        raise Violation("wrong-register-output", "%s is %d, written %d" % (name, got, want))
            return v
        self.loop(scn, st, model, init, step, value, outs)

    def check_live(self, k, e):
        lo = self.hist.get(e[4], (0,) * 8)[k]
        hi = self.hist.get(e[5], (1 << 40,) * 8)[k]
        if not lo <= e[3] <= hi:
            raise Violation("wrong-debug-counter", "counter %d read as %d, it went from %d to %d" % (k, e[3], lo, hi), e[5])


class DmaRegs:
    hw = allowed = 0

    def __init__(self):
        self.mem = [0, 0, 0]

    def where(self, addr):
        a = addr >> 2 & 0x1FFF
        return a & 15 if a & 0x400 else None

    def write(self, addr, data, strb):
        i = self.where(addr)
        if i is None:
            return axil.DECERR
        if i < 3:
            self.mem[i] = axil.CoreMap.merge(self.mem[i], data, strb)
            return axil.OKAY
        return axil.SLVERR if i < 12 and strb else None

    def read(self, addr):
        i = self.where(addr)
        if i is None:
            return axil.DECERR, None
        return axil.OKAY, self.mem[i] if i < 3 else None

    def reset(self):
        self.mem = [0, 0, 0]

    def forget(self, addr, data, strb):
        pass

    def live(self, addr):
        i = self.where(addr)
        return i - 2 if i is not None and 3 <= i < 12 else None


class C19(Regs):
    """the DMA's AXI-lite registers"""
    pid = "C19"
    runs = {"quick": 40000, "thorough": 800000}
    real = "dma_axi_lite"

    def designs(self, tier, seed):
        return [("dma_regs", None)]

    def generate(self, rng, tier, idx):
        base = rng.choice(BASES)
        n = 5 * e2e.many(rng, idx) or rng.choice((rng.randrange(1, 8), rng.randrange(1, 30), rng.randrange(30, 80)))
        ops = []
        tm = rng.choice((None, None, 0, 1, 2))
        par = rng.random()
        for _ in range(n):
            x = rng.random()
            i = 0x400 + rng.randrange(3) if x < 0.6 else 0x400 + rng.randrange(16) if x < 0.88 else rng.choice((rng.randrange(0x400), rng.randrange(16))) | rng.choice((0, 0x800, 0x1000, 0x2000))
            a = (base + 4 * i) & 0xFFFFFFFF
            pp = 1 if rng.random() < par else 0
            if rng.random() < 0.5:
                ops.append(axil.w(rng, a, rng.choice((rng.randrange(1 << 32), 0xFFFFFFFF, 0)), rng.choice((15, 15, 3, 12, rng.randrange(16))), tm, pp))
            else:
                ops.append(axil.r(rng, a, tm, pp))
        return self.env(rng, {"design": "dma_regs", "ops": ops})

    def execute(self, scn, st):
        model = DmaRegs()
        hist = self.hist = {}
        ins = [0] * 10

        def init(s, old=None):
            return ins

        def step(s, lr):
            if lr is not None and lr.random() < 0.4:
                k = lr.randrange(1, 10)
                ins[k] = lr.randrange(1 << 32)
                s.i[s.ii["in%d" % k]] = ins[k]

        def value(s, live, cyc):
            hist[cyc] = tuple(ins)

        def outs(O, oi, m, settled):
            v = (O[oi["read_addr"]], O[oi["write_addr"]], O[oi["start"]])
            if settled and list(v) != m.mem:
                raise Violation("wrong-register-output", "registers are %s, written %s" % (v, m.mem))
            return v
        self.loop(scn, st, model, init, step, value, outs)

    def check_live(self, k, e):
        vals = {self.hist[c][k] for c in range(e[4], e[5] + 1) if c in self.hist}
        if vals and e[3] not in vals:
            raise Violation("wrong-status", "status %d read as %08x, it was %s" % (k, e[3], " ".join("%08x" % v for v in vals)), e[5])


# ---- AXI3 bridge -----------------------------------------------------------------------------
class C14(Check):
    """AXI3 master (with IDs) -> bridge -> AXI-lite slave with independent read and write channels"""
    pid = "C14"
    runs = {"quick": 60000, "thorough": 1000000}
    assumptions = ASSUME + ["single-beat transfers; the slave handles one read and one write at a time (like the register blocks behind the bridge)"]
    rule = "a run is one set of master and slave delays; non-trivial: a channel stalled or a read and a write overlapped; distinct: by hash of the handshake trace"
    faults = {"slave_delay_cycles": "the slave delays an acceptance or a response", "master_delay_cycles": "the master delays an address, data or the acceptance of a response",
              "overlapping": "a read and a write in flight together"}
    required = ["slave_delay_cycles", "master_delay_cycles", "overlapping"]
    real = "axi_lite (the bridge)"
    stub = "AXI3 master and AXI-lite slave are simulated"

    def designs(self, tier, seed):
        return [("bridge", None)]

    def generate(self, rng, tier, idx):
        def d():
            m = rng.randrange(4)
            if rng.random() < 0.0002:
                return e2e.long_wait(rng)
            return 0 if m < 2 else rng.randrange(4) if m == 2 else rng.choice((0, 1, 7, 25))
        n = rng.choice((rng.randrange(0, 4), rng.randrange(0, 20)))
        k = rng.choice((rng.randrange(0, 4), rng.randrange(1, 20)))
        if e2e.many(rng, idx):
            n, k = 10 * e2e.many(rng, idx), 10 * e2e.many(rng, idx)
        # read: id, addr, prot | master: ar gap, rready | slave: arready, rvalid | data, resp
        return {"design": "bridge",
                "r": [[rng.randrange(4096), rng.randrange(1 << 32), rng.randrange(8), d(), d(), d(), d(), rng.randrange(1 << 32), rng.randrange(4)] for _ in range(n)],
                # write: id, addr, prot, data, strb | master: aw gap, w gap, bready | slave: awready, wready, bvalid | resp
                "w": [[rng.randrange(4096), rng.randrange(1 << 32), rng.randrange(8), rng.randrange(1 << 32), rng.randrange(16), d(), d(), d(), d(), d(), d(), rng.randrange(4)] for _ in range(k)],
                "junk": rng.randrange(1 << 30) * rng.randrange(2)}

    def valid(self, scn):
        return all(len(x) == 9 for x in scn["r"]) and all(len(x) == 12 for x in scn["w"])

    def execute(self, scn, st):
        s = self.sim("bridge")
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        R, W = scn["r"], scn["w"]
        budget = 100 + sum(20 + sum(x[3:7]) for x in R) + sum(20 + sum(x[5:11]) for x in W)
        junk = scn["junk"]
        lcg = junk
        # master read: AR may be offered for operation ra while the response of ra-1 is pending
        ra = rd = 0                 # addresses accepted / responses received by the master
        arw = R[0][3] if R else 0
        rrw = None
        aro = 0
        # slave read
        srs, srk, srw = 0, 0, R[0][5] if R else 0      # 0 waiting to accept, 1 delaying, 2 responding
        wa = ww = wd = 0
        aww = W[0][5] if W else 0
        www = W[0][6] if W else 0
        awo = wo = 0
        brw = None
        sws, swk = 0, 0
        saw = W[0][8] if W else 0
        sww = W[0][9] if W else 0
        sga = sgw = 0               # slave got address / data of operation swk
        sbw = 0
        cyc = 0
        h = 3
        nsl = nma = nov = 0
        while rd < len(R) or wd < len(W):
            if junk:
                lcg = (lcg * 1103515245 + 12345) & 0x7FFFFFFF
            j = lcg
            # ---- drive the master
            if ra < len(R) and not aro:
                if arw > 0:
                    arw -= 1
                    nma += 1
                else:
                    aro = 1
            I[ii["s_arvalid"]] = aro
            x = R[ra] if aro else None
            I[ii["s_arid"]] = x[0] if aro else j & 4095
            I[ii["s_araddr"]] = x[1] if aro else j
            I[ii["s_arprot"]] = x[2] if aro else j & 7
            rr = 0
            if rd < ra:
                if rrw is None:
                    rrw = R[rd][4]
                if rrw > 0:
                    nma += 1
                else:
                    rr = 1
            I[ii["s_rready"]] = rr
            if wa < len(W) and not awo:
                if aww > 0:
                    aww -= 1
                    nma += 1
                else:
                    awo = 1
            I[ii["s_awvalid"]] = awo
            x = W[wa] if awo else None
            I[ii["s_awid"]] = x[0] if awo else j & 4095
            I[ii["s_awaddr"]] = x[1] if awo else j
            I[ii["s_awprot"]] = x[2] if awo else j & 7
            if ww < len(W) and not wo and ww <= wd:
                if www > 0:
                    www -= 1
                    nma += 1
                else:
                    wo = 1
            I[ii["s_wvalid"]] = wo
            x = W[ww] if wo else None
            I[ii["s_wid"]] = x[0] if wo else j & 4095
            I[ii["s_wdata"]] = x[3] if wo else j
            I[ii["s_wstrb"]] = x[4] if wo else j & 15
            I[ii["s_wlast"]] = 1 if wo else j & 1
            br = 0
            if wd < wa and wd < ww:
                if brw is None:
                    brw = W[wd][7]
                if brw > 0:
                    nma += 1
                else:
                    br = 1
            I[ii["s_bready"]] = br
            # ---- drive the slave
            I[ii["m_arready"]] = 1 if srs == 0 and srw == 0 and srk < len(R) else 0
            I[ii["m_rvalid"]] = 1 if srs == 2 else 0
            I[ii["m_rdata"]] = R[srk][7] if srs == 2 else j
            I[ii["m_rresp"]] = R[srk][8] if srs == 2 else j & 3
            if sws == 0 and swk < len(W):
                I[ii["m_awready"]] = 1 if not sga and saw == 0 else 0
                I[ii["m_wready"]] = 1 if not sgw and sww == 0 else 0
            else:
                I[ii["m_awready"]] = I[ii["m_wready"]] = 0
            I[ii["m_bvalid"]] = 1 if sws == 2 else 0
            I[ii["m_bresp"]] = W[swk][11] if sws == 2 else j & 3
            s.step()
            o = O
            arv, arr = o[oi["m_arvalid"]], o[oi["s_arready"]]
            h = ((h ^ (aro | arr << 1 | arv << 2 | o[oi["s_rvalid"]] << 3 | rr << 4 | awo << 5 | wo << 6 | o[oi["s_bvalid"]] << 7 | br << 8 |
                       I[ii["m_awready"]] << 9 | I[ii["m_wready"]] << 10)) * 16777619) & 0xFFFFFFFF
            # ---- slave side of the read
            if srs == 0 and srk < len(R):
                if I[ii["m_arready"]] and arv:
                    if ra + (1 if aro else 0) <= srk:
                        raise Violation("read-from-nowhere", "the slave received a read that the master did not send", cyc)
                    if (o[oi["m_araddr"]], o[oi["m_arprot"]]) != (R[srk][1], R[srk][2]):
                        raise Violation("wrong-read-address", "read %d: address %08x prot %d, sent %08x %d" % (srk, o[oi["m_araddr"]], o[oi["m_arprot"]], R[srk][1], R[srk][2]), cyc)
                    srs, srw = (1, R[srk][6])
                elif srw > 0:
                    srw -= 1
                    nsl += 1
            elif srs == 1:
                if srw > 0:
                    srw -= 1
                    nsl += 1
                else:
                    srs = 2
            elif srs == 2 and o[oi["m_rready"]]:
                srs = 0
                srk += 1
                srw = R[srk][5] if srk < len(R) else 0
            # ---- master side of the read
            if o[oi["s_rvalid"]]:
                if rd >= ra + (1 if aro and arr else 0):
                    raise Violation("read-response-without-request", "", cyc)
                x = R[rd]
                got = (o[oi["s_rid"]], o[oi["s_rdata"]], o[oi["s_rresp"]], o[oi["s_rlast"]])
                if got != (x[0], x[7], x[8], 1):
                    raise Violation("wrong-read-response", "read %d: id %03x data %08x resp %d last %d, expected id %03x data %08x resp %d last 1" % ((rd,) + got + (x[0], x[7], x[8])), cyc)
                if rr:
                    rd += 1
                    rrw = None
            if rrw:
                rrw -= 1
            if aro and arr:
                ra += 1
                aro = 0
                arw = R[ra][3] if ra < len(R) else 0
            # ---- slave side of the write
            if sws == 0 and swk < len(W):
                if I[ii["m_awready"]] and o[oi["m_awvalid"]]:
                    if wa + (1 if awo else 0) <= swk:
                        raise Violation("write-from-nowhere", "the slave received a write that the master did not send", cyc)
                    if (o[oi["m_awaddr"]], o[oi["m_awprot"]]) != (W[swk][1], W[swk][2]):
                        raise Violation("wrong-write-address", "write %d: address %08x, sent %08x" % (swk, o[oi["m_awaddr"]], W[swk][1]), cyc)
                    sga = 1
                elif saw > 0:
                    saw -= 1
                    nsl += 1
                if I[ii["m_wready"]] and o[oi["m_wvalid"]]:
                    if ww + (1 if wo else 0) <= swk:
                        raise Violation("write-from-nowhere", "the slave received data that the master did not send", cyc)
                    if (o[oi["m_wdata"]], o[oi["m_wstrb"]]) != (W[swk][3], W[swk][4]):
                        raise Violation("wrong-write-data", "write %d: %08x/%x, sent %08x/%x" % (swk, o[oi["m_wdata"]], o[oi["m_wstrb"]], W[swk][3], W[swk][4]), cyc)
                    sgw = 1
                elif sww > 0:
                    sww -= 1
                    nsl += 1
                if sga and sgw:
                    sws, sbw = 1, W[swk][10]
                    sga = sgw = 0
            elif sws == 1:
                if sbw > 0:
                    sbw -= 1
                    nsl += 1
                else:
                    sws = 2
            elif sws == 2 and o[oi["m_bready"]]:
                sws = 0
                swk += 1
                if swk < len(W):
                    saw, sww = W[swk][8], W[swk][9]
            # ---- master side of the write
            if o[oi["s_bvalid"]]:
                if wd >= wa or wd >= ww:
                    raise Violation("write-response-without-request", "", cyc)
                x = W[wd]
                if (o[oi["s_bid"]], o[oi["s_bresp"]]) != (x[0], x[11]):
                    raise Violation("wrong-write-response", "write %d: id %03x resp %d, expected id %03x resp %d" % (wd, o[oi["s_bid"]], o[oi["s_bresp"]], x[0], x[11]), cyc)
                if br:
                    wd += 1
                    brw = None
            if brw:
                brw -= 1
            if awo and o[oi["s_awready"]]:
                wa += 1
                awo = 0
                aww = W[wa][5] if wa < len(W) else 0
            if wo and o[oi["s_wready"]]:
                ww += 1
                wo = 0
                www = W[ww][6] if ww < len(W) else 0
            if rd < ra and wd < wa:
                nov += 1
            cyc += 1
            if cyc > budget:
                raise Violation("no-progress", "%d of %d reads, %d of %d writes after %d cycles" % (rd, len(R), wd, len(W), cyc), cyc)
        st.add("cycles", cyc)
        st.add("bus_ops", len(R) + len(W))
        st.add("slave_delay_cycles", nsl)
        st.add("master_delay_cycles", nma)
        st.add("overlapping", nov)
        if nsl or nma or nov:
            st.seen("runs", h)


# ---- HP reader and writer --------------------------------------------------------------------
def mem64(seed, addr):
    """the simulated DDR: a word per address (splitmix)"""
    z = (addr * 0x9E3779B97F4A7C15 + seed * 0xD1B54A32D192ED03) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
    return z ^ (z >> 31)


class ReadSlave:
    """AXI3 memory port, read side: delays from the scenario, bursts served in order"""

    def __init__(self, s, scn, st, maxout=8):
        self.I, self.O, self.ii, self.oi = s.i, s.o, s.ii, s.oi
        self.arr = Runs(scn["arr"])
        self.rgap = Runs(scn["rgap"])
        self.lat, self.errs = scn["lat"], {(x[0], x[1]): x[2] for x in scn.get("rerr", [])}
        self.seed, self.junk = scn["mem"], scn.get("junk", 0)
        self.q = []                 # accepted bursts: [addr, ready time]
        self.addrs = []
        self.beat = 0
        self.burst = 0              # bursts completed
        self.held = 0
        self.prev = None
        self.maxout = maxout
        self.en_prev = 1
        self.lcg = self.junk
        self.nwait = self.nerr = 0
        self.peak = 0

    def outstanding(self):
        return len(self.addrs) - self.burst

    def pre(self, cyc):
        I, ii = self.I, self.ii
        I[ii["arready"]] = self.ready = self.arr.on()
        g = self.rgap.on()
        v = self.held or (bool(self.q) and cyc >= self.q[0][1] and g)
        if self.q and not v:
            self.nwait += 1
        self.lcg = (self.lcg * 1103515245 + 12345) & 0x7FFFFFFF if self.junk else 0
        I[ii["rvalid"]] = 1 if v else 0
        self.v = v
        if v:
            a = self.q[0][0] + 8 * self.beat
            self.word = mem64(self.seed, a & 0xFFFFFFFF)
            I[ii["rdata"]] = self.word
            I[ii["rlast"]] = 1 if self.beat == 15 else 0
            self.err = 2 + (self.errs[self.burst, self.beat] & 1) if (self.burst, self.beat) in self.errs else 0
            I[ii["rresp"]] = self.err
        else:
            I[ii["rdata"]] = self.lcg << 20
            I[ii["rlast"]] = self.lcg & 1
            I[ii["rresp"]] = self.lcg >> 1 & 3

    def post(self, cyc, st, may_start):
        """may_start: the reader was allowed to announce a new burst in this cycle"""
        I, O, oi = self.I, self.O, self.oi
        av = O[oi["arvalid"]]
        a = O[oi["araddr"]]
        taken = None
        if self.prev is not None:
            if not av:
                raise Violation("arvalid-withdrawn", "address %08x was offered and withdrawn" % self.prev, cyc)
            if a != self.prev:
                raise Violation("araddr-changed", "%08x became %08x before it was accepted" % (self.prev, a), cyc)
        elif av and not may_start:
            raise Violation("burst-started-while-disabled", "address %08x announced" % a, cyc)
        if av:
            k = (O[oi["arlen"]], O[oi["arsize"]], O[oi["arburst"]])
            if k != (15, 3, 1):
                raise Violation("wrong-burst", "arlen/arsize/arburst = %d/%d/%d, expected 15/3/1 (16 beats of 8 bytes, incrementing)" % k, cyc)
        self.prev = a if av and not self.ready else None
        fire = self.v and O[oi["rready"]]
        if O[oi["rready"]] and self.outstanding() == 0 and not (av and self.ready):
            pass                    # ready early is legal
        if fire:
            taken = self.word
            if self.err:
                self.nerr += 1
            self.held = 0
            self.beat += 1
            if self.beat == 16:
                self.beat = 0
                self.burst += 1
                self.q.pop(0)
        elif self.v:
            self.held = 1
        if av and self.ready:
            n = len(self.addrs)
            self.addrs.append(a)
            self.q.append([a, cyc + 1 + (self.lat[n] if n < len(self.lat) else 0)])
            if self.outstanding() > self.maxout:
                raise Violation("too-many-bursts", "%d bursts in flight" % self.outstanding(), cyc)
            st.peak("read_bursts_in_flight", self.outstanding())
        return taken


class WriteSlave:
    """AXI3 memory port, write side"""

    def __init__(self, s, scn, strobe=0xFF, maxout=8):
        self.I, self.O, self.ii, self.oi = s.i, s.o, s.ii, s.oi
        self.awr, self.wr = Runs(scn["awr"]), Runs(scn["wr"])
        self.bgap = scn["bgap"]
        self.errs = dict(scn.get("werr", []))         # burst -> 0 SLVERR, 1 DECERR
        self.addrs = []
        self.beats = []
        self.bq = []                # response times of the finished bursts
        self.resp = 0               # responses taken
        self.pa = self.pw = None
        self.held = 0
        self.strobe, self.maxout = strobe, maxout
        self.junk = self.lcg = scn.get("junk", 0)
        self.nwait = self.nerr = 0
        self.last_b = 0

    def pre(self, cyc):
        I, ii = self.I, self.ii
        I[ii["awready"]] = self.ra = self.awr.on()
        I[ii["wready"]] = self.rw = self.wr.on()
        self.v = 1 if self.held or (self.bq and cyc >= self.bq[0]) else 0
        if self.bq and not self.v:
            self.nwait += 1
        self.lcg = (self.lcg * 1103515245 + 12345) & 0x7FFFFFFF if self.junk else 0
        I[ii["bvalid"]] = self.v
        self.err = (2 + (self.errs[self.resp] & 1) if self.resp in self.errs else 0) if self.v else 0
        I[ii["bresp"]] = self.err if self.v else self.lcg & 3

    def outstanding(self):
        return len(self.addrs) - self.resp

    def post(self, cyc, st, may_start):
        O, oi = self.O, self.oi
        av, a = O[oi["awvalid"]], O[oi["awaddr"]]
        wv, w, wl = O[oi["wvalid"]], O[oi["wdata"]], O[oi["wlast"]]
        if self.pa is not None:
            if not av:
                raise Violation("awvalid-withdrawn", "address %08x was offered and withdrawn" % self.pa, cyc)
            if a != self.pa:
                raise Violation("awaddr-changed", "%08x became %08x before it was accepted" % (self.pa, a), cyc)
        elif av and not may_start:
            raise Violation("burst-started-while-disabled", "address %08x announced" % a, cyc)
        if av:
            k = (O[oi["awlen"]], O[oi["awsize"]], O[oi["awburst"]])
            if k != (15, 3, 1):
                raise Violation("wrong-burst", "awlen/awsize/awburst = %d/%d/%d, expected 15/3/1" % k, cyc)
        self.pa = a if av and not self.ra else None
        if self.pw is not None:
            if not wv:
                raise Violation("wvalid-withdrawn", "%016x was offered and withdrawn" % self.pw[0], cyc)
            if (w, wl) != self.pw:
                raise Violation("wdata-changed", "%016x/%d became %016x/%d before it was accepted" % (self.pw + (w, wl)), cyc)
        self.pw = (w, wl) if wv and not self.rw else None
        if wv:
            want = 1 if len(self.beats) % 16 == 15 else 0
            if wl != want:
                raise Violation("wrong-wlast", "beat %d of burst %d: wlast=%d" % (len(self.beats) % 16, len(self.beats) // 16, wl), cyc)
            if O[oi["wstrb"]] != self.strobe:
                raise Violation("wrong-strobe", "wstrb %02x, expected %02x" % (O[oi["wstrb"]], self.strobe), cyc)
        if self.v and O[oi["bready"]]:
            self.resp += 1
            self.held = 0
            self.bq.pop(0)
            if self.err:
                self.nerr += 1
        elif self.v:
            self.held = 1
        taken = None
        if wv and self.rw:
            taken = w
            self.beats.append(w)
            if len(self.beats) % 16 == 0:
                k = len(self.beats) // 16 - 1
                self.bq.append(max(self.last_b, cyc + 1 + (self.bgap[k] if k < len(self.bgap) else 0)))
                self.last_b = self.bq[-1]
        if av and self.ra:
            self.addrs.append(a)
            if self.outstanding() > self.maxout:
                raise Violation("too-many-bursts", "%d bursts without a response" % self.outstanding(), cyc)
            st.peak("write_bursts_in_flight", self.outstanding())
        if len(self.beats) > 16 * len(self.addrs):
            raise Violation("data-without-address", "beat %d with only %d bursts announced" % (len(self.beats), len(self.addrs)), cyc)
        return taken


def delays(rng, n, top=60):
    if n and rng.random() < 0.01:
        return [0] * rng.randrange(n) + [e2e.long_wait(rng)]
    m = rng.randrange(4)
    if m == 0:
        return []
    if m == 1:
        return [rng.randrange(6) for _ in range(n)]
    if m == 2:
        return [rng.choice((0, 0, 0, rng.randrange(top))) for _ in range(n)]
    return [rng.randrange(top) for _ in range(n)]


HPRULE = "a run is one set of delays of memory, addresses and data; non-trivial: something stalled; distinct: by hash of the per-cycle handshake trace"


class Hp(Check):
    assumptions = ASSUME + ["the memory port answers bursts in order (one transaction ID)"]
    rule = HPRULE

    def execute(self, scn, st):
        s = self.sim(scn["design"])
        if "cut" in scn:
            # an earlier life, ended by a reset of the whole system (memory port included)
            self.life(s, scn, st, scn["cut"])
            s.i[s.ii["full_rst"]] = 1
            for _ in range(scn["cutlen"]):
                s.step()
            s.i[s.ii["full_rst"]] = 0
            st.add("resets", 1)
        self.life(s, scn, st, None)

    def valid(self, scn):
        return scn["n"] >= 1 and scn.get("cutlen", 1) >= 1 and all(len(x) == 3 for x in scn.get("rerr", [])) and all(len(x) == 2 for x in scn.get("werr", []))


class C17(Hp):
    """HP reader: bursts from a simulated memory"""
    pid = "C17"
    runs = {"quick": 16000, "thorough": 300000}
    real = "axihp_reader"
    stub = "memory port, address source and data FIFO are simulated"
    faults = {"memory_wait_cycles": "the memory has no data yet", "sink_full_cycles": "the data FIFO has no room for a burst", "bus_errors": "a beat with an error response",
              "disabled_cycles": "the reader is switched off in the middle", "address_wait_cycles": "no address available", "resets": "reset of the whole system in the middle"}
    required = ["memory_wait_cycles", "sink_full_cycles", "bus_errors", "disabled_cycles", "resets"]

    def designs(self, tier, seed):
        return [("hp_reader", None)]

    def generate(self, rng, tier, idx):
        n = e2e.many(rng, idx) or rng.choice((1, 2, rng.randrange(1, 12), rng.randrange(8, 40)))
        t = 20 * n
        scn = {"design": "hp_reader", "n": n, "start": rng.choice((rng.randrange(1 << 25) * 128, 0xFFFFFF80, 0)), "mem": rng.randrange(1 << 20),
               "arr": e2e.gen_runs(rng, t), "rgap": e2e.gen_runs(rng, t), "lat": delays(rng, n, 200), "adel": delays(rng, n),
               "drain": e2e.gen_runs(rng, 2 * t), "en": e2e.gen_runs(rng, t) if rng.random() < 0.4 else [], "stop": rng.randrange(2), "junk": rng.randrange(1 << 30) * rng.randrange(2)}
        if rng.random() < 0.2:
            scn["cut"], scn["cutlen"] = rng.randrange(min(400, 25 * n)), rng.randrange(1, 3)
        if rng.random() < 0.3:
            scn["rerr"] = [[rng.randrange(n), rng.randrange(16), rng.randrange(2)] for _ in range(rng.randrange(1, 4))]
        return scn

    def life(self, s, scn, st, cut):
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        n, start = scn["n"], scn["start"]
        sl = ReadSlave(s, scn, st)
        drain, en = Runs(scn["drain"]), Runs(scn["en"])
        adel = scn["adel"]
        k = 0
        avail = adel[0] if adel else 0
        level = got = 0
        nerr = nfull = ndis = nadr = 0
        may = 0
        cyc = 0
        h = 5
        quiet = 0
        budget = sum(scn["arr"]) + sum(scn["rgap"]) + sum(scn["lat"]) + sum(adel) + sum(scn["drain"]) + sum(scn["en"]) + 80 * n + 300
        exp = [mem64(scn["mem"], (start + 128 * b + 8 * i) & 0xFFFFFFFF) for b in range(n) for i in range(16)]
        while True:
            if cyc == cut:
                return
            e = en.on() and not (scn.get("stop") and k >= n)
            e = 1 if e else 0
            ae = 0 if k < n and avail <= 0 else 1
            if k < n and avail > 0:
                avail -= 1
                nadr += 1
            I[ii["enable"]] = e
            I[ii["addr_empty"]] = ae
            I[ii["addr_in"]] = (start + 128 * k) & 0xFFFFFFFF if not ae else sl.lcg
            full = 1 if level > 16 else 0
            I[ii["data_full"]] = full
            nfull += full
            ndis += 1 - e
            out0 = sl.outstanding()
            sl.pre(cyc)
            s.step()
            if cyc < 2000:
                st.seen("control_states", s.ctl())
            if O[oi["inactive"]] and out0:
                raise Violation("inactive-with-bursts-in-flight", "%d bursts in flight" % out0, cyc)
            h = ((h ^ (O[oi["arvalid"]] | O[oi["rready"]] << 1 | sl.ready << 2 | (1 if sl.v else 0) << 3 | full << 4 | e << 5)) * 16777619) & 0xFFFFFFFF
            w = sl.post(cyc, st, may)
            may = 1 if e and not ae else 0
            if O[oi["addr_enable"]]:
                if ae:
                    raise Violation("address-taken-from-empty", "", cyc)
                k += 1
                avail = adel[k] if k < len(adel) else 0
                may = 0
            if len(sl.addrs) != k:
                raise Violation("address-count", "%d addresses taken, %d bursts accepted" % (k, len(sl.addrs)), cyc)
            if sl.addrs and sl.addrs[-1] != (start + 128 * (len(sl.addrs) - 1)) & 0xFFFFFFFF:
                raise Violation("wrong-address", "burst %d at %08x" % (len(sl.addrs) - 1, sl.addrs[-1]), cyc)
            de = O[oi["data_enable"]]
            if de != (1 if w is not None else 0):
                raise Violation("data-strobe", "data_enable=%d, a beat was %staken from the memory" % (de, "" if w is not None else "not "), cyc)
            if de:
                if O[oi["data_out"]] != exp[got]:
                    raise Violation("wrong-data", "beat %d: %016x, expected %016x" % (got, O[oi["data_out"]], exp[got]), cyc)
                got += 1
                level += 1
                if level > 32:
                    raise Violation("fifo-overrun", "beat %d arrived with 32 words waiting" % got, cyc)
            if O[oi["error"]]:
                nerr += 1
                if not (de and sl.err):
                    raise Violation("error-from-nowhere", "", cyc)
            if drain.on() and level and not de:
                level -= 1
            elif level and drain.v and de:
                level -= 1
            cyc += 1
            if got == len(exp):
                quiet += 1
                if quiet > 30 and en.left < 0:
                    break
            if cyc > budget:
                raise Violation("no-progress", "%d of %d beats after %d cycles" % (got, len(exp), cyc), cyc)
        if nerr != sl.nerr:
            raise Violation("error-lost", "%d error responses, %d reported" % (sl.nerr, nerr), cyc)
        if not O[oi["inactive"]]:
            raise Violation("never-inactive", "all bursts are done", cyc)
        st.add("cycles", cyc)
        st.add("bursts", n)
        st.add("memory_wait_cycles", sl.nwait)
        st.add("sink_full_cycles", nfull)
        st.add("bus_errors", nerr)
        st.add("disabled_cycles", ndis)
        st.add("address_wait_cycles", nadr)
        if sl.nwait or nfull or ndis or nadr:
            st.seen("runs", h)


class C18(Hp):
    """HP writer: bursts into a simulated memory"""
    pid = "C18"
    runs = {"quick": 16000, "thorough": 300000}
    real = "axihp_writer"
    stub = "memory port, address source and data FIFO are simulated"
    faults = {"memory_wait_cycles": "a write response is late", "source_empty_cycles": "less than a burst of data is available", "bus_errors": "an error response",
              "disabled_cycles": "the writer is switched off in the middle", "address_wait_cycles": "no address available", "resets": "reset of the whole system in the middle"}
    required = ["memory_wait_cycles", "source_empty_cycles", "bus_errors", "disabled_cycles", "resets"]

    def designs(self, tier, seed):
        return [("hp_writer", None)]

    def generate(self, rng, tier, idx):
        n = e2e.many(rng, idx) or rng.choice((1, 2, rng.randrange(1, 12), rng.randrange(8, 40)))
        t = 20 * n
        scn = {"design": "hp_writer", "n": n, "start": rng.choice((rng.randrange(1 << 25) * 128, 0xFFFFFF80, 0)), "mem": rng.randrange(1 << 20),
               "awr": e2e.gen_runs(rng, t), "wr": e2e.gen_runs(rng, t), "bgap": delays(rng, n, 400), "adel": delays(rng, n),
               "fill": e2e.gen_runs(rng, 2 * t), "en": e2e.gen_runs(rng, t) if rng.random() < 0.4 else [], "stop": rng.randrange(2), "junk": rng.randrange(1 << 30) * rng.randrange(2),
               "strobe": rng.choice((0xFF, 0xFF, rng.randrange(256)))}
        if rng.random() < 0.2:
            scn["cut"], scn["cutlen"] = rng.randrange(min(400, 25 * n)), rng.randrange(1, 3)
        if rng.random() < 0.3:
            scn["werr"] = [[rng.randrange(n), rng.randrange(2)] for _ in range(rng.randrange(1, 4))]
        return scn

    def life(self, s, scn, st, cut):
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        n, start = scn["n"], scn["start"]
        sl = WriteSlave(s, scn, scn["strobe"])
        fill, en = Runs(scn["fill"]), Runs(scn["en"])
        adel = scn["adel"]
        k = 0
        avail = adel[0] if adel else 0
        made = got = 0
        nerr = nempty = ndis = nadr = 0
        may = 0
        cyc = 0
        h = 5
        quiet = 0
        I[ii["strobe"]] = scn["strobe"]
        budget = sum(scn["awr"]) + sum(scn["wr"]) + sum(scn["bgap"]) + sum(adel) + sum(scn["fill"]) + sum(scn["en"]) + 100 * n + 300
        exp = [mem64(scn["mem"], (start + 128 * b + 8 * i) & 0xFFFFFFFF) for b in range(n) for i in range(16)]
        while True:
            if cyc == cut:
                return
            e = en.on() and not (scn.get("stop") and k >= n)
            e = 1 if e else 0
            ae = 0 if k < n and avail <= 0 else 1
            if k < n and avail > 0:
                avail -= 1
                nadr += 1
            I[ii["enable"]] = e
            I[ii["addr_empty"]] = ae
            I[ii["addr_in"]] = (start + 128 * k) & 0xFFFFFFFF if not ae else sl.lcg
            if fill.on() and made < len(exp) and made - got < 32:
                made += 1
            empty = 0 if made - got >= 16 else 1
            I[ii["data_empty"]] = empty
            I[ii["data_in"]] = exp[got] if got < made else sl.lcg
            nempty += empty
            ndis += 1 - e
            out0 = sl.outstanding()
            sl.pre(cyc)
            s.step()
            if cyc < 2000:
                st.seen("control_states", s.ctl())
            if O[oi["inactive"]] and out0:
                raise Violation("inactive-with-bursts-in-flight", "%d bursts not answered" % out0, cyc)
            h = ((h ^ (O[oi["awvalid"]] | O[oi["wvalid"]] << 1 | sl.ra << 2 | sl.rw << 3 | sl.v << 4 | e << 5 | empty << 6)) * 16777619) & 0xFFFFFFFF
            w = sl.post(cyc, st, may)
            may = 1 if e and not ae else 0
            if O[oi["addr_enable"]]:
                if ae:
                    raise Violation("address-taken-from-empty", "", cyc)
                k += 1
                avail = adel[k] if k < len(adel) else 0
                may = 0
            if len(sl.addrs) != k:
                raise Violation("address-count", "%d addresses taken, %d bursts accepted" % (k, len(sl.addrs)), cyc)
            if sl.addrs and sl.addrs[-1] != (start + 128 * (len(sl.addrs) - 1)) & 0xFFFFFFFF:
                raise Violation("wrong-address", "burst %d at %08x" % (len(sl.addrs) - 1, sl.addrs[-1]), cyc)
            de = O[oi["data_enable"]]
            if de != (1 if w is not None else 0):
                raise Violation("data-strobe", "data_enable=%d, a beat was %staken by the memory" % (de, "" if w is not None else "not "), cyc)
            if de:
                if got >= made:
                    raise Violation("fifo-underrun", "beat %d was sent before it was there" % got, cyc)
                if w != exp[got]:
                    raise Violation("wrong-data", "beat %d: %016x, expected %016x" % (got, w, exp[got]), cyc)
                got += 1
            if O[oi["error"]]:
                nerr += 1
                if not (sl.v or sl.held or sl.err):
                    raise Violation("error-from-nowhere", "", cyc)
            cyc += 1
            if got == len(exp) and sl.resp == n:
                quiet += 1
                if quiet > 30 and en.left < 0:
                    break
            if cyc > budget:
                raise Violation("no-progress", "%d of %d beats, %d of %d responses after %d cycles" % (got, len(exp), sl.resp, n, cyc), cyc)
        if nerr != sl.nerr:
            raise Violation("error-lost", "%d error responses, %d reported" % (sl.nerr, nerr), cyc)
        if not O[oi["inactive"]]:
            raise Violation("never-inactive", "all bursts are answered", cyc)
        st.add("cycles", cyc)
        st.add("bursts", n)
        st.add("memory_wait_cycles", sl.nwait)
        st.add("source_empty_cycles", nempty)
        st.add("bus_errors", nerr)
        st.add("disabled_cycles", ndis)
        st.add("address_wait_cycles", nadr)
        if sl.nwait or nempty or ndis or nadr:
            st.seen("runs", h)


class C23(Hp):
    """the DMA subsystem as a whole: registers -> address generators -> HP reader -> FIFO -> converter -> (core) and back"""
    pid = "C23"
    runs = {"quick": 4000, "thorough": 150000}
    real = "beta_integration_fullaxi: dma_axi_lite, address_generator (two), axihp_reader, axihp_writer, axihp_fifo (two), b64_b32, b16_b64 and their wiring"
    stub = "the encoder core is replaced by the harness; memory port and bus master are simulated"
    faults = {"memory_wait_cycles": "the memory has no data yet or its write response is late", "core_busy_cycles": "the core does not take pixels",
              "source_gap_cycles": "the core produces no word", "stops": "the DMA is stopped in the middle", "resumed": "and switched on again", "bus_ops_during_transfers": "status reads while data moves",
              "resets": "external reset in the middle of a transfer", "bus_errors": "an error response of the memory", "ends_of_frame": "the core marks a word as the last of a frame"}
    required = ["bus_errors", "ends_of_frame", "memory_wait_cycles", "core_busy_cycles", "source_gap_cycles", "stops", "resumed", "bus_ops_during_transfers", "resets"]

    def designs(self, tier, seed):
        return [("full_axi", None)]

    FRAME_R, FRAME_W = 196608, 131072       # bursts: 4096 x 3072 pixels of two bytes are read, at most 16 MiB are written

    def generate(self, rng, tier, idx):
        if idx == 0 or tier == "thorough" and idx % 10000 == 0:
            # a whole frame: memory, core and bus rest now and then (periods in cycles), as long as it takes to reach both ends
            return {"design": "full_axi", "frame": 1, "n": 1, "regs": [["read_addr", rng.choice((0x18000000, 0xFFFF0000))], ["write_addr", rng.randrange(1 << 25) * 128]],
                    "split": 0, "bt": 0, "mem": rng.randrange(1 << 20), "rest": [[rng.randrange(500, 40000), rng.randrange(1, 200)] for _ in range(5)]}
        n = rng.choice((rng.randrange(1, 40), rng.randrange(1, 400), rng.randrange(200, 1200)))       # pixel beats to read
        m = rng.choice((0, rng.randrange(1, 200), rng.randrange(100, 1500)))                          # words to write
        t = 2 * n + m
        ops = [["read_addr", rng.choice((rng.randrange(1 << 25) * 128, 0x18000000, 0xFFFFFF80))], ["write_addr", rng.choice((rng.randrange(1 << 25) * 128, 0x20000000))]]
        rng.shuffle(ops)
        scn = {"design": "full_axi", "n": n, "m": m, "regs": ops, "split": rng.randrange(3), "mem": rng.randrange(1 << 20), "bt": rng.randrange(5),
               "arr": e2e.gen_runs(rng, t), "rgap": e2e.gen_runs(rng, t), "lat": delays(rng, n // 16 + 4, 200),
               "awr": e2e.gen_runs(rng, t), "wr": e2e.gen_runs(rng, t), "bgap": delays(rng, m // 64 + 4, 300),
               "pix": e2e.gen_runs(rng, t), "gaps": e2e.gen_gaps(rng, m) if m else [], "junk": rng.randrange(1 << 30) * rng.randrange(2),
               "status": [rng.randrange(16) for _ in range(rng.choice((0, 0, 10, 40)))]}
        if rng.random() < 0.3:
            scn["stop"] = rng.randrange(20, 2 * t + 40)
            if rng.random() < 0.6:
                scn["resume"] = rng.choice((0, rng.randrange(40), rng.randrange(400)))
        if rng.random() < 0.12:
            scn["rst"] = [[rng.randrange(20, t + 60), rng.randrange(1, 4)]]
        # neither an error response nor the end of a frame changes what is moved
        if m and rng.random() < 0.4:
            scn["ends"] = sorted({rng.choice((m - 1, rng.randrange(m), rng.randrange(m) | 3)) for _ in range(rng.randrange(1, 4))})
        if rng.random() < 0.2:
            scn["rerr"] = [[rng.randrange(n // 32 + 1), rng.randrange(16), rng.randrange(2)] for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.2:
            scn["werr"] = [[rng.randrange(m // 64 + 1), rng.randrange(2)] for _ in range(rng.randrange(1, 4))]
        return scn

    def valid(self, scn):
        return scn["n"] >= 1 and all(len(x) == 2 and x[1] >= 1 for x in scn.get("rst", [])) and sorted(x[0] for x in scn["regs"]) == ["read_addr", "write_addr"]

    IDX = {"read_addr": 0x400, "write_addr": 0x401, "start": 0x402}
    BASE = 0x43C10000

    def program(self, scn):
        rng = random.Random("prog/%s/%s" % (scn["split"], scn["bt"]))
        ops = []
        for name, v in scn["regs"] + [["start", 0xFFFFFFFF]]:
            for sb in ((15,), (3, 12), (8, 4, 2, 1))[scn["split"]]:
                ops.append(axil.w(rng, self.BASE + 4 * self.IDX[name], v, sb, scn["bt"]))
        return ops

    def frame(self, scn, st):
        """a whole frame through the subsystem: it reads the frame to its last burst and not further, and writes not more
        than the destination holds"""
        s = self.sim("full_axi")
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        reg = dict(scn["regs"])
        ra, wa = reg["read_addr"], reg["write_addr"]
        host = axil.Master(s, "l_")
        host.load(self.program(scn))
        cyc = 0
        for n in ("rvalid", "bvalid", "arready", "awready", "wready", "w_valid"):
            I[ii[n]] = 0
        I[ii["p_nready"]] = 1
        while not host.idle():
            host.pre(cyc)
            s.step()
            host.post(cyc)
            cyc += 1
            if cyc > 3000:
                raise Violation("no-progress", "the registers could not be programmed", cyc)
        step = s.step
        i_arr, i_rv, i_rd, i_rl, i_rr = ii["arready"], ii["rvalid"], ii["rdata"], ii["rlast"], ii["rresp"]
        i_awr, i_wr, i_bv, i_br = ii["awready"], ii["wready"], ii["bvalid"], ii["bresp"]
        o_av, o_aa, o_rr, o_awv, o_awa, o_wv, o_wd, o_br = (oi[n] for n in ("arvalid", "araddr", "rready", "awvalid", "awaddr", "wvalid", "wdata", "bready"))
        o_pv, o_p1, o_p2, o_wb = oi["p_valid"], oi["p1"], oi["p2"], oi["w_busy"]
        i_pn, i_wvd, i_wdt = ii["p_nready"], ii["w_valid"], ii["w_data"]
        seed, rest = scn["mem"], scn["rest"]
        (p0, l0), (p1, l1), (p2, l2), (p3, l3), (p4, l4) = rest
        I[i_rr] = I[i_br] = 0
        na = nb = got = ng = nw = nt = nres = 0        # read bursts, beats; pixel beats; write bursts, words taken, beats written, responses
        word = pw = prev = 0
        held = bheld = 0
        nrest = 0
        limit = cyc + 12 * 16 * self.FRAME_R + 40000
        last = cyc
        M = 0xFFFFFFFF
        while True:
            I[i_arr] = ar = 0 if cyc % p0 < l0 else 1
            rv = held or (nb < 16 * na and cyc % p1 >= l1)
            I[i_rv] = 1 if rv else 0
            if rv and not held:
                a = (ra + 8 * nb) & M
                I[i_rd] = mem64(seed, a)
                I[i_rl] = 1 if nb & 15 == 15 else 0
            I[i_awr] = I[i_wr] = aw = 0 if cyc % p2 < l2 else 1
            bv = bheld or (16 * nres + 16 <= nt and cyc % p4 >= l4)
            I[i_bv] = 1 if bv else 0
            pr = 0 if cyc % p3 < l3 else 1
            I[i_pn] = 1 - pr
            I[i_wvd] = 1
            I[i_wdt] = (nw * 40503 + (nw >> 16) * 977) & 0xFFFF
            nrest += 5 - ar - 2 * aw - pr - 1
            step()
            if O[o_av] and ar:
                if O[o_aa] != (ra + 128 * na) & M:
                    raise Violation("wrong-read-address", "burst %d at %08x, reading started at %08x" % (na, O[o_aa], ra), cyc)
                na += 1
                last = cyc
                if na > self.FRAME_R:
                    raise Violation("read-past-the-frame", "burst %d is announced, a frame has %d" % (na, self.FRAME_R), cyc)
            if rv:
                if O[o_rr]:
                    nb += 1
                    held = 0
                else:
                    held = 1
            if O[o_awv] and aw:
                if O[o_awa] != (wa + 128 * ng) & M:
                    raise Violation("wrong-write-address", "burst %d at %08x, writing started at %08x" % (ng, O[o_awa], wa), cyc)
                ng += 1
                last = cyc
                if ng > self.FRAME_W:
                    raise Violation("write-past-the-end", "burst %d is announced, the destination holds %d" % (ng, self.FRAME_W), cyc)
            if O[o_wv] and aw:
                k = 4 * nt
                w = 0
                for j in range(k, k + 4):
                    w = w << 16 | ((j * 40503 + (j >> 16) * 977) & 0xFFFF)
                if O[o_wd] != w:
                    raise Violation("wrong-memory", "beat %d written: %016x, expected %016x" % (nt, O[o_wd], w), cyc)
                nt += 1
                last = cyc
            if bv:
                if O[o_br]:
                    nres += 1
                    bheld = 0
                else:
                    bheld = 1
            if not O[o_wb]:
                nw += 1
            if pr and O[o_pv]:
                if got & 1 == 0:
                    word = mem64(seed, (ra + 4 * got) & M)
                    x = word >> 32
                else:
                    x = word & M
                if O[o_p1] != x & 0xFFF or O[o_p2] != x >> 12 & 0xFFF:
                    raise Violation("wrong-pixels", "beat %d: %03x %03x, memory holds %03x %03x" % (got, O[o_p1], O[o_p2], x & 0xFFF, x >> 12 & 0xFFF), cyc)
                got += 1
                last = cyc
            cyc += 1
            if cyc - last > 3000 or cyc > limit:
                break
        if na != self.FRAME_R or got != 32 * na:
            raise Violation("frame-not-read", "%d of %d bursts were read, %d of %d pixel beats delivered" % (na, self.FRAME_R, got, 32 * self.FRAME_R), cyc)
        if ng != self.FRAME_W or nt != 16 * ng or nres != ng:
            raise Violation("frame-not-written", "%d of %d bursts announced, %d beats written, %d responses taken" % (ng, self.FRAME_W, nt, nres), cyc)
        st.add("cycles", cyc)
        st.add("bursts", na + ng)
        st.add("memory_wait_cycles", nrest)
        st.add("whole_frames")
        st.seen("runs", (cyc * 2654435761 + seed) & 0xFFFFFFFF)

    def execute(self, scn, st):
        if scn.get("frame"):
            return self.frame(scn, st)
        s = self.sim("full_axi")
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        rst = list(scn.get("rst", []))
        reg = dict(scn["regs"])
        ra, wa = reg["read_addr"], reg["write_addr"]
        n, m = scn["n"], scn["m"]
        gaps = scn["gaps"]
        ends = set(scn.get("ends", []))
        nend = nerr = 0
        host = axil.Master(s, "l_")
        wrng = random.Random("words/%s" % scn["mem"])
        words = [wrng.randrange(65536) for _ in range(m)]
        budget = sum(sum(scn[k]) for k in ("arr", "rgap", "lat", "awr", "wr", "bgap", "pix", "gaps")) + 40 * (n + m) + 3000 + 100 * len(scn["status"])
        budget = budget * (1 + len(rst)) + sum(c + l for c, l in rst) + scn.get("stop", 0) + 2 * scn.get("resume", 0) + 2000
        nbursts_w = m // 64
        cyc = 0
        h = 9
        nbusy = ngap = nst = 0
        wait = wait_m = 0
        lr = None

        def fresh():
            return dict(rs=ReadSlave(s, scn, st), ws=WriteSlave(s, scn), pix=Runs(scn["pix"]), got=0, k=0, off=0, gi=0, wait=gaps[0] if gaps else 0,
                        stop=-1, stat=0, t0=cyc, rprev=0, wprev=0, started=0)
        g = fresh()
        host.load(self.program(scn))
        rleft = 0
        resume = scn.get("resume", -1)
        calm = 0
        quiet = 0
        while True:
            if rst and cyc >= rst[0][0] and not rleft:
                rleft = rst.pop(0)[1]
                host.abort()
                host.log = []
                I[ii["full_rst"]] = 1
                for x in ("rvalid", "bvalid", "arready", "awready", "wready", "w_valid"):
                    I[ii[x]] = 0
                I[ii["p_nready"]] = 1
                st.add("resets")
            if rleft:
                s.step()
                rleft -= 1
                cyc += 1
                if not rleft:
                    I[ii["full_rst"]] = 0
                    g = fresh()
                    host.load(self.program(scn))
                    quiet = calm = 0
                continue
            # ---- the bus: program, then status reads, then perhaps a stop
            if host.idle():
                if g["started"] == 0:
                    if host.log:
                        self.responses(host)
                        g["started"] = 1
                elif "stop" in scn and g["stop"] == -1 and cyc - g["t0"] >= scn["stop"]:
                    host.load([["w", self.BASE + 4 * 0x402, 0, 15, 0, 0, -1, 0]])
                    g["stop"] = cyc
                    st.add("stops")
                elif resume >= 0 and g["stop"] >= 0 and calm > resume:
                    # switched on again: it goes on where it was stopped
                    host.load([["w", self.BASE + 4 * 0x402, 0xFFFFFFFF, 15, 0, 0, -1, 0]])
                    g["stop"] = -2
                    st.add("resumed")
                elif g["stat"] < len(scn["status"]):
                    host.load([["r", self.BASE + 4 * (0x400 + scn["status"][g["stat"]]), 0, scn["bt"] - 1, 0]])
                    g["stat"] += 1
                    nst += 1
                elif host.log:
                    self.responses(host)
            # may a new burst be announced now?  only between the last byte of start and (a little after) the stop
            on = g["started"] or host.n == len(host.ops)
            stop_done = g["stop"] >= 0 and host.idle() and host.t_last > g["stop"]
            may = 1 if on and not (stop_done and cyc > host.t_last + 4) else 0
            host.pre(cyc)
            rs, ws = g["rs"], g["ws"]
            rs.pre(cyc)
            ws.pre(cyc)
            pr = g["pix"].on()
            I[ii["p_nready"]] = 1 - pr
            nbusy += 1 - pr
            if not g["off"] and g["k"] < m:
                if g["wait"] > 0:
                    g["wait"] -= 1
                    ngap += 1
                else:
                    g["off"] = 1
            I[ii["w_valid"]] = g["off"]
            I[ii["w_data"]] = words[g["k"]] if g["off"] else rs.lcg & 0xFFFF
            I[ii["w_end"]] = 1 if g["off"] and g["k"] in ends else 0
            s.step()
            if cyc < 2000:
                st.seen("control_states", s.ctl())
            host.post(cyc)
            h = ((h ^ (O[oi["arvalid"]] | O[oi["rready"]] << 1 | O[oi["awvalid"]] << 2 | O[oi["wvalid"]] << 3 | pr << 4 | g["off"] << 5 | O[oi["p_valid"]] << 6 |
                       (1 if rs.v else 0) << 7 | ws.v << 8)) * 16777619) & 0xFFFFFFFF
            rs.post(cyc, st, may)
            ws.post(cyc, st, may)
            k = len(rs.addrs)
            if k and rs.addrs[-1] != (ra + 128 * (k - 1)) & 0xFFFFFFFF:
                raise Violation("wrong-read-address", "burst %d at %08x, reading started at %08x" % (k - 1, rs.addrs[-1], ra), cyc)
            k = len(ws.addrs)
            if k and ws.addrs[-1] != (wa + 128 * (k - 1)) & 0xFFFFFFFF:
                raise Violation("wrong-write-address", "burst %d at %08x, writing started at %08x" % (k - 1, ws.addrs[-1], wa), cyc)
            # ---- pixels
            if O[oi["p_valid"]] and pr:
                b = g["got"]
                a = (ra + 8 * (b // 2)) & 0xFFFFFFFF
                if b // 2 >= 16 * (rs.burst + 1):
                    raise Violation("pixels-from-nowhere", "beat %d" % b, cyc)
                x = mem64(scn["mem"], a)
                x = x >> 32 if b % 2 == 0 else x & 0xFFFFFFFF
                p = (O[oi["p1"]], O[oi["p2"]])
                if p != (x & 0xFFF, x >> 12 & 0xFFF):
                    raise Violation("wrong-pixels", "beat %d: %03x %03x, memory holds %03x %03x" % (b, p[0], p[1], x & 0xFFF, x >> 12 & 0xFFF), cyc)
                g["got"] += 1
            # ---- words
            if g["off"] and not O[oi["w_busy"]]:
                nend += g["k"] in ends
                g["k"] += 1
                g["off"] = 0
                g["gi"] += 1
                g["wait"] = gaps[g["gi"]] if g["gi"] < len(gaps) else 0
            for i in range(g["wprev"], len(ws.beats)):
                w = words[4 * i:4 * i + 4]
                if 4 * i + 4 > g["k"]:
                    raise Violation("words-from-nowhere", "beat %d written, %d words produced" % (i, g["k"]), cyc)
                if ws.beats[i] != w[0] << 48 | w[1] << 32 | w[2] << 16 | w[3]:
                    raise Violation("wrong-memory", "beat %d written: %016x, expected %s" % (i, ws.beats[i], " ".join("%04x" % x for x in w)), cyc)
            g["wprev"] = len(ws.beats)
            wait += 1 if rs.q and not rs.v else 0
            cyc += 1
            # ---- done?
            if g["stop"] >= 0:
                # a stopped DMA: no new bursts, and those announced are finished
                done = stop_done and rs.outstanding() == 0 and len(ws.beats) // 16 == ws.resp and not rst
                calm = calm + 1 if done else 0
                done = done and resume < 0
            else:
                done = g["got"] >= n and ws.resp >= nbursts_w and g["k"] >= m and not rst and ("stop" not in scn or g["stop"] == -2) and g["started"] and host.idle()
            if done:
                quiet += 1
                if quiet > 60:
                    break
            else:
                quiet = 0
            if cyc > budget:
                raise Violation("no-progress", "%d of %d pixel beats, %d of %d words taken, %d of %d bursts written after %d cycles%s" % (
                    g["got"], n, g["k"], m, ws.resp, nbursts_w, cyc, ", stopped" if g["stop"] >= 0 else ""), cyc)
        st.add("cycles", cyc)
        st.add("bursts", len(rs.addrs) + len(ws.addrs))
        st.add("memory_wait_cycles", wait + ws.nwait)
        st.add("bus_errors", rs.nerr + ws.nerr)
        st.add("ends_of_frame", nend)
        st.add("core_busy_cycles", nbusy)
        st.add("source_gap_cycles", ngap)
        st.add("bus_ops_during_transfers", nst)
        st.seen("runs", h)

    def responses(self, host):
        for e in host.log:
            if e[2] != 0:
                raise Violation("bus-error", "%s answered %d" % (e[1], e[2]), e[5])
            if e[1][0] == "r" and e[1][1] >> 2 & 15 == 2 and e[3] not in (0, 0xFFFFFFFF):
                raise Violation("wrong-start", "start register reads %08x" % e[3], e[5])
        host.log = []
