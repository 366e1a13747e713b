"""The drivers and the test program on a simulated machine: DMA engine, memory, the real core."""
import random, zlib
import core, e2e, ref, sw, axil
from core import Check, Violation

SRC_OFF, DST_OFF = 0, 0x2000000


def short(rng, n, hi):
    m = rng.randrange(5)
    if m == 0:
        return []
    if m == 1:
        return [rng.randrange(hi)]
    return [rng.randrange(rng.choice((2, hi // 8 + 2, hi))) for _ in range(rng.randrange(1, n))]


def timing(rng):
    """how long everything takes, in cycles, as cyclic lists"""
    t = {"reset": short(rng, 4, rng.choice((20, 3000))), "halt": short(rng, 4, 60), "start": short(rng, 4, 200), "end": short(rng, 4, rng.choice((20, 2000))),
         "cpu": short(rng, 6, 40), "per_us": rng.choice((3, 26, 256, 2560, 25600))}
    if rng.random() < 0.3:      # completion flag and idle flag come up in either order
        t["skew"] = short(rng, 4, rng.choice((20, 1000)))
    if rng.random() < 0.15:
        t["idle0"] = 1
    if rng.random() < 0.2:      # the number the next descriptor gets (0: standard input is closed)
        t["fd0"] = rng.choice((0, 0, 1000))
    if rng.random() < 0.7:
        t["gap"] = short(rng, 12, 30)
        t["stall"] = short(rng, 12, 30)
        if len(t["stall"]) & 1:
            t["stall"].append(rng.randrange(1, 9))
    return {k: v for k, v in t.items() if v != []}


DMA_FAULTS = {"resets": "the engine takes its time to reset and ignores everything meanwhile", "stalled_words": "the memory cannot take the offered word",
              "bus_errors": "a transfer ends in an engine error", "failed_calls": "open or mmap fails"}
STATUS = [(1, "halted", "running"), (2, "idle", None), (8, "SGIncld", None), (16, "DMAIntErr", None), (32, "DMASlvErr", None), (64, "DMADecErr", None),
          (256, "SGIntErr", None), (512, "SGSlvErr", None), (1024, "SGDecErr", None), (4096, "IOC_Irq", None), (8192, "Dly_Irq", None), (16384, "Err_Irq", None)]


def decode_status(v):
    return [a if v & bit else b for bit, a, b in STATUS if v & bit or b]


class C24(Check):
    """the DMA driver against a simulated engine"""
    pid = "C24"
    runs = {"quick": 24000, "thorough": 600000}
    isolate = True
    real = "software/src/xilinx_dma.cpp, mmap_handler.cpp, tools.cpp, compiled from the tree"
    stub = "the DMA engine (PG021, direct register mode), physical memory, /dev/mem, sleep and the data stream behind the engine are simulated"
    faults = DMA_FAULTS
    required = list(DMA_FAULTS) + ["transfers"]
    rule = "a run is one driver session: its calls, the engine's timing and faults; non-trivial: at least one transfer, reset or fault; distinct: by hash of the engine's event trace"
    assumptions = ["a clean batch is evidence, not proof: call sequences, timings and faults are sampled",
                   "the engine behaves as its product guide says in direct register mode; registers written during a reset are lost",
                   "lengths are programmed on a running engine, one transfer per channel at a time"]

    def prepare(self, tier, seed):
        self.m = sw.Machine()

    def prepare_replay(self, scn):
        self.prepare(None, None)

    def generate(self, rng, tier, idx):
        scn = timing(rng)
        scn["base"] = rng.choice((0x40400000, rng.randrange(0x2000, 1 << 15) << 16, rng.randrange(0xA000, 0xF000) << 16))
        ops = []
        if rng.random() < 0.5:
            ops.append(["status", rng.randrange(2)])
        if rng.random() < 0.3:
            ops.append(["poke", rng.randrange(2), rng.randrange(1 << 15) if rng.random() < 0.7 else 1 << rng.randrange(15)])
        run = 0
        many = e2e.many(rng, idx)
        scn["ddr"] = rng.choice((0x10000000, 0x10000000, 0x18000000, 0x88000000, 0xF8000000))
        for _ in range(many or rng.choice((1, 1, 2, 4))):
            for _ in range(rng.choice((0, 1, 1, 2))):
                ops.append([rng.choice(("reset", "reset", "halt"))])
                run = 0
                if rng.random() < 0.5:
                    ops.append(["status", rng.randrange(2)])
            nmm = 4 * rng.randrange(1, rng.choice((4, 100, 1000)))
            nw = rng.randrange(1, rng.choice((3, 40, 600)))
            room = rng.choice((2 * nw, 2 * nw + 2 * rng.randrange(1, 600), 4 * nw + 1024))
            if many:
                nmm, nw, room = nmm % 400 + 4, nw % 20 + 1, nw % 20 * 2 + 2 + 2 * rng.randrange(20)
            elif rng.random() < 0.003:
                # transfers whose lengths need the upper bits of the length registers
                nmm, room = rng.choice((nmm, 4 * rng.randrange(1 << rng.randrange(14, 23)) + 4)), max(2 * nw, 2 * rng.randrange(1 << rng.randrange(15, 24)))
            a = [["addr", 4 * rng.randrange(1 << 14), 4 * rng.randrange(1 << 14)]]
            if rng.random() < 0.1:
                a[0][1 + rng.randrange(2)] += rng.randrange(8) << 20
            if not run or rng.random() < 0.1:
                a.insert(rng.randrange(2), ["start"])
                run = 1
            ops += a
            ops.append(["len", min(room, DST_OFF - (9 << 20)), nmm, nw, rng.randrange(nmm + 1)])
            for c in rng.choice(((0, 1), (1, 0), (0, 1, 0), (1, 0, 1, 0))):
                ops.append(["sync", c])
            if rng.random() < 0.6:
                ops.append(["status", rng.randrange(2)])
        if rng.random() < 0.4:
            ops.append([rng.choice(("halt", "reset"))])
        scn["ops"] = ops
        x = rng.random()
        if x < 0.06:
            scn["fail_open"] = 1
        elif x < 0.12:
            scn["fail_mmap"] = 1
        elif x < 0.3:
            scn["err"] = [rng.randrange(2), rng.choice((0, rng.randrange(40), rng.randrange(300))), rng.choice((16, 32, 64, 96, 256, 512, 1024))]
        return scn

    def valid(self, scn):
        run = pend = 0
        if scn["base"] < 0x20000000 or scn["base"] & 0xFFFF or scn["base"] == 0x83C00000 or scn.get("ddr", 0x10000000) not in (0x10000000, 0x18000000, 0x88000000, 0xF8000000):
            return False
        for o in scn["ops"]:
            n = {"status": 2, "poke": 3, "addr": 3, "len": 5, "sync": 2}.get(o[0], 1)
            if len(o) != n:
                return False
            if o[0] in ("sync", "status", "poke") and o[1] not in (0, 1):
                return False
            if o[0] == "start":
                run = 1
            if o[0] in ("reset", "halt"):
                if pend:
                    return False
                run = 0
            if o[0] == "len":
                if not run or pend or o[1] < 2 * o[3] or o[3] < 1 or o[2] < 4 or o[2] % 4 or o[4] > o[2]:
                    return False
                pend = 3
            if o[0] == "sync":
                if not run:
                    return False
                if pend >= 0:
                    pend &= ~(1 << o[1])
            if o[0] == "addr" and pend:
                return False
        # a sync needs a transfer since the last reset
        done = False
        for o in scn["ops"]:
            if o[0] in ("reset", "halt"):
                done = False
            if o[0] == "len":
                done = True
            if o[0] == "sync" and not done:
                return False
        return not pend and scn.get("per_us", 1) >= 1 and len(scn.get("stall", [])) % 2 == 0 and ("err" not in scn or len(scn["err"]) == 3 and scn["err"][2])

    def execute(self, scn, st):
        m, W = self.m, self.m.W
        base = scn["base"]
        m.reset(scn, dma=base, ddr=scn.get("ddr", 0x10000000))
        try:
            self.session(scn, st, m, W, base)
        finally:
            st.add("cycles", W.cyc)
        st.add("stalled_words", W.stalled)
        st.add("resets", W.resets)
        st.add("bus_errors", W.nfault)
        st.add("register_accesses", W.accesses)
        if W.resets or W.nfault or W.nfailed or W.stalled:
            st.seen("runs", zlib.crc32(repr((m.events(), W.cyc, W.trouble, W.nfailed)).encode()))

    def session(self, scn, st, m, W, base):
        def call(op, a=0, b=0):
            r, out = m.captured(lambda: m.call(op, a, b))
            if r == sw.E_HANG:
                raise Violation(m.trouble(), "%s never returns" % op, W.cyc)
            if r == sw.E_EXIT and W.exitcode == 0:
                raise Violation("failure-reported-as-success", "%s ended the program with status 0" % op)
            return r
        r = call("new", base)
        if W.nfailed:
            st.add("failed_calls")
            if r != sw.E_EXIT:
                raise Violation("failure-unnoticed", "open or mmap of the registers failed, the driver goes on")
            if W.accesses:
                raise Violation("access-without-mapping", "%d accesses" % W.accesses)
            return
        if r:
            raise Violation("gives-up", "the constructor ended the program")
        if W.accesses and any(e[0] in (1, 3) and e[3] & 1 for e in m.events()):
            raise Violation("unasked-start", "the constructor starts the engine")
        src = dst = 0
        total = [0, 0]
        for o in scn["ops"]:
            ev0, starts = W.nlog, [W.ch[0].starts, W.ch[1].starts]
            lost, ignored, resets = W.lost, W.ignored, W.resets
            name = o[0]
            if name == "poke":
                c = W.ch[o[1]]
                old = c.sr
                c.sr = o[2]
                if call("status", o[1]) or m.text() != decode_status(o[2]):
                    raise Violation("wrong-status", "status register %08x is reported as %s" % (o[2], m.text()))
                c.sr = old
                continue
            if name == "status":
                settled = W.ch[o[1]].haltin < 0 and W.ch[o[1]].endin < 0 and not W.ch[o[1]].active and not W.resetting
                before = W.ch[o[1]].sr
                if call("status", o[1]):
                    raise Violation("gives-up", "status")
                if m.text() != decode_status(before) and (settled or m.text() != decode_status(W.ch[o[1]].sr)):
                    raise Violation("wrong-status", "status register %08x is reported as %s" % (before, m.text()))
                continue
            if name == "addr":
                src, dst = W.ddr_base + o[1], W.ddr_base + DST_OFF + o[2]
                r = call("addr", src, dst)
                if r or W.ch[0].addr != src or W.ch[1].addr != dst:
                    raise Violation("wrong-address", "%08x -> %08x programmed as %08x -> %08x (%d writes lost)" % (src, dst, W.ch[0].addr, W.ch[1].addr, W.lost - lost))
            elif name == "start":
                r = call("start")
                if r or not (W.ch[0].cr & 1 and W.ch[1].cr & 1):
                    raise Violation("not-running", "run bits %d %d after start (%d writes lost)" % (W.ch[0].cr & 1, W.ch[1].cr & 1, W.lost - lost))
            elif name == "halt":
                r = call("halt")
                if r or W.ch[0].cr & 1 or W.ch[1].cr & 1:
                    raise Violation("not-halted", "run bits %d %d after halt" % (W.ch[0].cr & 1, W.ch[1].cr & 1))
            elif name == "reset":
                r = call("reset")
                if r or W.resets == resets:
                    raise Violation("not-reset", "reset_dma left the engine as it was")
                if W.resetting > 0:
                    raise Violation("reset-not-finished", "reset_dma returns %d cycles before the engine is out of reset" % W.resetting)
            elif name == "len":
                rng = random.Random("w/%d/%d" % (o[3], W.cyc))
                ws = [rng.randrange(65536) for _ in range(o[3])]
                m.words(ws, o[4])
                canary = bytes([0xA5]) * 64
                m.poke(dst - 64, canary + b"\x5A" * (o[1] + 64))
                r = call("len", o[1], o[2])
                got = [(e[1], e[2], e[3]) for e in m.events(ev0) if e[0] == 3]
                if r or sorted(got) != [(0, src, o[2]), (1, dst, o[1])]:
                    raise Violation("wrong-transfer", "transfers %s instead of %d bytes from %08x and %d bytes to %08x (%d writes ignored)" % (
                        ["channel %d: %d bytes at %08x" % (c, l, a) for c, a, l in got], o[2], src, o[1], dst, W.ignored - ignored))
                total[0] += 1
                total[1] += 1
                cur = (ws, dst, o[1])
                continue
            elif name == "sync":
                k = o[1]
                t0 = W.cyc
                r = call("sync", k)
                if W.nfault:
                    st.add("aborted_transfers")
                    if r == sw.E_EXIT:
                        return
                    if W.ch[k].done < total[k]:
                        raise Violation("error-unnoticed", "sync returned although the transfer ended in an error")
                    continue
                if r:
                    raise Violation("gives-up", "sync ended the program without an error of the engine")
                c = W.ch[k]
                if c.active or c.done != total[k]:
                    raise Violation("sync-too-early", "channel %d: %d of %d transfers complete" % (k, c.done, total[k]), W.cyc)
                late = W.cyc - max(c.t_done, t0)
                if late > 1000 * W.per_us // 256 + 2000:
                    raise Violation("sync-too-late", "channel %d: returns %d cycles after the transfer is complete" % (k, late), W.cyc)
                if k == 1:
                    ws, d, n = cur
                    got = m.peek(d - 64, n + 128)
                    want = bytes([0xA5]) * 64 + b"".join(w.to_bytes(2, "little") for w in ws) + b"\x5A" * (n + 64 - 2 * len(ws))
                    if got != want:
                        raise Violation("wrong-data", "the destination does not hold the %d words" % len(ws))
                    st.add("transfers")
            if [W.ch[0].starts, W.ch[1].starts] != starts:
                raise Violation("unasked-transfer", "%s starts a transfer" % name)
        if W.aborted:
            raise Violation("aborted-transfer", "a transfer was cut off")
        if call("del") or sum(W.fd[k] for k in range(W.nfd)):
            raise Violation("descriptor-leak", "/dev/mem stays open")


def host_env(rng):
    t = {"cpu": short(rng, 6, 40)}
    if rng.random() < 0.2:
        t["fd0"] = rng.choice((0, 0, 1000))
    m = rng.randrange(4)
    if m:
        t["lite"] = [rng.randrange((2, 4, 30)[m - 1]) for _ in range(rng.randrange(1, 12))]
    return {k: v for k, v in t.items() if v}


IDENT = ["valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"]


class C25(Check):
    """the core's register driver on the real register block"""
    pid = "C25"
    runs = {"quick": 12000, "thorough": 300000}
    isolate = True
    real = "software/src/core_axi_lite.cpp, mmap_handler.cpp, tools.cpp; core_axi_lite, debug_module and the Huffman memory inside the whole integration_3"
    stub = "the CPU's AXI-lite port, /dev/mem and the enables of the debug counters are simulated"
    faults = {"bus_stalls": "the CPU's port delays address, data or the acceptance of a response", "failed_calls": "open or mmap fails", "power_cycles": "the core is reset, its registers are lost"}
    required = list(faults) + ["gets", "sets"]
    rule = "a run is one session of driver calls and raw register writes; non-trivial: a delay, reset or fault fired; distinct: by hash of the calls' results and times"
    assumptions = ["a clean batch is evidence, not proof: call sequences and timings are sampled",
                   "Huffman tables hold codes of at most 16 bits, as the core requires"]
    CFG = [{"bd": 12, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 16, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 2, "ps": 1, "fifo": 32, "out": 8, "conv": 9, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 11, "ps": 4, "fifo": 32, "out": 16, "conv": 40, "cfifo": 32, "buf": 77, "axil": True, "debug": True},
           {"bd": 15, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 7, "ps": 2, "fifo": 32, "out": 16, "conv": 20, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 8, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True},
           {"bd": 14, "ps": 1, "fifo": 32, "out": 16, "conv": 15, "cfifo": 32, "buf": 41, "axil": True, "debug": True}]

    def designs(self, tier, seed):
        return [("regs", c) for c in self.CFG]

    def prepare(self, tier, seed):
        Check.prepare(self, tier, seed)
        self.m = sw.Machine()

    def prepare_replay(self, scn):
        Check.prepare_replay(self, scn)
        self.m = sw.Machine()

    def generate(self, rng, tier, idx):
        scn = host_env(rng)
        scn["design"], scn["params"] = "regs", self.CFG[idx // 8 % len(self.CFG)]
        bd = scn["params"]["bd"]
        scn["base"] = rng.choice((0x83C00000, rng.randrange(0x2000, 1 << 15) << 16, rng.randrange(0xA000, 0xF000) << 16))
        if scn["base"] == 0x40400000:       # where the DMA engine is
            scn["base"] += 1 << 16
        ops = []
        two = rng.random() < 0.3
        for _ in range(e2e.many(rng, idx) or rng.randrange(1, rng.choice((6, 25)))):
            k = rng.randrange(2) if two else 0
            x = rng.random()
            v16 = rng.choice((0, 65535, 1, 0x8000, rng.randrange(65536), rng.randrange(65536)))
            if x < 0.45:
                ops.append([rng.choice(("set_height", "set_width", "set_cycles")), k, v16])
                if ops[-1][0] == "set_cycles":
                    ops[-1][2] = rng.choice((0, 0xFFFFFF, rng.randrange(1 << 24), 1 << rng.randrange(24), rng.randrange(1 << 32)))
            elif x < 0.7:
                ops.append([rng.choice(("height", "width", "cycles")), k])
            elif x < 0.78:
                ops.append(["ssss", k])
            elif x < 0.86:
                ops.append(["table", rng.randrange(1 << 20), rng.randrange(bd + 1)])
            elif x < 0.94:
                ops.append(["count", rng.randrange(256), rng.choice((1, rng.randrange(300), rng.randrange(20000)))])
                if rng.random() < 0.6:
                    ops.append(["debug", k])
            elif x < 0.97:
                ops.append(["debug", k])
            else:
                ops.append(["power"])
        scn["ops"] = ops
        scn["two"] = int(two)
        x = rng.random()
        if x < 0.03:
            scn["fail_open"] = 1 << rng.randrange(2)
        elif x < 0.06:
            scn["fail_mmap"] = 1 << rng.randrange(2)
        elif x < 0.09:
            scn["bad_bd"] = rng.choice((0, 1, 17, 32, 255, 2, 16))
        return scn

    def valid(self, scn):
        bd = scn["params"]["bd"]
        if scn["base"] < 0x20000000 or scn["base"] & 0xFFFF or scn["base"] == 0x40400000 or scn.get("two", 0) not in (0, 1):
            return False
        for o in scn["ops"]:
            n = 1 if o[0] == "power" else 3 if o[0] in ("table", "count") or o[0].startswith("set") else 2
            if len(o) != n or (o[0] not in ("power", "table", "count") and o[1] not in ((0, 1) if scn.get("two") else (0,))):
                return False
            if o[0] == "table" and o[2] > bd or o[0] == "count" and o[1] > 255 or o[0] in ("set_height", "set_width") and o[2] > 65535:
                return False
        return True

    def execute(self, scn, st):
        m, W = self.m, self.m.W
        s = self.sim(scn["design"], scn["params"])
        base, bd = scn["base"], scn["params"]["bd"]
        m.reset(scn, dma=0x40400000, core=base)
        m.attach(s)
        log = []
        try:
            self.session(scn, st, m, W, s, base, bd, log)
        finally:
            st.add("cycles", W.cyc)
        st.add("register_accesses", W.accesses)
        st.add("bus_stalls", sum(scn.get("lite", [])) and W.lites)
        if scn.get("lite") or W.nfailed or any(o[0] == "power" for o in scn["ops"]):
            st.seen("runs", zlib.crc32(repr((log, W.cyc)).encode()))

    def session(self, scn, st, m, W, s, base, bd, log):
        I, O, ii, oi = s.i, s.o, s.ii, s.oi
        en = ii["debug_en"]
        hw = [0, 0, 0]
        table = list(axil.entries(bd, ref.STD_SSSS))
        cnt = [0] * 8

        def call(op, a=0, b=0):
            r, out = m.captured(lambda: m.call(op, a, b))
            if r == sw.E_HANG:
                raise Violation(m.trouble(), "%s never returns" % op, W.cyc)
            if r == sw.E_EXIT and not W.exitcode:
                raise Violation("failure-reported-as-success", "%s ended the program with status 0" % op)
            log.append((op, r, W.cyc))
            return r
        m.lib.w_ticks(4)
        bad = scn.get("bad_bd")
        for k in range(1 + scn.get("two", 0)):
            nf = W.nfailed
            b = bad if bad is not None else bd
            r = call(sw.OP["cnew"] + k, base, b)
            if W.nfailed > nf or not 2 <= b <= 16:
                st.add("failed_calls", W.nfailed > nf)
                if r != sw.E_EXIT:
                    raise Violation("failure-unnoticed", "no mapping or a bit depth of %d, the driver goes on" % b)
                if W.accesses:
                    raise Violation("access-without-mapping", "%d accesses" % W.accesses)
                return
            if r:
                raise Violation("gives-up", "the constructor ended the program")
        if bad is not None and bad != bd:
            return

        def regs(what):
            m.lib.w_ticks(6)
            got = [O[oi["height"]], O[oi["width"]], O[oi["allowed"]]]
            if got != hw:
                raise Violation("wrong-registers", "after %s the core has height %d, width %d, %d cycles, expected %d, %d, %d" % tuple([what] + got + hw))
        for o in scn["ops"]:
            name = o[0]
            if name == "power":
                for r in ("full_rst", "core_rst"):
                    if r in ii:
                        I[ii[r]] = 1
                m.lib.w_ticks(3)
                for r in ("full_rst", "core_rst"):
                    if r in ii:
                        I[ii[r]] = 0
                m.lib.w_ticks(4)
                hw[:] = [0, 0, 0]
                cnt = [0] * 8
                st.add("power_cycles")
            elif name == "table":
                rng = random.Random("t/%d" % o[1])
                ln = rng.randrange(1, 17)
                code = rng.choice((rng.randrange(1 << ln), (1 << ln) - 1, 0))
                i = o[2]
                table[i] = axil.entries(bd, [(0, 1)] * i + [(code, ln)])[i] & ((1 << (bd + 21)) - 1)
                m.lib.w_lite(1, base + 4 * (0x400 + 2 * i), table[i] & 0xFFFFFFFF)
                m.lib.w_lite(1, base + 4 * (0x401 + 2 * i), table[i] >> 32)
            elif name == "count":
                I[en] = o[1]
                m.lib.w_ticks(o[2])
                I[en] = 0
                for k in range(8):
                    if o[1] >> k & 1:
                        cnt[k] += o[2]
            elif name.startswith("set"):
                k = {"set_height": 0, "set_width": 1, "set_cycles": 2}[name]
                if call(sw.OP[name] + o[1], o[2]):
                    raise Violation("gives-up", name)
                hw[k] = o[2] & (0xFFFFFF if k == 2 else 0xFFFF)
                regs("%s(%d)" % (name, o[2]))
                st.add("sets")
            elif name in ("height", "width", "cycles"):
                if call(sw.OP[name] + o[1]):
                    raise Violation("gives-up", name)
                want = hw[("height", "width", "cycles").index(name)]
                if m.ret() != want:
                    raise Violation("wrong-value", "get %s returns %d, the core has %d" % (name, m.ret(), want))
                regs("get " + name)
                st.add("gets")
            elif name == "ssss":
                if call(sw.OP[name] + o[1]):
                    raise Violation("gives-up", name)
                want = []
                for i, e in enumerate(table):
                    ln = e >> (16 + bd)
                    want.append("%d - SSSS_CODE: %d - LENGTH: %d" % (i, (e if i == 16 else e >> i) & ((1 << ln) - 1), ln))
                got = m.text()
                if got != want:
                    k = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]][0]
                    raise Violation("wrong-code-table", "line %d is %s, the core has %s" % (k, got[k:k + 1], want[k:k + 1]))
                regs("get_ssss")
                st.add("gets")
            elif name == "debug":
                if call(sw.OP[name] + o[1]):
                    raise Violation("gives-up", name)
                got = m.text()[-8:]
                want = ["%s : %d" % (a, c) for a, c in zip(IDENT, cnt)]
                if got != want:
                    raise Violation("wrong-counters", "%s, the core has %s" % (got, want))
                st.add("gets")
        for k in range(1 + scn.get("two", 0)):
            if call(sw.OP["cdel"] + k):
                raise Violation("gives-up", "destructor")
        if sum(W.fd[k] for k in range(W.nfd)):
            raise Violation("descriptor-leak", "/dev/mem stays open")


def stream_bytes(kind, pix):
    """pixels as they lie in memory"""
    nb = 8 if kind.ppb == 4 else 4
    out = bytearray()
    for i in range(0, len(pix), kind.ppb):
        out += kind.pack(pix[i:i + kind.ppb]).to_bytes(nb, "little")
    return bytes(out)


class C26(Check):
    """frames through drivers, DMA engine, memory and the real core"""
    pid = "C26"
    runs = {"quick": 8000, "thorough": 200000}
    isolate = True
    real = "software/src drivers (xilinx_dma, core_axi_lite, mmap_handler, tools) and the whole core of the Beta and Micro top levels with AXI-lite and debug registers"
    stub = "the DMA engine (PG021, direct register mode), physical memory, /dev/mem, sleep and the CPU's bus port are simulated"
    faults = {"stalled_words": "the memory cannot take the offered word", "source_gaps": "the memory has no beat yet", "bus_stalls": "the CPU's port delays address, data or the acceptance of a response",
              "engine_delays": "the engine takes its time to reset, to start or to finish"}
    required = list(faults) + ["frames", "debug_reads"]
    rule = "a run is a sequence of frames with the timing of memory, engine and CPU; non-trivial: a delay fired; distinct: by hash of the engine's event trace with its times"
    assumptions = ["a clean batch is evidence, not proof: contents, call sequences and timings are sampled",
                   "the engine behaves as its product guide says in direct register mode", "the destination is big enough and the cycle budget is not exceeded"]
    TOPS = ["beta_axis_dbg", "micro_axis_dbg", "beta_fifo_axis_dbg"]

    def designs(self, tier, seed):
        return [(d, None) for d in self.TOPS]

    def prepare(self, tier, seed):
        Check.prepare(self, tier, seed)
        self.m = sw.Machine()

    def prepare_replay(self, scn):
        Check.prepare_replay(self, scn)
        self.m = sw.Machine()

    def generate(self, rng, tier, idx):
        scn = timing(rng)
        scn.update(host_env(rng))
        scn["per_us"] = rng.choice((3, 26, 256, 2560))
        scn["design"] = self.TOPS[idx // 8 % 3]
        k = e2e.KINDS[scn["design"]]
        fr = []
        many = e2e.many(rng, idx)
        for i in range(min(many, 40) or rng.randrange(1, 5)):
            w, h = (e2e.min_width(k, 1) + k.ppb * rng.randrange(2), 1) if many else e2e.gen_geometry(rng, k, rng.random() < 0.1)
            if fr and rng.random() < 0.3:
                w, h = fr[-1]["w"], fr[-1]["h"]
            fr.append({"w": w, "h": h, "pix": e2e.gen_pixels(rng, w * h, w, k.bd), "how": rng.choice((0, 0, 1, 2)), "src": 8 * rng.randrange(1000), "dst": 4 * rng.randrange(1000),
                       "room": rng.choice((4, 64, 1024, rng.randrange(4, 4000, 4))), "order": rng.randrange(4), "dbg": rng.randrange(3) // 2})
        scn["frames"] = fr
        return scn

    def valid(self, scn):
        k = e2e.KINDS[scn["design"]]
        return bool(scn["frames"]) and scn.get("per_us", 1) >= 1 and len(scn.get("stall", [])) % 2 == 0 and all(
            f["w"] % k.ppb == 0 and f["w"] >= e2e.min_width(k, f["h"]) and len(f["pix"]) == f["w"] * f["h"] and f["h"] >= 1 and f["room"] >= 4 for f in scn["frames"])

    def shrink(self, scn):
        k = e2e.KINDS[scn["design"]]
        fr = scn["frames"]
        for i, f in enumerate(fr):
            if len(fr) > 1:
                yield dict(scn, frames=fr[:i] + fr[i + 1:])
            for h in (1, f["h"] // 2, f["h"] - 1):
                if 1 <= h < f["h"]:
                    yield dict(scn, frames=fr[:i] + [dict(f, h=h, pix=f["pix"][:f["w"] * h])] + fr[i + 1:])
            for w in (e2e.min_width(k, f["h"]), f["w"] - k.ppb):
                if k.ppb <= w < f["w"]:
                    yield dict(scn, frames=fr[:i] + [dict(f, w=w, pix=[p for r in range(f["h"]) for p in f["pix"][r * f["w"]:r * f["w"] + w]])] + fr[i + 1:])
            if any(f["pix"]):
                yield dict(scn, frames=fr[:i] + [dict(f, pix=[0] * len(f["pix"]))] + fr[i + 1:])
        for c in core.generic_shrink(scn):
            yield c

    def execute(self, scn, st):
        m, W = self.m, self.m.W
        kind = e2e.KINDS[scn["design"]]
        s = self.sim(scn["design"])
        m.reset(scn)
        m.attach(s, 8 if kind.ppb == 4 else 4)
        try:
            self.session(scn, st, m, W, s, kind)
        finally:
            st.add("cycles", W.cyc)
            st.add("stalled_words", W.stalled)
            st.add("source_gaps", sum(scn.get("gap", [])) and W.beats)
            st.add("bus_stalls", sum(scn.get("lite", [])) and W.lites)
            st.add("engine_delays", (sum(scn.get("reset", [])) and W.resets) + (sum(scn.get("start", [])) and W.ch[0].starts))
        if any(sum(scn.get(n, [])) for n in sw.LISTS):
            st.seen("runs", zlib.crc32(repr((m.events(), W.cyc)).encode()))

    def session(self, scn, st, m, W, s, kind):
        def call(op, a=0, b=0):
            r, out = m.captured(lambda: m.call(op, a, b))
            if r == sw.E_HANG:
                raise Violation(m.trouble(), "%s never returns" % op, W.cyc)
            if r:
                raise Violation("gives-up", "%s: %s" % (op, out[:1]))
            return m.ret()
        m.lib.w_ticks(4)
        call("new", W.dma_base)
        call("cnew", W.core_base, 12)
        W.cyc_max = 1 << 40
        running = 0
        for i, f in enumerate(scn["frames"]):
            exp = b"".join(w.to_bytes(2, "little") for w in e2e.expected(kind, f, f["pix"]))
            data = stream_bytes(kind, f["pix"])
            src, dst = W.ddr_base + SRC_OFF + 64 + f["src"], W.ddr_base + DST_OFF + 64 + f["dst"]
            n = len(exp) + f["room"]
            m.poke(src - 64, b"\xEE" * 64 + data + b"\xDD" * 64)
            m.poke(dst - 64, b"\xA5" * 64 + b"\x5A" * (n + 64))
            W.cyc_max = W.cyc + 100000 + 2000 * W.per_us // 256 + (len(data) + len(exp)) * (4 + max(scn.get("gap", []) or [0]) + max(scn.get("stall", []) or [0]))
            if i == 0 or f["how"] != 2 or scn["frames"][i - 1]["h"] != f["h"]:
                call("set_width", f["w"])
                call("set_height", f["h"])
            else:
                call("set_width", f["w"])
            if i == 0 or f["how"] == 0:
                call("set_cycles", 0xFFFFFF)
            if i == 0 or f["how"] == 0:
                call("reset")
                call("halt")
                running = 0
            if f["how"] == 1:
                call("halt")
                running = 0
            call("addr", src, dst)
            if not running:
                call("start")
                running = 1
            call("len", n, len(data))
            for c in ((0, 1), (1, 0), (1, 1, 0), (0, 1, 0))[f["order"]]:
                call("sync", c)
                if W.ch[c].done != i + 1:
                    raise Violation("sync-too-early", "frame %d: channel %d is not done" % (i, c), W.cyc)
            if W.full or W.nfault or W.aborted:
                raise Violation("not-complete", "frame %d does not fit its buffer or was cut off" % i)
            got = m.peek(dst - 64, n + 128)
            want = b"\xA5" * 64 + exp + b"\x5A" * (n + 64 - len(exp))
            if got != want:
                k = [a == b for a, b in zip(got, want)].index(False) - 64
                raise Violation("wrong-memory", "frame %d: byte %d of the destination is %02x, expected %02x" % (i, k, got[k + 64], want[k + 64]))
            if m.peek(src - 64, len(data) + 128) != b"\xEE" * 64 + data + b"\xDD" * 64:
                raise Violation("source-changed", "frame %d" % i)
            if W.ch[1].pos != len(exp):
                raise Violation("wrong-length", "frame %d: %d bytes received, %d expected" % (i, W.ch[1].pos, len(exp)))
            if call("width") != f["w"] or call("height") != f["h"]:
                raise Violation("wrong-registers", "frame %d: the geometry changed" % i)
            if f["dbg"]:
                call("debug")
                st.add("debug_reads")
                v = [int(x.split(" : ")[1]) for x in m.text()[-8:]]
                # the core counts the beats and words of (at least) the last frame, C13 has the exact semantics
                nb = len(data) // W.in_bytes
                if v[1] < nb - 4 or v[3] < len(exp) // 2 - 4 or max(v) > W.cyc:
                    raise Violation("wrong-counters", "frame %d: %s with %d beats and %d words, %d cycles" % (i, v, nb, len(exp) // 2, W.cyc))
            st.add("frames")
        call("cdel")
        call("del")


W_, H_ = 4096, 3072


def big_image(seed, ppb, calm=False):
    """a full-size image of rows from a pool -> (pixels, RAW12 file, bytes the engine has to read)"""
    rng = random.Random("image/%s" % seed)
    pool = []
    kind = e2e.KINDS["beta_fifo_axis_dbg" if ppb == 4 else "beta_axis_dbg"]
    for _ in range(16):
        amp = rng.choice((1, 2, 4, 4, 6, 8)) if calm or rng.random() < 0.95 else rng.choice((40, 500, 4000))
        a = [rng.randrange(4096) for _ in range(4)]
        r = []
        for k in range(W_):
            c = k & 3
            a[c] = min(4095, max(0, a[c] + rng.randrange(-amp, amp + 1)))
            r.append(a[c])
        raw = bytearray()
        for k in range(0, W_, 2):
            raw += bytes((r[k] >> 4, (r[k] & 15) << 4 | r[k + 1] >> 8, r[k + 1] & 255))
        pool.append((r, bytes(raw), stream_bytes(kind, r)))
    rows = [pool[rng.randrange(16)] for _ in range(H_)]
    pix = None
    return rows, b"".join(x[1] for x in rows), b"".join(x[2] for x in rows)


class C28(Check):
    """the test program on the simulated machine"""
    pid = "C28"
    runs = {"quick": 240, "thorough": 6000}
    isolate = True
    hang_s = 300
    real = "software/src: main and everything it uses; in every run with \"core\" the whole Beta core with its registers at full image size"
    stub = "the DMA engine, physical memory, /dev/mem, files, clock and sleep are simulated; without \"core\" a stand-in delivers the output words"
    faults = {"corrupted_outputs": "a bit of what the core delivered is changed, dropped or added", "failed_calls": "open, mmap, stat, fopen, fread or malloc fails or a file is short",
              "bus_errors": "a transfer ends in an engine error", "stalled_words": "the memory cannot take the offered word", "damaged_references": "the reference file differs from the output"}
    required = list(faults) + ["succeeded", "failed", "refused", "full_core_frames"]
    rule = "a run is one execution of the program with its files, machine timing and faults; non-trivial: all; distinct: by hash of the printed verdicts, times and the scenario"
    assumptions = ["a clean batch is evidence, not proof: files, timings and faults are sampled",
                   "the reference file has at least 256 bytes", "the engine behaves as its product guide says in direct register mode"]

    def designs(self, tier, seed):
        return [("beta_axis_dbg", None), ("beta_fifo_axis_dbg", None)]

    def prepare(self, tier, seed):
        Check.prepare(self, tier, seed)
        self.ms = {32: sw.Machine(32), 64: sw.Machine(64)}
        self.images = {}

    def prepare_replay(self, scn):
        Check.prepare_replay(self, scn)
        self.ms = {32: sw.Machine(32), 64: sw.Machine(64)}
        self.images = {}

    def generate(self, rng, tier, idx):
        scn = timing(rng)
        scn.update(host_env(rng))
        scn["per_us"] = rng.choice((2560, 25600, 25600, 51200))
        scn["bits"] = rng.choice((32, 64))
        scn["image"] = rng.randrange(4)
        scn["junk"] = rng.randrange(1 << 20)
        if idx % 40 == 3:
            scn["core"] = 1
            scn["image"] = rng.randrange(1 << 20)
            for n in ("gap", "stall"):
                if sum(scn.get(n, [])) > 3 * len(scn.get(n, [])):
                    del scn[n]
            if rng.random() < 0.5:
                scn["ref"] = [[rng.randrange(1 << 24), 1 << rng.randrange(8)]]
            return scn
        n = rng.choice((130, rng.randrange(130, 400), rng.randrange(130, 200000), rng.randrange(130, 4000)))
        scn["n"] = n
        scn["odd"] = rng.randrange(4) // 3
        x = rng.random()
        pos = rng.choice((0, n - 1, n - 2, n - rng.randrange(1, 12), rng.randrange(n), rng.randrange(n)))
        if x < 0.3:
            pass
        elif x < 0.5:
            scn["ref"] = [[2 * n - 2 if scn["odd"] and rng.random() < 0.5 else 2 * pos + rng.randrange(2), 1 << rng.randrange(8)]]
        elif x < 0.62:
            scn["flip"] = [pos, 1 << rng.randrange(8)]
        elif x < 0.72:
            scn["drop"] = pos
        elif x < 0.8:
            scn["add"] = pos
        elif x < 0.86:
            scn["err"] = [rng.randrange(2), rng.choice((0, rng.randrange(n))), rng.choice((16, 32, 64))]
        elif x < 0.98:
            m = rng.randrange(8)
            if m < 5:
                scn["fail_" + sw.FAILS[m]] = 1 << rng.randrange(4 if m < 2 else 2)
            elif m == 5:
                scn["malloc"] = 1 << rng.randrange(2)
            elif m == 6:
                scn["rawlen"] = rng.choice((0, 1, W_ * H_ * 3 // 2 - 1, W_ * H_ * 3 // 2 - rng.randrange(1, 100000), W_ * H_ * 3 // 2 + 10))
            else:
                scn["short"] = rng.randrange(2)
        else:
            scn["argc"] = rng.choice((1, 2, 4))
        return scn

    def valid(self, scn):
        return scn["bits"] in (32, 64) and scn.get("per_us", 1) >= 256 and len(scn.get("stall", [])) % 2 == 0 and (scn.get("core") or scn["n"] >= 130) and \
            all(len(r) == 2 and r[1] for r in scn.get("ref", [])) and ("flip" not in scn or len(scn["flip"]) == 2 and 0 < scn["flip"][1] < 256) and \
            ("err" not in scn or len(scn["err"]) == 3 and scn["err"][2])

    def image(self, seed, bits):
        k = (seed, bits)
        v = self.images.get(k)
        if v is None:
            v = self.images[k] = big_image(seed, bits // 16)
            if len(self.images) > 9:
                self.images.clear()
        return v

    def execute(self, scn, st):
        m = self.ms[scn["bits"]]
        W = m.W
        cfg = m.config()
        m.reset(scn, cfg["dma"], cfg["core"], cfg["src"])
        kind = e2e.KINDS["beta_fifo_axis_dbg" if scn["bits"] == 64 else "beta_axis_dbg"]
        s = self.sim("beta_fifo_axis_dbg" if scn["bits"] == 64 else "beta_axis_dbg")
        m.attach(s, scn["bits"] // 8)
        rows, raw, beats = self.image(scn["image"], scn["bits"])
        real = scn.get("core")
        if real:
            pix = [p for r in rows for p in r[0]]
            body = ref.frame_stream(pix, W_, 12)
            del pix
        else:
            rng = random.Random("words/%d/%d" % (scn["n"], scn["junk"]))
            body = [rng.randrange(65536) if rng.random() < 0.9 else 0xFF00 for _ in range(scn["n"])]
            if scn.get("odd"):
                body[-1] &= 0xFF00
            W.stub = 1
        good = bytearray(b"".join(w.to_bytes(2, "big") for w in body))
        if scn.get("odd") and not real:
            del good[-1]
        refd = bytearray(good)
        differs = False
        for p, x in scn.get("ref", []):
            refd[p % len(refd)] ^= x
            st.add("damaged_references")
        ws = [0xFFFF] * 8 + body + [0xFFFF] * 8
        if not real:
            if "flip" in scn:
                p, x = scn["flip"]
                ws[8 + p % len(body)] ^= x << 8 * (scn["junk"] & 1)
                st.add("corrupted_outputs")
            if "drop" in scn:
                del ws[8 + scn["drop"] % len(body)]
                st.add("corrupted_outputs")
            if "add" in scn:
                ws.insert(8 + scn["add"] % len(body), 0x1234)
                st.add("corrupted_outputs")
            m.words(ws, len(beats) * 3 // 4)
        out = b"".join(w.to_bytes(2, "little") for w in ws)
        rl = scn.get("rawlen")
        rawf = raw if rl is None else raw[:rl] + b"\x77" * max(0, rl - len(raw))
        sh = scn.get("short")
        m.file(0, rawf, len(rawf) // 2 if sh == 0 else None)
        m.file(1, bytes(refd), len(refd) // 4 * 2 if sh == 1 else None)
        W.cyc_max = 1 << 40
        m.dirty += [(0, len(beats)), (DST_OFF, 0x2000000)]
        args = [m.f.new("char[]", x) for x in (b"prog", m.f.string(W.file[0].path), m.f.string(W.file[1].path))]
        m.keep += args
        m.lib.sw_args(scn.get("argc", 3), *args)
        r, text = m.captured(lambda: m.call("main", cpu_s=200))
        st.add("cycles", W.cyc)
        st.add("stalled_words", W.stalled)
        st.add("bus_errors", W.nfault)
        nbad = W.nfailed + m.lib.al_failed()
        cut = 0
        if sh is not None and not W.file[sh].sized:
            # its size was taken from the file itself: it is just a shorter file, and the output need only fit as far as that
            if sh:
                refd = refd[:len(refd) // 4 * 2]
                cut = 1
            else:
                rl = len(rawf) // 2
            sh = None
        st.add("failed_calls", nbad + (sh is not None) + (rl is not None and rl < len(raw)))
        st.seen("runs", zlib.crc32(repr((sorted(scn.items()), W.cyc, r, [x for x in text if "alid" in x or "arker" in x])).encode()))
        if r == sw.E_HANG:
            raise Violation(m.trouble(), "the program never ends; last output %s" % text[-3:], W.cyc)
        succ, fail = "Validation succeeded." in text, any(x.startswith("Validation failed at") for x in text)
        if nbad or sh is not None or rl is not None and rl < len(raw) or scn.get("argc", 3) != 3 or W.nfault:
            if r != sw.E_EXIT or not W.exitcode or not any("Error & Terminating" in x for x in text):
                raise Violation("failure-unnoticed", "the program went on (end %d, exit code %d): %s" % (r, W.exitcode, text[-3:]))
            if succ:
                # only a step behind the comparison may have failed, and what it said must be true
                n = len(refd)
                got = bytearray(m.peek(cfg["dst"], 16 + n + (n & 1))[16:])
                got[0::2], got[1::2] = got[1::2], got[0::2]
                if W.nfault or got[:n & ~1] != refd[:n & ~1]:
                    raise Violation("false-success", "success although a step failed")
            st.add("refused")
            return
        if r == sw.E_EXIT:
            raise Violation("gives-up", "the program stops: %s" % text[-3:])
        if r:
            raise Violation("ends", "%d" % r)
        src = m.peek(cfg["src"], len(beats))
        if src != beats:
            k = next(i for i in range(0, len(src), 4096) if src[i:i + 4096] != beats[i:i + 4096])
            k = next(i for i in range(k, k + 4096) if src[i] != beats[i])
            raise Violation("wrong-source", "byte %d of the source memory is %02x, expected %02x" % (k, src[k], beats[k]))
        # what lies in memory behind the start marker, as a byte stream
        n = len(refd)
        need = n + (n & 1)
        dst = m.peek(cfg["dst"], len(out) + 4096)
        if cut:
            if dst[:16 + n] != out[:16 + n]:
                raise Violation("harness", "the destination does not hold the first %d bytes" % (16 + n))
        elif dst[:len(out)] != out or any(dst[len(out):]):
            raise Violation("wrong-output" if real else "harness", "the destination does not hold the %d words" % len(ws))
        got = bytearray(dst[16:16 + need])
        got[0::2], got[1::2] = got[1::2], got[0::2]
        same = bytes(got[:n]) == bytes(refd) and not any(got[n:])
        if succ and not same:
            k = next((i for i in range(n) if got[i] != refd[i]), n)
            raise Violation("false-success", "validation succeeds, byte %d of %d is %02x instead of %02x" % (k, n, got[k], refd[k] if k < n else 0),
                            sig="last-byte-of-odd-length" if n & 1 and k == n - 1 else None)
        if same and not succ or same and fail:
            raise Violation("false-failure", "the output is the reference, the program says %s" % [x for x in text if "alidation" in x])
        if succ == fail:
            raise Violation("no-verdict", "%s" % [x for x in text if "alidation" in x])
        if fail:
            # the difference that is named is the first one in memory, where the bytes of each word are swapped
            k = next(i for i in range(need) if got[i ^ 1] != (refd[i ^ 1] if i ^ 1 < n else 0))
            x = [x.split("Validation failed at ", 1)[1] for x in text if x.startswith("Validation failed at")][0]
            if x not in ("word: %d" % (k // 4), "byte: %d" % k):
                raise Violation("wrong-position", "the first difference is at byte %d of the memory, the program says %s" % (k, x))
        st.add("succeeded" if succ else "failed")
        if "marker found." not in text or (not any(x.startswith("normal marker found - offset is 0.") for x in text) and not ("drop" in scn or "add" in scn or "flip" in scn or cut or n & 1)):
            raise Violation("marker-report", "%s" % [x for x in text if "arker" in x])
        if "width: 4096" not in text or "height: 3072" not in text or "allowed_cycles: 16777215" not in text:
            raise Violation("wrong-registers", "%s" % [x for x in text if ": " in x][:8])
        if sum(W.fd[k] for k in range(W.nfd)) or W.file[0].open or W.file[1].open:
            raise Violation("descriptor-leak", "something stays open")
        if real:
            st.add("full_core_frames")
