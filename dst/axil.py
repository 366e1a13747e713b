"""AXI4-Lite master with every channel timing explicit, its protocol checker, and the register map model.

op = ["w", byte address, data, strobes, d_aw, d_w, d_b, par]  or  ["r", byte address, d_ar, d_r, par]
  d_aw/d_w/d_ar: idle cycles before the address / data is offered (independent, so data may come first)
  d_b/d_r:       -1: ready is held high from the start; n: ready is raised n cycles after valid is seen
  par:           1: may start while the other channel's operation is still running"""
from core import Violation

OKAY, SLVERR, DECERR = 0, 2, 3


class Slot:
    __slots__ = ("op", "k", "aw", "w", "t0", "ta", "tw", "tv", "wait", "pv", "pdata", "presp", "rdy", "ov")


class Master:
    def __init__(self, s, pre="", ids=None):
        self.I, self.O = s.i, s.o
        for n in ("araddr", "arvalid", "rready", "awaddr", "awvalid", "wdata", "wstrb", "wvalid", "bready"):
            setattr(self, "i_" + n, s.ii[pre + n])
        for n in ("arready", "rdata", "rresp", "rvalid", "awready", "wready", "bresp", "bvalid"):
            setattr(self, "o_" + n, s.oi[pre + n])
        self.ops = []
        self.n = 0
        self.r = self.w = None
        self.log = []              # [k, op, resp, data, t_addr, t_effect, t_done]
        self.base = 0
        self.t_last = 0
        self.nstall = self.ndata_first = self.npar = self.nops = 0

    def load(self, ops):
        self.ops = list(ops)
        self.n = 0

    def idle(self):
        return self.n >= len(self.ops) and self.r is None and self.w is None

    def abort(self):
        """reset: whatever was in flight is gone"""
        self.r = self.w = None
        self.ops = []
        self.n = 0
        I = self.I
        I[self.i_arvalid] = I[self.i_awvalid] = I[self.i_wvalid] = I[self.i_rready] = I[self.i_bready] = 0

    def pre(self, cyc):
        I = self.I
        while self.n < len(self.ops):
            op = self.ops[self.n]
            busy = self.r if op[0] == "r" else self.w
            other = self.w if op[0] == "r" else self.r
            if busy is not None or (other is not None and not op[-1]):
                break
            s = Slot()
            s.op, s.k, s.t0, s.ta, s.tw, s.tv, s.wait, s.pv, s.rdy, s.ov = op, self.n, cyc, -1, -1, -1, -1, 0, 0, 0
            if other is not None:
                self.npar += 1
            if op[0] == "r":
                self.r = s
            else:
                self.w = s
            self.n += 1
            self.nops += 1
        s = self.r
        if s is None:
            I[self.i_arvalid] = 0
            I[self.i_rready] = 0
        else:
            if s.ta < 0 and cyc - s.t0 >= s.op[2]:
                I[self.i_arvalid] = 1
                I[self.i_araddr] = s.op[1]
            else:
                I[self.i_arvalid] = 0
            d = s.op[3]
            if d < 0:
                s.rdy = 1
            elif s.wait >= 0:
                s.rdy = 1 if s.wait == 0 else 0
                if s.wait:
                    s.wait -= 1
                    self.nstall += 1
            else:
                s.rdy = 0
            I[self.i_rready] = s.rdy
        s = self.w
        if s is None:
            I[self.i_awvalid] = I[self.i_wvalid] = I[self.i_bready] = 0
        else:
            if s.ta < 0 and cyc - s.t0 >= s.op[4]:
                I[self.i_awvalid] = 1
                I[self.i_awaddr] = s.op[1]
            else:
                I[self.i_awvalid] = 0
            if s.tw < 0 and cyc - s.t0 >= s.op[5]:
                I[self.i_wvalid] = 1
                I[self.i_wdata] = s.op[2]
                I[self.i_wstrb] = s.op[3]
            else:
                I[self.i_wvalid] = 0
            d = s.op[6]
            if d < 0:
                s.rdy = 1
            elif s.wait >= 0:
                s.rdy = 1 if s.wait == 0 else 0
                if s.wait:
                    s.wait -= 1
                    self.nstall += 1
            else:
                s.rdy = 0
            I[self.i_bready] = s.rdy

    def post(self, cyc):
        """after the settle of this cycle (values on the bus right before the edge)"""
        O, I = self.O, self.I
        # ---- read
        rv = O[self.o_rvalid]
        s = self.r
        if s is None:
            if rv:
                raise Violation("read-response-without-request", "rvalid with no read outstanding", cyc)
        else:
            if rv:
                if s.ta < 0:
                    raise Violation("read-response-before-address", "rvalid before the address of %08x was accepted" % s.op[1], cyc)
                d, rs = O[self.o_rdata], O[self.o_rresp]
                if s.pv and (d != s.pdata or rs != s.presp):
                    raise Violation("read-response-changed", "%08x/%d became %08x/%d before it was accepted" % (s.pdata, s.presp, d, rs), cyc)
                if s.tv < 0:
                    s.tv = cyc
                    if s.op[3] >= 0:
                        s.wait = s.op[3]
                s.pdata, s.presp = d, rs
                if s.rdy:
                    self.log.append([s.k, s.op, rs, d, s.ta, s.tv, cyc])
                    self.r = None
                    self.t_last = cyc
                else:
                    s.pv = 1
            elif s.pv:
                raise Violation("read-response-withdrawn", "rvalid fell before rready", cyc)
            if s.ta < 0 and I[self.i_arvalid] and O[self.o_arready]:
                s.ta = cyc
        # ---- write
        bv = O[self.o_bvalid]
        s = self.w
        if s is None:
            if bv:
                raise Violation("write-response-without-request", "bvalid with no write outstanding", cyc)
        else:
            if bv:
                if s.ta < 0 or s.tw < 0:
                    raise Violation("write-response-too-early", "bvalid before address and data of %08x were accepted" % s.op[1], cyc)
                rs = O[self.o_bresp]
                if s.pv and rs != s.presp:
                    raise Violation("write-response-changed", "bresp %d became %d before it was accepted" % (s.presp, rs), cyc)
                if s.tv < 0:
                    s.tv = cyc
                    if s.op[6] >= 0:
                        s.wait = s.op[6]
                s.presp = rs
                if s.rdy:
                    self.log.append([s.k, s.op, rs, None, s.tw, s.tv, cyc])
                    self.w = None
                    self.t_last = cyc
                else:
                    s.pv = 1
            elif s.pv:
                raise Violation("write-response-withdrawn", "bvalid fell before bready", cyc)
            if s.ta < 0 and I[self.i_awvalid] and O[self.o_awready]:
                s.ta = cyc
            if s.tw < 0 and I[self.i_wvalid] and O[self.o_wready]:
                s.tw = cyc
                if s.ta < 0:
                    self.ndata_first += 1


def op_cost(op):
    if op[0] == "w":
        return max(op[4], op[5]) + max(0, op[6]) + 2
    return op[2] + max(0, op[3]) + 2


class CoreMap:
    """The core's register map, as its documentation gives it (word addresses = byte address / 4):
    0x400+i Huffman entry halves, 0x800 height|width<<16, 0x801 allowed cycles (24 bits),
    0x1000+i debug counters (when built in); anything else is a decode error and changes nothing."""

    def __init__(self, bd, table_entries, debug=False):
        self.bd, self.debug = bd, debug
        self.hw = 0
        self.allowed = 0
        self.mem = []
        m = (1 << (bd + 21)) - 1
        for e in table_entries:
            e &= m
            self.mem += [e & 0xFFFFFFFF, e >> 32]
        self.himask = (1 << max(0, bd + 21 - 32)) - 1

    def where(self, addr):
        a = (addr >> 2) & 0x1FFF
        if a & 0x400:
            i = a & 0x3F
            return ("mem", i) if i < 2 * (self.bd + 1) else None
        if a & 0x800:
            return ("hw", 0) if not a & 1 else ("allowed", 0)
        if a & 0x1000:
            return ("debug", a & 7) if self.debug else None
        return None

    @staticmethod
    def merge(old, data, strb):
        if old is None:
            return data if strb == 15 else None
        for b in range(4):
            if strb >> b & 1:
                old = (old & ~(255 << 8 * b)) | (data & (255 << 8 * b))
        return old

    def write(self, addr, data, strb):
        """-> response"""
        w = self.where(addr)
        if w is None:
            return DECERR
        if w[0] == "mem":
            i = w[1]
            v = self.merge(self.mem[i], data, strb)
            if v is not None and i & 1:
                v &= self.himask
            if v is not None and not i & 1 and self.bd + 21 < 32:
                v &= (1 << (self.bd + 21)) - 1
            self.mem[i] = v
        elif w[0] == "hw":
            self.hw = self.merge(self.hw, data, strb)
        elif w[0] == "allowed":
            v = self.merge(self.allowed, data, strb)
            self.allowed = None if v is None else v & 0xFFFFFF
        else:
            return SLVERR
        return OKAY

    def read(self, addr):
        """-> (response, data or None when unspecified)"""
        w = self.where(addr)
        if w is None:
            return DECERR, None
        if w[0] == "mem":
            return OKAY, self.mem[w[1]]
        if w[0] == "hw":
            return OKAY, self.hw
        if w[0] == "allowed":
            return OKAY, self.allowed
        return OKAY, None

    def reset(self):
        """external reset: the registers are cleared, the Huffman memory keeps its contents"""
        self.hw = self.allowed = 0


def entries(bd, table):
    """Huffman table -> memory entries: length in the top 5 bits, code shifted by its SSSS class"""
    out = []
    for i, (c, l) in enumerate(table[:bd + 1]):
        out.append((l << (16 + bd)) | (c if i == 16 else c << i))
    return out


def check_history(log, model, where="", unspecified=()):
    """Replays the completed operations against the register model.  Reads see the value at some instant
    between the acceptance of their address and their response; a write takes effect at some instant between the
    acceptance of its data and its response."""
    writes = sorted((e for e in log if e[1][0] == "w"), key=lambda e: e[4])
    reads = sorted((e for e in log if e[1][0] == "r"), key=lambda e: e[4])
    wi = 0
    floor = 0                       # writes already proven to be visible
    for r in reads:
        # writes surely before: response seen before the read's address was accepted
        while wi < len(writes) and (writes[wi][5] <= r[4] or wi < floor):
            apply(writes[wi], model)
            wi += 1
        resp, val = model.read(r[1][1])
        if r[2] != resp:
            raise Violation("wrong-read-response", "read of %08x answered %d, expected %d%s" % (r[1][1], r[2], resp, where), r[5])
        if val is None or r[3] == val:
            continue
        # a write that overlaps the read may be visible
        ok = False
        saved = (model.hw, model.allowed, list(model.mem))
        k = wi
        while k < len(writes) and writes[k][4] <= r[5]:
            model.write(writes[k][1][1], writes[k][1][2], writes[k][1][3])
            k += 1
            v = model.read(r[1][1])[1]
            if v is None or v == r[3]:
                ok = True
                floor = k
                break
        model.hw, model.allowed, model.mem = saved
        if not ok:
            raise Violation("wrong-read-data", "read of %08x returned %08x, expected %08x%s" % (r[1][1], r[3], val, where), r[5])
    while wi < len(writes):
        apply(writes[wi], model)
        wi += 1


def apply(w, model):
    resp = model.write(w[1][1], w[1][2], w[1][3])
    if resp is not None and w[2] != resp:
        raise Violation("wrong-write-response", "write to %08x answered %d, expected %d" % (w[1][1], w[2], resp), w[5])


def gen_timing(rng, m):
    """(d_addr, d_data, d_resp)"""
    if m == 0:
        return 0, 0, -1
    if m == 1:
        return 0, 0, 0
    if m == 2:
        return rng.randrange(4), rng.randrange(4), rng.randrange(-1, 4)
    if m == 3:
        return rng.randrange(12), 0, rng.choice((-1, 0, 5, 20))
    return rng.choice((0, 1, 5, 30)), rng.choice((0, 1, 5, 30)), rng.choice((-1, 0, 1, 2, 30))


def w(rng, addr, data, strb=15, m=None, par=0):
    a, d, b = gen_timing(rng, rng.randrange(5) if m is None else m)
    return ["w", addr, data, strb, a, d, b, par]


def r(rng, addr, m=None, par=0):
    a, _, b = gen_timing(rng, rng.randrange(5) if m is None else m)
    return ["r", addr, a, b, par]
