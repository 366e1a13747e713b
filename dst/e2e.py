"""End-to-end runs: pixel source -> real core -> sink, every schedule decision explicit.

Scenario fields
  design, params
  frames: [{w, h, pix: [...], allowed}]      allowed = forced-end budget in cycles (absent: never)
          large frames carry g: [seed, mode] (pixel generator) instead of pix
          table: the Huffman table in force for this frame, [[code, length], ...] (AXI-lite designs)
          ps: seed of the order, splitting and bus timing of the operations that program the core
          before the frame (AXI-lite designs); keep: 1: rely on registers that already hold the values;
          eager: 1: offered while the frame before it still comes out (same size, budget and table)
  gaps:   idle cycles before each input beat, in order over the whole run (missing: 0)
  sink:   alternating ready/stalled run lengths, in cycles (after the last: ready for ever)
  lazy:   delays of a sink that waits for valid before it raises ready ([]: not lazy)
  hold:   [[frame, word, n], ...] the sink lets this word (from the end, if negative) wait for n cycles
  rst:    [[cycle, length], ...] external reset pulses (the interrupted frame is sent again)
  tlast:  0: the source never raises its (ignored) last flag, 1: on the last beat, 2: at random
  warp:   1: cycles in which nothing can happen (long gaps and stalls) run in one go, all the same
  junk:   seed of the garbage on unused and invalid input bits (0: zeros)
"""
import random
import ref
from core import Violation

import axil
import ref
from core import Violation

MARK, FEND = 0xFFFF, 0xFFFE
NEVER = 0xFFFFFF
FORCE_SLACK = 16           # cycles between the end of the budget and the first forced-end word offered


class Kind:
    """How one top level packs pixels into beats and what it emits."""

    def __init__(self, ppb, ps, bd, pack, framed, obits, multi, pixports=0, busy=False, has_last=True, unused=0, axil=False, conv=15, dbg=False):
        self.ppb, self.ps, self.bd, self.pack = ppb, ps, bd, pack
        self.framed, self.obits, self.multi = framed, obits, multi
        self.pixports, self.busy, self.has_last = pixports, busy, has_last
        self.unused, self.axil, self.conv, self.dbg = unused, axil, conv, dbg
        self.lvds = not has_last           # 16-bit words packed into 40-bit beats, no frame boundary visible


def _p4(p):
    return (p[0] << 52) | (p[1] << 40) | (p[2] << 28) | (p[3] << 16)


KINDS = {
    "beta_axis": Kind(2, 2, 12, lambda p: (p[0] << 20) | (p[1] << 8), True, 16, True, unused=0xFF),
    "beta_fifo_axis": Kind(4, 2, 12, _p4, True, 16, True, unused=0xFFFF),
    "beta_lvds": Kind(4, 2, 12, _p4, True, 40, True, has_last=False, unused=0xFFFF),
    "micro_axis": Kind(1, 1, 12, lambda p: p[0], True, 16, True, unused=0xFFFFF000, axil=True),
    "beta_axis_axil": Kind(2, 2, 12, lambda p: (p[0] << 20) | (p[1] << 8), True, 16, True, unused=0xFF, axil=True),
    "int3_axis": Kind(4, 4, 12, lambda p: p[0] | (p[1] << 12) | (p[2] << 24) | (p[3] << 36), False, 32, False,
                      unused=0xFFFF << 48),
}
KINDS["beta_axis_dbg"] = Kind(2, 2, 12, KINDS["beta_axis"].pack, True, 16, True, unused=0xFF, axil=True, dbg=True)
KINDS["beta_fifo_axis_dbg"] = Kind(4, 2, 12, _p4, True, 16, True, unused=0xFFFF, axil=True, dbg=True)
KINDS["micro_axis_dbg"] = Kind(1, 1, 12, KINDS["micro_axis"].pack, True, 16, True, unused=0xFFFFF000, axil=True, dbg=True)

for _n in ("beta_axis", "beta_fifo_axis", "beta_lvds"):
    KINDS[_n + "_full"] = KINDS[_n]


def kind_of(scn):
    if scn["design"] == "int3":
        p = scn["params"]
        return Kind(p["ps"], p["ps"], p["bd"], None, False, p["out"], False, pixports=p["ps"], busy=True, axil=p.get("axil", False), conv=p["conv"])
    return KINDS[scn["design"]]


def pixels(kind, f):
    if "pix" in f:
        return f["pix"]
    if f["g"][1] == "camera":
        return camera(f)
    return gen_pixels(random.Random("%s/%s" % tuple(f["g"])), f["w"] * f["h"], f["w"], kind.bd, mode=f["g"][1])


class Lazy:
    """beats of a big frame, made when needed"""

    def __init__(self, pix, n):
        self.pix, self.n = pix, n

    def __len__(self):
        return len(self.pix) // self.n

    def __getitem__(self, i):
        return self.pix[i * self.n:i * self.n + self.n]


class Part:
    """the beginning of a long list"""

    def __init__(self, head, size):
        self.head, self.size = head, size

    def __len__(self):
        return self.size

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise IndexError
        if i >= len(self.head):
            raise Violation("extra-word", "word %d, although the pixels sent so far only fill %d" % (i, len(self.head)))
        return self.head[i]


def camera(f):
    """a big frame of rows drawn from a pool: mostly smooth, some noisy"""
    rng = random.Random("camera/%s" % f["g"][0])
    w, h = f["w"], f["h"]
    noisy = 0 if f.get("calm") else rng.choice((0, 0.02, 0.1))
    pool = []
    for _ in range(24):
        amp = rng.choice((1, 2, 4, 4, 6, 8)) if rng.random() >= noisy else rng.choice((40, 500, 4000))
        a = [rng.randrange(4096) for _ in range(4)]
        r = []
        for k in range(w):
            c = k & 3
            a[c] = min(4095, max(0, a[c] + rng.randrange(-amp, amp + 1)))
            r.append(a[c])
        pool.append(r)
    pix = []
    for _ in range(h):
        pix += pool[rng.randrange(24)]
    return pix


def beats_of(kind, pix):
    n = kind.ppb
    if len(pix) > 1000000:
        return Lazy(pix, n)
    if len(pix) % n:
        pix = pix + [0] * (-len(pix) % n)
    return [pix[i:i + n] for i in range(0, len(pix), n)]


def expected(kind, f, pix):
    if len(pix) > 1000000:
        part = f.get("part")
        ws = ref.frame_stream(pix, f["w"], kind.bd, part)
        if kind.framed:
            ws = [MARK] * 8 + ws + ([MARK] * 8 if part is None else [])
        return ws if part is None else Part(ws, 1 << 24)
    codes = ref.encode_bits(pix, f["w"], kind.bd, f.get("table"))
    if not kind.framed:
        return ref.words(codes, kind.obits)
    return [MARK] * 8 + ref.stuffed(ref.words(codes, 16)) + [MARK] * 8


class Opt:
    comb = False                # also check that valid/data/last do not depend on ready
    content = True              # compare every word with the reference model
    collect = None              # list: receives [frame, word, last, forced] of every accepted word
    tap = None                  # called once per cycle with the handshakes
    onlog = None                # called with the completed bus operations
    final = None                # bus operations after the last frame


def run(chk, scn, st, opt=Opt):
    kind = kind_of(scn)
    s = chk.sim(scn["design"], scn.get("params"))
    I, O, ii, oi = s.i, s.o, s.ii, s.oi
    step, ctl = s.step, s.ctl
    frames = scn["frames"]
    pixs = [pixels(kind, f) for f in frames]
    exps = [expected(kind, f, p) for f, p in zip(frames, pixs)]
    beats = [beats_of(kind, p) for p in pixs]
    gaps, sink, lazy, rst = scn.get("gaps", []), scn.get("sink", []), scn.get("lazy", []), scn.get("rst", [])
    hold = {}
    for a, b, c in scn.get("hold", []):
        hold.setdefault(a, {})[b] = c
    held = hold.get(0)
    junk = lcg = scn.get("junk", 0)
    tlmode = scn.get("tlast", 0)
    content, collect, comb = opt.content, opt.collect, opt.comb
    tap, final = opt.tap, opt.final
    i_valid, i_rst = ii["tvalid"], ii["full_rst"]
    i_last, i_crst = ii.get("tlast"), ii.get("core_rst")
    i_h, i_w, i_a = ii.get("height"), ii.get("width"), ii.get("allowed")
    pixports = [ii["px%d" % k] for k in range(kind.pixports)]
    i_data = ii.get("tdata")
    i_ready = ii["busy"] if kind.busy else ii["tready"]
    o_ready = oi["nready"] if kind.busy else oi["ready"]
    inv = 1 if kind.busy else 0
    o_valid, o_data, o_last = oi["valid"], oi["data"], oi.get("last")
    pack, unused = kind.pack, kind.unused
    pmask = (1 << kind.bd) - 1
    ujunk = (junk * 0x9E3779B97F4A7C15 >> 3) & unused
    dmask = 0x7FFFFFFF if pixports else s_mask(s, i_data) & 0x7FFFFFFF
    host = None
    traffic = scn.get("traffic", [])
    tpos = 0
    opcost = 0
    if kind.axil:
        host = axil.Master(s)
        model = axil.CoreMap(kind.bd, axil.entries(kind.bd, ref.STD_SSSS), kind.dbg or bool((scn.get("params") or {}).get("debug")))
        opcost = 1000 + 100 * 300 * len(frames) + sum(axil.op_cost(o) + 30 for o in traffic)

    # budget: liveness as progress within a bounded number of cycles once gaps and stalls are spent
    nwords = sum(len(e) for e in exps)
    nbeats = sum(len(b) for b in beats)
    budget = sum(gaps) + sum(sink) + sum(x[2] + 2 for x in scn.get("hold", [])) + sum(x + 2 for x in lazy) + 8 * (nwords + nbeats) + 400 * (len(frames) + 1) + 4 * nwords
    if kind.conv < 15:
        budget += 3 * nwords * kind.obits // kind.conv * (1 + len(rst))
    budget += opcost * (1 + len(rst))
    if rst:
        mx = 8 * max(len(e) for e in exps) + 8 * max(len(b) for b in beats) + 400
        for c, l in rst:
            budget += mx + l
    for f in frames:
        if f.get("allowed") is not None and f["allowed"] < NEVER:
            budget += f["allowed"] + 50

    fi = 0                    # frame being sent
    bi = 0                    # next beat of it
    gi = 0
    wait = gaps[0] if gaps else 0
    off = 0                   # valid asserted (held until accepted)
    oi_frame = 0              # frame being received
    pos = 0
    exp = exps[0]
    pv = 0                    # previous cycle: valid and not accepted
    pdata = plast = 0
    offered = 0               # cycle in which the word on the bus was first offered
    si, sleft, sready = 0, (sink[0] if sink else -1), 1
    li, lw = 0, -1
    sawvalid = 0
    ri = 0
    rleft = 0
    cyc = 0
    h = 2166136261
    forced = 0                # words of the forced end seen
    t_first = -1              # cycle of the first accepted beat of the frame being received
    blocked = 0               # source: do not start before this cycle
    lastframe = len(frames)
    acc40, n40 = 0, 0
    idle_tail = -1
    rd = v = la = ready = 0
    warp = scn.get("warp") and not lazy and not opt.comb
    quiet = 0                 # nothing happened in the last cycle
    nstall = ngap = nrst = nforce = nbp = 0
    f = frames[0]
    al = f.get("allowed")
    prog = nextprog = 0
    # may a frame be offered while the one before it still comes out? with registers: only if they stay as they are
    eager = [not host or i > 0 and f.get("eager") and all(f.get(n) == frames[i - 1].get(n) for n in ("w", "h", "allowed", "table")) for i, f in enumerate(frames)]
    if i_h is None and not host:
        blocked = 4               # constants reach the core's registers one clock after power-on
    if i_h is not None:
        I[i_h], I[i_w] = f["h"], f["w"]
        I[i_a] = NEVER if al is None else al
    if host:
        host.load(program(kind, f, model))
        prog = 1
    while True:
        if warp and quiet and not rleft and (host is None or host.idle() and host.t_last < cyc - 2 and not prog and not nextprog and tpos >= len(traffic)) and (off or not junk):
            n = sleft - 1 if sleft >= 0 else 1 << 30
            if not off:
                n = min(n, wait - 1 if wait > 0 else 0 if fi < lastframe and cyc >= blocked - 1 and (fi == oi_frame or eager[fi]) else 1 << 30)
            if ri < len(rst):
                n = min(n, rst[ri][0] - cyc - 1)
            n = min(n, budget - cyc, blocked - cyc - 1 if blocked > cyc else 1 << 30)
            if idle_tail >= 0:
                n = 0
            if n > 8:
                n = s.skip(n)
                cyc += n
                if not off and wait > 0:
                    wait -= n
                    ngap += n
                if sleft > 0:
                    sleft -= n
                if not rd:
                    nstall += n
                if off:
                    nbp += n
                if tap and n:
                    tap(cyc - 1, off, ready, v, rd, la, n)
                st.add("warped_cycles", n)
        # ---- reset injector
        if ri < len(rst) and cyc >= rst[ri][0] and rleft == 0:
            rleft = rst[ri][1]
            ri += 1
            nrst += 1
            if rleft:
                I[i_rst] = 1
                if i_crst is not None:
                    I[i_crst] = 1
                if host:
                    host.abort()
        # ---- host
        if host and not rleft:
            if nextprog and host.idle():
                # the previous frame is out and the bus is quiet: program the next one
                host.load(program(kind, frames[oi_frame], model))
                nextprog, prog = 0, 1
            elif nextprog:
                pass
            elif prog and host.idle():
                prog = 0
            elif not prog and host.idle() and tpos < len(traffic):
                host.load([traffic[tpos]])
                tpos += 1
            host.pre(cyc)
        # ---- source
        if rleft:
            off = 0
        elif not off and fi < lastframe and cyc >= blocked and not prog and not nextprog and (fi == oi_frame or eager[fi]):
            if wait > 0:
                wait -= 1
                ngap += 1
            else:
                off = 1
        I[i_valid] = off
        if off:
            b = beats[fi][bi]
            if pixports:
                for k in range(len(b)):
                    I[pixports[k]] = b[k]
            else:
                I[i_data] = pack(b) | ujunk
            if tlmode and i_last is not None:
                I[i_last] = (1 if bi == len(beats[fi]) - 1 else 0) if tlmode == 1 else (lcg >> 5) & 1
        elif junk:
            lcg = (lcg * 1103515245 + 12345) & 0x7FFFFFFF
            if pixports:
                for k in range(len(pixports)):
                    I[pixports[k]] = (lcg >> k) & pmask
            else:
                I[i_data] = lcg & dmask
            if tlmode == 2 and i_last is not None:
                I[i_last] = lcg & 1
        # ---- sink
        if lazy and li < len(lazy):
            if lw < 0 and sawvalid:
                lw = lazy[li]
            rd = 1 if lw == 0 else 0
            if lw > 0:
                lw -= 1
        else:
            while sleft == 0:
                si += 1
                sready ^= 1
                if si < len(sink):
                    sleft = sink[si]
                else:
                    sleft = -1
                    sready = 1
            rd = sready
            if sleft > 0:
                sleft -= 1
        if held and rd:
            for x in (forced or pos, (forced - 8) if forced else pos - len(exp)):
                if x in held:
                    rd = 0
                    if pv:
                        held[x] -= 1
                        if held[x] <= 0:
                            del held[x]
                    break
        if not rd:
            nstall += 1
        if comb and not rleft:
            I[i_ready] = 1 ^ rd ^ inv
            s.eval()
            cv = (O[o_valid], O[o_data], O[o_last] if o_last is not None else 0)
        I[i_ready] = rd ^ inv
        step()
        v = O[o_valid]
        d = O[o_data]
        la = O[o_last] if o_last is not None else 0
        ready = O[o_ready] ^ inv
        if cyc < 4096:
            st.seen("control_states", ctl())
        h = ((h ^ (off | (ready << 1) | (v << 2) | (rd << 3) | (rleft and 16 or 0))) * 16777619) & 0xFFFFFFFF
        if rleft:
            # everything in flight is lost; the source sends the interrupted frame again
            rleft -= 1
            if rleft == 0:
                I[i_rst] = 0
                if i_crst is not None:
                    I[i_crst] = 0
            quiet = 0
            fi, bi, pos, forced, pv, sawvalid, lw, t_first, off = oi_frame, 0, 0, 0, 0, 0, -1, -1, 0
            acc40 = n40 = 0
            blocked = cyc + 1
            cyc += 1
            if tap:
                tap(cyc, None)
            if host:
                model.reset()
                if idle_tail < 0 and rleft == 0:
                    axil_abort_model(model, prog)
                    host.load(program(kind, frames[oi_frame], model))
                    prog = 1
            continue
        if tap:
            tap(cyc, off, ready, v, rd, la)
        if host:
            host.post(cyc)
            if host.log:
                if opt.onlog:
                    opt.onlog(host.log)
                axil.check_history(host.log, model)
                host.log = []
        if comb:
            if v and (cv[0] != v or cv[1] != d or cv[2] != la):
                raise Violation("output-depends-on-ready", "valid/data/last = %d/%x/%d with ready=%d but %d/%x/%d with ready=%d" % (
                    v, d, la, rd, cv[0], cv[1], cv[2], 1 - rd), cyc)
            if not v and cv[0]:
                raise Violation("output-depends-on-ready", "valid=%d with ready=%d but %d with ready=%d" % (v, rd, cv[0], 1 - rd), cyc)
        # ---- input side
        quiet = not (off and ready) and not (v and rd) and rd == sready
        if off:
            if ready:
                if t_first < 0 and fi == oi_frame:
                    t_first = cyc
                bi += 1
                off = 0
                gi += 1
                wait = gaps[gi] if gi < len(gaps) else 0
                if bi == len(beats[fi]):
                    fi += 1
                    bi = 0
                    if not kind.multi and fi < lastframe:
                        blocked = 1 << 60
            else:
                nbp += 1
        # ---- output side
        if pv:
            if not v:
                raise Violation("valid-withdrawn", "word %x was offered and withdrawn before it was accepted" % pdata, cyc)
            if d != pdata or la != plast:
                raise Violation("word-changed-while-stalled", "%x/last=%d became %x/last=%d" % (pdata, plast, d, la), cyc)
        elif v:
            offered = cyc
        pv = 1 if v and not rd else 0
        pdata, plast = d, la
        sawvalid = v and not rd
        if v and rd:
            if lazy and li < len(lazy):
                li += 1
                lw = -1
                sawvalid = 0
            if kind.lvds:
                acc40 = (acc40 << 40) | d
                n40 += 40
                ws = []
                while n40 >= 16:
                    n40 -= 16
                    ws.append(acc40 >> n40)
                    acc40 &= (1 << n40) - 1
            else:
                ws = (d,)
            for d in ws:
                if oi_frame >= lastframe:
                    raise Violation("extra-word", "word %x after the last frame" % d, cyc)
                if forced == 0 and d == FEND and al is not None and kind.framed and pos >= 8 and (pos <= len(exp) - 8 or not content):
                    if t_first >= 0 and cyc - t_first < al:
                        raise Violation("forced-end-too-early", "forced end %d cycles after the first pixel, %d allowed" % (cyc - t_first, al), cyc)
                    if t_first < 0:
                        raise Violation("forced-end-too-early", "forced end before any pixel was taken, %d cycles allowed" % al, cyc)
                    forced = 1
                    nforce += 1
                elif forced:
                    if d != FEND:
                        raise Violation("bad-forced-marker", "word %d of the forced-end marker is %x" % (forced, d), cyc)
                    forced += 1
                else:
                    if content and d != exp[pos]:
                        raise Violation("wrong-word", "frame %d word %d: got %x, expected %x" % (oi_frame, pos, d, exp[pos]), cyc)
                    if al is not None and kind.framed and 8 <= pos < len(exp) - 8 and t_first >= 0 and offered - t_first > al + FORCE_SLACK:
                        raise Violation("forced-end-missed", "frame %d: word %d offered %d cycles after the first pixel, %d allowed" % (
                            oi_frame, pos, offered - t_first, al), cyc)
                    pos += 1
                if collect is not None:
                    collect.append((oi_frame, d, la, forced))
                if content:
                    done = (forced == 8) or pos == len(exp)
                else:
                    done = bool(la)
                    if done and not forced and fi == oi_frame:
                        raise Violation("early-end", "frame %d ended after %d words with %d of its %d beats taken" % (
                            oi_frame, pos, bi, len(beats[fi])), cyc)
                if kind.has_last and bool(la) != done:
                    raise Violation("last-flag", "frame %d word %d of %d: last=%d" % (oi_frame, pos + forced, len(exp), la), cyc)
                if done:
                    if forced:
                        fi, bi, off = oi_frame + 1, 0, 0
                    oi_frame += 1
                    held = hold.get(oi_frame)
                    pos = forced = 0
                    t_first = -1
                    if oi_frame < lastframe:
                        exp = exps[oi_frame]
                        f = frames[oi_frame]
                        al = f.get("allowed")
                        if i_h is not None:
                            I[i_h], I[i_w] = f["h"], f["w"]
                            I[i_a] = NEVER if al is None else al
                        if nforce:
                            blocked = max(blocked, cyc + 2)
                        if not kind.multi:
                            # a core without auto reset is reset by its user between frames
                            rleft = 1
                            I[i_rst] = 1
                            if i_crst is not None:
                                I[i_crst] = 1
                            if host:
                                host.abort()
                        if host and kind.multi and not eager[oi_frame]:
                            nextprog = 1
                    else:
                        idle_tail = cyc
        cyc += 1
        if final and idle_tail >= 0 and cyc - idle_tail > 20 and host.idle() and tpos >= len(traffic) and not prog:
            host.load(final)
            final = None
        if idle_tail >= 0 and final is None and cyc - idle_tail > 60 and (host is None or host.idle()):
            break
        if kind.lvds and oi_frame == lastframe - 1 and len(exp) - pos < 3 and fi >= lastframe and idle_tail < 0:
            idle_tail = cyc      # the last words may stay in the 40-bit packer
        if cyc > budget:
            raise Violation("no-progress", "frame %d: %d of %d words received, %d of %d beats sent, after %d cycles (budget)" % (
                oi_frame, pos, len(exp) if oi_frame < lastframe else 0, bi, len(beats[fi]) if fi < lastframe else 0, cyc), cyc)
    st.add("cycles", cyc)
    st.add("frames", len(frames))
    st.add("words", nwords)
    st.add("pixels", sum(f["w"] * f["h"] for f in frames))
    st.add("sink_stall_cycles", nstall)
    st.add("source_gap_cycles", ngap)
    st.add("backpressure_cycles", nbp)
    st.add("resets", nrst)
    st.add("forced_ends", nforce)
    if host:
        st.add("bus_ops", host.nops)
        st.add("bus_ops_during_frames", tpos)
        st.add("bus_stall_cycles", host.nstall)
    for f in frames:
        st.peak("widest_frame", f["w"])
        st.peak("tallest_frame", f["h"])
    if nstall or ngap or nrst or nforce:
        st.seen("runs", h)
    return h


def s_mask(s, i):
    m = getattr(s, "_imask", None)
    if m is None:
        m = s._imask = {v[0]: (1 << v[1]) - 1 for v in s.meta["in"].values()}
    return m[i]


def axil_abort_model(model, prog):
    """a write that was in flight when the reset came may or may not have reached the memory"""
    if prog:
        model.mem = [None] * len(model.mem)


BASE = 0x43C00000


def program(kind, f, model):
    """The bus operations that set the core up for frame f, given what its registers hold now."""
    rng = random.Random("prog/%s" % f.get("ps", 0))
    calm = not f.get("ps")
    al = f.get("allowed")
    al = NEVER if al is None else al
    ops = []

    def wr(idx, val):
        m = 0 if calm else rng.randrange(5)
        k = 0 if calm else rng.randrange(4)
        strbs = ((15,), (15,), (3, 12), (9, 6))[k]
        for sb in strbs:
            v = val
            for b in range(4):
                if not sb >> b & 1 and not calm:
                    v = (v & ~(255 << 8 * b)) | (rng.randrange(256) << 8 * b)
            ops.append(axil.w(rng, BASE + 4 * idx, v, sb, m))
        if not calm and rng.random() < 0.2:
            ops.append(axil.r(rng, BASE + 4 * idx, m))
    hw = f["h"] | (f["w"] << 16)
    todo = []
    if not (f.get("keep") and model.hw == hw):
        todo.append((0x800, hw))
    if not (f.get("keep") and model.allowed == al):
        todo.append((0x801, al))
    want = axil.CoreMap(kind.bd, axil.entries(kind.bd, f.get("table") or ref.STD_SSSS)).mem
    for i, v in enumerate(want):
        if model.mem[i] != v:
            todo.append((0x400 + i, v))
    if not calm:
        rng.shuffle(todo)
    for i, v in todo:
        wr(i, v)
    return ops


# ---- scenario generation ---------------------------------------------------------------------
def gen_pixels(rng, n, w, bd, comps=4, mode=None):
    mx = (1 << bd) - 1
    m = rng.randrange(8) if mode is None else mode
    if m == 0:
        return [rng.randrange(mx + 1) for _ in range(n)]
    if m == 1:
        v = rng.choice([0, mx, 1 << (bd - 1), rng.randrange(mx + 1)])
        return [v] * n
    if m == 2:
        return [rng.choice((0, mx)) for _ in range(n)]
    if m == 3:
        a = [rng.randrange(mx + 1) for _ in range(comps)]
        out = []
        amp = 1 << rng.randrange(1, bd)
        for k in range(n):
            c = k % comps
            a[c] = min(mx, max(0, a[c] + rng.randrange(-amp, amp + 1)))
            out.append(a[c])
        return out
    if m == 4:
        s = rng.randrange(mx + 1)
        q = rng.randrange(1, 17)
        return [(s + k * q) & mx for k in range(n)]
    # choose differences by class, preferring all-ones / boundary residues (0xFF bytes, long codes)
    out = []
    half = 1 << (bd - 1)
    p1 = rng.random()
    pcls = rng.randrange(3)
    for k in range(n):
        col = k % w
        pr = out[k - comps] if col >= comps else out[k - w] if k >= w else half
        for _ in range(4):
            sc = rng.randrange(bd + 1) if pcls == 0 else min(bd, int(rng.expovariate(0.4))) if pcls == 1 else max(0, bd - int(rng.expovariate(0.5)))
            if sc == 0:
                d = 0
            else:
                d = (1 << sc) - 1 if rng.random() < p1 else rng.randrange(1 << (sc - 1), 1 << sc)
                if rng.random() < 0.3:
                    d = -d
            if 0 <= pr + d <= mx:
                break
            if 0 <= pr - d <= mx:
                d = -d
                break
        else:
            d = 0
        out.append(pr + d)
    return out


def long_wait(rng):
    """a wait that outlasts counters nobody thinks of"""
    return rng.choice((260, 1030, 4100, 17000, 66000)) + rng.randrange(300)


def gen_runs(rng, total):
    """alternating ready/stalled run lengths for about `total` cycles"""
    out = some_runs(rng, total)
    if len(out) > 1 and rng.random() < 0.005:
        out[rng.randrange(len(out) // 2) * 2 + 1] = long_wait(rng)
    return out


def some_runs(rng, total):
    m = rng.randrange(7)
    if m == 0:
        return []
    out = []
    t = 0
    if m == 1:
        out = [0, rng.randrange(1, total + 1)]          # stalled from the start
    elif m == 2:
        a, b = rng.randrange(1, 5), rng.randrange(1, 9)
        while t < total:
            out += [a, b]
            t += a + b
    elif m == 3:
        pr = rng.random() * 0.9 + 0.05
        while t < total:
            a = b = 1
            while rng.random() < pr and a < 50:
                a += 1
            while rng.random() > pr and b < 50:
                b += 1
            out += [a, b]
            t += a + b
    elif m == 4:
        out = [rng.randrange(0, max(2, total)), rng.randrange(1, max(2, total))]   # one long stall
    elif m == 5:
        while t < total:
            a, b = rng.choice((1, 1, 2, 3, 10, 40)), rng.choice((1, 1, 1, 2, 3, 30, 100))
            out += [a, b]
            t += a + b
    else:
        while t < total:
            a, b = rng.randrange(1, 60), rng.choice((1, 1, 2))
            out += [a, b]
            t += a + b
    return out


def gen_gaps(rng, nbeats):
    if rng.random() < 0.005:
        return [0] * rng.randrange(nbeats) + [long_wait(rng)]
    m = rng.randrange(6)
    if m <= 1:
        return []
    if m == 2:
        p = rng.random()
        return [0 if rng.random() < p else 1 for _ in range(nbeats)]
    if m == 3:
        p = rng.random() * 0.5
        return [rng.randrange(1, 30) if rng.random() < p else 0 for _ in range(nbeats)]
    if m == 4:
        g = [0] * nbeats
        for _ in range(rng.randrange(1, 4)):
            g[rng.randrange(nbeats)] = rng.randrange(1, 300)
        return g
    k = rng.randrange(1, 12)
    return [k] * nbeats


def min_width(kind, h):
    """Frame sizes the core supports (DESIGN.md): whole beats per row, a row holds every component once,
    at least two beats per row, at least three per frame."""
    w = max(2 * kind.ps, 4)
    if h == 1:
        w = max(w, 3 * kind.ps)
    return w + (-w % kind.ppb)


def gen_geometry(rng, kind, big):
    ps = kind.ps
    hi = rng.choice((3, 6, 12, 24)) if not big else rng.choice((24, 64, 128))
    w = ps * rng.randrange(2, max(3, hi))
    h = rng.randrange(1, rng.choice((2, 4, 9)) if not big else 12)
    w += -w % kind.ppb
    return max(w, min_width(kind, h)), h


def gen_frames(rng, kind, n, big=False):
    out = []
    for i in range(n):
        if i == 0 or not kind.lvds:      # 40-bit packer: the sink cannot see where a frame ends, one geometry
            w, h = gen_geometry(rng, kind, big)
        out.append({"w": w, "h": h, "pix": gen_pixels(rng, w * h, w, kind.bd)})
    return out


def gen_tiny(rng, kind, n):
    """many of the smallest frames"""
    out = []
    for i in range(n):
        h = rng.choice((1, 1, 2, 3))
        w = min_width(kind, h) + kind.ppb * rng.choice((0, 0, 0, 1, 2))
        if out and kind.lvds:
            w, h = out[0]["w"], out[0]["h"]
        out.append({"w": w, "h": h, "pix": gen_pixels(rng, w * h, w, kind.bd)})
    return out


def many(rng, idx):
    """now and then: the number of events of a run that goes on for long"""
    if idx % 1000 == 29:
        return rng.randrange(130, 300)
    return rng.randrange(17, 70) if idx % 100 == 17 else 0


def gen_huge(rng, kind, limit, m=None):
    """one frame with an extreme dimension (16-bit geometry registers), pixels by generator"""
    m = rng.randrange(4) if m is None else m % 4
    top = 65535 // kind.ppb * kind.ppb
    if m == 0:
        w, h = rng.choice((top, rng.randrange(32768, top + 1), rng.randrange(32768, top + 1), rng.randrange(4096, 32768))), rng.randrange(1, 4)
    elif m == 1:
        w, h = min_width(kind, 2) + kind.ppb * rng.randrange(3), rng.choice((65535, rng.randrange(32768, 65536), rng.randrange(32768, 65536), rng.randrange(4096, 32768)))
    elif m == 2:
        w = rng.randrange(256, 4096)
        h = max(1, rng.randrange(20000, 60000) // w)
    else:
        w = rng.randrange(64, 1024)
        h = rng.randrange(200, 1200)
    w -= w % kind.ppb
    w = max(w, min_width(kind, h))
    if w * h > limit:
        if w > h:
            h = max(1, limit // w)
            if w * h > limit:
                w = limit // kind.ppb * kind.ppb
        else:
            h = max(1, limit // w)
    return {"w": w, "h": h, "g": [rng.randrange(1 << 30), rng.choice((0, 0, 1, 2, 3, 3, 5, 6))]}


def nbeats_of(kind, f):
    return -(-f["w"] * f["h"] // kind.ppb)


def gen_env(rng, scn, kind, calm=False):
    """source gaps, sink stalls, garbage"""
    nb = sum(nbeats_of(kind, f) for f in scn["frames"])
    if not calm:
        if nb > 20000:
            scn["gaps"] = [0] * rng.randrange(nb) + [rng.randrange(1, 3000)] if rng.random() < 0.3 else []
            if len(scn["gaps"]) > 5000:
                scn["gaps"] = []
            scn["sink"] = rng.choice(([], [rng.randrange(nb), rng.randrange(1, 6000)], [0, rng.randrange(1, 6000)],
                                      [x for _ in range(1000) for x in (rng.randrange(1, 60), rng.randrange(1, 60))]))
        else:
            scn["gaps"] = gen_gaps(rng, nb)
            scn["sink"] = gen_runs(rng, nb * 2 + 60)
            if rng.random() < 0.15:
                scn["lazy"] = [rng.randrange(4) for _ in range(rng.randrange(1, 200))]
            if rng.random() < 0.15:
                scn["hold"] = [[rng.randrange(len(scn["frames"])), rng.choice((-1, -1, -2, -8, -9, -10, 0, 7, 8, 9, rng.randrange(40))), rng.choice((1, 3, 12, 60, 300))]
                               for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.6:
        scn["junk"] = rng.randrange(1, 1 << 30)
    scn["tlast"] = rng.randrange(3)
    return scn


def gen_fill(rng, kind, beats):
    """more data than every buffer of the core holds, against a sink that stalls for a long time"""
    w = kind.ppb * rng.randrange(8, 200)
    w = max(w, min_width(kind, 2))
    h = max(2, beats * kind.ppb // w)
    f = {"w": w, "h": h, "g": [rng.randrange(1 << 30), rng.choice((0, 0, 2, 3, 5, 5, 6, 1))]}
    total = nbeats_of(kind, f)
    m = rng.randrange(4)
    if m == 0:
        sink = [0, 3 * total + rng.randrange(500)]
    elif m == 1:
        sink = [rng.randrange(1, total), 3 * total]
    elif m == 2:
        sink = []
        for _ in range(rng.randrange(2, 12)):
            sink += [rng.randrange(1, 400), rng.randrange(1, 1500)]
        sink = [0, 2 * total] + sink
    else:
        a = rng.randrange(3, 12)
        sink = [0, total] + [1, a] * (total // 3)
    return {"frames": [f], "sink": sink, "gaps": []}


def valid(scn):
    kind = kind_of(scn)
    if not scn["frames"]:
        return False
    if any(len(x) != 2 or x[1] < 1 for x in scn.get("rst", [])):
        return False
    if any(len(x) != 3 for x in scn.get("hold", [])):
        return False
    for f in scn["frames"]:
        if f["w"] % kind.ppb or f["h"] < 1 or f["w"] < min_width(kind, f["h"]):
            return False
        if "pix" in f and len(f["pix"]) != f["w"] * f["h"]:
            return False
        if kind.lvds and (f["w"], f["h"]) != (scn["frames"][0]["w"], scn["frames"][0]["h"]):
            return False
    return True


def shrink(scn):
    import core
    fr = scn["frames"]
    for i in range(len(fr)):
        if len(fr) > 1:
            yield dict(scn, frames=fr[:i] + fr[i + 1:])
    kind = kind_of(scn)
    for i, f in enumerate(fr):
        w, h = f["w"], f["h"]

        def put(**kw):
            return dict(scn, frames=fr[:i] + [dict(f, **kw)] + fr[i + 1:])

        has = "pix" in f
        if not has and w * h <= 3000:
            g = dict(f, pix=pixels(kind, f))
            del g["g"]
            yield dict(scn, frames=fr[:i] + [g] + fr[i + 1:])
        for nh in sorted({1, h // 16, h // 4, h // 2, h * 3 // 4, h - 1}):
            if 1 <= nh < h:
                yield put(h=nh, pix=f["pix"][:w * nh]) if has else regeom(put, f, w, nh)
        for nw in sorted({2 * kind.ps, 3 * kind.ps, w // 16 // kind.ppb * kind.ppb, w // 2 // kind.ppb * kind.ppb, w - kind.ppb}):
            if 1 <= nw < w:
                if has:
                    yield put(w=nw, pix=[p for r in range(h) for p in f["pix"][r * w:r * w + nw]])
                else:
                    yield regeom(put, f, nw, h)
        if f.get("allowed"):
            for a in (0, f["allowed"] // 2, f["allowed"] - 1):
                if a < f["allowed"]:
                    yield put(allowed=a)
        if not has:
            if f["g"][1] != 1:
                yield put(g=[f["g"][0], 1])
            continue
        half = 1 << (kind.bd - 1)
        if any(p != half for p in f["pix"]):
            yield put(pix=[half] * len(f["pix"]))
            n = len(f["pix"])
            k = n
            while k >= 1 and n // k <= 64:
                for a in range(0, n, k):
                    seg = f["pix"][a:a + k]
                    if any(x != half for x in seg):
                        yield put(pix=f["pix"][:a] + [half] * len(seg) + f["pix"][a + k:])
                k //= 2
    rest = {k: v for k, v in scn.items() if k not in ("frames", "design", "params", "traffic", "tlast")}
    for c in core.generic_shrink(rest):
        yield dict(scn, **c)
    for k in ("lazy", "hold", "gaps", "sink", "rst", "junk", "tlast", "traffic"):
        if k in scn:
            c = dict(scn)
            del c[k]
            yield c
    t = scn.get("traffic", [])
    k = len(t)
    while k:
        for a in range(0, len(t), k):
            yield dict(scn, traffic=t[:a] + t[a + k:])
        k //= 2


def regeom(put, f, w, h):
    """new size of a generated frame; its program (if any) follows in valid()"""
    return put(w=w, h=h)
