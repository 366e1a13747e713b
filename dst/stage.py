"""One block between a simulated source and a simulated sink: the generic harness of the block checks.

scenario: items (what the source sends, in order), gaps, sink (alternating ready/stalled run lengths),
rst [[cycle, length]...], crst [[cycle, length]...] (reset of the core domain only)"""
import e2e
from core import Violation


class Spec:
    iports = ()             # input ports that carry one item (same order as its values)
    ivalid, iready, iinv = "valid_in", "o_busy", 1      # transfer: valid and (ready ^ inv)
    hold = True             # an offered item stays offered
    oports = ()
    ovalid, oready, oinv = "valid_out", "i_busy", 1
    extra = 40              # cycles watched after the last output
    budget_per_item = 24
    unstable = False        # data may change while the sink is busy (no such block is known)
    rst, crst = "full_rst", None


def run(chk, scn, st, sp, items, expected, check_end=None, tail=None):
    """items: list of tuples; expected: list of tuples (None: any value).  tail: number of expected outputs that
    may stay inside the block at the end (a partial last word)"""
    s = chk.sim(scn["design"], scn.get("params"))
    I, O, step = s.i, s.o, s.step
    iw = [len_of(s.meta["in"], x) for x in sp.iports]
    ow = [len_of(s.meta["out"], x) for x in sp.oports]
    ip = [s.ii[x] + j for x, (w, m) in zip(sp.iports, iw) for j in range(m)]
    op = [s.oi[x] + j for x, (w, m) in zip(sp.oports, ow) for j in range(m)]
    if len(ip) > len(iw):
        items = [flat(x, iw) for x in items]
    if len(op) > len(ow):
        expected = [flat(x, ow) for x in expected]
    iv, ir = s.ii[sp.ivalid], s.oi[sp.iready]
    ov, orr = s.oi[sp.ovalid], s.ii[sp.oready]
    gaps, sink = scn.get("gaps", []), scn.get("sink", [])
    rsts = sorted([c, l, 0] for c, l in scn.get("rst", [])) + sorted([c, l, 1] for c, l in scn.get("crst", []))
    rsts.sort()
    i_rst = s.ii.get(sp.rst)
    i_crst = s.ii.get(sp.crst) if sp.crst else None
    junk = scn.get("junk", 0)
    lcg = junk
    masks = [(1 << min(64, w - 64 * j)) - 1 for w, m in iw for j in range(m)]
    nres = len(scn.get("rst", [])) + len(scn.get("crst", []))
    budget = (sum(gaps) + sum(sink)) + sp.budget_per_item * (len(items) + len(expected) + 4) * (1 + nres) + 200 + sum(l for _, l, _ in rsts) + sum(c for c, _, _ in rsts)
    ni, no = len(items), len(expected)
    si, sleft, sready = 0, (sink[0] if sink else -1), 1
    k = n = 0                   # items accepted, outputs received
    gi = 0
    wait = gaps[0] if gaps else 0
    off = 0
    pv = None
    cyc = 0
    quiet = 0
    h = 2166136261
    nstall = ngap = nbp = 0
    ri = rleft = 0
    rkind = 0
    while True:
        if ri < len(rsts) and rleft == 0 and cyc >= rsts[ri][0]:
            rleft, rkind = rsts[ri][1], rsts[ri][2]
            ri += 1
            if rleft:
                I[i_crst if rkind else i_rst] = 1
        full = rleft and not rkind
        if full:
            off = 0
        elif not off and k < ni:
            if wait > 0:
                wait -= 1
                ngap += 1
            else:
                off = 1
        I[iv] = off
        if off:
            for p, x in zip(ip, items[k]):
                I[p] = x
        elif junk:
            lcg = (lcg * 1103515245 + 12345) & 0x7FFFFFFF
            for p, m in zip(ip, masks):
                I[p] = lcg & m
        while sleft == 0:
            si += 1
            sready ^= 1
            if si < len(sink):
                sleft = sink[si]
            else:
                sleft, sready = -1, 1
        if sleft > 0:
            sleft -= 1
        rd = sready
        nstall += 1 - rd
        I[orr] = rd ^ sp.oinv
        step()
        ready = O[ir] ^ sp.iinv
        v = O[ov]
        h = ((h ^ (off | (ready << 1) | (v << 2) | (rd << 3) | (rleft and 16))) * 16777619) & 0xFFFFFFFF
        if cyc < 4096:
            st.seen("control_states", s.ctl())
        if rleft:
            rleft -= 1
            if rleft == 0:
                I[i_crst if rkind else i_rst] = 0
            if full:
                k = n = 0
                pv = None
                off = 0
                quiet = 0
                cyc += 1
                continue
        if off:
            if ready:
                k += 1
                off = 0
                gi += 1
                wait = gaps[gi] if gi < len(gaps) else 0
            else:
                nbp += 1
                if not sp.hold:
                    off = 0
        got = tuple(O[p] for p in op)
        if pv is not None:
            if not v:
                raise Violation("valid-withdrawn", "%s was offered and withdrawn" % (pv,), cyc)
            if got != pv:
                raise Violation("output-changed-while-stalled", "%s became %s" % (pv, got), cyc)
        pv = got if v and not rd else None
        if v and rd:
            if n >= no:
                raise Violation("extra-output", "%s after the last expected output (%d)" % (fmt(got), no), cyc)
            e = expected[n]
            if any(y is not None and x != y for x, y in zip(got, e)):
                raise Violation("wrong-output", "output %d: got %s, expected %s" % (n, fmt(got), fmt(e)), cyc)
            if check_end is not None:
                check_end(n, k, cyc)
            n += 1
            quiet = 0
        cyc += 1
        if n >= no - (tail or 0) and k == ni and off == 0:
            quiet += 1
            if quiet > sp.extra and sleft < 0 and ri >= len(rsts) and not rleft:
                break
        if cyc > budget:
            raise Violation("no-progress", "%d of %d outputs, %d of %d inputs after %d cycles" % (n, no, k, ni, cyc), cyc)
    st.add("cycles", cyc)
    st.add("items", ni)
    st.add("sink_stall_cycles", nstall)
    st.add("source_gap_cycles", ngap)
    st.add("backpressure_cycles", nbp)
    st.add("resets", nres)
    if nstall or ngap or nres:
        st.seen("runs", h)


def len_of(meta, name):
    for k in (name, "i_" + name, "o_" + name):
        if k in meta:
            w = meta[k][1]
            return w, (w + 63) // 64
    raise KeyError(name)


def flat(t, ws):
    out = []
    for v, (w, m) in zip(t, ws):
        for j in range(m):
            out.append(None if v is None else (v >> 64 * j) & 0xFFFFFFFFFFFFFFFF)
    return tuple(out)


def fmt(t):
    return "(" + ", ".join("-" if x is None else "%x" % x for x in t) + ")"
