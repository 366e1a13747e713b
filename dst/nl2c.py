"""Netlist -> C: compile a flattened Yosys JSON netlist into a cycle-accurate, two-state simulator.

State lives in one struct.  eval(): combinational settle, outputs -> out[].  step(): settle,
outputs -> out[], then one rising edge of every clock (all clocks of these designs are the same
net).  Everything is a pure function of (state, inputs): same calls, same results."""
import json, re, hashlib


class NLError(Exception):
    pass


def ctype(w):
    if w <= 8:
        return "uint8_t"
    if w <= 16:
        return "uint16_t"
    if w <= 32:
        return "uint32_t"
    if w <= 64:
        return "uint64_t"
    return "unsigned _BitInt(%d)" % w


def mtype(w):
    """type of stored state.  clang 18 lays out arrays of _BitInt(N>128) with two different strides;
    multiples of 128 are safe"""
    return ctype(w if w <= 128 else (w + 127) // 128 * 128)


def stype(w):
    if w <= 64:
        return "int64_t"
    return "_BitInt(%d)" % w


def wt(w):
    """working type: at least 64 bits"""
    return "uint64_t" if w <= 64 else "unsigned _BitInt(%d)" % w


def lit(v, w):
    if w <= 64:
        return "UINT64_C(0x%x)" % v
    parts = []
    i = 0
    t = wt(w)
    while v >> (64 * i) or i == 0:
        c = (v >> (64 * i)) & ((1 << 64) - 1)
        if c or i == 0:
            parts.append("((%s)UINT64_C(0x%x) << %d)" % (t, c, 64 * i))
        i += 1
    return "(" + "|".join(parts) + ")"


def mask(w):
    return lit((1 << w) - 1, w)


def pint(s):
    """yosys JSON parameter -> int"""
    if isinstance(s, int):
        return s
    if re.fullmatch("[01xz]*", s):
        return int(s.replace("x", "0").replace("z", "0") or "0", 2)
    return int(s)


class Netlist:
    def __init__(self, doc, top, clocks, name_in="i_", name_out="o_"):
        mods = doc["modules"]
        self.m = mods[top]
        self.clocks = clocks
        self.build()

    def build(self):
        m = self.m
        self.src = {}          # bit id -> (var, offset)
        self.width = {}        # var -> width
        self.inputs, self.outputs = [], []
        clockbits = set()
        for name, p in m["ports"].items():
            if p["direction"] == "input":
                if name in self.clocks:
                    clockbits.update(p["bits"])
                    continue
                v = "in_%d" % len(self.inputs)
                self.inputs.append((name, len(p["bits"]), v))
                self.width[v] = len(p["bits"])
                for i, b in enumerate(p["bits"]):
                    self.src[b] = (v, i)
            else:
                self.outputs.append((name, len(p["bits"]), p["bits"]))
        init = {}
        for name, n in m["netnames"].items():
            iv = n.get("attributes", {}).get("init")
            if iv is not None:
                iv = iv[::-1]
                for i, b in enumerate(n["bits"]):
                    if i < len(iv) and iv[i] == "1":
                        init[b] = 1
        self.ffs, self.comb, self.mems = [], [], []
        n = 0
        for cname in sorted(m["cells"]):
            c = m["cells"][cname]
            t = c["type"]
            P = {k: v for k, v in c["parameters"].items()}
            C = c["connections"]
            if t in ("$dff", "$dffe", "$sdff", "$sdffe", "$sdffce"):
                if not set(C["CLK"]) <= clockbits:
                    raise NLError("flip-flop %s: clock is not a known clock" % cname)
                if pint(P["CLK_POLARITY"]) != 1:
                    raise NLError("negative edge " + cname)
                v = "q%d" % len(self.ffs)
                w = len(C["Q"])
                self.width[v] = w
                iv = 0
                for i, b in enumerate(C["Q"]):
                    self.src[b] = (v, i)
                    if init.get(b):
                        iv |= 1 << i
                self.ffs.append(dict(v=v, w=w, init=iv, C=C, P=P, t=t, name=cname, src=c.get("attributes", {}).get("src", "")))
            elif t == "$mem_v2":
                k = len(self.mems)
                w = pint(P["WIDTH"])
                nr = pint(P["RD_PORTS"])
                nw = pint(P["WR_PORTS"])
                mem = dict(k=k, w=w, size=pint(P["SIZE"]), abits=pint(P["ABITS"]), nr=nr, nw=nw, C=C, P=P,
                           off=pint(P["OFFSET"]))
                iv = P["INIT"]
                ini = []
                if isinstance(iv, str) and iv and re.fullmatch("[01xz]*", iv):
                    bits = iv[::-1]
                    for a in range(mem["size"]):
                        ini.append(pint(bits[a * w:(a + 1) * w][::-1] or "0"))
                mem["init"] = ini
                ce = pint(P["RD_CLK_ENABLE"])
                mem["rd"] = []
                for i in range(nr):
                    v = "mr%d_%d" % (k, i)
                    self.width[v] = w
                    sync = (ce >> i) & 1
                    for j in range(w):
                        self.src[C["RD_DATA"][i * w + j]] = (v, j)
                    if sync and not {C["RD_CLK"][i]} <= clockbits:
                        raise NLError("memory read clock")
                    if not sync:
                        self.comb.append(dict(v=v, w=w, t="memrd", mem=mem, i=i, C=C, P=P, name=cname))
                    iv = 0
                    rdi = P["RD_INIT_VALUE"]
                    if isinstance(rdi, str) and re.fullmatch("[01xz]*", rdi):
                        iv = (pint(rdi) >> (i * w)) & ((1 << w) - 1)
                    mem["rd"].append(dict(v=v, sync=sync, init=iv))
                if nw and not set(C["WR_CLK"]) <= clockbits:
                    raise NLError("memory write clock")
                self.mems.append(mem)
            elif t in ("$scopeinfo", "$print", "$check"):
                continue
            else:
                if "Y" not in C:
                    raise NLError("cell type %s" % t)
                v = "w%d" % n
                n += 1
                self.width[v] = len(C["Y"])
                for i, b in enumerate(C["Y"]):
                    self.src[b] = (v, i)
                self.comb.append(dict(v=v, w=len(C["Y"]), t=t, C=C, P=P, name=cname, src=c.get("attributes", {}).get("src", "")))
        self.toposort()

    # -- operands ---------------------------------------------------------------------------
    def runs(self, bits):
        out = []
        for pos, b in enumerate(bits):
            if isinstance(b, str):
                s, off = ("const1" if b == "1" else "const0"), 0
            else:
                if b not in self.src:
                    s, off = "const0", 0       # undriven
                else:
                    s, off = self.src[b]
            if out and out[-1][0] == s and (s.startswith("const") or out[-1][1] + out[-1][2] == off):
                out[-1][2] += 1
            else:
                out.append([s, off, 1, pos])
        return out

    def deps(self, bits):
        return {r[0] for r in self.runs(bits) if not r[0].startswith("const")}

    def val(self, bits, w=None, signed=False):
        """C expression (type wt(w)) of these bits extended to w bits."""
        nb = len(bits)
        if w is None:
            w = nb
        if nb > w:
            bits = bits[:w]
            nb = w
        t = wt(w)
        parts = []
        for s, off, ln, pos in self.runs(bits):
            if s == "const0":
                continue
            if s == "const1":
                parts.append(lit(((1 << ln) - 1) << pos, w))
                continue
            sw = self.width[s]
            e = s
            if off:
                e = "(%s >> %d)" % (e, off)
            if off + ln < sw:
                e = "(%s & %s)" % (e, mask(ln) if sw > 64 or ln <= 64 else mask(ln))
            e = "(%s)%s" % (t, e)
            if pos:
                e = "((%s) << %d)" % (e, pos)
            parts.append("(%s)" % e)
        if not parts:
            r = "(%s)0" % t
        elif len(parts) == 1:
            r = parts[0]
        else:
            r = "(" + " | ".join(parts) + ")"
        if signed and nb < w:
            if w <= 64:
                r = "((uint64_t)(((int64_t)(%s << %d)) >> %d) & %s)" % (r, 64 - nb, 64 - nb, mask(w))
            else:
                r = "((%s)(((%s)(%s << %d)) >> %d))" % (t, stype(w), r, w - nb, w - nb)
        return r

    def toposort(self):
        drv = {c["v"]: c for c in self.comb}
        for c in self.comb:
            ins = []
            if c["t"] == "memrd":
                a = c["mem"]["abits"]
                c["inbits"] = [c["C"]["RD_ADDR"][c["i"] * a:(c["i"] + 1) * a]]
            else:
                c["inbits"] = [b for k, b in sorted(c["C"].items()) if k != "Y"]
            d = set()
            for b in c["inbits"]:
                d |= self.deps(b)
            c["deps"] = sorted(x for x in d if x in drv)
        order, mark = [], {}
        self.loops = 0
        for root in self.comb:
            if mark.get(root["v"]):
                continue
            stack = [(root, iter(root["deps"]))]
            mark[root["v"]] = 1
            while stack:
                c, it = stack[-1]
                for d in it:
                    if mark.get(d) == 1:
                        self.loops += 1
                    elif not mark.get(d):
                        mark[d] = 1
                        stack.append((drv[d], iter(drv[d]["deps"])))
                        break
                else:
                    mark[c["v"]] = 2
                    order.append(c)
                    stack.pop()
        self.order = order

    # -- cells ------------------------------------------------------------------------------
    def expr(self, c):
        C, P, w, t = c["C"], c["P"], c["w"], c["t"]
        V = self.val
        if t == "memrd":
            mem = c["mem"]
            a = mem["abits"]
            e = V(C["RD_ADDR"][c["i"] * a:(c["i"] + 1) * a])
            if mem["off"]:
                e = "(%s - %d)" % (e, mem["off"])
            return "((%s) < %d ? s->m%d[%s] : 0)" % (e, mem["size"], mem["k"], e)
        sg = bool(pint(P.get("A_SIGNED", 0)))
        if t in ("$and", "$or", "$xor", "$xnor", "$add", "$sub", "$mul"):
            sg = sg and bool(pint(P.get("B_SIGNED", 0)))
            a, b = V(C["A"], w, sg), V(C["B"], w, sg)
            if t == "$xnor":
                return "((~(%s ^ %s)) & %s)" % (a, b, mask(w))
            op = {"$and": "&", "$or": "|", "$xor": "^", "$add": "+", "$sub": "-", "$mul": "*"}[t]
            r = "(%s %s %s)" % (a, op, b)
            if op in "+-*":
                r = "(%s & %s)" % (r, mask(w))
            return r
        if t in ("$not", "$pos", "$neg", "$buf"):
            a = V(C["A"], w, sg)
            if t == "$not":
                return "((~%s) & %s)" % (a, mask(w))
            if t == "$neg":
                return "((-%s) & %s)" % (a, mask(w))
            return a
        if t == "$mux":
            return "((%s) ? (%s) : (%s))" % (V(C["S"]), V(C["B"], w), V(C["A"], w))
        if t == "$pmux":
            r = "(%s)" % V(C["A"], w)
            for i in range(len(C["S"])):
                r = "((%s) ? (%s) : %s)" % (V([C["S"][i]]), V(C["B"][i * w:(i + 1) * w], w), r)
            return r
        if t in ("$eq", "$ne", "$eqx", "$nex", "$lt", "$le", "$gt", "$ge"):
            sg = sg and bool(pint(P.get("B_SIGNED", 0)))
            ow = max(len(C["A"]), len(C["B"]))
            a, b = V(C["A"], ow, sg), V(C["B"], ow, sg)
            op = {"$eq": "==", "$ne": "!=", "$eqx": "==", "$nex": "!=", "$lt": "<", "$le": "<=", "$gt": ">", "$ge": ">="}[t]
            if sg and op not in ("==", "!="):
                if ow <= 64:
                    a, b = ["((int64_t)(%s << %d))" % (x, 64 - ow) for x in (a, b)]
                else:
                    a, b = ["((%s)%s)" % (stype(ow), x) for x in (a, b)]
            return "((%s %s %s) ? 1 : 0)" % (a, op, b)
        if t in ("$logic_not", "$reduce_bool", "$reduce_or"):
            return "((%s %s 0) ? 1 : 0)" % (V(C["A"]), "==" if t == "$logic_not" else "!=")
        if t in ("$logic_and", "$logic_or"):
            return "(((%s != 0) %s (%s != 0)) ? 1 : 0)" % (V(C["A"]), "&&" if t == "$logic_and" else "||", V(C["B"]))
        if t == "$reduce_and":
            return "((%s == %s) ? 1 : 0)" % (V(C["A"]), mask(len(C["A"])))
        if t in ("$reduce_xor", "$reduce_xnor"):
            assert len(C["A"]) <= 64
            return "((__builtin_parityll(%s) ^ %d) & 1)" % (V(C["A"]), t == "$reduce_xnor")
        if t in ("$shl", "$sshl", "$shr", "$sshr", "$shift", "$shiftx"):
            ow = max(w, len(C["A"]))
            bs = bool(pint(P.get("B_SIGNED", 0))) and t in ("$shift", "$shiftx")
            a = V(C["A"], ow, sg)
            nb = len(C["B"])
            b = V(C["B"])
            assert nb <= 63
            T = wt(ow)
            if t in ("$shl", "$sshl"):
                r = "((%s) >= %d ? (%s)0 : (%s)((%s) << (%s)))" % (b, ow, T, T, a, b)
            elif t == "$sshr" and sg:
                if ow <= 64:
                    sa = "(((int64_t)(%s << %d)) >> %d)" % (a, 64 - ow, 64 - ow)
                    r = "((uint64_t)(%s >> ((%s) >= 63 ? 63 : (%s))))" % (sa, b, b)
                else:
                    r = "((%s)((%s)(%s) >> ((%s) >= %d ? %d : (%s))))" % (T, stype(ow), a, b, ow - 1, ow - 1, b)
            elif bs:
                sb = "((int64_t)(%s << %d) >> %d)" % (b, 64 - nb, 64 - nb)
                r = "(%s >= %d || %s <= -%d ? (%s)0 : %s >= 0 ? (%s)((%s) >> %s) : (%s)((%s) << -%s))" % (
                    sb, ow, sb, ow, T, sb, T, a, sb, T, a, sb)
            else:
                r = "((%s) >= %d ? (%s)0 : (%s)((%s) >> (%s)))" % (b, ow, T, T, a, b)
            return "((%s)(%s) & %s)" % (wt(w), r, mask(w))
        if t in ("$div", "$mod"):
            a, b = V(C["A"], w), V(C["B"], w)
            assert not sg
            return "((%s) == 0 ? 0 : (%s) %s (%s))" % (b, a, "/" if t == "$div" else "%", b)
        raise NLError("cell type %s (%s)" % (t, c["name"]))

    # -- coverage (development tool, see tools/cover.py) -----------------------------------------
    def emit_cover(self, o):
        """one byte per point: each select of a multiplexer 0/1, each comparison 0/1, each bit of a register 0/1, and
        each register all ones"""
        self.points = []
        names, where = {}, {}
        for x, n in sorted(self.m["netnames"].items(), key=lambda e: (e[1].get("hide_name", 0), -e[0].count("."), e[0])):
            if n["bits"] and not n.get("hide_name"):
                names.setdefault(n["bits"][0], x)
                where.setdefault(n["bits"][0], n.get("attributes", {}).get("src", ""))

        def pt(kind, c, cond):
            n = len(self.points)
            b = (c["C"].get("Q") or c["C"].get("Y"))[0]
            self.points.append([kind, names.get(b, c.get("t", "")), c.get("src", "") if "Y" in c["C"] else where.get(b, "")])
            o.append("  if (%s) cov[%d]=1;" % (cond, n))
        for c in self.comb:
            if c["t"] in ("$mux", "$pmux"):
                for j, b in enumerate(c["C"]["S"]):
                    e = self.val([b])
                    if e.endswith(")0"):
                        continue
                    pt("mux%d=0" % j, c, "!(%s)" % e)
                    pt("mux%d=1" % j, c, e)
            elif c["t"] in ("$eq", "$ne", "$lt", "$le", "$gt", "$ge", "$logic_not", "$logic_and", "$logic_or", "$and", "$or", "$not") and c["w"] == 1:
                pt("out=0", c, "!%s" % c["v"])
                pt("out=1", c, c["v"])
        for f in self.ffs:
            for j in range(f["w"]):
                pt("bit%d=0" % j, f, "!((%s >> %d) & 1)" % (f["v"], j))
                pt("bit%d=1" % j, f, "(%s >> %d) & 1" % (f["v"], j))
            if 1 < f["w"]:
                pt("all1", f, "%s == (%s)%s" % (f["v"], ctype(f["w"]), mask(f["w"])))

    def emit(self, cover=False):
        o = ["#include <stdint.h>", "#include <stdlib.h>", "#include <string.h>"]
        if cover:
            o.append("#include <fcntl.h>\n#include <stdio.h>\n#include <unistd.h>\n#include <sys/mman.h>\nstatic unsigned char *cov;")
        o.append("typedef struct {")
        for f in self.ffs:
            o.append("  %s %s;" % (mtype(f["w"]), f["v"]))
        for mem in self.mems:
            o.append("  %s m%d[%d];" % (mtype(mem["w"]), mem["k"], mem["size"]))
            for r in mem["rd"]:
                if r["sync"]:
                    o.append("  %s %s;" % (mtype(mem["w"]), r["v"]))
        o.append("  char dummy;")
        o.append("} S;")
        o.append("size_t sim_size(void){return sizeof(S);}")
        o.append("void sim_init(void *p){ S *s=p; memset(s,0,sizeof *s);")
        for f in self.ffs:
            if f["init"]:
                o.append("  s->%s = %s;" % (f["v"], lit(f["init"], f["w"])))
        for mem in self.mems:
            for a, v in enumerate(mem["init"]):
                if v:
                    o.append("  s->m%d[%d] = %s;" % (mem["k"], a, lit(v, mem["w"])))
            for r in mem["rd"]:
                if r["sync"] and r["init"]:
                    o.append("  s->%s = %s;" % (r["v"], lit(r["init"], mem["w"])))
        o.append("}")
        o.append("static inline __attribute__((always_inline)) void body(S *s, const uint64_t *in, uint64_t *out, int tick){")
        # inputs
        pos = 0
        self.inmap, self.outmap = {}, {}
        for name, w, v in self.inputs:
            nw = (w + 63) // 64
            self.inmap[name] = (pos, w)
            e = []
            for i in range(nw):
                e.append("((%s)in[%d] << %d)" % (wt(w), pos + i, 64 * i))
            o.append("  %s %s = (%s)((%s) & %s);" % (ctype(w), v, ctype(w), "|".join(e), mask(w)))
            pos += nw
        self.nin = pos
        for f in self.ffs:
            o.append("  %s %s = s->%s;" % (ctype(f["w"]), f["v"], f["v"]))
        for mem in self.mems:
            for r in mem["rd"]:
                if r["sync"]:
                    o.append("  %s %s = s->%s;" % (ctype(mem["w"]), r["v"], r["v"]))
        if self.loops:
            for c in self.order:
                o.append("  %s %s = 0;" % (ctype(c["w"]), c["v"]))
            o.append("  for (int it=0; it<%d; it++) { int ch=0;" % 64)
            for c in self.order:
                o.append("  { %s n_ = (%s)%s; ch |= n_ != %s; %s = n_; }" % (ctype(c["w"]), ctype(c["w"]), self.expr(c), c["v"], c["v"]))
            o.append("  if(!ch) break; }")
        else:
            for c in self.order:
                o.append("  %s %s = (%s)%s;" % (ctype(c["w"]), c["v"], ctype(c["w"]), self.expr(c)))
        pos = 0
        for name, w, bits in self.outputs:
            nw = (w + 63) // 64
            self.outmap[name] = (pos, w)
            for i in range(nw):
                o.append("  out[%d] = (uint64_t)%s;" % (pos + i, self.val(bits[64 * i:64 * i + 64])))
            pos += nw
        self.nout = pos
        o.append("  if(!tick) return;")
        if cover:
            self.emit_cover(o)
        for f in self.ffs:
            C, P, w, t = f["C"], f["P"], f["w"], f["t"]
            d = self.val(C["D"], w)
            if t in ("$dffe", "$sdffe", "$sdffce"):
                en = self.val(C["EN"])
                if pint(P["EN_POLARITY"]) == 0:
                    en = "!(%s)" % en
            if t == "$dffe":
                d = "(%s) ? (%s) : (%s)" % (en, d, f["v"])
            if t in ("$sdff", "$sdffe", "$sdffce"):
                r = self.val(C["SRST"])
                if pint(P["SRST_POLARITY"]) == 0:
                    r = "!(%s)" % r
                rv = lit(pint(P["SRST_VALUE"]), w)
                if t == "$sdff":
                    d = "(%s) ? (%s) : (%s)" % (r, rv, d)
                elif t == "$sdffe":
                    d = "(%s) ? (%s) : (%s) ? (%s) : (%s)" % (r, rv, en, d, f["v"])
                else:
                    d = "(%s) ? ((%s) ? (%s) : (%s)) : (%s)" % (en, r, rv, d, f["v"])
            o.append("  s->%s = (%s)(%s);" % (f["v"], ctype(w), d))
        for mem in self.mems:
            C, P, w, a, k = mem["C"], mem["P"], mem["w"], mem["abits"], mem["k"]
            tr = pint(P["RD_TRANSPARENCY_MASK"])
            for i, r in enumerate(mem["rd"]):
                if not r["sync"]:
                    continue
                o.append("  { uint64_t a_ = %s; if (%s) { %s d_ = a_ < %d ? s->m%d[a_] : 0;" % (
                    self.val(C["RD_ADDR"][i * a:(i + 1) * a]), self.val([C["RD_EN"][i]]), ctype(w), mem["size"], k))
                for j in range(mem["nw"]):
                    if (tr >> (i * mem["nw"] + j)) & 1:
                        en = C["WR_EN"][j * w:(j + 1) * w]
                        o.append("    { uint64_t b_ = %s; if (a_ == b_) { %s e_ = %s; d_ = (d_ & ~e_) | (%s & e_); } }" % (
                            self.val(C["WR_ADDR"][j * a:(j + 1) * a]), wt(w), self.val(en), self.val(C["WR_DATA"][j * w:(j + 1) * w])))
                o.append("    s->%s = d_; } }" % r["v"])
            for j in range(mem["nw"]):
                en = C["WR_EN"][j * w:(j + 1) * w]
                o.append("  { %s e_ = %s; if (e_) { uint64_t b_ = %s; if (b_ < %d) s->m%d[b_] = (s->m%d[b_] & ~e_) | (%s & e_); } }" % (
                    wt(w), self.val(en), self.val(C["WR_ADDR"][j * a:(j + 1) * a]), mem["size"], k, k,
                    self.val(C["WR_DATA"][j * w:(j + 1) * w])))
        o.append("}")
        ctl = [f for f in self.ffs if f["w"] <= 3]
        o.append("uint64_t sim_ctl(void *p){ S *s=p; uint64_t h=14695981039346656037ull, a=0; int n=0; (void)a;(void)n;")
        n = 0
        for f in ctl:
            if n + f["w"] > 60:
                o.append("  h=(h^a)*1099511628211ull; h^=h>>29; a=0;")
                n = 0
            o.append("  a |= (uint64_t)s->%s << %d;" % (f["v"], n))
            n += f["w"]
        o.append("  h=(h^a)*1099511628211ull; h^=h>>29; return h & 0x3fffffffffffffffull; }")
        o.append("void sim_eval(void *p, const uint64_t *in, uint64_t *out){ body(p,in,out,0); }")
        o.append("void sim_step(void *p, const uint64_t *in, uint64_t *out){ body(p,in,out,1); }")
        # up to n cycles with unchanged inputs, as long as every output stays what it is in out[]
        nout = max(1, self.nout)
        o.append("uint64_t sim_skip(void *p, const uint64_t *in, const uint64_t *out, uint64_t n){ uint64_t t[%d], k=0;" % nout)
        o.append("  while (k<n) { int j; body(p,in,t,0); for (j=0;j<%d;j++) if (t[j]!=out[j]) return k; body(p,in,t,1); k++; } return k; }" % self.nout)
        if cover:
            o.append('__attribute__((constructor)) static void covopen(void){ int f=open("%s", O_RDWR|O_CREAT, 0666); ftruncate(f, %d);' % (cover, len(self.points) + 1))
            o.append('  cov=mmap(0, %d, PROT_READ|PROT_WRITE, MAP_SHARED, f, 0); close(f); }' % (len(self.points) + 1))
        return "\n".join(o) + "\n"


def compile_json(path, top, clocks, cover=False):
    with open(path) as f:
        doc = json.load(f)
    n = Netlist(doc, top, clocks)
    c = n.emit(cover)
    if cover:
        with open(cover + ".json", "w") as f:
            json.dump(n.points, f)
    # stable state description for the coverage measure: names of the flip-flops
    meta = {"in": n.inmap, "out": n.outmap, "nin": n.nin, "nout": n.nout, "loops": n.loops,
            "ffs": sum(f["w"] for f in n.ffs), "cells": len(n.comb), "mems": len(n.mems)}
    return c, meta
