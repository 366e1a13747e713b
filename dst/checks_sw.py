"""The software: liblj92, the drivers, the test program."""
import random, zlib
import core, e2e, native, ref, refjpeg, checks_stream
from core import Check, Violation


class C27(Check):
    """liblj92 under failing allocations, truncated and corrupted streams"""
    pid = "C27"
    runs = {"quick": 40000, "thorough": 2000000}
    isolate = True
    clock_ns = 0
    real = "liblj92/lj92.c, compiled from the tree (encoder and decoder)"
    stub = "malloc, calloc, realloc and free are the simulator's; callers, streams and a second codec written from the standard are the harness"
    rule = "a run is one image or stream with its tiling, tables and faults; non-trivial: an allocation failed, the stream was cut or corrupted, or several "\
           "components or a tiling were used; distinct: by hash of the scenario's parameters and the statuses returned"
    faults = {"failed_allocations": "a chosen allocation returns NULL", "truncations": "the stream ends at an arbitrary byte",
              "corrupted_bytes": "bytes of the stream changed, inserted or removed",
              "short_tables": "the linearization table ends in front of a value of the image"}
    required = ["short_tables", "failed_allocations", "truncations", "corrupted_bytes", "encoded", "decoded"]
    assumptions = ["a clean batch is evidence, not proof: inputs and faults are sampled",
                   "samples are below 2^bit depth, tables for the encoder cover them and target buffers have the documented size",
                   "memory errors are seen through guard pages behind every buffer, canaries and junk-filled memory; an overrun into the same "
                   "structure is only seen through its consequences"]
    NONE, CORRUPT, NOMEM = 0, -1, -2

    def prepare(self, tier, seed):
        refjpeg.selftest()
        self.so = native.liblj92()
        self.open_lib()

    prepare_replay = lambda self, scn: self.prepare(None, None)

    def open_lib(self):
        self.f, self.lib = native.load(self.so, native.CDEF_LJ)
        self.lib.al_init()

    def image(self, rng, n):
        bd = rng.choice((12, 16, 8, 14, rng.randrange(2, 17)))
        x = rng.random()
        if x < 0.9:
            w, h = rng.randrange(1, rng.choice((2, 5, 20, 60))), rng.randrange(1, rng.choice((2, 4, 20)))
        elif x < 0.97:
            w, h = rng.randrange(1, 300), rng.randrange(1, 40)
        elif x < 0.985:
            w, h = rng.choice((65535, rng.randrange(256, 65536))), 1
        else:
            w, h = 1, rng.choice((65535, rng.randrange(256, 65536)))
        if rng.random() < 0.01:
            w, h = 200, 150
        mode = rng.randrange(9)
        if n == 1 and rng.random() < 0.03:
            # one row whose differences have classes as unevenly distributed as they can be: codes of up to 17 bits before adjustment
            w, h, mode = rng.randrange(4000, 7000), 1, 9
            bd = rng.choice((16, 16, 16, 15, 14))
        elif n == 1 and rng.random() < 0.02:
            # differences with as many value bits as possible, all ones: the longest stream an image of its size can have
            w, h, mode = rng.randrange(20, rng.choice((300, 1500, 5000))), 1, 10
            bd = rng.choice((16, 16, 16, 16, 12, rng.randrange(2, 16)))
        return {"w": w, "h": h, "n": n, "bd": bd, "g": [rng.randrange(1 << 30), mode]}

    def tile(self, rng, t):
        if rng.random() < 0.4:
            return [t, 0]
        return [rng.choice((1, 2, 3, rng.randrange(1, t + 1), t, t + 1)), rng.choice((0, 1, 7, rng.randrange(100)))]

    def generate(self, rng, tier, idx):
        m = idx % 8
        enc = m in (0, 1, 4)
        scn = self.image(rng, 1 if enc or rng.random() < 0.3 else rng.randrange(1, 5))
        t = scn["w"] * scn["h"] * scn["n"]
        scn["kind"] = "enc" if enc else "dec"
        scn["out"] = [self.tile(rng, t) for _ in range(rng.choice((1, 1, 2)))]
        if rng.random() < 0.3:
            scn["lin"] = rng.randrange(1 << 20)
            if rng.random() < 0.4:
                scn["short"] = [0 if rng.random() < 0.6 else rng.randrange(1 << 20), rng.randrange(2)]
        scn["junk"] = rng.randrange(1 << 20)
        if enc:
            scn["in"] = self.tile(rng, t)
            if rng.random() < 0.3:
                scn["delin"] = rng.randrange(1 << 20)
        else:
            scn["pred"] = rng.randrange(1, 8)
            scn["table"] = rng.randrange(1 << 20)
            scn["extra"] = [[rng.randrange(4), rng.choice((0xFE, 0xE0, 0xE1, 0xEF)), [rng.choice((255, 0, 217, 218, 196, rng.randrange(256)))
                            for _ in range(rng.randrange(40))]] for _ in range(rng.choice((0, 0, 1, 2)))]
            scn["order"] = rng.randrange(2)
            scn["dup"] = rng.randrange(8) // 7
        f = rng.random()
        if m in (4, 5) and f < 0.6:
            scn["fail"] = [rng.randrange(64) if rng.random() < 0.7 else 1 << rng.randrange(6), rng.randrange(8)]
        elif m == 6 or m == 1 and f < 0.3:
            scn["cut"] = rng.randrange(1 << 20)
        elif m == 7 or m == 4 and f > 0.6:
            scn["flips"] = [[rng.choice((rng.randrange(70), rng.randrange(1 << 20))), rng.randrange(3) // 2,
                             rng.choice((1 << rng.randrange(8), rng.randrange(1, 256), 255))] for _ in range(rng.choice((1, 1, 2, 5)))]
        return scn

    def valid(self, scn):
        t = scn["w"] * scn["h"] * scn["n"]
        return t >= 1 and 2 <= scn["bd"] <= 16 and all(o[0] >= 1 for o in scn["out"] + ([scn["in"]] if "in" in scn else [])) and scn["out"] and \
            1 <= scn.get("pred", 1) <= 7 and all(len(x) == 3 and x[1] > 200 for x in scn.get("extra", [])) and \
            all(len(x) == 3 for x in scn.get("flips", [])) and all(len(x) == 2 for x in scn["out"] + [scn.get("g", [0, 0]), scn.get("in", [1, 0]), scn.get("fail", [0, 0]), scn.get("short", [0, 0])]) and \
            ("g" in scn or len(scn["pix"]) == t) and ("pix" in scn or "g" in scn) and (scn["kind"] == "dec" or scn["n"] == 1)

    def shrink(self, scn):
        if "g" in scn:
            if scn["w"] * scn["h"] * scn["n"] <= 2000:
                s = dict(scn, pix=self.pixels(scn))
                del s["g"]
                yield s
        else:
            w = scn["w"] * scn["n"]
            for h in (1, scn["h"] // 2, scn["h"] - 1):
                if 1 <= h < scn["h"]:
                    yield dict(scn, h=h, pix=scn["pix"][:w * h])
            for nw in (1, scn["w"] // 2, scn["w"] - 1):
                if 1 <= nw < scn["w"]:
                    yield dict(scn, w=nw, pix=[p for r in range(scn["h"]) for p in scn["pix"][r * w:r * w + nw * scn["n"]]])
        for k in ("short", "lin", "delin", "fail", "cut", "flips"):
            if k in scn:
                s = dict(scn)
                del s[k]
                yield s
        for c in core.generic_shrink(scn):
            yield c

    def pixels(self, scn):
        if "g" not in scn:
            return scn["pix"]
        seed, mode = scn["g"]
        rng = random.Random("lj/%s" % seed)
        n = scn["w"] * scn["h"] * scn["n"]
        bd = scn["bd"]
        if mode == 8:       # the largest differences, both ways
            return [rng.choice((0, (1 << bd) - 1, 1 << (bd - 1), (1 << (bd - 1)) - 1)) for _ in range(n)]
        if mode == 9:
            return self.uneven(rng, n, bd)
        if mode == 10:
            return self.longest(rng, n, bd)
        return e2e.gen_pixels(rng, n, scn["w"] * scn["n"], bd, scn["n"], mode)

    @staticmethod
    def longest(rng, n, bd):
        c = min(bd, 15)
        few = [rng.randrange(c + 1) for _ in range(rng.choice((1, 1, 2, 3)))]
        share = rng.choice((0.01, 0.03, 0.1, 0.3))
        p, out = 1 << (bd - 1), []
        for _ in range(n):
            d = (1 << (rng.choice(few) if rng.random() < share else c)) - 1
            p = (p + d) & 0xFFFF if bd == 16 else p + d if p + d < 1 << bd else max(0, p - d)
            out.append(p)
        return out

    @staticmethod
    def uneven(rng, n, bd):
        cl = list(range(bd + 1))
        if rng.random() < 0.5:
            rng.shuffle(cl)
        a, b, todo = 1, 1, []
        for c in cl:
            todo += [c] * a
            a, b = b, a + b
            if rng.random() < 0.05:
                b += 1
        rng.shuffle(todo)
        top, p, out = 1 << bd, 1 << (bd - 1), []
        for c in todo[-n:] + [rng.choice(cl[-2:]) for _ in range(n - len(todo))]:
            d = rng.randrange(1 << (c - 1), 1 << c) if c else 0
            s = rng.choice((d, -d))
            for q in (p + s, p - s):
                if bd == 16 or 0 <= q < top:
                    p = q % top
                    break
            out.append(p)
        return out

    @staticmethod
    def table(seed, n, top):
        rng = random.Random("table/%s" % seed)
        m = rng.randrange(3)
        if m == 0:
            k = rng.randrange(1, 1 << 16)
            return [(i ^ k) % top for i in range(n)]
        if m == 1:
            return [top - 1 - i % top for i in range(n)]
        return [rng.randrange(top) for i in range(n)]

    # ---- memory
    def u16(self, vals):
        p = self.f.cast("uint16_t*", self.lib.al_buf(2 * len(vals)))
        for i, v in enumerate(vals):
            p[i] = v
        return p

    def u8(self, data):
        p = self.f.cast("uint8_t*", self.lib.al_buf(len(data)))
        self.f.buffer(p, max(1, len(data)))[0:len(data)] = data if data else b""
        return p

    def died(self, what, r):
        if r >= 1000:
            sig = r - 1000
            if sig == 26:
                raise Violation("hang", "%s does not return" % what)
            raise Violation("crash", "%s died of signal %d" % (what, sig))
        b = self.lib.al_bad()
        if b:
            raise Violation("memory-error", "%s: %s" % (what, "a buffer was overrun" if b & 1 else "a block was freed twice or never allocated"))
        if r not in (0, -1, -2, -3, -4, -5):
            raise Violation("unknown-status", "%s returned %d" % (what, r))
        return r

    def leaks(self, what, n):
        k = self.lib.al_leaks()
        if k != n:
            raise Violation("leak", "%s: %d blocks are not freed" % (what, k - n))

    def execute(self, scn, st):
        lib, f = self.lib, self.f
        fail = scn.get("fail", [0, 0])
        lib.al_reset(fail[0] if scn["kind"] == "enc" else 0, scn.get("junk", 0))
        st.add("cycles", 0)
        pix = self.pixels(scn)
        w, h, n, bd = scn["w"], scn["h"], scn["n"], scn["bd"]
        t = w * h * n
        res = []
        if scn["kind"] == "enc":
            data = self.encode(scn, pix, st, res)
            if data is None:
                st.seen("runs", hash_(scn, res))
                return
            if "delin" in scn:
                tab = self.table(scn["delin"], 1 << bd, 1 << bd)
                pix = [tab[p] for p in pix]
            full = len(data) - 2
            try:
                d = refjpeg.decode(data)
            except refjpeg.Bad as e:
                raise Violation("not-decodable", "the encoder's stream: %s" % e)
            if (d["w"], d["h"], d["n"], d["bd"]) != (w, h, 1, bd) or d["end"] != len(data):
                raise Violation("wrong-header", "%dx%d %d bits %d components, %d of %d bytes" % (d["w"], d["h"], d["bd"], d["n"], d["end"], len(data)))
            if d["pix"] != pix:
                raise Violation("wrong-pixels", "encoder: sample %d differs" % [a == b for a, b in zip(d["pix"], pix)].index(False))
            lib.al_fails(fail[1])
        else:
            rng = random.Random("lens/%s" % scn["table"])
            need = refjpeg.classes(pix, w, h, n, bd, scn["pred"])
            rest = [s for s in range(17) if s not in need]
            rng.shuffle(rest)
            lens = refjpeg.gen_lens(rng, sorted(need) + rest[:rng.choice((0, rng.randrange(len(rest) + 1)))])
            data, full = refjpeg.encode(pix, w, h, n, bd, scn["pred"], lens, scn.get("extra", []), scn.get("order", 0), "1" if scn["table"] & 1 else "0",
                                         refjpeg.gen_lens(rng, range(17)) if scn.get("dup") else None)
            lib.al_fails(fail[0])
        damaged = False
        cut = None
        if "cut" in scn:
            cut = len(data) - 1 - scn["cut"] % len(data) if scn["cut"] & 1 else scn["cut"] % len(data)
            data = data[:cut]
            st.add("truncations")
            # the end marker and the zero stuffed behind the last byte carry nothing
            if cut >= full:
                cut = None
        if scn.get("flips"):
            damaged = True
            b = bytearray(data)
            for pos, how, x in scn["flips"]:
                pos %= len(b) or 1
                st.add("corrupted_bytes")
                if how == 0 and b:
                    b[pos] ^= x
                elif x & 1:
                    b.insert(pos, x)
                elif b:
                    del b[pos]
            data = bytes(b)
        self.decode(scn, data, pix, damaged, cut, full, st, res)
        k = lib.al_failed()
        st.add("failed_allocations", k)
        if k or damaged or cut is not None or n > 1 or len(scn["out"]) > 1 or scn["out"][0][0] != t:
            st.seen("runs", hash_(scn, res))

    def encode(self, scn, pix, st, res):
        lib, f = self.lib, self.f
        rl, sk = scn["in"]
        w, h, bd = scn["w"], scn["h"], scn["bd"]
        img = []
        for a in range(0, len(pix), rl):
            img += pix[a:a + rl]
            if a + rl < len(pix):
                img += [0xDEAD] * sk
        im = self.u16(img)
        de = f.NULL
        nd = 0
        if "delin" in scn:
            tab = self.table(scn["delin"], 1 << bd, 1 << bd)
            de, nd = self.u16(tab), len(tab)
        e = f.new("uint8_t**")
        ne = f.new("int*")
        r = self.died("lj92_encode", lib.t_encode(im, w, h, bd, rl, sk, de, nd, e, ne))
        res.append(r)
        nf = lib.al_failed()
        st.add("failed_allocations", nf)
        if r != 0:
            if r != self.NOMEM or not nf:
                raise Violation("encode-failed", "lj92_encode returned %d, %d allocations failed" % (r, nf))
            self.leaks("lj92_encode", 0)
            return None
        st.add("encoded")
        if ne[0] > lib.al_size(e[0]):
            raise Violation("wrong-length", "%d bytes in a block of %d" % (ne[0], lib.al_size(e[0])))
        self.leaks("lj92_encode", 1)
        data = f.buffer(e[0], ne[0])[:]
        for i, v in enumerate(img):
            if im[i] != v:
                raise Violation("input-changed", "lj92_encode changed the image")
        lib.al_free(e[0])
        return data

    def decode(self, scn, data, pix, damaged, cut, full, st, res):
        lib, f = self.lib, self.f
        d = self.u8(data)
        hp = f.new("void**")
        o = f.new("int[4]")
        hp[0] = f.cast("void*", 8)
        r = self.died("lj92_open", lib.t_open(hp, d, len(data), o))
        res.append(r)
        w, h, n, bd = scn["w"], scn["h"], scn["n"], scn["bd"]
        t = w * h * n
        nf = lib.al_failed()
        if r != 0:
            self.leaks("failed lj92_open", 0)
            if r == self.NOMEM and (nf or damaged):
                return
            if r == self.CORRUPT and (damaged or cut is not None):
                return
            raise Violation("open-failed", "lj92_open returned %d for a good stream" % r)
        if hp[0] == f.NULL:
            raise Violation("no-handle", "lj92_open succeeded without a handle")
        got = (o[0], o[1], o[2], o[3])
        if not damaged and cut is None and got != (w, h, bd, n):
            raise Violation("wrong-header", "lj92_open: %dx%d %d bits %d components, the stream has %dx%d %d bits %d components" % (got + (w, h, bd, n)))
        if damaged or cut is not None:
            t = o[0] * o[1] * o[3]
            if o[0] < 0 or o[1] < 0 or o[3] < 0:
                raise Violation("negative-size", "%s" % (got,))
        if t <= 3000000:
            self.tiles(scn, hp[0], t, pix, damaged, cut, full, data, st, res)
        self.died("lj92_close", lib.t_close(hp[0]))
        self.leaks("lj92_close", 0)

    def tiles(self, scn, hnd, t, pix, damaged, cut, full, data, st, res):
        lib, f = self.lib, self.f
        lin, nl, tab = f.NULL, 0, None
        if "lin" in scn:
            nl = 1 << scn["bd"]
            if "short" in scn:      # the table ends right in front of a value of the image, or right behind it
                k, d = scn["short"]
                nl = max(1, (pix[k % len(pix)] if k else max(pix)) + d)
            tab = self.table(scn["lin"], nl, 65536)
            lin = self.u16(tab)
        for wl, sk in scn["out"]:
            if damaged or cut is not None:
                wl = min(wl, t + 1)
            size = t + sk * ((t - 1) // wl if t else 0)
            tg = f.cast("uint16_t*", lib.al_buf(2 * size))
            for i in range(size):
                tg[i] = 0xBEEF
            r = self.died("lj92_decode", lib.t_decode(hnd, tg, wl, sk, lin, nl))
            res.append(r)
            if lib.al_leaks() < 0:
                raise Violation("memory-error", "lj92_decode freed a buffer of its caller")
            if size < 50000 or not damaged and cut is None:
                for i in range(wl, size, wl + sk):
                    for k in range(i, min(i + sk, size)):
                        if tg[k] != 0xBEEF:
                            raise Violation("write-outside-tile", "cell %d: %04x" % (k, tg[k]))
            if damaged:
                if r not in (self.NONE, self.CORRUPT):
                    raise Violation("wrong-status", "lj92_decode returned %d" % r)
                continue
            if cut is not None:
                if r != self.CORRUPT and not (cut == full - 1 and data and data[-1] == 255):
                    raise Violation("truncation-unnoticed", "lj92_decode returned %d for %d of %d bytes" % (r, cut, full))
                continue
            if tab is not None and max(pix) >= nl:
                if r != self.CORRUPT:
                    raise Violation("outside-table", "lj92_decode returned %d, a value of the image is %d and the table has %d" % (r, max(pix), nl))
                st.add("short_tables")
                continue
            if r != 0:
                raise Violation("decode-failed", "lj92_decode returned %d for a good stream" % r)
            st.add("decoded")
            k = 0
            for i in range(size):
                if i % (wl + sk) < wl:
                    want = pix[k] if tab is None else tab[pix[k]]
                    k += 1
                    if tg[i] != want:
                        raise Violation("wrong-pixels", "cell %d: %04x, expected %04x" % (i, tg[i], want))


def hash_(scn, res):
    return zlib.crc32(repr((scn["kind"], scn["w"], scn["h"], scn["n"], scn["bd"], scn.get("pred"), scn.get("cut"), str(scn.get("flips")), str(scn.get("fail")),
                 str(scn["out"]), str(scn.get("in")), scn.get("table"), str(scn.get("g")), str(scn.get("short")), str(res))).encode())


class C02(Check):
    """what the core emits, put behind the standard headers, decoded by the repository's own decoder"""
    pid = "C02"
    runs = {"quick": 16000, "thorough": 300000}
    faults = checks_stream.FAULTS
    required = ["sink_stall_cycles", "source_gap_cycles", "frames", "decoded"]
    real = checks_stream.STREAM_REAL + "; liblj92/lj92.c"
    stub = "frame geometry comes from the harness; pixel source and word sink are simulated; the file header around the core's words is written by the harness"
    assumptions = checks_stream.ASSUME + ["rows hold whole groups of four samples (one per component)"]
    rule = checks_stream.Stream.rule
    I3 = [{"bd": 16, "ps": 1, "fifo": 64, "out": 16, "conv": 15, "cfifo": 64, "buf": 41}, {"bd": 16, "ps": 4, "fifo": 64, "out": 32, "conv": 48, "cfifo": 64, "buf": 144},
          {"bd": 14, "ps": 2, "fifo": 64, "out": 24, "conv": 31, "cfifo": 64, "buf": 77}, {"bd": 2, "ps": 4, "fifo": 64, "out": 8, "conv": 31, "cfifo": 64, "buf": 77},
          {"bd": 8, "ps": 1, "fifo": 64, "out": 8, "conv": 13, "cfifo": 64, "buf": 41}]
    TOPS = [("beta_axis", None), ("beta_axis", None), ("beta_fifo_axis", None), ("micro_axis", None)] + [("int3", dict(c, axil=False, debug=False)) for c in I3]

    def designs(self, tier, seed):
        return [x for i, x in enumerate(self.TOPS) if x not in self.TOPS[:i]]

    def prepare(self, tier, seed):
        Check.prepare(self, tier, seed)
        self.so = native.liblj92()
        self.open_lib()

    def prepare_replay(self, scn):
        Check.prepare_replay(self, scn)
        self.so = native.liblj92()
        self.open_lib()

    def open_lib(self):
        self.f, self.lib = native.load(self.so, native.CDEF_LJ)
        self.lib.al_init()

    def generate(self, rng, tier, idx):
        d, p = self.TOPS[idx // 8 % len(self.TOPS)]
        scn = {"design": d}
        if p:
            scn["params"] = p
        k = e2e.kind_of(scn)
        scn["frames"] = e2e.gen_frames(rng, k, rng.randrange(1, 4), rng.random() < 0.1)
        for f in scn["frames"]:
            f["w"] += -f["w"] % 4
            f["pix"] = e2e.gen_pixels(rng, f["w"] * f["h"], f["w"], k.bd)
            if k.axil:
                f["ps"] = 0
        if idx % 1000 == 5:
            f = e2e.gen_huge(rng, k, 150000)
            f["w"] -= f["w"] % 4
            scn["frames"] = [f]
        e2e.gen_env(rng, scn, k)
        scn["junkmem"] = rng.randrange(1 << 20)
        return scn

    def valid(self, scn):
        return e2e.valid(scn) and all(f["w"] % 4 == 0 for f in scn["frames"])

    def shrink(self, scn):
        return e2e.shrink(scn)

    def execute(self, scn, st):
        kind = e2e.kind_of(scn)

        class O(e2e.Opt):
            content = False
            collect = []
        O.collect = []
        h = e2e.run(self, scn, st, O)
        frames = {}
        for fr, d, la, forced in O.collect:
            frames.setdefault(fr, []).append(d)
        for i, f in enumerate(scn["frames"]):
            ws = frames.get(i, [])
            body = b"".join(w.to_bytes(kind.obits // 8, "big") for w in ws)
            if kind.framed:
                if body[:16] != b"\xff" * 16 or body[-16:] != b"\xff" * 16:
                    raise Violation("bad-framing", "frame %d" % i)
                body = body[16:-16]
            else:
                body = body.replace(b"\xff", b"\xff\x00")        # stuffing is the next stage's job
            self.decode(scn, i, f, kind, body, st)
        return h

    def decode(self, scn, i, f, kind, body, st):
        lib, ff = self.lib, self.f
        bd = kind.bd
        lens = [(s, c[1]) for s, c in enumerate(ref.STD_SSSS)]
        codes, bits, vals = refjpeg.canonical(lens)
        # the table of the core must be the canonical one of its lengths
        for s in range(17):
            if codes[s] != tuple(ref.STD_SSSS[s]):
                raise RuntimeError("standard table is not canonical")
        data = refjpeg.header(f["w"] // 4, f["h"], 4, bd, 1, bits, vals) + body + b"\xff\xd9"
        lib.al_reset(0, scn.get("junkmem", 0))
        buf = ff.cast("uint8_t*", lib.al_buf(len(data)))
        ff.buffer(buf, len(data))[:] = data
        hp, o = ff.new("void**"), ff.new("int[4]")
        r = lib.t_open(hp, buf, len(data), o)
        if r != 0:
            raise Violation("not-accepted", "frame %d: lj92_open returned %d" % (i, r))
        if (o[0], o[1], o[2], o[3]) != (f["w"] // 4, f["h"], bd, 4):
            raise Violation("wrong-header", "frame %d: %dx%d %d bits %d components" % (i, o[0], o[1], o[2], o[3]))
        n = f["w"] * f["h"]
        tg = ff.cast("uint16_t*", lib.al_buf(2 * n))
        r = lib.t_decode(hp[0], tg, f["w"], 0, ff.NULL, 0)
        if r != 0:
            raise Violation("not-decodable", "frame %d: lj92_decode returned %d" % (i, r))
        pix = e2e.pixels(kind, f)
        for k in range(n):
            if tg[k] != pix[k]:
                raise Violation("wrong-pixels", "frame %d: sample %d is %d, sent %d" % (i, k, tg[k], pix[k]))
        lib.t_close(hp[0])
        if lib.al_bad() or lib.al_leaks():
            raise Violation("memory-error", "frame %d" % i)
        st.add("decoded")
