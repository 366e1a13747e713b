"""Self test of the machinery (not a check of a property).  /opt/pypyvenv/bin/python tools/selftest.py [--runs N]
 1. the reference encoder against the repository's sample files
 2. determinism: same counters, cycles and trace hashes with 1, 3 and 8 workers and several PYTHONHASHSEEDs
 3. warp: runs with long waits give the same history with and without the fast-forward
 4. the compiled netlist against nmigen's own simulator"""
import sys, os, json, random, subprocess, tempfile, shutil
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dst"))
import ref, rtl, e2e, core, checks_stream
bad = 0


def ok(cond, what):
    global bad
    bad += not cond
    print(("ok    " if cond else "FAIL  ") + what)
    sys.stdout.flush()


# 1
T = os.path.join(rtl.REPO, "test_files")
for n in sorted(os.listdir(T)):
    if n.endswith(".raw12"):
        with open(os.path.join(T, n), "rb") as f:
            raw = f.read()
        pix = []
        for i in range(0, len(raw), 3):
            a, b, c = raw[i:i + 3]
            pix += [a << 4 | b >> 4, (b & 15) << 8 | c]
        for suffix, stuff in (("_headerless.lj92", 1), ("_headerless_nofix.lj92", 0)):
            with open(os.path.join(T, n + suffix), "rb") as f:
                want = f.read()
            ws = ref.words(ref.encode_bits(pix, 4096, 12), 16)
            got = b"".join(w.to_bytes(2, "big") for w in (ref.stuffed(ws) if stuff else ws))
            k = min(len(got), len(want))
            # the files end without the padding to a full word
            same = got[:k - 2] == want[:k - 2] and abs(len(got) - len(want)) <= 2
            ok(same, "reference encoder equals %s%s" % (n, suffix))

# 2
PIDS = ("C01", "C10", "C12", "C14", "C15", "C16", "C18", "C21", "C23", "C24", "C25", "C26", "C27")
if "--xval" in sys.argv:
    PIDS = ()
NR = int(sys.argv[sys.argv.index("--runs") + 1]) if "--runs" in sys.argv else 300
tmp = tempfile.mkdtemp(prefix="selftest")
VOLATILE = ("runs_per_hour", "build_s", "explore_s", "samples")
try:
    for pid in PIDS:
        res = []
        for workers, hs in ((8, "0"), (1, "17"), (3, "random")):
            d = os.path.join(tmp, "%s-%d" % (pid, workers))
            p = subprocess.run([rtl.PYPY, V + "/dst/check.py", pid, "--runs", str(NR), "--workers", str(workers), "--seed", "77"], capture_output=True, text=True,
                               env=dict(os.environ, PYTHONHASHSEED=hs, DST_EVIDENCE=d, DST_REPLAYS=d))
            if p.returncode not in (0, 2):
                res.append((p.returncode, p.stdout, p.stderr))
                continue
            with open(os.path.join(d, pid + ".json")) as f:
                c = json.load(f)["coverage"]
            res.append({k: v for k, v in c.items() if k not in VOLATILE})
        ok(res[0] == res[1] == res[2], "%s: the same runs with 8, 1 and 3 workers and other hash seeds" % pid)
        if not res[0] == res[1] == res[2]:
            for k in res[0]:
                if any(r.get(k) != res[0][k] for r in res if isinstance(r, dict)):
                    print("      ", k, [r[k] for r in res])
finally:
    shutil.rmtree(tmp)

# 3
chk = checks_stream.C01()
chk.pre, chk.sims = {}, {}
n = skipped = 0
for k in range(150):
    rng = random.Random("warp/%d" % k)
    w, h = 8 * rng.randrange(1, 9), rng.randrange(1, 9)
    f = {"w": w, "h": h, "pix": [rng.randrange(4096) if rng.random() < .5 else 2048 for _ in range(w * h)]}
    if rng.random() < 0.3:
        f["allowed"] = rng.randrange(50, 3000)
    scn = {"design": "beta_axis", "params": None, "frames": [f], "gaps": [rng.choice((0, 0, 1, 3, rng.randrange(500))) for _ in range(w * h // 2)],
           "sink": [rng.choice((1, 2, 20, rng.randrange(1, 900))) for _ in range(2 * rng.randrange(40))]}
    r = []
    for warp in (0, 1):
        got, st = [], core.Stats()

        class O(e2e.Opt):
            collect = got
        try:
            e2e.run(chk, dict(scn, warp=warp), st, O)
            end = None
        except core.Violation as v:
            end = (v.kind, v.detail, v.cycle)
        r.append((got, st.c.get("cycles"), st.c.get("forced_ends"), end))
    n += r[0] == r[1]
ok(n == 150, "warp: %d of 150 runs equal" % n)

# 4
# (designs in one clock domain and without resets while they run: pysim orders edges of related clocks and asynchronous
# reset edges differently from the hardware)
XD = [("int3_axis", {}), ("int3", dict(bd=15, ps=4, fifo=128, out=16, conv=31, cfifo=64, buf=64)), ("int3", dict(bd=8, ps=1, fifo=64, out=32, conv=5, cfifo=32, buf=64)),
      ("int3", dict(bd=12, ps=2, fifo=64, out=16, conv=30, cfifo=64, buf=77)), ("b64_b32", {}), ("b16_b64", {}), ("axihp_fifo", {}), ("bridge", {}), ("dma_regs", {}),
      ("hp_reader", {}), ("hp_writer", {}), ("conv_fifo", dict(bd=12, ps=2, conv=30, depth=32))]
for design, params in XD:
    pre = rtl.build(design, params or None)
    s = rtl.Sim(pre)
    rng = random.Random("xval" + design)
    names = sorted(k for k in s.ii)
    width = {k: s.meta["in"][("i_" + k) if "i_" + k in s.meta["in"] else k][1] for k in names}
    stim = []
    cur = {k: 0 for k in names}
    for c in range(600):
        for k in names:
            if k == "full_rst":
                cur[k] = 0
            elif k == "core_rst":
                cur[k] = 0
            elif width[k] == 1:
                cur[k] = int(rng.random() < 0.7)
            elif k in ("height", "width"):
                cur[k] = 8
            elif k == "allowed":
                cur[k] = 0xFFFFFF
            elif rng.random() < 0.6:
                cur[k] = rng.randrange(1 << width[k])
        stim.append(dict(cur))
    d = tempfile.mkdtemp(prefix="xval")
    try:
        with open(d + "/s.json", "w") as f:
            json.dump(stim, f)
        p = subprocess.run([rtl.PYPY, V + "/dst/xval.py", design, json.dumps(params), d + "/s.json", d + "/o.json"], capture_output=True, text=True)
        if p.returncode:
            ok(False, "xval %s: %s" % (design, p.stderr[-400:]))
            continue
        with open(d + "/o.json") as f:
            want = json.load(f)
    finally:
        shutil.rmtree(d)
    outs = sorted(s.oi)
    diff = 0
    done_ = []
    for row, w in zip(stim, want):
        done_.append(0)
        for k, v in row.items():
            for j in range((width[k] + 63) // 64):
                s.i[s.ii[k] + j] = v >> 64 * j & (1 << 64) - 1
        s.step()
        g = []
        for k in outs:
            wd = s.meta["out"][("o_" + k) if "o_" + k in s.meta["out"] else k][1]
            g.append(sum(s.o[s.oi[k] + j] << 64 * j for j in range((wd + 63) // 64)) & (1 << wd) - 1)
        if g != w:
            diff += 1
            if diff < 3:
                print("      cycle %d differs (resets %s, %s):" % (len(done_), [i for i, r in enumerate(stim) if r.get("full_rst")][:9], [i for i, r in enumerate(stim) if r.get("core_rst")][:9]), [(k, a, b) for k, a, b in zip(outs, g, w) if a != b])
    ok(not diff, "%s: compiled netlist equals pysim over %d random cycles" % (design, len(stim)))
print("%d failures" % bad)
sys.exit(bad > 0)
