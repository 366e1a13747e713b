"""Seeded search, replay, minimisation, reporting.  Shared by every check.

One check = a subclass of Check.  generate(rng, tier) draws a complete, explicit scenario (JSON);
execute(scn, st) runs the real system under the simulator with nothing but that scenario deciding
anything, and raises Violation.  So (VERIF_SEED, index) -> scenario -> execution is a function."""
import os, sys, json, time, random, hashlib, mmap, struct, pickle, traceback, signal
import rtl

VERIF = rtl.VERIF
EVID = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("DST_REPLAYS", os.path.join(VERIF, "replays"))


class Violation(Exception):
    def __init__(self, kind, detail="", cycle=None, sig=None):
        Exception.__init__(self, kind)
        self.kind, self.detail, self.cycle = kind, detail, cycle
        self.sig = sig              # identifies one specific failure; a listed finding names it

    def text(self):
        return "%s%s: %s" % (self.kind, "" if self.cycle is None else " at cycle %d" % self.cycle, self.detail)


class Stats:
    """What the runs of one worker covered."""

    def __init__(self):
        self.c = {}            # counters
        self.sets = {}         # name -> set of hashes
        self.maxima = {}

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def seen(self, name, h):
        s = self.sets.get(name)
        if s is None:
            s = self.sets[name] = set()
        if len(s) < 4000000:
            s.add(h)

    def peak(self, k, v):
        if v > self.maxima.get(k, -1):
            self.maxima[k] = v

    def merge(self, o):
        for k, v in o.c.items():
            self.c[k] = self.c.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in o.maxima.items():
            self.peak(k, v)


def draw(chk, rng, tier, idx):
    """a scenario of the run's own random numbers; one outside what the check is about is drawn again"""
    while True:
        scn = chk.generate(rng, tier, idx)
        if chk.valid(scn):
            return scn


class Check:
    pid = None
    runs = {"quick": 100, "thorough": 1000}
    clock_ns = 10            # simulated time per cycle (100 MHz) when the check counts cycles
    level = "exploration"
    rule = ""
    assumptions = []
    real = ""                # components that ran real code
    stub = ""                # components that ran a stub
    faults = {}              # counter name -> description of the fault kind
    required = []            # counters that must be non-zero (vacuity guard)
    configs = False          # the property is about configurations: one that does not elaborate breaks it
    listed = frozenset()     # (kind, sig) of the findings in known_findings.json
    isolate = False          # native code under test may crash: attempts run in a child process
    hang_s = 60              # isolate: an attempt that uses this much CPU time hangs

    def designs(self, tier, seed):
        """[(design, params)] the check needs"""
        return []

    def prepare(self, tier, seed):
        """Build everything; called once in the parent before the workers fork."""
        from concurrent.futures import ThreadPoolExecutor
        ds = self.designs(tier, seed)
        th = rtl.tree_hash()
        def one(d):
            try:
                return rtl.build(d[0], d[1], th)
            except rtl.BuildError as e:
                return e
        with ThreadPoolExecutor(8) as ex:
            pres = list(ex.map(one, ds))
        bad = [x for x in pres if isinstance(x, rtl.BuildError)]
        if bad and (len(bad) == len(ds) or not self.configs):
            raise bad[0]
        # a check over configurations: one that no longer elaborates, while others do, breaks the property
        self.pre = {self.dkey(d, p): x for (d, p), x in zip(ds, pres)}
        self.sims = {}

    def prepare_replay(self, scn):
        """Build what one scenario needs (used by --replay)."""
        self.pre = {}
        self.sims = {}

    @staticmethod
    def dkey(design, params):
        return design + json.dumps(params or {}, sort_keys=True)

    def sim(self, design, params=None):
        k = self.dkey(design, params)
        s = self.sims.get(k)
        if s is None:
            if k not in self.pre:
                try:
                    self.pre[k] = rtl.build(design, params)
                except rtl.BuildError as e:
                    if not self.configs:
                        raise
                    self.pre[k] = e
            if isinstance(self.pre[k], rtl.BuildError):
                raise Violation("does-not-elaborate", "%s %s: %s" % (design, json.dumps(params), str(self.pre[k])[-300:]))
            s = self.sims[k] = rtl.Sim(self.pre[k])
        else:
            s.power_on()
        return s

    def generate(self, rng, tier, idx):
        raise NotImplementedError

    def execute(self, scn, st):
        raise NotImplementedError

    def shrink(self, scn):
        return generic_shrink(scn)

    def valid(self, scn):
        return True

    def probes(self):
        """[(known finding id, scenario)] specific histories listed in known_findings.json"""
        return []

    def extra_evidence(self):
        return {}


# ---- generic shrinking -----------------------------------------------------------------------
def _paths(o, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _paths(o[k], pre + (k,))
    elif isinstance(o, list):
        yield pre, o
        for i, x in enumerate(o):
            if isinstance(x, (dict, list)):
                yield from _paths(x, pre + (i,))
    elif isinstance(o, int) and not isinstance(o, bool):
        yield pre, o


def _put(o, path, v):
    if not path:
        return v
    o = dict(o) if isinstance(o, dict) else list(o)
    o[path[0]] = _put(o[path[0]], path[1:], v)
    return o


FIXED = {"design", "params", "kind", "mode", "op"}


def generic_shrink(scn):
    for path, v in _paths(scn):
        if any(p in FIXED for p in path):
            continue
        if isinstance(v, list):
            n = len(v)
            if n == 0:
                continue
            yield _put(scn, path, [])
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    if k < n:
                        yield _put(scn, path, v[:i] + v[i + k:])
                k //= 2
                if n > 64 and k < n // 64:
                    break
            if all(isinstance(x, int) for x in v) and any(v):
                yield _put(scn, path, [0] * n)
                if n <= 64:
                    for i in range(n):
                        if v[i]:
                            yield _put(scn, path, v[:i] + [0] + v[i + 1:])
                        if v[i] > 1:
                            yield _put(scn, path, v[:i] + [v[i] // 2] + v[i + 1:])
        else:
            for w in (0, 1, v // 2, v - 1):
                if 0 <= w < v:
                    yield _put(scn, path, w)


def size(scn):
    return len(json.dumps(scn))


def minimise(chk, scn, kind, budget_s=40):
    """Greedy: keep any smaller scenario that still fails with the same kind of violation."""
    t0 = time.time()
    tried = 0
    seen = set()
    best = scn
    prog = True
    while prog and time.time() - t0 < budget_s:
        prog = False
        for cand in chk.shrink(best):
            if time.time() - t0 > budget_s:
                break
            key = hashlib.sha1(json.dumps(cand, sort_keys=True).encode()).digest()
            try:
                if key in seen or not chk.valid(cand):
                    continue
            except Exception:
                continue
            seen.add(key)
            tried += 1
            try:
                v = attempt(chk, cand, Stats())
            except Exception:       # not a scenario the check can run
                continue
            if v is not None and v.kind == kind and (v.kind, v.sig) not in chk.listed and (size(cand), json.dumps(cand)) < (size(best), json.dumps(best)):
                best = cand
                prog = True
                break
    return best, tried


def attempt(chk, scn, st, isolated=None):
    if chk.isolate if isolated is None else isolated:
        return attempt_isolated(chk, scn)
    try:
        chk.execute(scn, st)
        return None
    except Violation as v:
        return v


def died(status):
    sig = os.WTERMSIG(status)
    if sig == signal.SIGXCPU or sig == signal.SIGKILL:
        return "hang", "the code under test did not return (CPU limit)"
    return "crash", "the code under test died of %s" % signal.Signals(sig).name


def limit_cpu(seconds):
    import resource
    used = resource.getrusage(resource.RUSAGE_SELF)
    t = int(used.ru_utime + used.ru_stime + seconds) + 1
    resource.setrlimit(resource.RLIMIT_CPU, (t, resource.getrlimit(resource.RLIMIT_CPU)[1]))


def attempt_isolated(chk, scn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            quiet()
            limit_cpu(chk.hang_s)
            v = attempt(chk, scn, Stats(), False)
            with os.fdopen(w, "wb") as f:
                pickle.dump(None if v is None else (v.kind, v.detail, v.cycle, v.sig), f, 4)
        except BaseException:
            os.write(2, traceback.format_exc().encode())
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return Violation(*died(status))
    if not data:
        raise RuntimeError("isolated attempt failed")
    v = pickle.loads(data)
    return None if v is None else Violation(*v)


def quiet():
    """a dying native library must not write core files"""
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def seed_of(seed, pid, idx):
    return int.from_bytes(hashlib.sha256(("%s|%s|%d" % (seed, pid, idx)).encode()).digest()[:8], "big")


# ---- workers ---------------------------------------------------------------------------------
def explore(chk, tier, seed, nruns, nworkers, deadline):
    shm = mmap.mmap(-1, 4096)
    shm[0:8] = struct.pack("<Q", 1 << 60)       # lowest violating index so far
    pids, pipes = [], []
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                st = Stats()
                found = None
                done = 0
                last = -1
                if chk.isolate:
                    quiet()
                samples = []
                for idx in range(w, nruns, nworkers):
                    if idx > struct.unpack("<Q", shm[0:8])[0] or time.time() > deadline:
                        break
                    rng = random.Random(seed_of(seed, chk.pid, idx))
                    scn = draw(chk, rng, tier, idx)
                    if chk.isolate:
                        shm[64 + 8 * w:72 + 8 * w] = struct.pack("<Q", idx + 1)
                        limit_cpu(chk.hang_s)
                    v = attempt(chk, scn, st, False)
                    if v is not None and v.sig is not None and (v.kind, v.sig) in chk.listed:
                        st.add("runs_that_met_a_listed_finding")
                        v = None
                    done += 1
                    last = idx
                    if len(samples) < 1:
                        samples.append(json.dumps(scn)[:600])
                    if v is not None:
                        found = (idx, scn, v.kind, v.detail, v.cycle)
                        if idx < struct.unpack("<Q", shm[0:8])[0]:
                            shm[0:8] = struct.pack("<Q", idx)
                        break
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((st, found, done, last, samples, None), f, 4)
            except BaseException:
                try:
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump((None, None, 0, 0, [], traceback.format_exc()), f, 4)
                except Exception:
                    pass
                code = 3
            os._exit(code)
        os.close(wr)
        pids.append(pid)
        pipes.append(r)
    st = Stats()
    found, done, samples, errs = [], 0, [], []
    for w, r in enumerate(pipes):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pids[w], 0)
        if chk.isolate and os.WIFSIGNALED(status):
            idx = struct.unpack("<Q", shm[64 + 8 * w:72 + 8 * w])[0] - 1
            if idx >= 0:
                scn = draw(chk, random.Random(seed_of(seed, chk.pid, idx)), tier, idx)
                found.append((idx, scn) + died(status) + (None,))
                continue
        if not data:
            errs.append("worker died, status %d" % status)
            continue
        s, fo, dn, last, sm, err = pickle.loads(data)
        if err:
            errs.append(err)
            continue
        st.merge(s)
        done += dn
        samples += sm
        if fo:
            found.append(fo)
    found.sort(key=lambda x: x[0])
    return st, found, done, samples, errs


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "open"]


def main(chk, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--limit-s", type=float, default=None)
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.replay:
        return replay(chk, a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    nruns = a.runs or chk.runs[tier]
    limit = a.limit_s or (420 if tier == "quick" else 3000)
    chk.prepare(tier, a.seed)
    tb = time.time() - t0
    violations = []
    # listed findings: the specific histories, replayed every time
    known = load_known(chk.pid)
    chk.listed = frozenset((k["kind"], k["sig"]) for k in known if k.get("sig"))
    st0 = Stats()
    for k in known:
        v = attempt(chk, k["scenario"], st0)
        if v is None:
            print("note: listed finding %s did not reproduce" % k["id"])
        elif v.kind == k["kind"] and v.sig == k.get("sig"):
            print("KNOWN-FINDING: property=%s %s" % (chk.pid, k["what"]))
        else:
            violations.append((-1, k["scenario"], v.kind, v.detail, v.cycle))
    t1 = time.time()
    st, found, done, samples, errs = explore(chk, tier, a.seed, nruns, a.workers, t0 + limit)
    te = time.time() - t1
    if errs:
        sys.stderr.write("HARNESS ERROR\n%s\n" % errs[0])
        return 2
    violations += found
    rc = 0
    vout = []
    if violations:
        idx, scn, kind, detail, cyc = violations[0]
        mini, tried = minimise(chk, scn, kind)
        v = attempt(chk, mini, Stats())
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-seed%s-run%s.json" % (chk.pid, a.seed, idx))
        doc = {"property": chk.pid, "seed": a.seed, "run": idx, "tier": tier, "kind": v.kind, "detail": v.detail,
               "cycle": v.cycle, "scenario": mini, "original_size": size(scn), "minimised_size": size(mini),
               "shrink_attempts": tried, "replay": "%s %s/dst/check.py %s --replay %s" % (rtl.PYPY, VERIF, chk.pid, path)}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print("%s run %s: %s" % (chk.pid, idx, v.text()))
        print("VIOLATION property=%s replay=%s" % (chk.pid, path))
        vout.append("%s: %s (replay %s)" % (kind, v.detail, path))
        rc = 1
    else:
        miss = [c for c in chk.required if not st.c.get(c)]
        if miss:
            sys.stderr.write("HARNESS ERROR: nothing exercised %s\n" % ", ".join(miss))
            rc = 2
    evidence(chk, tier, a.seed, st, done, te, tb, samples, vout, time.time() - t0, nruns)
    if rc == 0:
        print("%s held: %d runs, %d cycles, %.1f s (build %.1f s)" % (chk.pid, done, st.c.get("cycles", 0), te, tb))
    return rc


def replay(chk, path):
    with open(path) as f:
        doc = json.load(f)
    if doc["property"] != chk.pid:
        sys.stderr.write("this replay file is of property %s\n" % doc["property"])
        return 2
    chk.prepare_replay(doc["scenario"])
    v = attempt(chk, doc["scenario"], Stats())
    if v is None:
        print("replay of %s: no violation" % path)
        return 0
    same = (v.kind, v.detail, v.cycle) == (doc["kind"], doc["detail"], doc["cycle"])
    print("replay: %s%s" % (v.text(), "" if same else "  [DIFFERS from the recorded violation]"))
    print("VIOLATION property=%s replay=%s" % (chk.pid, path))
    return 1


def evidence(chk, tier, seed, st, done, te, tb, samples, vout, wall, nruns):
    hours = max(te, 1e-6) / 3600.0
    distinct = {k: len(v) for k, v in st.sets.items()}
    nontrivial = distinct.pop("runs", 0)
    cov = {
        "evaluations": done,
        "distinct_nontrivial": min(nontrivial, done),
        "rule": chk.rule,
        "samples": samples[:3] or ["(none)"],
        "runs_requested": nruns,
        "runs_per_hour": int(done / hours),
        "seeds": "one derived seed per run: sha256(VERIF_SEED | property | run index)",
        "simulated_cycles": st.c.get("cycles", 0),
        "simulated_seconds": round(st.c.get("cycles", 0) * chk.clock_ns * 1e-9, 6),
        "faults_injected": {k: {"what": d, "count": st.c.get(k, 0)} for k, d in chk.faults.items()},
        "distinct_states_or_interleavings": distinct,
        "counters": dict(sorted(st.c.items())),
        "maxima": dict(sorted(st.maxima.items())),
        "real_code": chk.real,
        "stubs": chk.stub,
        "build_s": round(tb, 2),
        "explore_s": round(te, 2),
    }
    cov.update(chk.extra_evidence())
    doc = {"property": chk.pid, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0, "level": chk.level,
           "coverage": cov, "assumptions": chk.assumptions, "wall_s": round(wall, 2), "violations": len(vout)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, chk.pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
