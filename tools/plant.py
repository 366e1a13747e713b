"""plant.py ID [--check CXX] [--no-check]: validate one planted bug of seeded/ in a scratch copy and run the check of
its property against it.   plant.py --make ID FILE  < two blocks separated by a line '=====' (old, new): write patch.diff"""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
W = "/tmp/plant"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def copy(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def make(id, fn):
    d = copy("mk-" + id)
    old, new = sys.stdin.read().split("\n=====\n")
    new = new[:-1] if new.endswith("\n") else new
    p = os.path.join(d, fn)
    s = open(p).read()
    assert s.count(old) == 1, "old text occurs %d times" % s.count(old)
    open(p, "w").write(s.replace(old, new))
    rc, out = sh(["git", "diff"], d)
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=d, capture_output=True, text=True).stdout.split()[0]
    os.makedirs(os.path.join(V, "seeded", id), exist_ok=True)
    pd = os.path.join(V, "seeded", id, "patch.diff")
    with open(pd, "a" if "--add" in sys.argv else "w") as f:
        f.write(out)
    # removed lines must be lines of the original repository
    first = subprocess.run(["git", "log", "--format=%H %s"], cwd=d, capture_output=True, text=True).stdout.splitlines()
    orig = next(l.split()[0] for l in first if not l.split(" ", 1)[1].startswith("fix:"))
    o = subprocess.run(["git", "show", orig + ":" + fn], cwd=d, capture_output=True, text=True).stdout.splitlines()
    for l in out.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:] not in o:
            print("WARNING: not an original line: " + l)
    shutil.rmtree(d)
    print(out)


def validate(id, check=None, runcheck=True):
    s = os.path.join(V, "seeded", id)
    meta = json.load(open(s + "/meta.json"))
    d = copy(id)
    rc, out = sh(["git", "apply", s + "/patch.diff"], d)
    if rc:
        print(id, "patch does not apply", out)
        return
    res = [id, meta["property"]]
    # demo
    t = tempfile.mkdtemp(dir=W)
    for f in os.listdir(s):
        if not f.endswith((".diff", ".patch")) and f not in ("meta.json", "__pycache__"):
            shutil.copy(os.path.join(s, f), t)
    t0 = time.time()
    rc0, o0 = sh(["bash", t + "/demo.sh"], "/repo", timeout=400)
    t1 = time.time()
    rc1, o1 = sh(["bash", t + "/demo.sh"], d, timeout=400)
    t2 = time.time()
    res.append("demo clean=%d (%.0fs) bug=%d (%.0fs)%s" % (rc0, t1 - t0, rc1, t2 - t1, "" if rc0 == 0 and rc1 else "  BAD"))
    if rc0 or not rc1:
        print(o0[-1500:])
    print(o1[-400:])
    # stable tests
    w = tempfile.mkdtemp(dir=W)
    os.makedirs(w + "/repo")
    for x in ("migen_src", "test_files", "simulations"):
        shutil.copytree(d + "/" + x, w + "/repo/" + x)
    rc, out = sh(["/usr/bin/python3", "/opt/vp/run_scripts.py", w + "/repo", PY])
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, o2 = sh(["gcc", "-O1", "-c", d + "/liblj92/lj92.c", "-o", w + "/x.o"])
    res.append("gcc=%d" % rc)
    names = []
    def walk(x):
        if isinstance(x, str):
            names.append(x)
        elif isinstance(x, dict):
            [walk(v) for v in x.values()]
        elif isinstance(x, list):
            [walk(v) for v in x]
    walk(base)
    stable = sorted({n.split("::")[1] for n in names if "::" in n})
    ok = sum(1 for n in stable if n + ": succeeded" in out)
    res.append("stable tests %d/%d%s" % (ok, len(stable), "" if ok >= 8 else " BAD"))
    if runcheck:
        pid = check or meta["property"]
        t0 = time.time()
        rc, out = sh([PY, V + "/dst/check.py", pid], V, {"DST_REPO": d, "DST_BUILD": W + "/build", "DST_EVIDENCE": W + "/ev",
                     "DST_REPLAYS": W + "/replays", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        res.append("check %s rc=%d (%.0fs) %s" % (pid, rc, time.time() - t0, "CAUGHT" if rc == 1 else "MISSED"))
        print(out[-600:])
    shutil.rmtree(d)
    shutil.rmtree(t)
    shutil.rmtree(w)
    print(" | ".join(res))


if __name__ == "__main__":
    if sys.argv[1] == "--make":
        make(sys.argv[2], sys.argv[3])
    else:
        a = sys.argv[2:]
        validate(sys.argv[1], a[a.index("--check") + 1] if "--check" in a else None, "--no-check" not in a)
