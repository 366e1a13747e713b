"""cover.py CXX... : what the quick tier of these checks reaches in the netlists (development tool, decides nothing).

Builds the netlists with one counter byte per multiplexer select, comparison and register bit, runs the checks and lists
the points never reached, by source line.  cover.py --report DIR only prints."""
import sys, os, json, subprocess, tempfile, shutil, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def report(d):
    tot = collections.Counter()
    hit = collections.Counter()
    for n in sorted(os.listdir(d)):
        if not n.endswith(".json"):
            continue
        with open(os.path.join(d, n)) as f:
            pts = json.load(f)
        if not os.path.exists(os.path.join(d, n[:-5])):
            continue
        with open(os.path.join(d, n[:-5]), "rb") as f:
            c = f.read()
        for (kind, name, src), b in zip(pts, c):
            k = (n.split("-")[0], os.path.basename(src.split("|")[0]), name, kind)
            tot[k] += 1
            hit[k] += b
    by = collections.defaultdict(list)
    des = collections.Counter()
    cov = collections.Counter()
    for k in tot:
        des[k[0]] += 1
        cov[k[0]] += bool(hit[k])
        if not hit[k]:
            by[(k[1], k[2])].append((k[3], k[0]))
    for k in sorted(by):
        kinds = collections.defaultdict(set)
        for a, b in by[k]:
            kinds[b].add(a)
        print(k[0] or "-", k[1], "; ".join("%s{%s}" % (x, ",".join(sorted(y))) for x, y in sorted(kinds.items())))
    for x in des:
        print("# %s: %d of %d points" % (x, cov[x], des[x]))


if __name__ == "__main__":
    if sys.argv[1] == "--report":
        report(sys.argv[2])
        sys.exit()
    t = tempfile.mkdtemp(prefix="cover")
    c = os.environ.get("COVER_DIR") or t + "/c"
    os.makedirs(c, exist_ok=True)
    env = dict(os.environ, DST_COV=c, DST_BUILD=t + "/b", DST_EVIDENCE=t + "/e", DST_REPLAYS=t + "/r")
    try:
        for x in sys.argv[1:]:
            subprocess.call(["/opt/pypyvenv/bin/python", V + "/dst/check.py", x], env=env)
        report(c)
    finally:
        shutil.rmtree(t, ignore_errors=True)
