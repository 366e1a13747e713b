"""Build (from /repo's current tree) and load compiled simulators of the real designs."""
import os, sys, json, hashlib, subprocess, tempfile, shutil, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PYPY = "/opt/pypyvenv/bin/python"
YOSYS = "/usr/bin/yosys"
CLANG = "/usr/bin/clang"
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    """The design does not elaborate or does not compile (not a verdict about a property)."""


def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "migen_src"), HERE):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if n.endswith(".py") and os.path.isfile(p) and (d != HERE or n in ("elab.py", "designs.py", "nl2c.py")):
                h.update(n.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(f.read())
                h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, **kw):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


YS = """
read_ilang %s
hierarchy -top %s
proc
flatten
opt_expr
opt_clean
memory_collect
opt_merge
opt_expr
opt_clean
write_json %s
"""


def build(design, params=None, th=None):
    """-> path prefix of the built artefacts (.so, .json meta)."""
    params = params or {}
    th = th or tree_hash()
    pj = json.dumps(params, sort_keys=True)
    key = hashlib.sha256(("%s|%s|%s" % (th, design, pj)).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    pre = os.path.join(BUILD, "%s-%s" % (design, key))
    if os.path.exists(pre + ".ok"):
        return pre
    with open(pre + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(pre + ".ok"):
            return pre
        tmp = tempfile.mkdtemp(prefix="dst", dir=BUILD)
        try:
            il, ports, js = (os.path.join(tmp, x) for x in ("d.il", "ports.json", "net.json"))
            run([PYPY, os.path.join(HERE, "elab.py"), REPO, design, pj, il, ports], cwd=HERE)
            ys = os.path.join(tmp, "s.ys")
            with open(ys, "w") as f:
                f.write(YS % (il, "vtop", js))
            run([YOSYS, "-q", "-s", ys])
            compile_netlist(js, "vtop", ["full_clk", "clk"], tmp, pre, json.load(open(ports)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return pre


def compile_netlist(js, top, clocks, tmp, pre, ports):
    import nl2c
    cov = os.environ.get("DST_COV")            # development tool: tools/cover.py
    c, meta = nl2c.compile_json(js, top, clocks, os.path.join(cov, os.path.basename(pre)) if cov else False)
    meta["ports"] = ports
    src = os.path.join(tmp, "sim.c")
    with open(src, "w") as f:
        f.write(c)
    so = os.path.join(tmp, "sim.so")
    run([CLANG, "-O2", "-w", "-fwrapv", "-shared", "-fPIC", "-o", so, src])
    shutil.move(so, pre + ".so")
    with open(pre + ".json", "w") as f:
        json.dump(meta, f)
    if os.environ.get("DST_KEEP"):
        shutil.copy(src, pre + ".c")
    open(pre + ".ok", "w").close()


_ffi = None


def ffi():
    global _ffi
    if _ffi is None:
        import cffi
        _ffi = cffi.FFI()
        _ffi.cdef("size_t sim_size(void); void sim_init(void*); void sim_eval(void*, const uint64_t*, uint64_t*);"
                  "void sim_step(void*, const uint64_t*, uint64_t*); uint64_t sim_ctl(void*);"
                  "uint64_t sim_skip(void*, const uint64_t*, const uint64_t*, uint64_t);")
    return _ffi


class Sim:
    """One instance of a compiled design. i[...] inputs, o[...] outputs (arrays of 64-bit words)."""

    def __init__(self, pre):
        f = ffi()
        self.lib = f.dlopen(pre + ".so")
        with open(pre + ".json") as fh:
            self.meta = json.load(fh)
        self.size = self.lib.sim_size()
        self.state = f.new("char[]", self.size + 64)
        a = int(f.cast("uintptr_t", self.state))
        self.p = f.cast("void*", (a + 63) & ~63)
        self.i = f.new("uint64_t[]", self.meta["nin"] + 2)
        self.o = f.new("uint64_t[]", self.meta["nout"] + 2)
        self.ii = {k[2:] if k.startswith("i_") else k: v[0] for k, v in self.meta["in"].items()}
        self.oi = {k[2:] if k.startswith("o_") else k: v[0] for k, v in self.meta["out"].items()}
        self._step, self._eval = self.lib.sim_step, self.lib.sim_eval
        self.power_on()

    def power_on(self):
        self.lib.sim_init(self.p)
        for k in range(self.meta["nin"]):
            self.i[k] = 0

    def step(self):
        self._step(self.p, self.i, self.o)

    def eval(self):
        self._eval(self.p, self.i, self.o)

    def skip(self, n):
        """run up to n cycles with the inputs as they are, stop before a cycle whose outputs differ from o[...]"""
        return self.lib.sim_skip(self.p, self.i, self.o, n)

    def ctl(self):
        """hash of the control state (every flip-flop group of at most 3 bits)"""
        return self.lib.sim_ctl(self.p)

    def state_bytes(self):
        return ffi().buffer(self.p, self.size)[:]
