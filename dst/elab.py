"""Elaborate one design of /repo/migen_src to RTLIL (run in a fresh PyPy process).

    elab.py TREE DESIGN PARAMS_JSON OUT.il OUT.ports.json

The harness wraps the real design in a top module whose ports carry stable names.
nmigen: the repository passes Memory/FIFO arguments positionally (the API of the nmigen it was
written for); the installed nmigen takes them by keyword.  `compat()` accepts both."""
import sys, json, os, warnings
warnings.simplefilter("ignore")


def compat():
    import functools
    import nmigen.hdl.mem as mem
    import nmigen.lib.fifo as fifo
    from nmigen import Signal

    def patch(cls, names, post=None):
        orig = cls.__init__

        @functools.wraps(orig)
        def init(self, *args, **kw):
            for n, a in zip(names, args):
                kw[n] = a
            orig(self, **kw)
            if post:
                post(self)
        cls.__init__ = init
    patch(mem.Memory, ["width", "depth", "init"])

    def add_replace(self):          # old FIFO port; every user ties it to 0
        if not hasattr(self, "replace"):
            self.replace = Signal(name="fifo_replace")
    patch(fifo.SyncFIFO, ["width", "depth", "fwft"], add_replace)
    patch(fifo.SyncFIFOBuffered, ["width", "depth"], add_replace)


def main():
    tree, design, params, out_il, out_ports = sys.argv[1:6]
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(tree, "migen_src"))
    sys.setrecursionlimit(100000)
    compat()
    import designs
    from nmigen import Module, Signal, Elaboratable
    from nmigen.back import rtlil
    import clk_domains
    fn = getattr(designs, "d_" + design)
    dut, ins, outs, regs = fn(**json.loads(params))
    m = Module()
    m.submodules.dut = dut
    ports = []
    info = {"in": [], "out": []}
    for name, sig in ins.items():
        p = Signal(len(sig), name="i_" + name)
        m.d.comb += sig.eq(p)
        ports.append(p)
        info["in"].append([name, len(sig)])
    for name, sig in outs.items():
        p = Signal(len(sig), name="o_" + name)
        m.d.comb += p.eq(sig)
        ports.append(p)
        info["out"].append([name, len(sig)])
    for name, sig in regs.items():     # harness signals used inside the design (stubbed registers)
        sig.name = "i_" + name
        ports.append(sig)
        info["in"].append([name, len(sig)])
    ports += [clk_domains.FULL.clk, clk_domains.FULL.rst]
    text = rtlil.convert(m, name="vtop", ports=ports)
    if isinstance(text, tuple):
        text = text[0]
    with open(out_il, "w") as f:
        f.write(text)
    with open(out_ports, "w") as f:
        json.dump(info, f)


if __name__ == "__main__":
    main()
