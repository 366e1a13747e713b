"""Trust check: the compiled simulator against nmigen's own simulator (pysim), same inputs, same outputs
every cycle.   xval.py DESIGN PARAMS_JSON STIM.json OUT.json  (fresh process; stimulus = list of input dicts)"""
import sys, json, os
import rtl
import elab


def main():
    design, params, stim, out = sys.argv[1:5]
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(rtl.REPO, "migen_src"))
    sys.setrecursionlimit(100000)
    elab.compat()
    import designs
    from nmigen import Module, Signal
    from nmigen.back import pysim
    dut, ins, outs, regs = getattr(designs, "d_" + design)(**json.loads(params))
    m = Module()
    m.submodules.dut = dut
    import clk_domains
    P, O = {}, {}
    for name, sig in ins.items():
        P[name] = Signal(len(sig), name="i_" + name)
        m.d.comb += sig.eq(P[name])
    for name, sig in outs.items():
        O[name] = Signal(len(sig), name="o_" + name)
        m.d.comb += O[name].eq(sig)
    P.update(regs)
    P["full_rst"] = clk_domains.FULL.rst
    with open(stim) as f:
        stim = json.load(f)
    res = []
    with pysim.Simulator(m) as sim:
        def proc():
            for row in stim:
                for k, v in row.items():
                    yield P[k].eq(v)
                yield pysim.Delay(3e-9)
                r = []
                for k in sorted(O):
                    r.append((yield O[k]))
                res.append(r)
                yield pysim.Tick("full")
                yield pysim.Delay(1e-9)
        sim.add_clock(1e-8, domain="full")
        sim.add_process(proc())
        sim.run()
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
