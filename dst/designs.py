"""The systems under simulation: which real design, and which of its ports the harness drives."""
from nmigen import Signal


def _stub_register_file():
    """Replace the constant RegisterFile (4096x3072) by inputs the harness drives."""
    import register_file
    h = Signal(16, name="cfg_h")
    w = Signal(16, name="cfg_w")
    a = Signal(24, name="cfg_a")

    def elaborate(self, platform):
        from nmigen import Module
        import clk_domains
        m = Module()
        clk_domains.load_clk(m)
        m.d.comb += [self.height.eq(h), self.width.eq(w), self.allowed_cycles.eq(a)]
        return m
    register_file.RegisterFile.elaborate = elaborate
    return {"height": h, "width": w, "allowed": a}


AXIL_IN = ["araddr", "arprot", "arvalid", "rready"]


def _axil(c):
    ri, ro, wi, wo = c.s_axi_ri, c.s_axi_ro, c.s_axi_wi, c.s_axi_wo
    ins = {"araddr": ri.araddr, "arvalid": ri.arvalid, "rready": ri.rready,
           "awaddr": wi.awaddr, "awvalid": wi.awvalid, "wdata": wi.wdata, "wstrb": wi.wstrb,
           "wvalid": wi.wvalid, "bready": wi.bready}
    outs = {"arready": ro.arready, "rdata": ro.rdata, "rresp": ro.rresp, "rvalid": ro.rvalid,
            "awready": wo.awready, "wready": wo.wready, "bresp": wo.bresp, "bvalid": wo.bvalid}
    return ins, outs


def _core_rst():
    import clk_domains
    return {"core_rst": clk_domains.CORE.rst}


def _record(module, cls):
    """every instance of a class, wherever the real design creates it"""
    mod = __import__(module)
    c = getattr(mod, cls)
    got = []
    orig = c.__init__

    def init(self, *a, **k):
        got.append(self)
        orig(self, *a, **k)
    c.__init__ = init
    return got


def _force_config(**over):
    """build the same top level with another configuration (Integration3 receives the config dict)"""
    import integration_3
    orig = integration_3.Integration3.__init__

    def init(self, *a, **k):
        next(x for x in list(a) + list(k.values()) if isinstance(x, dict)).update(over)
        orig(self, *a, **k)
    integration_3.Integration3.__init__ = init


def d_beta_axis():
    regs = _stub_register_file()
    import beta_integration_axistream
    d = beta_integration_axistream.BetaIntegrationAxiStream()
    return d, {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, regs


def d_beta_axis_full():
    """as shipped: the constant register file"""
    import beta_integration_axistream
    d = beta_integration_axistream.BetaIntegrationAxiStream()
    return d, {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, {}


def d_beta_fifo_axis_full():
    import beta_integration_fifo_axistream
    d = beta_integration_fifo_axistream.BetaIntegrationFIFOAxiStream()
    return d, {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, {}


def d_beta_lvds_full():
    import beta_integration_fifo_lvds
    d = beta_integration_fifo_lvds.BetaIntegrationFIFOLVDS()
    return d, {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "data": d.m_tdata, "ready": d.s_tready}, {}


def d_micro_axis():
    cores = _record("core_axi_lite", "CoreAxiLite")
    import micro_integration_axistream
    d = micro_integration_axistream.MicroIntegrationAxiStream()
    ai, ao = _axil(cores[0])
    ins = {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}
    ins.update(ai)
    outs = {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}
    outs.update(ao)
    return d, ins, outs, {}


def d_beta_axis_axil():
    """the Beta top level with its AXI-lite register interface switched on"""
    cores = _record("core_axi_lite", "CoreAxiLite")
    _force_config(support_axi_lite=True)
    import beta_integration_axistream
    d = beta_integration_axistream.BetaIntegrationAxiStream()
    ai, ao = _axil(cores[0])
    ins = {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}
    ins.update(ai)
    outs = {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}
    outs.update(ao)
    return d, ins, outs, {}


def d_beta_fifo_axis():
    regs = _stub_register_file()
    import beta_integration_fifo_axistream
    d = beta_integration_fifo_axistream.BetaIntegrationFIFOAxiStream()
    return d, {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, regs


def d_beta_lvds():
    regs = _stub_register_file()
    import beta_integration_fifo_lvds
    d = beta_integration_fifo_lvds.BetaIntegrationFIFOLVDS()
    return d, {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "data": d.m_tdata, "ready": d.s_tready}, regs


def d_int3_axis():
    regs = _stub_register_file()
    regs.update(_core_rst())
    import integration_3_axi_stream
    d = integration_3_axi_stream.Integration3AxiStream()
    return d, {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}, \
        {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}, regs


def _cfg(bd, ps, fifo, out, conv, cfifo, buf, axil=False, debug=False):
    return {"bit_depth": bd, "pixels_per_cycle": ps, "LJ92_fifo_depth": fifo, "out_bits": out, "converter": conv,
            "converter_fifo_depth": cfifo, "vbits_to_cbits_buffer_size": buf, "predictor_function": 1,
            "num_of_components": 4, "axi_lite_debug": debug, "support_axi_lite": axil}


def d_int3(**kw):
    """Integration3 with any configuration (ports like the AXI-stream wrapper, pixels on px0..)"""
    cfg = _cfg(**kw)
    cores = _record("core_axi_lite", "CoreAxiLite")
    regs = _core_rst()
    regs.update({} if cfg["support_axi_lite"] else _stub_register_file())
    import integration_3
    import constraints
    d = integration_3.Integration3(cfg, constraints.Constraints())
    ins = {"tvalid": d.valid_in, "busy": d.busy_in}
    for k in range(cfg["pixels_per_cycle"]):
        ins["px%d" % k] = d.pixels_in[k]
    outs = {"valid": d.valid_out, "last": d.end_out, "data": d.data_out, "nready": d.nready}
    if cfg["support_axi_lite"]:
        ai, ao = _axil(cores[0])
        ins.update(ai)
        outs.update(ao)
    return d, ins, outs, regs


# ---- single blocks ---------------------------------------------------------------------------
def _block(dut, ins, outs, core_rst=False):
    """a block on its own: both clock domains run, both are reset together (core_rst: also the core's alone)"""
    from nmigen import Module, Elaboratable
    import clk_domains
    regs = {"core_rst": Signal(1, name="core_rst")} if core_rst else {}

    class Top(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            clk_domains.load_clk(m)
            r = clk_domains.FULL.rst
            m.d.comb += clk_domains.CORE.rst.eq((r | regs["core_rst"]) if regs else r)
            m.submodules.dut = dut
            return m
    return Top(), ins, outs, regs


def _conv(mod, cls, end=False, core_rst=False):
    d = getattr(__import__(mod), cls)()
    ins = {"valid_in": d.valid_in, "data_in": d.data_in, "i_busy": d.i_busy}
    outs = {"valid_out": d.valid_out, "data_out": d.data_out, "o_busy": d.o_busy}
    if end:
        ins["end_in"] = d.end_in
        outs["end_out"] = d.end_out
    return _block(d, ins, outs, core_rst)


def d_b16_b40():
    return _conv("b16_b40", "B16B40", core_rst=True)


def d_b16_b64():
    return _conv("b16_b64", "B16B64", True)


def d_b64_b32():
    return _conv("b64_b32", "B64B32")


def d_b64_b32_2():
    return _conv("b64_b32_2", "B64B32_2", core_rst=True)


def d_axihp_fifo():
    import axihp_fifo
    d = axihp_fifo.AxiHPFifo()
    return _block(d, {"valid_in": d.valid_in, "data_in": d.data_in, "end_in": d.end_in, "read": d.read},
                  {"valid_out": d.valid_out, "data_out": d.data_out, "end_out": d.end_out, "writable": d.writable,
                   "readable": d.readable, "writable16": d.writable16, "readable16": d.readable16})


def d_pipe_fifo(bd, ps, depth):
    import lj92_pipeline_fifo
    import constraints
    d = lj92_pipeline_fifo.LJ92PipelineFifo({"bit_depth": bd, "pixels_per_cycle": ps, "LJ92_fifo_depth": depth}, constraints.Constraints())
    return _block(d, *_fifo_ports(d))


def _fifo_ports(d):
    return ({"valid_in": d.valid_in, "data_in": d.enc_in, "ctr_in": d.enc_in_ctr, "end_in": d.in_end, "read": d.latch_output},
            {"valid_out": d.valid_out, "data_out": d.enc_out, "ctr_out": d.enc_out_ctr, "end_out": d.out_end, "close": d.close_full})


def d_conv_fifo(bd, ps, conv, depth):
    import converter_fifo
    import constraints
    d = converter_fifo.ConverterFifo({"bit_depth": bd, "pixels_per_cycle": ps, "converter": conv, "converter_fifo_depth": depth}, constraints.Constraints())
    return _block(d, *_fifo_ports(d))


def d_out_stage():
    """0xFF fixers and markers, connected by their handshakes as in the Beta and Micro cores"""
    import fix_0xff, fix_0xff2, markers
    a, b, c = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2(), markers.Markers()
    from nmigen import Module, Elaboratable

    class Chain(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.a, m.submodules.b, m.submodules.c = a, b, c
            m.d.comb += [a.i_busy.eq(b.o_busy), b.data_in.eq(a.data_out), b.valid_in.eq(a.valid_out), b.end_in.eq(a.end_out),
                         b.data_in_ctr.eq(a.data_out_ctr), b.i_busy.eq(c.o_busy), c.data_in.eq(b.data_out),
                         c.valid_in.eq(b.valid_out), c.end_in.eq(b.end_out)]
            return m
    return _block(Chain(), {"valid_in": a.valid_in, "data_in": a.data_in, "end_in": a.end_in, "fend": c.force_end_in, "i_busy": c.i_busy},
                  {"valid_out": c.valid_out, "data_out": c.data_out, "end_out": c.end_out, "o_busy": a.o_busy})


def d_repack(**kw):
    """Integration3 with its pixel pipeline replaced by words of the harness: FIFO, converter, FIFO, vbits_to_cbits"""
    cfg = _cfg(**kw)
    import integration_1
    import clk_domains
    total = min(31, 16 + cfg["bit_depth"]) * cfg["pixels_per_cycle"]
    code = Signal(total, name="code")
    ctr = Signal(max=total + 1, name="ctr")
    end = Signal(1, name="end")
    sigs = _record("signals", "Signals")

    def elaborate(self, platform):
        from nmigen import Module
        m = Module()
        clk_domains.load_clk(m)
        m.d.comb += [x.end_of_frame.eq(end) for x in sigs]
        v, d, c, e = self.valid_in, code, ctr, end
        for k in range(6):
            v2, d2, c2, e2 = Signal(1), Signal(total), Signal(max=total + 1), Signal(1)
            m.d.sync += [v2.eq(v), d2.eq(d), c2.eq(c), e2.eq(e)]
            v, d, c, e = v2, d2, c2, e2
        m.d.comb += [self.valid_out.eq(v), self.enc_out.eq(d), self.enc_out_ctr.eq(c), self.end_out.eq(e)]
        return m
    integration_1.Integration1.elaborate = elaborate
    import integration_3
    import constraints
    d = integration_3.Integration3(cfg, constraints.Constraints())
    dut, ins, outs, regs = _block(d, {"valid_in": d.valid_in, "i_busy": d.busy_in},
                                  {"valid_out": d.valid_out, "end_out": d.end_out, "data_out": d.data_out, "o_busy": d.nready})
    return dut, ins, outs, dict(regs, data_in=code, ctr=ctr, end=end)


# ---- buses -----------------------------------------------------------------------------------
def _rec(r, names, pre=""):
    return {pre + n: getattr(r, n) for n in names}


AR = ["arid", "araddr", "arburst", "arlen", "arsize", "arprot", "arvalid"]
AW = ["awid", "awaddr", "awburst", "awlen", "awsize", "awprot", "awvalid"]
WD = ["wid", "wdata", "wstrb", "wlast", "wvalid"]


def d_regs(**kw):
    """Integration3 with its AXI-lite register block: the register values and the debug enables are visible"""
    cfg = _cfg(**kw)
    cores = _record("core_axi_lite", "CoreAxiLite")
    regs = _core_rst()
    import integration_3
    import constraints
    d = integration_3.Integration3(cfg, constraints.Constraints())
    c = cores[0]
    ins, outs = _axil(c)
    if cfg["axi_lite_debug"]:
        ins["debug_en"] = c.debug_en
    outs.update({"height": c.height, "width": c.width, "allowed": c.allowed_cycles})
    return d, ins, outs, regs


def d_dma_regs():
    import dma_axi_lite
    d = dma_axi_lite.DMAAxiLite()
    ri, ro, wi, wo = d.s_axi_ri_, d.s_axi_ro_, d.s_axi_wi_, d.s_axi_wo_
    ins = {"araddr": ri.araddr, "arvalid": ri.arvalid, "rready": ri.rready, "awaddr": wi.awaddr, "awvalid": wi.awvalid,
           "wdata": wi.wdata, "wstrb": wi.wstrb, "wvalid": wi.wvalid, "bready": wi.bready}
    ins.update({"in%d" % k: getattr(d, "in%d" % k) for k in range(1, 10)})
    outs = {"arready": ro.arready, "rdata": ro.rdata, "rresp": ro.rresp, "rvalid": ro.rvalid,
            "awready": wo.awready, "wready": wo.wready, "bresp": wo.bresp, "bvalid": wo.bvalid,
            "read_addr": d.read_addr, "write_addr": d.write_addr, "start": d.start}
    return _block(d, ins, outs)


def d_bridge():
    import axi_lite
    d = axi_lite.AxiLite()
    ins = dict(_rec(d.s_axi_ri, AR + ["rready"], "s_"), **_rec(d.s_axi_wi, AW + WD + ["bready"], "s_"))
    ins.update(_rec(d.m_axi_ri, ["arready", "rdata", "rresp", "rvalid"], "m_"))
    ins.update(_rec(d.m_axi_wi, ["awready", "wready", "bresp", "bvalid"], "m_"))
    outs = dict(_rec(d.s_axi_ro, ["arready", "rid", "rdata", "rlast", "rresp", "rvalid"], "s_"),
                **_rec(d.s_axi_wo, ["awready", "wready", "bid", "bresp", "bvalid"], "s_"))
    outs.update(_rec(d.m_axi_ro, ["araddr", "arprot", "arvalid", "rready"], "m_"))
    outs.update(_rec(d.m_axi_wo, ["awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready"], "m_"))
    return _block(d, ins, outs)


def _hp_read(r):
    return dict(_rec(r.m_axi_ri, ["arready", "rdata", "rlast", "rresp", "rvalid"])), _rec(r.m_axi_ro, AR + ["rready"])


def _hp_write(w):
    return dict(_rec(w.m_axi_wi, ["awready", "wready", "bresp", "bvalid"])), _rec(w.m_axi_wo, AW + WD + ["bready"])


def d_hp_reader():
    import axihp_reader
    d = axihp_reader.AxiHPReader()
    ins, outs = _hp_read(d)
    ins.update({"enable": d.enable, "addr_in": d.addr_in, "addr_empty": d.addr_empty, "data_full": d.data_full})
    outs.update({"inactive": d.inactive, "data_enable": d.data_enable, "data_out": d.data_out, "addr_enable": d.addr_enable,
                 "error": d.reader_error})
    return _block(d, ins, outs)


def d_hp_writer():
    import axihp_writer
    d = axihp_writer.AxiHPWriter()
    ins, outs = _hp_write(d)
    ins.update({"enable": d.enable, "addr_in": d.addr_in, "addr_empty": d.addr_empty, "data_in": d.data_in,
                "data_empty": d.data_empty, "strobe": d.write_strobe})
    outs.update({"inactive": d.inactive, "data_enable": d.data_enable, "addr_enable": d.addr_enable, "error": d.writer_error})
    return _block(d, ins, outs)


def d_full_axi():
    """BetaIntegrationFullAxi with the encoder itself replaced by the harness (DMA registers, address generators,
    HP reader and writer, FIFOs, width converters and their wiring are real)"""
    import beta_integration
    from nmigen import Module, Elaboratable
    import clk_domains

    made = []
    readers, writers, regs = _record("axihp_reader", "AxiHPReader"), _record("axihp_writer", "AxiHPWriter"), _record("dma_axi_lite", "DMAAxiLite")

    class Core(Elaboratable):
        def __init__(self, *a, **k):
            made.append(self)
            self.config = {"support_axi_lite": False}
            for n, w in (("pixel_in1", 12), ("pixel_in2", 12), ("data_out", 16), ("valid_in", 1), ("valid_out", 1),
                         ("end_out", 1), ("nready", 1), ("busy_in", 1)):
                setattr(self, n, Signal(w, name="core_" + n))

        def elaborate(self, platform):
            m = Module()
            clk_domains.load_clk(m)
            m.d.comb += clk_domains.CORE.rst.eq(clk_domains.FULL.rst)
            return m
    beta_integration.BetaIntegration = Core
    import beta_integration_fullaxi
    d = beta_integration_fullaxi.BetaIntegrationFullAxi()
    t = made[0]
    ins, outs = _hp_read(readers[0])
    i2, o2 = _hp_write(writers[0])
    ins.update(i2)
    outs.update(o2)
    a = regs[0]
    ins.update(_rec(a.s_axi_ri_, ["araddr", "arvalid", "rready"], "l_"))
    ins.update(_rec(a.s_axi_wi_, ["awaddr", "awvalid", "wdata", "wstrb", "wvalid", "bready"], "l_"))
    outs.update(_rec(a.s_axi_ro_, ["arready", "rdata", "rresp", "rvalid"], "l_"))
    outs.update(_rec(a.s_axi_wo_, ["awready", "wready", "bresp", "bvalid"], "l_"))
    ins.update({"w_data": t.data_out, "w_valid": t.valid_out, "w_end": t.end_out, "p_nready": t.nready})
    outs.update({"p_valid": t.valid_in, "p1": t.pixel_in1, "p2": t.pixel_in2, "w_busy": t.busy_in})
    return d, ins, outs, {}


def _debug_top(mod, cls):
    cores = _record("core_axi_lite", "CoreAxiLite")
    _force_config(support_axi_lite=True, axi_lite_debug=True)
    d = getattr(__import__(mod), cls)()
    ai, ao = _axil(cores[0])
    ins = {"tvalid": d.s_tvalid, "tlast": d.s_tlast, "tdata": d.s_tdata, "tready": d.m_tready}
    ins.update(ai)
    outs = {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}
    outs.update(ao)
    return d, ins, outs, {}


def d_beta_axis_dbg():
    return _debug_top("beta_integration_axistream", "BetaIntegrationAxiStream")


def d_micro_axis_dbg():
    return _debug_top("micro_integration_axistream", "MicroIntegrationAxiStream")


def d_beta_fifo_axis_dbg():
    cores = _record("core_axi_lite", "CoreAxiLite")
    _force_config(support_axi_lite=True, axi_lite_debug=True)
    import beta_integration_fifo_axistream
    d = beta_integration_fifo_axistream.BetaIntegrationFIFOAxiStream()
    ai, ao = _axil(cores[0])
    ins = {"tvalid": d.s_tvalid, "tdata": d.s_tdata, "tready": d.m_tready}
    ins.update(ai)
    outs = {"valid": d.m_tvalid, "last": d.m_tlast, "data": d.m_tdata, "ready": d.s_tready}
    outs.update(ao)
    return d, ins, outs, {}
