"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing; both files are committed)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
HAVE = set(subprocess.run([PY, V + "/dst/check.py"], capture_output=True, text=True).stdout.split())

CORE = ["migen_src/predictor_p1_c4_pix1_2.py", "migen_src/difference.py", "migen_src/normalize.py", "migen_src/encode.py",
        "migen_src/merge.py", "migen_src/lj92_pipeline_fifo.py", "migen_src/converter.py", "migen_src/converter_fifo.py",
        "migen_src/vbits_to_cbits.py", "migen_src/signals.py", "migen_src/integration_1.py", "migen_src/integration_2.py",
        "migen_src/integration_3.py"]
BETA = ["migen_src/beta_integration.py", "migen_src/beta_integration_axistream.py", "migen_src/fix_0xff.py", "migen_src/fix_0xff2.py",
        "migen_src/markers.py", "migen_src/force_end.py", "migen_src/auto_reset.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=list(state)))


STREAM = "deterministic cycle simulation of the elaborated RTL; seeded schedules of source gaps, sink stalls, resets and budgets; " \
         "every word checked against an executable reference encoder, liveness by a cycle budget"
NOTE = "Seeded sampling of schedules and faults on the real RTL (nmigen netlist compiled to C, cross-validated against pysim); " \
       "evidence, not proof. Trusts yosys/RTLIL, the netlist compiler and the reference model."
EXECNOTE = "no test drives it: the existing integration tests use one fixed stimulus with an always-ready sink"

p("C01", "Lossless encoding of a frame under every timing",
  "For every frame geometry and every pixel content, and whatever the timing of the pixel source and of the sink, the encoder core emits "
  "exactly one correct lossless-JPEG encoding of the frame, in order and complete. No word is lost, duplicated, reordered or altered, and "
  "the last word comes out within a bounded number of cycles once gaps and stalls end.",
  ["inputs", "schedules"], "all frames in the supported geometry (16-bit width and height), all input gap patterns, all output stall patterns",
  "The tests feed one or two tiny fixed frames to an always-ready sink; loss, duplication and deadlock need particular alignments of "
  "back-pressure with FIFO levels and pipeline contents.", CORE + BETA,
  [("stall propagation", "migen_src/integration_3.py (busy/ready handshake between stages)"), ("fifo close level", "migen_src/lj92_pipeline_fifo.py"),
   ("bit packing", "migen_src/converter.py, migen_src/vbits_to_cbits.py")], ["AXI stream output of the Beta core"], STREAM, NOTE,
  [("FIFO contents", "encoded pixels that wait for the converter"), ("bit buffer", "bits not yet emitted as a word")])
p("C02", "The encoder's output decodes with the shipped decoder",
  "Whatever the core encodes, the body of its output behind an ordinary lossless JPEG header is decoded by the repository's own lossless JPEG "
  "library to exactly the pixels that went in. This holds for all frames and all timings of source and sink.",
  ["inputs", "schedules"], "all frame contents and supported sizes, with the timing faults of C01",
  "No test runs encoder and decoder together; agreement has to hold for every code class, sign, predictor context and alignment.",
  CORE + BETA + ["liblj92/lj92.c"],
  [("code tables on both sides", "migen_src/encode.py, liblj92/lj92.c"), ("predictor 1 on both sides", "migen_src/predictor_p1_c4_pix1_2.py, lj92.c")],
  ["pixels returned by the decoder"], "deterministic simulation of the RTL with timing faults; oracle: the real C decoder on the simulated output", NOTE)
p("C03", "Self-contained framing: markers, stuffing, last flag",
  "Every complete frame leaves the core as eight start markers, a byte-stuffed body in which no data byte can be mistaken for a marker, and eight "
  "end markers, with the last flag on the final word and nowhere else. A receiver that knows only the frame size can cut the stream into frames and "
  "decode every pixel of each.", ["inputs", "schedules"], "all frame contents (0xFF-rich ones included), sizes and timings; several frames in a row",
  "The marker test looks at one fixed stream with an always-ready sink; a marker lost, doubled or out of place depends on where stalls and frame "
  "ends fall.", BETA, [("byte stuffing", "migen_src/fix_0xff.py, migen_src/fix_0xff2.py"), ("start/end markers", "migen_src/markers.py")],
  ["words and last flag at the AXI stream output"], "deterministic RTL simulation with timing faults; oracle: an independent parser and decoder of the raw words", NOTE)
p("C04", "Consecutive frames do not influence each other",
  "Frames sent one after the other, with geometry and content changing from one to the next, each come out exactly as if they had been sent alone, "
  "in order. The core re-arms by itself after each frame without any external help, also after a frame that was cut short.",
  ["histories", "schedules"], "all sequences of frames and sizes, with gaps and stalls at and around the frame boundary",
  "Tests stop after one frame or reset in between; leftover state shows only in a second frame with the right first one.", CORE + BETA,
  [("self reset at the end of a frame", "migen_src/auto_reset.py, migen_src/clk_domains.py")], ["AXI stream output"], STREAM, NOTE)
p("C05", "A reset at any moment leaves no trace",
  "After an external reset at any cycle, in any state of the core and of length one or more, the next frame is encoded correctly and completely. "
  "Nothing of the interrupted frame appears behind the reset.", ["crash_points", "schedules"], "resets at every cycle of a run, single and repeated, "
  "including during markers, stalls, forced ends and other resets", "No test resets a core that is in the middle of a frame.", CORE + BETA,
  [("reset domains", "migen_src/clk_domains.py"), ("self reset", "migen_src/auto_reset.py")], ["AXI stream output after the reset"],
  STREAM, NOTE)
p("C06", "A frame that exceeds its cycle budget is ended, and only then",
  "A frame that has not been delivered within the programmed number of cycles after its first pixel is abandoned promptly with the forced-end marker "
  "sequence and the last flag, and the next frame is encoded correctly. A frame is never abandoned earlier, whatever the stalls.",
  ["schedules", "inputs"], "all budgets (24 bits) and all timings, with the budget running out in every phase of a frame",
  "The only test of the markers has no budget; whether the abort is clean depends on the word on the bus at that cycle.", BETA,
  [("budget counter", "migen_src/force_end.py"), ("forced end marker", "migen_src/markers.py")], ["AXI stream output"], STREAM, NOTE)
p("C07", "Every supported configuration encodes correctly",
  "For every supported combination of bit depth, pixels per cycle, FIFO depths, converter width, output width and buffer size, the generated core "
  "encodes every frame losslessly under every timing. Configuration changes only throughput and size, never the stream.",
  ["configurations", "inputs", "schedules"], "bit depth 2 to 16; 1, 2 or 4 pixels per cycle; FIFO depths from the smallest supported; converter widths 1 to the full word; "
  "output widths 8 to 64", "Tests build one or two configurations, and those with fixed data; most parameter values are never elaborated.",
  CORE + ["migen_src/predictor_p1_c4_px4.py", "migen_src/config.py"], [("derived widths and levels", "migen_src/converter.py, migen_src/vbits_to_cbits.py, migen_src/lj92_pipeline_fifo.py")],
  ["core output"], STREAM + "; configurations drawn from the seed", NOTE)
p("C08", "Offered words are stable and independent of ready",
  "On every top level, a word that has been offered stays offered, with the same data and last flag, until the sink takes it. What is offered in a "
  "cycle does not depend on whether the sink is ready in that cycle, so a sink that waits for valid before it becomes ready always makes progress.",
  ["schedules"], "all sink behaviours, including ones that wait for valid, on all five top levels, around forced ends and frame ends",
  "The tests keep ready high, so a word is never held.", BETA + ["migen_src/beta_integration_fifo_axistream.py", "migen_src/beta_integration_fifo_lvds.py",
  "migen_src/micro_integration_axistream.py", "migen_src/integration_3_axi_stream.py"], [("output handshake", "migen_src/markers.py, migen_src/vbits_to_cbits.py")],
  ["valid, data, last at the output of each top level, with both values of ready in each cycle"],
  "deterministic RTL simulation with sink faults; per-cycle invariant, both values of ready evaluated in every cycle", NOTE)
p("C09", "The buffered wrappers deliver every frame",
  "The variants that buffer wide input beats in front of the core deliver the same encoding as the bare core: as 16-bit words with framing, or packed "
  "without gaps into 40-bit words. This holds for every fill level of the input buffer, every timing and after resets.",
  ["inputs", "schedules", "crash_points"], "all frames, input bursts and pauses, output stalls and resets", "There is no test of these wrappers.",
  ["migen_src/beta_integration_fifo_axistream.py", "migen_src/beta_integration_fifo_lvds.py", "migen_src/b64_b32.py", "migen_src/b16_b40.py"],
  [("width conversion", "migen_src/b64_b32.py, migen_src/b16_b40.py"), ("input FIFO", "migen_src/beta_integration_fifo_axistream.py")], ["AXI stream and 40-bit outputs"], STREAM, NOTE)
p("C10", "Register-programmed cores obey their registers",
  "On cores whose frame size and cycle budget are set over the bus, every frame is encoded with the values last written, in any order, with any byte "
  "strobes and bus timing. Values survive the self reset between frames, and bus traffic during a frame does not disturb it.",
  ["histories", "schedules"], "all register programs and bus timings, with frames of changing size, resets and forced ends",
  "The bus test performs a handful of fixed transactions on the register block alone, never with a core that encodes.",
  ["migen_src/core_axi_lite.py", "migen_src/micro_integration.py", "migen_src/micro_integration_axistream.py"] + CORE,
  [("registers", "migen_src/core_axi_lite.py"), ("self reset leaves them alone", "migen_src/clk_domains.py")], ["AXI stream output, AXI-lite responses"], STREAM, NOTE)
p("C11", "Any valid code table written over the bus takes effect",
  "After any valid Huffman table (codes of up to 16 bits) has been written over the bus, in any order and by any combination of partial writes, every following frame is "
  "encoded with exactly that table until it is changed. Entries that were not written keep their codes.",
  ["inputs", "histories"], "all prefix codes that fit the entry format at all bit depths, all write orders and strobes, several tables in a row",
  "The test writes a few entries and reads them back; no frame is ever encoded with a written table.", ["migen_src/core_axi_lite.py", "migen_src/encode.py"],
  [("table memory and its bus port", "migen_src/encode.py, migen_src/core_axi_lite.py")], ["AXI stream output"], STREAM, NOTE)
exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

out = []
for q in P:
    if q["id"] not in HAVE:
        continue
    assert len(q["title"]) <= 80, q["title"]
    ns = len(re.findall(r"[.!?](?:\s|$)", q["statement"]))
    assert ns <= 3, (q["id"], ns)
    for f in q["files"]:
        assert os.path.exists("/repo/" + f), f
    out.append({"id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": sorted(set(q["files"])), "state": [{"name": a, "meaning": b} for a, b in q["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"], "hook_needed": None}})
with open(V + "/properties.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
checks = []
for q in P:
    if q["id"] not in HAVE:
        continue
    cmd = "%s dst/check.py %s --tier " % (PY, q["id"])
    checks.append({"property": q["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "exploration", "level_note": q["note"]})
man = {"version": 1, "setup_cmd": PY + " dst/setup.py", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: the RTL is elaborated from /repo's working tree and simulated cycle by cycle (every clock edge, handshake and "
                "reset is the simulator's decision); the C and C++ software runs with its system calls, allocator and memory-mapped registers "
                "replaced at link time. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(out), "properties;", "missing:", [q["id"] for q in P if q["id"] not in HAVE], [h for h in HAVE if h not in [q["id"] for q in P]])
