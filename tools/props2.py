BLK = "deterministic cycle simulation of the real block with seeded source and sink schedules and resets; executable reference model and per-cycle handshake invariants"
BUSN = "the bus test of the repository performs a few fixed transactions with an always-ready master and no overlap"
SIMBUS = "deterministic cycle simulation; seeded bus master, memory and faults decide every delay; history checked against a register/memory model"

p("C12", "The core's registers behave like registers on AXI-lite",
  "For every sequence and timing of single reads and writes, every transaction on the core's register block is answered exactly once, reads return "
  "what was last written byte by byte (or reset values), and unmapped addresses answer with an error and change nothing. Responses are held until accepted, and a reset at any "
  "time leaves a block that works.", ["histories", "schedules", "crash_points"], "all sequences of reads and writes to all addresses of the map, all strobes, overlaps, stalls and resets; several bit depths",
  BUSN, ["migen_src/core_axi_lite.py", "migen_src/debug_module.py", "migen_src/encode.py", "migen_src/axi3_lite_pkg.py"],
  [("transaction state machines", "migen_src/core_axi_lite.py"), ("memory behind a port", "migen_src/encode.py")], ["AXI-lite responses", "height, width and allowed_cycles as the core sees them"],
  SIMBUS, NOTE, [("registers", "frame size, cycle budget, code table")])
p("C13", "The debug counters account for the traffic",
  "The eight debug counters, read over the bus after a frame, are consistent with what happened at the core's ports: each pair adds up to the observed cycles, "
  "and each counter equals the number of cycles in which its handshake signal had that value, up to a few cycles at the frame's edges. They start from "
  "zero again after a full reset and never influence the encoding.",
  ["schedules", "inputs"], "all frames and timings with the debug build of the Beta and Micro cores", "No test builds a core with the debug module.",
  ["migen_src/debug_module.py", "migen_src/core_axi_lite.py", "migen_src/micro_integration.py", "migen_src/beta_integration.py"],
  [("counters", "migen_src/debug_module.py"), ("read out", "migen_src/core_axi_lite.py")], ["AXI-lite reads of the debug registers"], STREAM + "; counters compared with the simulator's own count of every handshake", NOTE)
p("C14", "The AXI3-to-AXI-lite bridge is transparent",
  "Every single-beat AXI3 read and write reaches the AXI-lite side exactly once with its address, data and strobes, and its response comes back with the transaction's own ID, "
  "for every interleaving of the two directions and all delays on either side. Nothing deadlocks and no response is lost, doubled or swapped.",
  ["schedules", "histories"], "all interleavings and delays of reads and writes, IDs, and data that precedes its address", "No test drives the bridge.",
  ["migen_src/axi_lite.py", "migen_src/axi3_pkg.py", "migen_src/axi3_lite_pkg.py"], [("ID bookkeeping", "migen_src/axi_lite.py")],
  ["both bus interfaces of the bridge"], SIMBUS, NOTE)
p("C15", "Width converters lose, invent and reorder nothing",
  "Each width converter delivers exactly the bits it accepted, in order, at the new width, for every pattern of gaps and stalls. An offered word stays until it is taken, and "
  "after a reset the converter starts empty.", ["schedules", "crash_points"], "all input and output timings and word values of the four converters, with resets and ends of frame",
  "No test drives a converter.", ["migen_src/b16_b40.py", "migen_src/b16_b64.py", "migen_src/b64_b32.py", "migen_src/b64_b32_2.py"],
  [("buffers and their handshakes", "migen_src/b16_b40.py, migen_src/b16_b64.py, migen_src/b64_b32.py, migen_src/b64_b32_2.py")], ["converter outputs"], BLK, NOTE)
p("C16", "FIFOs keep order and the room they promise",
  "Every FIFO returns what was pushed, in order, with its control bits, and its 'closing' or 'writable' signal is raised early enough that everything still in flight "
  "upstream fits. No push that the promise allows is lost at any fill level.", ["schedules", "configurations"], "all push and pop patterns and depths, with pushes that go on for the pipeline latency after closing",
  "The FIFO test fills it once, in one order, at one depth.", ["migen_src/lj92_pipeline_fifo.py", "migen_src/converter_fifo.py", "migen_src/axihp_fifo.py"],
  [("close level", "migen_src/lj92_pipeline_fifo.py, migen_src/converter_fifo.py"), ("16-beat thresholds", "migen_src/axihp_fifo.py")], ["FIFO outputs and levels"], BLK, NOTE)
p("C17", "The HP reader fetches exactly what it was told to",
  "For every memory latency and every availability of addresses and buffer space, the reader issues one legal AXI3 burst per address, delivers its beats in order and exactly once, and never overflows the buffer. "
  "Error responses are reported and switching it off completes what is in flight.", ["schedules", "histories"], "all memory and buffer timings, error responses, disable and enable at any cycle",
  "No test drives the reader.", ["migen_src/axihp_reader.py", "migen_src/axi3_pkg.py"], [("outstanding bursts", "migen_src/axihp_reader.py")], ["AXI3 read port and data output"], SIMBUS, NOTE)
p("C18", "The HP writer stores exactly what it was given",
  "For every memory latency and every availability of addresses and data, the writer issues legal AXI3 bursts of 16 beats whose data reach the addressed memory in order and exactly once. "
  "It counts outstanding responses correctly, reports errors, and goes inactive only when all is confirmed.", ["schedules", "histories"], "all memory and source timings, slow and failing responses, disable and enable at any cycle",
  "No test drives the writer.", ["migen_src/axihp_writer.py", "migen_src/axi3_pkg.py"], [("unconfirmed writes", "migen_src/axihp_writer.py")], ["AXI3 write port, simulated memory"], SIMBUS, NOTE,
  [("unconfirmed", "bursts whose response is outstanding")])
p("C19", "The DMA's registers behave like registers on AXI-lite",
  "For every sequence and timing of reads and writes, every transaction on the DMA's register block is answered exactly once; addresses read back what was last written byte by byte, status registers are read-only and show the inputs, "
  "and unmapped addresses answer with an error. The start signal follows the documented value and a reset at any time leaves a block that works.",
  ["histories", "schedules", "crash_points"], "all sequences, strobes, overlaps, stalls and resets", BUSN.replace("the bus test of the repository performs", "no test drives this block; the test of the other register block performs"),
  ["migen_src/dma_axi_lite.py", "migen_src/axi3_lite_pkg.py"], [("transaction state machines", "migen_src/dma_axi_lite.py")], ["AXI-lite responses", "read_addr, write_addr and start"], SIMBUS, NOTE)
p("C20", "Stuffing and framing are right for every word stream",
  "Whatever words enter the output stage, with whatever timing, they leave it with exactly one zero byte behind every 0xFF byte, in order, between the start and the end markers, with the last flag on the last word only. "
  "A forced end at any cycle closes the frame with its own marker, keeps what was already offered and leaves the stage ready for a fresh frame after its reset.",
  ["inputs", "schedules", "crash_points"], "all word streams (runs of 0xFF at all alignments), timings, resets and moments of a forced end",
  "Tests cover the markers with one stream and the stuffing not at all.", ["migen_src/fix_0xff.py", "migen_src/fix_0xff2.py", "migen_src/markers.py"],
  [("stuffing", "migen_src/fix_0xff.py, migen_src/fix_0xff2.py"), ("markers", "migen_src/markers.py")], ["words at the markers' output"], BLK, NOTE)
p("C21", "Code words are packed into output words without loss",
  "In every configuration, every sequence of variable-length code words leaves the back end as the concatenation of their bits, most significant first, in full output words, the last one padded once, with the end flag on it. "
  "This holds for every length pattern and every fill level of the two FIFOs and the bit buffer, under every stall.", ["inputs", "schedules", "configurations"],
  "all length sequences (not only those real pixels produce), all configurations and timings", "The tests feed a few words to one configuration with an always-ready sink.",
  ["migen_src/converter.py", "migen_src/converter_fifo.py", "migen_src/vbits_to_cbits.py", "migen_src/lj92_pipeline_fifo.py", "migen_src/integration_2.py", "migen_src/integration_3.py"],
  [("slicing long codes", "migen_src/converter.py"), ("bit buffer", "migen_src/vbits_to_cbits.py")], ["output words"], BLK, NOTE, [("bit buffer", "bits not yet emitted")])
p("C22", "A full-size frame is encoded with the built-in geometry",
  "A core built as shipped, without register interface, encodes frames of 4096 by 3072 pixels completely and correctly under any timing. A frame is only abandoned when the built-in cycle budget is exceeded.",
  ["inputs", "schedules"], "12-megapixel frames of any content, with gaps and stalls", "The tests' frames have a few pixels; counters that wrap and levels that drift need a full frame.",
  CORE + BETA + ["migen_src/register_file.py"], [("constant geometry", "migen_src/register_file.py"), ("pixel and line counters", "migen_src/signals.py")], ["AXI stream output"], STREAM, NOTE)
p("C23", "The DMA subsystem moves whole buffers faithfully",
  "Once started over its registers, the subsystem feeds the core the pixels at consecutive source addresses in order and stores the core's words at consecutive destination addresses, exactly once, whatever the memory's and the core's timing. "
  "It reads one frame of 4096 by 3072 pixels and not further, and writes no more than 16 MiB. Error responses of the memory do not stop it, stopping it ends all bus traffic cleanly, switching it on again continues behind what was moved, and after a reset it begins at the programmed addresses.", ["schedules", "histories", "crash_points"],
  "all timings of memory and core, stops, restarts, resets and status reads at any moment", "No test elaborates the full top level.",
  ["migen_src/beta_integration_fullaxi.py", "migen_src/dma_axi_lite.py", "migen_src/address_generator.py", "migen_src/axihp_reader.py", "migen_src/axihp_writer.py", "migen_src/axihp_fifo.py", "migen_src/b64_b32.py", "migen_src/b16_b64.py"],
  [("address sequence", "migen_src/address_generator.py"), ("wiring", "migen_src/beta_integration_fullaxi.py")], ["HP memory port", "pixels into and words out of the core"], SIMBUS, NOTE)
SWN = "Seeded sampling; the real C/C++ code is compiled from /repo with its system calls, allocator and memory-mapped accesses under the simulator's control."
DRV = ["software/src/xilinx_dma.cpp", "software/src/core_axi_lite.cpp", "software/src/mmap_handler.cpp", "software/src/tools.cpp"]
SWT = "deterministic simulation of the compiled driver code on a simulated machine: seeded engine and memory timing, clock, failing system calls and engine errors; history of register accesses checked"
p("C24", "The DMA driver waits exactly as long as it must",
  "For every timing of the engine, the driver starts exactly the programmed transfers after a completed reset, returns from a sync only when that transfer has completed and within bounded time after it, "
  "and decodes status words as the product guide defines them. When open, mmap or a transfer fails, the program ends with a message instead of hanging or carrying on, and no descriptor or mapping is leaked.",
  ["schedules", "histories"], "all sequences of resets, halts, starts, transfers and syncs, all durations of each engine operation, engine errors at any moment, failing open and mmap",
  "There is no test of the software; the driver polls hardware whose speed decides whether a missing wait matters.", DRV,
  [("polling and reset", "software/src/xilinx_dma.cpp"), ("mapping", "software/src/mmap_handler.cpp")], ["register accesses of the driver, its return, exit status and messages"],
  SWT, SWN)
p("C25", "The core's driver and the core's registers agree",
  "What the driver sets is what the core uses and what the driver reads back: height, width, cycle budget, each code table entry and the debug counters, in any order and with any bus timing, each leaving the others unchanged. "
  "The entry of every SSSS class, first to last, is returned as code and length, an unsupported bit depth is refused, and failures of open or mmap end the program.",
  ["histories", "schedules", "configurations"], "all sequences of driver calls, bit depths and bus timings on the real register block",
  "There is no test of the software, and none that runs driver and register block together.", DRV + ["migen_src/core_axi_lite.py", "migen_src/encode.py"],
  [("address map on both sides", "software/src/core_axi_lite.cpp, migen_src/core_axi_lite.py")], ["values returned by the driver, register signals of the core"],
  "deterministic co-simulation of the compiled driver and the real register block behind a simulated bus with seeded delays and failing system calls; register model", SWN)
p("C26", "Driver, DMA and core together deliver frames into memory",
  "A frame that the host has placed in memory, with its size programmed through the drivers, ends up encoded correctly and completely at the destination, for every speed of host, engine, memory and bus and for several frames in a row. "
  "Nothing outside the destination is written and the source and the registers are left as they were.", ["schedules", "histories", "inputs"],
  "all frames, driver call orders, memory stalls, DMA speeds and bus delays", "The pieces were only ever run together on the board.",
  DRV + CORE + BETA + ["migen_src/core_axi_lite.py", "migen_src/beta_integration_fifo_axistream.py", "migen_src/micro_integration.py", "migen_src/micro_integration_axistream.py"],
  [("pixel packing", "software/src/xilinx_test.cpp, migen_src/beta_integration_axistream.py"), ("length in bytes, last flag", "migen_src/markers.py")],
  ["simulated DDR, registers read through the driver"],
  "deterministic co-simulation of the compiled drivers, a simulated DMA engine and memory, and the real core; seeded delays; memory compared with a reference encoding", SWN)
p("C27", "The lossless JPEG library survives bad data and failing allocations",
  "Whatever the allocator and the input do - any allocation failing, a stream truncated or corrupted anywhere - the library returns an error or a result, never touches memory outside its buffers, terminates and leaks nothing. "
  "Without faults, decoding what it encoded returns the pixels, for every bit depth, predictor, component count, tile layout and linearization, and a complete stream is never called corrupt.",
  ["inputs", "crash_points", "configurations"], "all images, tables and layouts, all single failing allocations, all truncations and corruptions", "The library has no tests.",
  ["liblj92/lj92.c", "liblj92/lj92.h"], [("header parser and scan loops", "liblj92/lj92.c"), ("allocation failures", "liblj92/lj92.c")], ["return codes, buffers, live allocations"],
  "deterministic simulation with fault injection: seeded allocation failures, truncation and corruption under a guarded allocator; independent encoder and decoder as the oracle",
  "Seeded sampling; the real C code is compiled from /repo with allocator and memory accesses under control (guard zones, poisoned memory, a step limit).")
p("C28", "The board test program says 'succeeded' only when it is true",
  "The test program reports success exactly if the core's output in memory equals the reference file, whatever the input files, the timing and the core's answer are, and names the first difference otherwise. "
  "It places the pixels of the raw file in memory in the order the core expects, and when a file, a mapping, an allocation or a transfer fails it ends with a failure message.",
  ["inputs", "schedules"], "all file lengths and contents, all timings, failing system calls, results that differ anywhere including in length", "It is the repository's acceptance test of the hardware and nothing tests it.",
  ["software/src/xilinx_test.cpp", "software/src/tools.cpp", "software/src/config.h"] + DRV,
  [("packing of the pixels", "software/src/xilinx_test.cpp"), ("comparison", "software/src/xilinx_test.cpp")], ["program output and exit status, simulated memory"],
  SWT + "; real core for part of the runs", SWN)
p("C29", "The core keeps pace with the sensor",
  "While the sink is ready, the core accepts pixels at the full rate of one beat a cycle, unless the codes are so long that its converter step or its output width sets the pace; then that stage alone does. "
  "A pause of the source or the sink lengthens a frame by no more than itself (up to the latency of the pipeline), and a beat is refused within a frame only when the input FIFO is full but for its safety margin - behind a long stop of the sink, the second FIFO as well. "
  "The first beat of the next frame is accepted promptly behind the previous frame's last word.",
  ["inputs", "schedules"], "all contents (the code lengths set each stage's load), geometries, pauses and frame sequences, on six top levels",
  "The tests feed one block at a time and never count cycles; a lost cycle changes no output word, only the frame rate, and often only under one load of the stages.",
  CORE + BETA + ["migen_src/beta_integration_fifo_axistream.py", "migen_src/beta_integration_fifo_lvds.py", "migen_src/micro_integration.py", "migen_src/integration_3_axi_stream.py"],
  [("pipeline stall and refill", "migen_src/integration_3.py, migen_src/lj92_pipeline_fifo.py"), ("steps per beat", "migen_src/converter.py, migen_src/vbits_to_cbits.py"),
   ("turnaround between frames", "migen_src/clk_domains.py, migen_src/signals.py")],
  ["handshakes at the pixel input and the output of each top level"],
  STREAM + "; cycles of each frame compared with the least number its codes allow", NOTE + " The constant allowance for filling and draining the pipeline (40 to 70 cycles a frame) and the paces of the LVDS packer and of Micro's small buffer were measured on the unchanged tree.")
