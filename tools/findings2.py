MORE = [
 ("HEAD^{/responses of the last bursts}", "C18", "a writer that was disabled while bursts were unanswered could wait for ever for their responses"),
 ("HEAD^{/16-bit differences are modulo}", "C07", "16-bit pixels: differences beyond 32768 fell into the class without value bits, their value was lost"),
 ("HEAD^{/never read past the end of the data}", "C27", "decoder read past the end of truncated data; a complete stream with short last codes was called corrupt"),
 ("HEAD^{/writeLength and skipLength apply}", "C27", "tile layout (writeLength, skipLength) was ignored by some scans"),
 ("HEAD^{/beyond the linearization table is corrupt}", "C27", "values beyond the linearization table were read out of bounds in the first row"),
 ("HEAD^{/may end a written row of one value}", "C27", "a written row of one value was not ended behind the first pixel"),
 ("HEAD^{/class 16 carries no value bits}", "C27", "decoder took value bits behind SSSS 16"),
 ("HEAD^{/corrupt headers are corrupt}", "C27", "corrupt headers were read past the end, or a scan was decoded without a table"),
 ("HEAD^{/ends in an error is not waited for}", "C24", "a transfer that ended in an engine error was waited for for ever"),
 ("HEAD^{/buffer was too small for the longest}", "C27", "lj92_encode failed with LJ92_ERROR_ENCODER for a valid image whose samples need more than three bytes each (17 bits and stuffing)"),
 ("HEAD^{/reader stops behind the frame}", "C23", "the limits of the DMA subsystem never took effect: the reader went on behind the frame, the writer behind its destination"),
]
# not repaired: the file's name (xilinx_test.cpp) makes it a test file, which commits in /repo may not change
OPEN = [
 {"id": "C28-odd-length", "property": "C28", "status": "open", "kind": "false-success", "sig": "last-byte-of-odd-length",
  "what": "a reference of odd length whose last byte alone differs from the output is reported as 'Validation succeeded.' (validate() compares "
          "length bytes, but the bytes are swapped in pairs, so the last one lies one further on)",
  "where": "software/src/xilinx_test.cpp, validate(): end of the byte loop",
  "scenario": {"bits": 32, "image": 0, "junk": 0, "n": 130, "odd": 1, "per_us": 2560, "ref": [[258, 8]]}},
]
