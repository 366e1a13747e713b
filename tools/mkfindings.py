"""known_findings.json: genuine defects of the original tree: repaired by a fix: commit (\"fixed\"), or open (\"findings\")."""
import json, subprocess
M = [
 ("59e00d2", "C08", "a ninth start-marker word was offered and withdrawn, depending on ready"),
 ("90a523b", "C03", "the last flag of the last marker word depended on the sink's ready and could be lost"),
 ("34d9648", "C03", "more words came out after the end marker"),
 ("ce939d2", "C01", "the end of a frame was missed when its last word was accepted after a stall: no end marker, hang"),
 ("340793c", "C06", "a forced end hung or withdrew an offered word"),
 ("a412bf4", "C08", "the last word of a frame was offered twice when the sink stalled"),
 ("d41b98b", "C10", "Micro: end of frame and the markers' busy bypassed the 0xFF fixers: words lost or after the end"),
 ("5b85f4f", "C12", "writing one half of a Huffman entry cleared the other half"),
 ("6abdc46", "C15", "16-to-40-bit packer lost the top bit of the byte carried to the next buffer"),
 ("17ed5ae", "C15", "width converters accepted (and dropped) a word in the first cycle after a reset"),
 ("dcac18b", "C09", "16-to-40-bit packer: the filling state was reset between frames but not the buffers: words lost"),
 ("79989bc", "C10", "the self reset at a frame's end aborted a bus transaction half way"),
 ("871692f", "C14", "a write changed the ID of a pending read response and vice versa"),
 ("efc5f2f", "C17", "reader saw the end of a burst on rlast without rvalid"),
 ("9a93914", "C18", "wlast missed the 16th beat of a burst when the slave stalled"),
 ("0206876", "C18", "more than 7 unanswered writes overflowed the counter: completion was reported too early"),
 ("0b8c05f", "C12", "responses were offered only while ready was high and withdrawn; write data taken twice"),
 ("cf114bc", "C27", "decoder: out-of-bounds histogram for SSSS 16"),
 ("7ab3ea6", "C27", "decoder: the two cached rows overlapped with several components"),
 ("f952c91", "C27", "decoder: predictors 4 to 7 used the left pixel of another component"),
 ("d3f392e", "C27", "decoder: a complete single row image was reported corrupt"),
 ("7599dc1", "C27", "encoder crashed when an allocation failed"),
 ("b8e4b82", "C27", "encoder counted frequencies of the wrong pixels with delinearization"),
 ("f1f6ae2", "C25", "driver never read the Huffman entry of the last SSSS"),
 ("b75536b", "C24", "driver programmed the DMA engine before its reset was over: programming lost"),
 ("c895b07", "C11", "the upper half of a Huffman entry could not be written (always zero)"),
]
import sys
import os
T = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, T)
try:
    from findings2 import MORE, OPEN
except ImportError:
    MORE, OPEN = [], []
out = []
for c, prop, what in M + MORE:
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True, check=True).stdout.strip()
    out.append("fixed: property=%s %s %s" % (prop, h[:12], what))
json.dump({"findings": OPEN, "fixed": out}, open(os.path.join(T, "..", "known_findings.json"), "w"), indent=1)
