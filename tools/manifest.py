#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run after adding a check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27".split()
TECH = "explicit-state bounded model checking of the real code: exhaustive depth-first enumeration of "
W = {
    "C01": "decoder compositions x byte streams x all chunkings, against the one-call run",
    "C02": "encoder compositions x items x all buffer cuts, against the one-buffer run",
    "C03": "values x buffer cuts per number type (all 2^8 and 2^16 values, boundary patterns above)",
    "C04": "decoder compositions x byte streams, against an executable reference grammar",
    "C05": "encoder compositions x items, against an executable reference semantics",
    "C06": "codec pairs x item sequences x buffer cuts x chunkings",
    "C07": "decoding states (composition x stream x chunking), announced requirement checked in each",
    "C08": "encoding states (composition x item x buffer cuts), announced size checked in each",
    "C09": "truncation points x chunkings x ways of announcing EOS",
    "C10": "lengths x inner codecs x streams x chunkings x reconfigurations",
    "C11": "limits x inner codecs x streams x chunkings x announced distances",
    "C12": "budget schedules of multiplexed and demultiplexed slices",
    "C13": "interleavings of decode, probe and finish calls",
    "C14": "histories of several items and reconfigurations",
    "C15": "histories of start and encode calls",
    "C16": "operation sequences x reader answers",
    "C17": "operation sequences x writer answers",
    "C18": "fault and short-transfer patterns of the stream under the driver",
    "C19": "answer scripts of the polled stream, against the blocking operation",
    "C20": "schedules of an encoding and a flushing task and the stream's readiness",
    "C21": "pairs and triples of boundary values, against the documented rules",
    "C22": "hostile streams x chunkings x lying EOS announcements under a counting allocator and watchdog",
    "C23": "values and byte strings x chunkings, against the serializer itself",
    "C24": "error sources x layers x positions, calls of the mapping functions counted",
    "C25": "byte strings x cuts, against the language's own UTF-8 decision",
    "C26": "call sequences run in lockstep on a codec and its wrapped twin",
    "C27": "ranges x operations x buffer uses of an owned slice",
}
NOTE = ("Every execution within the bounds listed in the evidence file is run on the code in /repo itself (no abstract model of it); "
        "the check fails on the first difference from the reference. Trusted: the reference semantics in /verif/mc/src, the Rust "
        "toolchain, and that behaviour beyond the bounds (larger sizes, deeper compositions) is like that within.")
checks = [{
    "property": i,
    "quick_cmd": f"bash run.sh check {i} quick",
    "thorough_cmd": f"bash run.sh check {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": TECH + W[i],
    "level": "model_checking",
    "level_note": NOTE,
} for i in DONE]
allp = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "its check is still being built"} for i in allp if i not in DONE],
    "notes": "No hooks in /repo are needed: the checks use the public interface only. See DESIGN.md.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
