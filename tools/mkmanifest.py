#!/usr/bin/env python3
"""Regenerates MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": ("robustness fuzzing of every entry point and consumer (structure-aware, mutated, exhaustive short, large adversarial inputs), in optimised and overflow-checked builds", "No panic, abort, stack overflow, arithmetic overflow or disproportionate allocation on the inputs generated; a crash in the worker process is isolated and shrunk."),
 "C02": ("property-based testing: framing reference model + metamorphic append/remove of trailing bytes + pointer-range invariant over 26 entry points", ""),
 "C03": ("model-based property testing of generic BER parsing against an independent X.690 reader; exhaustive short inputs", ""),
 "C04": ("property-based testing: every prefix of generated elements (exhaustive cut points), inner truncation, against a framing model", ""),
 "C05": ("differential (DER against BER) and model-based property testing; exhaustive short inputs", ""),
 "C06": ("property-based testing around the limits: nesting n-1/n/n+1 for every n, announced lengths around 2^32, against a depth model", ""),
 "C07": ("model-based property testing of integer conversions against 128-bit and octet-wise arithmetic; exhaustive short contents", ""),
 "C08": ("model-based property testing of bit access against a bit-by-bit oracle", ""),
 "C09": ("model-based property testing against per-type alphabets; exhaustive single characters and code units", ""),
 "C10": ("model-based property testing of time strings against an independent grammar; field-boundary enumeration", ""),
 "C11": ("round-trip property testing (parse-encode-parse, build-encode-parse, tag wrapping) with an independent canonical encoder as oracle", ""),
 "C12": ("model-based property testing of combinators with generated item parsers, error types, and histories of repeated application", ""),
 "C13": ("model-based property testing of tagging combinators against the framing model, both families, all length forms", ""),
 "C14": ("differential property testing: per-type, slice, content, tag-checked and any-parsers against the generic parser and the model", ""),
 "C15": ("property testing of all accessors and iterators against a structural dump of the object; objects from parser and constructors", ""),
 "C16": ("stateful/model-based property testing: recorded visitor call history and generated edit scripts against a model tree", ""),
 "C17": ("model-based property testing of printed output against an independent renderer; flag operation histories against a set model", ""),
 "C18": ("generated compile-time macro invocations (a crate per run) compared with an independent base-128 encoder", ""),
 "C19": ("differential property testing: any-element then conversion against direct parsing", ""),
 "C21": ("stateful property testing: generated histories of operations over pools of inputs, on one or three threads, against the outcome of each operation alone on a fresh thread", ""),
 "C22": ("property testing of == on pairs of objects differing in one generated place, mutated encodings, other length forms and clones, against equality of structural descriptions", ""),
 "C23": ("generated large adversarial inputs with thread processor time per operation against a generous linear bound; non-termination detected by a watchdog and confirmed in isolation", "A bound on measured time, ten times what the unchanged tree needs."),
 "C24": ("fault-injection property testing: user-defined writers with a generated fault at any write, against the encoding in memory", ""),
 "C20": ("differential property testing across builds: same generated inputs through feature sets x profiles, outputs compared", ""),
}
NOTE = "Search over generated inputs, not proof: holds on every case explored (counts, classes and samples in the evidence file). Trusts the reference model in harness/src/refm.rs and the assumptions listed in the evidence."
claimed = [p["id"] for p in props if p["id"] not in sys.argv[1:]]
m = {
 "version": 1,
 "setup_cmd": "bash run.sh setup",
 "checks": [
  {"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
   "technique": T[i][0], "level": "exploration", "level_note": (T[i][1] + " " + NOTE).strip()} for i in claimed],
 "not_applicable": [{"property": i, "reason": "not claimed yet: its check is still being built"} for i in sys.argv[1:]],
 "notes": "No hooks in /repo: everything is reachable through the public API. Repairs are the 'fix:' commits listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
