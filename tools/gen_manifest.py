#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("round trip over generated objects (API-built, parsed, maximally deep, large), structural comparison and text fixpoint", "the value model's comparison"),
 "C02": ("grammar-aware and byte-level fuzzing with repetition amplification on a small stack, a step bound, and process isolation", "a step bound and a stall limit stand for 'does not end'"),
 "C03": ("property-based testing of literals against exact decimal arithmetic", "num-bigint arithmetic in the oracle"),
 "C04": ("differential testing of expressions against an independent term-grouping evaluator", "num-bigint arithmetic in the oracle"),
 "C05": ("property-based testing of strings with known characters, random escaping", "none beyond the generator"),
 "C06": ("model-based testing against a scoping interpreter over abstract documents", "the interpreter"),
 "C07": ("model-based testing of parent chains against a list-of-maps model, API and text", "the model"),
 "C08": ("property-based testing of paths over generated documents with known values, and single-fault paths", "the reference reader, only for the documents around the paths"),
 "C09": ("property-based testing against a lattice model of element types, metamorphic over order and construction", "the type model"),
 "C10": ("algebraic laws and a reference join over generated related types", "the type model"),
 "C11": ("property-based testing over generated trees of files whose content is known bottom-up", "the local file system"),
 "C12": ("random include graphs against a depth-first search", "the local file system"),
 "C13": ("fault injection into generated documents at known positions, and a reference reader that locates the fault", "the reference reader"),
 "C14": ("differential fuzzing against a reference reader over valid, mutated, truncated and random texts", "the reference reader"),
 "C15": ("property-based testing of documents nesting around the limit, whose depth is known by construction", "the generator's count of levels"),
 "C16": ("metamorphic testing: one token sequence, two layouts", "the list of separators between tokens"),
 "C17": ("property-based testing of every getter against the value model", "the value model"),
 "C18": ("metamorphic testing: rebuilt copies are equal, single changes are not", "the value model"),
 "C19": ("stateful model-based testing of handles against a counting model, and threads", "thread interleavings are those the machine produces"),
 "C20": ("property-based testing of names, with all of Unicode swept one character at a time", "char::is_alphabetic"),
 "C21": ("fault injection into file writes (size limit, full device, permissions) with byte comparison", "failures that can be produced without mounting"),
 "C22": ("stateful testing of histories of loads against the reference reader and earlier results, and threads", "thread interleavings are those the machine produces"),
 "C23": ("property-based testing of all views against the values given", "none beyond the generator"),
 "C24": ("property-based testing of conversions and comparisons against exact integers", "num-bigint arithmetic in the oracle"),
 "C26": ("differential testing of all constructors on generated fields and elements, and generated programs that have to compile", "the value model; rustc, for the programs"),
 "C27": ("fault injection with generated names, indices, types and characters that have to be found in the message", "the wording around them is only used for the words 'expected' and 'found', if present"),
 "C25": ("round trip of displayed text in every position where a value may stand", "the value model's comparison"),
 "C28": ("resource accounting (allocator, file descriptors, directory contents) around generated jobs of loads, uses, failing writes and drops", "what the Rust allocator and /proc/self/fd report"),
 "C29": ("metamorphic testing of displayed and written text over equal and single-change values", "the value model's comparison"),
 "C30": ("differential testing of a text loaded as a string, as a file and as an include", "the local file system"),
 "C33": ("metamorphic property-based testing: the cost of n and 8n repetitions of random content, and of using large containers again, by a counting allocator and a step counter", "allocator requests and parser steps, not time"),
 "C32": ("stateful model-based testing of pools of values that resemble and replace each other, and threads asking at once", "thread interleavings are those the machine produces"),
 "C31": ("fuzzing of texts, bytes, files, pipes and uses of values under AddressSanitizer", "AddressSanitizer's view of memory"),
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {
  "guard": "over_verif",
  "enable": "rustc --cfg over_verif, set by /verif/harness/.cargo/config.toml; /verif/build.sh builds the path dependency on /repo with it",
  "source_commits": ["f449ac4"],
 },
 "checks": [
  {
   "property": k,
   "quick_cmd": f"./check.sh {k} quick",
   "thorough_cmd": f"./check.sh {k} thorough",
   "technique": "property-based testing / fuzzing: " + t,
   "level": "exploration",
   "level_note": f"Generated-input search with an explicit oracle; nothing is proved about inputs not generated. Trusted: {a}, and the harness engine. The generator, bounds and exclusions are in DESIGN.md.",
  } for k, (t, a) in sorted(T.items())
 ],
 "not_applicable": [],
 "notes": "check.sh rebuilds /repo's working tree (by content) before every run; replay.sh FILE runs a replay file again. Repaired defects are listed in known_findings.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
