#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("property-based fuzzing: mutated and hostile files, oracle: no panic or abort", "any panic, overflow, abort or endless case at the three API levels; the process is supervised"),
 "P02": ("property-based fuzzing with a counting allocator, bound linear in the input", "peak heap of every load against a fixed linear bound"),
 "P03": ("property-based testing: round-trip of generated documents through an independent encoder", "equality of header, frames and chunks with the model"),
 "P04": ("property-based testing: round-trip of generated layers and cels", "equality of every layer and cel field with the model"),
 "P05": ("property-based testing: round-trip of generated tags and slices", "equality of every tag, slice and key field with the model"),
 "P06": ("property-based testing against a reference palette resolution", "equality of all 256 palette entries with the reference"),
 "P07": ("property-based testing against a reference attachment automaton", "every object's user data against the reference"),
 "P08": ("property-based testing: round-trip of generated property trees; corrupted blocks", "equality of all maps and values; confinement of errors"),
 "P09": ("property-based testing: round-trip of generated auxiliary chunks", "equality of every field of every auxiliary chunk"),
 "P10": ("exhaustive generation of every code of every coded field, code table as oracle", "all codes of all coded fields, enumerated completely"),
 "P11": ("metamorphic property-based testing: insertion of ignorable content", "equality of everything reported and rendered"),
 "P12": ("property-based fuzzing against an independent reference decoder", "same acceptance and same values as the reference decoder"),
 "P13": ("metamorphic property-based testing: one injected fault per document", "fault rejected, repaired file accepted"),
 "P14": ("property-based testing against a reference loader view", "equality of everything the loader reports"),
 "P15": ("property-based testing of decoding against reference pixels", "equality of every byte, sentinels beyond"),
 "P16": ("property-based fuzzing of image data, independent reference decides success", "an error exactly where the data do not determine the pixels"),
 "P17": ("exhaustive and random generation of pixel pairs against a reference port of Aseprite's blend functions", "bit-exact equality"),
 "P18": ("property-based testing against a reference renderer", "bit-exact equality of rendered frames"),
 "P19": ("metamorphic property-based testing of layer selections", "equality with the file without the unselected cels"),
 "P20": ("property-based fuzzing of rendering with buffers of all lengths and sentinels", "no panic; nothing written outside the drawn pixels"),
 "P21": ("property-based testing of hashes over all pairs of frames", "hash relations against reference pictures and cels"),
 "P22": ("stateful model-based testing of call histories, single and multi-threaded", "each result equals that of the same call on a fresh load"),
 "P24": ("property-based testing of every public part parser: generated parts with generated bytes behind them, prefixes, arbitrary bytes", "values and remainder against the model; error for every prefix; no panic"),
 "P25": ("property-based fuzzing of decoding and rendering with a counting allocator", "peak heap of every call against canvas and possible pixels; nothing is left over"),
 "P26": ("property-based testing of processor time over long and over-claiming generated files", "processor time (the least of some attempts) against a generous linear bound"),
 "P27": ("metamorphic property-based testing: one injected fault per document, the error judged against its documentation", "the error and its values, at all levels of the API; only what is concerned fails"),
 "P23": ("property-based testing of slice addresses against the encoder's field map", "every returned slice lies where its field is stored"),
}
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl") if l.strip()]
checks = [{
  "property": i,
  "quick_cmd": f"./check.sh {i} quick",
  "thorough_cmd": f"./check.sh {i} thorough",
  "evidence_file": f"evidence/{i}.json",
  "technique": T[i][0],
  "level": "exploration",
  "level_note": f"Decides: {T[i][1]}. Assurance: held on every generated case (seeded, fixed number of cases, shrinking); no claim of absence beyond them. Trusts the harness's model of the format, encoder and reference semantics.",
} for i in ids if i in T]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in T],
     "notes": "No hooks: every property is observable through the public API. Levels and oracles are described in DESIGN.md; known-findings.txt lists the findings and the fixed defects."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
