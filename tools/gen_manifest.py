#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("round-trip property test over generated and enumerated PDUs", "decode(encode(p)) against p itself"),
 "C02": ("differential test against an independent RFC 2741 encoder", "the reference encoder in harness/ref.go, written from the RFC"),
 "C03": ("model-based test of acceptance against a reference predicate", "the predicate encodable() in harness/ref.go"),
 "C04": ("differential test of header decoding against a reference decoder", "the reference header decoder in harness/ref.go"),
 "C05": ("structure-aware fuzzing of payload decoding, differential against a reference decoder", "the reference payload decoder in harness/ref.go"),
 "C06": ("structure-aware fuzzing with hostile lengths; panic, hang and allocation oracles", "no panic, 60 s per case, measured allocation within 256 KB + 256 bytes per input byte"),
 "C07": ("differential test of EncodePduDbg against EncodePdu", "the plain encoder"),
 "C08": ("differential fuzzing of the debug decoders against the plain ones", "the plain decoders"),
 "C09": ("aliasing and statefulness test over generated call histories", "deep copies taken before each call; results re-examined after inputs and other results are overwritten"),
 "C10": ("generated PDU streams, framed and read back", "the original PDU sequence"),
 "C11": ("metamorphic test: decode, encode, decode over generated foreign encodings", "fixpoint, stability and length relations"),
 "C12": ("generated concurrent codec histories under the race detector", "results of the same calls run alone; Go race detector"),
 "C13": ("order laws and differential comparison over generated OID pairs and triples", "byte-string order of fixed-width big-endian encodings"),
 "C14": ("round-trip and differential parsing of generated texts, all short texts enumerated", "a reference recogniser of the OID grammar"),
 "C15": ("algebraic laws and aliasing test over generated OIDs", "reference results and overwrite-then-compare"),
 "C16": ("stateful model-based test of operation histories", "a set-of-paths model, compared after every operation"),
 "C17": ("differential test of get-next over generated trees and ranges, small trees enumerated", "linear scan over the model's leaves"),
 "C18": ("generated concurrent histories, linearizability search, race detector", "exists a sequential order of the model consistent with real time; Go race detector"),
 "C19": ("parse-back test of dumps over generated and enumerated ranges", "the dumped bytes themselves"),
 "C20": ("parse-back test of diffs over generated and enumerated pairs", "the two inputs themselves"),
 "C21": ("model-based test of value typing, all tags by all value kinds enumerated", "the documented tag/type table, exact reference printing"),
 "C22": ("exhaustive enumeration of all codes against name tables", "the RFC's names, distinctness over the whole domain"),
 "C23": ("differential rendering and metamorphic distinctness over generated PDUs", "an independent line-by-line rendering"),
 "C24": ("log invariants over generated inputs with a recording logger; captured console output", "invariants on messages and dump lines read back"),
 "C26": ("log contents compared with the values sent and received, over generated inputs", "the values of the PDU (of the reference decoder's result), found in the log in wire order"),
 "C27": ("differential test of the struct diff over generated pairs", "an independent line diff of the text forms"),
 "C28": ("all types, flag sets and tags enumerated; generated PDUs", "the tables of RFC 2741, and the codec's own acceptance"),
 "C29": ("generated sequences of appended text forms", "an independent rendering of every value, concatenated"),
 "C30": ("generated and enumerated pairs of every ordered type", "the language's comparison operators"),
 "C31": ("generated concurrent print, parse, compare and dump calls under the race detector", "results of the same calls run alone; Go race detector"),
 "C32": ("generated concurrent console writes, captured, under the race detector", "the output is an interleaving of whole messages; Go race detector"),
 "C25": ("differential test of the name table and of generated registration histories", "OIDs from RFC 1213, 3418 and related MIBs in harness/props_oid.go"),
}
checks = []
for i, (tech, oracle) in sorted(T.items()):
    note = f"Held on every generated and enumerated case of the run (counts, classes and samples in the evidence file). Oracle: {oracle}. "
    if i == "C22":
        note = f"The whole domain is enumerated on every run. Oracle: {oracle}. "
    if i in ("C12", "C18", "C31", "C32"):
        note += "Schedules are those the Go scheduler produces with injected yields; absence of races is decided only for executed interleavings. "
    note += "Trusts the Go toolchain and the oracle; the build is linux/amd64, 64-bit."
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the exported API (C27 through a package whose path lets it import internal). Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt. Replay: ./check.sh ID --replay FILE."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
