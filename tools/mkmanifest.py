#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C13": "symbolic execution of the LLVM IR of parser and grammar with Z3, differential against a recogniser executed on the same symbols",
}
for i in (4, 5, 6, 7, 8, 9, 10, 11, 12):
    TECH[f"C{i:02d}"] = "symbolic execution of the parser's LLVM IR with Z3: symbolic documents, the exact expected tree as assertion"
for i in list(range(14, 27)):
    TECH[f"C{i}"] = "symbolic execution of parser and analyzer LLVM IR with Z3: symbolic names and choices, the verdict the rules demand as assertion"
TECH["C01"] = "symbolic execution of the LLVM IR with Z3: no reachable panic, overflow, bad access or unreachable"
TECH["C02"] = "symbolic execution of the LLVM IR with Z3: equality of the results of both parsers"
TECH["C03"] = "symbolic execution of the LLVM IR with Z3: span assertions over every node"
TECH["C27"] = TECH["C28"] = "symbolic execution of parser and analyzer LLVM IR with Z3: verdict after symbolic reordering or respelling"
TECH["C29"] = "symbolic execution of the LLVM IR with Z3: query result against the document's relations"
TECH["C31"] = "symbolic execution of the parser's LLVM IR with Z3: a text and its parts, read together and apart, compared"
TECH["C32"] = "symbolic execution of parser and analyzer LLVM IR with Z3: the verdict after adding unrelated declarations and members"
TECH["C33"] = TECH["C04"]
TECH["C34"] = "symbolic execution of the LLVM IR of the conversions with Z3 on symbolic texts"
TECH["C35"] = "symbolic execution of the LLVM IR with Z3: location, line, column and text of every error"
TECH["C30"] = "symbolic execution of the LLVM IR with Z3: message and location against the violated rule"
NOTE = ("Bounded: within the scenarios and bounds listed in the evidence file every path of the real code is explored and every assertion decided by Z3 for all symbolic values; "
        "counterexamples and sample paths are replayed on an ordinary native build. Trusts rustc's LLVM IR, the executor in engine/ (cross-checked by the replays and by audits of its value tables), and Z3. "
        "Nothing is claimed for larger documents than stated.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
src = [x.split()[0] for x in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines() if x.split(" ", 1)[1].startswith("hook:")]
m = {
    "version": 1,
    "setup_cmd": "python3 -m vlib.build",
    "hooks": {"guard": "cfg(dbml_verif)", "enable": "RUSTFLAGS='--cfg dbml_verif' with the crate's existing feature utils (C29 only; all other checks build the crate as it is)", "source_commits": src},
    "checks": [dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", technique=TECH[i], level="model_checking", level_note=NOTE) for i in ids],
    "not_applicable": [],
    "notes": "See DESIGN.md. known_findings.txt lists repaired defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
