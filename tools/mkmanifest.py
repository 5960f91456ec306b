#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl that is not listed in NA."""
import json
ROOT = "/verif"
NA = {
    "N01": "Rounding error grows with runtime sizes and magnitudes; no sound static bound in reach separates acceptable from excessive error for unbounded reductions and libm calls. The exact formulas are claimed in C11 and C23 to C26 instead.",
    "N02": "A statistical statement about the distribution of rand() over call histories; nothing in the source bounds it statically. What any draw may do is claimed in C20.",
    "N03": "User operations are arbitrary code supplied at compile time and verdicts depend on run-time comparisons; the framework's type tables, which are static, are covered by C10.",
}
AI = "path-sensitive abstract interpretation of LLVM IR"
T = {
    "C01": "ownership dataflow: live blocks at every return, " + AI,
    "C02": "ownership typestate (live/released), " + AI,
    "C03": "effect analysis of stores to caller-owned objects, " + AI,
    "C04": "points-to/ownership analysis of the output tensor, " + AI,
    "C05": "output typestate and initialisation analysis, " + AI,
    "C06": "status dataflow (returned and propagated codes), " + AI,
    "C07": "allocation-failure branch analysis (every allocation site), " + AI,
    "C08": "call-effect and ownership-domain analysis of heap functions, " + AI,
    "C09": "per-type path analysis of dispatch and element widths, " + AI,
    "C10": "table and accessor analysis of constant initialisers, " + AI,
    "C11": "symbolic value analysis of element kernels, " + AI,
    "C12": "guard analysis: returned status against argument conditions, " + AI,
    "C13": "symbolic shape and metadata analysis, " + AI,
    "C14": "integer-width analysis of counters and index expressions, " + AI,
    "C15": "effect analysis of globals and external calls, " + AI,
    "C16": "syntax-tree query of public headers against the module's exported symbols",
    "C17": "ownership and metadata analysis of create/destroy/resolve and header accessors, " + AI,
    "C18": "symbolic index algebra, " + AI,
    "C19": "loop-recurrence analysis of contraction kernels, " + AI,
    "C20": "value analysis with unknown random draws, " + AI,
    "C21": "bounds and initialisation analysis of every access, " + AI,
    "C22": "symbolic value analysis of copy kernels, " + AI,
    "C23": "loop-recurrence analysis of the convolution kernel, " + AI,
    "C24": "loop-recurrence analysis of the pooling kernels, " + AI,
    "C25": "loop-recurrence analysis of the softmax kernel, " + AI,
    "C26": "symbolic value analysis of the normalisation kernels, " + AI,
}
NOTE = ("Every argument class in checks/jobs.py (operation, ranks, element types, devices, modes) is analysed with extents, element values, index arguments and the failing allocation left symbolic; "
        "an obligation is proved for all their values or counted open (evidence) and not claimed. Trusted: clang's IR for the sources, the analyser in engine/, the contracts written from the documentation.")
NOTE16 = "Every public declaration and every object used by an inline header function is checked; trusts clang's syntax tree and that the CMake visibility settings are those of checks/mkir.sh."
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "make -s -C /verif/engine -j8",
     "checks": [dict(property=i, quick_cmd=f"python3 checks/run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 checks/run.py {i}", evidence_file=f"evidence/{i}.json", technique=T[i], level="other", level_note=NOTE16 if i == "C16" else NOTE) for i in ids if i not in NA],
     "not_applicable": [dict(property=i, reason=NA[i]) for i in ids if i in NA],
     "notes": "No hooks in /repo: the analysis reads the unmodified sources. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
