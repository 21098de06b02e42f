#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to edit the registered checks)."""
import json, os
V = "symbolic-value dataflow over the compiler's IR (gated value graph, one abstract pass, no path enumeration or solver)"
IRNOTE = "Analyses the unoptimised LLVM IR rustc emits from /repo's current sources for every instantiation in roots/. Holds for all lengths, grid sizes and float values at the dimension counts listed in the evidence. Trusts rustc's lowering, the analyser's IR model; real-number equality is decided by rational-function fingerprints modulo 2^61-1. "
C = {
 "C01": (V + ": panic reachability", IRNOTE + "Every call of a panic function on any path must be infeasible. Recursive cubic beyond 3 dimensions only in the thorough tier."),
 "C02": (V + ": acceptance condition of constructors", IRNOTE + "Ok under all conditions, Err when any one fails (including NaN steps)."),
 "C03": (V + ": acceptance condition and write-gating of batches", IRNOTE + "No output write is feasible under any violated batch condition."),
 "C04": (V + ": loop summaries and dependence sets", IRNOTE + "Batch loop summarised as an element-wise map; element value compared with single-point evaluation region by region."),
 "C05": (V + ": read footprints as index polynomials", IRNOTE + "Set of value-array reads per region must lie in the containing cell's C-order footprint."),
 "C06": (V + ": per-region rational normal-form identity", IRNOTE + "Exact (real) arithmetic; region tuples are exhaustive for few dimensions and a covering selection for many (see evidence)."),
 "C07": (V + ": per-region rational normal-form identity", IRNOTE + "Exact (real) arithmetic; recursive implementation up to 5 dimensions in quick, 7 in thorough."),
 "C08": (V + ": per-region rational normal-form identity", IRNOTE + "Exact (real) arithmetic; recursive implementation up to 5 dimensions in quick, 7 in thorough."),
 "C09": (V + ": per-region value identity", IRNOTE + "Below, above, both halves, midpoint and nodes of a cell in every dimension."),
 "C10": (V + ": per-region sample identity", IRNOTE + "A location exactly at a grid point may be assigned to either adjacent cell."),
 "C11": (V + ": per-region rational normal-form identity", IRNOTE + "A location exactly at a grid point may be assigned to either adjacent cell by the holds."),
 "C12": (V + ": expression equality between sibling implementations", IRNOTE + "Flattened and recursive siblings compared through C06/C07/C08 specifications and region by region; the interpn dispatch at every dimension count compared with the interpolator it must build."),
 "C13": (V + ": expression equality between feature configurations", IRNOTE + "The IR of the four feature configurations is compared entry point by entry point on one-sided regions and a generic grid."),
 "C15": ("call-graph effect analysis over the compiler's IR, recursion measure, no_std build", IRNOTE + "Every function reachable from each evaluation entry point: callees outside the allowlist, global writes, allocation and OS symbols."),
 "C16": ("type-level witnesses: auto-trait and lifetime obligations plus compile-fail programs", "Compiles (never runs) positive obligations and a family of violating programs against /repo's crate; every violating program must be rejected with the expected error code."),
 "C14": (V + ": exhaustive comparison classes of each flag", IRNOTE + "Positive steps / increasing grids; NaN coordinates never flag."),
 "C17": (V + ": precision dataflow on the value graph", IRNOTE + "No FPTrunc or integer round trip (other than the cell index) on the way to a double result; constants dyadic."),
 "C18": (V + ": representability conditions of success", IRNOTE + "Cell number below/above the machine integer range or NaN, in any one dimension."),
}
PV = "static evaluation of the package's Python syntax trees over a gated value domain (guards as BDDs, no execution)"
PN = "Reads the Python sources (and the extension's functions from rustc's macro expansion) on every run; nothing is imported or executed. Trusts the analyser's model of Python, numpy, json and pydantic. "
C.update({
 "C21": ("syntax-tree comparison of raw.py, the stub and the macro-expanded extension module", PN + "Names, parameters, order, precision and writability of every function."),
 "C22": (PV, PN + "Every class, data type, with and without out; grids of 1 to 8 dimensions by representative."),
 "C23": (PV + ": condition of normal return of the validators", PN + "0 to 10 dimensions, agreeing and disagreeing counts, symbolic contents."),
 "C24": (PV + ": conversion identities", PN + "Composition of serializer and validator rewrites to the identity."),
 "C25": (PV, PN + "Guard of each raw call equals the documented selection."),
 "C26": (PV, PN + "Content, shape and identity of the output; exact guard of the bounds-check error."),
 "C29": (PV, PN + "Every field of the object built by new()."),
})
C.update({
 "C19": (V + ": argument flow and result mapping of the binding layer", "Compiles the crate's Python feature against models of pyo3 and numpy (pystub/) and analyses the IR of every #[pyfunction]; 0 to 8 arrays, and more, in every list; contiguity, lengths, contents and the library's verdict left open. Trusts the models."),
 "C20": (V + ": panic reachability of the binding layer", "As C19; the library behind the boundary is covered by C01. Panics inside pyo3's own argument extraction are outside the models."),
})
NA = {
 "C27": "Rounding-error magnitude quantifies over runtime values; a sound static bound needs input ranges and conditioning that no interface contract provides.",
 "C28": "Running time and stack use are quantitative runtime behaviour; no static argument in reach bounds them (the recursion depth clause is part of C15).",
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
def cmd(p):
    if p == "C16": return "python3 tools/witness.py"
    if p in ("C21", "C22", "C23", "C24", "C25", "C26", "C29"): return f"python3 tools/pycheck.py {p}"
    return f"python3 tools/run.py {p}"
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": cmd(p), "thorough_cmd": "env VERIF_TIER=thorough " + cmd(p), "technique": C[p][0], "level": "other", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "No hooks in /repo. Fixes are listed in known_findings.jsonl and DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
