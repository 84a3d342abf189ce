#!/usr/bin/env python3-vt
"""Rewrites DESIGN.md from DESIGN.in, specs.py, properties.jsonl and seeded/."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import specs
from gen_manifest import NA, props
HOW = {
 "C01": "A x = b is evaluated in the harness with mpq arithmetic on the original symbolic entries; the difference is a rational function "
        "of the inputs that must vanish identically (or be unsat to be nonzero on the path). Oracle: the defining equation.",
 "C02": "the determinant polynomial (Leibniz, in the harness) is compared with zero: status OK with det = 0 or SINGULAR with det != 0 must be unsat.",
 "C03": "the float result is compared with the same conversion function applied to the exact solution of a second, rational solve; rounding is a "
        "function symbol of (value, precision, mode) with relative-error axioms.",
 "C04": "L D^-1 U = P A Q entry by entry as polynomial identities; triangularity, permutation and pivot structure by assertion; last pivot = +-det.",
 "C05": "for each step the candidates of the current column are reconstructed from the returned factors; the rule of the scheme is asserted with "
        "magnitudes; a second factorization with symbolically flipped signs must pick the same rows.",
 "C06": "snapshots of all inputs before/after each call, and equality of solutions over histories of solves.",
 "C07": "all patterns of small matrices; the result is checked to be a permutation, lnz/unz >= n, and equal for a different value type/values; every "
        "allocation may fail.",
 "C08": "every public routine called with NULL and with a fresh option object on the same symbolic input; results and options compared.",
 "C09": "value at each position (dense view) of source and copy, compared as polynomials; structural validity and counts asserted.",
 "C10": "each of the 25 type pairs with symbolic values; oracle: exact value or documented rounding written with the primitive operations.",
 "C11": "integer / scale = original as an identity over symbolic numerators with concrete or symbolic denominators; scale > 0.",
 "C12": "an independent validity predicate, with symbolic p, i, j, dimensions and nzmax, against the checker's verdict; out-of-bounds reads "
        "are obligations of the engine.",
 "C13": "allocation of every kind/type with symbolic dimensions (small, negative, up to 2^63-1), a fault at any request, any combination of "
        "shallow components; outstanding blocks counted.",
 "C14": "x solves A x = b or not (symbolic perturbation of one entry of A) against the reported status.",
 "C15": "each public operation with the k-th allocation failing for every k (a fork per request) and with all requests from k on failing; "
        "status, outputs, leak count; retry succeeds.",
 "C16": "each wrapper against the operation's definition on symbolic operands, with aliasing; native replay compares with GMP/MPFR.",
 "C17": "state machine of initialize/finalize with every public routine called in the wrong state; custom memory functions counted.",
 "C18": "each public routine with each argument replaced by NULL, wrong kind/type, wrong dimensions, out-of-range enumeration.",
 "C19": "the engine's memory model: bounds, initialisation, liveness, signed overflow, leak at finish, on all paths of the solver pipeline.",
 "C20": "wrappers with symbolic 64-bit sizes; block size, zeroing, contents, failure behaviour.",
 "C21": "AMD on all patterns of small matrices (and selected larger ones) with symbolic knobs; permutation, statistics recomputed, int vs long.",
 "C22": "amd_valid and amd_order on symbolic p and i arrays against an independent predicate.",
 "C23": "amd_preprocess on symbolic patterns against a set-based transpose.",
 "C24": "COLAMD/SYMAMD on all small patterns with symbolic knobs; permutation, int vs long, workspace bounds by the memory model.",
 "C25": "COLAMD/SYMAMD on symbolic malformed input against the documented status and statistics.",
 "C27": "engine/fperr.py runs the IR of the two functions over pairs (exact value, error bound), inputs being reals of a region; each operation adds "
        "at most 2^-53 relative and 2^-1075 absolute error, branches on rounded values fork with widened conditions. z3 (nonlinear real arithmetic) "
        "shows on every path that no intermediate result overflows, that divisors are not lost to rounding, that the exact part equals the "
        "mathematical value and that the error terms stay within the bound. Points where a claim is not proved are judged on the real function in "
        "exact rational arithmetic; only those which fail there are reported",
 "C28": "engine/f77.py translates amd.f and amdbar.f to C (same control flow, every array access kept), the rest as above; permutation, inverse, "
        "assembly tree, bound on the columns of the factor (recomputed by elimination), storage statistics, independence of the workspace size, "
        "and fill, its bound and the largest column as in the C version (amd_2, dense rows off, aggressive absorption as in the routine).",
 "C29": "numbers and text passed to the library's printf function are recorded by conversion and compared with the data: which entries, which places, "
        "which statistics, in which order, and whether anything is printed at all; error messages and named places on symbolic malformed input; "
        "solution and outcome compared with those of a silent run.",
 "C26": "every size computation with symbolic 64-bit dimensions: refused or exact.",
}
res = {}
p = os.path.join(HERE, "seeded_results.json")
if os.path.exists(p):
    res = json.load(open(p))
out = []
for q in props:
    i = q["id"]
    if i not in specs.PROPS:
        continue
    s = specs.PROPS[i]
    out.append("### %s %s\n%s\n\nRuns: %d (%d in the quick tier). Bounds: %s. Outside: %s. Budget: quick %d s, thorough %d s.\n" % (
        i, q["title"], HOW[i], len(s.runs), sum(not r.thorough for r in s.runs), s.bounds, s.outside, s.budget["quick"], s.budget["thorough"]))
na = ["* **%s** %s: %s" % (q["id"], q["title"], NA.get(q["id"], "no check built yet")) for q in props if q["id"] not in specs.PROPS]
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "not tried yet")))
t = open(os.path.join(HERE, "DESIGN.in")).read()
t = t.replace("%PROPS%", "\n".join(out)).replace("%NA%", "\n".join(na)).replace("%SEEDS%", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
