#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("property-based differential testing of both tools against a reference model", "Every printed metric of generated runs is compared with an independent Python implementation of the definitions; trusts the model and float tolerance 6e-6."),
    "C02": ("property-based differential testing of the matcher against a reference model", "API lists compared element by element, tool dumps likewise; ambiguous ties are accepted in any order."),
    "C03": ("property-based testing of area laws against exact integer arithmetic, exhaustive small grids", "Exact areas in unbounded integers; assumes corners and areas fit the coordinate type."),
    "C04": ("property-based testing of scorers against exact rational oracles around the threshold", "Decisions within single-precision rounding of the threshold may go either way."),
    "C05": ("property-based differential testing of curves against the definition", "Tolerance 1e-9 on doubles; errors generated as plain, fractional and aggregated."),
    "C06": ("property-based differential and metamorphic testing of average precision", "Tolerance 1e-9; grouping and pooling compared with ranking everything together."),
    "C07": ("property-based differential testing of NDCG against the definition", "Tolerance 1e-6 (single precision correctness values)."),
    "C08": ("property-based testing of conservation and permutation invariants of collapsing", "Sums in single precision: tolerance 1e-5."),
    "C09": ("property-based metamorphic testing (deleting lines) and model comparison of grouping", "Metrics, dump, curves and intervals compared with those of files without the other lines."),
    "C10": ("property-based testing of invariants of resamples, differential recomputation of quantiles, statistical tests", "Uniformity of the draws is tested statistically (thresholds at probability below 1e-9)."),
    "C11": ("property-based differential testing of curve files against interpolation from the definition", "Sampling points coinciding with recalls up to rounding accept both neighbours."),
    "C12": ("grammar-based generation and mutation of files against a reference parser", "Accept/reject, events and line numbers compared on generated files."),
    "C13": ("grammar-based generation of option tables and command lines against a reference parser", "Accept/reject and every variable compared."),
    "C14": ("property-based testing of order laws over pairs and triples of neighbouring values", "NaN left out."),
    "C15": ("stateful model-based testing of event sets", "Histories of up to 150 operations against a model set."),
    "C16": ("stateful model-based testing of mappers", "Small integer types are exhausted to reach the capacity."),
    "C17": ("metamorphic testing of both tools", "Outputs of related runs compared byte by byte or to the printed precision."),
    "C18": ("fuzzing of sanitized tools (bytes, arguments, output faults) and coverage-guided fuzzing", "AddressSanitizer and UBSan decide memory safety; faults injected with /dev/full, directories and missing paths."),
    "C19": ("round-trip property testing and model comparison of the match dump", "Scores compared as printed, six digits."),
    "C20": ("stateful model-based testing of value semantics under sanitizers and allocation counting", "Histories of up to some dozens of operations."),
    "C22": ("property-based differential testing of the progress report against a reference model", "Relies on the wording of the messages at the pinned commit."),
    "C21": ("property-based metamorphic testing of bounds and monotonicity", "To the printed precision."),
}
have = [c for c in sorted(T) if os.path.exists(os.path.join(V, "checks", c.lower() + ".py"))]
doc = dict(version=1, setup_cmd="python3 -m lib.build",
           checks=[dict(property=c, quick_cmd="python3 run.py %s --tier quick" % c,
                        thorough_cmd="python3 run.py %s --tier thorough" % c, evidence_file="evidence/%s.json" % c,
                        technique=T[c][0], level="exploration", level_note=T[c][1]) for c in have],
           not_applicable=[dict(property=c, reason="its check is under construction") for c in sorted(T) if c not in have],
           notes="Every check rebuilds what it needs from /repo's working tree (lib/build.py); seeds come from VERIF_SEED; "
                 "replay with run.py <id> --replay <file>.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
