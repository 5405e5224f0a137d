#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the rules and the reasons below"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
TECH = {
    "geom": "abstract interpretation of MIR to closed forms; comparison of normal forms, enumeration of coordinate orders around the code's constants",
    "color": "abstract interpretation of the Display code; comparison of text normal forms, exhaustive over component values",
    "lower": "value-flow analysis of MIR over modules of a shape; the document read through accessors compared with the required records, rows and edges",
    "place": "value-flow analysis of MIR over documents of a shape (sizes around the code's constants); rectangles and ports compared with the required geometry",
    "route": "value-flow analysis of MIR over documents of a shape; edges of the routing graph and flow of search results checked one by one",
    "render": "value-flow analysis of MIR to the SVG element tree and the log of writes; comparison with the tree required",
    "syntax": "extraction of the parser combinator terms from MIR; language equivalence by derivatives, value flow of the map closures",
    "effects": "call-graph effect analysis over resolved MIR; abstract interpretation of main with the outcome of every I/O call chosen, event logs checked",
    "printing": "value-flow analysis of Display implementations to text normal forms",
}
NOTE = "Static: abstract interpretation of the current type-checked MIR, inputs of enumerated shapes (relative to the code's own constants) with unknown contents where tractable; f32 arithmetic taken as exact; models of std, svg, petgraph, chumsky functions trusted; what the analysis can't follow is reported as undecided, never as a violation."
NA = {
    "C35": "Round trip: not held (Display does not quote identifiers), and equality of a parse of printed text quantifies over all texts; no static argument in reach. Its structural clauses are claimed as C05 and C34.",
    "C36": "Existence of a path depends on the numeric connectivity of the junction graph of every document; no sound static argument in reach. That the edges used are legal is claimed as C15 and C16.",
    "C37": "Text extents depend on the viewer's font metrics, which are not in the source.",
    "C38": "A bound on running time: iteration counts of A* and graph size are runtime quantities no static argument in reach bounds.",
    "C39": "Accuracy of rounding in floating-point division for slanted lines; the tool itself only uses horizontal and vertical lines, for which C33 is claimed.",
    "C40": "Spans are computed inside chumsky and ariadne from runtime positions; whether they cover the cause of an error is not visible in the shape of this code.",
}
sys.argv = ["check.py"]
import check
done = os.environ.get("ONLY", "").split() or None
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    m = check.RULES.get(p)
    mod = os.path.join(HERE, "sa", "rules", "%s.py" % m)
    if m is None or not os.path.exists(mod) or "def %s(" % p not in open(mod).read():
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 sa/check.py %s" % p,
        "thorough_cmd": "python3 sa/check.py %s" % p,
        "technique": TECH[m],
        "level": "other",
        "level_note": NOTE,
    })
json.dump({"version": 1, "setup_cmd": "python3 sa/extract.py", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
