"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
CHECKS = {
 "C01": (T + "exhaustive behaviours replayed into bartpy trees and recorded tree histories validated against BartTree", ""),
 "C02": (T + "exhaustive behaviours replayed into bartpy trees and recorded tree histories (incl. refused mutations) validated against BartTree", ""),
 "C03": (T + "proposal support, weights and frequencies of recorded proposals validated against BartPropose", ""),
 "C04": (T + "exhaustive behaviours replayed and recorded histories with random summary queries validated against BartTree", ""),
 "C05": (T + "recorded predictions of trees, models and stored copies validated against the routing of BartTree / BartGibbs", ""),
 "C06": (T + "recorded Gibbs sweeps validated against the BartGibbs state machine", ""),
 "C07": (T + "log ratios of all moves on enumerated trees, acceptance decisions and long-run tree frequencies validated against BartMH", ""),
 "C08": (T + "recorded leaf and noise draws validated against the conditionals of BartDraws", ""),
 "C09": (T + "recorded chains validated against BartChain", ""),
 "C10": (T + "recorded chains and later re-readings of stored samples validated against BartChain", ""),
 "C11": (T + "recorded normalisation and estimator runs under affine target changes validated against BartUnits", ""),
 "C12": (T + "estimator API histories generated by TLC replayed into SklearnModel and recorded histories validated against BartEstimator", ""),
 "C13": (T + "schedules of concurrent chains enumerated by TLC and replayed; recorded multi-dataset runs validated against BartRun", ""),
 "C14": (T + "recorded shares, thresholds and selections validated against BartFeatures", ""),
 "C15": (T + "recorded extension fits validated against BartExtension", ""),
 "C16": (T + "recorded initialisations validated against BartInit", ""),
 "C17": (T + "fits over an enumerated family of degenerate data sets and settings, recorded outcomes validated against BartTotal", ""),
 "C18": (T + "buffer behaviours replayed and recorded draws validated against BartBuffer", ""),
 "C19": (T + "data of drawn artists validated against BartDiagnostics", ""),
 "C22": (T + "histories generated by TLC played with real pipelines, cross-validations and searches and validated against BartCompose", ""),
 "C23": (T + "chains generated by TLC and random ones played with custom schedules and loggers, custom operations and ratios; recorded histories validated against BartCustom", ""),
 "C21": (T + "programs generated by TLC run in several fresh processes, results compared in traces validated against BartSeed", ""),
 "C20": (T + "recorded fits and scores of importance runs validated against BartImportance", ""),
}
sys.path.insert(0, os.path.join(V, "harness"))
src = open(os.path.join(V, "harness", "check.py")).read()
import re
built = set(re.findall(r'"(C\d\d)": \[', src))
NOTE = ("TLC explores the design model exhaustively within the constants of its config; the binding to bartpy is by replayed and "
        "recorded executions of the working tree, so conformance is checked on those executions only. Trusts TLC, CPython/numpy and the "
        "projection in harness/vlib. See DESIGN.md for bounds per property.")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for c in sorted(CHECKS):
    if c in built:
        m["checks"].append({"property": c, "quick_cmd": "bash tools/run.sh " + c, "thorough_cmd": "VERIF_TIER=thorough bash tools/run.sh " + c,
                            "technique": CHECKS[c][0], "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": c, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
