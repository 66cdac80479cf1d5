#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH = {
 "C01": "stateful property-based testing: random add/remove histories against a model rebuilt from the survivors",
 "C02": "property-based testing against independent closed-form predictive and marginal formulas, with numeric normalisation",
 "C03": "property-based testing: sampled frequencies against reported predictives (two-stage tests), read-only checks",
 "C04": "property-based testing: grid-posterior and Metropolis invariance checks of generated states",
 "C05": "stateful model-based testing of the restaurant against a plain reference partition",
 "C06": "property-based testing against long-double references; frequency tests for index sampling",
 "C07": "property-based testing against exhaustive enumeration of alignments and a dynamic-programming edit distance",
 "C08": "stateful property-based testing of noise models against rebuilt models and count invariants",
 "C09": "property-based testing: frequency laws for corruption and rule-based oracles for proposals",
 "C10": "property-based testing of generated specifications and nearest-value queries",
 "C11": "stateful model-based testing of relations against a plain reference of data and cells",
 "C12": "metamorphic testing: reported reassignment scores against actually performed moves",
 "C13": "stateful model-based testing of the IRM: operations and inference against a reference state",
 "C14": "stateful model-based testing of the HIRM: operations and inference against a reference state",
 "C15": "property-based testing: exact conditional computed from generated states against sampled moves",
 "C16": "property-based testing: predictive against brute-force sums over group assignments",
 "C17": "stateful property-based testing of latent-value updates against an exact conditional",
 "C18": "grammar-based generation and mutation of schema files, round-trip and clean-rejection oracle",
 "C19": "grammar-based generation of observation files, round-trip and reference-encoding oracle",
 "C20": "property-based testing: save/reload round-trip of generated models",
 "C21": "generated runs of the command line program: determinism, reload and output oracle",
 "C22": "property-based testing and mutation fuzzing of CSV against an independent reader",
 "C23": "grammar-based generation and mutation of PClean schemas against the generating description",
 "C24": "property-based testing: generated class schemas against an independent translation",
 "C25": "stateful model-based testing of record loading against a reference database",
 "C26": "stateful property-based testing of reference moves: integrity invariants and undo round-trips",
 "C27": "generated end-to-end runs of the record-cleaning program with output oracle",
 "C28": "differential property-based testing (Hypothesis) of the Python model against the C++ model",
 "C30": "property-based testing of move frequencies, each from a copy of the process, against enumerated conditional probabilities (two-stage goodness-of-fit tests)",
 "C29": "property-based testing (Hypothesis) of loaders and plot matrices against reference readers",
}
NOTE = ("Generated-input search under sanitizers with an explicit oracle; shows the property on the cases "
        "explored and finds counterexamples, never proves absence. Trusts the oracle in harness/, g++ and its sanitizers")
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in check.CHECKS:
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p,
                       thorough_cmd="python3 check.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=TECH[p],
                       level="exploration", level_note=NOTE + "."))
na = [dict(property=json.loads(l)["id"], reason="check still being built")
      for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] not in check.CHECKS]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check drives public interfaces of the sources in /repo's working tree. "
               "Known findings and repairs: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
