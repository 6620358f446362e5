"""Writes /verif/MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTE = {
 "default": "Monitors compare what the real code returns or leaves behind with independent oracles on generated executions; holds for what was explored (counts in the evidence file), not for all inputs.",
}
TECH = {
 "C01": "runtime monitoring: differential oracle (extended-precision bisection) on both solvers, step-budget termination monitor, process-survival monitor",
 "C02": "runtime monitoring: geometric oracle on generated orbits, scalar/array differential monitors",
 "C03": "runtime monitoring: conversion oracle, object-state snapshots and metamorphic conversion chains",
 "C04": "runtime monitoring: superposition oracle and state snapshots around model evaluations",
 "C05": "runtime monitoring: shadow model of parameter state checked over random operation histories",
 "C06": "runtime monitoring: dense Gaussian and numerical-marginalisation oracles",
 "C07": "runtime monitoring: dense multivariate-normal oracle over random call histories",
 "C08": "runtime monitoring: independent densities and numerical normalisation as oracles",
 "C09": "runtime monitoring: CDF/transform inversion and factorisation monitors",
 "C10": "runtime monitoring: additivity oracle with recorded prior and likelihood calls",
 "C11": "runtime monitoring: differential behaviour of saved/copied objects, status-file history model",
 "C12": "runtime monitoring: before/after state monitors and local-optimality oracle on fits",
 "C13": "runtime monitoring: independent enumeration and refit oracle, state snapshots over repeated calls",
 "C14": "runtime monitoring: recorded log-probability call log checked offline against chains; statistical oracle",
 "C15": "runtime monitoring: independent statistic implementations and offline check of the recorded decision trace",
 "C16": "runtime monitoring: result-integrity monitors, analytic-evidence oracle, option/file snapshots",
 "C17": "runtime monitoring: offline cross-file consistency checker after every step of random pipelines",
 "C18": "runtime monitoring: conservation oracle, step-budget termination monitor, argument snapshots",
 "C19": "runtime monitoring: two-body physics oracle and inverse/round-trip monitors",
 "C20": "runtime monitoring: parsed LaTeX tables checked against the posterior, data and chains; LaTeX compilation",
 "C21": "runtime monitoring: drawn-artist inspection and state snapshots around plots",
 "C22": "AddressSanitizer and UndefinedBehaviorSanitizer on the compiled extension under hostile inputs; process-survival and input-snapshot monitors",
 "C23": "runtime monitoring with fault injection: killed and resumed MCMC runs, checker over saved files",
 "C24": "runtime monitoring: initialised analyses compared with the generated setup files and an independent log-probability",
 "C25": "runtime monitoring: differential traces of scripted analyses (alone, interleaved, threads with injected switches, other processes), argument and process-state snapshots",
 "C26": "runtime monitoring: library calls observed at public entry points, directory snapshots and recorded runs for generated command lines",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isfile(ROOT + "/rvmon/checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": "no check built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all instrumentation is attached from outside (sys.monitoring, wrappers, sanitizer builds of src/)."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
