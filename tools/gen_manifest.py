#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the properties list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import gen_properties as gp
TRUST = {
    "C01": "oracle: pristine twin in its own process given only the last accepted assumptions, restated in canonical form; closed formulas for interest; trusts the library's first answer on a fresh object (N01-N10 are not decided here)",
    "C02": "oracle: pristine twin never offered the rejected call; rejected calls cover every invalid form known",
    "C03": "oracle: first answer of a pristine twin; sampled histories of up to 24 queries",
    "C04": "oracle: pristine twins; threads scheduled at library line/bytecode grain; plain operation interleavings at call grain",
    "C05": "oracle: pristine twins; schedules sampled with seeded preemptions at library line/bytecode grain, code inside numpy/scipy runs atomically",
    "C06": "oracle: pristine twins that never saw the aborted query; faults placed by callback evaluation, library line/bytecode, stream write",
    "C07": "oracle: a fault that fired must surface as an exception, interrupt types unchanged",
    "C08": "oracle: twin on which the load was never interrupted",
    "C09": "oracle: independent survival model to the table's rounding",
    "C10": "oracle: independent select-and-ultimate model to rounding",
    "C11": "oracle: independent closed-form actuarial values of the basis all facts are true of",
    "C12": "oracle: dictionary model and a solver freshly given the surviving facts",
    "C13": "oracle: dictionary of supplied reserves and an independent one-year recursion",
    "C14": "oracle: recorded evaluations of the caller's function",
    "C15": "oracle: same history with tracing off",
    "C16": "oracle: deep snapshots of arguments, pristine twins after mutation of arguments",
    "C18": "oracle: sums over the mortality loaded at the interest in force, by independent code",
    "C21": "oracle: sums over m-thly payments, Woolhouse's formula and adjusted rates at the mortality loaded and the interest in force, by independent code",
    "C22": "oracle: integrals over, and inverses of, the survival function of the mortality loaded at the interest in force, by independent code",
    "C23": "oracle: executed lines of library code of the same call made first on a pristine twin, and in an early round",
    "C24": "oracle: sums and integrals over the law last accepted at the rate in force, by independent code",
    "C19": "oracle: thirty process-wide settings compared around every call; pristine twins in a process whose settings were not touched",
    "C20": "oracle: weak references and object counts after collections; pristine twins",
    "C17": "oracle: artists recorded per axis, the same plot alone on a fresh axis, pristine twins",
}
LEVEL = {}
checks, na = [], []
for p in gp.P:
    id = p["id"]
    if id in gp.NA:
        na.append(dict(property=id, reason=gp.NA[id]))
    elif os.path.exists(os.path.join(HERE, "sim", "checks", id.lower() + ".py")):
        cmd = "/opt/venv/bin/python -W ignore -m sim.check %s --tier %s"
        checks.append(dict(property=id, quick_cmd=cmd % (id, "quick"), thorough_cmd=cmd % (id, "thorough"),
                           technique="deterministic simulation with fault injection (seeded search over histories, faults and schedules)",
                           level=LEVEL.get(id, "exploration"),
                           level_note="seeded sampling, not proof; " + TRUST[id]))
    else:
        na.append(dict(property=id, reason="check under construction"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore -c \"from sim import env; env.setup()\"",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are caller-supplied functions, sys.stdout, threads and interpreter trace events. Known findings and fixes: known_findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
