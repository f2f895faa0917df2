"""Write MANIFEST.json from the suites that exist."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "property-based testing against closed-form / quadrature reference densities",
    "C02": "property-based testing against reference mixtures, quadrature, metamorphic relations",
    "C03": "property-based testing against base model x taper normalised by fine quadrature",
    "C04": "property-based testing against an independent cosmology quadrature",
    "C05": "property-based testing against reference densities, quadrature and swap relations",
    "C06": "property-based testing against an independent spline; metamorphic shift / scale",
    "C07": "differential property-based testing: numpy vs jax vs jit",
    "C08": "stateful (model-based) testing of switch histories with injected faults",
    "C09": "property-based testing of whole analyses against the documented estimator",
    "C10": "property-based testing of limits around the true uncertainty, setter histories",
    "C11": "property-based testing against direct Monte Carlo / trapezoidal sums",
    "C12": "property-based testing with labelled samples, exact binomial test of draws",
    "C13": "property-based round trips and a model of the key handling",
    "C14": "property-based testing against an independent distance quadrature",
    "C15": "stateful testing: random evaluation histories vs fresh evaluations, input snapshots",
    "C16": "metamorphic property-based testing (permute, slice, concatenate, reshape)",
    "C17": "differential property-based testing: jit / numpyro traces vs plain likelihood",
    "C18": "property-based testing: reassembled statistics, exact and KS tests of rate draws",
    "C19": "property-based testing over supersets / subsets of names and compositions",
    "C20": "property-based testing with generated invalid and edge values",
    "C21": "property-based testing: repeated random states, exact tests of agreement between draws",
    "C22": "property-based testing: automatic derivatives vs numerical derivatives",
}
NOTE = (
    "Random search over generated inputs: no violation in the reported number of cases; "
    "not a proof. Trusts numpy/scipy/jax/bilby and the reference in harness/."
)


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        prop = json.loads(line)["id"]
        if not os.path.exists(os.path.join(HERE, "harness", "props", prop.lower() + ".py")):
            print("no check:", prop)
            continue
        checks.append(dict(
            property=prop,
            quick_cmd=f"{PY} run.py {prop} --tier quick",
            thorough_cmd=f"{PY} run.py {prop} --tier thorough",
            evidence_file=f"evidence/{prop}.json",
            technique=TECH[prop],
            level="exploration",
            level_note=NOTE,
        ))
    have = {c["property"] for c in checks}
    missing = [p for p in TECH if p not in have]
    out = dict(
        version=1,
        setup_cmd=f"{PY} harness/vendor.py",
        checks=checks,
        not_applicable=[dict(property=p, reason="check being built") for p in missing],
        notes="No hooks: the checks observe public behaviour only. Genuine defects found are "
        "repaired by the fix: commits listed in KNOWN_FINDINGS.txt.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as ff:
        json.dump(out, ff, indent=1)
        ff.write("\n")


main()
