"""Writes /verif/MANIFEST.json: one check per vf/pXX.py that exists (run: python3 tools/manifest.py)."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = {
    "P01": "monitored execution of RT1 vs. independent 2-D quadrature of the defining integral",
    "P02": "monitored execution of RT1 vs. closed forms, limits and shape rules",
    "P03": "monitored RT1.jacobian vs. complex-step derivative of an independent model",
    "P04": "monitored slope/curvature calls vs. complex-step/finite-difference derivatives",
    "P05": "monitored scattering-function evaluations vs. quadrature oracles",
    "P06": "metamorphic monitor: combination vs. weighted sum of its components",
    "P07": "metamorphic monitor over geometry declarations and source/receiver exchange",
    "P08": "metamorphic monitor over code-generation backends, coefficient re-use and parametrisation",
    "P09": "history monitor: live object vs. freshly created twin after every operation",
    "P10": "trace monitor of parameter groups vs. reference partition of the dates",
    "P11": "alignment monitor on row-unique datasets vs. reference model per observation",
    "P12": "monitor hooked into scipy least_squares: jacobian callback vs. derivative of the residual callback",
    "P13": "monitor hooked into scipy least_squares: bounds, descent, residual and recovery oracles",
    "P14": "monitored unit conversions vs. intensity in linear units",
    "P15": "state monitor over dump/load/pickle/re-init generations",
    "P16": "round-trip monitor over the representations of parameter definitions",
    "P17": "monitored parser on generated and damaged configuration files vs. the generating description",
    "P18": "offline checker over result stores and event logs of delayed multi-process runs",
    "P19": "offline checker over result stores of interrupted and repeated runs (crash injection)",
    "P20": "round-trip monitor: re-created fit vs. the stored fit object",
    "P21": "monitored store queries vs. the raw tables",
    "P22": "monitored metrics vs. textbook definitions on reference pairs",
    "P23": "offline checker of exported stores vs. the fit objects",
    "P24": "lock-step monitor: multi-configuration fit vs. independent single fits",
    "P25": "monitored helper calls vs. reference computations",
    "P26": "offline checker over result stores of runs with injected per-site faults",
    "P27": "metamorphic monitor over parameter names and orders",
    "P28": "monitored matplotlib artists vs. reference model values, fingerprint of the fit before/after",
    "P29": "monitored set-up histories vs. a model of the configuration in use, files on disk checked after every step",
}
FAULT = {"P26"}
NOTE = ("Holds for every observed execution (counts and samples in the evidence file); nothing is claimed for unexplored inputs. "
        "Trusts numpy/scipy quadrature and the reference model in vf/.")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "vf", i.lower() + ".py")):
            checks.append(dict(
                property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                technique=ORACLE[i], level="fault_enumeration" if i in FAULT else "exploration", level_note=NOTE))
        else:
            na.append(dict(property=i, reason="check under construction"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, sympy, symengine, pandas, tables'", checks=checks, not_applicable=na,
             notes="Pure Python; no hooks are compiled into /repo, the monitors wrap public entry points from the outside (vf/).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not claimed")


main()
