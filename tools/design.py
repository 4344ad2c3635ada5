"""Writes DESIGN.md and the `fixed:` part of known_findings.txt (run: python3 tools/design.py).

Hand-written texts below; workloads, oracles and required observations come from the check modules,
the list of repairs from the history of /repo, the catch matrix from tools/catches.json."""
import json, os, re, subprocess, sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

TEXT = json.load(open(os.path.join(ROOT, "tools", "design_texts.json")))
FIX = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
CATCH = json.load(open(os.path.join(ROOT, "tools", "catches.json")))


def module(pid):
    s = open(os.path.join(ROOT, "vf", pid.lower() + ".py")).read()
    rule = eval("(" + re.search(r"RULE = \((.*?)\n\)\n", s, re.S).group(1) + ")")
    ev = re.search(r"MIN_EVENTS = (\{.*?\})\n", s, re.S).group(1)
    sc = re.findall(r'S\(\s*"(\w+)", \w+, (\d+), (\d+)', s)
    return rule, eval(ev), sc


out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
for p in props.P:
    pid = p["id"]
    rule, ev, sc = module(pid)
    t = TEXT[pid]
    out += [f"### {pid} {p['title']}", "",
            f"*Workload and oracle.* {rule}", "",
            "*Scenarios (cases quick / thorough).* " + ", ".join(f"{n} {a}/{b}" for n, a, b in sc) + ".", "",
            "*Must have been observed (otherwise the run is inconclusive).* " + ", ".join(f"{k}≥{(v + 1) // 2}" for k, v in ev.items()) + ".", "",
            f"*Reach and bounds.* {t['reach']}", "",
            f"*Cost.* quick about {t['cost']}.", ""]
    fx = [f for f in FIX if f["property"] == pid]
    if fx:
        out += ["*Defects found and repaired.* " + "; ".join(f"{f['commit']} {f['what']}" for f in fx) + ".", ""]
    if t.get("found"):
        out += ["*Defects found, recorded.* " + t["found"], ""]
    if t.get("alarms"):
        out += ["*False alarms met and removed.* " + t["alarms"], ""]
out += ["## Planted changes and the checks that catch them", "",
        "Quick tier, VERIF_SEED=1. Columns: planted change (seeded/<id>), property it was written from, what it needs, caught by (`missed` is written out).", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {CATCH.get(d) or m['property']} |")
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))

kf = os.path.join(ROOT, "known_findings.txt")
lines = [l for l in open(kf).read().splitlines() if l.startswith("finding:")]
lines += [f"fixed: property={f['property']} {f['commit']} {f['what']}" for f in FIX]
open(kf, "w").write("\n".join(lines) + "\n")
print(len(out), "lines,", len(FIX), "fixes")
