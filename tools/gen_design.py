#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md + one section per property + defects + planted bugs.

usage: gen_design.py [runall.log]   (costs are kept in tools/costs.json)"""
import importlib, json, pathlib, re, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/repo"]
costs_f = ROOT / "tools" / "costs.json"
costs = json.loads(costs_f.read_text()) if costs_f.exists() else {}
for log in sys.argv[1:]:
    for m in re.finditer(r"^(C\d\d) rc=0 (\d+)s", open(log).read(), re.M):
        costs[m[1]] = int(m[2])
costs_f.write_text(json.dumps(costs, indent=0, sort_keys=True) + "\n")

NOTES = json.loads((ROOT / "tools" / "design_notes.json").read_text())
out = [(ROOT / "tools" / "design_head.md").read_text().rstrip(), "", "## The properties", ""]
seeds = {}
for d in sorted((ROOT / "seeded").glob("S*")):
    m = json.loads((d / "meta.json").read_text())
    seeds.setdefault(m["property"], []).append((d.name, m["what_it_breaks"]))
fixes = [json.loads(l) for l in (ROOT / "known_findings.jsonl").read_text().splitlines() if l.strip()]
for l in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    pid = p["id"]
    f = ROOT / "mc" / "checks" / f"{pid.lower()}.py"
    if not f.exists():
        continue
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    n = NOTES.get(pid, {})
    out += [f"### {pid} - {p['title']}", "", f"* **Enumerated**: {mod.RULE}.", f"* **Bounds**: quick - {mod.BOUNDS['quick']}; thorough - {mod.BOUNDS['thorough']}."]
    out.append(f"* **Oracle**: {n.get('oracle', 'the reference model (`mc/uni.py`), compared with the real result of every call')}.")
    lim = list(getattr(mod, "ASSUMPTIONS", None) or []) + n.get("limits", [])
    if lim:
        out.append(f"* **Not claimed / assumed**: {'; '.join(lim)}.")
    if pid in costs:
        out.append(f"* **Cost** (quick, alone on 8 cores): {costs[pid]} s.")
    out.append(f"* **Beyond the tests**: {p['why_tests_cant']}")
    fx = [x["fixed"].split(" ", 3) for x in fixes if "fixed" in x and f"property={pid} " in x["fixed"]]
    if fx:
        out.append("* **Defects found and repaired**: " + "; ".join(f"{a[2]} {a[3]}" for a in fx) + ".")
    if pid in seeds:
        out.append("* **Planted bugs** (all caught unless said otherwise): " + "; ".join(f"{i} ({w})" for i, w in seeds[pid]) + ".")
    out.append("")
tail = ROOT / "tools" / "design_tail.md"
if tail.exists():
    out.append(tail.read_text().rstrip())
(ROOT / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
