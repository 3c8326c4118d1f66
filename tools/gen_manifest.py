#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, pathlib, re

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEFAULT = ("model_checking",
           "bounded explicit-state enumeration (type schema x value/data x options), reference model compared with the real code on every step",
           "Exhaustive within the stated bounds: every enumerated schema, value, wire datum and option combination is executed on the "
           "real code and compared with an independent reference model. Trusts the reference model (mc/uni.py) and the small-scope bounds.")
SPECIAL = {
    "C14": ("model_checking", "exhaustive exploration of operation histories up to a depth from a pristine process, each probe compared with its result in a fresh process",
            "Every sequence of operations up to the depth bound over the operation alphabet is executed in a forked pristine interpreter; "
            "complete for that alphabet and depth."),
    "C15": ("model_checking", "stateless model checking of the real code: every thread interleaving at line granularity up to a preemption bound under a cooperative scheduler",
            "All schedules of two threads up to the preemption bound are executed on the real implementation; switches inside one source "
            "line (bytecode level) and beyond the bound are not explored."),
    "C16": ("model_checking", "bounded enumeration of value graphs x operations, heap aliasing of inputs/outputs/defaults compared before and after every call",
            "Exhaustive over the enumerated types, values and mutations; trusts the reference model."),
    "C20": ("model_checking", "bounded enumeration of reference graphs between classes x declaration forms and orders x values up to a depth, reference model compared with the real code",
            "Exhaustive over the reference graphs and value trees within the bounds; trusts the reference model."),
    "C22": ("model_checking", "fault injection at every user-code call point of a conversion and at every place of the value, exhaustively, against the expected exception",
            "Every call of user code made during a conversion is made to raise in turn; complete for the enumerated classes, values and shapes."),
    "C26": ("model_checking", "exhaustive enumeration of classes x debugging settings and inspection calls, each run compared step by step with the run without them",
            "Exhaustive over the enumerated classes, settings and orders; the comparison run is the real code without debugging, itself compared with the reference model."),
    "C30": ("model_checking", "exhaustive enumeration of declaration histories (sequences of serialize/deserialize/serde) x places x orders of first use, reference model compared with the real code",
            "Every history of the enumerated kinds is executed on the real code; trusts the reference model."),
    "C31": ("model_checking", "bounded enumeration of types x spellings x values and data, and of the classes of other checks respelled, reference model compared with the real code",
            "Exhaustive over the enumerated types, spellings and values; trusts the reference model, which never sees the spelling."),
    "C32": ("model_checking", "exhaustive enumeration of every identifier found in the generated code x every role of a user's name, reference model compared with the real code",
            "Complete for the identifiers of the generated code (gathered by watching it being compiled) and the enumerated roles; trusts the reference model."),
    "C33": ("model_checking", "bounded enumeration of mapped classes x values x session histories (operation sequences up to a depth on the real SQLAlchemy session), reference model compared with the real code",
            "Exhaustive over the enumerated classes, positions and histories; trusts the reference model and SQLAlchemy with an in-memory SQLite."),
}
NA = {}
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = ROOT / "mc" / "checks" / f"{pid.lower()}.py"
    if pid in NA or not f.exists():
        na.append({"property": pid, "reason": NA.get(pid, "the check for this property is not built yet")})
        continue
    level, tech, note = SPECIAL.get(pid, DEFAULT)
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} -m mc.run {pid} --tier quick",
        "thorough_cmd": f"{PY} -m mc.run {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech, "level": level, "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '/repo'); import serde, mc.run, mc.uni\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import serde from /repo's working tree (VERIF_REPO overrides); no hooks are needed.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
