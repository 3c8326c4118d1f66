"""Runner: shards the cases of one property over processes, compares, writes evidence, reports violations.

usage: python -m mc.run C01 [--tier quick|thorough] [--procs N] [--only SUBSTR] [--replay FILE] [--list]
"""
from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def h64(s: str) -> int:
    return int.from_bytes(hashlib.blake2b(s.encode("utf-8", "replace"), digest_size=8).digest(), "big")


class Hang(BaseException):
    pass


class Case:
    __slots__ = ("key", "fn", "timeout")

    def __init__(self, key, fn, timeout=60):
        self.key, self.fn, self.timeout = key, fn, timeout


class T:
    """Trace of one case: observed states, implementation transitions, comparisons, failures."""

    def __init__(self, key=""):
        self.key = key
        self.states = set()
        self.trans = 0
        self.traces = 0
        self.outcomes = {}
        self.fails = []
        self.path = []

    # -- observations
    def state(self, *parts):
        s = "|".join(str(p) for p in parts)
        self.states.add(h64(s))

    def call(self, fn, *a, **kw):
        """One transition: a real call into the implementation."""
        self.trans += 1
        try:
            return ("ok", fn(*a, **kw))
        except Exception as e:  # noqa: BLE001
            return ("err", e)

    def outcome(self, kind):
        self.outcomes[kind] = self.outcomes.get(kind, 0) + 1

    def ok(self):
        self.traces += 1

    def fail(self, sub, msg, **info):
        self.traces += 1
        self.fails.append({"key": f"{self.key} :: {sub}" if sub else self.key, "case": self.key, "msg": msg,
                           "info": {k: str(v)[:2000] for k, v in info.items()}})

    def check(self, cond, sub, msg="", **info):
        if cond:
            self.traces += 1
        else:
            self.fail(sub, msg, **info)
        return cond


def run_case(case):
    t = T(case.key)

    def onalarm(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(case.timeout)
    try:
        case.fn(t)
    except Hang:
        t.fail("hang", f"no result within {case.timeout}s")
    except Exception as e:  # noqa: BLE001
        t.fail("exception", f"unexpected {type(e).__name__}: {e}", tb=traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return t


def shard(mod, tier, only, replay_key, i, n, stop_at):
    agg = dict(states=set(), trans=0, traces=0, outcomes={}, fails=[], cases=0, samples=[])
    for idx, case in enumerate(mod.cases(tier)):
        if replay_key is not None:
            if case.key != replay_key:
                continue
        elif only is not None:
            if only not in case.key or (idx % n) != i:
                continue
        elif idx % n != i:
            continue
        t = run_case(case)
        agg["cases"] += 1
        agg["states"] |= t.states
        agg["trans"] += t.trans
        agg["traces"] += t.traces
        for k, v in t.outcomes.items():
            agg["outcomes"][k] = agg["outcomes"].get(k, 0) + v
        agg["fails"] += t.fails
        if len(agg["samples"]) < 3 and t.traces and (agg["cases"] % 37 == 1):
            agg["samples"].append(f"{case.key} -> states={len(t.states)} calls={t.trans} compared={t.traces}")
        if len(agg["fails"]) >= stop_at:
            agg["stopped"] = True
            break
    return agg


def parallel(mod, tier, only, replay_key, n, stop_at):
    kids = []
    for i in range(n):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                gc.freeze()
                gc.set_threshold(50000, 20, 50)
                try:
                    res = shard(mod, tier, only, replay_key, i, n, stop_at)
                except BaseException:  # noqa: BLE001
                    res = {"error": traceback.format_exc()}
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else {"error": "worker died"})
    return out


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    keys = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if "fixed" in d or d.get("property") != prop:
                continue
            for k in d["keys"]:
                keys[k] = d
    return keys


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--all-fails", action="store_true")
    ap.add_argument("--group", action="store_true", help="triage aid: group failures by message")
    a = ap.parse_args(argv)
    if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + (argv or sys.argv[1:]))
    t0 = time.time()
    sys.path.insert(0, REPO)
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    if hasattr(mod, "before_import"):
        assert "serde" not in sys.modules
        mod.before_import(os.path.join(REPO, "serde"))
    import serde

    assert os.path.realpath(serde.__file__).startswith(os.path.realpath(REPO)), serde.__file__
    if a.list:
        for c in mod.cases(a.tier):
            print(c.key)
        return 0
    replay_key = None
    if a.replay:
        rp = json.load(open(a.replay))
        replay_key, a.tier = rp["case"], rp["tier"]
        a.procs = 1
    res = parallel(mod, a.tier, a.only, replay_key, a.procs, 1000000 if a.all_fails or a.group else 400)
    errs = [r["error"] for r in res if "error" in r]
    res = [r for r in res if "error" not in r]
    states, outcomes, fails, samples = set(), {}, [], []
    trans = traces = cases = 0
    stopped = False
    for r in res:
        states |= r["states"]
        trans += r["trans"]
        traces += r["traces"]
        cases += r["cases"]
        stopped |= r.get("stopped", False)
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        fails += r["fails"]
        samples += r["samples"]
    fails.sort(key=lambda f: (len(f["key"]), f["key"]))
    known = known_findings(a.prop)
    bad = [f for f in fails if f["key"] not in known]
    seen_known = {}
    for f in fails:
        if f["key"] in known:
            seen_known.setdefault(id(known[f["key"]]), (known[f["key"]], []))[1].append(f["key"])
    wall = time.time() - t0
    if not a.only and not replay_key:
        ev = {
            "property": a.prop,
            "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": getattr(mod, "LEVEL", "model_checking"),
            "coverage": {
                "states": len(states),
                "transitions": trans,
                "traces_validated_against_impl": traces,
                "cases": cases,
                "rule": mod.RULE,
                "samples": samples[:12] or ["none"],
                "outcomes": outcomes,
                "bounds": mod.BOUNDS.get(a.tier, "") if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                "known_findings_seen": sorted(k for _, ks in seen_known.values() for k in ks)[:50],
                "exhaustive": not stopped and not errs,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(bad),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{a.prop} tier={a.tier}: cases={cases} states={len(states)} transitions={trans} compared={traces} "
          f"outcomes={outcomes} fails={len(fails)} known={len(fails) - len(bad)} wall={wall:.1f}s")
    for d, ks in seen_known.values():
        print(f"KNOWN-FINDING: property={a.prop} {d['what']} ({len(ks)} case(s), e.g. {ks[0]})")
    for e in errs:
        print("HARNESS-ERROR", e)
    if bad and a.group:
        import re

        groups = {}
        for f in bad:
            g = f["msg"][:60] + " | " + re.sub(r"'[^']*'|\d+", "_", f["info"].get("got", f["info"].get("tb", "")[-150:]) if "err:" in f["info"].get("got", "err:") else "")[:110]
            groups.setdefault(g, []).append(f)
        for g, fs in sorted(groups.items(), key=lambda x: -len(x[1])):
            print(f"== {len(fs)} {g}")
            seen = {}
            for f in fs:
                seen.setdefault(f["case"], f)
            print("   cases:", len(seen), list(seen)[:12])
            for f in list(seen.values())[:2]:
                print("     ", f["key"][:300])
                for k, v in f["info"].items():
                    print("        ", k, ":", v[-700:])
        return 1
    if bad:
        os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
        lim = len(bad) if a.all_fails else 5
        for n, f in enumerate(bad[:lim]):
            p = os.path.join(ROOT, "out", f"{a.prop}-{h64(f['key']):016x}.json")
            with open(p, "w") as fh:
                json.dump({"property": a.prop, "tier": a.tier, **f,
                           "how": f"cd /verif && /opt/venv/bin/python -m mc.run {a.prop} --replay {p}"}, fh, indent=1)
            print(f"VIOLATION property={a.prop} replay={p}")
            print(f"   {f['key']}\n   {f['msg'][:600]}")
            for k, v in f["info"].items():
                print(f"     {k}: {v[-1500:]}")
        if len(bad) > lim:
            print(f"   ... and {len(bad) - lim} more")
        return 1
    if errs:
        return 2
    if cases == 0:
        print("no case matched")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
