"""Verdict bookkeeping shared by all checks."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AES_REPO", "/repo")


class Check:
    """Collects rule instances (obligations) with verdicts."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.inst = []          # (rule, instance, status, where, detail)
        self.floor = 1
        self.functions = set()
        self.files = set()
        self.notes = []
        self.assumptions = []
        self.rules = {}
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, instance, where="", detail=""):
        self.inst.append((rule, instance, "ok", where, detail))

    def bad(self, rule, instance, where="", detail=""):
        self.inst.append((rule, instance, "bad", where, detail))

    def undecided(self, rule, instance, where="", detail=""):
        self.inst.append((rule, instance, "undecided", where, detail))

    def verdict(self, rule, instance, cond, where="", detail=""):
        (self.ok if cond else self.bad)(rule, instance, where, detail if not cond else "")

    def saw(self, interp):
        for f, n, l in interp.functions_seen:
            self.functions.add(f"{os.path.relpath(f, REPO) if str(f).startswith('/') else f}:{n}")
            self.files.add(os.path.relpath(f, REPO) if str(f).startswith("/") else f)

    def guard(self, rule, instance, thunk, where=""):
        """run one obligation; analysis limits become 'undecided'."""
        from .interp import Unsupported, AbsRaise
        try:
            return thunk()
        except Unsupported as e:
            self.undecided(rule, instance, where, f"unsupported construct: {e}")
        except AbsRaise as e:
            self.bad(rule, instance, e.where or where, f"every analysed path raises {e.exc!r}")
        except Exception as e:  # analysis crash: no verdict for this instance
            if os.environ.get("AES_DEBUG"):
                traceback.print_exc()
            self.undecided(rule, instance, where, f"analysis error {type(e).__name__}: {e}")
        return None


def load_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f)["findings"]
    return out


def finish(chk: Check, explanation):
    known = [k for k in load_findings() if k["property"] == chk.pid and k.get("status") == "known"]
    bads, knowns = [], []
    for r, i, s, w, d in chk.inst:
        if s == "bad":
            k = next((k for k in known if k["rule"] == r and k["instance"] == i), None)
            (knowns if k else bads).append((r, i, w, d, k))
    n_ok = sum(1 for x in chk.inst if x[2] == "ok")
    und = [x for x in chk.inst if x[2] == "undecided"]
    decided = n_ok + len(bads) + len(knowns)
    ev = {
        "property": chk.pid, "tier": chk.tier, "seed": chk.seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "rules": chk.rules,
            "obligations_total": len(chk.inst), "obligations_discharged": n_ok, "obligations_violated": len(bads),
            "obligations_known_findings": len(knowns), "obligations_undecided": len(und),
            "floor": chk.floor,
            "functions_analysed": len(chk.functions), "files_analysed": sorted(chk.files),
            "functions": sorted(chk.functions)[:400],
            "instances": [{"rule": r, "instance": i, "status": s, "where": w} for r, i, s, w, d in chk.inst][:1500],
            "undecided": [{"rule": r, "instance": i, "where": w, "why": d} for r, i, s, w, d in und][:100],
        },
        "wall_s": round(time.time() - chk.t0, 2),
        "assumptions": chk.assumptions or ["library calls (numpy, scipy, h5py, ...) are modelled by their documented semantics or as uninterpreted functions",
                                           "arithmetic is over the real/complex field (rounding ignored)"],
        "violations": [{"rule": r, "instance": i, "where": w, "detail": d} for r, i, w, d, _ in bads],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{chk.pid}: {len(chk.inst)} obligations, {n_ok} discharged, {len(bads)} violated, {len(knowns)} known findings, {len(und)} undecided; "
          f"{len(chk.functions)} functions in {len(chk.files)} files; {ev['wall_s']} s")
    for r, i, s, w, d in und:
        print(f"UNDECIDED {chk.pid} rule={r} instance={i} at {w}: {d}")
    for r, i, w, d, k in knowns:
        print(f"KNOWN-FINDING: property={chk.pid} {k['what']} [{r}/{i} at {w}]")
    if bads:
        rp = os.path.join(VERIF, "evidence", f"{chk.pid}.violation.json")
        with open(rp, "w") as f:
            json.dump(ev["violations"], f, indent=1)
        for r, i, w, d, _ in bads[:40]:
            print(f"  {w}: rule {r}, instance {i}: {d}")
        print(f"VIOLATION property={chk.pid} replay={rp}")
        return 1
    if decided < chk.floor:
        print(f"ANALYSIS-BROKEN {chk.pid}: {decided} decided obligations, floor is {chk.floor}")
        return 2
    return 0
