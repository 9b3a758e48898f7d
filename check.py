#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from vlib.program import AnchorError, Program  # noqa: E402
from vlib.rulekit import Ctx  # noqa: E402


def known(prop):
    """{(rule, construct): text} of the recorded, unrepaired findings of prop"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith("finding: "):
            f = dict(kv.split("=", 1) for kv in line.split(" | ")[0][len("finding: "):].split())
            if f.get("property") == prop:
                out[(f["rule"], f["construct"])] = line.split(" | ", 1)[1]
    return out


def decide(prop, tier, prog=None):
    mod = importlib.import_module("rules." + prop)
    ctx = Ctx(prop, prog=prog, tier=tier)
    mod.check(ctx)
    return mod, ctx


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        mod, ctx = decide(prop, tier)
        extra = {}
        if tier == "thorough":
            from vlib import thorough
            extra = thorough.deepen(prop, mod, ctx)
    except AnchorError as e:
        print(f"ANALYSIS-BROKEN property={prop}: an anchor of the analysis has vanished: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop}")
        return 2
    kn = known(prop)
    viol, hits = [], []
    seen = set()
    for o in ctx.obs:
        if o.ok:
            continue
        k = (o.rule, o.where)
        if k in kn:
            if k not in hits:
                hits.append(k)
            continue
        kk = (o.rule, o.where, o.msg)
        if kk not in seen:
            seen.add(kk)
            viol.append(o)
    wall = time.time() - t0
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o.rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        r["discharged"] += bool(o.ok)
    cov = {
        "explanation": mod.EXPLANATION,
        "obligations": len(ctx.obs),
        "discharged": sum(1 for o in ctx.obs if o.ok),
        "rules": rules,
        "entry_points": ctx.entries,
        "samples": [f"{o.rule} @ {o.where}: {o.msg} [{o.loc}]" for o in ctx.obs if o.ok][:12],
    }
    cov.update(ctx.counts)
    if ctx.notes:
        cov["notes"] = ctx.notes
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in hits:
        print(f"KNOWN-FINDING: property={prop} rule={k[0]} construct={k[1]} {kn[k]}")
    rep = os.path.join("evidence", prop + ".violations.txt")
    full = os.path.join(HERE, rep)
    if viol:
        with open(full, "w") as f:
            for o in viol:
                f.write(f"rule {o.rule}\n  construct: {o.where}\n  at: {o.loc}\n  {o.msg}\n")
                if o.path:
                    f.write(f"  path:\n    {o.path}\n")
                f.write("\n")
        for o in viol[:20]:
            print(f"{o.loc}: [{o.rule}] {o.where}: {o.msg}")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if os.path.exists(full):
        os.remove(full)
    print(f"OK property={prop} obligations={len(ctx.obs)} entries={len(ctx.entries)} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
