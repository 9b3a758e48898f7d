#!/usr/bin/env python3
"""Compose DESIGN.md from tools/design/*.md, the rules' own descriptions, the property table and the seeded bugs."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
P = [json.loads(x) for x in open(H + "/properties.jsonl")]
man = json.load(open(H + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man.get("not_applicable", [])}
out = [open(H + "/tools/design/head.md").read().rstrip("\n")]
for p in P:
    if p["id"] in na:
        out.append(f"| {p['id']} {p['title']} | {na[p['id']]} |")
out.append("\n## 3. Properties claimed\n")
out.append("For each: what is analysed and asked, the assumptions, and the names of the rules (as they appear in violations and evidence).\n")
seeds = {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
from vlib.rulekit import Ctx
for p in P:
    if p["id"] in na:
        continue
    mod = importlib.import_module("rules." + p["id"])
    ctx = Ctx(p["id"])
    mod.check(ctx)
    rules = {}
    for o in ctx.obs:
        rules[o.rule] = rules.get(o.rule, 0) + 1
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append("*Decided by:* " + mod.EXPLANATION + "\n")
    out.append("*Assumed:* " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    out.append("*Rules:* " + ", ".join(f"`{k}`" for k in sorted(rules)) + f" ({len(ctx.entries)} entries analysed, about {len(ctx.obs)} obligations).\n")
out.append("## 4. Seeded bugs\n\nEach breaks one property, passes the repository's tests, and was confirmed by its demonstration. All are reported by the check of their property.\n")
out.append("| bug | property | needs |\n|---|---|---|")
for k in sorted(seeds):
    for n, d in seeds[k]:
        out.append(f"| {n} | {k} | {d['needs']} |")
out.append("")
out.append(open(H + "/tools/design/tail.md").read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
