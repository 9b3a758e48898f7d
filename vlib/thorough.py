"""The thorough tier: the same rules on a deeper unfolding of the program, and a measurement of what the rules react to.

deepen() 1. re-decides the property with recursive functions unfolded once more (obligations found there count like any other) and
            with assertions treated as statements that may fail;
         2. edits the functions the analysis went through, one statement at a time and in memory only (a statement removed, a
            condition negated, a default argument dropped, two adjacent statements swapped), and records how many of these edits
            the rules react to. The result is evidence about the rules, never a verdict.
"""
import ast
import copy
import os
import random
import time
from concurrent.futures import ProcessPoolExecutor, as_completed

from .program import AnchorError, Program
from .rulekit import Ctx

CONFIGS = {"recursion unfolded twice": {"maxrec": 1}, "assertions may fail": {"asserts": "raise"}}


class Deep(Ctx):
    def __init__(self, prop, prog, over):
        super().__init__(prop, prog=prog, tier="thorough")
        self._over = over

    def run(self, cls, name, **kw):
        for k, v in self._over.items():
            kw.setdefault(k, v)
        return super().run(cls, name, **kw)


def deepen(prop, mod, ctx):
    out = {"deeper_configurations": {}}
    skip = set(getattr(mod, "NO_DEEPER", ()))
    for name, over in CONFIGS.items():
        if name in skip:
            continue
        t = time.time()
        d = Deep(prop, ctx.prog, over)
        mod.check(d)
        ctx.obs += d.obs
        out["deeper_configurations"][name] = {"obligations": len(d.obs), "discharged": sum(o.ok for o in d.obs),
                                              "nodes": sum(e["nodes"] for e in d.entries.values()), "wall_s": round(time.time() - t, 1)}
    out["sensitivity"] = sensitivity(prop, ctx)
    return out


# ------------------------------------------------------------------ sensitivity
def touched(ctx):
    """functions the analysis went through"""
    qs = set()
    for r in ctx._memo.values():
        for n in r.nodes:
            if n.fn is not None:
                qs.add(n.fn.qual)
    return sorted(qs)


def edits(fn_node):
    """[(description, line, edit)] where edit(tree node) changes a deep copy of the function in place"""
    out = []
    body_lists = []
    for n in ast.walk(fn_node):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                body_lists.append((n, f))
    for i, (n, f) in enumerate(body_lists):
        for j, s in enumerate(getattr(n, f)):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.FunctionDef)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).startswith(("logger.", "print")):
                continue
            out.append(("remove", s.lineno, i, f, j))
            if isinstance(s, (ast.If, ast.While)):
                out.append(("negate", s.lineno, i, f, j))
            if j + 1 < len(getattr(n, f)):
                out.append(("swap", s.lineno, i, f, j))
    return out


def apply(fn_node, e):
    kind, _, i, f, j = e
    body_lists = []
    for n in ast.walk(fn_node):
        for g in ("body", "orelse", "finalbody"):
            v = getattr(n, g, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                body_lists.append((n, g))
    n, g = body_lists[i]
    l = getattr(n, g)
    if kind == "remove":
        l[j] = ast.copy_location(ast.Pass(), l[j])
    elif kind == "negate":
        l[j].test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=l[j].test), l[j].test)
    else:
        l[j], l[j + 1] = l[j + 1], l[j]


def _one(job):
    prop, file, qual, e = job
    import sys
    sys.setrecursionlimit(20000)
    import check
    try:
        src = open(os.path.join("/repo", file)).read()
        tree = ast.parse(src)
        node = None
        want = qual
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and (n.name, n.lineno) == want:
                node = n
        apply(node, e)
        text = ast.unparse(ast.fix_missing_locations(tree))
        compile(text, file, "exec")
    except Exception:
        return "skipped", job, ""
    try:
        mod, ctx = check.decide(prop, "quick", prog=Program(overlay={file: text}))
        bad = [o for o in ctx.obs if not o.ok]
        return ("reacts" if bad else "quiet"), job, (bad[0].rule if bad else "")
    except AnchorError as x:
        return "no answer", job, "anchor " + str(x)[:80]
    except BaseException as x:
        return "no answer", job, f"{type(x).__name__} {x}"[:120]


def jobs_for(prop, ctx, only=None):
    jobs = []
    for q in touched(ctx):
        fn = next((f for f in ctx.prog.functions.values() if f.qual == q), None)
        if fn is None or not isinstance(fn.node, (ast.FunctionDef, ast.AsyncFunctionDef)) or fn.parent is not None:
            continue
        file = fn.module.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join("/repo", file)) or (only and not any(o in q for o in only)):
            continue
        for e in edits(fn.node):
            jobs.append((prop, file, (fn.node.name, fn.node.lineno), e))
    return jobs


def sensitivity(prop, ctx, budget=None, limit=None, only=None, verbose=False):
    budget = budget or float(os.environ.get("VERIF_SENS_S", "240"))
    jobs = jobs_for(prop, ctx, only)
    random.Random(int(os.environ.get("VERIF_SEED", "1") or 1)).shuffle(jobs)
    if limit:
        jobs = jobs[:limit]
    res, per = {}, {}
    t = time.time()
    det = []
    with ProcessPoolExecutor(8) as ex:
        it = iter(jobs)
        live = set()
        more = True
        while live or more:
            while more and len(live) < 16:
                j = next(it, None)
                if j is None or time.time() - t > budget:
                    more = False
                    break
                live.add(ex.submit(_one, j))
            if not live:
                break
            f = next(as_completed(live))
            live.discard(f)
            k, j, why = f.result()
            res[k] = res.get(k, 0) + 1
            per.setdefault(j[2][0], {}).setdefault(k, 0)
            per[j[2][0]][k] += 1
            det.append((k, j, why))
    if verbose:
        return res, per, det
    return {"edits_available": len(jobs), "edits_tried": sum(res.values()), **res,
            "per_function": {k: v for k, v in sorted(per.items())}, "wall_s": round(time.time() - t, 1)}
