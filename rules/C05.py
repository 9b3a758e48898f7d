"""A recorded call is never executed again; a new one is executed once, and only if new calls are allowed."""
import ast
from .common import *

EXPLANATION = (
    "Path analysis of the call engine, of the two call entry points and of the lookup. Every site that executes an op's function (directly or "
    "wrapped by the tracker) is found by its callee term; in the engine each must be reached only behind the decision that the lookup of this "
    "very op on these very inputs found nothing and the decision that new calls are allowed, no path may reach two of them, the result of a path "
    "behind a found call is that call and its outputs, and a new record is only built behind an execution. In the lookup, the answer None is given "
    "only behind a 'not there' for both the history and the content identity, or behind 'no matching version'. An ownership rule over the whole "
    "source says that no function outside the analysed ones executes an op's function."
)
ASSUMPTIONS = ["an Op's `f` is only executed through its attribute `f` (not through __wrapped__ or a private copy)"]


def check(ctx):
    seen = set()
    for versioned in (False, True):
        seen |= engine(ctx, internal(ctx, versioned), f"call_internal[versioned={versioned}]")
    seen |= entry(ctx)
    lookup(ctx)
    switch(ctx)
    owners(ctx, seen)


def engine(ctx, r, where):
    P = r.P
    ex = exec_sites(r, P["op"])
    ctx.minimum("executes", where, len(ex), 1, "executions of the op's function")
    lk = lookups(r)
    ctx.minimum("looked-up", where, len(lk), 1, "look-ups")
    res = {n.d["result"] for n in lk}
    for n in lk:
        b = n.d["bound"]
        inp = r.snap(n, b.get("inputs", NONE))
        ctx.check("looked-up", where, b.get("op") is P["op"], "the op looked up is the op called", n)
        ctx.check("looked-up", where, bool(coverage(inp)) and all(P["storage_inputs"] in c.bases and not c.guards for c in coverage(inp)),
                  "the inputs looked up are those of the call", n)
    miss = [n.id for n in r.nodes if none_test(n, res) == 1]
    hit = [n.id for n in r.nodes if none_test(n, res) == -1]
    ctx.minimum("looked-up", where, min(len(miss), len(hit)), 1, "decisions on the outcome of the look-up")
    allow = [n for n in r.nodes if n.kind == "assume" and contains(n.d["cond"], lambda t: t is mk("attr", P["self"], "_allow_new_calls")) is not None]
    yes = [n.id for n in allow if positive(n, mk("attr", P["self"], "_allow_new_calls"))]
    no = [n.id for n in allow if n.id not in yes]
    for e in ex:
        p = r.path([r.it.entry.id], [e.id], avoid=miss)
        ctx.check("only-on-miss", where, p is None, "the function runs only when no call was found", e, show_path(p))
        p = r.path([r.it.entry.id], [e.id], avoid=yes)
        ctx.check("only-if-allowed", where, p is None, "the function runs only when new calls are allowed", e, show_path(p))
        again = r.path([s for s in r.succ[e.id]] if isinstance(r.succ, (dict, list)) else [], [x.id for x in ex])
        ctx.check("once", where, again is None, "the function runs at most once per call", e, show_path(again))
    exids = [e.id for e in ex]
    for m in miss:
        p = r.path([m], [n.id for n, _, _ in r.ends], avoid=exids)
        ctx.check("executed-on-miss", where, p is None, "without a recorded call the function is run", r.nodes[m], show_path(p))
    for m in no:
        p = r.path([m], [n.id for n, _, _ in r.ends])
        ctx.check("refused", where, p is None, "a call that may not be made is refused", r.nodes[m], show_path(p))
    news = [n for n in r.find("new") if n.d["cls"] == "Call"]
    for n in news:
        p = r.path([r.it.entry.id], [n.id], avoid=exids)
        ctx.check("recorded-after-run", where, p is None, "a new record rests on an execution", n, show_path(p))
    objs = {n.d["obj"] for n in news}
    for n, s, v in r.ends:
        for a in alts(v):
            ok = a.op == "tuple" and len(a.args) == 3
            if not ctx.check("result", where, ok, "the result is (outputs, call, structural calls)", n):
                continue
            for c in alts(a.args[1]):
                ctx.check("result", where, c in res or c in objs, "the call returned is the one found or the one just made", n)
                if c in res:
                    ctx.check("result", where, all(o.op == "attr" and o.args[1] == "outputs" and o.args[0] in res for o in alts(a.args[0])),
                              "the outputs returned are those of the call found", n)
    # a found call is what the path behind it returns: no execution, no new record
    for h in hit:
        p = r.path([h], exids + [n.id for n in news])
        ctx.check("only-on-miss", where, p is None, "behind a found call nothing is executed", r.nodes[h], show_path(p))
    return {e.fn.qual for e in ex}


def positive(n, t):
    """n decides that t is true"""
    c, pol = n.d["cond"], n.d["pol"]
    if c.op == "op" and c.args[0] == "truth" and c.args[1] is t:
        return pol
    if c.op == "op" and c.args[0] in ("eq", "is") and any(a is t for a in c.args[1:]):
        k = next((a for a in c.args[1:] if a is not t), None)
        if k is not None and k.op == "const":
            return pol == bool(k.args[0])
    return False


def entry(ctx):
    """Op.__call__ and Storage.call: once through the engine, or once directly when there is no memoization"""
    seen = set()
    r = ctx.run("Op", "__call__", opaque=op_names("Storage.call"), tag="opcall")
    me = r.P["self"]
    ctxs = mk("attr", mk("class", "Context"), "current_context")
    direct = exec_sites(r, me)
    st = calls_to(r, "mandala.storage.Storage.call")
    ctx.minimum("through-storage", "Op.__call__", len(st), 1, "calls through the storage")
    ctx.minimum("through-storage", "Op.__call__", len(direct), 1, "direct executions")
    test = [n for n in r.nodes if n.kind == "assume" and contains(n.d["cond"], lambda t: t.op == "attr" and t.args[1] == "current_context") is not None]
    none = [n.id for n in test if n.d["cond"].op == "op" and ((n.d["cond"].args[0] == "isnone") == n.d["pol"])]
    some = [n.id for n in test if n.id not in none]
    for e in direct:
        p = r.path([r.it.entry.id], [e.id], avoid=none)
        ctx.check("through-storage", "Op.__call__", p is None, "inside a context an op is called through the storage", e, show_path(p))
    both = [e.id for e in direct + st]
    for n in direct + st:
        again = r.path(list(r.succ[n.id]), both)
        ctx.check("once", "Op.__call__", again is None, "an op call happens once", n, show_path(again))
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=both)
    ctx.check("through-storage", "Op.__call__", p is None, "an op call is made on every path", r.it.entry, show_path(p))
    seen |= {e.fn.qual for e in direct}
    for mode in ("run", "noop"):
        r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode=mode), tag=("call", mode))
        where = f"Storage.call[{mode}]"
        ex = exec_sites(r, r.P["op"])
        ci = calls_to(r, "mandala.storage.Storage.call_internal")
        want, other = (ci, ex) if mode == "run" else (ex, ci)
        ctx.minimum("through-engine", where, len(want), 1, "calls of the engine" if mode == "run" else "direct executions")
        for n in other:
            ctx.bad("through-engine", where, "in a memoizing context the function is only run by the engine" if mode == "run" else
                    "in noop mode the engine is not used", n)
        ids = [n.id for n in want]
        p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=ids)
        ctx.check("through-engine", where, p is None, "every call goes there", r.it.entry, show_path(p))
        for n in want:
            again = r.path(list(r.succ[n.id]), ids)
            ctx.check("once", where, again is None, "an op call happens once", n, show_path(again))
            if mode == "run":
                b = n.d["bound"]
                ctx.check("through-engine", where, b.get("op") is r.P["op"], "the engine is given the op that was called", n)
        if mode == "run":
            for n, s, v in r.ends:
                for a in alts(v):
                    src = contains(a, lambda t: is_call(t) and short(t.args[0]) == "call_internal") is not None
                    ctx.check("result", where, src, "what the caller gets are the outputs of the engine's call", n)
        seen |= {e.fn.qual for e in ex}
    return seen


def lookup(ctx):
    for must in (False, True):
        r = ctx.run("Storage", "lookup_call", opaque=op_names("_get_call_from_data", "get_dep_key_from_func", *STORE_OPS), attrs_=attrs(),
                    params={"must_version": const(must)}, tag=f"v{int(must)}")
        where = f"lookup_call[versioned={must}]"
        P = r.P
        for e in exec_sites(r, P["op"]):
            ctx.bad("only-on-miss", where, "looking a call up does not execute it", e)
        ends_none = []
        for n, s, v in r.ends:
            if any(is_const(a, None) for a in alts(v)):
                ends_none.append(n)
        ctx.minimum("found", where, len(r.ends), 1, "exits")
        # 'there' decisions, per identity
        yes = {"exists": [], "exists_content": []}
        for n in r.nodes:
            if n.kind != "assume" or not n.d["pol"]:
                continue
            for t in subterms(n.d["cond"]):
                if is_call(t) and "CallStorage" in t.args[0] and short(t.args[0]) in yes:
                    yes[short(t.args[0])].append(n)
        gets = {m for m in r.nodes if m.kind == "call" and "CallStorage" in (m.d["name"] or "") and short(m.d["name"]) in ("get_data", "get_data_content", "mget_data")}
        made = calls_to(r, "_get_call_from_data")
        for kind, ns in yes.items():
            ctx.minimum("found", where, len(ns), 1, f"questions whether the call is there ({kind})")
            for n in ns:
                p = r.path([n.id], [e.id for e, _, _ in r.ends], avoid=[m.id for m in made])
                ctx.check("found", where, p is None, "a call that is there is loaded", n, show_path(p))
        datas = {m.d["result"] for m in gets}
        for n in made:
            src = contains(mk("tuple", *[r.snap(n, v) for v in n.d["bound"].values()]), lambda t: t in datas) is not None
            ctx.check("found", where, src, "the call returned is built from the record found", n)
            # whatever was loaded is returned: the end behind it carries it
            ends = [(e, s, v) for e, s, v in r.ends if r.path([n.id], [e.id]) is not None]
            ctx.check("found", where, bool(ends) and all(any(contains(r.it.snap(s, a), lambda t: t is n.d["result"]) is not None for a in alts(v)) for e, s, v in ends),
                      "the call found is returned", n)
        # None only after both misses (or no version)
        lk = {m.d["result"] for m in calls_to(r, "mandala.deps.versioner.Versioner.lookup_call")}
        nov = [n.id for n in r.nodes if none_test(n, lk) == 1]
        made_ids = [m.id for m in made]
        nos = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"]]
        for kind in yes:
            miss = [n.id for n in nos if any(is_call(t) and "CallStorage" in t.args[0] and short(t.args[0]) == kind for t in subterms(n.d["cond"]))]
            p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=miss + nov + made_ids)
            ctx.check("not-found", where, p is None, f"'no such call' is answered only after a miss ({kind})", r.it.entry, show_path(p))
        if must:
            ctx.minimum("not-found", where, len(lk), 1, "look-ups of the version")


def switch(ctx):
    """the switch that forbids new calls, and its default"""
    r = ctx.run("Storage", "allow_new_calls")
    sets = [n for n in r.nodes if n.kind == "setattr" and n.d["attr"] == "_allow_new_calls" and n.d["base"] is r.P["self"]]
    ctx.minimum("switch", "Storage.allow_new_calls", len(sets), 1, "settings of the switch")
    for n in sets:
        ctx.check("switch", "Storage.allow_new_calls", r.snap(n, n.d["value"]) is r.P["allow"], "the switch is set to what was asked", n)
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=[n.id for n in sets])
    ctx.check("switch", "Storage.allow_new_calls", p is None, "the switch is always set", r.it.entry, show_path(p))


def owners(ctx, seen):
    """no other function executes an op's function"""
    n = 0
    for fn in ctx.prog.functions.values():
        if ".tests" in fn.module or fn.qual in seen:
            continue
        al = set()
        for e in ast.walk(fn.node):
            if isinstance(e, ast.Assign) and isinstance(e.value, ast.Attribute) and e.value.attr == "f":
                al |= {t.id for t in e.targets if isinstance(t, ast.Name)}
        for e in ast.walk(fn.node):
            if isinstance(e, ast.Call) and (isinstance(e.func, ast.Attribute) and e.func.attr == "f" or isinstance(e.func, ast.Name) and e.func.id in al):
                n += 1
                # structural constructors are pure functions of the library
                base = e.func.value if isinstance(e.func, ast.Attribute) else None
                lib = isinstance(base, ast.Name) and base.id.startswith("__") and base.id.endswith("__")
                ctx.check("owners", fn.qual.split(".", 1)[-1], lib, "an op's function is executed only by the call engine and the two call entry points",
                          f"{fn.module.replace('.', '/')}.py:{e.lineno}")
    ctx.count("other_execution_sites", n)
