"""Dependency tracing sees everything an execution runs and reads."""
from .common import *

EXPLANATION = (
    "Typestate and value-flow analysis of both tracers: what a tracked function's wrapper does around the function on every exit, which nodes and edges a call, a read of a global and a memoized call leave in the graph, how the "
    "stack of open calls is kept, which reads are refused, how tracing is switched on, off and suspended, and which modules are traced."
)
ASSUMPTIONS = [
    "CPython calls the function given to sys.settrace for every new frame and looks globals up through the __getitem__ of a function's globals",
    "an edge is recorded with both its nodes (checked for DependencyGraph itself)",
]
VB = lambda f: False
DI = "mandala.deps.tracers.dec_impl."
SI = "mandala.deps.tracers.sys_impl."


def check(ctx):
    graph(ctx)
    wrapper(ctx)
    classes(ctx)
    registry(ctx)
    reads(ctx)
    dec_call(ctx)
    dec_global(ctx)
    dec_return(ctx)
    dec_leaf(ctx)
    switch(ctx)
    suspended(ctx)
    modules(ctx)
    closures(ctx)
    names(ctx)
    made(ctx)
    sys_tracer(ctx)


def ends(r):
    return [e.id for e, _, _ in r.ends]


def must(ctx, r, rule, where, sites, msg, legit=(), starts=None):
    if not ctx.check(rule, where, bool(sites), msg + ": there is code for it", r.it.entry):
        return
    p = r.path(starts or [r.it.entry.id], ends(r), avoid=[n.id for n in sites] + list(legit))
    ctx.check(rule, where, p is None, msg, sites[0], show_path(p))


def preset(*heap, facts=(), hints=()):
    def setup(it, st):
        for (o, f), v in heap:
            st.heap[(o, f)] = v
        st.facts = st.facts | frozenset(facts)
        for t, c in hints:
            it.hints[t] = c
    return setup


SELF = mk("param", "self")
GRAPH = mk("attr", SELF, "graph")
STACK = mk("attr", SELF, "call_stack")
OWN = (((SELF, "graph"), GRAPH), ((SELF, "call_stack"), STACK), ((SELF, "paths"), mk("attr", SELF, "paths")))
SETTINGS = tuple(((SELF, a), mk("attr", SELF, a)) for a in ("strict", "track_globals", "allow_methods", "skip_unhashable_globals", "skip_globals_silently", "path_strs"))


def tracer_run(ctx, cls, meth, opaque, facts=(), **kw):
    return ctx.run(cls, meth, opaque=opaque, setup=preset(*OWN, *SETTINGS, facts=facts, hints=[(GRAPH, "DependencyGraph")]), **kw)


# ---------------------------------------------------------------- graph
def graph(ctx):
    r = ctx.run("DependencyGraph", "add_node", opaque=VB, tag=("c21",))
    where = "DependencyGraph.add_node"
    S, n = r.P["self"], r.P["node"]
    key = {mk("attr", n, "key"), mk("tuple", mk("attr", n, "module_name"), mk("attr", n, "obj_name"))}
    sets = [m for m in r.nodes if m.kind == "mut" and m.d["how"] == "setitem" and r.snap(m, m.d["target"]) is mk("attr", S, "nodes") and m.d["value"] is n and r.snap(m, m.d["key"]) in key]
    must(ctx, r, "graph", where, sets, "a node added is found under its own key")
    r = ctx.run("DependencyGraph", "add_edge", opaque=op_names("add_node", base=VB), tag=("c21",))
    where = "DependencyGraph.add_edge"
    S, a, b = r.P["self"], r.P["source"], r.P["target"]
    kk = lambda x: {mk("attr", x, "key"), mk("tuple", mk("attr", x, "module_name"), mk("attr", x, "obj_name"))}
    adds = [m for m in r.nodes if m.kind == "mut" and m.d["how"] in ("add", "update") and r.snap(m, m.d["target"]) is mk("attr", S, "edges") and
            any(t.op == "tuple" and len(t.args) == 2 and t.args[0] in kk(a) and t.args[1] in kk(b) for x in m.d["args"] for t in subterms(r.snap(m, x)))]
    must(ctx, r, "graph", where, adds, "an edge leads from its source to its target")
    for x in (a, b):
        new = [m for m in calls_to(r, "add_node") if barg(r, m, "node") is x]
        known = [m.id for m in r.nodes if m.kind == "assume" and m.d["pol"] and m.cond.op == "op" and m.cond.args[0] == "in" and m.cond.args[1] in kk(x) and m.cond.args[2] is mk("attr", S, "nodes")]
        must(ctx, r, "graph", where, new, "both ends of an edge are nodes of the graph", legit=known)
    r = ctx.run("DependencyGraph", "__init__", opaque=VB, tag=("c21",))
    for e, s, v in r.ends:
        fs = [s.heap.get((r.P["self"], f)) for f in ("nodes", "edges", "roots")]
        ctx.check("graph", "DependencyGraph.__init__", all(f is not None and not coverage(r.it.snap(s, f)) for f in fs), "a new graph is empty", e)
        ctx.check("graph", "DependencyGraph.__init__", len({id(f) for f in fs}) == 3, "a new graph has collections of its own", e)


# ---------------------------------------------------------------- tracked functions
TYPE, FUNC = mk("builtin", "type"), None


def entered(it, s, v):
    """what a tracked function does when it is called"""
    if v.op != "closure":
        return []
    return it.call_value(s, v, [], {}, it.prog.functions[DI + "track"].node, [("*", mk("param", "#args")), ("**", mk("param", "#kwargs"))])


def function_type(r):
    return [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "FunctionType"]


def faithful(ctx, r, where, f, copies):
    """copies of f that behave like f but look their globals up through a tracking dictionary"""
    ctx.minimum("tracked-copy", where, len(copies), 1, "tracked copies")
    pos = ("code", "globals", "name", "argdefs", "closure")
    for n in copies:
        g = lambda i: arg(n, i, pos[i])
        for i, a in ((0, "__code__"), (3, "__defaults__"), (4, "__closure__")):
            v = g(i)
            ctx.check("tracked-copy", where, v is not None and r.snap(n, v) is mk("attr", f, a), f"a tracked function keeps its {a}", n)
        v = g(1)
        ok = v is not None and v.op == "obj" and n.heap[(v, "__original__")] is mk("attr", f, "__globals__") if v is not None and (v, "__original__") in n.heap else False
        ctx.check("tracked-copy", where, ok, "a tracked function looks up its own globals", n)
        if v is not None:
            ctx.check("tracked-copy", where, any(m.kind == "new" and m.d["cls"] == "TrackedDict" and m.d.get("obj") is v for m in r.nodes), "and does so through the tracking dictionary", n)
        t = n.d["result"]
        kw = [m for m in r.nodes if m.kind == "setattr" and m.d["attr"] == "__kwdefaults__" and m.d["base"] is t]
        for m in kw:
            v = r.snap(m, m.d["value"])
            ctx.check("tracked-copy", where, plain_copy(v) is mk("attr", f, "__kwdefaults__"), "a tracked function keeps its keyword-only defaults", m)
        oks = [m.id for m in r.nodes if m.kind == "ok" and n.id in m.preds] or [n.id]
        ends_ = ends(r)
        p = r.path(oks, ends_, avoid=[m.id for m in kw])
        ctx.check("tracked-copy", where, p is None, "a tracked function keeps its keyword-only defaults", n, show_path(p))
        for m in r.nodes:
            if m.kind == "setattr" and m.d["base"] is t and m.d["attr"] in ("__module__", "__qualname__", "__name__"):
                ctx.check("tracked-copy", where, r.snap(m, m.d["value"]) is mk("attr", f, m.d["attr"]), f"a tracked function keeps its {m.d['attr']}", m)
            if m.kind == "setattr" and m.d["base"] is t and m.d["attr"] in ("__code__", "__defaults__", "__globals__"):
                ctx.bad("tracked-copy", where, f"a tracked function keeps its {m.d['attr']}", m)


def plain_copy(t):
    while is_call(t, "copy.deepcopy", "copy.copy", "dict", ".copy") and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t


def attr_of(t, names, attr):
    return t.op == "attr" and t.args[1] == attr and t.args[0] in names


def registered(ctx, r, where, names, orig, starts=None, msg="a tracked function is known as tracked"):
    """the registry gets, under the names' module and qualified name, the original behind them"""
    sets = [m for m in r.nodes if m.kind == "mut" and m.d["how"] == "setitem" and show(m.d["target"], 3).endswith("registry")]
    good = []
    for m in sets:
        k = r.snap(m, m.d["key"])
        ok = k.op == "tuple" and len(k.args) == 2 and attr_of(k.args[0], names, "__module__") and attr_of(k.args[1], names, "__qualname__")
        if ok and orig(r.snap(m, m.d["value"])):
            good.append(m)
    must(ctx, r, "registry", where, good, msg, starts=starts)


def wrapper(ctx):
    o = mk("param", "obj")
    isfun = mk("op", "isinstance", o, mk("global", "types.FunctionType"))
    # learn the engine's rendering of the type tests
    r0 = ctx.run(None, DI + "track", opaque=op_names("make_tracked_copy", "unwrap_decorators", "setattr", base=VB), tag=("c21",))
    conds = {n.cond for n in r0.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isinstance" and n.cond.args[1] is o}
    tests = {c: short(show(c.args[2], 2)) for c in conds}
    fun = frozenset((c, "FunctionType" in s) for c, s in tests.items())
    ctx.minimum("wrapper", "track", len(fun), 2, "kinds of object told apart")
    opn = lambda f: f.name in ("unwrap_decorators", "register_call", "register_return")
    r = ctx.run(None, DI + "track", opaque=opn, setup=preset(facts=fun), after=entered, may_raise=lambda n: ["?"] if n.kind == "call" else None)
    where = "track[function]"
    copies = function_type(r)
    faithful(ctx, r, where, o, copies)
    tracked = {n.d["result"] for n in copies}
    names = tracked | {o}
    registered(ctx, r, where, names, lambda v: is_call(v) and short(v.args[0]) == "unwrap_decorators" and cargs(v)[0] in names)
    runs = [n for n in r.nodes if n.kind == "call" and callee(n) is not None and callee(n) in names]
    ctx.minimum("wrapper", where, len(runs), 1, "executions of the function")
    for n in runs:
        ctx.check("wrapper", where, callee(n) in tracked, "what runs is the tracked copy", n)
        ok = not n.d["args"] and not n.d["kwargs"] and [k for k, _ in n.d["extra"]] == ["*", "**"] and [r.snap(n, x) for _, x in n.d["extra"]][0] is mk("param", "#args") and \
            (lambda t: t is mk("param", "#kwargs") or is_copy(r, n, t, mk("param", "#kwargs")))(n.d["extra"][1][1])
        ctx.check("wrapper", where, ok, "with the arguments given", n)
    ids = [n.id for n in runs]
    must(ctx, r, "wrapper", where, runs, "calling a tracked function runs it")
    p = r.path([s for n in runs for s in after_ok(r, n)], ids)
    ctx.check("wrapper", where, p is None, "once", runs[0] if runs else r.it.entry, show_path(p))
    res = {n.d["result"] for n in runs}
    for e, s, v in r.ends:
        ctx.check("wrapper", where, all(x in res for x in alts(v)), "and returns what it returned", e)
    regs, rets = calls_to(r, DI + "DecTracer.register_call"), calls_to(r, DI + "DecTracer.register_return")
    ctx.minimum("wrapper", where, len(regs), 1, "calls reported")
    ctx.minimum("wrapper", where, len(rets), 1, "returns reported")
    active = {n.d["recv"] for n in regs}
    none = [n.id for n in r.nodes if none_test(n, active) == 1]
    p = r.path([r.it.entry.id], ids, avoid=[n.id for n in regs] + none)
    ctx.check("wrapper", where, p is None, "under an active tracer, the call is reported before the function runs", r.it.entry, show_path(p))
    for n in regs:
        ctx.check("wrapper", where, show(n.d["recv"], 3).endswith("tracer"), "it is reported to the active tracer", n)
        ctx.check("wrapper", where, barg(r, n, "func") in names, "what is reported is the function", n)
    for n in rets:
        x = r.snap(n, barg(r, n, "node"))
        ctx.check("wrapper", where, n.d["recv"] in active and all(y in {m.d["result"] for m in regs} for y in alts(x)), "the return reported is that of the call reported", n)
    exits = ends(r) + [n.id for n, _, _ in r.rends]
    starts = [s for n in regs for s in after_ok(r, n)]
    p = r.path(starts, exits, avoid=[n.id for n in rets])
    ctx.check("wrapper", where, p is None, "the return is reported however the function ends", regs[0] if regs else r.it.entry, show_path(p))
    p = r.path([s for n in rets for s in after_ok(r, n)], [n.id for n in rets] + ids)
    ctx.check("wrapper", where, p is None, "the return is reported once, after the function ran", rets[0] if rets else r.it.entry, show_path(p))
    # an op
    opf = frozenset((n.cond, True) for n in r0.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "eq" and any(is_const(a, "Op") for a in n.cond.args[1:]))
    nofun = frozenset((c, False) for c in tests)
    r = ctx.run(None, DI + "track", opaque=opn, setup=preset(facts=nofun | opf))
    where = "track[op]"
    f = mk("attr", o, "f")
    faithful(ctx, r, where, f, function_type(r))
    tracked = {n.d["result"] for n in function_type(r)}
    sets = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is o and n.d["attr"] == "f" and n.d["value"] in tracked]
    must(ctx, r, "wrapper", where, sets, "the function of a tracked op is tracked")
    for e, s, v in r.ends:
        ctx.check("wrapper", where, all(x is o for x in alts(v)), "a tracked op remains that op", e)
    registered(ctx, r, where, tracked | {f}, lambda v: is_call(v) and short(v.args[0]) == "unwrap_decorators" and cargs(v)[0] in tracked | {f}, msg="a tracked op is known as tracked")


def after_ok(r, n):
    return [m.id for m in r.nodes if n.id in m.preds and m.kind != "exc"]


def classes(ctx):
    o = mk("param", "obj")
    items_ = mk("attr", o, "__dict__")
    val = mk("val", items_)
    r0 = ctx.run(None, DI + "track", opaque=op_names("make_tracked_copy", "unwrap_decorators", base=VB), tag=("c21",))
    conds = {n.cond for n in r0.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isinstance" and n.cond.args[1] is o}
    cls = frozenset((c, "FunctionType" not in show(c.args[2], 2)) for c in conds)
    opn = op_names("make_tracked_copy", "unwrap_decorators", "get_nonfunc_attributes", base=VB)
    r = ctx.run(None, DI + "track", opaque=opn, setup=preset(facts=cls), maxrec=0)
    where = "track[class]"
    # kinds of attribute: functions, classes, static and class methods
    for kind in ("FunctionType", "type", "staticmethod", "classmethod"):
        tests = {n.cond for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isinstance" and n.cond.args[1].op in ("val", "sub") and
                 any(x is items_ for x in subterms(n.cond.args[1]))}
        facts = cls | frozenset((c, True if kind in kinds_of(c) else False) for c in tests)
        rk = ctx.run(None, DI + "track", opaque=opn, setup=preset(facts=facts))
        w = f"{where}[{kind}]"
        sets = []
        for m in rk.nodes:
            if m.kind == "setattr" and m.d["base"] is o and m.d["attr"] == "*":
                sets.append((m, rk.snap(m, m.d["key"]), rk.snap(m, m.d["value"])))
        good = []
        for m, k, v in sets:
            inner = v
            if kind in ("staticmethod", "classmethod"):
                fn = mk("attr", val, "__func__")
                ok = is_call(v) and (v.args[0] == kind or v.args[0] == "apply" and cargs(v)[0] in (mk("op", "type", val), mk("attr", val, "__class__")))
                inner = cargs(v)[-1] if is_call(v) else v
            else:
                fn, ok = val, True
            ok = ok and is_call(inner) and short(inner.args[0]) == "track" and cargs(inner)[0] is fn and k is mk("key", items_)
            if ctx.check("class", w, ok, "what replaces an attribute of a tracked class is its tracked version", m):
                good.append(m)
        each(ctx, rk, "class", w, lambda b: b is items_, [m.id for m in good], "every function, class, static and class method of a tracked class is tracked", what="the attributes")
    registered(ctx, r, where, {o}, lambda v: v is o, msg="a tracked class is known as tracked")
    for e, s, v in r.ends:
        ctx.check("class", where, all(x is o for x in alts(v)), "a tracked class remains that class", e)


def kinds_of(c):
    return {short(show(t, 2)) for t in subterms(c.args[2])}


def registry(ctx):
    r = ctx.run("TracerState", "is_tracked", opaque=VB, tag=("c21",))
    where = "TracerState.is_tracked"
    f = r.P["f"]
    key = mk("tuple", mk("attr", f, "__module__"), mk("attr", f, "__qualname__"))
    # whenever the answer can be yes, what is registered under the object's own name is the object itself
    ctx.minimum("registry", where, len(r.ends), 1, "results")
    for e, s, v in r.ends:
        for t, fs in picked(r, v):
            if is_const(t, False):
                continue
            facts = set(fs) | set(s.facts)
            same = [c for c in list(subterms(t)) + [c for c, p in facts if p] if c.op == "op" and c.args[0] in ("is", "eq") and f in c.args[1:] and
                    any(y.op in ("sub", "call") and any(z is key for z in subterms(y)) for y in c.args[1:])]
            ctx.check("registry", where, bool(same), "a function is taken for tracked only if it is the one tracked under its name", e)
            neg = [c for c in subterms(t) if c.op == "op" and c.args[0] == "not"]
            ctx.check("registry", where, not neg, "and a tracked one is not taken for another", e)


# ---------------------------------------------------------------- reads of globals
def reads(ctx):
    orig = mk("attr", SELF, "__original__")
    own = preset(((SELF, "__original__"), orig))
    r = ctx.run("TrackedDict", "__init__", opaque=VB, tag=("c21",))
    for e, s, v in r.ends:
        ctx.check("reads", "TrackedDict.__init__", s.heap.get((r.P["self"], "__original__")) is r.P["original"], "a tracking dictionary stands for the one it is given", e)
    opn = op_names("unwrap_decorators", "is_owned_obj", "is_tracked", "is_global_val", "is_excluded", "register_global_access", base=VB)
    r = ctx.run("TrackedDict", "__getitem__", opaque=opn, setup=own)
    where = "TrackedDict.__getitem__"
    key = next(t for n, t in r.P.items() if n.lstrip("_") == "key" or n.endswith("__key"))
    item = lambda t: t.op == "sub" and t.args[0] is orig and t.args[1] is key or is_call(t) and short(t.args[0]) == "__getitem__" and cargs(t)[0] is orig and cargs(t)[1] is key
    for e, s, v in r.ends:
        ctx.check("reads", where, all(item(x) for x in alts(v)), "reading a global gives its value", e)
    regs = calls_to(r, DI + "DecTracer.register_global_access")
    ctx.minimum("reads", where, len(regs), 1, "reports of a global read")
    act = {n.d["recv"] for n in regs}
    for n in regs:
        ctx.check("reads", where, show(n.d["recv"], 3).endswith("tracer"), "it is reported to the active tracer", n)
        ctx.check("reads", where, barg(r, n, "key") is key, "under the name read", n)
        ctx.check("reads", where, item(barg(r, n, "value")), "with the value read", n)
        m = barg(r, n, "module_name")
        ok = any(x is orig for x in subterms(m)) and any(is_const(x, "__name__") for x in subterms(m))
        ctx.check("reads", where, ok, "and the module it belongs to", n)
    legit = [n.id for n in r.nodes if none_test(n, act) == 1]

    def asked(c, *names):
        c = c.args[1] if c.op == "op" and c.args[0] == "truth" else c
        return is_call(c) and short(c.args[0]) in names
    for n in r.nodes:
        if n.kind != "assume":
            continue
        c = n.cond
        if asked(c, "is_global_val") and not n.pol and item(cargs(strip_truth(c))[0]):
            legit.append(n.id)  # modules, functions and classes are no values
        if c.op == "op" and c.args[0] == "isinstance" and n.pol and kinds_of(c) <= {"FunctionType", "type", "MethodType"} and any(item(x) for x in subterms(c.args[1])):
            legit.append(n.id)
    p = r.path([r.it.entry.id], ends(r), avoid=[n.id for n in regs] + legit)
    ctx.check("reads", where, p is None, "under an active tracer, every global value read is reported", r.it.entry, show_path(p))
    # functions and classes of the user's own modules have to be tracked
    own_f = frozenset((n.cond, True) for n in r.nodes if n.kind == "assume" and asked(n.cond, "is_owned_obj"))
    trk = {n.cond for n in r.nodes if n.kind == "assume" and asked(n.cond, "is_tracked")}
    ctx.minimum("reads", where, len(own_f), 1, "tests whose code it is")
    if ctx.minimum("reads", where, len(trk), 1, "tests whether it is tracked"):
        for kind in ("FunctionType", "type"):
            isk = {n.cond for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isinstance" and kinds_of(n.cond) & {"FunctionType", "type"}}
            sel = frozenset((c, True) for c in isk if kind in kinds_of(c) and any(is_call(x) and short(x.args[0]) == "unwrap_decorators" for x in subterms(c.args[1])))
            rk = ctx.run("TrackedDict", "__getitem__", opaque=opn, setup=preset(((SELF, "__original__"), orig), facts=own_f | frozenset((c, False) for c in trk) | sel))
            out = [e.id for e, _, _ in rk.ends]
            none = [n.id for n in rk.nodes if none_test(n, act) == 1]
            p = rk.path([rk.it.entry.id], out, avoid=none)
            ctx.check("reads", where, p is None and bool(rk.rends), "under an active tracer, an untracked function or class of the traced code is refused", rk.it.entry, show_path(p))
        rk = ctx.run("TrackedDict", "__getitem__", opaque=opn, setup=preset(((SELF, "__original__"), orig), facts=frozenset((c, True) for c in trk) | frozenset((c, "FunctionType" in kinds_of(c)) for c in isk)))
        ctx.check("reads", where, not rk.rends and bool(rk.ends), "a tracked function can be used", rk.it.entry)
    for meth in ("get", "__contains__"):
        rm = ctx.run("TrackedDict", meth, opaque=opn, setup=own)
        k = next(t for n, t in rm.P.items() if n.endswith("key"))
        for e, s, v in rm.ends:
            if meth == "get":
                d = next((t for n, t in rm.P.items() if n.endswith("default")), NONE)
                ok = all(item_of(x, orig, k) or x is d for x in alts(v)) and any(item_of(x, orig, k) for x in alts(v))
            else:
                ok = v.op == "op" and v.args[0] == "in" and v.args[1] is k and strip(v.args[2], WRAP | VIEW) is orig or is_call(v) and short(v.args[0]) == "__contains__" and cargs(v)[:2] == [orig, k]
            ctx.check("reads", f"TrackedDict.{meth}", ok, "membership and defaults are those of the globals", e)


def strip_truth(c):
    return c.args[1] if c.op == "op" and c.args[0] == "truth" else c


def item_of(t, orig, k):
    return t.op == "sub" and t.args[0] is orig and t.args[1] is k or is_call(t) and short(t.args[0]) in ("get", "__getitem__") and cargs(t)[0] is orig and cargs(t)[1] is k


# ---------------------------------------------------------------- the decorator-based tracer
LEAFS = ("get_closure_names", "extract_code", "from_runtime", "from_obj", "add_node", "add_edge", "get_module_flow", "get_func_qualname", "get_global_names_candidates", "is_global_val")


def edges(r, src, dst):
    return [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_edge") if n.d["recv"] is GRAPH and src(r.snap(n, barg(r, n, "source"))) and dst(r.snap(n, barg(r, n, "target")))]


def top(t, stack, depth=1):
    """the innermost open call (or the one around it)"""
    return t.op == "sub" and strip(t.args[0], {"list", "tuple"}) is stack and (is_const(t.args[1], -depth) or t.args[1].op == "op" and t.args[1].args[0] == "sub" and
                                                                             is_call(t.args[1].args[1], "len") and cargs(t.args[1].args[1])[0] is stack and is_const(t.args[1].args[2], depth))


def size(n):
    """(lower, upper) bounds on the number of open calls this decision implies, None when it says nothing"""
    if n.kind != "assume":
        return None
    c, p = n.cond, n.pol
    if c.op == "op" and c.args[0] == "truth" and strip(c.args[1], {"list", "tuple"}) is STACK:
        return (1, None) if p else (0, 0)
    if c.op != "op" or c.args[0] not in ("eq", "lt", "le"):
        return None
    a, b = c.args[1], c.args[2]
    ln = lambda t: is_call(t, "len") and cargs(t)[0] is STACK
    if c.args[0] == "eq":
        k = const_val(b) if ln(a) else const_val(a) if ln(b) else None
        return ((k, k) if p else ((1, None) if k == 0 else None)) if isinstance(k, int) else None
    off = 0 if c.args[0] == "le" else 1
    if ln(a) and isinstance(const_val(b), int):      # len <(=) k
        return (0, const_val(b) - off) if p else (const_val(b) - off + 1, None)
    if ln(b) and isinstance(const_val(a), int):      # k <(=) len
        return (const_val(a) + off, None) if p else (0, const_val(a) + off - 1)
    return None


def callable_node(ctx, r, where, module, qual, code):
    """the nodes made for the function called"""
    made = calls_to(r, "mandala.deps.model.CallableNode.from_runtime")
    ctx.minimum("call", where, len(made), 1, "nodes for the function called")
    for n in made:
        ctx.check("call", where, barg(r, n, "module_name") is module, "a call is recorded with its function's module", n)
        ctx.check("call", where, qual(barg(r, n, "obj_name")), "a call is recorded with its function's qualified name", n)
        ctx.check("call", where, code(barg(r, n, "code_obj")), "a call is recorded with its function's code", n)
    return {n.d["result"] for n in made}


def pushes(r, val):
    return [n for n in r.nodes if n.kind == "mut" and n.d["how"] == "append" and n.d["target"] is STACK and val(r.snap(n, n.d["args"][0]))]


def stack_muts(r):
    return [n for n in r.nodes if n.kind in ("mut", "setattr") and (n.kind == "mut" and n.d["target"] is STACK or n.kind == "setattr" and n.d["base"] is SELF and n.d["attr"] == "call_stack")]


def once(ctx, r, where, sites, msg):
    p = r.path([s for n in sites for s in after_ok(r, n)], [n.id for n in sites])
    ctx.check("call", where, p is None, msg, sites[0] if sites else r.it.entry, show_path(p))


def dec_call(ctx):
    f = mk("param", "func")
    r = tracer_run(ctx, "DecTracer", "register_call", op_names(*LEAFS, base=VB))
    where = "DecTracer.register_call"
    node = callable_node(ctx, r, where, mk("attr", f, "__module__"), lambda t: t is mk("attr", f, "__qualname__"),
                         lambda t: t is mk("attr", f, "__code__") or is_call(t) and short(t.args[0]) == "extract_code" and cargs(strip_kw(t))[0] is f)
    isn = lambda t: all(x in node for x in alts(t))
    push = pushes(r, isn)
    must(ctx, r, "call", where, push, "the function called becomes the innermost open call")
    ctx.check("call", where, not [n for n in stack_muts(r) if n not in push], "and the calls around it stay open", r.it.entry)
    once(ctx, r, where, push, "it is open once")
    adds = [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_node") if n.d["recv"] is GRAPH and isn(barg(r, n, "node"))]
    must(ctx, r, "call", where, adds, "the function called is a node of the graph")
    # before the push the caller is the top, after it the one below
    before = r.reach([r.it.entry.id], avoid=[n.id for n in push])
    es = edges(r, lambda t: True, isn)
    for n in es:
        s = r.snap(n, barg(r, n, "source"))
        ctx.check("call", where, top(s, STACK, 1 if n.id in before and not any(n.id in r.reach(after_ok(r, p)) for p in push) else 2), "the edge to the function called comes from its caller", n)
    alone = [n.id for n in r.nodes if size(n) and size(n)[1] is not None and size(n)[1] <= (0 if n.id in before else 1)]
    must(ctx, r, "call", where, es, "every call but the outermost has an edge from its caller", legit=alone + none_of(r, es))
    roots = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("add", "update") and r.snap(n, n.d["target"]) is mk("attr", GRAPH, "roots")]
    for n in roots:
        k = r.snap(n, n.d["args"][0])
        ok = any(x.op == "attr" and x.args[1] == "key" and x.args[0] in node for x in subterms(k)) or \
            any(x.op == "tuple" and len(x.args) == 2 and all(y.op == "attr" and y.args[0] in node for y in x.args) and [y.args[1] for y in x.args] == ["module_name", "obj_name"] for x in subterms(k))
        ctx.check("call", where, ok, "the root is the function called", n)
        guard = [m.id for m in r.nodes if size(m) and size(m)[1] is not None and size(m)[1] <= (0 if m.id in before else 1)]
        p = r.path([r.it.entry.id], [n.id], avoid=guard)
        ctx.check("call", where, p is None, "only the outermost call is a root", n, show_path(p))
    more = [n.id for n in r.nodes if size(n) and (size(n)[0] or 0) >= (1 if n.id in before else 2)]
    not_one = [n.id for n in r.nodes if n.kind == "assume" and not n.pol and n.cond.op == "op" and n.cond.args[0] == "eq" and
               any(is_call(a, "len") and cargs(a)[0] is STACK for a in n.cond.args[1:]) and const(1 if n.id not in before else 0) in n.cond.args]
    must(ctx, r, "call", where, roots, "the outermost call is the root of the trace", legit=more + not_one)
    for e, s, v in r.ends:
        ctx.check("call", where, isn(v), "the call registered is handed out", e)
    # closures cannot be traced
    cl = {n.d["result"] for n in calls_to(r, "get_closure_names")}
    ctx.minimum("call", where, len(cl), 1, "looks for closure variables")
    for n in calls_to(r, "get_closure_names"):
        ok = barg(r, n, "code_obj") is mk("attr", f, "__code__") or is_call(barg(r, n, "code_obj"))
        ctx.check("call", where, ok, "closure variables looked for are those of the function called", n)
    rs = tracer_run(ctx, "DecTracer", "register_call", op_names(*LEAFS, base=VB), facts=strict_facts(r, cl))
    ctx.check("call", where, not rs.ends and bool(rs.rends), "a strict tracer refuses functions that read variables of an enclosing function", rs.it.entry)


def strict_facts(r, cl):
    fs = set()
    for n in r.nodes:
        if n.kind == "assume":
            if any(t in cl for t in subterms(n.cond)):
                if n.cond.op == "op" and n.cond.args[0] == "truth":
                    fs.add((n.cond, True))
            if n.cond.op == "op" and n.cond.args[0] == "truth" and n.cond.args[1] is mk("attr", SELF, "strict"):
                fs.add((n.cond, True))
    fs.add((mk("op", "truth", mk("attr", SELF, "strict")), True))
    return frozenset(fs)


def none_of(r, es):
    """decisions that there is no such caller"""
    src = {r.snap(n, barg(r, n, "source")) for n in es}
    return [n.id for n in r.nodes if none_test(n, src) == 1]


def strip_kw(t):
    if is_call(t):
        return mk("call", t.args[0], *[a.args[1] if a.op == "kw" else a for a in cargs(t)])
    return t


def global_nodes(ctx, r, where, module, name, value):
    made = calls_to(r, "mandala.deps.model.GlobalVarNode.from_obj")
    ctx.minimum("globals", where, len(made), 1, "nodes for the global read")
    for n in made:
        ctx.check("globals", where, value(barg(r, n, "obj")), "a global is recorded with its value", n)
        k = barg(r, n, "dep_key")
        ok = k.op == "tuple" and len(k.args) == 2 and all(module(x) for x in alts(k.args[0])) and name(k.args[1])
        ctx.check("globals", where, ok, "a global is recorded under its module and name", n)
        for a, b in (("skip_unhashable", "skip_unhashable_globals"), ("skip_silently", "skip_globals_silently")):
            ctx.check("globals", where, barg(r, n, a) is mk("attr", SELF, b), f"the tracer's setting {b} is followed", n)
    return {n.d["result"] for n in made}


def dec_global(ctx):
    r = tracer_run(ctx, "DecTracer", "register_global_access", op_names(*LEAFS, base=VB))
    where = "DecTracer.register_global_access"
    m = r.P["module_name"]
    nodes = global_nodes(ctx, r, where, lambda t: t is m or t.op == "attr" and t.args[1] == "module_name" and top(t.args[0], STACK), lambda t: t is r.P["key"], lambda t: t is r.P["value"])
    r1 = ctx.run("DecTracer", "register_global_access", opaque=op_names(*LEAFS, base=VB), setup=preset(*OWN, *SETTINGS, facts={(mk("op", "isnone", m), False)}))
    for n in calls_to(r1, "mandala.deps.model.GlobalVarNode.from_obj"):
        k = barg(r1, n, "dep_key")
        ctx.check("globals", where, k.op == "tuple" and k.args[0] is m, "the module given is the global's module", n)
    es = edges(r, lambda t: top(t, STACK), lambda t: all(x in nodes for x in alts(t)))
    off = [n.id for n in r.nodes if n.kind == "assume" and not n.pol and n.cond.op == "op" and n.cond.args[0] == "truth" and n.cond.args[1] is mk("attr", SELF, "track_globals")]
    none = [n.id for n in r.nodes if size(n) and size(n)[1] == 0]
    must(ctx, r, "globals", where, es, "the innermost open call gets an edge to every global read", legit=off + none)
    ctx.check("globals", where, not stack_muts(r), "reading a global changes no open call", r.it.entry)


def dec_return(ctx):
    r = tracer_run(ctx, "DecTracer", "register_return", op_names(*LEAFS, base=VB))
    where = "DecTracer.register_return"
    pops = [n for n in stack_muts(r)]
    for n in pops:
        ok = n.kind == "mut" and n.d["how"] == "pop" and (not n.d["args"] or is_const(n.d["args"][0], -1)) or n.kind == "mut" and n.d["how"] == "delitem" and is_const(n.d["key"], -1)
        ctx.check("call", where, ok, "what a return closes is the innermost open call", n)
    must(ctx, r, "call", where, pops, "a return closes the innermost open call")
    once(ctx, r, where, pops, "a return closes one call")


def terminal(ctx, r, where, data, module):
    new = [n for n in r.nodes if n.kind == "new" and n.d["cls"] == "TerminalNode"]
    ctx.minimum("leaves", where, len(new), 1, "nodes for memoized calls")
    for n in new:
        kw = dict(zip(("module_name", "obj_name", "representation"), n.d["args"]))
        kw.update(n.d["kwargs"])
        ctx.check("leaves", where, r.snap(n, kw.get("representation", NONE)) is data, "a memoized call is recorded with its data", n)
        k = r.snap(n, kw.get("obj_name", NONE))
        for f in ("op_internal_name", "op_version", "call_content_version", "call_semantic_version"):
            ctx.check("leaves", where, any(x is mk("attr", data, f) for x in subterms(k)), f"calls of different {f.replace('_', ' ')} are different nodes", n)
        ctx.check("leaves", where, module(r.snap(n, kw.get("module_name", NONE))), "a memoized call is recorded with its module", n)
    return {n.d["obj"] for n in new if n.d.get("obj") is not None} | {n.d.get("result") for n in new if n.d.get("result") is not None}


def dec_leaf(ctx):
    tr = mk("param", "trace_obj")
    g, st = mk("attr", tr, "graph"), mk("attr", tr, "call_stack")
    r = ctx.run("DecTracer", "register_leaf_event", opaque=op_names(*LEAFS, base=VB), setup=preset(((tr, "graph"), g), ((tr, "call_stack"), st), hints=[(g, "DependencyGraph")]))
    where = "DecTracer.register_leaf_event"
    data = r.P["data"]
    nodes = terminal(ctx, r, where, data, lambda t: t is mk("sub", mk("attr", data, "dep_key"), const(0)))
    es = [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_edge") if n.d["recv"] is g and top(r.snap(n, barg(r, n, "source")), st) and barg_raw(n, "target") in nodes]
    legit = []
    for n in r.nodes:
        if n.kind == "assume":
            c = n.cond
            if c.op == "op" and c.args[0] == "truth" and c.args[1] is st and not n.pol:
                legit.append(n.id)
            if c.op == "op" and c.args[0] == "eq" and n.pol and const(0) in c.args and any(is_call(x, "len") and cargs(x)[0] is st for x in c.args[1:]):
                legit.append(n.id)
    must(ctx, r, "leaves", where, es, "a memoized call is recorded as made by the innermost open call", legit=legit)


def barg_raw(n, name):
    return (n.d.get("bound") or {}).get(name)


# ---------------------------------------------------------------- on and off
def switch(ctx):
    r = ctx.run("DecTracer", "set_active_trace_obj", opaque=VB, tag=("c21",))
    where = "DecTracer.set_active_trace_obj"
    x = r.P["trace_obj"]
    sets = [n for n in r.nodes if n.kind in ("setattr", "setglobal") and n.d.get("attr") == "tracer"]
    must(ctx, r, "switch", where, sets, "the tracer given is the active one from then on")
    for n in sets:
        ctx.check("switch", where, all(a is x or is_const(a, None) and x is NONE for a in alts(r.snap(n, n.d["value"]))), "the tracer given is the active one from then on", n)
    act = mk("attr", sets[0].d["base"], "tracer") if sets else None
    cur = {n.cond for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isnone" and n.cond.args[1] is not x}
    rb = ctx.run("DecTracer", "set_active_trace_obj", opaque=VB, setup=preset(facts=frozenset((c, False) for c in cur) | {(mk("op", "isnone", x), False)}))
    ctx.check("switch", where, bool(cur) and not rb.ends and bool(rb.rends), "no tracer takes the place of an active one", rb.it.entry)
    rn = ctx.run("DecTracer", "set_active_trace_obj", opaque=VB, params={"trace_obj": NONE})
    ctx.check("switch", where, bool(rn.ends) and not rn.rends, "tracing can always be switched off", rn.it.entry)
    r = ctx.run("DecTracer", "get_active_trace_obj", opaque=VB, tag=("c21",))
    for e, s, v in r.ends:
        ctx.check("switch", "DecTracer.get_active_trace_obj", act is not None and v is act or show(v, 3).endswith("tracer"), "the active tracer is the one set", e)
    r = ctx.run("DecTracer", "__enter__", opaque=VB, tag=("c21",))
    sets = [n for n in r.nodes if n.kind == "setattr" and n.d["attr"] == "tracer" and n.d["value"] is r.P["self"]]
    must(ctx, r, "switch", "DecTracer.__enter__", sets, "entering a tracer makes it the active one")
    r = ctx.run("DecTracer", "__exit__", opaque=VB, tag=("c21",))
    sets = [n for n in r.nodes if n.kind == "setattr" and n.d["attr"] == "tracer" and is_const(n.d["value"], None)]
    must(ctx, r, "switch", "DecTracer.__exit__", sets, "leaving a tracer ends tracing")
    for e, s, v in r.ends:
        ctx.check("switch", "DecTracer.__exit__", falsy(v), "leaving a tracer swallows no exception", e)
    # the other tracer
    r = ctx.run("SysTracer", "__exit__", opaque=VB, tag=("c21",))
    sets = [n for n in r.nodes if n.kind == "call" and n.d["name"] == "sys.settrace" and n.d["args"] and is_const(n.d["args"][0], None)]
    must(ctx, r, "switch", "SysTracer.__exit__", sets, "leaving a tracer ends tracing")
    for e, s, v in r.ends:
        ctx.check("switch", "SysTracer.__exit__", falsy(v), "leaving a tracer swallows no exception", e)
    r = ctx.run("SysTracer", "set_active_trace_obj", opaque=VB, tag=("c21",))
    sets = [n for n in r.nodes if n.kind == "call" and n.d["name"] == "sys.settrace" and n.d["args"] and n.d["args"][0] is r.P["trace_obj"]]
    must(ctx, r, "switch", "SysTracer.set_active_trace_obj", sets, "the tracer given is the active one from then on")
    r = ctx.run("SysTracer", "get_active_trace_obj", opaque=VB, tag=("c21",))
    for e, s, v in r.ends:
        ctx.check("switch", "SysTracer.get_active_trace_obj", is_call(v, "sys.gettrace"), "the active tracer is the one set", e)
    r = ctx.run("SysTracer", "__enter__", opaque=VB, tag=("c21",))
    sets = [n for n in r.nodes if n.kind == "call" and n.d["name"] == "sys.settrace" and n.d["args"] and n.d["args"][0].op == "closure"]
    must(ctx, r, "switch", "SysTracer.__enter__", sets, "entering a tracer starts tracing")
    cur = {n.d["result"] for n in calls_to(r, "sys.gettrace")}
    p = r.path([n.id for n in r.nodes if none_test(n, cur) == -1], [n.id for n in sets])
    ctx.check("switch", "SysTracer.__enter__", bool(cur) and p is None, "no tracer takes the place of an active one", r.it.entry, show_path(p))


def falsy(v):
    return all(is_const(x, None) or is_const(x, False) for x in alts(v))


def suspended(ctx):
    """Storage's own work does not appear in the trace of an execution that calls memoized functions"""
    q = [f for f in ctx.prog.functions.values() if f.cls is not None and f.cls.name == "Storage" and f.name == "_suspended_tracing"]
    where = "Storage.call[traced]"
    r = ctx.run("Storage", "call", opaque=op_names("boundargs_to_args_kwargs", "parse_args", "unwrap", "call_internal", "save_call", "from_annotation", "get_active_trace_obj", "set_active_trace_obj",
                                                   "register_leaf_event", "get_dep_key_from_func", "get_ordered_outputs"), attrs_=attrs(versioned=True, mode="run"),
                may_raise=lambda n: ["?"] if n.kind == "call" and short(n.d["name"] or "") in ("call_internal", "parse_args", "save_call", "unwrap") else None)
    act = {n.d["result"] for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "get_active_trace_obj"}
    sets = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "set_active_trace_obj"]
    off = [n for n in sets if is_const(r.snap(n, (list(n.d["args"]) + list(n.d["kwargs"].values()))[0]), None)]
    on = [n for n in sets if r.snap(n, (list(n.d["args"]) + list(n.d["kwargs"].values()))[0]) in act]
    ctx.minimum("suspended", where, len(off), 1, "suspensions")
    ctx.minimum("suspended", where, len(on), 1, "resumptions")
    ctx.check("suspended", where, len(off) + len(on) == len(sets), "tracing is suspended, or resumed with the trace that was active", r.it.entry)
    none = [n.id for n in r.nodes if none_test(n, act) == 1]
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    p = r.path([r.it.entry.id], [n.id for n in ci], avoid=[n.id for n in off] + none)
    ctx.check("suspended", where, p is None, "a memoized call inside a traced execution is not itself traced into it", r.it.entry, show_path(p))
    outs = ends(r) + [n.id for n, _, _ in r.rends]
    p = r.path([s for n in off for s in after_ok(r, n)], outs, avoid=[n.id for n in on])
    ctx.check("suspended", where, p is None, "however a memoized call ends, the trace around it goes on", off[0] if off else r.it.entry, show_path(p))


# ---------------------------------------------------------------- what is traced
def modules(ctx):
    q = "mandala.deps.tracers.tracer_base."
    r = ctx.run(None, q + "get_module_flow", opaque=VB, tag=("c21",), may_raise=lambda n: ["ModuleNotFoundError", "TypeError"] if n.kind == "call" and short(n.d["name"] or "") in ("import_module", "getfile") else None)
    where = "get_module_flow"
    name, paths = r.P["module_name"], r.P["paths"]
    main = [c for c in conds(r) if c.op == "op" and c.args[0] == "eq" and name in c.args and const("__main__") in c.args]
    inside = [c for c in conds(r) if any(x is paths for x in subterms(c)) and c not in main]
    mandala = [c for c in conds(r) if is_call(strip_truth(c)) and short(strip_truth(c).args[0]) == "startswith"]
    ctx.minimum("modules", where, len(main), 1, "tests for the main module")
    ctx.minimum("modules", where, len(inside), 1, "tests whether a module is in the traced paths")

    def outcomes(facts, raises=False):
        rr = ctx.run(None, q + "get_module_flow", opaque=VB, setup=preset(facts=facts))
        return {const_val(x) for e, s, v in rr.ends for x in alts(v)}
    nn = {(mk("op", "isnone", name), False)}
    ctx.check("modules", where, outcomes(nn | {(c, True) for c in main}) == {"keep"}, "the main module is traced", r.it.entry)
    # in the paths: a file under a path or a path itself
    quant = [c for c in inside if strip_truth(c).op == "op" and strip_truth(c).args[0] in ("any", "all")]
    member = [c for c in inside if c.op == "op" and c.args[0] == "in" and c.args[2] is paths]
    notmain = nn | {(c, False) for c in main}
    for some in ([(c, True) for c in quant], [(c, True) for c in member]):
        if ctx.check("modules", where, bool(some), "both files under a path and paths themselves are looked for", r.it.entry):
            got = outcomes(notmain | set(some) | {(c, False) for c in mandala})
            ctx.check("modules", where, got == {"keep"}, f"a module in the paths is traced (found {sorted(map(str, got))})", r.it.entry)
    got = outcomes(notmain | {(c, False) for c in quant + member})
    ctx.check("modules", where, got == {"break"}, "modules outside the paths are not", r.it.entry)
    for c in quant:
        t = strip_truth(c)
        cv = coverage(t.args[1])
        ok = t.args[0] == "any" and any(list(x.bases) == [paths] and not x.guards and x.val.op == "op" and x.val.args[0] == "in" and x.val.args[1] is mk("elem", paths) for x in cv)
        ctx.check("modules", where, ok, "a module is in the paths when its file is below one of them", r.it.entry)
    # owned objects
    rr = ctx.run("DecTracer", "is_owned_obj", opaque=op_names("get_module_flow", base=VB), setup=preset(*OWN))
    o = rr.P["obj"]
    for n in calls_to(rr, "get_module_flow"):
        ctx.check("modules", "DecTracer.is_owned_obj", barg(rr, n, "module_name") is mk("attr", o, "__module__") and barg(rr, n, "paths") is mk("attr", SELF, "paths"), "whose code an object is follows from its module and the paths traced", n)
    for e, s, v in rr.ends:
        ok = v.op == "op" and v.args[0] == "eq" and const("keep") in v.args and any(is_call(x) and short(x.args[0]) == "get_module_flow" for x in v.args[1:])
        ctx.check("modules", "DecTracer.is_owned_obj", ok, "the traced code is the code that is traced", e)


def conds(r):
    return list({n.cond: 1 for n in r.nodes if n.kind == "assume"})


def closures(ctx):
    r = ctx.run(None, "mandala.deps.tracers.tracer_base.get_closure_names", opaque=VB, tag=("c21",))
    where = "get_closure_names"
    free = mk("attr", r.P["code_obj"], "co_freevars")
    for e, s, v in r.ends:
        for t, fs in picked(r, r.it.snap(s, v)):
            for a in alts(t):
                ok = strip(a) is free or any(list(c.bases) == [free] and c.val is mk("elem", free) and
                                             all(g.op == "op" and g.args[0] == "eq" and not p and const("__class__") in g.args and mk("elem", free) in g.args for g, p in c.guards) for c in coverage(a))
                ctx.check("closures", where, ok, "every variable of an enclosing function is found, but the class of a method", e)


def names(ctx):
    r = ctx.run(None, "mandala.deps.utils.get_global_names_candidates", opaque=VB, tag=("c21",))
    where = "get_global_names_candidates"
    code = r.P["code"]
    for e, s, v in r.ends:
        cs = coverage(r.it.snap(s, v))
        ins = lambda b: is_call(b) and short(b.args[0]) == "get_instructions" and cargs(b)[0] is code
        lg = [c for c in cs if len(c.bases) == 1 and ins(c.bases[0]) and c.val is mk("attr", mk("elem", c.bases[0]), "argval") and
              all(p and g.op == "op" and g.args[0] in ("eq", "in") and mk("attr", mk("elem", c.bases[0]), "opname") in g.args and any(is_const(x, "LOAD_GLOBAL") for x in subterms(g)) or
                  g.op == "op" and g.args[0] == "isinstance" and not p for g, p in c.guards)]
        ctx.check("names", where, bool(lg), "every name a function loads from its globals is a candidate", e)
        rec = [c for c in cs if any(is_call(b) and short(b.args[0]) == "get_global_names_candidates" and any(ins(x) for x in subterms(b)) for b in c.bases) and c.val.op in ("elem", "val") and
               all(g.op == "op" and g.args[0] == "isinstance" and p or g.op == "op" and g.args[0] in ("eq", "in") for g, p in c.guards)]
        ctx.check("names", where, bool(rec), "and so are those of the code nested in it", e)
    for b in r.nodes:
        if b.kind in ("break", "loopret"):
            ctx.bad("names", where, "every instruction is looked at", b)


def made(ctx):
    V = mk("param", "self")
    fields = ("paths", "strict", "allow_methods", "track_globals", "skip_unhashable_globals", "skip_globals_silently")
    r = ctx.run("Versioner", "make_tracer", opaque=VB, setup=preset(*[((V, f), mk("attr", V, f)) for f in fields + ("TracerCls",)]))
    where = "Versioner.make_tracer"
    mks = [n for n in r.nodes if n.kind in ("call", "new") and callee_term(n) is mk("attr", V, "TracerCls")]
    ctx.minimum("made", where, len(mks), 1, "tracers made")
    for n in mks:
        kw = n.d["kwargs"]
        for f in fields[1:]:
            ctx.check("made", where, kw.get(f) is not None and r.snap(n, kw[f]) is mk("attr", V, f), f"the tracer is made with the setting {f}", n)
        p = r.snap(n, kw["paths"]) if "paths" in kw else (r.snap(n, n.d["args"][0]) if n.d["args"] else NONE)
        ctx.check("made", where, any(x is mk("attr", V, "paths") for x in subterms(p)), "the tracer traces the paths of the versioner", n)
    for e, s, v in r.ends:
        ctx.check("made", where, all(x in {n.d["result"] for n in mks} for x in alts(v)), "the tracer made is handed out", e)
    for cls in ("DecTracer", "SysTracer"):
        r = ctx.run(cls, "__init__", opaque=VB, tag=("c21",))
        for e, s, v in r.ends:
            for f in fields:
                x = s.heap.get((r.P["self"], f))
                ctx.check("made", f"{cls}.__init__", x is r.P[f], f"a tracer keeps its setting {f}", e)
            st = s.heap.get((r.P["self"], "call_stack"))
            ctx.check("made", f"{cls}.__init__", st is not None and not coverage(r.it.snap(s, st)), "no call is open at first", e)
            g = s.heap.get((r.P["self"], "graph"))
            ctx.check("made", f"{cls}.__init__", g is not None and all(x is r.P["graph"] or x.op == "obj" for x in alts(g)), "the trace starts with the graph given, or an empty one", e)


def callee_term(n):
    res = n.d.get("result")
    if n.d.get("name") == "apply" and res is not None and is_call(res, "apply") and cargs(res):
        return cargs(res)[0]
    if str(n.d.get("name", "")).startswith(".") and n.d.get("recv") is not None:
        return mk("attr", n.d["recv"], n.d["name"][1:])
    return n.d.get("func")


# ---------------------------------------------------------------- the frame-based tracer
def frame_run(ctx, facts=(), raises=False):
    fr, ev = mk("param", "frame"), mk("param", "event")

    def after(it, s, v):
        out = []
        for m in list(it.nodes):
            if m.kind == "call" and m.d["name"] == "sys.settrace" and m.d["args"] and m.d["args"][0].op == "closure":
                out += it.call_value(s, m.d["args"][0], [fr, ev, mk("param", "arg")], {}, it.prog.functions[DI + "track"].node, [])
        return out
    return tracer_run(ctx, "SysTracer", "__enter__", op_names(*LEAFS, base=VB), facts=facts, after=after,
                      **({"may_raise": lambda n: ["?"] if n.kind == "call" and n.d["name"] == "importlib.import_module" else None} if raises else {}))


def sys_tracer(ctx):
    fr, ev = mk("param", "frame"), mk("param", "event")
    code = mk("attr", fr, "f_code")
    name = mk("attr", code, "co_name")
    glob = mk("attr", fr, "f_globals")
    where = "SysTracer.tracer"
    r0 = frame_run(ctx, raises=True)
    flows = {n.d["result"] for n in calls_to(r0, "get_module_flow")}
    cs = conds(r0)
    evs = lambda v: frozenset((c, const(v) in c.args) for c in cs if c.op == "op" and c.args[0] == "eq" and ev in c.args)
    keep = frozenset((c, const("keep") in c.args) for c in cs if c.op == "op" and c.args[0] == "eq" and any(x in flows for x in c.args[1:]))
    leaf = lambda p: frozenset((c, p) for c in cs if c.op == "op" and c.args[0] == "eq" and name in c.args and const("leaf_signal") in c.args)
    skip = lambda p: frozenset((c, p) for c in cs if c.op == "op" and c.args[0] == "in" and c.args[1] is name)
    ctx.minimum("frames", where, len(skip(True)), 1, "tests for comprehensions and lambdas")
    ctx.minimum("frames", where, len(leaf(True)), 1, "tests for memoized calls")
    ctx.minimum("frames", where, len(flows), 1, "tests whether the module is traced")
    ctx.check("frames", where, skip_frames(ctx), "comprehensions and lambdas, and nothing else, are part of the function around them", r0.it.entry)
    for n in calls_to(r0, "get_module_flow"):
        ctx.check("frames", where, ismod(barg(r0, n, "module_name"), glob) and barg(r0, n, "paths") is mk("attr", SELF, "paths"), "a frame is traced as its module is", n)
    plain_ = evs("call") | keep | leaf(False)
    foreign = lambda r: [n.id for n in r.nodes if n.kind == "assume" and not n.pol and (any(x is mk("attr", SELF, "path_strs") for x in subterms(n.cond)) or
                                                                                     n.cond.op == "op" and n.cond.args[0] == "eq" and const("__main__") in n.cond.args)]
    for isskip in (False, True):
        r = frame_run(ctx, plain_ | skip(isskip), raises=True)
        w = f"{where}[{'comprehension' if isskip else 'function'}]"
        legit = foreign(r)
        recent = lambda t: all(is_recent(x, r) for x in alts(t))
        gl = global_nodes(ctx, r, w, lambda t: ismod(t, glob), lambda t: from_candidates(t, code), lambda t: t.op == "sub" and t.args[0] is glob and from_candidates(t.args[1], code) or
                          is_call(t) and short(t.args[0]) == "get" and cargs(t)[0] is glob and from_candidates(cargs(t)[1], code))
        if not isskip:
            node = callable_node(ctx, r, w, mk("call", ".get", glob, const("__name__")), lambda t: is_call(t) and short(t.args[0]) == "get_func_qualname", lambda t: t is code)
            for n in calls_to(r, "get_func_qualname"):
                ctx.check("frames", w, barg(r, n, "code") is code and barg(r, n, "func_name") is name and barg(r, n, "frame") is fr, "the name recorded is that of the frame's function", n)
            isn = lambda t: all(x in node for x in alts(t))
            adds = [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_node") if n.d["recv"] is GRAPH and isn(barg(r, n, "node"))]
            must(ctx, r, "frames", w, adds, "the function called is a node of the graph", legit=legit)
            es = edges(r, recent, isn)
            none = [n.id for n in r.nodes if size(n) == (0, 0)] + none_of(r, es) + exhausted(r)
            must(ctx, r, "frames", w, es, "every call but the outermost has an edge from its caller", legit=legit + none)
            push = pushes(r, isn)
            before = r.reach([r.it.entry.id], avoid=[n.id for n in push])
            roots = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("add", "update") and r.snap(n, n.d["target"]) is mk("attr", GRAPH, "roots")]
            for n in roots:
                guard = [m.id for m in r.nodes if size(m) and size(m)[1] is not None and size(m)[1] <= (0 if m.id in before else 1)]
                p = r.path([r.it.entry.id], [n.id], avoid=guard)
                ctx.check("frames", w, p is None, "only the outermost call is a root", n, show_path(p))
            not_one = [n.id for n in r.nodes if n.kind == "assume" and not n.pol and n.cond.op == "op" and n.cond.args[0] == "eq" and
                       any(is_call(a, "len") and cargs(a)[0] is STACK for a in n.cond.args[1:]) and const(1 if n.id not in before else 0) in n.cond.args]
            more = [n.id for n in r.nodes if size(n) and (size(n)[0] or 0) >= (1 if n.id in before else 2)]
            must(ctx, r, "frames", w, roots, "the outermost call is the root of the trace", legit=legit + more + not_one)
            src = isn
        else:
            push = pushes(r, lambda t: t is name)
            src = recent
        must(ctx, r, "frames", w, push, "a traced frame becomes the innermost open call", legit=legit)
        ctx.check("frames", w, not [n for n in stack_muts(r) if n not in push], "and the calls around it stay open", r.it.entry)
        ge = [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_edge") if n.d["recv"] is GRAPH and src(r.snap(n, barg(r, n, "source"))) and
              any(x in gl or (x.op in ("elem", "val") and any(y in gl for y in subterms(r.snap(n, x.args[0])))) for x in subterms(r.snap(n, barg(r, n, "target"))))]
        # every candidate that is a global value
        collected(ctx, r, w, ge, gl, glob, code, legit)
        for e, s, v in r.ends:
            pass
        traced_ends = [e for e, s, v in r.ends if any(x.op == "closure" for x in alts(v))]
        p = r.path([s for n in push for s in after_ok(r, n)], ends(r), avoid=[n.id for n in r.nodes if n.kind == "enter" and False])
        bad = [e for e, s, v in r.ends if not any(x.op == "closure" for x in alts(v)) and r.path([s2 for n in push for s2 in after_ok(r, n)], [e.id])]
        ctx.check("frames", w, not bad and bool(traced_ends), "the return of a traced frame is seen", bad[0] if bad else r.it.entry)
    # memoized calls
    r = frame_run(ctx, evs("call") | keep | leaf(True))
    data = mk("sub", mk("attr", fr, "f_locals"), const("data"))
    w = f"{where}[memoized call]"
    nodes = terminal(ctx, r, w, data, lambda t: True)
    es = [n for n in calls_to(r, "mandala.deps.model.DependencyGraph.add_edge") if n.d["recv"] is GRAPH and all(is_recent(x, r) for x in alts(r.snap(n, barg(r, n, "source")))) and barg_raw(n, "target") in nodes]
    none = [n.id for n in r.nodes if size(n) == (0, 0)] + none_of(r, es) + exhausted(r)
    must(ctx, r, "leaves", w, es, "a memoized call is recorded as made by the innermost open call", legit=foreign(r) + none)
    ctx.check("leaves", w, not stack_muts(r), "and does not become an open call", r.it.entry)
    rl = ctx.run("SysTracer", "register_leaf_event", opaque=op_names("leaf_signal", base=VB), tag=("c21",))
    sig = calls_to(rl, "leaf_signal")
    must(ctx, rl, "leaves", "SysTracer.register_leaf_event", sig, "a memoized call is made known to the tracer")
    for n in sig:
        ctx.check("leaves", "SysTracer.register_leaf_event", rl.P["data"] in list(n.d["args"]) + list(n.d["kwargs"].values()), "with its data", n)
    # returns
    r = frame_run(ctx, evs("return"))
    w = f"{where}[return]"
    pops = stack_muts(r)
    for n in pops:
        ctx.check("frames", w, n.kind == "mut" and n.d["how"] == "pop" and (not n.d["args"] or is_const(n.d["args"][0], -1)), "what a return closes is the innermost open call", n)
    must(ctx, r, "frames", w, pops, "the return of a traced frame closes it", legit=[n.id for n in r.nodes if size(n) == (0, 0)])
    once(ctx, r, w, pops, "a return closes one call")
    # what is not traced
    for v in ("break", "continue"):
        r = frame_run(ctx, evs("call") | leaf(False) | frozenset((c, const(v) in c.args) for c, _ in keep))
        w = f"{where}[not traced]"
        ctx.check("frames", w, not stack_muts(r) and not calls_to(r, "mandala.deps.model.DependencyGraph.add_node", "mandala.deps.model.DependencyGraph.add_edge"), "frames of other modules leave no mark", r.it.entry)
    # the most recent call
    r = tracer_run(ctx, "SysTracer", "find_most_recent_call", VB)
    w = "SysTracer.find_most_recent_call"
    vals = [x for e, s, v in r.ends for x in alts(v) if not is_const(x, None)]
    ctx.minimum("frames", w, len(vals), 1, "answers")
    for x in vals:
        ctx.check("frames", w, is_recent(x, r), "the caller is the innermost open call that is a function", r.it.entry)
    legit = [n.id for n in r.nodes if size(n) == (0, 0)]
    for n in r.nodes:
        if n.kind == "loopret":
            p = r.path([m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == n.d["head"]], [n.id],
                       avoid=[m.id for m in r.nodes if m.kind == "assume" and m.pol and m.cond.op == "op" and m.cond.args[0] == "isinstance" and is_recent(m.cond.args[1], r)])
            ctx.check("frames", w, p is None, "the search ends with a function", n, show_path(p))
            q = r.path([m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == n.d["head"]], [n.d["head"]],
                       avoid=[m.id for m in r.nodes if m.kind == "assume" and not m.pol and m.cond.op == "op" and m.cond.args[0] == "isinstance" and is_recent(m.cond.args[1], r)])
            ctx.check("frames", w, q is None, "and passes over nothing else than comprehensions and lambdas", n, show_path(q))


def is_recent(x, r):
    """the innermost element of the stack in a backwards search"""
    if x.op == "sub" and x.args[0] is STACK:
        i = x.args[1]
        if i.op == "index" and is_call(i.args[0], "range"):
            a = cargs(i.args[0])
            return len(a) == 3 and is_const(a[1], -1) and is_const(a[2], -1) and a[0].op == "op" and a[0].args[0] == "sub" and is_call(a[0].args[1], "len") and cargs(a[0].args[1])[0] is STACK and is_const(a[0].args[2], 1)
        return False
    if x.op in ("elem", "val"):
        b = x.args[0]
        if b is STACK:
            heads = [l for l in r.nodes if l.kind == "loop" and l.d.get("siter") is not None and any(y is STACK for y in subterms(l.d["siter"]))]
            return bool(heads) and all(is_call(l.d["siter"], "reversed") for l in heads)
        return is_call(b, "reversed") and cargs(b)[0] is STACK or b.op == "sub" and b.args[0] is STACK and backwards(b.args[1])
    return False


def backwards(i):
    return any(is_const(x, -1) for x in subterms(i))


def exhausted(r):
    """the search for the most recent call found none"""
    out = []
    for l in r.nodes:
        if l.kind == "loop" and l.d.get("siter") is not None and any(x is STACK for x in subterms(l.d["siter"])):
            out += [n.id for n in r.nodes if n.kind == "endloop" and n.d["head"] == l.id]
    return out


def ismod(t, glob):
    return all(is_call(x, ".get") and cargs(x)[0] is glob and is_const(cargs(x)[1], "__name__") or x.op == "sub" and x.args[0] is glob and is_const(x.args[1], "__name__") for x in alts(t))


def from_candidates(t, code):
    for x in alts(t):
        if x.op != "elem":
            return False
        b = strip(x.args[0])
        if is_call(b) and short(b.args[0]) == "get_global_names_candidates":
            if cargs(strip_kw(b))[0] is not code:
                return False
        elif b.op not in ("list", "obj", "dict", "tuple", "items") or coverage(b):
            return False
    return True


def skip_frames(ctx):
    import ast as _a
    m = ctx.prog.modules["mandala.deps.tracers.sys_impl"]
    tree = getattr(m, "tree", None) or getattr(m, "node", None)
    consts = {x.value for n in tree.body if isinstance(n, _a.Assign) for x in _a.walk(n.value) if isinstance(x, _a.Constant) and isinstance(x.value, str) and x.value.startswith("<")}
    return consts == {"<lambda>", "<listcomp>", "<dictcomp>", "<setcomp>", "<genexpr>"}


def collected(ctx, r, w, ge, gl, glob, code, legit):
    """every name read that is a global value ends up with an edge"""
    ctx.minimum("frames", w, len(ge), 1, "edges to globals")
    cands = {n.d["result"] for n in calls_to(r, "get_global_names_candidates")}
    ctx.minimum("frames", w, len(cands), 1, "looks for globals")
    off = [n.id for n in r.nodes if n.kind == "assume" and not n.pol and n.cond.op == "op" and n.cond.args[0] == "truth" and n.cond.args[1] is mk("attr", SELF, "track_globals")]
    is_c = lambda b: b in cands
    skips = []
    for n in r.nodes:
        if n.kind != "assume" or n.pol:
            continue
        c = strip_truth(n.cond)
        if c.op == "op" and c.args[0] == "in" and c.args[2] is glob and from_candidates(c.args[1], code):
            skips.append(n.id)
        if is_call(c) and short(c.args[0]) == "is_global_val":
            skips.append(n.id)
    made = calls_to(r, "mandala.deps.model.GlobalVarNode.from_obj")
    direct = [n for n in ge if barg_raw(n, "target") in gl]
    if direct:
        each(ctx, r, "frames", w, is_c, [n.id for n in direct], "every global value the code reads gets an edge", legit=skips, always=False, what="the names read")
        return
    # collected first, then an edge each
    apps = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("append", "add") and any(r.snap(n, a) in gl for a in n.d["args"])]
    each(ctx, r, "frames", w, is_c, [n.id for n in apps], "every global value the code reads is collected", legit=skips, always=False, what="the names read")
    lists = {n.d["target"] for n in apps}
    heads = []
    for n in ge:
        for l in r.nodes:
            if l.kind == "loop" and l.d.get("siter") is not None and l.d.get("iter", l.d["siter"]) is not None and n.id in r.reach([m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id], avoid=[l.id]):
                if any(x in gl for x in subterms(r.snap(l, l.d["siter"]))):
                    heads.append(l.id)
                    its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
                    p = r.path(its, [b for b in r.nodes[l.id].preds if b >= l.id], avoid=[x.id for x in ge])
                    ctx.check("frames", w, p is None, "every global value collected gets an edge", l, show_path(p))
                    for b in r.nodes:
                        if b.kind in ("break", "loopret") and b.d["head"] == l.id:
                            ctx.bad("frames", w, "every global value collected gets an edge", b)
    ctx.minimum("frames", w, len(heads), 1, "loops over the globals collected")
    p = r.path([n.id for n in r.nodes if n.kind == "endloop" and any(x in cands for x in subterms(r.nodes[n.d["head"]].d["siter"]))], ends(r), avoid=heads)
    ctx.check("frames", w, p is None, "every global value collected gets an edge", r.it.entry, show_path(p))
    p = r.path([r.it.entry.id], ends(r), avoid=[n.id for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and any(x in cands for x in subterms(n.d["siter"]))] + off + legit)
    ctx.check("frames", w, p is None, "the globals the code reads are looked for", r.it.entry, show_path(p))
