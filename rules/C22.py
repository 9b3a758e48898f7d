"""The state of the code a versioned session works with is the current one."""
from .common import *
from .C21 import must, preset, conds, strip_truth, ends
from .C19 import with_class

EXPLANATION = (
    "Coverage, value-flow and path analysis of how the current state of the code is found: known components loaded again and described from what was loaded (per class of component), the crawl of the modules under the "
    "dependency path, of their functions and of their classes, and the descriptions of functions and of the values of globals, with what happens when something cannot be found, read, imported or hashed."
)
ASSUMPTIONS = [
    "importlib.import_module, inspect.getsource, dis.get_instructions and pathlib do what they say; inspect.getsource reads the source as it is now",
    "equal content hashes mean equal contents",
]
VB = lambda f: False
MD = "mandala.deps.model."


def check(ctx):
    for c in ("CallableNode", "GlobalVarNode"):
        for rooted in (True, False):
            state(ctx, c, rooted)
    for case in ("none", "dir", "dir-package", "file"):
        for strict in (True, False):
            crawl(ctx, case, strict)
    objects(ctx)
    extraction(ctx)
    loading(ctx)
    fallback(ctx)
    functions(ctx)
    source(ctx)
    values(ctx)
    bytecode(ctx)


isnone = lambda t: mk("op", "isnone", t)
truth = lambda t: mk("op", "truth", t)


def isinst(t, c):
    return mk("op", "isinstance", t, mk("class", c) if c == "Ref" else mk("global", c) if "." in c else mk("builtin", c))



def qual(t, *names):
    return is_call(t) and any(t.args[0] == n or t.args[0].endswith("." + n) for n in names)


def kwarg(ctx, t, name):
    """argument `name` of the call term t of a function without receiver, or its constant default"""
    f = ctx.prog.functions.get(t.args[0])
    if f is None:
        return NONE
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    plain_ = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
    for x in t.args[1:]:
        if isinstance(x, T) and x.op == "kw" and x.args[0] == name:
            return x.args[1]
    if name in pos and pos.index(name) < len(plain_):
        return plain_[pos.index(name)]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)).get(name)
    return const(d.value) if isinstance(d, ast.Constant) else NONE


# ---------------------------------------------------------------- the code state
OPQ = op_names("load_obj", "crawl_static", "CallableNode.from_obj", "GlobalVarNode.from_obj", base=VB)


def state(ctx, cls, rooted):
    where = f"Versioner.guess_code_state[{cls}{'' if rooted else ', no path'}]"
    V = mk("param", "self")
    FIELDS = ("skip_missing_deps", "skip_missing_silently", "skip_unhashable_globals", "skip_globals_silently", "paths", "strict", "package_name", "allow_methods")
    TOP = mk("attr", V, "global_topology")
    NODES = mk("attr", TOP, "nodes")

    def setup(it, st):
        for f in FIELDS + ("global_topology",):
            st.heap[(V, f)] = mk("attr", V, f)
        st.heap[(TOP, "nodes")] = NODES
        it.hints[TOP] = "DependencyGraph"
        with_class(mk("val", NODES), cls)(it, st)
        st.facts = st.facts | {(isnone(paths), False), (truth(paths), rooted), (mk("op", "eq", const(0), mk("call", "len", paths)), not rooted), (mk("op", "eq", mk("call", "len", paths), const(0)), not rooted)}
    paths = mk("attr", V, "paths")
    r = ctx.run("Versioner", "guess_code_state", opaque=OPQ, setup=setup)
    key, val = mk("key", NODES), mk("val", NODES)
    statics = calls_to(r, "crawl_static")
    stat = {n.d["result"] for n in statics}
    ctx.minimum("code-state", where, len(r.ends), 1, "results")
    # what the settings are for each call
    for n in calls_to(r, "load_obj"):
        for p, f in (("skip_missing", "skip_missing_deps"), ("skip_silently", "skip_missing_silently")):
            ctx.check("code-state", where, given(ctx, r, n, p) is mk("attr", V, f), f"a component which is gone is treated as configured ({f})", n)
    made = calls_to(r, cls + ".from_obj", MD + cls + ".from_obj")
    ctx.minimum("code-state", where, len(made), 1, "nodes made from what was loaded")
    loaded = {n.d["result"] for n in calls_to(r, "load_obj") if n.d["recv"] is not None and n.d["recv"] is val}
    good = set()
    for n in made:
        ok = ctx.check("code-state", where, barg(r, n, "obj") in loaded, "a component is described from what its module holds now", n)
        ok &= ctx.check("code-state", where, barg(r, n, "dep_key") in (key, mk("attr", val, "key")), "and under its own name", n)
        if cls == "GlobalVarNode":
            for p, f in (("skip_unhashable", "skip_unhashable_globals"), ("skip_silently", "skip_globals_silently")):
                ctx.check("code-state", where, given(ctx, r, n, p) is mk("attr", V, f), f"a value which cannot be hashed is treated as configured ({f})", n)
        if ok:
            good.add(n.d["result"])
    for e, s, v in r.ends:
        for o in alts(v):
            nodes = s.heap.get((o, "nodes"))
            if not ctx.check("code-state", where, nodes is not None and o.op == "obj", "the result is a state of its own", e):
                continue
            cs = coverage(r.it.snap(s, nodes))
            free = lambda c: all(member(g, p, c.key) or g.op == "op" and g.args[0] == "isinstance" and g.args[1] is val for g, p in c.guards)
            ctx.check("code-state", where, any(c.key is key and c.val in good and c.bases == (NODES,) and free(c) for c in cs), "every known component is in it", e)
            ctx.check("code-state", where, any(c.bases and len(c.bases) == 1 and c.bases[0].op == "sub" and c.bases[0].args[0] in stat and is_const(c.bases[0].args[1], 0) and
                                               c.val is mk("val", c.bases[0]) and c.key is mk("key", c.bases[0]) and free(c)
                                               for c in cs), "and every function found by crawling", e)
            for c in cs:
                ctx.check("code-state", where, all(x in good or any(u in stat for u in subterms(x)) for x in alts(c.val)), "and nothing from the past", e)
    for b in r.nodes:
        if b.kind in ("break", "loopret"):
            ctx.bad("code-state", where, "every component is considered", b)
    # the crawl
    ctx.minimum("code-state", where, len(statics), 1, "crawls")
    p = r.path([r.it.entry.id], ends(r), avoid=[n.id for n in statics])
    ctx.check("code-state", where, p is None, "the modules are crawled every time", statics[0] if statics else r.it.entry, show_path(p))
    for n in statics:
        for p_, f in (("strict", "strict"), ("package_name", "package_name"), ("include_methods", "allow_methods")):
            ctx.check("crawl-settings", where, given(ctx, r, n, p_) is mk("attr", V, f), f"the crawl obeys {f}", n)
        root = given(ctx, r, n, "root")
        for a in alts(root):
            ctx.check("crawl-settings", where, a is mk("sub", paths, const(0)) if rooted else is_const(a, None), "the crawl starts at the dependency path", n)


def member(g, p, key):
    """'not there already'"""
    return g.op == "op" and g.args[0] == "widened" and not p and g.args[1] == "in" or g.op == "op" and g.args[0] == "in" and not p and (g.args[1] is key or key in alts(g.args[1])) and g.args[2].op in ("items", "obj", "phi")


# ---------------------------------------------------------------- the crawl
ROOT, PKG = mk("param", "root"), mk("param", "package_name")


def crawl(ctx, case, strict):
    where = f"crawl_static[{case}{', strict' if strict else ''}]"
    facts = [(isnone(ROOT), case == "none"), (truth(ROOT), case != "none"), (truth(mk("param", "strict")), strict), (mk("param", "strict"), strict),
             (mk("op", "eq", ROOT, const("__main__")), False), (mk("op", "eq", const("__main__"), ROOT), False)]
    if case != "none":
        facts += [(truth(mk("call", ".is_file", ROOT)), case == "file"), (truth(mk("call", ".is_dir", ROOT)), case != "file"),
                  (isnone(PKG), case == "dir"), (truth(PKG), case != "dir")]
    r = ctx.run(None, "mandala.deps.crawler.crawl_static", opaque=op_names("crawl_obj", base=VB), setup=preset(facts=facts),
                may_raise=lambda n: ["?"] if n.kind == "call" and short(n.d["name"] or "") == "import_module" else None)
    imports = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "import_module"]
    MAIN = const("__main__")
    names_of = lambda n: alts(r.snap(n, n.d["args"][0])) if n.d["args"] else []
    main = [n for n in imports if MAIN in names_of(n)]
    p = r.path([r.it.entry.id], ends(r), avoid=[n.id for n in loops_with(r, MAIN)] + [n.id for n in main])
    ctx.check("crawl", where, bool(main) and p is None, "the main module is crawled", r.it.entry, show_path(p))
    # which files
    files = None
    if case.startswith("dir"):
        files = [b for l in r.nodes if l.kind == "loop" and l.d.get("siter") is not None for b in loop_bases(r, l) if every_file(b)]
        ctx.check("crawl", where, bool(files), "every python file below the dependency path is crawled", r.it.entry)
    elif case == "file":
        files = [ROOT]
    heads = []
    if files:
        for l in r.nodes:
            if l.kind != "loop" or l.d.get("siter") is None:
                continue
            cs = coverage(r.snap(l, l.d["siter"]))
            for f in files:
                elem = ROOT if case == "file" else mk("elem", f)
                cov = [c for c in cs if c.val is elem and all(g.op == "op" and any(x is ROOT for x in subterms(g)) for g, p in c.guards) and (case == "file" or c.bases == (f,))]
                if not cov:
                    continue
                its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
                reach = r.reach(its, avoid=[l.id])
                mine = [n for n in imports if n.id in reach and any(any(u is elem or u is ROOT for u in subterms(x)) for x in names_of(n))]
                if not mine:
                    continue
                heads.append(l)
                legit = []
                for m in r.nodes:
                    if m.kind == "assume" and skippable(m, elem):
                        legit.append(m.id)
                main_side = [m.id for m in r.nodes if m.kind == "assume" and m.pol and m.cond.op == "op" and m.cond.args[0] in ("eq", "is") and MAIN in m.cond.args[1:] and
                             any(x is elem or elem in alts(x) for x in m.cond.args[1:])]
                p = r.path(its, [l.id] + ends(r), avoid=[n.id for n in mine] + legit + main_side)
                ctx.check("crawl", where, p is None, "only files called setup.py or console.py are left out", l, show_path(p))
                for b in r.nodes:
                    if b.kind in ("break", "loopret") and b.d["head"] == l.id:
                        ctx.bad("crawl", where, "every file is crawled", b)
                for n in mine:
                    module_names(ctx, r, where, case, n, names_of(n), elem)
        if case == "file" and not heads:
            mine = [n for n in imports if any(any(u is ROOT for u in subterms(x)) for x in names_of(n))]
            must(ctx, r, "crawl", where, mine, "only a file called setup.py or console.py is left out", legit=[m.id for m in r.nodes if m.kind == "assume" and skippable(m, ROOT)])
            for n in mine:
                module_names(ctx, r, where, case, n, names_of(n), ROOT)
            heads = mine
        ctx.check("crawl", where, bool(heads), "every python file below the dependency path is crawled", r.it.entry)
    # failures
    for n in imports:
        bad = [m.id for m in r.nodes if m.kind == "exc" and n.id in m.preds]
        if strict:
            p = r.path(bad, ends(r) + [m.id for m in imports])
            ctx.check("crawl-failure", where, bad and p is None, "a module which cannot be imported is an error when strict", n, show_path(p))
        else:
            p = r.path(bad, [e.id for e, _, _ in r.rends], avoid=[m.id for m in imports])
            ctx.check("crawl-failure", where, bad and p is None, "and only then", n, show_path(p))
    # contents
    returned = []
    for e, s, v in r.ends:
        for a in alts(v):
            if ctx.check("crawl-contents", where, a.op == "tuple" and len(a.args) == 2, "functions found and objects are returned", e):
                returned.append(a.args)
    crawls = calls_to(r, "crawl_obj")
    for n in imports:
        mod = n.d["result"]
        dicts = {mk("attr", mod, "__dict__"), mk("call", "vars", mod)}
        mine = [c for c in crawls if barg(r, c, "obj").op in ("val", "sub") and barg(r, c, "obj").args[0] in dicts]
        good = [m.id for m in r.nodes if m.kind == "ok" and n.id in m.preds]
        hs = each(ctx, r, "crawl-contents", where, lambda b: b in dicts, [c.id for c in mine], "everything in a module is looked at", always=False)
        if hs:
            outer = [l.id for l in r.nodes if l.kind == "loop" and l.id not in hs and n.id in r.reach([m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id], avoid=[l.id])]
            p = r.path(good, ends(r) + outer, avoid=hs)
            ctx.check("crawl-contents", where, p is None, "every module imported is crawled", n, show_path(p))
        for c in mine:
            ctx.check("crawl-contents", where, barg(r, c, "module_name") is r.snap(n, n.d["args"][0]), "under the name it was imported with", c)
            for f in ("strict", "include_methods"):
                ctx.check("crawl-contents", where, given(ctx, r, c, f) is r.P[f], f"as {f} says", c)
            for a in returned:
                ctx.check("crawl-contents", where, raw(c, "result") is a[0] and raw(c, "objs_result") is a[1], "what is found is returned", c)


def module_names(ctx, r, where, case, n, names, elem):
    for t in names:
        if t is const("__main__") or not any(u is elem for u in subterms(t)):
            continue
        if case != "file":
            init = [m for m in r.nodes if m.kind == "assume" and any(u.op == "const" and isinstance(u.args[0], str) and "__init__" in u.args[0] for u in subterms(m.cond))]
            own = any(u.op == "const" and isinstance(u.args[0], str) and "__init__" in u.args[0] for u in subterms(t))
            ctx.check("crawl", where, bool(init) or own, "the __init__.py of a package is imported as the package", n)
        if case == "file":
            ok = any(x.op == "attr" and x.args == (ROOT, "stem") or is_call(x) and short(x.args[0]) in ("with_suffix", "relative_to") for x in subterms(t))
        else:
            src = [x for x in subterms(t) if is_call(x) and short(x.args[0]) == "relative_to"]
            ok = bool(src) and all(len(cargs(x)) == 2 and cargs(x)[1] is ROOT for x in src)
        ctx.check("crawl", where, ok, "a file is imported under its name relative to the dependency path", n)
        if case != "dir":
            ctx.check("crawl", where, any(u is PKG for u in subterms(t)), "and to the package", n)


def raw(n, name):
    return (n.d.get("bound") or {}).get(name)


def every_file(b):
    b = strip(b)
    if is_call(b, ".rglob") and len(cargs(b)) == 2:
        return cargs(b)[0] is ROOT and is_const(cargs(b)[1], "*.py")
    if is_call(b, ".glob") and len(cargs(b)) == 2:
        return cargs(b)[0] is ROOT and is_const(cargs(b)[1], "**/*.py")
    return False


def loops_with(r, val):
    return [l for l in r.nodes if l.kind == "loop" and l.d.get("siter") is not None and
            any(c.val is val and all(g.op == "op" and any(x is ROOT for x in subterms(g)) for g, p in c.guards) for c in coverage(r.snap(l, l.d["siter"])))]


def skippable(m, elem):
    """a decision after which a file need not be imported: its name is setup.py or console.py, or there is no module it could be"""
    c = strip_truth(m.cond)
    name = mk("attr", elem, "name")
    if c.op == "op" and c.args[0] == "eq" and m.pol:
        xs = c.args[1:]
        if any(x is name or name in alts(x) for x in xs) and any(is_const(x, "setup.py") or is_const(x, "console.py") for x in xs):
            return True
        if any(is_const(x, "") for x in xs):
            return any(any(u is elem or u is ROOT for u in subterms(x)) for x in xs)
    if c.op == "op" and c.args[0] == "in" and m.pol and (c.args[1] is name or name in alts(c.args[1])):
        t = c.args[2]
        vs = [x.val for x in coverage(t)] if t.op == "items" else list(t.args) if t.op == "tuple" else []
        return bool(vs) and all(is_const(x, "setup.py") or is_const(x, "console.py") for x in vs)
    if not m.pol and c.op in ("sub", "call", "fstr") and is_split(c):
        return True
    return False


def is_split(c):
    return any(is_call(x) and short(x.args[0]) in ("rpartition", "rsplit", "split") for x in subterms(c))


# ---------------------------------------------------------------- objects of a module
def objects(ctx):
    OBJ, MOD, METH, STRICT = (mk("param", x) for x in ("obj", "module_name", "include_methods", "strict"))
    FN = "mandala.deps.crawler.crawl_obj"
    opq = op_names("is_callable_obj", "extract_func_obj", "unwrap_decorators", "CallableNode.from_obj", base=VB)
    for case in ("plain", "static", "class"):
        where = f"crawl_obj[{case}]"
        wrapped = case != "plain"
        facts = [(isinst(OBJ, "staticmethod"), case == "static"), (isinst(OBJ, "classmethod"), case == "class")]
        o = mk("attr", OBJ, "__func__") if wrapped else OBJ
        for sub in ("function", "class") if not wrapped else ("function",):
            is_type = sub == "class"
            w = f"{where}[{sub}]"
            r = ctx.run(None, FN, opaque=opq, setup=preset(facts=facts + [(isinst(o, "type"), is_type)]))
            # the function
            tests = [n for n in calls_to(r, "is_callable_obj")]
            vs = {n.d["result"] for n in calls_to(r, "extract_func_obj") if barg(r, n, "obj") is o and given(ctx, r, n, "strict") is STRICT}
            for n in tests:
                ctx.check("crawl-object", w, barg(r, n, "obj") is o and given(ctx, r, n, "strict") is STRICT, "what is called like a function is found", n)
            callable_ = {n.d["result"] for n in tests}
            legit = []
            for m in r.nodes:
                if m.kind != "assume":
                    continue
                c, p = strip_truth(m.cond), m.pol
                if c in callable_ and not p:
                    legit.append(m.id)
                if c.op == "op" and c.args[0] == "isinstance" and p and is_call(c.args[1]) and short(c.args[1].args[0]) == "unwrap_decorators" and cargs(c.args[1])[0] is o and "Builtin" in show(c.args[2], 3):
                    legit.append(m.id)
                if c.op == "op" and c.args[0] == "eq" and not p and MOD in c.args[1:] and any(mk("attr", v, "__module__") in c.args[1:] for v in vs):
                    legit.append(m.id)
            sets = []
            for m in r.nodes:
                if m.kind == "mut" and m.d["how"] == "setitem" and m.d["target"] is r.P["result"]:
                    k, x = r.snap(m, m.d["key"]), r.snap(m, m.d["value"])
                    ok = ctx.check("crawl-object", w, k.op == "tuple" and len(k.args) == 2 and k.args[0] is MOD and any(k.args[1] is mk("attr", v, "__qualname__") for v in vs), "a function found is kept under its module and its full name", m)
                    ok &= ctx.check("crawl-object", w, is_call(x) and x.args[0].endswith("CallableNode.from_obj") and any(kwarg(ctx, x, "obj") is v for v in vs | {o}) and kwarg(ctx, x, "dep_key") is k,
                                    "and described by its own code", m)
                    if ok:
                        sets.append(m)
            if not is_type:
                must(ctx, r, "crawl-object", w, sets, "only built-in functions and functions of other modules are left out", legit=legit)
            else:
                rec = calls_to(r, "crawl_obj")
                members = {mk("attr", o, "__dict__"), mk("call", "vars", o)}
                skip = [m.id for m in r.nodes if m.kind == "assume" and (strip_truth(m.cond) is METH and not m.pol or
                        m.cond.op == "op" and m.cond.args[0] == "eq" and not m.pol and MOD in m.cond.args[1:] and mk("attr", o, "__module__") in m.cond.args[1:])]
                built = [m.id for m in r.nodes if m.kind == "assume" and m.pol and m.cond.op == "op" and m.cond.args[0] == "isinstance" and "Builtin" in show(m.cond.args[2], 3)]
                good = []
                for n in rec:
                    x = barg(r, n, "obj")
                    ok = ctx.check("crawl-class", w, x.op in ("val", "sub") and x.args[0] in members, "the members of a class are crawled", n)
                    ok &= ctx.check("crawl-class", w, all(raw(n, f) is r.P[f] for f in ("module_name", "include_methods", "strict", "result", "objs_result")), "like the module it is in", n)
                    if ok:
                        good.append(n.id)
                each(ctx, r, "crawl-class", w, lambda b: b in members, good, "every member of a class of the module is crawled", legit=skip + built)
    # what counts as a function
    r = ctx.run(None, "mandala.deps.utils.is_callable_obj", opaque=VB, tag=("c22",))
    where = "is_callable_obj"
    no = [e.id for e, s, v in r.ends if any(not is_const(a, True) for a in alts(v))]
    need = {"memoized functions": lambda c: is_op_test(c, OBJ), "functions": lambda c: c.op == "op" and c.args[0] == "isinstance" and c.args[1] is OBJ and "FunctionType" in show(c.args[2], 3)}
    for what, test in need.items():
        pos = [(m.id, m.cond) for m in r.nodes if m.kind == "assume" and m.pol and test(m.cond)]
        ctx.check("crawl-object", where, bool(pos), f"{what} are recognised", r.it.entry)
        for c in {c for _, c in pos}:
            rr = ctx.run(None, "mandala.deps.utils.is_callable_obj", opaque=VB, setup=preset(facts=[(c, True)]))
            ctx.check("crawl-object", where, rr.ends and all(is_const(a, True) for e, s, v in rr.ends for t, f in picked(rr, v) for a in alts(t)), f"{what} are recognised as functions", rr.it.entry)
    rr = ctx.run(None, "mandala.deps.utils.is_callable_obj", opaque=VB, setup=preset(facts=[(truth(STRICT), False), (STRICT, False), (truth(mk("call", "callable", OBJ)), True), (mk("call", "callable", OBJ), True)]))
    ctx.check("crawl-object", where, rr.ends and all(is_const(a, True) or a is mk("call", "callable", OBJ) for e, s, v in rr.ends for t, f in picked(rr, v) for a in alts(t)), "and so is everything that can be called, unless strict", rr.it.entry)


def is_op_test(c, o):
    return c.op == "op" and (c.args[0] == "eq" and any(is_const(x, "Op") for x in c.args[1:]) and any(any(u is o for u in subterms(x)) for x in c.args[1:]) or
                             c.args[0] == "isinstance" and c.args[1] is o and "Op" in show(c.args[2], 3))


def op_facts(r, o):
    return [c for c in conds(r) if is_op_test(c, o)]


def unwrapped(t, o):
    return is_call(t) and short(t.args[0]) == "unwrap_decorators" and cargs(t)[0] is o


def extraction(ctx):
    OBJ = mk("param", "obj")
    for fn in ("extract_func_obj", "extract_code"):
        q = "mandala.deps.utils." + fn
        opq = op_names("unwrap_decorators", base=VB)
        probe = ctx.run(None, q, opaque=opq, tag=("c22",))
        ops = op_facts(probe, OBJ)
        ctx.check("extract", fn, bool(ops), "memoized functions are recognised", probe.it.entry)
        for memo in (True, False):
            where = f"{fn}[{'memoized' if memo else 'function'}]"
            facts = [(c, memo) for c in ops] + [(isinst(OBJ, "property"), False), (isinst(mk("attr", OBJ, "f"), "property"), False)]
            probe2 = ctx.run(None, q, opaque=opq, setup=preset(facts=facts))
            src = mk("attr", OBJ, "f") if memo else OBJ
            # what unwrapping gives is a function
            more = [(c, "FunctionType" in show(c.args[2], 4) and "Builtin" not in show(c.args[2], 4)) for c in conds(probe2)
                    if c.op == "op" and c.args[0] == "isinstance" and unwrapped(c.args[1], src)]
            r = ctx.run(None, q, opaque=opq, setup=preset(facts=facts + more))
            ctx.minimum("extract", where, len(r.ends), 1, "results")
            for e, s, v in r.ends:
                for t, fs in picked(r, v):
                    for a in alts(t):
                        if fn == "extract_code":
                            ok = a.op == "attr" and a.args[1] == "__code__" and (unwrapped(a.args[0], src))
                        else:
                            ok = unwrapped(a, src) or memo and a is src
                        ctx.check("extract", where, ok, "the function itself is looked at, without its decorators", e)
    r = ctx.run(None, "mandala.utils.unwrap_decorators", opaque=VB, tag=("c22",))
    w = "unwrap_decorators"
    last = [m for m in r.nodes if m.kind == "assume" and not m.pol and m.cond.op == "op" and m.cond.args[0] == "hasattr" and any(is_const(x, "__wrapped__") for x in m.cond.args[1:])]
    ctx.check("extract", w, bool(last), "decorators are looked through", r.it.entry)
    p = r.path([r.it.entry.id], ends(r), avoid=[m.id for m in last])
    ctx.check("extract", w, p is None, "all of them", last[0] if last else r.it.entry, show_path(p))


# ---------------------------------------------------------------- loading
def loading(ctx):
    r = ctx.run(None, "mandala.deps.utils.load_obj", opaque=VB, tag=("c22",))
    where = "load_obj"
    M, N = r.P["module_name"], r.P["obj_name"]
    imps = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "import_module"]
    for n in imps:
        ctx.check("load", where, r.snap(n, n.d["args"][0]) is M, "a component is looked for in its module", n)
    must(ctx, r, "load", where, imps, "a component is looked for in its module")
    part = mk("elem", mk("call", ".split", N, const(".")))
    miss = [m for m in r.nodes if m.kind == "assume" and not m.pol and m.cond.op == "op" and m.cond.args[0] == "hasattr" and m.cond.args[2] is part]
    hit = [m for m in r.nodes if m.kind == "assume" and m.pol and m.cond.op == "op" and m.cond.args[0] == "hasattr" and m.cond.args[2] is part]
    seen = False
    for e, s, v in r.ends:
        for t, fs in picked(r, v):
            for a in alts(t):
                if not ctx.check("load", where, a.op == "tuple" and len(a.args) == 2, "what was found and whether it was is returned", e):
                    continue
                for o, f in [(x, y) for x in alts(a.args[0]) for y in alts(a.args[1])]:
                    if is_const(f, True):
                        seen = seen or any(is_call(x, "getattr") and cargs(x)[1] is part for x in subterms(o))
    ctx.check("load", where, seen, "a component is found by following its full name", r.it.entry)
    ctx.check("load", where, bool(miss) and bool(hit), "every part of the name is looked up", r.it.entry)
    for m in miss:
        # after a missing part, no other part is looked up and no result says it was found
        p = r.path([m.id], [x.id for x in hit])
        ctx.check("load", where, p is None, "a part that is missing means not found", m, show_path(p))
        for e, s, v in r.ends:
            for t, fs in picked(r, v):
                for a in alts(t):
                    if a.op == "tuple" and len(a.args) == 2 and (m.cond, False) in fs:
                        ctx.check("load", where, is_const(a.args[1], False), "a part that is missing means not found", e)
    heads = [l for l in r.nodes if l.kind == "loop"]
    for l in heads:
        ctx.check("load", where, strip(r.snap(l, l.d["siter"])) is part.args[0] if l.d.get("siter") is not None else True, "every part of the name is looked up", l)


def fallback(ctx):
    S = mk("param", "self")
    LOAD = "mandala.deps.utils.load_obj"
    for cls in ("CallableNode", "GlobalVarNode"):
        where = f"{cls}.load_obj"
        opq = lambda f: f.qual == LOAD or f.name in ("present_key",)
        probe = ctx.run("Node", "load_obj", selfcls=cls, opaque=opq, tag=("c22", cls))
        calls = calls_to(probe, LOAD)
        ctx.minimum("load", where, len(calls), 1, "lookups")
        for n in calls:
            for p in ("module_name", "obj_name"):
                x = barg(probe, n, p)
                ctx.check("load", where, x is probe.it.snap(probe.ends[0][1], mk("attr", S, p)) or x is mk("attr", S, p) or x.op == "wire" or p in show(x, 4) and not any(q in show(x, 4) for q in ("module_name", "obj_name") if q != p),
                          f"a component is looked up by its own {p}", n)
        res = {n.d["result"] for n in calls}
        found = [c for c in conds(probe) if any(strip_truth(c) is mk("sub", x, const(1)) for x in res)]
        ctx.check("load", where, bool(found), "whether the component was found is looked at", probe.it.entry)
        skips = [c for c in conds(probe) if strip_truth(c) is probe.P["skip_missing"]]
        for f in (True, False):
            for sk in (True, False):
                r = ctx.run("Node", "load_obj", selfcls=cls, opaque=opq, setup=preset(facts=[(c, f) for c in found] + [(c, sk) for c in skips]))
                w = f"{where}[{'found' if f else 'missing'}{', skipped' if sk else ''}]"
                if f:
                    ok = bool(r.ends) and all(a in {mk("sub", n.d["result"], const(0)) for n in calls_to(r, LOAD)} for e, s, v in r.ends for t, _ in picked(r, v) for a in alts(t))
                    ctx.check("load", w, ok, "what was found is what is there now", r.it.entry)
                elif not sk:
                    ctx.check("load", w, not r.ends, "a missing component is an error", r.it.entry)
                else:
                    fb = set()
                    for e, s, v in r.ends:
                        fb |= set(alts(v))
                    ok = bool(fb) and all("unknown_function" in show(a, 6) or is_const(a, "UNKNOWN_GLOBAL_VAR") or a.op == "attr" and a.args[1] == "FALLBACK_OBJ" for a in fb)
                    ctx.check("load", w, ok, "a missing component is replaced by the placeholder", r.it.entry)
                    nofb = [m.id for m in r.nodes if m.kind == "assume" and not m.pol and m.cond.op == "op" and m.cond.args[0] == "hasattr"]
                    p = r.path([r.it.entry.id], [x.id for x, _, _ in r.rends], avoid=nofb)
                    ctx.check("load", w, p is None, "and is no error", r.it.entry, show_path(p))


# ---------------------------------------------------------------- descriptions
def functions(ctx):
    opq = op_names("CallableNode.represent", "extract_code", "get_runtime_description", "get_content_hash", base=VB)
    r = ctx.run("CallableNode", "from_obj", opaque=opq, tag=("c22",))
    where = "CallableNode.from_obj"
    O, K = r.P["obj"], r.P["dep_key"]
    for e, s, v in r.ends:
        for o in alts(v):
            h = lambda f: r.it.snap(s, s.heap.get((o, f), NONE))
            ctx.check("describe", where, h("module_name") is mk("sub", K, const(0)) and h("obj_name") is mk("sub", K, const(1)), "a function is described under its own name", e)
            rep = h("_representation")
            if any(is_const(x, None) for x in alts(rep)):
                continue      # a source is a string, never None (checked for represent)
            ctx.check("describe", where, qual(rep, "CallableNode.represent") and kwarg(ctx, rep, "obj") is O, "a function is described by its own source", e)
            ctx.check("describe", where, is_const(kwarg(ctx, rep, "allow_fallback"), False), "a source that cannot be read is not replaced", e)
            hsh = h("_content_hash")
            ctx.check("describe", where, is_call(hsh) and short(hsh.args[0]) == "get_content_hash" and rep in cargs(hsh) + [kwarg(ctx, hsh, "obj")], "and by the hash of that source", e)
            d = h("runtime_description")
            ctx.check("describe", where, is_call(d) and short(d.args[0]) == "get_runtime_description" and any(is_call(x) and short(x.args[0]) == "extract_code" and O in cargs(x) + [kwarg(ctx, x, "obj")] for x in subterms(d)),
                      "and by its own byte code", e)
    r = ctx.run("CallableNode", "from_runtime", opaque=opq, tag=("c22",))
    where = "CallableNode.from_runtime"
    for e, s, v in r.ends:
        for o in alts(v):
            h = lambda f: r.it.snap(s, s.heap.get((o, f), NONE))
            ctx.check("describe", where, h("module_name") is r.P["module_name"] and h("obj_name") is r.P["obj_name"], "a function seen running is described under its own name", e)
            d = h("runtime_description")
            ctx.check("describe", where, is_call(d) and short(d.args[0]) == "get_runtime_description" and any(x is r.P["code_obj"] for x in subterms(d)), "and by the code that ran", e)
            ctx.check("describe", where, is_const(h("_representation"), None) and is_const(h("_content_hash"), None), "and has no source until one is found", e)
    r = ctx.run("CallableNode", "representation.setter", opaque=op_names("get_content_hash", base=VB), tag=("c22",))
    for e, s, v in r.ends:
        rep, hsh = (r.it.snap(s, s.heap.get((r.P["self"], f), NONE)) for f in ("_representation", "_content_hash"))
        ctx.check("describe", "CallableNode.representation", rep is r.P["value"], "the source given is kept", e)
        ctx.check("describe", "CallableNode.representation", is_call(hsh) and short(hsh.args[0]) == "get_content_hash" and rep in cargs(hsh) + [kwarg(ctx, hsh, "obj")], "and its hash with it", e)
    for c, m, fld in (("CallableNode", "content", "_representation"), ("CallableNode", "content_hash", "_content_hash"), ("GlobalVarNode", "content", "_representation"), ("GlobalVarNode", "content_hash", "_representation")):
        S = mk("param", "self")
        r = ctx.run(c, m, opaque=VB, setup=preset(((S, fld), mk("attr", S, fld))))
        want = mk("attr", S, fld)
        if (c, m) == ("GlobalVarNode", "content_hash"):
            want = mk("sub", want, const(0))
        ctx.check("describe", f"{c}.{m}", r.ends and all(a is want for e, s, v in r.ends for a in alts(r.it.snap(s, v))), "the description kept is the one used", r.it.entry)


def source(ctx):
    OBJ = mk("param", "obj")
    GS = lambda n: n.kind == "call" and n.d["name"] == "inspect.getsource"
    for fb in (True, False):
        where = f"CallableNode.represent[{'fallback' if fb else 'strict'}]"
        AF = mk("param", "allow_fallback")
        r = ctx.run("CallableNode", "represent", opaque=VB, setup=preset(facts=[(truth(AF), fb), (AF, fb)]), may_raise=lambda n: ["?"] if GS(n) else None)
        gets = [n for n in r.nodes if GS(n)]
        mine = [n for n in gets if all(a is OBJ or a is mk("attr", OBJ, "f") for a in alts(r.snap(n, n.d["args"][0])))]
        must(ctx, r, "source", where, mine, "the source of the function is read")
        for e, s, v in r.ends:
            for t, _ in picked(r, r.it.snap(s, v)):
                for a in alts(t):
                    ctx.check("source", where, whole(a, {n.d["result"] for n in gets}), "all of the source counts, but for spaces at the ends of lines", e)
        for n in mine:
            bad = [m.id for m in r.nodes if m.kind == "exc" and n.id in m.preds]
            p = r.path(bad, ends(r), avoid=[m.id for m in gets if m not in mine])
            ctx.check("source", where, bool(bad) and p is None, "a source that cannot be read is an error" if not fb else "a source that cannot be read is replaced by the placeholder's", n, show_path(p))
            if not fb:
                p = r.path(bad, ends(r))
                ctx.check("source", where, p is None, "a source that cannot be read is an error", n, show_path(p))
        for n in gets:
            if n not in mine:
                t = r.snap(n, n.d["args"][0])
                ctx.check("source", where, "unknown_function" in show(t, 5) or "FALLBACK" in show(t, 5), "nothing but the placeholder stands in for a source", n)
    probe = ctx.run("CallableNode", "represent", opaque=VB, tag=("c22",))
    for c in op_facts(probe, OBJ):
        r = ctx.run("CallableNode", "represent", opaque=VB, setup=preset(facts=[(c, True)]))
        for n in r.nodes:
            if GS(n):
                ctx.check("source", "CallableNode.represent[memoized]", "FALLBACK" in show(n.d["args"][0], 5) or "unknown_function" in show(n.d["args"][0], 5) or all(a is mk("attr", OBJ, "f") for a in alts(r.snap(n, n.d["args"][0]))),
                          "the source of a memoized function is that of the function", n)
    ctx.check("source", "CallableNode.represent[memoized]", bool(op_facts(probe, OBJ)), "memoized functions are recognised", probe.it.entry)


def whole(t, srcs):
    """t is the source with nothing but trailing white space dropped"""
    if t in srcs:
        return True
    if is_call(t, ".join") and len(cargs(t)) == 2 and is_const(cargs(t)[0], "\n"):
        cs = coverage(cargs(t)[1])
        return bool(cs) and all(len(c.bases) == 1 and not c.guards and is_call(c.bases[0], ".splitlines", ".split") and all(x in srcs for x in alts(cargs(c.bases[0])[0])) and
                                (c.val is mk("elem", c.bases[0]) or is_call(c.val, ".rstrip") and len(cargs(c.val)) == 1 and cargs(c.val)[0] is mk("elem", c.bases[0])) for c in cs)
    if is_call(t, ".rstrip") and len(cargs(t)) == 1:
        return whole(cargs(t)[0], srcs)
    return False


def values(ctx):
    OBJ = mk("param", "obj")
    SKIP = mk("param", "skip_unhashable")
    H = lambda n: n.kind == "call" and short(n.d["name"] or "") == "get_content_hash"
    opq = op_names("get_content_hash", base=VB)
    for ref in (True, False):
        for skip in (True, False):
            where = f"GlobalVarNode.represent[{'wrapped' if ref else 'value'}{', skipped' if skip else ''}]"
            r = ctx.run("GlobalVarNode", "represent", opaque=opq, setup=preset(facts=[(isinst(OBJ, "Ref"), ref), (truth(SKIP), skip), (SKIP, skip)]), may_raise=lambda n: ["?"] if H(n) else None)
            hashes = [n for n in r.nodes if H(n)]
            if not ref:
                must(ctx, r, "value", where, hashes, "the value of a global is hashed")
                for n in hashes:
                    ctx.check("value", where, barg(r, n, "obj") is OBJ, "the value itself is hashed", n)
            for e, s, v in r.ends:
                for t, fs in picked(r, r.it.snap(s, v)):
                    for a in alts(t):
                        if not ctx.check("value", where, a.op == "tuple" and len(a.args) == 2, "a hash and a description are returned", e):
                            continue
                        for h in alts(a.args[0]):
                            if ref:
                                ok = h is mk("attr", OBJ, "cid")
                            else:
                                ok = h in {n.d["result"] for n in hashes} or skip and is_const(h, "UNKNOWN_GLOBAL_VAR")
                            ctx.check("value", where, ok, "the hash is that of the value", e)
            for n in hashes:
                bad = [m.id for m in r.nodes if m.kind == "exc" and n.id in m.preds]
                if not skip:
                    p = r.path(bad, ends(r))
                    ctx.check("value", where, bool(bad) and p is None, "a value that cannot be hashed is an error", n, show_path(p))
                else:
                    p = r.path(bad, [e.id for e, _, _ in r.rends])
                    ctx.check("value", where, bool(bad) and p is None, "a value that cannot be hashed is skipped", n, show_path(p))
    r = ctx.run("GlobalVarNode", "from_obj", opaque=op_names("GlobalVarNode.represent", base=VB), tag=("c22",))
    where = "GlobalVarNode.from_obj"
    for e, s, v in r.ends:
        for o in alts(v):
            h = lambda f: r.it.snap(s, s.heap.get((o, f), NONE))
            K = r.P["dep_key"]
            ctx.check("value", where, h("module_name") is mk("sub", K, const(0)) and h("obj_name") is mk("sub", K, const(1)), "a global is described under its own name", e)
            rep = h("_representation")
            ok = qual(rep, "GlobalVarNode.represent") and kwarg(ctx, rep, "obj") is r.P["obj"]
            ctx.check("value", where, ok, "a global is described by its own value", e)
            if ok:
                for f in ("skip_unhashable", "skip_silently"):
                    ctx.check("value", where, kwarg(ctx, rep, f) is r.P[f], f"and as {f} says", e)


def bytecode(ctx):
    r = ctx.run(None, "mandala.deps.utils.get_sanitized_bytecode_representation", opaque=VB, tag=("c22",))
    where = "get_sanitized_bytecode_representation"
    code = r.P["code"]
    ins = lambda b: is_call(b) and short(b.args[0]) == "get_instructions" and cargs(b)[0] is code
    for e, s, v in r.ends:
        for x in alts(v):
            cs = coverage(r.it.snap(s, x))
            bases_ = {c.bases for c in cs}
            ok = len(bases_) == 1 and all(len(b) == 1 and ins(b[0]) for b in bases_)
            if not ctx.check("bytecode", where, ok, "the byte code of a function is described instruction by instruction", e):
                continue
            el = mk("elem", next(iter(bases_))[0])
            t = total(cs, next(iter(bases_)))
            ctx.check("bytecode", where, t is not None, "every instruction is described", e)
            for k, val, g in t or []:
                for a in alts(val):
                    nested = is_call(a) and short(a.args[0]) == "Instruction" or a.op == "new"
                    ok = a is el or nested and all(any(u is mk("attr", el, f) for u in subterms(a)) for f in ("opname", "opcode", "arg", "argval")) and \
                        any(is_call(u) and short(u.args[0]) == "get_sanitized_bytecode_representation" and mk("attr", el, "argval") in cargs(u) + [y for w in u.args[1:] if isinstance(w, T) and w.op == "kw" for y in w.args if isinstance(y, T)] for u in subterms(a))
                    ctx.check("bytecode", where, ok, "an instruction is described by itself, and nested code by its instructions", e)
    r = ctx.run(None, "mandala.deps.utils.get_runtime_description", opaque=op_names("get_sanitized_bytecode_representation", base=VB), tag=("c22",))
    for e, s, v in r.ends:
        ctx.check("bytecode", "get_runtime_description", all(is_call(a) and short(a.args[0]) == "get_sanitized_bytecode_representation" and any(u is r.P["code"] for u in subterms(a)) for a in alts(v)), "the description of running code is that of its byte code", e)
