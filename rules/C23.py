"""Operations on a computation frame leave their operands as they were."""
from .cfs import *

EXPLANATION = (
    "Ownership analysis of every operation of ComputationFrame, once in place and once not: which object every mutation reaches (through views, shallow copies and elements of containers), "
    "what the containers of a returned frame may share with the operands, and what an operation returns."
)
ASSUMPTIONS = ["copy.deepcopy copies", "functions outside the package (pandas, builtins) do not change their arguments unless documented to"]

# operations documented to change the frame they are called on
CHANGING = set(MUTATORS) | {"attach", "__init__"}
# operations that return a frame
FRAMES = ("select_nodes", "select_subsets", "downstream", "upstream", "midstream", "_binary_union", "_binary_intersection", "_binary_setwise_difference",
          "__or__", "__and__", "__sub__", "apply", "copy", "__getitem__", "__lt__", "isin", "drop_unreachable", "from_op", "from_refs", "from_vars")
# views of the elements of a frame that may be changed by who asked for them
ELEMENTS = ("get_source_elts", "get_sink_elts", "get_adj_elts", "get_adj_elts_edge", "get_reachable_elts", "get_reachable_nodes", "in_neighbors",
            "out_neighbors", "vnames", "fnames", "nodes", "edges", "in_edges", "out_edges")


def check(ctx):
    inp = inplace_methods(ctx)
    ctx.minimum("coverage", CF, len(inp), 12, "operations that can work in place")
    for name in sorted(methods(ctx)):
        if name == "__init__" or name.startswith("_") and not name.endswith("__") and name not in KNOWN:
            continue   # followed where it is used
        if name in inp:
            both(ctx, name)
        elif name in MUTATORS:
            r = run(ctx, name)
            purity(ctx, r, name, "in place", allowed={r.P["self"]} if "self" in r.P else set())
        elif name == "attach":
            pass
        else:
            r = run(ctx, name)
            purity(ctx, r, name, "")
            if name in FRAMES:
                frames(ctx, r, name)
            if name in ELEMENTS:
                elements(ctx, r, name)
    for n in FRAMES:
        ctx.prog.method(CF, n)
    copies(ctx)
    defaults(ctx)
    helpers(ctx)
    sources(ctx)


def run(ctx, name, inplace=None):
    o = contracts(ctx, name, inline=VIEWS - {name})
    params = {"inplace": const(inplace)} if inplace is not None else None
    return ctx.run(CF, name, opaque=o, tag=("c23", name, inplace), params=params)


# ------------------------------------------------------------------ ownership
class Own:
    """which operands a term may be (part of)"""

    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.params = set(r.P.values())
        self.memo = {}

    def of(self, t, n=None, d=0):
        """operands whose containers the object t may be one of"""
        if d > 12:
            return set()
        if t in self.params:
            return {t}
        if t.op == "phi":
            return set().union(*[self.of(a, n, d + 1) for a in t.args])
        if t.op == "attr":
            return self.of(t.args[0], n, d + 1)
        if t.op in ("val", "elem", "sub", "key"):
            return self.inner(t.args[0], n, d + 1)
        if t.op == "call":
            if t.args[0] in (".get", ".pop", ".setdefault", "next", "min", "max"):
                cs = cargs(t)
                return self.inner(cs[0], n, d + 1).union(*[self.of(c, n, d + 1) for c in cs[1:]])
        if t.op == "star" or t.op == "kw":
            return self.of(t.args[-1], n, d + 1)
        return set()

    def inner(self, t, n=None, d=0):
        """operands whose containers an element of t may be one of"""
        if d > 12:
            return set()
        if t in self.params:
            return {t}
        if t.op == "phi":
            return set().union(*[self.inner(a, n, d + 1) for a in t.args])
        if t.op in ("attr", "val", "elem", "sub", "key"):
            return self.of(t, n, d + 1)
        if t.op == "items":
            out = set()
            for i in t.args[1:]:
                out |= self.of(i.args[1], n, d + 1)
            return out
        if t.op == "tuple":
            return set().union(set(), *[self.of(a, n, d + 1) for a in t.args])
        if t.op == "op" and t.args[0] in ("bitor", "bitand", "sub", "add", "bitxor"):
            return set().union(*[self.inner(a, n, d + 1) for a in t.args[1:] if isinstance(a, T)])
        if t.op == "call":
            if t.args[0] in SHALLOW or t.args[0] in (".union", ".intersection", ".difference"):
                return set().union(set(), *[self.inner(a, n, d + 1) for a in cargs(t)])
            if t.args[0] in (".get", ".pop", ".setdefault", "next", "min", "max"):
                cs = cargs(t)
                return self.inner(cs[0], n, d + 1).union(*[self.inner(c, n, d + 1) for c in cs[1:]])
        if t.op in ("star", "kw"):
            return self.inner(t.args[-1], n, d + 1)
        return set()

    def shared(self, t, depth, n=None):
        """operands that share with container t, or with the containers in it down to depth"""
        out = self.of(t, n)
        cur = [t]
        for _ in range(depth):
            nxt = []
            for x in cur:
                for a in alts(x):
                    if a.op == "items":
                        for i in a.args[1:]:
                            nxt.append(i.args[1])
                    elif a.op == "call" and a.args[0] in DEEP:
                        pass
                    elif a.op == "call" and a.args[0] in SHALLOW:
                        nxt += [mk("val", c) if c.op != "items" else y for c in cargs(a) for y in ([c] if c.op != "items" else [i.args[1] for i in c.args[1:]])]
                        out |= self.inner(a, n)
                    else:
                        out |= self.inner(a, n)
            for x in nxt:
                out |= self.of(x, n)
            cur = nxt
        return out


def writes(ctx, r):
    """[(node, object changed, values put in, what)] for everything a run changes"""
    out = []
    for n in r.nodes:
        if n.kind == "mut":
            out.append((n, r.snap(n, n.d["target"]) if n.d["target"].op == "obj" else n.d["target"], n.d["how"]))
        elif n.kind == "aug":
            for a in alts(r.snap(n, n.d["target"])):
                out.append((n, a, f"in-place {n.d['how']}"))
        elif n.kind in ("setattr", "delattr"):
            out.append((n, n.d["base"], f"{n.kind} {n.d['attr']}"))
        else:
            m = cf_method(ctx, n)
            if m is None:
                continue
            if m in MUTATORS or m == "attach":
                out.append((n, n.d["recv"], m))
            elif m in inplace_methods(ctx) and inplace_of(ctx, n) is not False:
                out.append((n, n.d["recv"], m + "(inplace)"))
    return out


def names(ts):
    return sorted(show(t, 2) for t in ts)


def purity(ctx, r, name, mode, allowed=frozenset()):
    own = Own(ctx, r)
    where = f"{CF}.{name}" + (f" ({mode})" if mode else "")
    k = 0
    for n, t, how in writes(ctx, r):
        if t is None:
            continue
        k += 1
        o = own.of(t, n) - set(allowed)
        ctx.check("operands", where, not o, f"nothing of the operands is changed, but {how} reaches {names(o)}" if o else "nothing of the operands is changed", n)
        # containers stored in the operand in place stay its own
        f = field_of(t)
        v = n.d.get("value")
        if f in DEPTH and DEPTH[f] and v is not None and n.kind == "mut" and how == "setitem":
            s = own.shared(r.snap(n, v), DEPTH[f] - 1, n) - set(allowed)
            ctx.check("sharing", where, not s, "the containers put into a frame are its own" + (f", not those of {names(s)}" if s else ""), n)
        if n.kind == "setattr" and n.d["attr"] in DEPTH and n.d["base"].op != "obj":
            s = own.shared(r.snap(n, n.d["value"]), DEPTH[n.d["attr"]], n) - set(allowed)
            ctx.check("sharing", where, not s, "the containers put into a frame are its own" + (f", not those of {names(s)}" if s else ""), n)
    ctx.count("writes", k)
    if not k:
        ctx.ok("operands", where, "nothing is changed")


def field_of(t):
    """the field of a frame that container t is"""
    return t.args[1] if t.op == "attr" and t.args[1] in DEPTH else None


def returned(r):
    return [(n, s, a) for n, s, v in r.ends for a in alts(v)]


def mode_of(ctx, r, a):
    """whether the operation whose result a is was called in place: True, False, or None when it is not known"""
    ms = {inplace_of(ctx, n) for n in r.nodes if n.kind == "call" and n.d.get("result") is a}
    return ms.pop() if len(ms) == 1 else None


def frame_result(ctx, r, a):
    """a is a frame of its own, returned by another operation"""
    m = term_method(ctx, a)
    if m in ("union", "intersection"):
        # of two or more frames (of one frame, it may be that frame)
        return len([x for x in cargs(a) if x.op not in ("star", "kw")]) >= 2
    return m in FRAMES or m in inplace_methods(ctx) and mode_of(ctx, r, a) is False


def is_inst(s, a):
    return any((a, f) in s.heap for f in FIELDS)


def frames(ctx, r, name):
    """what is returned is a frame that shares no containers with the operands"""
    where = f"{CF}.{name}"
    own = Own(ctx, r)
    ctx.minimum("result", where, len(r.ends), 1, "results")
    for n, s, a in returned(r):
        m = term_method(ctx, a)
        if m is not None:
            ok = frame_result(ctx, r, a)
            ctx.check("result", where, ok, "a frame of its own is returned", n)
        elif is_inst(s, a) and not (a in set(r.P.values())):
            for f in FIELDS:
                w = s.heap.get((a, f))
                if w is None:
                    ctx.bad("result", where, f"the returned frame has its {f}", n)
                    continue
                sh = own.shared(r.it.snap(s, w), DEPTH[f], n)
                ctx.check("sharing", where, not sh, f"the {f} of the returned frame is its own" + (f", not shared with {names(sh)}" if sh else ""), n)
        else:
            ctx.check("result", where, a is NONE and name == "__getitem__", f"a frame of its own is returned, not {show(a, 2)}", n)


def elements(ctx, r, name):
    where = f"{CF}.{name}"
    own = Own(ctx, r)
    for n, s, v in r.ends:
        sh = own.shared(r.it.snap(s, v), 1 if name in ("get_source_elts", "get_sink_elts", "get_adj_elts", "get_reachable_elts") else 0, n)
        ctx.check("sharing", where, not sh, "the elements returned are in sets of their own" + (f", not shared with {names(sh)}" if sh else ""), n)


def both(ctx, name):
    r = run(ctx, name, False)
    where = f"{CF}.{name}"
    purity(ctx, r, name, "not in place")
    ctx.minimum("result", where, len(r.ends), 1, "results")
    P = set(r.P.values())
    for n, s, a in returned(r):
        ok = frame_result(ctx, r, a)
        if not ok and is_inst(s, a) and a not in P:
            own = Own(ctx, r)
            ok = not any(own.shared(r.it.snap(s, s.heap[(a, f)]), DEPTH[f], n) for f in FIELDS if (a, f) in s.heap)
        ctx.check("result", where, ok, f"not in place, a frame of its own is returned, not {show(a, 2)}", n)
    r = run(ctx, name, True)
    purity(ctx, r, name, "in place", allowed={r.P["self"]})
    for n, s, a in returned(r):
        ok = a is NONE or term_method(ctx, a) in inplace_methods(ctx) and mode_of(ctx, r, a) is True
        ctx.check("result", where, ok, "in place, None is returned", n)
    own = Own(ctx, r)
    hits = [n for n, t, how in writes(ctx, r) if t is not None and r.P["self"] in own.of(t, n)]
    ctx.check("in-place", where, bool(hits), "in place, the frame itself is changed", r.it.entry)
    for n, t, how in writes(ctx, r):
        m = term_method(ctx, t) if t is not None else None
        ctx.check("in-place", where, m not in ("copy",), "in place, the frame itself is changed, not a copy of it", n)


# ------------------------------------------------------------------- copies
def copies(ctx):
    """a copy has the content of the frame in all components"""
    r = run(ctx, "copy")
    S = r.P["self"]
    where = f"{CF}.copy"
    for n, s, a in returned(r):
        if not is_inst(s, a):
            ctx.bad("copy", where, "a copy is a new frame", n)
            continue
        for f in FIELDS:
            w = s.heap.get((a, f))
            w = r.it.snap(s, w) if w is not None else NONE
            ok = all(same_content(x, mk("attr", S, f), DEPTH[f]) or (x.op == "items" and len(x.args) == 1 and len(alts(w)) > 1) for x in alts(w)) and \
                any(same_content(x, mk("attr", S, f), DEPTH[f]) for x in alts(w))
            ctx.check("copy", where, ok, f"the copy has the {f} of the frame", n)
        st = s.heap.get((a, "storage"))
        ctx.check("copy", where, st is not None and all(x is fieldof(r, S, "storage") or x is mk("attr", S, "storage") for x in alts(st)), "the copy has the storage of the frame", n)


def same_content(t, base, depth):
    """container t has exactly the content of `base`"""
    if t is base:
        return True
    if t.op == "call" and t.args[0] in DEEP and len(cargs(t)) == 1:
        return same_content(cargs(t)[0], base, depth)
    if t.op == "call" and t.args[0] in SHALLOW - {".values", ".items", ".keys", "zip", "enumerate"} and len(cargs(t)) == 1:
        return same_content(cargs(t)[0], base, depth)
    if t.op == "items" and len(t.args) == 2:
        k, v, its, g = t.args[1].args
        if g or len(its) != 1:
            return False
        if [b for b, gg in bases(its[0])] != [(base,)] or any(gg for b, gg in bases(its[0])):
            return False
        if k is None:
            return v is mk("elem", base)
        val = {mk("val", base), mk("sub", base, mk("key", base))}
        return k is mk("key", base) and any(same_content(v, b, depth - 1) for b in val)
    return False


# ---------------------------------------------------------- defaults and helpers
def defaults(ctx):
    """no frame shares containers with another one through the default of a parameter"""
    k = 0
    for name, fn in methods(ctx).items():
        a = fn.node.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            k += 1
            bad = isinstance(d, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or \
                isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("dict", "list", "set", "defaultdict")
            ctx.check("defaults", f"{CF}.{name}", not bad, "defaults of parameters are not containers shared by all calls", fn)
    ctx.minimum("defaults", CF, k, 30, "defaults of parameters")
    r = ctx.run(CF, "__init__", opaque=lambda f: False, tag=("c23",))
    S = r.P["self"]
    for f in FIELDS:
        for n, s, v in r.ends:
            w = s.heap.get((S, f))
            ok = w is not None and all(x is r.P.get(f) or r.it.snap(s, x).op == "items" and len(r.it.snap(s, x).args) == 1 for x in alts(w))
            ctx.check("construct", f"{CF}.__init__", ok, f"the {f} of a new frame is what it is given, or empty", n)


def helpers(ctx):
    """the set operations on mappings of sets return mappings of their own"""
    for h, depth in (("get_setdict_union", 1), ("get_setdict_intersection", 1), ("get_adjacency_union", 2), ("get_adjacency_intersection", 2),
                     ("get_nullable_union", 0), ("get_dict_union_over_keys", 0), ("get_dict_intersection_over_keys", 0), ("get_adj_from_edges", 0)):
        fn = ctx.prog.func(h)
        r = ctx.run(None, h, opaque=lambda f: False, tag=("c23",))
        own = Own(ctx, r)
        for n, t, how in writes(ctx, r):
            o = own.of(t, n) if t is not None else set()
            ctx.check("operands", h, not o, "nothing of the operands is changed", n)
        for n, s, v in r.ends:
            sh = own.shared(r.it.snap(s, v), depth, n)
            ctx.check("sharing", h, not sh, "the result shares no sets with the operands", n)


def sources(ctx):
    """what a frame is made from stays as it was"""
    where = "Storage.cf"
    r = ctx.run("Storage", "cf", opaque=std_opaque, tag=("c23",))
    src = r.P["source"]
    for t, n, how in writes_of(r):
        ctx.check("operands", where, t is not src, "what the frame is made from is not changed", n)
    uses = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and once(n.d["siter"]) is src]
    uses += [n for n in r.nodes if n.kind == "call" and any(once(a) is src for a in list(n.d["args"]) + list(n.d["kwargs"].values())) and CF in (n.d["name"] or "")]
    dic = [m.id for m in r.nodes if m.kind == "assume" and m.d["pol"] and m.cond.op == "op" and m.cond.args[0] == "isinstance" and m.cond.args[1] is src]
    for n in uses:
        ends = [m.id for m in r.nodes if m.kind == "endloop" and m.d.get("head") == n.id] or list(r.succ[n.id])
        p = r.path(ends, [m.id for m in uses if m is not n], avoid=dic)
        ctx.check("operands", where, p is None, "an iterator given is used up once only", n, show_path(p))


def once(t):
    """what iterating t iterates"""
    while t.op == "call" and t.args[0] in ("iter", "enumerate", ".items", ".keys", ".values") and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t


def writes_of(r):
    for n in r.nodes:
        if n.kind == "mut":
            yield n.d["target"], n, n.d["how"]
