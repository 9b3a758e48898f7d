"""Restrictions, unions, intersections and differences of computation frames hold exactly the elements, nodes and edges they stand for."""
from .members import *

EXPLANATION = (
    "The components of the frames that restrictions and set operations return are turned, from the abstract event graph, into membership conditions (propositional formulas with quantified iteration variables), "
    "and compared by truth table, under the index invariants of a frame, with the condition each component stands for."
)
ASSUMPTIONS = ["the indexes of the operands agree (C24)", "containers behave as documented", "a value has at most one creating call"]
X, K, S_, D_, L_ = sym("x"), sym("k"), sym("s"), sym("d"), sym("l")


def check(ctx):
    select_nodes(ctx)
    select_subsets(ctx)
    union(ctx)
    intersection(ctx)
    difference(ctx)
    folds(ctx)
    operators(ctx)
    getitem(ctx)
    by_value(ctx)
    adjacency(ctx)
    nullable(ctx)


def inn(x, t):
    return ("a", mk("op", "in", x, t))


def compare(ctx, r, rule, where, spec, storage):
    """every frame returned has, in every component, what spec says"""
    ctx.minimum(rule, where, len(r.ends), 1, "results")
    for n, st, v in r.ends:
        M = members(ctx, r, st)
        for a in alts(v):
            one(ctx, r, rule, where, M, st, n, a, spec, storage)


def one(ctx, r, rule, where, M, st, n, a, spec, storage):
    sto = field(ctx, r, M, st, a, "storage")
    ctx.check(rule, where, sto in storage, "the result belongs to the storage of its operand", n)
    for f in FIELDS:
        t = field(ctx, r, M, st, a, f)
        if t is None:
            ctx.bad(rule, where, f"the result has its {f}", n)
            continue
        same(ctx, rule, where, M, n, f, t, spec[f](M))


def same(ctx, rule, where, M, n, f, t, want):
    k, e, *pre = want
    pre = pre[0] if pre else {}
    eq = lambda a, b, p=T_: equiv(AND(p, a), AND(p, b))
    got = M.mem(t, K)
    if f in ("inp", "out"):
        ok = eq(got, k)
        ctx.check(rule, where, ok, f"{f} has the nodes it stands for", n, None if ok else showf(got))
        x, y = (S_, D_) if f == "out" else (D_, S_)
        g = M.mem(mk("sub", mk("sub", t, x), L_), y)
        ok = eq(g, e)
        ctx.check(rule, where, ok, f"{f} has the edges it stands for", n, None if ok else showf(g))
        return
    p = pre.get("keys", T_)
    if DEPTH[f] == 1:
        g = M.mem(mk("sub", t, K), X)
        ok = eq(got, k, p) or eq(got, AND(k, EX(0, put(e, X, var(0)))), p)
        ctx.check(rule, where, ok, f"{f} has the entries it stands for", n, None if ok else showf(got))
        ok = eq(g, AND(k, e), AND(p, pre.get("elements", T_)))
        ctx.check(rule, where, ok, f"{f} has the elements it stands for", n, None if ok else showf(g))
        return
    ok = eq(got, k, p)
    ctx.check(rule, where, ok, f"{f} has the entries it stands for", n, None if ok else showf(got))
    vals = {x for _, v in M.at(t, K, 0) for x in alts(v)}
    ctx.check(rule, where, bool(vals) and vals <= set(e), f"{f} has the values it stands for", n)


def atm(S, f):
    return mk("attr", S, f)


# ------------------------------------------------------------------------ restrictions
def restricted(S, keep, elt, edge, nodekeep):
    """the frame S with only the elements x of node k for which elt(k, x), on the nodes for which nodekeep(k)"""
    R = lambda x: EX(7, AND(inn(var(7), atm(S, "vs")), elt("vs", var(7), x)))
    C = lambda x: EX(7, AND(inn(var(7), atm(S, "fs")), elt("fs", var(7), x)))
    sub = lambda f, k: mk("sub", atm(S, f), k)
    nodes = lambda k: AND(OR(inn(k, atm(S, "vs")), inn(k, atm(S, "fs"))), nodekeep(k))
    e = AND(inn(D_, mk("sub", mk("sub", atm(S, "out"), S_), L_)), edge)
    return {
        "inp": lambda M: (nodes(K), e), "out": lambda M: (nodes(K), e),
        "vs": lambda M: (AND(inn(K, atm(S, "vs")), nodekeep(K)), elt("vs", K, X)),
        "fs": lambda M: (AND(inn(K, atm(S, "fs")), nodekeep(K)), elt("fs", K, X)),
        "refs": lambda M: (R(K), {sub("refs", K)}), "calls": lambda M: (C(K), {sub("calls", K)}),
        "refinv": lambda M: (R(K), AND(inn(X, atm(S, "vs")), elt("vs", X, K))), "callinv": lambda M: (C(K), AND(inn(X, atm(S, "fs")), elt("fs", X, K))),
        "creator": lambda M: (AND(R(K), inn(K, atm(S, "creator")), C(sub("creator", K))), {sub("creator", K)}),
        "consumers": lambda M: (AND(R(K), inn(K, atm(S, "consumers"))), AND(inn(X, sub("consumers", K)), C(X))),
    }


def select_nodes(ctx):
    r = frame_run(ctx, "select_nodes", "c25")
    S, N = r.P["self"], r.P["nodes"]
    elt = lambda f, k, x: AND(inn(k, N), inn(x, mk("sub", atm(S, f), k)))
    # only nodes of the frame can be selected
    node_axiom(ctx, r, S, N)
    spec = restricted(S, None, elt, AND(inn(S_, N), inn(D_, N)), lambda k: inn(k, N))
    spec["inp"] = spec["out"] = lambda M: (inn(K, N), AND(inn(D_, mk("sub", mk("sub", atm(S, "out"), S_), L_)), inn(S_, N), inn(D_, N)))
    compare(ctx, r, "select", f"{CF}.select_nodes", spec, {atm(S, "storage")})


def node_axiom(ctx, r, S, N):
    where = f"{CF}.select_nodes"
    M = members(ctx, r, r.ends[0][1])
    dec = []
    for n in r.nodes:
        if n.kind != "assume":
            continue
        c, pol = M.deep(n.d["cond"]), n.d["pol"]
        f = None
        if c.op == "op" and c.args[0] == "le":
            a, b = c.args[1], c.args[2]
            f = ("le", M.mem(a, X), M.mem(b, X))
        else:
            g = M.form(c, 0)
            g = g if pol else NOT(g)
            f = ("f", g)
        inN, inS = inn(X, N), OR(inn(X, atm(S, "vs")), inn(X, atm(S, "fs")))
        if f[0] == "le" and pol and equiv(f[1], inN) and equiv(f[2], inS):
            dec.append(n)
        if f[0] == "f" and f[1][0] == "not" and f[1][1][0] == "ex" and implies(put(AND(inN, NOT(inS)), X, var(f[1][1][1])), f[1][1][2]):
            dec.append(n)
        if f[0] == "f" and f[1][0] == "and" and all(z[0] == "not" for z in f[1][1:]):
            dec.append(n) if implies(EX(0, put(AND(inN, NOT(inS)), X, var(0))), OR(*[z[1] for z in f[1][1:]])) else None
    need(ctx, r, "select", where, dec, "only nodes of the frame can be selected")


def select_subsets(ctx):
    r = frame_run(ctx, "select_subsets", "c25")
    S, E = r.P["self"], r.P["elts"]
    elt = lambda f, k, x: inn(x, mk("sub", E, k))
    spec = restricted(S, None, elt, T_, lambda k: T_)
    # the elements given for a node are elements of the node
    for f in ("refs", "refinv", "creator", "consumers", "calls", "callinv"):
        pre = {"keys": inn(K, atm(S, "calls" if f in ("calls", "callinv") else "refs"))}
        if f in ("refinv", "callinv"):
            pre["elements"] = inn(K, mk("sub", atm(S, "vs" if f == "refinv" else "fs"), X))
        spec[f] = lambda M, g=spec[f], pre=pre: (*g(M), pre)
    compare(ctx, r, "subset", f"{CF}.select_subsets", spec, {atm(S, "storage")})


# ------------------------------------------------------------------------ set operations
def union(ctx):
    r = frame_run(ctx, "_binary_union", "c25", frames=("a", "b"))
    A, B = r.P["a"], r.P["b"]

    def two(f):
        def g(M):
            a, b = atm(A, f), atm(B, f)
            k = OR(M.mem(a, K), M.mem(b, K))
            if f in ("inp", "out"):
                x = mk("sub", mk("sub", atm(A, "out"), S_), L_)
                y = mk("sub", mk("sub", atm(B, "out"), S_), L_)
                return k, OR(inn(D_, x), inn(D_, y))
            if DEPTH[f] == 1:
                return k, OR(M.mem(mk("sub", a, K), X), M.mem(mk("sub", b, K), X))
            return k, {mk("sub", a, K), mk("sub", b, K)}
        return g
    compare(ctx, r, "union", f"{CF}._binary_union", {f: two(f) for f in FIELDS}, {atm(A, "storage"), atm(B, "storage")})


def intersection(ctx):
    r = frame_run(ctx, "_binary_intersection", "c25", frames=("a", "b"))
    A, B = r.P["a"], r.P["b"]
    both = lambda f, k, x: AND(inn(x, mk("sub", atm(A, f), k)), inn(x, mk("sub", atm(B, f), k)))
    R = lambda x: EX(7, both("vs", var(7), x))
    C = lambda x: EX(7, both("fs", var(7), x))

    def two(f):
        def g(M):
            a, b = atm(A, f), atm(B, f)
            k = AND(M.mem(a, K), M.mem(b, K))
            if f in ("inp", "out"):
                return k, AND(inn(D_, mk("sub", mk("sub", atm(A, "out"), S_), L_)), inn(D_, mk("sub", mk("sub", atm(B, "out"), S_), L_)))
            if f in ("refs", "calls"):
                return (R if f == "refs" else C)(K), {mk("sub", a, K), mk("sub", b, K)}
            if f in ("refinv", "callinv"):
                return (R if f == "refinv" else C)(K), both("vs" if f == "refinv" else "fs", X, K)
            if f == "creator":
                return AND(k, R(K), C(mk("sub", a, K))), {mk("sub", a, K), mk("sub", b, K)}
            if f == "consumers":
                return AND(k, R(K)), AND(inn(X, mk("sub", a, K)), inn(X, mk("sub", b, K)), C(X))
            return k, both(f, K, X)
        return g
    compare(ctx, r, "intersection", f"{CF}._binary_intersection", {f: two(f) for f in FIELDS}, {atm(A, "storage"), atm(B, "storage")})


def difference(ctx):
    where = f"{CF}._binary_setwise_difference"
    r = frame_run(ctx, "_binary_setwise_difference", "c25", frames=("a", "b"))
    A, B = r.P["a"], r.P["b"]
    sel = [n for n in method_calls(ctx, r, "select_subsets", A)]
    need(ctx, r, "difference", where, sel, "the difference is a restriction of the first frame")
    for n in sel:
        M = members(ctx, r, r.ends[0][1])
        t = M.deep(r.snap(n, barg(r, n, "elts")))
        f = M.mem(t, K)
        nodes = OR(inn(K, atm(A, "vs")), inn(K, atm(A, "fs")))
        ctx.check("difference", where, equiv(f, nodes), "the restriction speaks of all nodes of the first frame", n, showf(f))
        g = M.mem(mk("sub", t, K), X)
        of = lambda Z: OR(inn(X, mk("sub", atm(Z, "vs"), K)), inn(X, mk("sub", atm(Z, "fs"), K)))
        ctx.check("difference", where, equiv(g, AND(of(A), NOT(of(B)))), "the elements of the second frame are taken out of the same node of the first", n, showf(g))
    drops = [n for n in method_calls(ctx, r, "drop_unreachable") if any(n.d["recv"] is s.d["result"] for s in sel)]
    for n in drops:
        ok = given(ctx, r, n, "direction") is mk("const", "forward") and given(ctx, r, n, "how") is mk("const", "strong")
        ctx.check("difference", where, ok, "what is no longer computed from the rest is dropped", n)
    need(ctx, r, "difference", where, drops, "what is no longer computed from the rest is dropped")
    clean = [n for n in method_calls(ctx, r, "cleanup") if any(n.d["recv"] is s.d["result"] for s in drops)]
    need(ctx, r, "difference", where, clean, "nodes without elements are dropped")
    for n, st, v in r.ends:
        ok = all(any(a is d.d["result"] for d in drops) and all(inplace_of(ctx, c) is True for c in clean) or
                 any(a is c.d["result"] and inplace_of(ctx, c) is not True for c in clean) for a in alts(v))
        ctx.check("difference", where, ok, "the difference is returned", n)


def folds(ctx):
    for name, one_ in (("union", "_binary_union"), ("intersection", "_binary_intersection")):
        where = f"{CF}.{name}"
        r = frame_run(ctx, name, "c25", frames=(), inline=VIEWS - {one_}, extra=ENTRY | {one_})
        op = ctx.prog.method(CF, one_)
        cfs = r.P["cfs"]
        cs = [n for n in r.nodes if n.kind == "call" and n.d["name"] == op.qual]
        res = {c.d["result"] for c in cs}
        first = {mk("sub", cfs, const(0)), mk("elem", cfs)}
        first |= {z for c in cs for a in c.d["args"] for z in alts(strip(a)) if z.op == "unk" and z.args[0] == frozenset({cfs})}
        rest = lambda t: t.op == "elem" and (t.args[0] is cfs or tail(t.args[0], cfs))
        ctx.minimum("fold", where, len(cs), 1, "pairwise operations")
        for c in cs:
            sides = [set(alts(strip(a))) for a in (barg(r, c, "a"), barg(r, c, "b"))]
            known = all(z in first | res or rest(z) for s in sides for z in s)
            each_ = any(all(rest(z) for z in s) for s in sides)
            ctx.check("fold", where, known and each_, f"the {name} takes in every frame given", c)
        for b in r.nodes:
            ctx.check("fold", where, b.kind not in ("break", "loopret"), f"the {name} takes in every frame given", b) if b.kind in ("break", "loopret") else None
        for n, st, v in r.ends:
            ok = all(a in first | res for a in alts(v)) and any(a in res for a in alts(v))
            ctx.check("fold", where, ok, f"the {name} of several frames is that of all of them", n)
            starts = any(rest(z) and z.args[0] is not cfs for c in cs for a in (barg(r, c, "a"), barg(r, c, "b")) for z in alts(strip(a)))
            if starts:
                ok = any(z in first for c in cs for a in (barg(r, c, "a"), barg(r, c, "b")) for z in alts(strip(a)))
                ctx.check("fold", where, ok, f"the {name} takes in the first frame", n)


def tail(t, cfs):
    """cfs without its first element"""
    return t.op == "sub" and t.args[0] is cfs and t.args[1] is mk("slice", const(1), NONE, NONE)


def operators(ctx):
    for name, one_ in (("__or__", "_binary_union"), ("__and__", "_binary_intersection"), ("__sub__", "_binary_setwise_difference")):
        where = f"{CF}.{name}"
        r = frame_run(ctx, name, "c25", inline=VIEWS - {one_}, extra=ENTRY | {one_})
        me, other = r.P["self"], r.P["other"]
        big = {"__or__": "union", "__and__": "intersection"}.get(name)
        ok_ = []
        for n in r.nodes:
            if n.kind != "call":
                continue
            q = n.d["name"] or ""
            if q.endswith("." + one_) and [r.snap(n, x) for x in (barg(r, n, "a"), barg(r, n, "b"))] == [me, other]:
                ok_.append(n)
            if big and q.endswith(f"{CF}.{big}") and [r.snap(n, x) for x in n.d["args"]] == [me, other]:
                ok_.append(n)
        for n, st, v in r.ends:
            ok = all(any(a is c.d["result"] for c in ok_) for a in alts(v))
            ctx.check("operator", where, ok, "the operator is the operation on both frames, in order", n)


def getitem(ctx):
    where = f"{CF}.__getitem__"
    r = frame_run(ctx, "__getitem__", "c25")
    ix = r.P["indexer"]
    sel = method_calls(ctx, r, "select_nodes", r.P["self"])
    strs = [n for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "isinstance" and n.cond.args[1] is ix and "str" in show(n.cond.args[2], 4)]
    M = members(ctx, r, r.ends[0][1])
    for n in sel:
        a = r.snap(n, barg(r, n, "nodes"))
        f = M.mem(M.deep(a), X)
        single = any(equiv(f, g) for g in (("a", mk("op", "same", *sorted((X, ix), key=lambda z: z.uid))),))
        many = equiv(f, inn(X, ix))
        ctx.check("index", where, single or many, "the nodes named are selected", n, showf(f))
        if single:
            before(ctx, r, "index", where, n, [m for m in strs if m.d["pol"]], "one name selects one node")
        else:
            q = r.path([m.id for m in strs if m.d["pol"]], [n.id])
            ctx.check("index", where, q is None, "a name is not taken for a collection of names", n, show_path(q))
    ctx.minimum("index", where, len(sel), 1, "selections")
    for n, st, v in r.ends:
        for a in alts(v):
            ok = any(a is s.d["result"] for s in sel) or a is NONE
            ctx.check("index", where, ok, "the selection is returned", n)


# ------------------------------------------------------------------------ selection by value
def by_value(ctx):
    for name in ("isin", "__lt__"):
        where = f"{CF}.{name}"
        for by in (("val", "hid", "cid") if name == "isin" else (None,)):
            r = by_run(ctx, name, by)
            S = r.P["self"]
            w = where + (f" (by {by})" if by else "")
            sel = method_calls(ctx, r, "select_subsets", S)
            add = method_calls(ctx, r, "_add_adj_calls", S)
            need(ctx, r, "value", w, sel, "the frame is restricted to the elements selected")
            need(ctx, r, "value", w, add, "the calls next to the values selected are kept")
            for n in sel:
                ctx.check("value", w, r.snap(n, barg(r, n, "elts")) in {a.d["result"] for a in add}, "the values selected and the calls next to them are kept", n)
            for n in add:
                M = members(ctx, r, r.ends[0][1])
                t = M.deep(r.snap(n, barg(r, n, "vars_view")))
                f = M.mem(t, K)
                ctx.check("value", w, equiv(f, inn(K, atm(S, "vs"))), "the selection speaks of all variables", n, showf(f))
                g = M.mem(mk("sub", t, K), X)
                ref = mk("sub", atm(S, "refs"), X)
                if name == "isin":
                    got = {"val": unwrapped(ctx, r, ref), "hid": {X, mk("attr", ref, "hid")}, "cid": {mk("attr", ref, "cid")}}[by]
                    want = [AND(inn(X, mk("sub", atm(S, "vs"), K)), inn(z, r.P["values"])) for z in got]
                else:
                    want = [AND(inn(X, mk("sub", atm(S, "vs"), K)), ("a", mk("op", "lt", z, r.P["other"]))) for z in unwrapped(ctx, r, ref)]
                ctx.check("value", w, any(equiv(g, z) for z in want), "the elements selected are those with the given property, in every variable", n, showf(g))
            for n, st, v in r.ends:
                ctx.check("value", w, all(any(a is s.d["result"] for s in sel) for a in alts(v)), "the restricted frame is returned", n)


def by_run(ctx, name, by):
    params = {"by": const(by), "node_class": const("var")} if by else None

    def setup(it, st):
        it.pure_lookup = True
        it.hints[mk("param", "self")] = CF
    op = contracts(ctx, name, inline=VIEWS - {"_add_adj_calls"})
    return ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {"_add_adj_calls"} or op(f), tag=("c25", name, by), params=params, setup=setup)


def unwrapped(ctx, r, ref):
    """the value of a reference, loaded"""
    out = set()
    for n in r.nodes:
        if n.kind == "call" and (n.d["name"] or "").endswith("Storage.unwrap"):
            t = n.d["result"]
            out.add(mk(t.op, t.args[0], *[subst(a, {n.d["args"][0]: ref}) if isinstance(a, T) and n.d["args"] else a for a in t.args[1:]]))
    return out


# ------------------------------------------------------------------------ helpers
def adjacency(ctx):
    """edges as tuples and edges by node are the same edges"""
    fn = ctx.prog.functions.get("mandala.utils.get_adj_from_edges")
    if fn is None:
        return
    where = "get_adj_from_edges"
    r = ctx.run(None, fn.name, opaque=lambda f: False, tag=("c25",))
    E, N = r.P["edges"], r.P["node_support"]
    src, dst, label = (mk("sub", mk("elem", E), mk("const", i)) for i in range(3))
    for n, st, v in r.ends:
        ok = v.op == "tuple" and len(v.args) == 2
        ctx.check("edges", where, ok, "both adjacencies are returned", n)
        if not ok:
            continue
        for i, (root, a, b) in enumerate(((v.args[0], src, dst), (v.args[1], dst, src))):
            what = ("out", "inp")[i]
            F = Rooted(r, root)
            heads = []
            for l in loops_over(r, lambda z: z is E):
                adds = [m for m in F.sites("add", (a, label), b) if m.id in body(r, l)]
                if every_item(ctx, r, "edges", where, l, adds, f"every edge is in {what}"):
                    heads.append(l)
            need(ctx, r, "edges", where, heads, f"every edge is in {what}")
            for o in F.ops:
                ok = o.kind in ("set", "default") and (o.val is None or o.val.op == "items") or o.kind == "add" and same_path(o.path, (a, label)) and o.val is b
                ok = ok and o.path[0] in (a, mk("elem", N))
                ctx.check("edges", where, ok, f"{what} has only the edges given", o.node)
                if o.kind == "set" and o.node.d.get("value") is not None:
                    dec = [m for m in r.nodes if F.has(m, o.path[:-1], o.path[-1]) < 0]
                    before(ctx, r, "edges", where, o.node, dec, f"an entry of {what} is started only where there is none")
            none = [m for m in r.nodes if none_test(m, {N}) > 0]
            sup = []
            for l in loops_over(r, lambda z: z is N):
                k = mk("elem", N)
                ss = [o.node for o in F.ops if o.kind in ("set", "default") and same_path(o.path, (k,)) and o.node.id in body(r, l)]
                has = [m for m in r.nodes if F.has(m, (), k) > 0]
                if every_item(ctx, r, "edges", where, l, ss, f"every node has an entry in {what}", legit=has):
                    sup.append(l)
            need(ctx, r, "edges", where, sup, f"every node has an entry in {what}", legit=none)


class Rooted(Frame):
    """changes of the nested dictionary `root`"""

    def __init__(self, r, root):
        self.root = root
        Frame.__init__(self, r, None)

    def at(self, t, path):
        p = self.place(t)
        return p is not None and same_path(p, path)

    def has(self, n, path, x):
        if n.kind == "assume":
            c = n.d["cond"]
            if c.op == "op" and c.args[0] == "in" and c.args[1] is x:
                if any(self.at(o, path) for o in self.r.it.probes.get((x, c.args[2]), ())):
                    return 1 if n.d["pol"] else -1
        return Frame.has(self, n, path, x)

    def place(self, t, d=0):
        if t is self.root:
            return ()
        if t is None or d > 8:
            return None
        if t.op in ("sub", "val"):
            p = self.place(t.args[0], d + 1)
            return None if p is None else p + ((t.args[1],) if t.op == "sub" else (mk("key", t.args[0]),))
        if t.op == "call" and t.args[0] in (".setdefault", ".get") and len(cargs(t)) >= 2:
            p = self.place(cargs(t)[0], d + 1)
            return None if p is None else p + (cargs(t)[1],)
        if t.op == "obj":
            ps = set()
            for n, k in self.stored.get(t, []):
                p = self.place(n.d["target"], d + 1)
                if p is not None:
                    ps.add(p + (self.r.snap(n, k),))
            return ps.pop() if len(ps) == 1 else None
        if t.op == "phi":
            ps = {self.place(a, d + 1) for a in t.args}
            return ps.pop() if len(ps) == 1 else None
        return None


def nullable(ctx):
    """the union of any number of sets"""
    for name in ("get_nullable_union", "get_nullable_intersection"):
        fn = ctx.prog.functions.get("mandala.utils." + name)
        if fn is None:
            continue
        r = ctx.run(None, fn.name, opaque=lambda f: False, tag=("c25",))
        sets = r.P["sets"]
        op = "bitor" if name == "get_nullable_union" else "bitand"
        none = [m for m in r.nodes if m.kind == "assume" and empty_side(m, sets)]
        for n, st, v in r.ends:
            M = Members(r, st)
            t = M.deep(v)
            what = f"the {name[13:]} of all sets given"
            if gathered(r, t, sets, op):
                ctx.ok("sets", name, what, n)
                continue
            f = M.mem(t, X)
            if t.op == "phi" and any(a.op == "items" and len(a.args) == 1 or a.op == "call" and a.args[0] in COPIES and not cargs(a) for a in t.args):
                tests = [m for m in r.nodes if m.kind == "assume"]
                ctx.check("sets", name, none and all(emptiness(m.d["cond"], sets) for m in tests), "only no sets at all give nothing", n)
            if f == F_:
                before(ctx, r, "sets", name, n, none, "only no sets at all give nothing")
            elif op == "bitor":
                want = M.arg(mk("star", sets), X, 0)
                ctx.check("sets", name, equiv(f, want), what, n, showf(f))
            else:
                ok = all(a.op == "call" and a.args[0] == ".intersection" and mk("star", sets) in a.args for a in alts(t) if not (a.op == "items" and len(a.args) == 1))
                ctx.check("sets", name, ok, what, n)


def emptiness(c, sets):
    return c.op == "op" and c.args[0] == "truth" and c.args[1] is sets or size_cond(c, lambda t: t is sets) in ("0", ">0")


def empty_side(m, sets):
    """the branch on which no sets are given"""
    c, pol = m.d["cond"], m.d["pol"]
    if c.op == "op" and c.args[0] == "truth" and c.args[1] is sets:
        return not pol
    s = size_cond(c, lambda t: t is sets)
    return s == "0" and pol or s == ">0" and not pol


def gathered(r, t, sets, op):
    """all sets are put together one by one"""
    if t.op != "phi":
        return False
    steps = [a for a in t.args if a.op == "op" and a.args[0] == op or a.op == "call" and a.args[0] == (".union" if op == "bitor" else ".intersection")]
    heads = [n for n in r.nodes if n.kind == "loop" and n.d["siter"] is sets]
    if len(heads) != 1 or not steps or any(n.kind in ("break", "loopret") for n in r.nodes):
        return False
    if any(n.kind == "assume" and n.id in body(r, heads[0]) for n in r.nodes):
        return False
    e = mk("elem", sets)
    return all(e in set(subterms(a)) for a in steps)


