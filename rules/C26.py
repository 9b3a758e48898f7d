"""Navigation: adjacent, source, sink and reachable elements of a computation frame."""
from .members import *
from .C25 import inn, atm, K, X, S_, D_, L_

EXPLANATION = (
    "Membership analysis of the navigation operations: the collection each returns is read off the event graph as a condition on a generic element (edge, node, value or call) and compared, by truth "
    "table under the frame invariants of C24, with the condition the operation stands for, for each direction and kind of edge. Reachability, paths and histories are decided from the calls, "
    "decisions and stores of their fixed-point loops: which edges and elements go in, what is added under which condition, and what ends the loop."
)
ASSUMPTIONS = ["frames satisfy the index invariants of C24", "edges join a variable and a function",
               "get_edges_in_paths and almost_topological_sort of mandala.utils do what their names say (graph algorithms, see not applicable)"]
ADJ = "get_adj_elts_edge"


def check(ctx):
    views(ctx)
    edge_elements(ctx)
    adjacent(ctx)
    ends_of_frame(ctx)
    projections(ctx)
    calls_next_to(ctx)
    reach(ctx)
    reachable_nodes(ctx)
    streams(ctx)


def same_term(a, b):
    return ("a", mk("op", "same", *sorted((a, b), key=lambda z: z.uid)))


def canon(ctx, r, st, name, params):
    """members at st in which the results of calls to the operation `name` are told by their arguments only"""
    m = {n.d["result"]: n.d["recv"] for n in r.nodes if cf_method(ctx, n) == "copy"}
    for n in r.nodes:
        if n.kind == "call" and cf_method(ctx, n) == name:
            t = mk("call", name, n.d["recv"], *[r.snap(n, given(ctx, r, n, p)) for p in params])
            m[n.d["result"]] = t
            m[r.snap(n, n.d["result"])] = t
    return Members(r, st, m)


def single(ctx, rule, where, r, M_of, x, want, msg, proj=lambda t: t):
    ctx.minimum(rule, where, len(r.ends), 1, "results")
    for n, st, v in r.ends:
        M = M_of(st)
        for a in alts(v):
            f = M.mem(proj(M.deep(a)), x)
            ok = any(equiv(f, w) for w in want)
            ctx.check(rule, where, ok, msg, n, None if ok else showf(f))


# ------------------------------------------------------------------------ views
def views(ctx):
    S = mk("param", "self")
    n = mk("param", "node")
    E = lambda s, d, l: inn(d, mk("sub", mk("sub", atm(S, "out"), s), l))
    t3 = mk("tuple", S_, D_, L_)
    node = OR(inn(X, atm(S, "vs")), inn(X, atm(S, "fs")))
    eq = lambda a, b: ("a", mk("op", "eq", *sorted((a, b), key=lambda z: z.uid)))
    specs = {
        "edges": (t3, E(S_, D_, L_), "the edges are those between its nodes"),
        "in_neighbors": (X, EX(0, E(X, n, var(0))), "its in-neighbours have an edge to the node"),
        "out_neighbors": (X, EX(0, E(n, X, var(0))), "its out-neighbours have an edge from the node"),
        "sources": (X, AND(inn(X, atm(S, "vs")), NOT(EX(0, inn(var(0), mk("sub", atm(S, "inp"), X))))), "its sources are the variables without edges into them"),
        "sinks": (X, AND(inn(X, atm(S, "vs")), NOT(EX(0, inn(var(0), mk("sub", atm(S, "out"), X))))), "its sinks are the variables without edges out of them"),
        "nodes": (X, node, "its nodes are its variables and functions"),
        "vnames": (X, inn(X, atm(S, "vs")), "its variables"),
        "fnames": (X, inn(X, atm(S, "fs")), "its functions"),
    }
    for name, (x, want, msg) in specs.items():
        r = frame_run(ctx, name, "c26")
        single(ctx, "views", f"{CF}.{name}", r, lambda st: members(ctx, r, st), x, [want], msg)
    for name, at in (("in_edges", D_), ("out_edges", S_)):
        # with the node put in for the end it is
        r = frame_run(ctx, name, "c26")
        for e, st, v in r.ends:
            M = members(ctx, r, st)
            for a in alts(v):
                f = M.mem(M.deep(a), t3)
                w = AND(E(S_, D_, L_), ("a", mk("op", "eq", n, at)))
                w2 = AND(E(S_, D_, L_), ("a", mk("op", "eq", at, n)))
                w3 = AND(E(S_, D_, L_), same_term(n, at))
                ok = any(equiv(f, z) for z in (w, w2, w3))
                ctx.check("views", f"{CF}.{name}", ok, "the edges at the node on that side", e, None if ok else showf(f))
        ctx.minimum("views", f"{CF}.{name}", len(r.ends), 1, "results")
    r = frame_run(ctx, "sets", "c26")
    single(ctx, "views", f"{CF}.sets", r, lambda st: members(ctx, r, st), K, [OR(inn(K, atm(S, "vs")), inn(K, atm(S, "fs")))], "the elements are told for all nodes")
    single(ctx, "views", f"{CF}.sets", r, lambda st: members(ctx, r, st), X,
           [OR(*[AND(inn(K, atm(S, f)), inn(X, mk("sub", atm(S, f), K))) for f in ("vs", "fs")])], "each node has its elements", proj=lambda t: mk("sub", t, K))


# ------------------------------------------------------------------------ along one edge
def edge_elements(ctx):
    S, H = mk("param", "self"), mk("param", "hids")
    s, d, l = (mk("param", z) for z in ("src", "dst", "label"))
    N = lambda c: mk("call", "get_names_projecting_to", S, c, l)
    call = lambda c: mk("sub", atm(S, "calls"), c)
    io = lambda c, side, n: mk("attr", mk("sub", mk("attr", call(c), side), n), "hid")

    def named(c, i, side):
        """?i is a name of call c that the label stands for"""
        return AND(inn(var(i), N(c)), inn(var(i), mk("attr", call(c), side)))
    specs = {
        ("back", "vs"): [AND(inn(X, mk("sub", atm(S, "fs"), s)), EX(0, AND(inn(var(0), H), inn(var(0), atm(S, "creator")), same_term(X, mk("sub", atm(S, "creator"), var(0))))))],
        ("back", "fs"): [AND(inn(X, mk("sub", atm(S, "vs"), s)), EXS(0, 2, AND(inn(var(0), H), named(var(0), 1, "inputs"), same_term(X, io(var(0), "inputs", var(1))))))],
        ("forward", "vs"): [AND(inn(X, mk("sub", atm(S, "fs"), d)), EX(0, AND(named(X, 0, "inputs"), inn(io(X, "inputs", var(0)), H))))],
        ("forward", "fs"): [AND(inn(X, mk("sub", atm(S, "vs"), d)), EXS(0, 2, AND(inn(var(0), H), named(var(0), 1, "outputs"), same_term(X, io(var(0), "outputs", var(1))))))],
    }
    # a value was created by the call as one of the outputs the label stands for
    lab = EXS(0, 2, AND(inn(var(0), H), inn(var(0), atm(S, "creator")), same_term(X, mk("sub", atm(S, "creator"), var(0))),
                        named(X, 1, "outputs"), same_term(var(0), io(X, "outputs", var(1)))))
    specs[("back", "vs")].append(AND(inn(X, mk("sub", atm(S, "fs"), s)), lab))
    msg = {("back", "vs"): "back from a variable: the calls of the function that created the values",
           ("back", "fs"): "back from a function: the values of the variable that are inputs of the calls under the edge's label",
           ("forward", "vs"): "forward from a variable: the calls of the function that take the values under the edge's label",
           ("forward", "fs"): "forward from a function: the values of the variable that the calls give under the edge's label"}
    for (direction, kind), want in specs.items():
        a, b = (d, s) if direction == "back" else (s, d)
        other = "fs" if kind == "vs" else "vs"

        def setup(it, st, a=a, b=b, kind=kind, other=other):
            it.pure_lookup = True
            it.hints[S] = CF
            fs = []
            for node, inside, out in ((a, kind, other), (b, other, kind)):
                for x, p in ((inside, True), (out, False)):
                    fs.append((mk("op", "in", node, mk("attr", S, x)), p))
            st.facts = st.facts | frozenset(fs)
        op = contracts(ctx, ADJ, inline=VIEWS - {"get_names_projecting_to"})
        r = ctx.run(CF, ADJ, opaque=lambda f: f.name in ENTRY | {"get_names_projecting_to"} or (f.name != ADJ and op(f)), tag=("c26", direction, kind),
                    params={"direction": const(direction), "edge": mk("tuple", s, d, l)}, setup=setup)
        single(ctx, "edge", f"{CF}.{ADJ} ({direction}, {'variable' if kind == 'vs' else 'function'})", r,
               lambda st: canon(ctx, r, st, "get_names_projecting_to", ("call_hid", "label")), X, want, msg[(direction, kind)])


# ------------------------------------------------------------------------ next to a node
def adjacent(ctx):
    S, n, H = (mk("param", z) for z in ("self", "node", "hids"))
    E = lambda s, d, l: inn(d, mk("sub", mk("sub", atm(S, "out"), s), l))
    A = lambda e, way: mk("call", ADJ, S, mk("tuple", *e), H, const(way))
    back = lambda k, x: EX(0, AND(E(k, n, var(0)), inn(x, A((k, n, var(0)), "back")) if x is not None else T_))
    forw = lambda k, x: EX(0, AND(E(n, k, var(0)), inn(x, A((n, k, var(0)), "forward")) if x is not None else T_))
    for way in ("back", "forward", "both"):
        r = frame_run(ctx, "get_adj_elts", ("c26", way), params={"direction": const(way)})
        where = f"{CF}.get_adj_elts ({way})"
        parts = [f for f, w in ((back, "back"), (forw, "forward")) if way in (w, "both")]
        M_of = lambda st: canon(ctx, r, st, ADJ, ("edge", "hids", "direction"))
        node = OR(inn(K, atm(S, "vs")), inn(K, atm(S, "fs")))
        single(ctx, "adjacent", where, r, M_of, K, [OR(*[p(K, None) for p in parts]), OR(*[p(K, None) for p in parts], inn(K, atm(S, "vs")), inn(K, atm(S, "fs")))],
               "the neighbours on the side asked for are told")
        single(ctx, "adjacent", where, r, M_of, X, [OR(*[p(K, X) for p in parts])], "each neighbour's elements are those next to the given ones over any edge", proj=lambda t: mk("sub", t, K))
        calls = {n.d["result"] for n in r.nodes if n.kind == "call" and str(n.d["name"]).rsplit(".", 1)[-1] == ADJ.rsplit(".", 1)[-1]}
        ctx.minimum("adjacent", where, len(calls), 1, "steps along edges")
        for e, st, v in r.ends:
            lost = [i for y in walk(r.it.snap(st, v)) if y.op == "items" for i in y.args[1:] if i.args[0] is not None and i.args[2] and any(a in calls or a.op == "call" and str(a.args[0]) == ADJ for a in alts(i.args[1]))
                    and not any("in" in (q[0].args[0], *q[0].args[1:]) or show(q[0], 1) == "widened(in)" for q in i.args[3] if q[0].op in ("op", "widened"))]
            ctx.check("adjacent", where, not lost, "several edges to one neighbour are joined", e, show(lost[0].args[1]) if lost else None)


def ends_of_frame(ctx):
    S = mk("param", "self")
    E = lambda s, d, l: inn(d, mk("sub", mk("sub", atm(S, "out"), s), l))
    for name, way in (("get_source_elts", "forward"), ("get_sink_elts", "back")):
        r = frame_run(ctx, name, "c26")
        where = f"{CF}.{name}"
        M_of = lambda st: canon(ctx, r, st, ADJ, ("edge", "hids", "direction"))
        sets = lambda k: phi(*[mk("sub", atm(S, f), k) for f in ("vs", "fs")])
        single(ctx, "ends", where, r, M_of, K, [OR(inn(K, atm(S, "vs")), inn(K, atm(S, "fs")))], "all nodes are told")
        e = (var(0), K, var(1)) if way == "forward" else (K, var(0), var(1))
        own = OR(*[AND(inn(K, atm(S, f)), inn(X, mk("sub", atm(S, f), K))) for f in ("vs", "fs")])
        # the other end of an edge at a variable is a function
        prod = [EXS(0, 2, AND(E(*e), inn(X, mk("call", ADJ, S, mk("tuple", *e), sets(var(0)), const(way)))))]
        single(ctx, "ends", where, r, M_of, X, [AND(own, NOT(p)) for p in prod],
               "left are the elements of the node that no edge " + ("into it comes to" if way == "forward" else "out of it starts from"), proj=lambda t: mk("sub", t, K))


# ------------------------------------------------------------------------ names and labels
LIST = const("__make_list__")


def projections(ctx):
    """an element of a list stands for all of them: label "elts" <-> the names elts_0, elts_1, ..."""
    S, c = mk("param", "self"), mk("param", "call_hid")
    call = mk("sub", atm(S, "calls"), c)
    opname = mk("attr", mk("attr", call, "op"), "name")
    starts = lambda x: ("a", mk("call", ".startswith", x, const("elts_")))
    inp = lambda x: inn(x, mk("attr", call, "inputs"))
    for lst in (True, False):
        facts = frozenset({(mk("op", "eq", *z), lst) for z in ((opname, LIST), (LIST, opname))})

        def setup(it, st):
            it.pure_lookup = True
            it.hints[S] = CF
            st.facts = st.facts | facts
        for elts in (True, False):
            # the label is "elts", or another one
            lab = const("elts") if elts else mk("param", "label")

            def lsetup(it, st):
                setup(it, st)
                st.facts = st.facts | frozenset({(mk("op", "eq", *z), False) for z in ((lab, const("elts")), (const("elts"), lab))} if not elts else ())
            name = "get_names_projecting_to"
            op = contracts(ctx, name, inline=VIEWS)
            r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY or op(f), tag=("c26", lst, elts), setup=lsetup, params={"label": lab} if elts else None)
            where = f"{CF}.{name} ({'list' if lst else 'other call'}, {'elements' if elts else 'another label'})"
            ctx.minimum("labels", where, len(r.ends), 1, "results")
            for n, st, v in r.ends:
                M = members(ctx, r, st)
                f = M.mem(M.deep(v), X)
                f = settle(f, facts | frozenset({(mk("op", "eq", *z), False) for z in ((lab, const("elts")), (const("elts"), lab))} if not elts else ()))
                is_lab = [("a", mk("op", o, *z)) for o in ("same", "eq") for z in ((X, lab), (lab, X))]
                want = [inp(X), AND(inp(X), starts(X))] if lst and elts else is_lab
                ok = any(equiv(f, w) for w in want)
                ctx.check("labels", where, ok, "the names are the elements of the list" if lst and elts else "only the name itself goes under the label", n, None if ok else showf(f))
        name = "get_io_proj"
        op = contracts(ctx, name, inline=VIEWS)
        P = mk("param", "name")
        r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY or op(f), tag=("c26", lst), setup=setup)
        where = f"{CF}.{name} ({'list' if lst else 'other call'})"
        ctx.minimum("labels", where, len(r.ends), 1, "results")
        st_ = mk("call", ".startswith", P, const("elts_"))
        for n, st, v in r.ends:
            for a in alts(v):
                facts_ = dict((x.args[1] if x.op == "op" and x.args[0] == "truth" else x, p) for x, p in st.facts)
                el = facts_.get(st_)
                if el is None and a is P and lst and v.op == "phi":
                    el = False    # either, by a decision that is part of the value
                ok = a is P and (not lst or el is False) or lst and a is const("elts") and (el is True or v.op == "phi")
                ctx.check("labels", where, ok, "elements of a list go under \"elts\", other names under themselves", n, None if ok else show(a))


def settle(f, facts):
    """a formula with the facts put in"""
    d = dict(facts)
    if f[0] == "a":
        t = f[1]
        if t.op == "op" and t.args[0] == "truth" and t.args[1] in d:
            return T_ if d[t.args[1]] else NOT(T_)
        return (T_ if d[t] else NOT(T_)) if t in d else f
    if f[0] in ("and", "or", "not"):
        parts = [settle(x, facts) for x in f[1:]] if not isinstance(f[1], list) else [settle(x, facts) for x in f[1]]
        return {"and": AND, "or": OR, "not": NOT}[f[0]](*parts)
    return f


# ------------------------------------------------------------------------ calls next to the values of a table
def calls_next_to(ctx):
    S, V = mk("param", "self"), mk("param", "vars_view")
    name = "_add_adj_calls"
    r = frame_run(ctx, name, "c26")
    where = f"{CF}.{name}"
    sites = [n for n in method_calls(ctx, r, "get_adj_elts") if n.d["recv"] is S]
    ctx.minimum("table", where, len(sites), 1, "steps to the calls next to a variable's values")
    for n in sites:
        ctx.check("table", where, given(ctx, r, n, "direction") is const("both"), "calls on both sides", n)
        ctx.check("table", where, contains_key(r.snap(n, given(ctx, r, n, "node")), V), "starting from the variables of the table", n)
        loops = [l for l in r.nodes if l.kind == "loop" and n.id in body(r, l) and contains(r.snap(l, l.d["siter"]), V)]
        ctx.check("table", where, bool(loops), "every variable of the table is taken", n)
        for l in loops:
            every_item(ctx, r, "table", where, l, [n], "every variable of the table is taken")
    for e, st, v in r.ends:
        M = members(ctx, r, st)
        for a in alts(v):
            f = M.mem(M.deep(a), K)
            ctx.check("table", where, implies(inn(K, atm(S, "fs")), f) or filled(r, mk("attr", S, "fs"), a), "every function has an entry", e)
        t = r.it.snap(st, v)
        ctx.check("table", where, any(contains(t, n.d["result"]) for n in sites) or any(contains(r.it.snap(st, x), n.d["result"]) for x in parts(t) for n in sites)
                  or any(kept(r, n) for n in sites), "the calls found are part of the table", e)
    for n in sites:
        ctx.check("table", where, unioned(r, n), "the calls found next to one variable join those found next to others", n)


def filled(r, base, d):
    """a loop over the collection gives every element an entry in the dict, unless it has one"""
    for l in r.nodes:
        if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) in (base, mk("call", ".keys", base)):
            ids = [m.id for m in r.nodes if m.kind == "mut" and m.d["target"] is d and m.d["how"] in ("setitem", "setdefault") and from_base(m.d["key"] if m.d["key"] is not None else m.d["args"][0], base)]
            ids += [c.id for c in r.nodes if c.kind == "assume" and c.d["pol"] and c.d["cond"].op == "op" and c.d["cond"].args[0] == "in" and from_base(c.d["cond"].args[1], base)]
            if ids and r.path(per_item(r, l), backs(r, l), avoid=ids) is None and not any(b.kind in ("break", "loopret") and b.d["head"] == l.id for b in r.nodes):
                return True
    return False


def from_base(t, base):
    return t in (mk("key", base), mk("elem", base), mk("elem", mk("call", ".keys", base)))


def unioned(r, n):
    """the result is joined to what was there before"""
    x = n.d["result"]
    ls = n_loops(r, n)
    inner = body(r, max(ls, key=lambda l: l.id)) if ls else None
    for m in r.nodes:
        if m.kind == "loop" and ls and m.id < max(l.id for l in ls) and not any(z.op == "items" for v in (m.d.get("carried") or {}).values() for z in v[2]):
            continue
        if m.kind == "mut" and inner is not None and m.id not in inner:
            continue
        if m.kind == "mut" and m.d["how"] in ("update", "add") and "dict" not in (m.d["target"].args[0] if m.d["target"].op == "obj" else ""):
            if any(contains(a, x) or contains(r.snap(m, a), x) for a in m.d["args"]):
                return True
        terms = []
        if m.kind == "mut" and isinstance(m.d["value"], T):
            terms.append(r.snap(m, m.d["value"]))
        if m.kind == "loop":
            terms += [z for v in (m.d.get("carried") or {}).values() for z in v[2]]
        for t in terms:
            if any((y.op == "op" and y.args[0] == "bitor" or y.op == "call" and str(y.args[0]).endswith("union")) and contains(y, x) for y in walk(t)):
                return True
        if any(y.op == "items" and contains(y, x) and any(contains(z, mk("elem", x)) for z in walk(y)) and len(n_loops(r, n)) and gathered(y, x, r, n) for t in terms for y in walk(t)):
            return True
    return False


def n_loops(r, n):
    return [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and n.id in body(r, l)]


def gathered(y, x, r, n):
    """y is a collection with an entry for all elements of all the results"""
    srcs = {r.snap(l, l.d["siter"]) for l in n_loops(r, n)}
    return any(i.op == "item" and contains(i.args[1], mk("elem", x)) and any(s in srcs for s in walk(i.args[2])) for i in y.args[1:])


def kept(r, n):
    """the result is put into what the loop carries on"""
    return any(contains(r.it.snap(m.state, z) if hasattr(m, "state") else z, n.d["result"]) or contains(z, n.d["result"])
               for m in r.nodes if m.kind == "loop" for _, (_, _, c) in (m.d.get("carried") or {}).items() for z in c) or any(
        m.kind == "mut" and any(contains(r.snap(m, a), n.d["result"]) or contains(a, n.d["result"]) for a in list(m.d["args"]) + [m.d["key"], m.d["value"]] if isinstance(a, T)) for m in r.nodes)


def parts(t):
    return list(walk(t))


def contains(t, x):
    return any(y is x for y in walk(t))


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, (tuple, list, frozenset)):
        for b in t:
            yield from walk(b, seen)
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        yield from walk(a, seen)


def contains_key(t, base):
    return any(y.op in ("key", "elem") and contains(y, base) for y in walk(t))


# ------------------------------------------------------------------------ reachable elements
def reach(ctx):
    S, I = mk("param", "self"), mk("param", "initial_state")
    name = "get_reachable_elts"
    for way, adj, end, side in (("forward", "in_edges", 0, "inputs"), ("back", "out_edges", 1, "outputs")):
        for how in ("weak", "strong"):
            op = contracts(ctx, name, inline=VIEWS - {"get_io_proj"})

            def setup(it, st):
                it.hints[S] = CF
            r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {"in_edges", "out_edges", "get_io_proj"} or (f.name != name and op(f)), tag=("c26", way, how), setup=setup,
                        params={"direction": const(way), "how": const(how)})
            where = f"{CF}.{name} ({way}, {how})"
            res = {a for _, _, v in r.ends for a in alts(v)}
            ctx.check("reach", where, bool(res), "a result", r.it.entry)
            ctx.check("reach", where, all(n.d["name"].rsplit(".", 1)[-1] != ("out_edges" if way == "forward" else "in_edges") for n in r.nodes if n.kind == "call" and cf_method(ctx, n)),
                      "only the edges into a node are followed" if way == "forward" else "only the edges out of a node are followed", r.it.entry)
            edges = [n.d["result"] for n in r.nodes if cf_method(ctx, n) == adj and n.d["recv"] is S]
            ctx.minimum("reach", where, len(edges), 1, "nodes whose edges are taken")
            E = {mk("elem", e) for e in edges}
            # -- along edges
            nodeof = {r.snap(n, given(ctx, r, n, "node")) for n in r.nodes if cf_method(ctx, n) == adj}
            steps = [n for n in r.nodes if cf_method(ctx, n) == ADJ]
            ctx.minimum("reach", where, len(steps), 1, "steps along an edge")
            # what is looked up in the state at the ends of an edge
            ends_ = [(k, sv) for b, k, _, sv in r.it.looked if b in res and k.op == "sub" and k.args[0] in E]
            bad = [k for k, _ in ends_ if k.args[1] is not const(end)]
            ctx.check("reach", where, bool(ends_) and not bad, "what is known at the other end of each edge is taken", steps[0] if steps else r.it.entry, [show(k) for k in bad[:2]])
            known = {z for k, sv in ends_ if k.args[1] is const(end) for z in alts(sv)}
            is_known = lambda t: all(z in known or z.op == "items" and len(z.args) == 1 for z in alts(t)) and any(z in known for z in alts(t))
            for n in steps:
                e = r.snap(n, given(ctx, r, n, "edge"))
                ctx.check("reach", where, n.d["recv"] is S and given(ctx, r, n, "direction") is const(way), "elements are followed in the direction asked for", n)
                ctx.check("reach", where, e in E, "along the edges of the node", n, show(e))
                ctx.check("reach", where, is_known(r.snap(n, given(ctx, r, n, "hids"))), "starting from what is known at the other end", n)
                for l in [l for l in r.nodes if l.kind == "loop" and any(r.snap(l, l.d["siter"]) is x for x in edges if l.d["siter"] is not None) and n.id in body(r, l)]:
                    every_item(ctx, r, "reach", where, l, [n], "every edge of the node is followed")
                # what is found is added
                muts = [m for m in r.nodes if m.kind == "mut" and m.id > n.id and any(contains(a, n.d["result"]) for a in m.d["args"])] + \
                       [m for m in r.nodes if m.kind == "mut" and m.d["target"] in res and isinstance(m.d["value"], T) and contains(r.snap(m, m.d["value"]), n.d["result"])]
                ctx.check("reach", where, bool(muts), "what is found along an edge is added", n)
                ctx.check("reach", where, any(isinstance(m.d["value"], T) and contains(r.snap(m, m.d["value"]), n.d["result"]) for m in r.nodes if m.kind == "mut" and m.d["target"] in res) or any(
                    contains(a, n.d["result"]) or contains(r.snap(m, a), n.d["result"]) for m in grows_of(r, res, nodeof) for a in m.d["args"]), "what is found along an edge is kept for the node", n)
                ctx.check("reach", where, unioned(r, n), "what is found along one edge joins what is found along others", n)
            # -- the state
            sets = [m for m in r.nodes if m.kind == "mut" and m.d["target"] in res and m.d["how"] in ("setitem", "update")]
            puts = [m for m in sets if m.d["how"] == "setitem" and r.snap(m, m.d["key"]) in nodeof and any(m.id in r.reach([x.id]) for x in r.nodes if cf_method(ctx, x) == adj)]
            grows = grows_of(r, res, nodeof)
            ctx.check("reach", where, bool(puts or grows), "what is found is kept for the node", steps[0] if steps else r.it.entry)
            # -- rounds
            outer = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is None]
            inner = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(x.id in body(r, l) for x in r.nodes if cf_method(ctx, x) == adj)
                     and nodes_of(r.snap(l, l.d["siter"]), S)]
            ctx.check("rounds", where, bool(outer) and bool(inner), "rounds over all nodes", outer[0] if outer else r.it.entry)
            for l in inner:
                every_item(ctx, r, "rounds", where, l, puts + grows, "every node is visited in every round")
            for o in outer[:1]:
                done = [x.id for x in r.nodes if x.kind == "endloop" and x.d["head"] in {l.id for l in inner}]
                p = r.path(per_item(r, o), backs(r, o), avoid=done)
                ctx.check("rounds", where, p is None, "a round goes over the nodes", o, show_path(p))
                inb = body(r, o)
                settled = [x.id for x in r.nodes if x.kind == "assume" and x.id in inb and not any(x.id in body(r, l) for l in inner) and settles(r, o, x) is True]
                p = r.path(per_item(r, o), exits(r), avoid=settled)
                ctx.check("rounds", where, bool(settled) and p is None, "rounds go on until one of them adds nothing", o, show_path(p))
            # -- where it starts
            for o in outer[:1]:
                for a in res:
                    t = r.snap(o, a)
                    ctx.check("start", where, contains(t, mk("key", I)) or contains(t, I), "it starts from the given elements", o)
            if how == "strong":
                strong(ctx, r, where, S, res, E, edges, end, side, is_known)


def grows_of(r, res, nodeof):
    """additions to the entry of a node"""
    return [m for m in r.nodes if m.kind == "mut" and m.d["how"] in ("update", "add") and any(b in res and k in nodeof and m.d["target"] in alts(v) for b, k, v, _ in r.it.looked)]


def nodes_of(t, S):
    """a collection with all the nodes of the frame"""
    return contains(t, mk("attr", S, "vs")) and contains(t, mk("attr", S, "fs"))


def settles(r, o, x):
    """what the decision says of what the rounds have found: True, that the last one added nothing; False, that it may have; None, something else"""
    c, pol = x.d["cond"], x.d["pol"]
    car = {k: v for k, v in (o.d.get("carried") or {}).items()}
    while c.op == "op" and c.args[0] == "not":
        c, pol = c.args[1], not pol
    if c.op == "op" and c.args[0] in ("eq", "lt", "le", "gt", "ge"):
        a, b = c.args[1], c.args[2]
        sa, sb = r.snap(x, a), r.snap(x, b)
        sized = lambda z: any(m_size(y) for y in walk(z)) or any(y is v[1] and any(m_size(w) for n in v[2] for w in walk(n)) for y in list(alts(z)) + [z] for v in car.values())
        if any(is_const(z) for z in (a, b)) or not all(sized(z) or sized(y) for z, y in ((a, sa), (b, sb))):
            return None
        if not all(whole_size(r, z) for z in [sa, sb] + [n for v in car.values() for n in v[2]]):
            return None
        if c.args[0] == "eq":
            return pol
        # sizes only grow: which of the two was found before the round?
        old = [any(z is v[1] for v in car.values()) for z in (a, b)]
        if old[0] == old[1]:
            return None
        o_ = c.args[0] if old[1] else {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[c.args[0]]   # new o_ old
        return {"le": pol, "gt": not pol}.get(o_)
    if c.op == "op" and c.args[0] == "truth":
        c = c.args[1]
    for k, (ini, phi_, nxt) in car.items():
        if c is phi_ or contains(c, phi_) or any(contains(z, c) or c is z for z in nxt):
            vals = [z for y in list(nxt) + [c] for z in alts(y)]
            if all(is_const(z, True) or is_const(z, False) or z is phi_ for z in vals) and any(is_const(z, True) for z in vals) and any(is_const(z, False) for z in vals):
                return marks_change(r, o, k, c, pol)
    if c.op == "phi" and all(is_const(z, True) or is_const(z, False) for z in c.args):
        return marks_change(r, o, None, c, pol)
    return None


def marks_change(r, o, k, c, pol):
    """a mark that something was added (or, at the first round, that there is one to make)"""
    return not pol


def whole_size(r, t):
    """a size is not counted of some of the entries only"""
    return not any(z.op == "call" and z.args[0] == "sum" and cargs(z) and cargs(z)[0].op == "items" and any(i.args[3] for i in cargs(z)[0].args[1:]) for z in alts(t))


def m_size(z):
    return z.op == "call" and z.args[0] in ("len", "sum") or z.op == "items"


def strong(ctx, r, where, S, res, E, edges, end, side, is_known):
    """a call is reached when, on the side it is reached from, every value under a label of the graph is known at an end of an edge with the label"""
    rule = "strong"
    fs = mk("attr", S, "fs")
    calls = mk("attr", S, "calls")
    adds = []
    for m in r.nodes:
        if m.kind == "mut" and m.d["how"] == "add":
            for a in m.d["args"]:
                if a.op in ("elem", "key") and contains(a, fs) and a.args[0].op == "sub":
                    adds.append((m, a))
    comp = []     # or collected by a comprehension
    for m in r.nodes:
        if m.kind == "mut" and m.d["target"] in res and isinstance(m.d["value"], T):
            for y in walk(r.snap(m, m.d["value"])):
                if y.op == "item" and isinstance(y.args[1], T) and y.args[1].op in ("elem", "key") and y.args[1].args[0].op == "sub" and contains(y.args[1], fs) and y.args[3]:
                    comp.append((m, y))
    ctx.minimum(rule, where, len(adds) + len(comp), 1, "calls added")
    is_hid = lambda c: c.op == "op" and c.args[0] == "in" and c.args[1].op == "attr" and c.args[1].args[-1] == "hid" and contains(c.args[1], calls)
    hid = [n for n in r.nodes if n.kind == "assume" and is_hid(n.d["cond"])]
    ctx.minimum(rule, where, len(hid), 1, "decisions whether a value of the call is known")
    other = {"inputs": "outputs", "outputs": "inputs"}[side]
    for n in hid:
        v, w = n.d["cond"].args[1], n.d["cond"].args[2]
        ctx.check(rule, where, any(y.op == "attr" and y.args[-1] == side for y in walk(v)) and not any(y.op == "attr" and y.args[-1] == other for y in walk(v)),
                  f"the call's {side} are what must be known", n, show(v))
        ctx.check(rule, where, is_known(r.snap(n, w)), "known is what the state has at the other end of the edge", n)
    tests = [n for n in r.nodes if n.kind == "assume" and not is_hid(n.d["cond"]) and all_found(r.snap(n, n.d["cond"]), n.d["pol"], is_hid)]
    labels = [n for n in r.nodes if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and proj_call(ctx, n.d["cond"].args[1])
              and any(y.op == "sub" and y.args[0] in E and y.args[1] is const(2) for y in walk(r.snap(n, n.d["cond"].args[2])))]
    ctx.minimum(rule, where, len(labels), 1, "decisions whether the graph has an edge for the value")
    for m, y in comp if not adds else ():
        ok = any(all_found(c, p, is_hid) for c, p in y.args[3])
        ctx.check(rule, where, ok, "a call is added only when what it needs is known", m, None if ok else show(y))
    for m, a in adds:
        heads = [l for l in r.nodes if l.kind == "loop" and m.id in body(r, l) and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), a.args[0])]
        ctx.check(rule, where, bool(heads), "every call of the function is considered", m)
        for l in heads:
            p = r.path(per_item(r, l), [m.id], avoid=[t.id for t in tests])
            ctx.check(rule, where, p is None, "a call is added only when what it needs is known", m, show_path(p))
            empt = [n for n in r.nodes if n.kind == "assume" and empty_test(ctx, r, n)]
            p = r.path(per_item(r, l), [m.id], avoid=[t.id for t in empt])
            ctx.check(rule, where, p is None, "a call that nothing in the graph leads to is not reached", m, show_path(p))
            unbroken(ctx, r, rule, where, l, "every call of the function is considered")
        # the value and the label are of the call that is added
        for n in hid:
            ctx.check(rule, where, any(y.op == "sub" and y.args[0] is calls and y.args[1] is a for y in walk(n.d["cond"].args[1])), "the values are those of the call", n)
    # nodes looked at are those of the edge's label
    for n in hid:
        ok = any(contains(x.d["cond"], mk("sub", e, const(2))) for e in E for x in r.nodes if x.kind == "assume") or any(
            k.op == "sub" and k.args[0] in E and k.args[1] is const(2) for b, k, _, _ in r.it.looked)
        ctx.check(rule, where, ok, "a value is looked for along the edges with its label", n)


def all_found(c, pol, is_hid):
    """the decision says that all values were found"""
    if c.op == "op" and c.args[0] == "not":
        return all_found(c.args[1], not pol, is_hid)
    if c.op == "op" and c.args[0] == ("and" if pol else "or"):
        return any(all_found(x, pol, is_hid) for x in c.args[1:])
    if not any(is_hid(y) for y in walk(c)) or c.op == "op" and c.args[0] in ("or", "and"):
        return False
    neg = any(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], T) and is_hid(y[0]) and y[1] is False for t in walk(c) for y in flat(t.args)) or any(
        y.op == "op" and y.args[0] == "not" and is_hid(y.args[1]) for y in walk(c))
    if c.op == "op" and c.args[0] in ("eq", "lt", "le", "gt", "ge"):
        if not any(is_const(z) for z in c.args[1:]):
            return pol if c.args[0] in ("eq", "le", "ge") else not pol
        z = 0 in [y.args[0] for y in c.args[1:] if is_const(y)]
        return neg and z and (pol if c.args[0] == "eq" else not pol)
    if c.op == "op" and c.args[0] == "truth":
        c = c.args[1]
    if c.op == "call" and c.args[0] in ("all", "any"):
        return pol if c.args[0] == "all" and not neg else (neg and not pol and c.args[0] == "any")
    if c.op == "call" and c.args[0] in (".issubset", ".issuperset"):
        return pol
    return neg and not pol     # nothing is missing


def flat(xs):
    for x in xs:
        if isinstance(x, tuple):
            yield x
            yield from flat(x)


def proj_call(ctx, t):
    return t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] == "get_io_proj"


def empty_test(ctx, r, n):
    """decides whether there is anything to look for"""
    c = r.snap(n, n.d["cond"])
    if c.op == "op" and c.args[0] == "not":
        c = c.args[1]
    if c.op == "op" and c.args[0] in ("eq", "gt", "lt", "ge", "le") and any(is_const(z) for z in c.args[1:]) or c.op == "op" and c.args[0] == "truth" or c.op in ("items", "obj", "call"):
        return any(proj_call(ctx, y) for y in walk(c)) or any(y.op == "op" and y.args[0] == "in" and proj_call(ctx, y.args[1]) for y in walk(c)) or any(
            y.op == "call" and y.args[0] in ("len", "sum") for y in walk(c))
    return False


# ------------------------------------------------------------------------ reachable nodes
def reachable_nodes(ctx):
    S, N = mk("param", "self"), mk("param", "nodes")
    name = "get_reachable_nodes"
    for way, nb, ob in (("forward", "out_neighbors", "in_neighbors"), ("back", "in_neighbors", "out_neighbors")):
        op = contracts(ctx, name, inline=VIEWS)

        def setup(it, st):
            it.hints[S] = CF
        r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {nb, ob} or (f.name != name and op(f)), tag=("c26", way), setup=setup, params={"direction": const(way)})
        where = f"{CF}.{name} ({way})"
        nbs = [n for n in r.nodes if cf_method(ctx, n) == nb and n.d["recv"] is S]
        ctx.minimum("nodes", where, len(nbs), 1, "steps to the neighbours")
        ctx.check("nodes", where, not [n for n in r.nodes if cf_method(ctx, n) == ob], "only neighbours on the side asked for", r.it.entry)
        for e, st, v in r.ends:
            M = members(ctx, r, st)
            for a in alts(v):
                f = M.mem(M.deep(a), X)
                ok = implies(inn(X, N), f)
                ctx.check("nodes", where, ok, "the given nodes are among those reached", e, None if ok else showf(f))
        for n in nbs:
            x = given(ctx, r, n, "node")
            visits = [m for m in r.nodes if m.kind == "mut" and m.d["how"] in ("add", "update") and any(a is x or contains(r.snap(m, a), x) for a in m.d["args"])]
            for l in [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) is n.d["result"]]:
                el = mk("elem", n.d["result"])
                seen = [c for c in r.nodes if c.kind == "assume" and c.d["cond"].op == "op" and c.d["cond"].args[0] == "in" and c.d["cond"].args[1] is el and c.d["pol"]]
                go = [c for c in r.nodes if c.kind == "call" and el in list(c.d["args"]) + list(c.d["kwargs"].values() if isinstance(c.d["kwargs"], dict) else []) and c.d["recv"] is None]
                go += [m for m in r.nodes if m.kind == "mut" and m.d["how"] in ("append", "add", "update", "extend", "appendleft", "setitem") and any(a is el or contains(a, el) for a in m.d["args"])]
                every_item(ctx, r, "nodes", where, l, go, "every neighbour not seen before is gone to", seen)
            ctx.check("nodes", where, bool(visits) or any(contains(r.it.snap(st, v), x) for _, st, v in r.ends), "a visited node is kept", n)


# ------------------------------------------------------------------------ sub-frames
def streams(ctx):
    S, N, H = (mk("param", z) for z in ("self", "nodes", "how"))
    for name, way in (("downstream", "forward"), ("upstream", "back")):
        r = frame_run(ctx, name, "c26s")
        where = f"{CF}.{name}"
        sel = [n for n in method_calls(ctx, r, "select_nodes")]
        ctx.minimum("streams", where, len(sel), 1, "restrictions to nodes")
        for n in sel:
            a = given(ctx, r, n, "nodes")
            t = r.snap(n, a)
            src = [m for m in method_calls(ctx, r, "get_reachable_nodes") if m.d["result"] is a or m.d["result"] is t or contains(t, m.d["result"])]
            ctx.check("streams", where, n.d["recv"] is S and bool(src), "the frame is restricted to the nodes reached", n)
            for m in src:
                ctx.check("streams", where, m.d["recv"] is S and given(ctx, r, m, "direction") is const(way) and contains(r.snap(m, given(ctx, r, m, "nodes")), N),
                          "the nodes reached from the given ones, in the operation's direction", m)
        for e, st, v in r.ends:
            for a in alts(v):
                last(ctx, r, where, e, a, {n.d["result"] for n in sel}, way, lambda f, m, w=where: from_nodes(ctx, r, w, f, m, N))
    r = frame_run(ctx, "midstream", "c26s")
    where = f"{CF}.midstream"
    between = method_calls(ctx, r, "get_all_edges_on_paths_between", S)
    ctx.minimum("streams", where, len(between), 1, "paths between nodes")
    for n in between:
        a, b = given(ctx, r, n, "start"), given(ctx, r, n, "end")
        ctx.check("streams", where, all(mentions_t(z, N) for z in (a, b)), "paths between the given nodes", n)
        # a pair is left out only when both are the same node, and each ordered pair is taken
        ls = [l for l in r.nodes if l.kind == "loop" and n.id in body(r, l) and l.d["siter"] is not None and mentions_t(r.snap(l, l.d["siter"]), N)]
        one = [c for c in r.nodes if c.kind == "assume" and c.d["cond"].op == "op" and c.d["cond"].args[0] == "eq" and all(mentions_t(z, N) for z in c.d["cond"].args[1:]) and c.d["pol"]]
        pairs = len(ls) >= 2 or any(str(y.args[0]).endswith(("permutations", "product")) for l in ls for y in walk(r.snap(l, l.d["siter"])) if y.op == "call")
        ctx.check("streams", where, pairs, "paths between any two of the nodes, in both orders", n)
        if ls:
            inner = max(ls, key=lambda l: l.id)
            every_item(ctx, r, "streams", where, inner, [n], "paths between any two of the nodes", one)
            for l in ls:
                unbroken(ctx, r, "streams", where, l, "paths between any two of the nodes")
    sel = method_calls(ctx, r, "select_nodes", S)
    ctx.minimum("streams", where, len(sel), 1, "restrictions to nodes")
    for n in sel:
        t = r.snap(n, given(ctx, r, n, "nodes"))
        ctx.check("streams", where, any(contains(t, m.d["result"]) for m in between), "the frame is restricted to the nodes on the paths", n, show(t))

    def sources_of(f, m):
        ini = r.snap(m, given(ctx, r, m, "initial_state"))
        src = [x for x in method_calls(ctx, r, "get_source_elts") if x.d["recv"] is f and contains(ini, x.d["result"])]
        ctx.check("streams", where, bool(src), "it starts from the source elements of the restricted frame", m, show(ini))
        M = members(ctx, r, r.ends[0][1])
        kf = M.mem(M.deep(ini), K)
        ok = any(equiv(kf, AND(inn(K, x.d["result"]), inn(K, N))) for x in src)
        ctx.check("streams", where, ok, "that belong to the given nodes", m, None if ok else showf(kf))
    for e, st, v in r.ends:
        for a in alts(v):
            last(ctx, r, where, e, a, {n.d["result"] for n in sel}, "forward", sources_of)
    for way, src in (("forward", "get_source_elts"), ("back", "get_sink_elts")):
        r = frame_run(ctx, "drop_unreachable", ("c26s", way), params={"direction": const(way)})
        where = f"{CF}.drop_unreachable ({way})"

        def start(f, m):
            ini = r.snap(m, given(ctx, r, m, "initial_state"))
            ok = any(x.d["recv"] is S and ini is x.d["result"] for x in method_calls(ctx, r, src))
            ctx.check("streams", where, ok, f"it starts from the {'source' if way == 'forward' else 'sink'} elements", m, show(ini))
        for e, st, v in r.ends:
            for a in alts(v):
                last(ctx, r, where, e, a, {S}, way, start)
    # paths are looked for in the graph of the frame
    name = "get_all_edges_on_paths_between"
    op = contracts(ctx, name, inline=VIEWS)

    def setup(it, st):
        it.hints[S] = CF
        it.pure_lookup = True
    PATHS = "get_edges_in_paths"
    r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {PATHS, "edges"} or op(f), tag=("c26",), setup=lambda it, st: it.hints.__setitem__(S, CF))
    rp = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {PATHS} or op(f), tag=("c26", "m"), setup=setup)
    where = f"{CF}.{name}"
    searches = lambda r: [n for n in r.nodes if n.kind == "call" and str(n.d["name"]).rsplit(".", 1)[-1] == PATHS]
    ctx.minimum("paths", where, len(searches(r)), 1, "searches")
    E = lambda s, d, l: inn(d, mk("sub", mk("sub", atm(S, "out"), s), l))
    el = [mk("elem", n.d["result"]) for n in r.nodes if cf_method(ctx, n) == "edges" and n.d["recv"] is S]
    for n in searches(r):
        ctx.check("paths", where, barg(r, n, "start") is mk("param", "start") and barg(r, n, "end") is mk("param", "end"), "from the start to the end", n)
        g = barg(r, n, "graph")
        # every edge is put into the sets of the graph, under where it starts
        keyed = {}
        for b, k, v, _ in r.it.looked:
            if b is g or r.snap(n, b) is r.snap(n, g):
                for z in alts(v):
                    keyed.setdefault(z, set()).add(k)
        puts = [m for m in r.nodes if m.kind == "mut" and m.d["target"] in keyed]
        ok = bool(puts)
        for m in puts:
            for x in m.d["args"]:
                ok = ok and x.op == "sub" and x.args[0] in el and x.args[1] is const(1) and keyed[m.d["target"]] == {mk("sub", x.args[0], const(0))}
        for l in [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(r.snap(l, l.d["siter"]) is e.args[0] for e in el)]:
            p = r.path(per_item(r, l), backs(r, l), avoid=[m.id for m in puts])
            ok = ok and p is None and not any(b.kind in ("break", "loopret") and b.d["head"] == l.id for b in r.nodes)
        if not ok:
            for n2 in searches(rp):
                M = members(ctx, rp, rp.ends[0][1])
                f = M.mem(mk("sub", M.deep(barg(rp, n2, "graph")), K), X)
                ok = equiv(f, EX(0, E(K, X, var(0))))
        ctx.check("paths", where, ok, "the graph searched is that of the frame", n)
        for e, st, v in r.ends:
            ctx.check("paths", where, all(a is n.d["result"] for a in alts(v)), "the edges found are what is returned", e)


def mentions_t(t, x):
    return contains(t, x) if isinstance(t, T) else False


def from_nodes(ctx, r, where, f, m, N):
    a = given(ctx, r, m, "initial_state")
    t = r.snap(m, a)
    M = members(ctx, r, r.ends[0][1])
    kf = M.mem(M.deep(t), K)
    ok = equiv(kf, inn(K, N))
    ctx.check("streams", where, ok, "it starts from the given nodes", m, None if ok else showf(kf))
    ok = any(y.op in ("attr", "call") and contains(y, f) and str(y.args[-1 if y.op == "attr" else 0]).rsplit(".", 1)[-1] in ("sets", "vs", "fs") for y in walk(t)) and not any(
        y.op == "attr" and y.args[0] is mk("param", "self") and y.args[1] in ("vs", "fs", "sets") for y in walk(t))
    ctx.check("streams", where, ok, "with the elements they have in the restricted frame", m, None if ok else show(t))


def last(ctx, r, where, e, a, frames, way, start):
    """a = f.select_subsets(f.get_reachable_elts(start, way, how))"""
    ss = [n for n in r.nodes if cf_method(ctx, n) == "select_subsets" and n.d["result"] is a]
    ctx.check("streams", where, bool(ss), "the result is the part of the restricted frame that is reached", e, show(a))
    for n in ss:
        f = n.d["recv"]
        v = given(ctx, r, n, "elts") if given(ctx, r, n, "elts") is not None else (list(n.d["args"]) + [None])[0]
        rs = [m for m in method_calls(ctx, r, "get_reachable_elts") if m.d["result"] is v]
        ctx.check("streams", where, f in frames and bool(rs), "the result is the part of the restricted frame that is reached", n)
        for m in rs:
            ctx.check("streams", where, m.d["recv"] is f, "reachability is found in the frame that is restricted", m)
            ctx.check("streams", where, given(ctx, r, m, "direction") is const(way), "in the operation's direction", m)
            ctx.check("streams", where, given(ctx, r, m, "how") is mk("param", "how"), "in the sense asked for", m)
            start(f, m)
