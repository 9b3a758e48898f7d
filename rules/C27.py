"""Expanding a computation frame adds exactly the calls that created or use its values."""
from .members import *
from .C25 import inn, atm, K, X
from .C26 import walk, contains, settles, whole_size, same_term

EXPLANATION = (
    "Path-sensitive analysis of expansion, per direction, mode and kind of argument: which values' calls are asked for, how they are filtered and grouped, and that every group gets a function node, "
    "every connection and label an edge on its side and every call an entry, new nodes under names no node has; the rounds of recursive expansion end only by a decision that nothing was added. "
    "Conditions on what is passed on are compared by truth table with the stated ones."
)
ASSUMPTIONS = ["the storage answers which calls created or use given values (C05, C08)", "steps that add nodes, edges and calls do what C24 says, source and sink elements are what C26 says"]
UNI, GROUP, GROW = "_expand_unidirectional", "_group_calls", "_expand_from_call_groups"
S = mk("param", "self")


def check(ctx):
    for way in ("back", "forward"):
        for one in (True, False):
            for skip in (True, False):
                step(ctx, way, one, skip)
        for rec in (True, False):
            rounds(ctx, way, rec)
        copied(ctx, way)
    for side in ("inputs", "outputs"):
        groups(ctx, side)
        for reuse in (True, False):
            grow(ctx, side, reuse)
    entry(ctx)
    names(ctx)
    from_op(ctx)
    answers(ctx)


def go(ctx, name, tag, params, facts=(), also=(), pure=False):
    op = contracts(ctx, name, inline=VIEWS)

    def setup(it, st):
        it.hints[S] = CF
        it.pure_lookup = pure
        st.facts = st.facts | frozenset(facts)
    return ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | set(also) or (op(f) and f.name != name),
                   tag=("c27",) + tag, params=params, setup=setup)


def storage_call(n, *names):
    return n.kind == "call" and str(n.d["name"]).rsplit(".", 1)[-1] in names


# ------------------------------------------------------------------------ one step
def step(ctx, way, one, skip):
    rule = "step"
    V = mk("param", "varnames")
    r0 = go(ctx, UNI, (way, skip), {"direction": const(way), "inplace": const(True), "skip_existing": const(skip), "verbose": const(False)})
    none = {n.d["cond"] for n in r0.nodes if n.kind == "assume" and "isnone" in show(n.d["cond"], 3) and contains(n.d["cond"], V)}
    strs = {n.d["cond"] for n in r0.nodes if n.kind == "assume" and "isinstance" in show(n.d["cond"], 3) and contains(n.d["cond"], V) and "str" in show(n.d["cond"], 3)}
    where = f"{CF}.{UNI} ({way}, {'one variable' if one else 'variables'}{', not those it has' if skip else ''})"
    ctx.minimum(rule, where, len(strs), 1, "decisions whether one name is given")
    r = go(ctx, UNI, (way, one, skip), {"direction": const(way), "inplace": const(True), "skip_existing": const(skip), "verbose": const(False)},
           {(c, False) for c in none} | {(c, one) for c in strs}, pure=True)
    vs = lambda x: same_term(x, V) if one else inn(x, V)
    src, side, ask, other = ("get_source_elts", "outputs", "get_creators", "get_consumers") if way == "back" else ("get_sink_elts", "inputs", "get_consumers", "get_creators")
    asks = [n for n in r.nodes if storage_call(n, ask)]
    ctx.minimum(rule, where, len(asks), 1, "questions to the storage")
    ctx.check(rule, where, not [n for n in r.nodes if storage_call(n, other)], "only calls in the direction asked for", r.it.entry)
    M = members(ctx, r, r.ends[0][1]) if r.ends else None
    ends_ = [n.d["result"] for n in method_calls(ctx, r, src, S)]
    ctx.minimum(rule, where, len(ends_), 1, f"uses of {src}")
    for n in asks:
        ctx.check(rule, where, n.d["recv"] is mk("attr", S, "storage") or n.d["recv"] is not None and show(n.d["recv"]).endswith("storage"), "asked of the frame's storage", n)
        h = r.snap(n, (list(n.d["args"]) + list(n.d["kwargs"].values()))[0])
        f = of_union(M, h)
        ok = any(equiv(f, EX(0, AND(inn(var(0), e), vs(var(0)), inn(X, mk("sub", e, var(0)))))) or one and equiv(f, AND(inn(V, e), vs(V), inn(X, mk("sub", e, V)))) for e in ends_)
        ctx.check(rule, where, ok, "the calls of the values at the end of the frame, in the variables given, are asked for", n, None if ok else showf(f))
        ctx.check(rule, where, safe_union(h), "a frame without variables is no error", n)
        once = [y for y in walk(h) if y.op == "op" and y.args[0] == "in" and any(a is V for a in alts(y.args[2]))]
        ctx.check(rule, where, not once, "names may be given by an iterator, which is gone through once", n)
    # -- grouped
    gs = method_calls(ctx, r, GROUP, S)
    ctx.minimum(rule, where, len(gs), 1, "groupings")
    for n in gs:
        f = M.mem(M.deep(r.snap(n, given(ctx, r, n, "calls"))), X)
        known = inn(mk("attr", X, "hid"), mk("attr", S, "calls"))
        ok = any(equiv(f, AND(inn(X, a.d["result"]), NOT(known)) if skip else inn(X, a.d["result"])) for a in asks)
        ctx.check(rule, where, ok, "all calls found are added, except, if asked for, those the frame has", n, None if ok else showf(f))
        ctx.check(rule, where, given(ctx, r, n, "by") is const(side), "calls are told apart by the side the frame has", n)
        f = M.mem(M.deep(r.snap(n, given(ctx, r, n, "available_nodes"))), X)
        ok = equiv(f, vs(X)) or equiv(f, inn(X, atm(S, "vs")))
        ctx.check(rule, where, ok, "calls are connected to the variables given", n, None if ok else showf(f))
    gr = method_calls(ctx, r, GROW, S)
    for n in gr:
        g = r.snap(n, given(ctx, r, n, "call_groups"))
        ctx.check(rule, where, any(g is x.d["result"] for x in gs), "all groups are added", n)
        ctx.check(rule, where, given(ctx, r, n, "side_to_glue") is const(side), "calls are connected on the side the frame has", n)
        ctx.check(rule, where, given(ctx, r, n, "reuse_existing") is mk("param", "reuse_existing"), "nodes are reused as asked for", n)
    need(ctx, r, rule, where, gr, "the calls found are added")


def of_union(M, h):
    """X is in h, where h may be the union of the values of a mapping"""
    for a in alts(h):
        if a.op == "call" and str(a.args[0]).rsplit(".", 1)[-1] in ("get_nullable_union", "union"):
            for y in walk(a):
                if y.op == "call" and y.args[0] == ".values":
                    d = cargs(y)[0] if cargs(y) else y.args[1]
                    d = M.deep(d)
                    return EX(0, AND(M.mem(d, var(0)), put(M.mem(mk("sub", d, K), X), K, var(0))))
    return M.mem(M.deep(h), X)


def safe_union(h):
    """the union of no sets is the empty set"""
    return not any(a.op == "call" and str(a.args[0]) in (".union", "set.union") and a.args[1].op in ("class", "builtin") and cargs(a)[-1].op == "star" and len(cargs(a)) <= 2 for a in alts(h))


# ------------------------------------------------------------------------ rounds
def rounds(ctx, way, rec):
    rule = "rounds"
    r = go(ctx, UNI, (way, "all", rec), {"direction": const(way), "inplace": const(True), "varnames": NONE, "recursive": const(rec), "verbose": const(False)})
    where = f"{CF}.{UNI} ({way}, all variables{', recursive' if rec else ''})"
    steps = [n for n in method_calls(ctx, r, UNI, S)]
    ctx.minimum(rule, where, len(steps), 1, "steps")
    for n in steps:
        ctx.check(rule, where, given(ctx, r, n, "direction") is const(way), "steps go in the direction asked for", n)
        for p in ("skip_existing", "reuse_existing"):
            ctx.check(rule, where, given(ctx, r, n, p) is mk("param", p), f"{p} is passed on", n)
        ctx.check(rule, where, given(ctx, r, n, "inplace") is const(True), "each step adds to the same frame", n)
        v = r.snap(n, given(ctx, r, n, "varnames"))
        ctx.check(rule, where, all(contains(a, mk("attr", S, "vs")) for a in alts(v)), "steps take all variables", n, show(v))
    need(ctx, r, rule, where, steps, "the frame is expanded")
    if rec:
        outer = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is None]
        ctx.minimum(rule, where, len(outer), 1, "rounds")
        for o in outer[:1]:
            p = r.path(per_item(r, o), backs(r, o), avoid=[n.id for n in steps])
            ctx.check(rule, where, p is None, "each round takes a step", o, show_path(p))
            last(ctx, r, rule, where, o)


def last(ctx, r, rule, where, o):
    inb = body(r, o)
    done = [x for x in r.nodes if x.kind == "assume" and x.id in inb and (settles(r, o, x) is True or unchanged(x)) and counts_elements(r, o, x)]
    p = r.path(per_item(r, o), exits(r), avoid=[x.id for x in done])
    ctx.check(rule, where, bool(done) and p is None, "rounds go on until nothing is added, neither nodes nor elements", o, show_path(p))


def unchanged(x):
    """an ordered comparison of one size at two times"""
    c, pol = x.d["cond"], x.d["pol"]
    while c.op == "op" and c.args[0] == "not":
        c, pol = c.args[1], not pol
    return c.op == "op" and c.args[0] in ("le", "lt") and c.args[1] is c.args[2] and pol == (c.args[0] == "le")


def counts_elements(r, o, x):
    """the sizes compared count the elements of the nodes (or the values and calls of the frame)"""
    c = x.d["cond"]
    while c.op == "op" and c.args[0] in ("not", "truth"):
        c = c.args[1]
    if c.op != "op" or c.args[0] not in ("eq", "lt", "le", "gt", "ge"):
        return True

    def size(t):
        w = list(walk(r.snap(x, t)))
        for v in (o.d.get("carried") or {}).values():
            if t is v[1]:
                w += [y for z in v[2] for y in walk(z)] + list(walk(v[0]))
        per_node = any(y.op == "call" and y.args[0] == "sum" for y in w) and any(y.op in ("val", "elem") and any(contains(y, mk("attr", S, f)) for f in ("vs", "fs", "refinv", "callinv")) for y in w)
        whole = all(any(y is mk("attr", S, f) for y in w) for f in ("refs", "calls"))
        return per_node or whole
    return all(size(t) for t in c.args[1:])


def entry(ctx):
    rule = "options"
    for name, way in (("expand_back", "back"), ("expand_forward", "forward")):
        r = go(ctx, name, (), None, also=(UNI,))
        where = f"{CF}.{name}"
        cs = method_calls(ctx, r, UNI, S)
        need(ctx, r, rule, where, cs, "the frame is expanded")
        for n in cs:
            ctx.check(rule, where, given(ctx, r, n, "direction") is const(way), "in the operation's direction", n)
            for p in ("varnames", "recursive", "skip_existing", "inplace", "reuse_existing"):
                ctx.check(rule, where, given(ctx, r, n, p) is mk("param", p), f"{p} is passed on", n)
        for e, st, v in r.ends:
            ctx.check(rule, where, all(a in {n.d["result"] for n in cs} for a in alts(v)), "what it gives is returned", e)
    r = go(ctx, "expand_all", (), {"inplace": const(True)}, also=(UNI,))
    where = f"{CF}.expand_all"
    outer = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is None]
    ctx.minimum(rule, where, len(outer), 1, "rounds")
    for name in ("expand_back", "expand_forward"):
        cs = [n for n in method_calls(ctx, r, name, S)] + [n for n in method_calls(ctx, r, UNI, S) if given(ctx, r, n, "direction") is const("back" if name == "expand_back" else "forward")]
        need(ctx, r, rule, where, cs, "it expands in both directions")
        for n in cs:
            ctx.check(rule, where, given(ctx, r, n, "inplace") is const(True), "each round adds to the same frame", n)
            for p in ("skip_existing", "reuse_existing"):
                ctx.check(rule, where, given(ctx, r, n, p) is mk("param", p), f"{p} is passed on", n)
            v = given(ctx, r, n, "varnames")
            ctx.check(rule, where, v is None or v is NONE or is_const(v, None) or contains(r.snap(n, v), mk("attr", S, "vs")), "of all variables", n)
        for o in outer[:1]:
            p = r.path(per_item(r, o), backs(r, o), avoid=[n.id for n in cs])
            ctx.check(rule, where, bool(cs) and p is None, "each round expands in both directions", o, show_path(p))
    for o in outer[:1]:
        last(ctx, r, "rounds", where, o)


def copied(ctx, way):
    """a copy is expanded where asked for"""
    rule = "rounds"
    for one in (True, False):
        r = go(ctx, UNI, (way, "copy", one), {"direction": const(way), "inplace": const(False), "verbose": const(False), **({"varnames": NONE} if one else {})}, also=("copy",))
        where = f"{CF}.{UNI} ({way}, of a copy{', all variables' if one else ''})"
        copies = {n.d["result"] for n in r.nodes if cf_method(ctx, n) == "copy"}
        ctx.minimum(rule, where, len(copies), 1, "copies")
        steps = [n for n in r.nodes if cf_method(ctx, n) in (UNI, GROW)]
        ctx.minimum(rule, where, len(steps), 1, "steps")
        for n in steps:
            ctx.check(rule, where, all(a in copies for a in alts(n.d["recv"])), "the copy is expanded", n)
            if cf_method(ctx, n) == UNI:
                ctx.check(rule, where, given(ctx, r, n, "inplace") is const(True), "each step adds to the same frame", n)
        for e, st, v in r.ends:
            ctx.check(rule, where, all(a in copies for a in alts(v)), "the copy is returned", e)


# ------------------------------------------------------------------------ grouping
PROJ = "get_name_proj"


def is_proj(t, op, name):
    """t is the label of the name for the op"""
    return t.op == "call" and contains(t, name) and any(y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] == PROJ and contains(y, op) for y in walk(t)) or \
        t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] == "get_io_proj" and contains(t, name)


def groups(ctx, side):
    rule = "groups"
    other = "inputs" if side == "outputs" else "outputs"
    r = go(ctx, GROUP, (side,), {"by": const(side)}, also=(PROJ,))
    where = f"{CF}.{GROUP} (by {side})"
    C = mk("param", "calls")
    c = mk("elem", C)
    res = {a for _, _, v in r.ends for a in alts(v)}
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) is C]
    ctx.minimum(rule, where, len(loops), 1, "goes through the calls")
    groups_ = {z for b, k, v, _ in r.it.looked if b in res for z in alts(v)} | {m.d["value"] for m in r.nodes if m.kind == "mut" and m.d["target"] in res and m.d["how"] == "setitem"}
    adds = [m for m in r.nodes if m.kind == "mut" and m.d["how"] in ("append", "add") and any(a is c for a in m.d["args"]) and m.d["target"] in groups_]
    adds += [m for m in r.nodes if m.kind == "mut" and m.d["target"] in res and isinstance(m.d["value"], T) and any(contains(r.snap(m, m.d["value"]), x) for x in (c,)) and m not in adds and not adds]
    for l in loops:
        every_item(ctx, r, rule, where, l, adds, "every call is in a group")
    refs = mk("attr", c, side)
    ref = mk("val", refs)
    name = mk("key", refs)
    inv = mk("sub", mk("attr", S, "refinv"), mk("attr", ref, "hid"))
    avail = mk("param", "available_nodes")
    # what the calls are connected to
    conn, good = [], True
    for m in r.nodes:
        if m.kind == "mut" and m.d["how"] == "setitem" and m.d["target"] not in res and isinstance(m.d["value"], T) and contains(r.snap(m, m.d["value"]), inv):
            conn.append((m, m.d["target"], m.d["key"], r.snap(m, m.d["value"])))
        if m.kind == "mut" and m.d["how"] == "update" and any(contains(r.snap(m, a), inv) for a in m.d["args"]):
            for b, k, v, _ in r.it.looked:
                if b not in res and m.d["target"] in alts(v):
                    conn.append((m, b, k, mk("op", "bitor", m.d["target"], *[r.snap(m, a) for a in m.d["args"]])))
    ctx.minimum(rule, where, len(conn), 1, "connections noted")
    for m, b, k, v in conn:
        ctx.check(rule, where, is_proj(k, mk("attr", c, "op"), name), "connections go under the value's label", m, show(k))
        # what is noted is a union that keeps what was noted under the label, and is limited to the variables given
        parts = [y for y in walk(v) if (y.op == "op" and y.args[0] == "bitand" or y.op == "call" and y.args[0] == ".intersection") and contains(y, inv) and contains(y, avail)]
        ctx.check(rule, where, bool(parts), "connections are the variables given that hold the value", m, show(v))
        keeps = any(y.op == "op" and y.args[0] == "bitor" and any(contains(y, p) for p in parts) for y in walk(v))
        ctx.check(rule, where, keeps, "values under one label (elements of a struct) are all connected", m, show(v))
        others = [y for y in walk(v) if y.op == "sub" and y.args[0] is mk("attr", S, "refinv") and y is not inv]
        ctx.check(rule, where, not others, "connections are the variables given that hold the value", m)
    ids = [m for m, *_ in conn]
    for l in [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), refs) and any(m.id in body(r, l) for m in ids)]:
        legit = [n for n in r.nodes if n.kind == "assume" and (
            n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["cond"].args[1] is mk("attr", ref, "hid") and contains(n.d["cond"].args[2], S) and not n.d["pol"]
            or contains(r.snap(n, n.d["cond"]), inv) and no_conn(n))]
        every_item(ctx, r, rule, where, l, ids, "every value the frame has is connected", legit)
    if not [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), refs)]:
        ctx.bad(rule, where, f"the {side} of the call are gone through", r.it.entry)
    # the group is told by op and connections
    for m in r.nodes:
        if m.kind == "mut" and m.d["target"] in res and m.d["how"] in ("setitem", "setdefault"):
            k = m.d["key"] if m.d["key"] is not None else m.d["args"][0]
            k = r.snap(m, k)
            ok = any((y.op == "attr" and y.args[-1] in ("name", "id") or y.op == "call" and str(y.args[0]).endswith(".id")) and contains(y, mk("attr", c, "op")) for y in walk(k)) and any(contains(k, x) for x in (inv,))
            ctx.check(rule, where, ok, "calls of a group have the op and the connections in common", m, None if ok else show(k))
            ordered = any(y.op == "call" and y.args[0] == "sorted" for y in walk(k)) or any(y.op == "call" and y.args[0] == "frozenset" for y in walk(k))
            some = [i for y in walk(k) if y.op == "items" for i in y.args[1:] if contains(i, inv) and any(not conn_cond(q, inv, ref) for q in conds_of(i))]
            some += [y for y in walk(k) if y.op == "sub" and y.args[1].op == "slice" and contains(y, inv)]
            ctx.check(rule, where, not some, "calls of a group have all their connections in common", m, show(k))
            ctx.check(rule, where, ordered, "equal connections make equal groups, whatever their order", m, show(k))


def conds_of(i):
    return list(i.args[3]) if isinstance(i.args[3], (tuple, list, frozenset)) else [i.args[3]] if isinstance(i.args[3], T) else []


def conn_cond(q, inv, ref):
    """whether there is a connection, or whether the frame has the value"""
    q = q[0] if isinstance(q, tuple) else q
    while q.op == "op" and q.args[0] in ("not", "truth", "isnone"):
        q = q.args[1]
    return q.op == "op" and q.args[0] == "in" or contains(q, inv) and not any(y.op == "call" and y.args[0] == "len" for y in walk(q)) or size_cond(q, lambda t: True) in ("0", ">0")


def no_conn(n):
    c, pol = n.d["cond"], n.d["pol"]
    if c.op == "op" and c.args[0] == "not":
        c, pol = c.args[1], not pol
    if c.op == "op" and c.args[0] == "truth":
        return not pol
    return size_cond(c, lambda t: True) in ("0",) and pol or size_cond(c, lambda t: True) in (">0",) and not pol


# ------------------------------------------------------------------------ growing
def grow(ctx, side, reuse):
    rule = "grow"
    other = "inputs" if side == "outputs" else "outputs"
    G = mk("param", "call_groups")
    r = go(ctx, GROW, (side, reuse), {"side_to_glue": const(side), "reuse_existing": const(reuse), "verbose": const(False)}, also=(PROJ,))
    where = f"{CF}.{GROW} (glued at {side}{', reusing nodes' if reuse else ''})"
    calls, gid = mk("val", G), mk("key", G)
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), gid) and contains(r.snap(l, l.d["siter"]), calls)
             or l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) in (mk("call", ".items", G), G)]
    loops = [l for l in loops if not any(l is not x and l.id in body(r, x) for x in loops)]
    ctx.minimum(rule, where, len(loops), 1, "goes through the groups")
    # -- calls
    adds = [n for n in method_calls(ctx, r, "add_call", S)]
    ctx.minimum(rule, where, len(adds), 1, "calls added")
    heads = []
    for n in adds:
        ctx.check(rule, where, given(ctx, r, n, "call") is mk("elem", calls), "the calls of the group are added", n)
        w = given(ctx, r, n, "with_refs")
        ctx.check(rule, where, w is None or w is const(True), "with their values", n)
        ls = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) is calls and n.id in body(r, l)]
        for l in ls:
            every_item(ctx, r, rule, where, l, [n], "every call of the group is added")
        heads += ls
    for l in loops:
        every_item(ctx, r, rule, where, l, heads, "the calls of every group are added")
    # -- the function node
    newf = {n.d["result"]: n for n in method_calls(ctx, r, "_add_func", S)}
    fkey = mk("key", mk("attr", S, "fs"))
    fnames = set()
    for n in adds:
        for a in alts(given(ctx, r, n, "fname")):
            fnames.add(a)
            ctx.check(rule, where, a in newf or (reuse and a in (fkey, mk("elem", mk("attr", S, "fs")))), "the calls go to a new node" + (" or one that matches" if reuse else ""), n, show(a))
    for x, n in newf.items():
        a = r.snap(n, given(ctx, r, n, "fname"))
        ctx.check(rule, where, fresh(ctx, a, "get_new_fname"), "a new node gets a name of its own", n, show(a))
    newv = {n.d["result"]: n for n in method_calls(ctx, r, "_add_var", S)}
    for x, n in newv.items():
        a = r.snap(n, given(ctx, r, n, "vname"))
        ctx.check(rule, where, fresh(ctx, a, "get_new_vname"), "a new node gets a name of its own", n, show(a))
    ctx.minimum(rule, where, len(newf), 1, "new function nodes")
    ctx.minimum(rule, where, len(newv), 1, "new variables")
    # -- edges
    edges = method_calls(ctx, r, "_add_edge", S)
    glue, dual = [], []
    conn = mk("sub", gid, const(1))
    vkey = mk("key", mk("attr", S, "vs"))
    for n in edges:
        s, d, l = (r.snap(n, given(ctx, r, n, p)) for p in ("src", "dst", "label"))
        f, v = (s, d) if side == "outputs" else (d, s)
        if contains(l, conn):
            glue.append(n)
            ctx.check(rule, where, all(a in fnames for a in alts(f)) and contains(v, conn), "edges between the group's node and what it is connected to, in the direction of the computation", n, f"{show(s)} -> {show(d)}")
            same = [y for y in walk(v) if y.op in ("elem", "key", "val") and contains(y, conn)]
            ctx.check(rule, where, label_of(l, v, conn), "under the label it is connected under", n, show(l))
            continue
        dual.append(n)
        f, v = (d, s) if side == "outputs" else (s, d)
        ctx.check(rule, where, all(a in fnames for a in alts(f)) and all(a in newv or (reuse and from_vs(a)) for a in alts(v)), "edges between the group's node and its new variables, in the direction of the computation", n, f"{show(s)} -> {show(d)}")
    ctx.minimum(rule, where, len(glue), 1, "edges to what the group is connected to")
    ctx.minimum(rule, where, len(dual), 1, "edges to new variables")
    cl = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), conn) and any(n.id in body(r, l) for n in glue)]
    inner = {}
    for n in glue:
        ls = [l for l in cl if n.id in body(r, l)]
        if ls:
            inner.setdefault(max(ls, key=lambda l: l.id).id, []).append(n)
            for l in ls:
                unbroken(ctx, r, rule, where, l, "every connection gets an edge")
    for h, ns in inner.items():
        every_item(ctx, r, rule, where, r.nodes[h], ns, "every connection gets an edge")
    for l in cl:
        if l.id in inner:
            continue
        legit = [n for n in r.nodes if n.kind == "assume" and contains(r.snap(n, n.d["cond"]), conn) and no_conn(n)]
        every_item(ctx, r, rule, where, l, [r.nodes[h] for h in inner], "every connection gets an edge", legit)
    # every group comes to the edges
    for l in loops:
        outs = [x for x in cl if not any(x is not y and x.id in body(r, y) for y in cl)]
        p = r.path(per_item(r, l), backs(r, l), avoid=[x.id for x in outs])
        ctx.check(rule, where, bool(outs) and p is None, "every connection gets an edge", l, show_path(p))
    # -- labels on the other side
    dl = []
    for n in dual:
        ls = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and n.id in body(r, l) and not any(l is x for x in loops) and l not in cl]
        ls = [l for l in ls if labels_of(r, r.snap(l, l.d["siter"]), calls, other)]
        ctx.check(rule, where, bool(ls), f"a variable for every label of the {other}", n)
        ctx.check(rule, where, not any(labels_of(r, r.snap(l, l.d["siter"]), calls, side) for l in ls), f"a variable for every label of the {other}", n)
        dl += [l for l in ls if l not in dl]
    atside = mk("attr", S, "inp" if side == "outputs" else "out")
    for l in dl:
        legit = [n for n in r.nodes if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["pol"] and contains(r.snap(n, n.d["cond"].args[2]), atside)]
        every_item(ctx, r, rule, where, l, dual, f"a variable for every label of the {other} that the node has no edge for", legit)
        p = r.path(per_item(r, loops[0]) if loops else [], backs(r, loops[0]) if loops else [], avoid=[x.id for x in dl])
        ctx.check(rule, where, p is None, f"a variable for every label of the {other}", l, show_path(p))
    # -- reuse
    if reuse:
        for base, what in ((mk("attr", S, "fs"), "calls"), (mk("attr", S, "vs"), "values")):
            matches(ctx, r, rule, where, base, what, calls, other, gid)


def label_of(l, v, conn):
    """label and variable come from the same connection"""
    ls = [y for y in walk(l) if y.op in ("elem", "key") and contains(y, conn)]
    return l.op == "sub" and l.args[1] is const(0) and contains(v, mk("sub", l.args[0], const(1))) or l.op == "key" and contains(v, mk("val", *l.args))


def from_vs(a):
    return a.op in ("key", "elem") and contains(a, mk("attr", S, "vs"))


def fresh(ctx, a, name):
    return all(x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("get_new_fname", "get_new_vname") for x in alts(a))


def labels_of(r, t, calls, side):
    return any(y.op in ("elem", "key") and contains(y, mk("attr", mk("elem", calls), side)) for y in walk(t)) and any(
        y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] == PROJ for y in walk(t))


def matches(ctx, r, rule, where, base, what, calls, other, gid):
    """a node is taken for another only when one has all the elements of the other (or it is of the group's op)"""
    heads = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), mk("key", base))]
    val = mk("val", base)
    isval = lambda t: any(y is val or y.op == "sub" and y.args[0] is base for y in walk(t))
    sub_, sup, full, byop = [], [], [], []
    for n in r.nodes:
        if n.kind != "assume":
            continue
        c, pol = n.d["cond"], n.d["pol"]
        if c.op == "op" and c.args[0] in ("le", "ge", "lt", "gt") and (isval(c.args[1]) != isval(c.args[2])):
            small = c.args[1] if c.args[0] in ("le", "lt") else c.args[2]
            (sup if isval(small) else sub_).append(n) if pol else None
        if c.op == "call" and c.args[0] in (".issubset", ".issuperset") or c.op == "op" and c.args[0] == "truth" and c.args[1].op == "call" and c.args[1].args[0] in (".issubset", ".issuperset"):
            k = c if c.op == "call" else c.args[1]
            a, b = cargs(k)[0], cargs(k)[1] if len(cargs(k)) > 1 else None
            if pol and b is not None:
                small = a if k.args[0] == ".issubset" else b
                (sup if isval(small) else sub_).append(n)
        if c.op == "op" and c.args[0] == "truth" and isval(c.args[1]) and pol:
            full.append(n)
        if size_cond(c, isval) == "0" and not pol or size_cond(c, isval) == ">0" and pol:
            full.append(n)
        if c.op == "op" and c.args[0] == "eq" and pol and contains(c, mk("sub", gid, const(0))):
            byop.append(n)
    for l in heads:
        outs = [b.id for b in r.nodes if b.kind in ("break", "loopret") and b.d["head"] == l.id]
        if not outs:
            continue
        good = [n.id for n in sub_ + byop]
        p = r.path(per_item(r, l), outs, avoid=good + [n.id for n in sup])
        ctx.check("reuse", where, p is None, f"a node is reused only when its {what} include those of the group or the other way around" + (", or it is of the same op" if what == "calls" else ""), l, show_path(p))
        p = r.path(per_item(r, l), outs, avoid=good + [n.id for n in full])
        ctx.check("reuse", where, p is None, "a node without elements matches nothing by being a subset", l, show_path(p))


# ------------------------------------------------------------------------ names
def names(ctx):
    rule = "names"
    vs, fs = mk("attr", S, "vs"), mk("attr", S, "fs")
    for name in ("get_new_vname", "get_new_fname"):
        r = go(ctx, name, (), None)
        where = f"{CF}.{name}"
        ctx.minimum(rule, where, len(r.ends), 1, "results")
        again = [n for n in r.nodes if cf_method(ctx, n) in ("get_new_vname", "get_new_fname")]
        free = {f: [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and contains(r.snap(n, n.d["cond"].args[2]), f)] for f in (vs, fs)}
        for e, st, v in r.ends:
            for f in (vs, fs):
                p = r.path([r.it.entry.id], [e.id], avoid=[n.id for n in free[f] + again])
                ctx.check(rule, where, p is None, "a name is taken when no node has it, variable or function", e, show_path(p))
                for a in alts(v):
                    ok = any(a is n.d["result"] for n in again) or any(n.d["cond"].args[1] is a or a in alts(n.d["cond"].args[1]) for n in free[f])
                    ctx.check(rule, where, ok, "the name taken is the one looked for among the nodes", e, None if ok else show(a))


# ------------------------------------------------------------------------ frames of an op
def from_op(ctx):
    rule = "from op"
    name = "from_op"
    op = contracts(ctx, name, inline=VIEWS)
    r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {PROJ} or op(f), tag=("c27",))
    where = f"{CF}.{name}"
    P, ST = mk("param", "f"), mk("param", "storage")
    gets = [n for n in r.nodes if storage_call(n, "mget_call")]
    adds = [n for n in r.nodes if cf_method(ctx, n) == "add_call"]
    ctx.minimum(rule, where, len(gets), 1, "calls loaded")
    ctx.minimum(rule, where, len(adds), 1, "calls added")
    for n in gets:
        h = r.snap(n, (list(n.d["args"]) + list(n.d["kwargs"].values()))[0])
        ctx.check(rule, where, contains(h, mk("attr", P, "name")) or any(y.op == "attr" and y.args[0] is P for y in walk(h)), "the calls of the op are loaded", n)
    for n in adds:
        c = given(ctx, r, n, "call")
        src = [g for g in gets if c is mk("elem", g.d["result"])]
        ctx.check(rule, where, bool(src), "the calls loaded are added", n, show(c))
        w = given(ctx, r, n, "with_refs")
        ctx.check(rule, where, w is None or w is const(True), "with their values", n)
        for l in [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(r.snap(l, l.d["siter"]) is g.d["result"] for g in gets) and n.id in body(r, l)]:
            every_item(ctx, r, rule, where, l, [n], "every call of the op is added")
    need(ctx, r, rule, where, [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(n.id in body(r, l) for n in adds)], "every call of the op is added")
    edges = [n for n in r.nodes if cf_method(ctx, n) == "_add_edge"]
    nv = {n.d["result"] for n in r.nodes if cf_method(ctx, n) == "_add_var"}
    fn = {n.d["result"] for n in r.nodes if cf_method(ctx, n) == "_add_func"} | {mk("attr", P, "name")}
    ins = outs = 0
    for n in edges:
        s, d, l = (r.snap(n, given(ctx, r, n, p)) for p in ("src", "dst", "label"))
        side = "inputs" if s in nv and d in fn else "outputs" if s in fn and d in nv else None
        ctx.check(rule, where, side is not None, "edges join the op's node and its variables", n, f"{show(s)} -> {show(d)}")
        if side is None:
            continue
        ins, outs = ins + (side == "inputs"), outs + (side == "outputs")
        names_ = [y for y in walk(l) if y.op in ("key", "elem") and any(z.op == "attr" and z.args[-1] in ("inputs", "outputs") for z in walk(y))]
        ctx.check(rule, where, any(z is mk("attr", mk("elem", g.d["result"]), side) for y in names_ for z in walk(y) for g in gets) and any(y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] == PROJ for y in walk(l)),
                  f"the label is that of one of its {side}", n, show(l))
    ctx.minimum(rule, where, ins, 1, "edges for inputs")
    ctx.minimum(rule, where, outs, 1, "edges for outputs")
    for n in r.nodes:
        if cf_method(ctx, n) == "_add_var":
            a = r.snap(n, given(ctx, r, n, "vname"))
            ctx.check(rule, where, fresh(ctx, a, "get_new_vname"), "a new node gets a name of its own", n, show(a))


def answers(ctx):
    """the storage gives all the calls that created or use the values"""
    rule = "storage"
    for name, q in (("get_creators", "get_creator_hids"), ("get_consumers", "get_consumer_hids")):
        r = ctx.run("Storage", name, opaque=lambda f: f.name in ("get_creator_hids", "get_consumer_hids", "mget_call", "in_context"), tag=("c27",))
        where = f"Storage.{name}"
        qs = [n for n in r.nodes if storage_call(n, q)]
        ctx.minimum(rule, where, len(qs), 1, "questions to the call storage")
        ms = [n for n in r.nodes if storage_call(n, "mget_call")]
        for n in qs:
            a = (list(n.d["args"]) + list(n.d["kwargs"].values()))[0]
            ctx.check(rule, where, contains(r.snap(n, a), mk("param", "ref_hids")), "for the values given", n)
        for n in ms:
            h = r.snap(n, (list(n.d["args"]) + list(n.d["kwargs"].values()))[0])
            ctx.check(rule, where, any(contains(h, x.d["result"]) for x in qs), "the calls found are loaded", n)
        for e, st, v in r.ends:
            ctx.check(rule, where, all(any(contains(a, m.d["result"]) for m in ms) for a in alts(v)), "and returned", e)
