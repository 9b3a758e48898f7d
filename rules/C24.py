"""The indexes of a computation frame agree after every change."""
from .cfs import *

EXPLANATION = (
    "Path analysis of every operation that adds, drops, moves or renames values, calls, nodes and edges of a frame, in place and not: which containers of the frame it changes on each path, under which decisions, "
    "so that a change of one index is always accompanied by the matching changes of the others; and coverage of what bulk operations pass on."
)
ASSUMPTIONS = ["containers behave as documented"]


def check(ctx):
    add_node(ctx, "_add_var", "vs", "vname")
    add_node(ctx, "_add_func", "fs", "fname")
    add_edge(ctx)
    drop_edge(ctx)
    edges(ctx)
    add_ref(ctx)
    add_call(ctx)
    drop_ref(ctx)
    drop_call(ctx)
    for inplace in (True, False):
        drop_whole(ctx, "drop_var", "vname", "vs", "drop_ref", inplace)
        drop_whole(ctx, "drop_func", "fname", "fs", "drop_call", inplace)
        drop_node(ctx, inplace)
        drop(ctx, inplace)
        rename(ctx, inplace)
        rename_var(ctx, inplace)
        move_ref(ctx, inplace)
        merge_into(ctx, inplace)
        merge_same(ctx, inplace)
        cleanup(ctx, "cleanup", inplace)
    cleanup(ctx, "simplify", None)
    constructors(ctx)


def run(ctx, name, inplace=None, inline=VIEWS):
    params = {"inplace": const(inplace)} if inplace is not None else None

    def setup(it, st):
        for s in (mk("param", "self"), mk("call", f"mandala.cf.{CF}.copy", mk("param", "self"))):
            it.hints[s] = CF
    r = ctx.run(CF, name, opaque=contracts(ctx, name, inline=inline), tag=("c24", name, inplace), params=params, setup=setup)
    S = r.P.get("self")
    if inplace is False:
        S = next((n.d["result"] for n in r.nodes if cf_method(ctx, n) == "copy" and n.d["recv"] is r.P["self"]), None)
    return r, Frame(r, S), f"{CF}.{name}" + ("" if inplace is None else " (in place)" if inplace else " (not in place)")


def delegated(ctx, r, F, name, where):
    """the operation not in place is the operation in place on a copy: the other mode says what it does"""
    ss = [n for n in method_calls(ctx, r, name, F.S) if inplace_of(ctx, n) is True]
    if not ss:
        return False
    pars = [x for x in r.P if x not in ("self", "inplace")]
    for n in ss:
        ok = all(barg(r, n, x) is r.P[x] for x in pars)
        ctx.check("frame", where, ok, "the operation is applied to a copy as asked for", n)
    need(ctx, r, "frame", where, ss, "the operation is applied to a copy")
    only(ctx, F, where, [])
    return True


def only(ctx, F, where, allowed):
    """nothing else of the frame is changed"""
    for o in F.ops:
        ok = any(o.kind in ks and (len(p) == 0 or same_path(o.path, p)) and (v is None or o.val is v or o.kind in ("set", "default", "del")) for ks, p, v in allowed)
        ctx.check("frame", where, ok, f"nothing else of the frame is changed: {o}" if not ok else "nothing else of the frame is changed", o.node)
    for n in F.unknown:
        ctx.bad("frame", where, f"what {n.d['how']} changes in the frame is not determined", n)


def fresh_sets(ctx, r, F, where):
    """an index entry is only started where there is none"""
    for o in F.ops:
        if o.kind == "set" and o.val is not None and o.val.op == "items" and o.path[0] in ("refinv", "callinv", "consumers", "inp", "out") and len(o.path) == (3 if o.path[0] in ("inp", "out") else 2):
            dec = [n for n in r.nodes if F.has(n, o.path[:-1], o.path[-1]) < 0 or F.empty(n, o.path) > 0]
            before(ctx, r, "entry", where, o.node, dec, "an entry of an index is started only where there is none")


# ------------------------------------------------------------------------ nodes
def add_node(ctx, name, field, par):
    r, F, where = run(ctx, name)
    for n, s, v in r.ends:
        for f in (field, "inp", "out"):
            ss = [o for o in F.ops if o.kind == "set" and o.path[0] == f and len(o.path) == 2 and all(a in alts(o.path[1]) for a in alts(v))]
            need(ctx, r, "node", where, [o.node for o in ss], f"a new node has an entry in {f}")
            for o in ss:
                raw = o.node.d.get("value")
                own = raw is not None and not any(q is not o and q.node.d.get("value") is raw for q in F.ops)
                ctx.check("node", where, own and o.val is not None and o.val.op == "items" and len(o.val.args) == 1, f"the entry of a new node in {f} is empty and its own", o.node)
        vs = {a for a in alts(v)}
        ok = vs <= {r.P[par]} | {m.d["result"] for m in r.nodes if cf_method(ctx, m) in ("get_new_vname", "get_new_fname")} and r.P[par] in vs
        ctx.check("node", where, ok, "a new node has the name asked for, or a new one", n)
        nulls = [m for m in r.nodes if none_test(m, {r.P[par]}) < 0]
        gen = [m for m in r.nodes if cf_method(ctx, m) in ("get_new_vname", "get_new_fname")]
        need(ctx, r, "node", where, gen, "a node without a name gets a new one", legit=nulls)
    only(ctx, F, where, [(("set",), o.path, None) for o in F.ops if o.kind == "set" and o.path[0] in (field, "inp", "out") and len(o.path) == 2])


# ------------------------------------------------------------------------ edges
def edges(ctx):
    r, F, where = run(ctx, "edges")
    out = mk("attr", r.P["self"], "out")
    ctx.minimum("edges", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        cs = coverage(r.it.snap(s, v))
        ok = bool(cs)
        for c in cs:
            mid = mk("val", out)
            low = mk("val", mid)
            ok = ok and not c.guards and c.bases == (out, mid, low) and c.val is mk("tuple", mk("key", out), mk("elem", low), mk("key", mid))
        ctx.check("edges", where, ok, "the edges are those recorded at their sources", n)


def is_edge(F, n, src, dst, label):
    """n decides whether the edge is in the frame: +1, -1, 0"""
    if n.kind != "assume":
        return 0
    for p, x in ((("out", src, label), dst), (("inp", dst, label), src)):
        if F.has(n, p, x):
            return F.has(n, p, x)
    c = n.d["cond"]
    if c.op == "op" and c.args[0] == "in" and c.args[1] is mk("tuple", src, dst, label):
        return 1 if n.d["pol"] else -1
    return 0


def add_edge(ctx):
    r, F, where = run(ctx, "_add_edge")
    src, dst, label = (r.P[x] for x in ("src", "dst", "label"))
    have = [n for n in r.nodes if is_edge(F, n, src, dst, label) > 0]
    a, b = F.sites("add", ("out", src, label), dst), F.sites("add", ("inp", dst, label), src)
    need(ctx, r, "edge", where, a, "a new edge is recorded at its source", legit=have)
    need(ctx, r, "edge", where, b, "a new edge is recorded at its target", legit=have)
    for n in a:   # the two ends are only ever recorded together
        need(ctx, r, "edge", where, b, "a new edge is recorded at both ends", starts=[n.id]) if r.path([r.it.entry.id], [n.id], avoid=[x.id for x in b]) is not None else None
    only(ctx, F, where, [(("set", "default", "add"), ("out", src, label), dst), (("set", "default", "add"), ("inp", dst, label), src)])
    fresh_sets(ctx, r, F, where)


def drop_edge(ctx):
    r, F, where = run(ctx, "_drop_edge")
    src, dst, label = (r.P[x] for x in ("src", "dst", "label"))
    for p, x, e in ((("out", src, label), dst, "source"), (("inp", dst, label), src, "target")):
        a = F.sites("remove", p, x)
        need(ctx, r, "edge", where, a, f"a dropped edge is removed at its {e}")
        d = F.sites("del", p)
        more = [n for n in r.nodes if F.empty(n, p) < 0 or F.last(n, p, x) < 0]
        none = [n for n in r.nodes if F.empty(n, p) > 0 or F.last(n, p, x) > 0]
        need(ctx, r, "edge", where, d, f"a label without edges at the {e} is dropped", legit=more)
        for n in d:
            before(ctx, r, "edge", where, n, none, f"a label is dropped at the {e} only without edges")
    only(ctx, F, where, [(("remove", "del"), ("out", src, label), dst), (("remove", "del"), ("inp", dst, label), src)])


# ------------------------------------------------------------------- values, calls
def add_one(ctx, r, F, where, node, obj, field, objs, inv):
    hid = mk("attr", obj, "hid")
    have = [n for n in r.nodes if F.has(n, (field, node), hid) > 0]
    need(ctx, r, "add", where, F.sites("set", (objs, hid), obj), f"what is added is known in {objs}", legit=have)
    need(ctx, r, "add", where, F.sites("add", (field, node), hid), "what is added is an element of the node", legit=have)
    need(ctx, r, "add", where, F.sites("add", (inv, hid), node), f"the node is named in {inv}", legit=have)
    fresh_sets(ctx, r, F, where)
    return have, [(("set",), (objs, hid), None), (("add",), (field, node), hid), (("set", "default", "add"), (inv, hid), node)]


def add_ref(ctx):
    r, F, where = run(ctx, "add_ref")
    have, al = add_one(ctx, r, F, where, r.P["vname"], r.P["ref"], "vs", "refs", "refinv")
    only(ctx, F, where, al)


def add_call(ctx):
    r, F, where = run(ctx, "add_call")
    call, node = r.P["call"], r.P["fname"]
    hid = mk("attr", call, "hid")
    have, al = add_one(ctx, r, F, where, node, call, "fs", "calls", "callinv")
    without = [n for n in r.nodes if n.kind == "assume" and n.cond is mk("op", "truth", r.P["with_refs"]) and not n.pol]
    for io, adj, what in (("inputs", "inp", "consumers"), ("outputs", "out", "creator")):
        base = mk("attr", call, io)
        ref = mk("val", base)
        rh = mk("attr", ref, "hid")
        if what == "consumers":
            reg = F.sites("add", ("consumers", rh), hid)
            al += [(("set", "default", "add"), ("consumers", rh), hid)]
        else:
            reg = F.sites("set", ("creator", rh), hid)
            al += [(("set",), ("creator", rh), None)]
        heads = [l for l in loops_over(r, lambda b: b is base) if {n.id for n in reg} & body(r, l)]
        need(ctx, r, "call", where, heads, f"all {io} of the call are gone through", legit=have + without)
        # labels the inputs (outputs) of the call are recorded under
        inner = [l for l in r.nodes if l.kind == "loop" and l.d.get("siter") is not None and any(F.place(b) is not None and len(F.place(b)) == 3 and F.place(b)[:2] == (adj, node) for b in loop_bases(r, l))]
        labels = {F.place(b)[2] for l in inner for b in loop_bases(r, l) if F.place(b) is not None and len(F.place(b)) == 3}
        out = [n for n in r.nodes for lb in labels if F.has(n, (adj, node), lb) < 0]
        good = []
        for l in inner:
            b = next(b for b in loop_bases(r, l) if F.place(b) is not None)
            cs = [n for n in method_calls(ctx, r, "add_ref", F.S) if n.id in body(r, l) and barg(r, n, "vname") is mk("elem", b) and barg(r, n, "ref") is ref
                  and given(ctx, r, n, "allow_existing") is TRUE]
            if every_item(ctx, r, "call", where, l, cs, f"the {io} are added to every variable connected under their name"):
                good.append(l)
        for l in heads:
            every_item(ctx, r, "call", where, l, reg, f"the call is recorded in {what} of its {io} that have edges", legit=out)
            every_item(ctx, r, "call", where, l, good, f"the {io} that have edges are added to the variables", legit=out)
    only(ctx, F, where, al)


def drop_one(ctx, r, F, where, node, hid, field, inv, dead, what):
    """hid is taken out of the node, and out of everything with its last node"""
    rem = F.sites("remove", (field, node), hid)
    need(ctx, r, "drop", where, rem, f"the {what} is taken out of the node")
    p = (inv, hid)
    gone = F.sites("remove", p, node)
    last = [n for n in r.nodes if F.last(n, p, node) > 0 or F.empty(n, p) > 0]
    other = [n for n in r.nodes if F.last(n, p, node) < 0 or F.empty(n, p) < 0]
    need(ctx, r, "drop", where, last + other, f"whether other nodes have the {what} is decided")
    for n in last + other:
        if F.empty(n, p):
            before(ctx, r, "drop", where, n, gone, "the entry is looked at after the node was taken out of it")
    no = [n for n in r.nodes if F.has(n, p, node) < 0]
    need(ctx, r, "drop", where, gone, f"the node is taken out of the {inv} of a {what} that stays", legit=no + last)
    for n in other:
        al = [m for m in gone + no]
        q = r.path([n.id], exits(r), avoid={m.id for m in al})
        pre = r.path([r.it.entry.id], [n.id], avoid={m.id for m in gone})
        ctx.check("drop", where, q is None or pre is None, f"the node is taken out of the {inv} of a {what} that stays", n, show_path(q))
    for f in dead:
        ds = F.sites("del", (f, hid))
        ok = [n for n in r.nodes if F.has(n, (f, hid)[:1], hid) < 0]
        for n in last:
            need(ctx, r, "drop", where, ds, f"a {what} no node has any more is dropped from {f}", legit=ok if f in ("creator", "consumers") else (), starts=[n.id])
        for d in ds:
            before(ctx, r, "drop", where, d, last, f"a {what} is dropped from {f} only with its last node")
    return last, [(("remove",), (field, node), hid), (("remove",), p, node)] + [(("del",), (f, hid), None) for f in dead]


def drop_ref(ctx):
    r, F, where = run(ctx, "drop_ref")
    last, al = drop_one(ctx, r, F, where, r.P["vname"], r.P["hid"], "vs", "refinv", ("refs", "refinv", "creator", "consumers"), "value")
    only(ctx, F, where, al)


def drop_call(ctx):
    r, F, where = run(ctx, "drop_call")
    hid = r.P["hid"]
    last, al = drop_one(ctx, r, F, where, r.P["fname"], hid, "fs", "callinv", ("calls", "callinv"), "call")
    # the call of this id, as it was before it was dropped
    call = {mk("sub", mk("attr", F.S, "calls"), hid), mk("call", ".pop", mk("attr", F.S, "calls"), hid), mk("call", ".get", mk("attr", F.S, "calls"), hid)}
    for io, f in (("outputs", "creator"), ("inputs", "consumers")):
        bs = {mk("attr", c, io) for c in call}
        heads, good = loops_over(r, lambda b: b in bs), []
        for l in heads:
            b = next(b for b in loop_bases(r, l) if b in bs)
            rh = {mk("attr", mk("val", b), "hid"), mk("attr", mk("sub", b, mk("key", b)), "hid"), mk("attr", mk("elem", b), "hid")}
            if f == "creator":
                ss = [n for x in rh for n in F.sites("del", (f, x))]
                legit = [n for n in r.nodes for x in rh if creator_is(F, n, x, hid) < 0]
                mine = [n for n in r.nodes for x in rh if creator_is(F, n, x, hid) > 0]
                al += [(("del",), (f, x), None) for x in rh]
                for d in ss:
                    before(ctx, r, "call", where, d, mine, "a value loses its creator only if this is the call")
            else:
                ss = [n for x in rh for n in F.sites("remove", (f, x), hid)]
                legit = [n for n in r.nodes for x in rh if F.has(n, (f,), x) < 0 or F.has(n, (f, x), hid) < 0]
                al += [(("remove", "del"), (f, x), hid) for x in rh]
                for x in rh:
                    for d in F.sites("del", (f, x)):
                        before(ctx, r, "call", where, d, [n for n in r.nodes if F.empty(n, (f, x)) > 0 or F.last(n, (f, x), hid) > 0],
                               "a value loses its consumers only if there are none left")
            if every_item(ctx, r, "call", where, l, ss, f"a call no node has any more is removed from {f} of its {io}", legit=legit):
                good.append(l)
        for n in last:
            need(ctx, r, "call", where, good, f"a call no node has any more is removed from {f} of all its {io}", starts=[n.id])
        for l in heads:
            if any(o.kind in ("del", "remove") and o.path[0] == f and o.node.id in body(r, l) for o in F.ops):
                before(ctx, r, "call", where, l, last, f"the {f} of its {io} are touched only with the last node of a call")
    only(ctx, F, where, al)


def creator_is(F, n, x, hid):
    """n decides whether the creator of value x is call hid: +1, -1, 0"""
    if n.kind != "assume" or n.d["cond"].op != "op":
        return 0
    c, pol = n.d["cond"], n.d["pol"]
    if c.args[0] == "eq" and hid in c.args[1:]:
        o = c.args[1] if c.args[2] is hid else c.args[2]
        if F.at(o, ("creator", x)):
            return 1 if pol else -1
    if F.has(n, ("creator",), x) < 0:
        return -1
    return 0


# --------------------------------------------------------------------- whole nodes
def drop_whole(ctx, name, par, field, one, inplace):
    r, F, where = run(ctx, name, inplace)
    if inplace is False and delegated(ctx, r, F, name, where):
        return
    node = r.P[par]
    drops = method_calls(ctx, r, "_drop_edge", F.S)
    out = mk("attr", F.S, "out")
    mid = mk("val", out)
    comp = {"src": mk("key", out), "dst": mk("elem", mk("val", mid)), "label": mk("key", mid)}
    for n in drops:
        ok = barg(r, n, "src") is comp["src"] and barg(r, n, "dst") is comp["dst"] and barg(r, n, "label") is comp["label"]
        ctx.check("drop", where, ok, "the edges of the node are dropped as they are", n)
    for end in ("src", "dst"):
        good = []
        for l in [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None]:
            ss = [d for d in drops if d.id in body(r, l)]
            if not ss:
                continue
            legit = [n for n in r.nodes if n.kind == "assume" and not n.pol and is_any(n.cond, node, comp[end])]
            if selects(r, l, node, comp[end]) and r.path(per_item(r, l), backs(r, l), avoid={d.id for d in ss} | {n.id for n in legit}) is None and \
                    unbroken(ctx, r, "drop", where, l, "all edges of the node are dropped"):
                good.append(l)
        need(ctx, r, "drop", where, good, f"all edges with the node as {'source' if end == 'src' else 'target'} are dropped")
    elems = mk("sub", mk("attr", F.S, field), node)
    each_call(ctx, r, F, where, elems, one, lambda n: barg(r, n, par if one == "drop_ref" else par) is node and barg(r, n, "hid") is mk("elem", elems),
              f"all elements of the node are dropped with it")
    for f in (field, "inp", "out"):
        need(ctx, r, "drop", where, F.sites("del", (f, node)), f"the node is dropped from {f}")
    only(ctx, F, where, [(("del",), (f, node), None) for f in (field, "inp", "out")])


def each_call(ctx, r, F, where, base, name, pred, msg, legit=(), always=True):
    """the named operation is called for every element of a collection"""
    heads = []
    for l in loops_over(r, lambda b: b is base):
        ss = [n for n in method_calls(ctx, r, name, F.S) if n.id in body(r, l) and pred(n)]
        if ss and every_item(ctx, r, "each", where, l, ss, msg, legit=legit):
            heads.append(l)
        for c in coverage(r.snap(l, l.d["siter"])):
            if ss:
                ctx.check("each", where, not c.guards, f"{msg}, without exception", l)
    if always:
        need(ctx, r, "each", where, heads, msg)
    else:
        ctx.check("each", where, bool(heads), msg, r.it.entry)
    return heads


def drop_node(ctx, inplace):
    r, F, where = run(ctx, "drop_node", inplace)
    if inplace is False and delegated(ctx, r, F, "drop_node", where):
        return
    node = r.P["node"]
    for field, name in (("vs", "drop_var"), ("fs", "drop_func")):
        cs = [n for n in method_calls(ctx, r, name) if n.d["recv"] in (F.S, r.P["self"]) and n.d["args"] and r.snap(n, n.d["args"][0]) is node]
        yes = [n for n in r.nodes if F.has(n, (field,), node) > 0]
        ctx.minimum("node", where, len(yes), 1, f"decisions whether the node is in {field}")
        for n in yes:
            need(ctx, r, "node", where, cs, f"a node in {field} is dropped as such", starts=[n.id])
        for n in cs:
            before(ctx, r, "node", where, n, yes, f"only a node in {field} is dropped as such")
    only(ctx, F, where, [])


def drop(ctx, inplace):
    r, F, where = run(ctx, "drop", inplace)
    if inplace is False and delegated(ctx, r, F, "drop", where):
        return
    nodes = r.P["nodes"]
    each_call(ctx, r, F, where, nodes, "drop_node", lambda n: barg(r, n, "node") is mk("elem", nodes), "every node given is dropped")
    only(ctx, F, where, [])


def rename(ctx, inplace):
    r, F, where = run(ctx, "rename", inplace)
    if inplace is False and delegated(ctx, r, F, "rename", where):
        return
    v = r.P["vars"]
    heads = []
    for l in loops_over(r, lambda b: b is v):
        ss = [n for n in method_calls(ctx, r, "rename_var", F.S) if n.id in body(r, l) and barg(r, n, "vname") is mk("key", v) and barg(r, n, "new_vname") in (mk("val", v), mk("sub", v, mk("key", v)))]
        if ss and every_item(ctx, r, "each", where, l, ss, "every variable given is renamed as given"):
            heads.append(l)
    need(ctx, r, "each", where, heads, "the variables given are renamed", legit=[n for n in r.nodes if none_test(n, {v}) > 0])
    only(ctx, F, where, [])


def rename_var(ctx, inplace):
    r, F, where = run(ctx, "rename_var", inplace)
    if F.S is None:
        ctx.bad("rename", where, "the variable is renamed in a copy", r.it.entry)
        return
    if inplace is False and delegated(ctx, r, F, "rename_var", where):
        return
    old, new = r.P["vname"], r.P["new_vname"]
    same = [n for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "eq" and set(n.cond.args[1:]) == {old, new} and n.pol]
    al = []
    for f in ("vs", "inp", "out"):
        w = mk("attr", F.S, f)
        vals = {mk("sub", w, old), mk("call", ".pop", w, old)}
        ss = [o.node for o in F.ops if o.kind == "set" and same_path(o.path, (f, new)) and o.val in vals]
        need(ctx, r, "rename", where, ss, f"the new name has the {f} of the old one", legit=same)
        ds = F.sites("del", (f, old))
        need(ctx, r, "rename", where, ds, f"the old name is gone from {f}", legit=same)
        al += [(("set",), (f, new), None), (("del",), (f, old), None)]
    # nothing of another node is overwritten
    taken = [n for n in r.nodes if n.kind == "assume" and not n.pol and n.cond.op == "op" and n.cond.args[0] == "in" and n.cond.args[1] is new and covers_nodes(r, F, n)]
    for o in F.ops:
        if o.kind == "set" and o.path[0] in ("vs", "inp", "out") and len(o.path) == 2:
            before(ctx, r, "rename", where, o.node, taken, "a variable takes no name another node has")
    # neighbours
    for f in ("inp", "out"):
        w = mk("attr", F.S, f)
        repl_in = []
        for l in r.nodes:
            if l.kind != "loop" or l.d.get("siter") is None:
                continue
            for b in loop_bases(r, l):
                p = F.place(b)
                if p is None or p[0] != f or len(p) != 2:
                    continue
                s = mk("val", b)
                rem = [o.node for o in F.ops if o.kind == "remove" and o.val is old and F.at(o.node.d["target"], F.place(s)) and o.node.id in body(r, l)]
                add = [o.node for o in F.ops if o.kind == "add" and o.val is new and F.at(o.node.d["target"], F.place(s)) and o.node.id in body(r, l)]
                no = [n for n in r.nodes if F.has(n, F.place(s), old) < 0]
                if rem and add:
                    a1 = r.path(per_item(r, l), backs(r, l), avoid={n.id for n in rem + no})
                    a2 = r.path(per_item(r, l), backs(r, l), avoid={n.id for n in add + no})
                    unbroken(ctx, r, "rename", where, l, f"the {f} of all nodes name the new variable")
                    ctx.check("rename", where, a1 is None and a2 is None, f"the new name replaces the old one in the {f} of neighbours", l, show_path(a1 or a2))
                    yes = [n for n in r.nodes if F.has(n, F.place(s), old) > 0]
                    for n in add:
                        before(ctx, r, "rename", where, n, yes + rem, f"the new name is put only where the old one was in {f}")
                    al += [(("remove",), F.place(s), old), (("add",), F.place(s), new)]
                    repl_in.append((l, b, p))
        outer = []
        for l, b, p in repl_in:
            for k in alts(p[1]):
                hs = [h for h in r.nodes if h.kind == "loop" and h.d.get("siter") is not None and l.id in body(r, h) and whole_adj(r, F, h, f, k)]
                outer += [h for h in hs if every_item(ctx, r, "rename", where, h, [l], f"the {f} of every node are gone through")]
            if p[1] is mk("key", w):
                outer += [h for h in r.nodes if h.kind == "loop" and h.d.get("siter") is not None and l.id in body(r, h) and w in loop_bases(r, h)]
        need(ctx, r, "rename", where, outer, f"the {f} of all nodes name the new variable", legit=same)
    # values
    v = mk("attr", F.S, "vs")
    elems = {mk("sub", v, old), mk("sub", v, new), mk("call", ".pop", v, old)}
    heads = []
    for l in loops_over(r, lambda b: b in elems):
        b = next(b for b in loop_bases(r, l) if b in elems)
        x = mk("elem", b)
        rem, add = F.sites("remove", ("refinv", x), old), F.sites("add", ("refinv", x), new)
        if rem and every_item(ctx, r, "rename", where, l, rem, "the values of the variable no longer name the old variable") and \
                every_item(ctx, r, "rename", where, l, add, "the values of the variable name the new variable"):
            heads.append(l)
        al += [(("remove",), ("refinv", x), old), (("add",), ("refinv", x), new)]
    need(ctx, r, "rename", where, heads, "the values of the variable name the new variable", legit=same)
    only(ctx, F, where, al)


def covers_nodes(r, F, n):
    """the collection looked up by the decision holds all nodes of the frame"""
    cs = coverage(r.snap(n, n.d["cond"].args[2]))
    return all(any(not c.guards and c.bases == (mk("attr", F.S, f),) for c in cs) for f in ("vs", "fs"))


def whole_adj(r, F, h, f, k):
    """loop h goes through all nodes (or all entries of adjacency f) with k as the node"""
    cs = coverage(r.snap(h, h.d["siter"]))
    have = {c.bases[0] for c in cs if not c.guards and len(c.bases) == 1}
    w = mk("attr", F.S, f)
    return w in have or {mk("attr", F.S, "vs"), mk("attr", F.S, "fs")} <= have


# ------------------------------------------------------------------ moving and merging
def move_ref(ctx, inplace):
    r, F, where = run(ctx, "move_ref", inplace)
    if F.S is None:
        ctx.bad("move", where, "the value is moved in a copy", r.it.entry)
        return
    if inplace is False and delegated(ctx, r, F, "move_ref", where):
        return
    a, b, h = r.P["source_vname"], r.P["target_vname"], r.P["hid"]
    for kind, p, v, msg in (("remove", ("vs", a), h, "the value leaves its variable"), ("add", ("vs", b), h, "the value joins the other variable"),
                            ("remove", ("refinv", h), a, "the value no longer names its variable"), ("add", ("refinv", h), b, "the value names the other variable")):
        need(ctx, r, "move", where, F.sites(kind, p, v), msg)
    # moving to the same variable keeps the value
    for p, x, y in (("vs", F.sites("remove", ("vs", a), h), F.sites("add", ("vs", b), h)), ("refinv", F.sites("remove", ("refinv", h), a), F.sites("add", ("refinv", h), b))):
        for n in y:
            q = r.path([n.id], [m.id for m in x])
            ctx.check("move", where, q is None, f"the value is taken out before it is put in ({p})", n, show_path(q))
    only(ctx, F, where, [(("remove",), ("vs", a), h), (("add",), ("vs", b), h), (("remove",), ("refinv", h), a), (("add",), ("refinv", h), b)])


def merge_into(ctx, inplace):
    r, F, where = run(ctx, "merge_into", inplace)
    if F.S is None:
        ctx.bad("merge", where, "the node is merged in a copy", r.it.entry)
        return
    if inplace is False and delegated(ctx, r, F, "merge_into", where):
        return
    a, b = r.P["node_to_merge"], r.P["merge_into"]
    same = [n for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "eq" and set(n.cond.args[1:]) == {a, b} and n.pol]
    # elements: all of the first node that the second one has not are moved
    mv = [n for n in method_calls(ctx, r, "move_ref", F.S) if barg(r, n, "source_vname") is a and barg(r, n, "target_vname") is b]
    ctx.minimum("merge", where, len(mv), 1, "moves of values")
    out = mk("attr", F.S, "out")
    mid = mk("val", out)
    low = mk("val", mid)
    S_, D_, L_ = mk("key", out), mk("elem", low), mk("key", mid)
    dn = [n for n in method_calls(ctx, r, "drop_node", F.S) if barg(r, n, "node") is a]
    need(ctx, r, "merge", where, dn, "the merged node is dropped", legit=same)
    heads = []
    for l in r.nodes:
        if l.kind != "loop" or l.d.get("siter") is None:
            continue
        ms = [n for n in mv if n.id in body(r, l)]
        if not ms:
            continue
        t = r.snap(l, l.d["siter"])
        ok = is_diff(F, strip(t), a, b)
        ctx.check("merge", where, ok, "the values only the merged node has are moved", l)
        every_item(ctx, r, "merge", where, l, ms, "the values only the merged node has are moved")
        for n in ms:
            e = barg(r, n, "hid")
            ok = all(x.op == "elem" and (set_of(F, x.args[0], a) or is_diff(F, x.args[0], a, b)) for x in alts(e))
            ctx.check("merge", where, ok, "the values only the merged node has are moved", n)
        heads.append(l)
    sub = [n for n in r.nodes if n.kind == "assume" and n.pol and subset_cond(F, n.cond, a, b)]
    need(ctx, r, "merge", where, heads, "the values only the merged node has are moved", legit=same + sub)
    # edges
    dr = method_calls(ctx, r, "_drop_edge", F.S)
    ad = method_calls(ctx, r, "_add_edge", F.S)
    for end, want in (("dst", (S_, b, L_)), ("src", (b, D_, L_))):
        ds = [n for n in dr if [barg(r, n, x) for x in ("src", "dst", "label")] == [S_, D_, L_]]
        ss = [n for n in ad if tuple(barg(r, n, x) for x in ("src", "dst", "label")) == want and given(ctx, r, n, "allow_existing") is TRUE]
        good = []
        comp = S_ if end == "src" else D_
        for l in [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None]:
            if not ({n.id for n in ss} & body(r, l)):
                continue
            legit = [n for n in r.nodes if n.kind == "assume" and not n.pol and is_any(n.cond, a, comp)]
            if selects(r, l, a, comp) and every_item(ctx, r, "merge", where, l, [n for n in ss if n.id in body(r, l)], "the edges of the merged node are given to the other one", legit=legit) and \
                    every_item(ctx, r, "merge", where, l, [n for n in ds if n.id in body(r, l)], "the edges of the merged node are dropped", legit=legit):
                good.append(l)
        need(ctx, r, "merge", where, good, f"the edges {'out of' if end == 'src' else 'into'} the merged node are given to the other one", legit=same)
        for d in dn:
            for l in good:
                q = r.path([d.id], [l.id])
                ctx.check("merge", where, q is None, "the edges are moved before the node is dropped", d, show_path(q))
    for n in ad:
        ok = tuple(barg(r, n, x) for x in ("src", "dst", "label")) in ((S_, b, L_), (b, D_, L_))
        ctx.check("merge", where, ok, "only the edges of the merged node are given to the other one", n)
    only(ctx, F, where, [])


def merge_same(ctx, inplace):
    """merging a node into itself changes nothing"""
    x = mk("param", "merge_into")

    def setup(it, st):
        for s in (mk("param", "self"), mk("call", f"mandala.cf.{CF}.copy", mk("param", "self"))):
            it.hints[s] = CF
    r = ctx.run(CF, "merge_into", opaque=contracts(ctx, "merge_into", inline=VIEWS), params={"inplace": const(inplace), "node_to_merge": x}, setup=setup, tag=("c24", "same", inplace))
    S = r.P["self"]
    if inplace is False:
        S = next((n.d["result"] for n in r.nodes if cf_method(ctx, n) == "copy" and n.d["recv"] is r.P["self"]), None)
    if any(cf_method(ctx, n) == "merge_into" for n in r.nodes):
        return
    drops = [n for n in method_calls(ctx, r, "drop_node", S) if barg(r, n, "node") is x] if S is not None else []
    for n in drops:
        ctx.bad("merge", f"{CF}.merge_into", "a node merged into itself is not dropped", n)
    ctx.ok("merge", f"{CF}.merge_into", "a node merged into itself is not dropped", r.it.entry)


def set_of(F, t, node):
    """t is the set of elements of the node"""
    return all(F.place(x) in (("vs", node), ("fs", node)) for x in alts(strip(t)))


def is_diff(F, t, a, b):
    t = strip(t)
    if t.op == "phi":
        return all(is_diff(F, x, a, b) for x in t.args)
    if t.op == "call" and t.args[0] == ".difference" and len(cargs(t)) == 2:
        t = mk("op", "sub", *cargs(t))
    if t.op == "op" and t.args[0] == "sub":
        return set_of(F, F.r.it.snap(F.r.ends[0][1], t.args[1]), a) and set_of(F, F.r.it.snap(F.r.ends[0][1], t.args[2]), b)
    return False


def subset_cond(F, c, a, b):
    st = F.r.ends[0][1]
    return c.op == "op" and c.args[0] == "le" and set_of(F, F.r.it.snap(st, c.args[1]), a) and set_of(F, F.r.it.snap(st, c.args[2]), b)


def cleanup(ctx, name, inplace):
    r, F, where = run(ctx, name, inplace)
    if F.S is None:
        ctx.bad("cleanup", where, "a copy is cleaned up", r.it.entry)
        return
    if inplace is False and delegated(ctx, r, F, name, where):
        return
    vs, fs = mk("attr", F.S, "vs"), mk("attr", F.S, "fs")
    drops = [n for n in r.nodes if cf_method(ctx, n) in ("drop_node", "drop_var", "drop_func") and n.d["recv"] is F.S and
             (inplace_of(ctx, n) is True)]
    heads = []
    seen = set()
    for l in r.nodes:
        if l.kind != "loop" or l.d.get("siter") is None:
            continue
        ss = [n for n in drops if n.id in body(r, l)]
        if not ss:
            continue
        cs = coverage(r.snap(l, l.d["siter"]))
        bs = {c.bases[0] for c in cs if len(c.bases) == 1 and c.bases[0] in (vs, fs) and all(empty_cond(r, F, l, g, p) > 0 for g, p in c.guards)}
        pre = all(any(empty_cond(r, F, l, g, p) > 0 for g, p in c.guards) for c in cs) and bool(cs)
        full = [n for n in r.nodes if n.kind == "assume" and n.id in body(r, l) and nonempty_dec(r, F, n, l) < 0]
        none = [n for n in r.nodes if n.kind == "assume" and n.id in body(r, l) and nonempty_dec(r, F, n, l) > 0]
        if every_item(ctx, r, "cleanup", where, l, ss, "every node without elements is dropped", legit=full):
            seen |= bs
            heads.append(l)
        for n in ss:
            p = r.path(per_item(r, l), [n.id], avoid={m.id for m in none})
            ctx.check("cleanup", where, p is None or pre, "only nodes without elements are dropped", n, show_path(p))
    ctx.check("cleanup", where, seen == {vs, fs}, "all variables and functions are gone through", r.it.entry)
    need(ctx, r, "cleanup", where, heads, "every node without elements is dropped")
    only(ctx, F, where, [])


def nonempty_dec(r, F, n, l):
    """n decides whether the node at hand has no elements: +1 it has none, -1 it has some, 0 something else"""
    return empty_cond(r, F, n, n.d["cond"], n.d["pol"])


def empty_cond(r, F, n, c, pol):
    def mine(t):
        t = r.snap(n, t)
        if t.op == "phi":
            return all(mine(x) for x in t.args)
        if t.op == "sub":
            k = t.args[1]
            ok = all(x.op in ("key", "elem") for x in alts(k))
            cs = [c for c in coverage(t.args[0])] if F.place(t.args[0]) is None else None
            return ok and (F.place(t.args[0]) in (("vs",), ("fs",)) or bool(cs) and all(len(c.bases) == 1 and c.bases[0] in (mk("attr", F.S, "vs"), mk("attr", F.S, "fs")) for c in cs))
        if t.op == "val":
            return t.args[0] in (mk("attr", F.S, "vs"), mk("attr", F.S, "fs"))
        return False
    if c.op == "op" and c.args[0] == "truth" and mine(c.args[1]):
        return -1 if pol else 1
    s = size_cond(c, mine)
    return 0 if s not in ("0", ">0") else (1 if (s == "0") == pol else -1)


# ------------------------------------------------------------------------ constructors
def constructors(ctx):
    for name, par in (("from_refs", "refs"), ("from_vars", "vars")):
        r = ctx.run(CF, name, opaque=contracts(ctx, name, inline=VIEWS), tag=("c24", name))
        where = f"{CF}.{name}"
        base = r.P[par] if par == "refs" else mk("val", r.P["vars"])
        adds = [n for n in r.nodes if cf_method(ctx, n) == "add_ref"]
        good = []
        for l in loops_over(r, lambda b: b is base):
            ss = [n for n in adds if n.id in body(r, l) and barg(r, n, "ref") is mk("elem", base)]
            if ss and every_item(ctx, r, "construct", where, l, ss, "every value given is in the frame"):
                good.append(l)
        nodes = [n for n in r.nodes if cf_method(ctx, n) == "_add_var"]
        if par == "refs":
            need(ctx, r, "construct", where, good, "every value given is in the frame")
            need(ctx, r, "construct", where, nodes, "there is a variable for the values")
        else:
            outer = [l for l in loops_over(r, lambda b: b is r.P["vars"]) if any(g.id in body(r, l) for g in good)]
            for l in outer:
                every_item(ctx, r, "construct", where, l, [g for g in good if g.id in body(r, l)], "every value given is in the frame")
                every_item(ctx, r, "construct", where, l, [n for n in nodes if n.id in body(r, l) and barg(r, n, "vname") is mk("key", r.P["vars"])], "every variable given is in the frame")
            need(ctx, r, "construct", where, outer, "every variable given is in the frame")
        for n in adds:
            v = barg(r, n, "vname")
            ok = v in {m.d["result"] for m in nodes} or par == "vars" and v is mk("key", r.P["vars"])
            ctx.check("construct", where, ok, "the values are in the variable they are given for", n)
        for n, s, v in r.ends:
            ok = all(a is m.d["recv"] for a in alts(v) for m in adds + nodes)
            ctx.check("construct", where, ok, "the frame with the values is returned", n)
