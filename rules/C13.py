"""Deletion: what is dropped is exactly what was asked for and everything computed from it; clean-up never takes what is still used."""
from .stores import *

EXPLANATION = (
    "Dataflow and path analysis of drop_calls, drop_version, cleanup_refs and of the two provenance closures they rest on. drop_calls: "
    "every given call, and with delete_dependents every call of the dependents of the given calls in the database and, seeded with all "
    "of those, in the cache, is dropped from the cache and from the database (or was decided not to be there); nothing else is. The "
    "closures: every round queries the consumers of the new refs and the outputs of the new calls (dependencies: creators and inputs), "
    "adds both to the result and makes them the next round's frontier, and the loop is left only when both are empty; the result "
    "contains the seeds. drop_version: all calls recorded under that version, with their dependents, then the version itself, in one "
    "transaction. cleanup_refs: a value's shape is dropped only if its history id is in no recorded call, an atom only if its content id "
    "is in no recorded call and in no shape left; shapes go first; nothing is dropped while a context is active."
)
ASSUMPTIONS = ["the provenance queries answer as decided by C11"]
INMEM = op_names("get_creator_hids", "get_consumer_hids", "get_input_hids", "get_output_hids", base=lambda f: False)
DIRS = {"get_dependents": ("get_consumer_hids", "get_output_hids"), "get_dependencies": ("get_creator_hids", "get_input_hids")}


def check(ctx):
    for name in DIRS:
        closure(ctx, name)
        delegation(ctx, name)
    for dep in (True, False):
        drop_calls(ctx, dep)
    drop_version(ctx)
    cleanup(ctx)


# ------------------------------------------------------------------ closures
def named(t, q):
    return is_call(t) and short(t.args[0]) == q


def has_call(t, q):
    return contains(t, lambda u: named(u, q)) is not None


class Flow:
    """the values a while loop carries from round to round"""

    def __init__(self, r, head):
        self.r, self.head = r, head
        self.carried = head.d.get("carried", {})

    def symbol(self, t):
        """the carried variable whose value at the loop head is t"""
        for k, (i, v, b) in self.carried.items():
            if v is t or any(a in alts(v) and a.op != "obj" for a in alts(t)):
                return k
        return None

    def holds(self, t, name):
        return t is self.carried[name][1]


def closure(ctx, name):
    of_refs, of_calls = DIRS[name]
    r = ctx.run("InMemCallStorage", name, opaque=INMEM, tag="closure")
    where = f"InMemCallStorage.{name}"
    qs = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") in {q for d in DIRS.values() for q in d}]
    heads = [n for n in r.nodes if n.kind == "loop" and n.d["siter"] is None]
    if not ctx.check("closure", where, len(heads) == 1, "one loop to a fixed point", r.it.entry):
        return
    h = heads[0]
    fl = Flow(r, h)
    its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == h.id]
    backs = [p for p in h.preds if p >= h.id]
    leaves = [m.id for m in r.nodes if m.kind in ("endloop", "loopret") and m.d["head"] == h.id]
    seeds = {of_refs: r.P["ref_hids"], of_calls: r.P["call_hids"]}
    results = {}
    ends = [e for e in r.ends]
    for n, st, v in ends:
        v = r.it.snap(st, v) if v.op == "obj" else v
        if ctx.check("closure", where, v.op == "tuple" and len(v.args) == 2, "returns refs and calls", n):
            results[of_calls], results[of_refs] = v.args   # refs come out of of_calls' query, calls out of of_refs'
    for n in qs:
        q = short(n.d["name"])
        if not ctx.check("direction", f"{where} -> {q}", q in DIRS[name], "follows edges in its own direction only", n):
            continue
    for q in DIRS[name]:
        other = of_calls if q == of_refs else of_refs
        w = f"{where} -> {q}"
        mine = [n for n in qs if short(n.d["name"]) == q]
        if not ctx.minimum("closure", w, len(mine), 1, "queries"):
            continue
        p = r.path(its, backs, avoid=[n.id for n in mine])
        ctx.check("closure", w, p is None, "queried in every round", mine[0], show_path(p))
        # frontier
        for n in mine:
            a = next((v for k, v in n.d["bound"].items() if k != "self"), NONE)
            ctx.check("frontier", w, frontier(r, h, fl, a, seeds[q], other, results.get(other)), "each round starts from everything found in the one before, the first from what was given", n)
        # exits
        empt = [m.id for m in r.nodes if m.kind == "assume" and not m.d["pol"] and m.d["cond"].op == "op" and m.d["cond"].args[0] == "truth"
                and (has_call(m.d["cond"].args[1], q) or is_frontier(r, h, fl, m.d["cond"].args[1], q))]
        p = r.path(its, leaves, avoid=empt)
        if p is not None:
            p = r.path([h.id], leaves, avoid=empt)
        ctx.check("fixed-point", w, bool(leaves) and p is None, "the search ends only when this query brings nothing new", h, show_path(p))
        # result
        res = results.get(q)
        if res is not None:
            ctx.check("result", w, accumulates(r, h, fl, its, backs, res, q, seeds[other]), "everything found, and what was given, is in the result", h)


def frontier(r, h, fl, a, seed, q, result):
    if result is not None and a is result:
        return True
    for k, (i, v, bs) in fl.carried.items():
        if a is v:
            i0 = i
            return (i0 is seed or any(seed in c.bases and not c.guards for c in coverage(i0))) and bool(bs) and all(has_call(b, q) for b in bs)
    return False


def is_frontier(r, h, fl, t, q):
    for k, (i, v, bs) in fl.carried.items():
        if t is v and bs and all(has_call(b, q) for b in bs):
            return True
    return False


def accumulates(r, h, fl, its, backs, res, q, seed):
    for i, v, bs in fl.carried.values():
        if res is v:
            # rebuilt in every round from what it was and what the query brought
            return any(seed in c.bases and not c.guards for c in coverage(i)) and bool(bs) and all(
                has_call(b, q) and contains(b, lambda t: t in alts(v)) is not None and b.op in ("op", "items", "call")
                and not (b.op == "op" and b.args[0] != "bitor") for b in bs)
    for x in alts(res):
        if x.op != "obj":
            return False
        upd = [n.id for n in r.nodes if n.kind == "mut" and n.d["target"] is x and n.d["how"] in ("update", "add", "union") and any(has_call(a, q) for a in n.d["args"])]
        if not upd or r.path(its, backs, avoid=upd) is not None or not seeded(r, h, x, seed):
            return False
    return True


def seeded(r, h, x, seed):
    """the seeds are in the container when the loop is first reached"""
    return any(seed in c.bases and not c.guards for c in coverage(r.it.snap(h.d["heap0"], x)))


def delegation(ctx, name):
    r = ctx.run("SQLiteCallStorage", name, opaque=op_names(f"SQLiteCallStorage.get_df", "InMemCallStorage.get_dependents", "InMemCallStorage.get_dependencies",
                                                           base=lambda f: False), tag="closure")
    where = f"SQLiteCallStorage.{name}"
    for n, st, v in r.ends:
        ok = is_call(v) and short(v.args[0]) == name and contains(v, lambda t: t is r.P["ref_hids"]) is not None and contains(v, lambda t: t is r.P["call_hids"]) is not None
        ctx.check("closure", where, ok, "the closure over the whole table", n)
    for n in calls_to(r, name):
        if n.d.get("bound") is None or n.d["recv"] is r.P["self"]:
            continue
        df = r.snap(n, n.d["recv"])
        ctx.check("closure", where, has_call(df, "get_df"), "searched over every recorded call", n)
        for k in ("ref_hids", "call_hids"):
            a = r.snap(n, n.d["bound"].get(k, NONE))
            ctx.check("closure", where, a is r.P[k] or is_copy(r, n, a, r.P[k]), f"{k} are the ones given", n)


# ------------------------------------------------------------------ drop_calls
def drop_calls(ctx, dep):
    r = ctx.run("Storage", "drop_calls", attrs_=attrs(versioned=False), params={"delete_dependents": dep}, tag=("drop", dep))
    where = f"Storage.drop_calls [delete_dependents={dep}]"
    s = storage_stores(ctx, r)["calls"]
    given = r.P["calls_or_hids"]
    exits = [n.id for n, _, _ in r.ends]
    for half, obj in (("cache", s.cache), ("database", s.per)):
        w = f"{where}: {half}"
        sites = [n for n in r.nodes if n.kind == "call" and n.d.get("recv") is obj and short(n.d["name"] or "") == "drop"]
        absent = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and contains(n.d["cond"], lambda t: is_call(t) and short(t.args[0]) == "exists" and cargs(t) and cargs(t)[0] is obj) is not None]
        if not ctx.minimum("drops-all", w, len(sites), 1, "drop"):
            continue
        if half == "cache":
            un = [n.id for n in unmarks(r, s)]
            notp = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["cond"].args[2] is s.pending]
            for n in sites:
                p1 = r.path([r.it.entry.id], [n.id], avoid=un + notp)
                p2 = r.path(r.succ[n.id], exits + [x.id for x in r.nodes if x.kind == "iter"], avoid=un + notp)
                ctx.check("drops-all", w, p2 is None or p1 is None, "a dropped call is not pending any more", n, show_path(p2))
        heads = each(ctx, r, "drops-all", w, lambda t: True, [n.id for n in sites], "every selected call is dropped", legit=absent, what="the selected calls")
        for hid in heads:
            l = r.nodes[hid]
            selection(ctx, r, w, l, given, s, dep, obj)
        for n in sites:
            k = r.snap(n, next(v for q, v in n.d["bound"].items() if q not in ("self", "conn")))
            ok = all(contains(a, lambda t: t.op == "elem") is not None for a in alts(k))
            ctx.check("drops-all", w, ok, "what is dropped is an element of the selection", n)


def origin(t):
    """where the elements of a collection come from: {term}"""
    out = set()
    for bs, g in bases(t):
        for b in bs:
            if b.op == "op" and b.args[0] in ("bitor", "add", "union"):
                for a in b.args[1:]:
                    out |= origin(a)
            elif b.op == "phi":
                for a in b.args:
                    out |= origin(a)
            else:
                out.add(b)
    return out


def dependents_of(t, half):
    """t is the call part of a dependents query on that half: the query term"""
    if t.op == "sub" and is_const(t.args[1], 1) and named(t.args[0], "get_dependents") and cargs(t.args[0])[0] is half:
        return t.args[0]
    return None


def kwv(t, name, pos):
    for a in cargs(t):
        if a.op == "kw" and a.args[0] == name:
            return a.args[1]
    ps = [a for a in cargs(t)[1:] if a.op != "kw"]
    return ps[pos] if pos < len(ps) else NONE


def selection(ctx, r, w, l, given, s, dep, half):
    """the collection a drop loop ranges over"""
    sel = r.snap(l, l.d["siter"])
    org = origin(sel)
    known = {b for b in org if b is given}
    ctx.check("selects-given", w, bool(known), "the given calls are selected", l)
    for cv in coverage(sel):
        if given in cv.bases:
            extra = [(g, p) for g, p in cv.guards if not legit_guard(g) and not (p != (g.op == "op" and g.args[0] == "isnone") and exists_in(g, half))]
            ctx.check("selects-given", w, not extra, "every given call is selected", l)
    db = [b for b in org if dependents_of(b, s.per)]
    mem = [b for b in org if dependents_of(b, s.cache)]
    rest = [b for b in org if b is not given and b not in db and b not in mem]
    ctx.check("selects-only", w, not rest, "nothing else is selected" + (f" (also {show(rest[0], 3)})" if rest else ""), l)
    if not dep:
        ctx.check("selects-only", w, not db and not mem, "dependents stay unless asked for", l)
        return
    ctx.check("selects-dependents", w, bool(db), "the calls depending on the given ones in the database are selected", l)
    ctx.check("selects-dependents", w, bool(mem), "the calls depending on them that are only in the cache are selected", l)
    for b in db:
        q = dependents_of(b, s.per)
        ctx.check("selects-dependents", w, given in origin(kwv(q, "call_hids", 1)), "the search in the database starts from the given calls", l)
    for b in mem:
        q = dependents_of(b, s.cache)
        ctx.check("selects-dependents", w, given in origin(kwv(q, "call_hids", 1)), "the search in the cache starts from the given calls", l)
        refs, calls = kwv(q, "ref_hids", 0), kwv(q, "call_hids", 1)
        dbq = [dependents_of(d, s.per) for d in db]
        ok = any((refs.op == "sub" and refs.args[0] is d and is_const(refs.args[1], 0)) or any(o.op == "sub" and o.args[0] is d and is_const(o.args[1], 0) for o in origin(refs))
                 or any(dependents_of(o, s.per) is d for o in origin(calls)) for d in dbq)
        ctx.check("selects-dependents", w, ok, "and from what was found in the database", l)


def exists_in(g, half):
    # "is it there at all?"
    return contains(g, lambda t: is_call(t) and short(t.args[0]) == "exists" and cargs(t) and cargs(t)[0] is half) is not None


def legit_guard(g):
    # "were we given calls or their ids?"
    return contains(g, lambda t: t.op == "op" and t.args[0] == "isinstance") is not None or contains(g, lambda t: t.op == "param") is not None and g.op == "op" and g.args[0] == "truth" and g.args[1].op == "param"


# ------------------------------------------------------------------ drop_version
def drop_version(ctx):
    r = ctx.run("Storage", "drop_version", attrs_=attrs(versioned=False), opaque=op_names("drop_calls", "save_versioner"), tag="dv")
    where = "Storage.drop_version"
    sv = r.P["semantic_version"]
    exits = [n.id for n, _, _ in r.ends]
    dcs = calls_to(r, "drop_calls")
    p = r.path([r.it.entry.id], exits, avoid=[n.id for n in dcs])
    ctx.check("version-calls", where, bool(dcs) and p is None, "the version's calls are dropped", r.it.entry, show_path(p))
    for n in dcs:
        b = n.d["bound"]
        ctx.check("version-calls", where, is_const(b.get("delete_dependents", NONE), True), "together with what depends on them", n)
        h = r.snap(n, b.get("calls_or_hids", NONE))
        src = contains(h, lambda t: is_call(t) and short(t.args[0]) == "get_df")
        sel = contains(h, lambda t: t is sv)
        col = contains(h, lambda t: is_const(t, "semantic_version") or (t.op == "attr" and t.args[1] == "semantic_version") or (t.op == "const" and isinstance(t.args[0], str) and t.args[0].startswith("semantic_version ==")))
        ctx.check("version-calls", where, src is not None and sel is not None and col is not None, "they are all calls recorded under that semantic version", n)
    ds = calls_to(r, "drop_semantic_version")
    ok = bool(ds) and all(contains(mk("tuple", *n.d["sargs"]), lambda t: t is sv) is not None or sv in (n.d.get("bound") or {}).values() for n in ds)
    p = r.path([r.it.entry.id], exits, avoid=[n.id for n in ds])
    ctx.check("version-forgotten", where, ok and p is None, "the version is taken out of the code history", r.it.entry, show_path(p))
    saves = calls_to(r, "save_versioner")
    for n in ds:
        p = r.path(r.succ[n.id], exits, avoid=[m.id for m in saves])
        ctx.check("version-forgotten", where, p is None, "and the changed history is saved", n, show_path(p))
    for n in saves:
        v = n.d["bound"].get("versioner")
        ctx.check("version-forgotten", where, all(v is (m.d.get("bound") or {}).get("self") for m in ds), "the history saved is the one that was changed", n)
    conns = {b.d["conn"] for b in r.find("tx_begin")}
    for n in dcs + saves:
        ctx.check("version-atomic", where, n.d["bound"].get("conn") in conns, "in one transaction", n)


# ------------------------------------------------------------------ cleanup_refs
def minus(t):
    """(collection, [collections taken out of it])"""
    t = strip(t)
    if t.op == "op" and t.args[0] in ("sub", "difference"):
        b, ex = minus(t.args[1])
        return b, ex + [x for a in t.args[2:] for x in union(a)]
    if t.op == "call" and t.args[0] == ".difference" and cargs(t):
        b, ex = minus(cargs(t)[0])
        return b, ex + [x for a in cargs(t)[1:] for x in union(a)]
    return t, []


def union(t):
    t = strip(t)
    if t.op == "op" and t.args[0] == "bitor":
        return [x for a in t.args[1:] for x in union(a)]
    if t.op == "call" and t.args[0] == ".union":
        return [x for a in cargs(t) for x in union(a)]
    return [t]


def excluded(r, n, key):
    """[(collection of the candidates, [collections left out])] a dropped key ranges over"""
    out = []
    for l in r.nodes:
        if l.kind == "loop" and l.d["siter"] is not None and r.dominated(n.id, [l.id]) and any(m.kind == "iter" and m.d["head"] == l.id and n.id in r.reach([m.id], avoid=[l.id]) for m in r.nodes):
            sel = r.snap(l, l.d["siter"])
            for cv in coverage(sel):
                for b in cv.bases:
                    base, ex = minus(b)
                    ex = list(ex)
                    for g, p in cv.guards:
                        if g.op == "op" and g.args[0] == "in" and not p:
                            ex += union(g.args[2])
                    # candidates filtered before
                    while base.op == "items":
                        cvs = coverage(base)
                        nb = {x for c in cvs for x in c.bases}
                        if len(nb) != 1 or base is next(iter(nb)):
                            break
                        for c in cvs:
                            for g, p in c.guards:
                                if g.op == "op" and g.args[0] == "in" and not p:
                                    ex += union(g.args[2])
                        base, e2 = minus(next(iter(nb)))
                        ex += e2
                    out.append((base, ex, l))
    return out


def all_of_column(x, col):
    """x holds every value of that column of the recorded calls"""
    x = strip(x)
    cs = coverage(x) if x.op == "items" else None
    if cs is not None:
        return len(cs) >= 1 and any(not c.guards and len(c.bases) == 1 and all_of_column(c.bases[0], col) for c in cs)
    while x.op == "call" and x.args[0] in (".unique", ".tolist", ".to_list", ".drop_duplicates", ".to_numpy") or x.op == "attr" and x.args[1] == "values":
        x = cargs(x)[0] if x.op == "call" else x.args[0]
    if x.op == "sub" and is_const(x.args[1], col) and named(x.args[0], "get_df"):
        return True
    return x.op == "attr" and x.args[1] == col and named(x.args[0], "get_df")


def all_shape_cids(x, per):
    x = strip(x)
    if x.op != "items":
        return False
    for c in coverage(x):
        if not c.guards and len(c.bases) == 1 and named(c.bases[0], "values") and cargs(c.bases[0])[0] is per and c.val.op == "attr" and c.val.args[1] == "cid":
            return True
    return False


def cleanup(ctx):
    r = ctx.run("Storage", "cleanup_refs", attrs_=attrs(versioned=False), tag="clean")
    where = "Storage.cleanup_refs"
    st = storage_stores(ctx, r)
    shapes, atoms = st["shapes"], st["atoms"]
    noctx = [n.id for n in r.nodes if n.kind == "assume" and contains(n.d["cond"], lambda t: t.op == "attr" and t.args[1] == "current_context") is not None
             and (n.d["pol"] if n.d["cond"].op == "op" and n.d["cond"].args[0] == "isnone" else not n.d["pol"])]
    drops = {}
    for f, s in st.items():
        ds = [n for n in r.nodes if n.kind == "call" and n.d.get("recv") is s.per and short(n.d["name"] or "") == "drop"]
        if f not in ("shapes", "atoms"):
            for n in ds:
                ctx.bad("keeps-used", f"{where}: {f}", "only refs are cleaned up", n)
            continue
        drops[f] = ds
        ctx.minimum("keeps-used", f"{where}: {f}", len(ds), 1, "drops")
        for n in ds:
            ctx.check("not-in-context", f"{where}: {f}", r.dominated(n.id, noctx), "nothing is dropped while a context is active", n)
            ex = excluded(r, n, None)
            ctx.check("keeps-used", f"{where}: {f}", bool(ex), "drops range over a computed selection", n)
            for base, out, l in ex:
                if f == "shapes":
                    ctx.check("keeps-used", f"{where}: {f}", any(all_of_column(x, "ref_history_id") for x in out), "a ref that is part of a recorded call is kept", l)
                else:
                    ctx.check("keeps-used", f"{where}: {f}", any(all_of_column(x, "ref_content_id") for x in out), "a value that is part of a recorded call is kept", l)
                    ctx.check("keeps-used", f"{where}: {f}", any(all_shape_cids(x, shapes.per) for x in out), "a value that a remaining ref refers to is kept", l)
                b = strip(base)
                if b.op == "items":
                    cs = coverage(b)
                    whole = all(not c.guards and len(c.bases) == 1 and named(c.bases[0], "keys") and cargs(c.bases[0])[0] is s.per for c in cs)
                else:
                    whole = named(b, "keys") and cargs(b)[0] is s.per
                ctx.check("removes-unused", f"{where}: {f}", whole, "every stored entry is a candidate", l)
                allowed = 2 if f == "atoms" else 1
                ctx.check("removes-unused", f"{where}: {f}", len(out) <= allowed, "nothing but what is used is kept", l)
    reads = [n for n in r.nodes if n.kind == "call" and n.d.get("recv") is shapes.per and short(n.d["name"] or "") == "values"]
    for n in reads:
        p = r.path([n.id], [m.id for m in drops.get("shapes", [])])
        ctx.check("removes-unused", where, p is None, "refs are dropped before the values they were the last to use are looked for", n, show_path(p))
    each_drop(ctx, r, where, drops)


def each_drop(ctx, r, where, drops):
    for f, ds in drops.items():
        each(ctx, r, "removes-unused", f"{where}: {f}", lambda t: True, [n.id for n in ds], "every unused entry is dropped", what="the unused entries")
