"""Cache and database answer as one: what was written but not committed is found, what is only in the database is found too."""
from .stores import *

EXPLANATION = (
    "Analysis of the reading and dropping methods of both cached stores, and of every Storage method that reads through them (lookup, "
    "loading and saving of refs and calls) with the stores expanded. A value is read from the persistent half only behind a decision "
    "that the cache does not hold that same key; a decision that the cache does not hold a key is never the end of it, the persistent "
    "half is asked for the same key on every path to a normal exit; an existence answer 'yes' rests on one of the two halves, 'no' on "
    "both; the value returned is the one found under the key asked for. Dropping removes the key from the cache, the pending set and "
    "the persistent half. Bulk loading splits the requested calls by presence in the cache and asks each half for its part only."
)
ASSUMPTIONS = []

GET = {"get", "get_data", "get_data_content", "mget_data"}
EXISTS = {"exists", "exists_content", "__contains__"}
READERS = {DICT: ("get", "exists", "__getitem__", "__contains__"), CALLS: ("exists", "exists_content", "get_data", "get_data_content")}
STORAGE = ("save_ref", "load_ref", "save_call", "exists_call", "lookup_call", "_unwrap_atom", "_attach_atom", "_get_call_from_data")


def check(ctx):
    for cls, lay in layouts(ctx).items():
        for m in READERS[cls]:
            r = method_run(ctx, lay, m)
            s = Store(r, r.P["self"], lay)
            where = f"{cls}.{m}"
            n = siblings(ctx, r, s, where)
            ctx.minimum("asks-both", where, n, 2, "questions to the two halves")
            answers(ctx, r, s, where)
        r = method_run(ctx, lay, "drop")
        drop(ctx, r, Store(r, r.P["self"], lay), f"{cls}.drop", lay)
    for m in STORAGE:
        for v in ((False, True) if m == "lookup_call" else (False,)):
            opq = op_names("get_call_history_id", "get_call_content_id", "get_output_history_ids", "get_dep_key_from_func", "get_ordered_outputs",
                           *(() if m in ("_get_call_from_data", "load_ref") else ("_get_call_from_data",)), *(() if m in ("save_ref",) else ("Storage.save_ref",)),
                           *(() if m in ("load_ref", "_unwrap_atom") else ("Storage.load_ref",)))
            r = ctx.run("Storage", m, opaque=opq, attrs_=attrs(versioned=v), tag=("sib", m))
            tot = 0
            for f, s in sorted(storage_stores(ctx, r).items()):
                if f != "sources":
                    tot += siblings(ctx, r, s, f"Storage.{m}: {f}")
            ctx.minimum("asks-both", f"Storage.{m}", tot, 2 if m not in ("_get_call_from_data",) else 2, "questions to the two halves")
    bulk(ctx)


def keyof(n):
    """the key a call on a half is about"""
    return next((v for k, v in (n.d.get("bound") or {}).items() if k not in ("self", "conn")), n.d["args"][0] if n.d["args"] else None)


def about(c, s):
    """(half, key) when c is the question whether a half holds a key"""
    if c.op == "op" and c.args[0] == "truth":
        return about(c.args[1], s)
    if c.op == "op" and c.args[0] == "in":
        if c.args[2] is s.cache:
            return "cache", c.args[1]
        if c.args[2] is mk("attr", s.cache, "call_hids"):
            return "cache", c.args[1]
    if c.op == "call" and short(c.args[0]) in EXISTS and len(cargs(c)) >= 2:
        if cargs(c)[0] is s.cache:
            return "cache", cargs(c)[1]
        if cargs(c)[0] is s.per:
            return "db", cargs(c)[1]
    if c.op == "call" and short(c.args[0]) in EXISTS and cargs(c) and cargs(c)[0] in (s.cache, s.per):
        kws = [x.args[1] for x in cargs(c) if x.op == "kw" and x.args[0] != "conn"]
        if kws:
            return ("cache" if cargs(c)[0] is s.cache else "db"), kws[0]
    return None


def siblings(ctx, r, s, where):
    exits = [n.id for n, _, _ in r.ends]
    start = [r.it.entry.id]
    dec = [(n, *a) for n in r.nodes if n.kind == "assume" for a in [about(n.d["cond"], s)] if a]
    percalls = [n for n in r.nodes if n.kind == "call" and n.d.get("recv") is s.per and short(n.d["name"] or "") in GET | EXISTS]
    for n in percalls:
        k = keyof(n)
        miss = [d.id for d, h, kk in dec if h == "cache" and kk is k and not d.pol]
        if short(n.d["name"]) in GET:
            p = r.path(start, [n.id], avoid=miss)
            ctx.check("cache-first", where, p is None, "a value is read from the database only when the cache does not hold that key", n, show_path(p))
    for d, h, k in dec:
        if d.pol:
            continue
        if h == "cache":
            ask = [n.id for n in percalls if keyof(n) is k]
            p = r.path([d.id], exits, avoid=ask)
            q = r.path(start, [d.id], avoid=[x.id for x, hh, kk in dec if hh == "db" and kk is k])
            ctx.check("asks-both", where, p is None or q is None, "when the cache does not hold a key the database is asked for it", d, show_path(p))
        else:
            miss = [x.id for x, hh, kk in dec if hh == "cache" and kk is k]
            q = r.path(start, [d.id], avoid=miss)
            p = r.path([d.id], exits, avoid=miss)
            ctx.check("asks-both", where, p is None or q is None, "when the database does not hold a key the cache is asked for it", d, show_path(q))
    return len(dec) + len(percalls)


def answers(ctx, r, s, where):
    key = next(v for k, v in r.P.items() if k not in ("self", "conn"))
    for n, st, v in r.ends:
        for a in alts(v):
            if a.op == "const" and isinstance(a.args[0], bool):
                facts = [(about(c, s), p) for c, p in st.facts]
                facts = {(f[0], p) for f, p in facts if f and f[1] is key}
                if a.args[0]:
                    ctx.check("answer", where, ("cache", True) in facts or ("db", True) in facts, "'exists' rests on one of the halves", n)
                else:
                    ctx.check("answer", where, ("cache", False) in facts and ("db", False) in facts, "'does not exist' rests on both halves", n)
                continue
            ok = (a.op == "sub" and a.args[0] is s.cache and a.args[1] is key) or (
                a.op == "call" and cargs(a) and cargs(a)[0] in (s.cache, s.per) and contains(a, lambda t: t is key) is not None) or (about(a, s) or (0, 0))[1] is key
            ok = ok or (a.op == "call" and a.args[0] == "bool" and cargs(a) and (about(cargs(a)[0], s) or (0, 0))[1] is key)
            ok = ok or (a.op == "op" and a.args[0] in ("or",) and all((about(x, s) or (0, 0))[1] is key for x in a.args[1:]))
            ctx.check("answer", where, ok, f"the answer is what was found under the key asked for, not {show(a, 3)}", n)


def drop(ctx, r, s, where, lay):
    key = next(v for k, v in r.P.items() if k not in ("self", "conn"))
    exits = [n.id for n, _, _ in r.ends]
    start = [r.it.entry.id]

    def always(sites, msg):
        p = r.path(start, exits, avoid=sites)
        ctx.check("drop", where, p is None, msg, r.nodes[sites[0]] if sites else r.it.entry, show_path(p))
    not_in = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] for c in [n.d["cond"]] for a in [about(c, s)] if a and a == ("cache", key)]
    not_pending = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"] is mk("op", "in", key, s.pending)]
    always([n.id for n, k in evictions(r, s) if k is key] + not_in, "a dropped key leaves the cache")
    always([n.id for n in unmarks(r, s) if n.kind == "mut" and any(a is key for a in n.d["args"])] + not_pending, "a dropped key is no longer pending")
    if lay.cls == DICT:
        always([n.id for n in r.nodes if n.kind == "call" and n.d.get("recv") is s.per and short(n.d["name"] or "") == "drop" and keyof(n) is key],
               "a dropped key leaves the database")


def bulk(ctx):
    r = ctx.run("Storage", "mget_call", opaque=op_names("_get_call_from_data"), attrs_=attrs(versioned=False), tag="bulk")
    where = "Storage.mget_call"
    s = storage_stores(ctx, r)["calls"]
    hids = r.P["hids"]
    got = {"cache": [], "db": []}
    for n in r.nodes:
        if n.kind == "call" and n.d.get("recv") in (s.cache, s.per) and short(n.d["name"] or "") in GET:
            half = "cache" if n.d["recv"] is s.cache else "db"
            k = r.snap(n, keyof(n))
            for cv in coverage(k):
                if cv.bases and hids in cv.bases:
                    gs = {(about(g, s), p) for g, p in cv.guards if not (g.op == 'op' and g.args[0] == 'isnone')}
                    good = all(a is not None and a[0] == "cache" and p == (half == "cache") for a, p in gs) and bool(gs)
                    ctx.check("bulk", where, good, f"the calls asked of the {'cache' if half == 'cache' else 'database'} are those the cache {'holds' if half == 'cache' else 'does not hold'}", n)
                    got[half].append(n)
                elif k is mk("elem", hids):
                    got[half].append(n)
    for h, ns in got.items():
        ctx.check("bulk", where, bool(ns), f"the {'cache' if h == 'cache' else 'database'} is asked for its part", r.it.entry)
    gc = calls_to(r, "_get_call_from_data")
    for h, ns in got.items():
        half = s.cache if h == "cache" else s.per
        ok = any(contains(mk("tuple", *[r.snap(n, a) for a in n.d["sargs"]]), lambda t: is_call(t) and short(t.args[0]) in GET and cargs(t) and cargs(t)[0] is half) is not None for n in gc)
        ctx.check("bulk", where, ok, f"the calls found in the {'cache' if h == 'cache' else 'database'} are part of the result", gc[0] if gc else r.it.entry)
    order(ctx, r, where, s, hids)


def fetched(t, s):
    return is_call(t) and short(t.args[0]) in GET and cargs(t) and cargs(t)[0] in (s.cache, s.per)


def order(ctx, r, where, s, hids):
    """the results come in the order requested: one per requested id, the next of the half that has it"""
    for n, st, v in r.ends:
        for a in alts(v):
            for cv in coverage(r.it.snap(st, a)):
                for b in [x for b in cv.bases for x in (b.args[1:] if b.op == "op" and b.args[0] in ("add", "bitor") else (b,))]:
                    part = fetched(b, s) and any(c.guards for x in cargs(b)[1:] for c in coverage(x.args[1] if x.op == "kw" else x))
                    ctx.check("order", where, not part, "results are returned in the order requested, not one half after the other", n)
    for n in r.nodes:
        if n.kind != "mut" or n.d["how"] != "append":
            continue
        for v in alts(r.snap(n, n.d["args"][0])):
            if v.op != "sub" or not fetched(v.args[0], s):
                continue
            idx = v.args[1]
            heads = [l for l in r.nodes if l.kind == "loop" and any(idx is x for i, x, b in l.d.get("carried", {}).values())]
            if not heads:
                ctx.check("order", where, idx.op != "const", "every requested call gets its own record, not always the same one", n)
                continue
            l = heads[-1]
            its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
            ctx.check("order", where, l.d["siter"] is not None and hids in loop_bases(r, l), "the two parts are merged along the requested ids", l)
            # the position moves on exactly when an element was taken
            for i, x, bs in l.d["carried"].values():
                if x is not idx:
                    continue
                ctx.check("order", where, is_const(i, 0), "merging starts at the first element of each part", l)
                for b, at in zip(bs, l.d["back_at"]):
                    taken = r.path(its, at, avoid=[n.id]) is None
                    never = r.path([n.id], at, avoid=[l.id]) is None
                    one = mk("op", "add", idx, const(1))
                    ok = (taken and b is one) or (never and b is idx) or (not taken and not never)
                    ctx.check("order", where, ok, "the position in a part moves on exactly when an element of that part was taken", n)
