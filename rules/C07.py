"""Commit: everything pending reaches the database in one transaction, and only then counts as saved."""
from .common import *

EXPLANATION = (
    "Path analysis of Storage.commit with all four caches expanded down to the persistent stores. Every flow from the entry to a "
    "normal exit must run, for each cache, a loop over all of its pending keys that hands key and cached value to that cache's own "
    "persistent store; all of these writes, and the code history of a versioned storage, must lie between the begin and the end of a "
    "single transaction and run on its connection; a pending mark may only be removed after the transaction has ended, and a failure "
    "of any write reaches the caller without any mark having been removed."
)
ASSUMPTIONS = ["a transaction that ended normally is durable (C09)"]
STORES = ("atoms", "shapes", "ops", "calls")


def check(ctx):
    for versioned in (False, True):
        commit(ctx, versioned)
    failing(ctx)


def pending_attr(s):
    return "dirty_hids" if s == "calls" else "dirty_keys"


def stores(r):
    me = r.P["self"]
    out = {}
    for s in STORES + ("sources",):
        o = fieldof(r, me, s)
        out[s] = (o, fieldof(r, o, "persistent"), {fieldof(r, o, pending_attr(s)), mk("attr", o, pending_attr(s))}, {fieldof(r, o, "cache"), mk("attr", o, "cache")})
    return out


def is_write(n):
    return n.kind == "call" and (n.d["name"] or "").startswith("mandala.storage_utils.") and short(n.d["name"]) in ("set", "save") and "SQLite" in n.d["name"]


def commit(ctx, versioned):
    r = ctx.run("Storage", "commit", attrs_=attrs(versioned=versioned), tag="commit")
    where = f"Storage.commit [versioned={versioned}]"
    st = stores(r)
    exits = [n.id for n, _, _ in r.ends]
    begins, ends = r.find("tx_begin"), [n.id for n in r.find("tx_end")]
    if not ctx.minimum("one-transaction", where, len(begins), 1, "transactions"):
        return
    for b in begins:
        p = r.path(r.succ[b.id], [x.id for x in begins])
        ctx.check("one-transaction", where, p is None, "everything pending is written in a single transaction", b, show_path(p))
    writes = [n for n in r.nodes if is_write(n)]
    conns = {b.d["conn"] for b in begins}
    for n in writes:
        c = (n.d.get("bound") or {}).get("conn", NONE)
        ctx.check("one-transaction", where, r.dominated(n.id, [b.id for b in begins]) and c in conns, "the write belongs to the transaction", n)
        p = r.path(ends, [n.id], avoid=[b.id for b in begins])
        ctx.check("one-transaction", where, p is None, "the write happens before the transaction ends", n, show_path(p))
    heads = {}
    for s in STORES:
        o, per, dirty, cache = st[s]
        w = f"{where}: {s}"
        good = []
        for n in writes:
            if n.d.get("recv") is not per:
                continue
            b = n.d["bound"]
            if s == "calls":
                v = r.snap(n, b.get("call_data", NONE))
                ok = contains(v, lambda t: is_call(t) and short(t.args[0]) in ("get_data", "mget_data") and any(u is mk("elem", d) for d in dirty for u in subterms(t))
                              and any(contains(t, lambda u: u is c) is not None for c in cache)) is not None
                ctx.check("all-written", w, ok, "the record written is the cached record of the pending call", n)
            else:
                k, v = b.get("key", NONE), r.snap(n, b.get("value", NONE))
                ks = {mk("elem", d) for d in dirty}
                ok = k in ks and any(v is mk("sub", c, k) for c in cache)
                ctx.check("all-written", w, ok, "the value written is the cached value of the pending key", n)
            good.append(n.id)
        if ctx.check("all-written", w, bool(good), "pending entries are handed to the store's persistent half", begins[0]):
            heads[s] = each(ctx, r, "all-written", w, lambda t: t in dirty, good, "every pending entry is written", what="the pending keys")
    # the code history
    if versioned:
        o, per, _, cache = st["sources"]
        vs = [n for n in writes if n.d.get("recv") is per and is_const(n.d["bound"].get("key", NONE), "versioner")]
        for n in vs:
            v = r.snap(n, n.d["bound"].get("value", NONE))
            ctx.check("history-written", where, contains(v, lambda t: t in cache) is not None or v.op == "attr", "the code history written is the current one", n)
        p = r.path([r.it.entry.id], exits, avoid=[n.id for n in vs])
        ctx.check("history-written", where, bool(vs) and p is None, "the code history is part of every commit", begins[0], show_path(p))
    # marks
    for s in STORES:
        o, per, dirty, cache = st[s]
        rem = [n for n in r.nodes if removal(n, o, dirty, s)]
        for n in rem:
            ctx.check("clean-after-commit", f"{where}: {s}", r.dominated(n.id, ends), "pending marks go only after the transaction has ended", n)
        p = r.path([r.it.entry.id], exits, avoid=[n.id for n in rem])
        ctx.check("clean-after-commit", f"{where}: {s}", bool(rem) and p is None, "after a commit nothing is pending", begins[0], show_path(p))


def removal(n, o, dirty, s):
    if n.kind == "mut" and n.d["target"] in dirty and n.d["how"] in ("clear", "remove", "discard", "pop", "difference_update", "intersection_update"):
        return True
    return n.kind == "setattr" and n.d["base"] is o and n.d["attr"] == pending_attr(s)


def failing(ctx):
    def mr(n):
        return ["?"] if is_write(n) else None
    r = ctx.run("Storage", "commit", attrs_=attrs(versioned=True), may_raise=mr, tag="failing")
    where = "Storage.commit [a write fails]"
    st = stores(r)
    excs = [n.id for n in r.nodes if n.kind == "exc" and any(is_write(r.nodes[p]) for p in n.preds)]
    ctx.minimum("failure-keeps-marks", where, len(excs), 4, "failing writes")
    for s in STORES:
        o, per, dirty, cache = st[s]
        rem = [n.id for n in r.nodes if removal(n, o, dirty, s)]
        p = r.path(excs, rem)
        ctx.check("failure-keeps-marks", f"{where}: {s}", p is None, "after a failed write everything is still pending", None, show_path(p))
    p = r.path(excs, [n.id for n, _, _ in r.ends])
    ctx.check("failure-reported", where, p is None, "a failed write fails the commit", None, show_path(p))
