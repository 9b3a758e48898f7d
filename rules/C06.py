"""Everything a new call involves is recorded with it."""
from .common import *

EXPLANATION = (
    "Must-pass and value-flow analysis of the recording chain: Op.__call__ asks for saving, Storage.call saves the main call and every structural "
    "call it is given, the engine hands on every structural call made while wrapping inputs and taking outputs apart and records every output, "
    "construct and destruct collect the calls they make (one per element, recursively), save_call saves the op, every input and output ref and "
    "then the record on every path that does not decide that the call is already there, and save_ref saves a ref under its own ids, its value when "
    "it is in memory, and each element. Each rule is decided per concrete ref class."
)
ASSUMPTIONS = ["a ref whose shape is already stored had its elements stored with it (maintained by save_ref itself)"]


def check(ctx):
    asked(ctx)
    saved(ctx)
    for versioned in (False, True):
        engine(ctx, internal(ctx, versioned), f"call_internal[versioned={versioned}]")
    construct(ctx)
    destruct(ctx)
    save_call(ctx)
    save_ref(ctx)


def asked(ctx):
    r = ctx.run("Op", "__call__", opaque=op_names("Storage.call"), tag="opcall")
    ns = calls_to(r, "mandala.storage.Storage.call")
    ctx.minimum("asked", "Op.__call__", len(ns), 1, "calls through the storage")
    for n in ns:
        c = barg(r, n, "config")
        ok = any(cv.key is not None and is_const(cv.key, "save_calls") and is_const(cv.val, True) and not cv.guards for cv in coverage(c))
        ctx.check("asked", "Op.__call__", ok, "the call is to be saved", n)


def saved(ctx):
    def given(it, st):
        st.facts = st.facts | {(mk("op", "isnone", mk("param", "config")), False)}
    r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode="run"), tag=("call", "config"), setup=given)
    where = "Storage.call"
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    sv = calls_to(r, "mandala.storage.Storage.save_call")
    ctx.minimum("call-saved", where, len(sv), 1, "call savings")
    cfg = r.P["config"]
    # (without a configuration nothing was asked for)
    off = [n.id for n in r.nodes if n.kind == "assume" and (not n.d["pol"] and is_save_flag(n.d["cond"], cfg))]
    ctx.minimum("call-saved", where, len([i for i in off if is_save_flag(r.nodes[i].d["cond"], cfg)]), 1, "decisions whether to save")
    for c in ci:
        main, subs = mk("sub", c.d["result"], const(1)), mk("sub", c.d["result"], const(2))
        msites = [n for n in sv if main in alts(barg(r, n, "call"))]
        all_paths_through(ctx, r, "call-saved", where, msites, "the call is saved", legit=off + nonempty_loops(r, msites, main))
        ssites = [n for n in sv if {mk("elem", subs), mk("val", subs)} & set(alts(barg(r, n, "call")))]
        each(ctx, r, "subcalls-saved", where, lambda b: b is subs, {n.id for n in ssites}, "every structural call is saved",
             legit=off, what="the structural calls")


def is_save_flag(c, cfg):
    """the decision whether the caller wants the call saved"""
    k = contains(c, lambda t: is_const(t, "save_calls"))
    return k is not None


def engine(ctx, r, where):
    P = r.P
    news = {n.d["obj"]: n for n in r.find("new") if n.d["cls"] == "Call"}
    cons = [n for n in calls_to(r, "mandala.storage.Storage.construct") if all(from_coll(a, P["storage_inputs"]) for a in alts(barg(r, n, "val")))]
    des = calls_to(r, "mandala.storage.Storage.destruct")
    ctx.minimum("subcalls", where, len(cons), 1, "constructions of inputs")
    ctx.minimum("subcalls", where, len(des), 1, "destructions of outputs")
    for n in cons + des:
        sub = mk("sub", n.d["result"], const(1))
        what = "wrapping an input" if n in cons else "taking an output apart"
        heads = [l for l in r.nodes if l.kind == "loop" and l.id < n.id and r.path([n.id], [l.id]) is not None]
        ends = [(e, s, v) for e, s, v in r.ends if r.path([n.id], [e.id]) is not None]
        for e, s, v in ends:
            for a in alts(v):
                if a.op == "tuple" and len(a.args) == 3 and (n in cons or a.args[1] in news):
                    ok = any(has_elems(r, s, t, sub, bool(heads)) for t in alts(a.args[2]))
                    ctx.check("subcalls", where, ok, f"the structural calls made while {what} are handed on", n)
        sites = [m.id for m in r.nodes if m.kind == "mut" and any(contains(r.snap(m, x), lambda t: t is sub) is not None for x in list(m.d["args"]) + [x for x in [m.d["value"]] if x is not None])]
        empty = [m.id for m in r.nodes if m.kind == "assume" and contains(m.d["cond"], lambda t: t is sub) is not None]
        if sites and heads:
            l = heads[-1]
            p = r.path([n.id], [l.id], avoid=sites + empty)
            ctx.check("subcalls", where, p is None, f"the structural calls made while {what} are always collected", n, show_path(p))
    # every output is recorded
    pr = calls_to(r, "mandala.utils.parse_returns")
    ctx.minimum("outputs", where, len(pr), 1, "splits of the returned values")
    for n in news.values():
        from .C01 import fields
        f = fields(ctx, r, n)
        out = f["outputs"]
        cov = [c for c in coverage(r.snap(n, out))]
        base = [mk("sub", x.d["result"], const(0)) for x in pr]
        ok = bool(cov) and all(len(c.bases) == 1 and c.bases[0] in base and c.key is mk("key", c.bases[0]) for c in cov)
        ctx.check("outputs", where, ok, "the recorded outputs are those returned, under their names", n)
        if not any(not c.guards for c in cov):
            sites = {m.id for m in r.nodes if m.kind == "mut" and m.d["target"] is out and m.d["how"] in ("setitem", "setdefault", "update")}
            each(ctx, r, "outputs", where, lambda b: b in base, sites, "every output is recorded", always=False, what="the outputs")
        ctx.check("outputs", where, not any(b for x in base for b in broken_loops(r, x)), "no output is left out", n)
        for x in pr:
            rv = barg(r, x, "returns")
            ctx.check("outputs", where, rv.op == "call" or rv.op == "phi" and all(a.op == "call" for a in rv.args), "the outputs are what the function returned", x)


def has_elems(r, st, t, sub, looped=False):
    """t holds every element of sub (of every round of the loop that makes it)"""
    return any(sub in c.bases and (not looped or len(c.bases) > 1) and c.val in (mk("elem", sub), mk("val", sub)) for c in coverage(r.it.snap(st, t)))


CI = op_names("call_internal", "wrap_atom", "get_struct_builder", "get_struct_inputs", "get_struct_tps")


def construct(ctx):
    r = ctx.run("Storage", "construct", opaque=CI, tag="cons")
    where = "Storage.construct"
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    ctx.minimum("constructed", where, len(ci), 1, "structural calls")
    for c in ci:
        main, subs, outs = (mk("sub", c.d["result"], const(i)) for i in (1, 2, 0))
        for e, s, v in r.ends:
            for a in alts(v):
                if a.op != "tuple" or len(a.args) != 2 or contains(r.it.snap(s, a.args[0]), lambda t: t is c.d["result"]) is None:
                    continue
                lst = r.it.snap(s, a.args[1])
                app = [m.id for m in r.nodes if m.kind == "mut" and m.d["how"] in ("append", "add", "insert", "extend") and r.snap(m, m.d["target"]) is subs
                       and any(main in alts(r.snap(m, x)) or any(main is cv.val for cv in coverage(r.snap(m, x))) for x in m.d["args"])]
                all_sub = lst is subs or has_elems(r, s, a.args[1], subs)
                has_main = any(cv.val is main for cv in coverage(lst))
                if not has_main and app:
                    has_main = r.path([c.id], [e.id], avoid=app) is None
                ctx.check("constructed", where, all_sub, "the structural calls of the elements are handed on", c)
                ctx.check("constructed", where, has_main, "the structural call that builds the collection is handed on", c)
    for e, s, v in r.ends:
        for a in alts(v):
            ctx.check("constructed", where, a.op == "tuple" and len(a.args) == 2, "the result is (ref, structural calls)", e)


def destruct(ctx):
    for cls, tp in (("ListRef", "ListType"), ("DictRef", "DictType")):
        r = typed(ctx, "Storage", "destruct", op_names("call_internal"), ("destr", cls), {"ref": cls, "tp": tp})
        where = f"Storage.destruct[{cls}]"
        P = r.P
        bs = {P["ref"], mk("attr", P["ref"], "obj")}
        ci = calls_to(r, "mandala.storage.Storage.call_internal")
        rec = calls_to(r, "mandala.storage.Storage.destruct")
        each(ctx, r, "destructed", where, lambda b: b in bs, {n.id for n in ci}, "every element is taken out by a structural call", what="the elements")
        each(ctx, r, "destructed", where, lambda b: b in bs, {n.id for n in rec}, "every element is taken apart in turn", what="the elements")
        for n in ci + rec:
            want = mk("sub", n.d["result"], const(1))
            for e, s, v in r.ends:
                for a in alts(v):
                    if a.op != "tuple" or len(a.args) != 2:
                        ctx.bad("destructed", where, "the result is (ref, structural calls)", e)
                        continue
                    cs = coverage(r.it.snap(s, a.args[1]))
                    ok = any(c.val is want and set(c.bases) & bs for c in cs) if n in ci else \
                        any(want in c.bases and set(c.bases) & bs and c.val in (mk("elem", want), mk("val", want)) for c in cs)
                    ctx.check("destructed", where, ok, "the structural calls made are handed on", n)
        for n in rec:
            src = contains(barg(r, n, "ref"), lambda t: any(t is c.d["result"] for c in ci)) is not None
            ctx.check("destructed", where, src, "the element taken apart is the one the structural call produced", n)
        for n in ci:
            si = r.snap(n, n.d["bound"].get("storage_inputs", NONE))
            vals = [c.val for c in coverage(si)]
            ctx.check("destructed", where, P["ref"] in vals and any(position_or_key(v, bs, cls == "DictRef") for v in vals), "the structural call records the collection and the position", n)


def position_or_key(v, bs, keyed=False):
    if keyed and v.op == "elem" and v.args[0] in bs and v.args[0].op == "attr":
        return True      # an iteration over a dict yields its keys
    return v.op == "index" or v.op == "key" and v.args[0] in bs or v.op == "elem" and v.args[0].op == "call" and v.args[0].args[0] in ("range", "itertools.count", ".keys")


def save_call(ctx):
    opq = op_names("Storage.save_ref", *STORE_OPS)
    r = ctx.run("Storage", "save_call", opaque=opq, tag="save_call")
    where = "Storage.save_call"
    call = r.P["call"]
    there = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and asks(r, n, "calls", mk("attr", call, "hid"))]
    rec = [n for n in store_calls(ctx, r, "calls", "save") if barg(r, n, "call", "call_data") is call or contains(barg(r, n, "call", "call_data"), lambda t: t is call) is not None]
    all_paths_through(ctx, r, "record", where, rec, "the call is recorded", legit=there)
    opname = mk("attr", mk("attr", call, "op"), "name")
    knows = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and asks(r, n, "ops", opname)]
    ops = [n for n in store_calls(ctx, r, "ops", "set", "__setitem__") if opname in alts(barg(r, n, "key"))]
    all_paths_through(ctx, r, "op-saved", where, ops, "the op is saved", legit=there + knows)
    for n in ops:
        v = barg(r, n, "value")
        good = v.op == "new" and all(dict(v.args[1:]).get(f) is mk("attr", mk("attr", call, "op"), f) for f in ("name", "nout", "version", "output_names"))
        ctx.check("op-saved", where, good or v is mk("attr", call, "op"), "the op saved has the op's name, version, number and names of outputs", n)
    refs = calls_to(r, "mandala.storage.Storage.save_ref")
    for f in ("inputs", "outputs"):
        base = mk("attr", call, f)
        sites = {n.id for n in refs if {mk("val", base), mk("elem", base)} & set(alts(barg(r, n, "ref")))
                 or any(x.op == "sub" and x.args[0] is base for x in alts(barg(r, n, "ref")))}
        each(ctx, r, "refs-saved", where, lambda b: b is base, sites, f"every ref among the {f} is saved", legit=there, what=f"the {f}")
    for n in rec:
        p = r.path([n.id], [m.id for m in refs])
        ctx.count("records_before_refs", int(p is not None))


def asks(r, n, field, key):
    """assume node n decides that the storage's store `field` holds `key`"""
    o = fieldof(r, r.P["self"], field)
    for t in subterms(n.d["cond"]):
        if is_call(t) and short(t.args[0]) in ("exists", "__contains__", "exists_content") and cargs(t) and cargs(t)[0] is o:
            rest = [x.args[1] if x.op == "kw" else x for x in cargs(t)[1:]]
            if key in rest:
                return True
        if t.op == "op" and t.args[0] == "in" and t.args[1] is key and contains(t.args[2], lambda u: u is o) is not None:
            return True
    return False


def save_ref(ctx):
    for cls in ("AtomRef", "ListRef", "DictRef"):
        r = typed(ctx, "Storage", "save_ref", op_names(*STORE_OPS), ("save_ref", cls), {"ref": cls})
        where = f"Storage.save_ref[{cls}]"
        ref = r.P["ref"]
        hid, cid, obj, mem = (mk("attr", ref, f) for f in ("hid", "cid", "obj", "in_memory"))
        there = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and asks(r, n, "shapes", hid)]
        sh = [n for n in store_calls(ctx, r, "shapes", "set") if barg(r, n, "key") is hid]
        all_paths_through(ctx, r, "shape-saved", where, sh, "the ref is saved under its history id", legit=there)
        for n in store_calls(ctx, r, "shapes", "set"):
            v = barg(r, n, "value")
            d = dict(v.args[1:]) if v.op == "new" else {}
            ctx.check("shape-saved", where, barg(r, n, "key") is hid and (d.get("hid") is hid and d.get("cid") is cid), "what is saved under a history id has that id and the ref's content id", n)
        if cls == "AtomRef":
            absent = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"] is mk("op", "truth", mem)]
            at = [n for n in store_calls(ctx, r, "atoms", "set")]
            all_paths_through(ctx, r, "value-saved", where, at, "the value of an in-memory ref is saved", legit=there + absent)
            for n in at:
                v = barg(r, n, "value")
                ctx.check("value-saved", where, barg(r, n, "key") is cid and is_call(v) and short(v.args[0]) == "serialize" and cargs(v)[0] is obj,
                          "the ref's value is saved, under the content id", n)
                p = r.path([r.it.entry.id], [n.id], avoid=[m.id for m in r.nodes if m.kind == "assume" and m.d["pol"] and m.d["cond"] is mk("op", "truth", mem)])
                ctx.check("value-saved", where, p is None, "a ref that is not in memory has no value to save", n, show_path(p))
        else:
            bs = {ref, obj}
            sub = {n.id for n in calls_to(r, "mandala.storage.Storage.save_ref")
                   if set(alts(barg(r, n, "ref"))) & {mk(o, b) for o in ("elem", "val") for b in bs} or any(x.op == "sub" and x.args[0] in bs for x in alts(barg(r, n, "ref")))}
            each(ctx, r, "elements-saved", where, lambda b: b in bs, sub, "every element is saved", legit=there, what="the elements")
