"""Identities of values and collections: computed from the whole content, kept by every copy."""
from .common import *
from .C01 import inj_some

EXPLANATION = (
    "Value-flow analysis of every function that gives a ref its identities. The content hash is taken of the whole object on every path; wrapping "
    "hashes the object (the id for a ValuePointer) and derives the default history identity from it; the collection builders hash the identities of "
    "all elements, in order for lists, with their keys and canonically for dicts and sets; every copying method, taking a collection apart and "
    "loading keep both identities; a call found by its content gets the identities of the call asked for on every path, and so does every one of "
    "its inputs and outputs."
)
ASSUMPTIONS = ["joblib.hash is canonical and injective on the values hashed", "__get_mandala_dict__ of a user's class determines the object"]

ORDERLESS = {"set", "frozenset", "sorted"}
NOWIRE = dict(wiring=False)


def check(ctx):
    whole(ctx)
    wrap(ctx)
    builders(ctx)
    copies(ctx)
    loaded(ctx)
    taken_apart(ctx)
    relabelled(ctx)
    for v in (False, True):
        computed(ctx, v)


def whole(ctx):
    r = ctx.run(None, "mandala.utils.get_content_hash", opaque=op_names("tensor_to_numpy", base=lambda f: False))
    where = "get_content_hash"
    obj = r.P["obj"]

    def is_obj(t):
        return t is obj or is_call(t, ".__get_mandala_dict__") and cargs(t)[0] is obj or is_call(t) and short(t.args[0]) == "tensor_to_numpy" and all(is_obj(x) for x in alts(cargs(t)[0]))

    def full(t):
        return all(is_obj(x) for x in alts(t)) or t.op == "items" and frame(t) or t.op == "phi" and all(full(a) for a in t.args)

    def frame(t):
        """a data frame by all of its parts"""
        got = set()
        for i in t.args[1:]:
            if not i.args[2] and not i.args[3]:
                for u in subterms(i.args[1]):
                    if u.op == "attr" and all(is_obj(x) for x in alts(u.args[0])):
                        got.add(u.args[1])
        return {"columns", "values", "index"} <= got

    ctx.minimum("whole", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            x = hash_arg(a)
            ctx.check("whole", where, x is not None and full(x), "the content hash is a hash of the whole object", n)
    # a data frame is hashed by its parts: the raw frame never reaches joblib once it is known to be one
    fr = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "isinstance"
          and contains(n.d["cond"].args[2], lambda t: "DataFrame" in str(t.args[:1])) is not None]
    ctx.minimum("whole", where, len(fr), 1, "decisions whether the object is a data frame")


def wrap(ctx):
    r = ctx.run(None, "mandala.model.wrap_atom", **NOWIRE)
    where = "wrap_atom"
    obj, hist = r.P["obj"], r.P["history_id"]
    vals = 0
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            if a is obj:
                ctx.check("wrapped", where, any(p and isinst(f, obj, "Ref", "AtomRef") for f, p in s.facts), "only a ref is returned as it is", n)
                continue
            d = new_of(a, "AtomRef")
            if not ctx.check("wrapped", where, d is not None, "the result is an atom", n):
                continue
            o = d.get("obj", NONE)
            if o.op == "new" and o.args[0] == "ValuePointer":
                i = mk("attr", obj, "id")
                ctx.check("pointer", where, hash_arg(d["cid"]) is i, "a ValuePointer's content identity is the hash of its id", n)
                ctx.check("pointer", where, hash_chain(d["hid"], {i}), "a ValuePointer's history identity is determined by its id", n)
                od = dict(o.args[1:])
                ctx.check("pointer", where, od.get("id") is i and is_const(od.get("obj"), None), "what is kept of a ValuePointer is its id", n)
                continue
            ctx.check("pointer", where, any(not p and isinst(f, obj, "ValuePointer") for f, p in s.facts), "a ValuePointer is wrapped by its id", n)
            vals += 1
            ctx.check("wrapped", where, o is obj and is_const(d.get("in_memory"), True), "the atom holds the object", n)
            ctx.check("wrapped", where, hash_arg(d["cid"]) is obj, "an atom's content identity is the hash of the object", n)
            hs = alts(d["hid"])
            ctx.check("wrapped", where, all(h is hist or hash_arg(h) is not None and hash_chain(h, {obj}) for h in hs),
                      "an atom's history identity is the one given, or derived from the content identity", n)
            ctx.check("wrapped", where, hist in hs and len(hs) > 1, "a given history identity is used, a missing one derived", n)
    ctx.minimum("wrapped", where, vals, 1, "wrappings of plain values")
    # a given history identity is never replaced: the default is only computed when there is none
    none = [n.id for n in r.nodes if n.kind == "assume" and n.d["cond"] is mk("op", "isnone", hist) and n.d["pol"]]
    some = [n.id for n in r.nodes if n.kind == "assume" and n.d["cond"] is mk("op", "isnone", hist) and not n.d["pol"]]
    r2 = ctx.run(None, "mandala.model.wrap_atom", params={"history_id": mk("fstr", mk("param", "history_id"))}, tag="given", **NOWIRE)
    r3 = ctx.run(None, "mandala.model.wrap_atom", params={"history_id": NONE}, tag="none", **NOWIRE)
    for rr, given in ((r2, True), (r3, False)):
        for n, s, v in rr.ends:
            for a in alts(rr.it.snap(s, v)):
                d = new_of(a, "AtomRef")
                if d is None or d.get("obj", NONE).op == "new":
                    continue
                h = d["hid"]
                ok = h is mk("fstr", mk("param", "history_id")) if given else hash_chain(h, {rr.P["obj"]}) and hash_arg(h) is not None
                ctx.check("wrapped", where, ok, "a given history identity is used as it is" if given else "without one it is derived from the content identity", n)


def hash_chain(t, targets):
    """t is a (repeated) hash of exactly one of the targets"""
    n = 0
    while hash_arg(t) is not None:
        t = hash_arg(t)
        n += 1
    return n > 0 and t in targets


def isinst(f, obj, *names):
    return f.op == "op" and f.args[0] == "isinstance" and f.args[1] is obj and any(x.op == "class" and x.args[0] in names for x in subterms(f.args[2]))


def new_of(t, *classes):
    if t.op == "new" and (not classes or t.args[0] in classes):
        return dict(t.args[1:])
    return None


def builders(ctx):
    for name, cls, p in (("__make_list__", "ListRef", None), ("__make_dict__", "DictRef", None), ("__make_set__", "SetRef", None)):
        r = ctx.run(None, f"mandala.model.{name}", **NOWIRE)
        where = f"model.{name}"
        (base,) = [v for k, v in r.P.items()][:1]
        k = 0
        for n, s, v in r.ends:
            for a in alts(r.it.snap(s, v)):
                d = new_of(a, cls)
                if not ctx.check("collection", where, d is not None, f"the result is a {cls}", n):
                    continue
                k += 1
                elts = coverage(d["obj"])
                ctx.check("collection", where, bool(elts) and all(not e.guards and len(e.bases) == 1 for e in elts), "the collection holds all of its elements", n)
                for fld in ("cid", "hid"):
                    a0 = hash_arg(d[fld])
                    if not ctx.check("collection", where, a0 is not None, f"the {fld} is a hash", n):
                        continue
                    ctx.check("collection", where, determines(a0, elts, fld, cls == "DictRef"), f"the {fld} determines the {fld} of every element" +
                              (" with its key" if cls == "DictRef" else ""), n)
                    order = [u for u in subterms(a0) if is_call(u) and u.args[0] in ORDERLESS | {"reversed"}]
                    if cls == "ListRef":
                        ctx.check("collection", where, not order, f"the {fld} of a list depends on the order of its elements", n)
                    elif cls == "SetRef":
                        ctx.check("collection", where, any(u.args[0] in ORDERLESS for u in order), f"the {fld} of a set does not depend on an order", n)
                    else:
                        ctx.check("collection", where, any(u.args[0] in ORDERLESS for u in order) or a0.op == "items" and all(i.args[0] is not None for i in a0.args[1:])
                                  or is_call(a0, "dict"), f"the {fld} of a dict does not depend on the insertion order", n)
        ctx.minimum("collection", where, k, 1, "results")
        for b in r.nodes:
            if b.kind in ("break", "loopret"):
                ctx.bad("collection", where, "no element is left out", b)


def determines(a0, elts, fld, keyed):
    for c in inj_parts(strip(a0)):
        for cv in coverage(c):
            if cv.guards:
                continue
            k, v = cv.key, cv.val
            if v.op == "tuple" and len(v.args) == 2:
                k, v = v.args
            if v.op != "attr" or v.args[1] != fld:
                continue
            for e in elts:
                same = v.args[0] is e.val or v.args[0].op in ("val", "elem") and len(cv.bases) == 1 and v.args[0].args[0] in (cv.bases[0],)
                if same and set(cv.bases) == set(e.bases) and (not keyed or k is not None and (k is e.key or k.op in ("key", "elem"))):
                    return True
    return False


KEEP = {"with_hid": {"cid"}, "detached": {"cid", "hid"}, "attached": {"cid", "hid"}, "shallow_copy": {"cid", "hid"}, "shape": {"cid", "hid"}}


def copies(ctx):
    for cls in ("AtomRef", "ListRef", "DictRef"):
        for m in ("with_hid", "detached", "attached", "shallow_copy", "shape"):
            if m == "shape" and cls == "AtomRef":
                continue
            r = ctx.run(cls, m, selfcls=cls, tag=("copy", cls), **NOWIRE)
            where = f"{cls}.{m}"
            me = r.P["self"]
            ctx.minimum("copy", where, len(r.ends), 1, "results")
            for n, s, v in r.ends:
                for a in alts(r.it.snap(s, v)):
                    d = new_of(a)
                    if not ctx.check("copy", where, d is not None and a.args[0] == cls, "the result is a new ref of the same kind", n):
                        continue
                    ctx.check("copy", where, d.get("cid") is mk("attr", me, "cid"), "the content identity is kept", n)
                    want = r.P["hid"] if m == "with_hid" else mk("attr", me, "hid")
                    ctx.check("copy", where, d.get("hid") is want, "the history identity is " + ("the one given" if m == "with_hid" else "kept"), n)
                    mem = {"detached": FALSE, "attached": TRUE, "shape": TRUE}.get(m, mk("attr", me, "in_memory"))
                    ctx.check("copy", where, d.get("in_memory") is mem, "it says truthfully whether it holds a value", n)
                    o = d.get("obj")
                    if m == "detached":
                        ctx.check("copy", where, is_const(o, None), "a detached ref holds no value", n)
                    elif m == "attached":
                        ctx.check("copy", where, o is r.P["obj"], "an attached ref holds the value given", n)
                    elif m != "shape":
                        ctx.check("copy", where, o is mk("attr", me, "obj") or is_copy(r, n, o, mk("attr", me, "obj")), "the copy holds the same value", n)
            for x in r.nodes:
                if x.kind == "setattr" and x.d["base"] is me:
                    ctx.bad("copy", where, "the original is left as it is", x)
    r = ctx.run("Call", "detached", **NOWIRE, tag="callcopy")
    me = r.P["self"]
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            d = new_of(a, "Call")
            if not ctx.check("copy", "Call.detached", d is not None, "the result is a new call", n):
                continue
            for f in ("cid", "hid", "semantic_version", "content_version"):
                ctx.check("copy", "Call.detached", d.get(f) is mk("attr", me, f), f"the {f} is kept", n)
            o = new_of(d.get("op", NONE), "Op")
            ctx.check("copy", "Call.detached", o is not None and all(o.get(f) is mk("attr", mk("attr", me, "op"), f) for f in ("name", "version", "nout", "output_names")),
                      "the op's name, version and outputs are kept", n)
            for f in ("inputs", "outputs"):
                b = mk("attr", me, f)
                ok = False
                for c in coverage(d.get(f, NONE)):
                    x = new_of(c.val)
                    ok = c.bases == (b,) and not c.guards and c.key is mk("key", b) and x is not None and \
                        all(x.get(k) is mk("attr", mk("val", b), k) for k in ("cid", "hid"))
                ctx.check("copy", "Call.detached", ok, f"every one of the {f} is kept, under its name, with both identities", n)


def loaded(ctx):
    r = ctx.run("Storage", "_attach_atom", opaque=op_names(*STORE_OPS), tag="attach", **NOWIRE)
    where, ref = "Storage._attach_atom", mk("param", "ref")
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            if is_const(a, None) or a is ref:
                continue
            d = new_of(a, "AtomRef")
            ctx.check("loaded", where, d is not None and all(d.get(f) is mk("attr", ref, f) for f in ("cid", "hid")), "an atom keeps both identities when its value is loaded", n)
    for n in r.nodes:
        if n.kind == "setattr" and n.d["base"] is ref:
            ctx.check("loaded", where, n.d["attr"] not in ("cid", "hid"), "an atom keeps both identities when its value is loaded", n)
    r = ctx.run("Storage", "load_ref", opaque=op_names(*STORE_OPS), tag="load")
    where = "Storage.load_ref"
    gets = {n.d["result"]: n for n in store_calls(ctx, r, "shapes", "get")}
    ctx.minimum("loaded", where, len(gets), 1, "readings of the ref")
    for g in gets.values():
        ctx.check("loaded", where, barg(r, g, "key") is r.P["hid"], "the ref read is the one asked for", g)
    ctx.minimum("loaded", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            d = new_of(a)
            if not ctx.check("loaded", where, d is not None, "the result is a copy of the ref read", n):
                continue
            ok = d.get("cid") is not None and d["cid"].op == "attr" and d["cid"].args[1] == "cid" and d["cid"].args[0] in gets
            ctx.check("loaded", where, ok, "the content identity is the stored one", n)
            h = d.get("hid", NONE)
            ctx.check("loaded", where, h is r.P["hid"] or h.op == "attr" and h.args[1] == "hid" and h.args[0] in gets, "the history identity is the stored one", n)
            if a.args[0] in ("ListRef", "DictRef"):
                for c in coverage(d.get("obj", NONE)):
                    for v in alts(c.val):
                        ctx.check("loaded", where, loaded_as(v), "an element is loaded under the identities it is stored with", n)


def loaded_as(v):
    """v is the ref loaded under an element's own history id, or a copy of the element"""
    if is_call(v) and short(v.args[0]) == "load_ref":
        h = [x.args[1] if x.op == "kw" else x for x in cargs(v) if x.op != "kw" or x.args[0] == "hid"]
        return any(x.op == "attr" and x.args[1] == "hid" and x.args[0].op in ("elem", "val", "sub") for x in h)
    d = new_of(v)
    if d is not None:
        own = [d.get(f) for f in ("hid", "cid")]
        return all(x is not None and x.op == "attr" and x.args[1] == f for x, f in zip(own, ("hid", "cid"))) and own[0].args[0] is own[1].args[0]
    return v.op in ("elem", "val")


def taken_apart(ctx):
    for cls, tp in (("AtomRef", "AtomType"), ("ListRef", "ListType"), ("DictRef", "DictType")):
        r = typed(ctx, "Storage", "destruct", op_names("call_internal"), ("destr", cls), {"ref": cls, "tp": tp})
        where = f"Storage.destruct[{cls}]"
        ref = r.P["ref"]
        ctx.minimum("taken-apart", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(r.it.snap(s, v)):
                x = a.args[0] if a.op == "tuple" and a.args else a
                for y in alts(x):
                    if y is ref:
                        continue
                    d = new_of(y, cls)
                    ctx.check("taken-apart", where, d is not None and all(d.get(f) is mk("attr", ref, f) for f in ("cid", "hid")),
                              "the collection taken apart keeps both identities", n)


def relabelled(ctx):
    """a call found by content gets the identities of the call asked for"""
    for must in (False, True):
        r = ctx.run("Storage", "lookup_call", opaque=op_names("_get_call_from_data", "get_dep_key_from_func", *STORE_OPS), attrs_=attrs(),
                    params={"must_version": const(must)}, tag=f"v{int(must)}")
        where = f"lookup_call[versioned={must}]"
        P = r.P
        found = [n for n in r.nodes if n.kind == "call" and "CallStorage" in (n.d["name"] or "") and short(n.d["name"]) in ("get_data_content",)]
        made = calls_to(r, "_get_call_from_data")
        mine = [m for m in made if contains(mk("tuple", *[r.snap(m, x) for x in m.d["bound"].values()]), lambda t: any(t is f.d["result"] for f in found)) is not None]
        if not ctx.minimum("relabelled", where, len(mine), 1, "calls found by their content"):
            continue
        ends = [n.id for n, _, _ in r.ends]
        lk = calls_to(r, "mandala.deps.versioner.Versioner.lookup_call")
        sv = mk("sub", lk[0].d["result"], const(1)) if lk else None
        for m in mine:
            c = m.d["result"]
            sets = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is c and n.d["attr"] == "hid"]
            p = r.path([m.id], ends, avoid=[n.id for n in sets])
            ctx.check("relabelled", where, p is None, "a call found by content is given the history identity asked for", m, show_path(p))
            for n in sets:
                key_parts(ctx, "relabelled", where, n, r.snap(n, n.d["value"]), P["op"], "hid", lambda b: b is P["inputs"], None)
                if must and sv is not None:
                    ctx.check("relabelled", where, any(inj_some(x, lambda t: t is sv) for x in alts(r.snap(n, n.d["value"]))), "with the semantic version", n)
            key = {r.snap(n, n.d["value"]) for n in sets}
            for f in ("inputs", "outputs"):
                b = mk("attr", c, f)
                ok_vals = []
                sites = []
                for n in r.nodes:
                    if n.kind == "setattr" and n.d["attr"] == "hid" and (n.d["base"] in (mk("val", b), mk("elem", b)) or n.d["base"].op == "sub" and n.d["base"].args[0] is b):
                        sites.append(n)
                    if n.kind == "mut" and n.d["how"] == "setitem" and r.snap(n, n.d["target"]) is b:
                        sites.append(n)
                ids = {n.id for n in sites}
                each(ctx, r, "relabelled", where, lambda x: x is b, ids, f"every one of the {f} is given the identity that belongs to the call asked for",
                     starts=[m.id], what=f"the {f} of the call found")
                for n in sites:
                    val = r.snap(n, n.d["value"])
                    k = mk("key", b)
                    if n.d["base" if n.kind == "setattr" else "target"].op == "sub":
                        k = n.d["base"].args[1]
                    if n.kind == "mut":
                        d = new_of(val)
                        val = d.get("hid", NONE) if d else (arg_of(val, "with_hid"))
                        k = n.d["key"]
                    if f == "inputs":
                        ok = val.op == "attr" and val.args[1] == "hid" and (val.args[0] in (mk("val", P["inputs"]),) or val.args[0].op == "sub" and val.args[0].args[0] is P["inputs"] and val.args[0].args[1] in (k, mk("key", b)))
                    else:
                        ok = out_id(r, n, val, key, k, b)
                    ctx.check("relabelled", where, ok, f"the identity given is that of the {'argument of that name' if f == 'inputs' else 'output of that name'}", n)


def arg_of(t, name):
    if is_call(t) and short(t.args[0]) == name:
        for x in cargs(t)[1:]:
            return x.args[1] if x.op == "kw" else x
    return NONE


def out_id(r, n, val, keys, k, b):
    """val is the hash of (call id, name of the output)"""
    v = val
    if v.op == "sub":
        if v.args[1] not in (k, mk("key", b)):
            return False
        cs = coverage(r.snap(n, v.args[0]))
        return bool(cs) and all(not c.guards and hash_arg(c.val) is not None and any(inj(hash_arg(c.val), lambda t: t is x) for x in keys)
                                and c.key is not None and inj(hash_arg(c.val), lambda t: t is c.key) for c in cs)
    a = hash_arg(v)
    return a is not None and any(inj(a, lambda t: t is x) for x in keys) and inj(a, lambda t: t in (k, mk("key", b)))


def computed(ctx, versioned):
    """the outputs of a new call: a ref gets its own id of the call, a value is wrapped whole"""
    r = internal(ctx, versioned)
    where = f"call_internal[versioned={versioned}]"
    pr = calls_to(r, "mandala.utils.parse_returns")
    base = [mk("sub", x.d["result"], const(0)) for x in pr]
    ws = [n for n in calls_to(r, "mandala.model.wrap_atom")]
    ctx.minimum("computed", where, len(ws), 1, "wrappings of outputs")
    for n in ws:
        o = barg(r, n, "obj")
        ctx.check("computed", where, any(from_coll(o, b) for b in base), "the output wrapped is the value returned", n)
