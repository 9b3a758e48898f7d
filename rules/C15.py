"""Structures: a list or dict keeps every element, in order or under its key, at every stage and depth."""
import ast
from .common import *

EXPLANATION = (
    "Coverage and value-flow analysis of every stage a list or dict passes: reading the annotation, naming the elements as inputs of the structural call, giving them "
    "their types, building the collection, taking it apart again, saving and loading it, and copying its shape. At each stage the elements must range over the whole "
    "collection, in its order or under its keys, each with the element's own declared type; the names given to elements and the names they are "
    "read back by are compared as templates, so that building inverts naming."
)
ASSUMPTIONS = ["dict keys are strings (asserted by the code)"]
KINDS = {"ListType": ("ListRef", "list", "elt"), "DictType": ("DictRef", "dict", "val")}
NEUTRAL = mk("param", "#position")


def check(ctx):
    types(ctx)
    naming(ctx)
    constructed(ctx)
    taken_apart(ctx)
    loaded(ctx)
    copied(ctx)
    access(ctx)
    inputs_typed(ctx)


# ----------------------------------------------------------------- annotations
def types(ctx):
    MARK = {"MList": ("ListType", {"elt": 0}), "MDict": ("DictType", {"key": 0, "val": 1})}
    an = mk("param", "annotation")
    org, args = mk("attr", an, "__origin__"), mk("attr", an, "__args__")
    for mark, (cls, fields_) in MARK.items():
        def setup(it, st):
            f = {(mk("op", "isnone", an), False), (mk("op", "truth", mk("op", "hasattr", an, const("__origin__"))), True), (mk("op", "hasattr", an, const("__origin__")), True)}
            for e in (mk("ext", "inspect._empty"), mk("ext", "typing.Any")):
                for o in ("is", "eq"):
                    f |= {(mk("op", o, an, e), False), (mk("op", o, e, an), False)}
            for c in ctx.prog.classes:
                if c.startswith("M") and c in ("MList", "MDict", "MSet", "MTuple"):
                    for o in ("is", "eq"):
                        f |= {(mk("op", o, org, mk("class", c)), c == mark), (mk("op", o, mk("class", c), org), c == mark)}
            st.facts = st.facts | f
        r = ctx.run("Type", "from_annotation", opaque=op_names(), wiring=False, setup=setup, tag=("c15", mark))
        where = f"Type.from_annotation[{mark}]"
        ctx.minimum("types", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(v):
                ok = a.op == "obj" and a.args[0] == "inst:" + cls
                ctx.check("types", where, ok, f"an annotation {mark} is a {cls} (here {show(a, 3)})", n)
                for f, i in fields_.items() if ok else ():
                    t = s.heap.get((a, f))
                    t = r.it.snap(s, t) if t is not None else NONE
                    arg = [x.args[1] if x.op == "kw" else x for x in cargs(t)][-1:] if is_call(t) else []
                    good = is_call(t) and short(t.args[0]) == "from_annotation" and arg and arg[0] is mk("sub", args, const(i))
                    ctx.check("types", where, good, f"the type of {'elements' if f == 'elt' else f + 's'} is that of argument {i} of the annotation (here {show(t, 4)})", n)


# ----------------------------------------------------------------- names of elements
def neutral(t):
    """t with every position of an iteration replaced by one symbol"""
    return subst(t, {u: NEUTRAL for u in subterms(t) if u.op == "index"})


def indices(t):
    return [u for u in subterms(t) if u.op == "index"]


def over(t, coll, r=None):
    """t ranges over the whole of coll (by its elements, its keys or its positions)"""
    if t is coll:
        return True
    if is_call(t, "range") and len(cargs(t)) == 1:
        return is_call(cargs(t)[0], "len") and over(cargs(t)[0].args[1], coll)
    if is_call(t, "enumerate", "list", "tuple", "iter", ".items", ".keys", ".values"):
        return over(cargs(t)[0], coll)
    if t.op == "items" and t.args[0] in ("list", "dict"):
        cs = coverage(t)
        return in_order(t, coll) and not cs[0].guards and (t.args[0] == "list" or cs[0].key.op in ("key", "index", "fstr"))
    return False


def in_order(t, *colls):
    """the entries of t come about one by one along (one of) colls, from beginning to end"""
    return t.op == "items" and len(t.args) == 2 and len(t.args[1].args[2]) == 1 and any(over(t.args[1].args[2][0], c) for c in colls)


def stage(ctx, rule, where, r, n, s, t, coll, val_ok, what, key=None, guards=()):
    """t (a list or dict) has exactly one entry for every element of coll; returns the (key, val) templates"""
    t = strip(r.it.snap(s, t), {"dict", "list"})
    covs = coverage(t)
    colls = coll if isinstance(coll, tuple) else (coll,)
    ok = in_order(t, *colls) and len(covs) == 1 and not [g for g in covs[0].guards if g not in guards]
    ctx.check(rule, where, ok, f"{what}: every element, once, in its order (here {show(t, 5)})", n)
    for c in covs:
        ctx.check(rule, where, val_ok(c), f"{what}: the element itself (here {show(c.val, 5)})", n)
        if key is not None:
            ctx.check(rule, where, c.key is not None and key(c), f"{what}: under its own name (here {show(c.key, 5) if c.key is not None else None})", n)
    return covs


def keys(colls):
    """the key of an element of a DictRef"""
    return [mk("key", x) for x in colls] + [mk("elem", x) for x in colls if x.op == "attr" and x.args[1] == "obj"]


def element(c, coll):
    """the value of coverage c is the element of its position or key"""
    if c.val in (mk("elem", coll), mk("val", coll)):
        return True
    if c.val.op == "sub" and c.val.args[0] is coll:
        i = c.val.args[1]
        return i.op == "index" and over(i.args[0], coll) or i in (mk("key", coll), mk("elem", coll))
    return False


def naming(ctx):
    names = {}
    for tp, (ref, _, el) in KINDS.items():
        r = typed(ctx, "Storage", "get_struct_inputs", op_names(), ("c15", tp), {"tp": tp})
        where = f"Storage.get_struct_inputs[{tp}]"
        val = r.P["val"]
        ctx.minimum("named", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            inj_key = (lambda c: bool(indices(c.key)) and inj(c.key, lambda t: t.op == "index" and over(t.args[0], val))) if tp == "ListType" else (lambda c: True)
            for c in stage(ctx, "named", where, r, n, s, v, val, lambda c: element(c, val), "elements become inputs", inj_key):
                names.setdefault(tp, set()).add(neutral(c.key))
        if tp == "DictType":
            dict_names(ctx, r, where, val)
        # types of the elements
        r = typed(ctx, "Storage", "get_struct_tps", op_names(), ("c15", tp), {"tp": tp})
        where = f"Storage.get_struct_tps[{tp}]"
        si = r.P["struct_inputs"]
        for n, s, v in r.ends:
            want = mk("attr", r.P["tp"], el)

            def key(c):
                if c.key in (mk("key", si), mk("elem", si)):
                    return True
                return tp == "ListType" and {neutral(c.key)} == names.get(tp) and all(over(i.args[0], si) for i in indices(c.key))
            stage(ctx, "typed", where, r, n, s, v, si, lambda c: c.val is want, "every element has the declared element type", key)
        # the builder
        r = typed(ctx, "Storage", "get_struct_builder", op_names(), ("c15", tp), {"tp": tp})
        where = f"Storage.get_struct_builder[{tp}]"
        for n, s, v in r.ends:
            f = op_function(ctx, v)
            ctx.check("built", where, f is not None, f"the builder is an op over a function of the model (here {show(v, 3)})", n)
            if f is None:
                continue
            fn, kws = f
            builder(ctx, tp, ref, fn, names.get(tp, set()))


def op_function(ctx, v):
    """(qualified function, keyword expressions) of a module-level op"""
    if v.op != "obj" or v.args[0] != "inst:Op" or not isinstance(v.args[1], tuple) or v.args[1][0][0] != "<module>":
        return None
    _, mod, name = v.args[1][0]
    m = ctx.prog.modules[mod]
    for x in m.tree.body:
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets) and isinstance(x.value, ast.Call):
            kws = {k.arg: k.value for k in x.value.keywords}
            f = kws.get("f", x.value.args[1] if len(x.value.args) > 1 else None)
            if isinstance(f, ast.Name) and f"{mod}.{f.id}" in ctx.prog.functions:
                return f"{mod}.{f.id}", kws
    return None


def builder(ctx, tp, ref, fn, names):
    r = ctx.run(None, fn, wiring=False, tag="c15", opaque=op_names("get_content_hash"))
    where = fn.split(".")[-1]
    ctx.minimum("built", where, len(r.ends), 1, "results")
    fnode = ctx.prog.functions[fn].node
    kw = fnode.args.kwarg.arg if fnode.args.kwarg else None
    if not ctx.check("built", where, kw is not None, "the elements are taken by name", r.it.entry):
        return
    items = r.P.get(kw, mk("param", kw))
    for n, s, v in r.ends:
        for a in alts(v):
            if not ctx.check("built", where, a.op == "obj" and a.args[0] == "inst:" + ref, f"what is built is a {ref}", n):
                continue
            obj = s.heap.get((a, "obj"), NONE)
            if tp == "ListType":
                def val_ok(c):
                    t = c.val
                    return t.op == "sub" and t.args[0] is items and {neutral(t.args[1])} == names and bool(indices(t.args[1])) and all(over(i.args[0], items) or True for i in indices(t.args[1]))
                t = strip(r.it.snap(s, obj), {"list"})
                ctx.check("built", where, ordered_by_position(t, items), "elements are in the order of their positions", n)
                stage(ctx, "built", where, r, n, s, obj, items, val_ok, "the list is built of its elements")
            else:
                stage(ctx, "built", where, r, n, s, obj, items, lambda c: element(c, items), "the dict is built of its values", lambda c: True)
                dict_names_back(ctx, r, where, n, s, obj, items)
            for f in ("cid", "hid"):
                h = s.heap.get((a, f), NONE)
                t = r.it.snap(s, h)
                arg = hash_arg(t)
                ok = arg is not None
                if ok:
                    arg = strip(arg, {"sorted", "list", "tuple"}) if tp == "DictType" else strip(arg, {"list", "tuple"})
                    cs = coverage(arg)
                    ok = (tp == "DictType" or ordered_by_position(arg, items)) and len(cs) == 1 and not cs[0].guards and all(over_any(b, items) for b in cs[0].bases) and contains(cs[0].val, lambda u: u.op == "attr" and u.args[1] == f) is not None
                    if ok and tp == "DictType":
                        ok = inj_parts_have(cs[0].val, f)
                ctx.check("built", where, ok, f"its {f} is made of the {f}s of all elements{' with their keys' if tp == 'DictType' else ', in order'}", n)


def over_any(b, items):
    return over(b, items) or contains(b, lambda u: u is items) is not None and b.op == "items" and len(b.args) == 2 and not b.args[1].args[3]


def inj_parts_have(v, f):
    """a pair of a key and the element's identity"""
    return v.op == "tuple" and len(v.args) == 2 and any(x.op == "attr" and x.args[1] == f for x in v.args) and \
        any(contains(x, lambda u: u.op == "key") is not None and x.op != "attr" for x in v.args)


def ordered_by_position(t, items):
    """a list whose entries come in the order of range(len(items))"""
    return in_order(t, items) and is_call(source(t), "range")


def source(t):
    """what the loop that makes up t runs over in the end"""
    while t.op == "items" and len(t.args) == 2 and len(t.args[1].args[2]) == 1:
        t = t.args[1].args[2][0]
    return t


# a key and the name it is recorded under
def escape_of(t, key):
    """(prefix) when t is the key with a constant in front of it"""
    if t.op == "fstr" and len(t.args) == 2 and is_const(t.args[0]) and t.args[1] is key:
        return t.args[0].args[0]
    if t.op == "op" and t.args[0] == "add" and is_const(t.args[1]) and t.args[2] is key:
        return t.args[1].args[0]
    return None


def ordered(c):
    return mk("op", c.args[0], *sorted(c.args[1:], key=str)) if c.op == "op" and c.args[0] == "eq" else c


def lstrip_test(c, key, pre):
    """c depends on the key only through key.lstrip(pre)"""
    keyed = [u for u in subterms(c) if u is key]
    inner = mk("call", ".lstrip", key, const(pre))
    return bool(keyed) and contains(subst(c, {inner: NONE}), lambda u: u is key) is None


def dict_names(ctx, r, where, val):
    k = mk("key", val)
    for n, s, v in r.ends:
        for c in coverage(strip(r.it.snap(s, v), {"dict"})):
            keys = picked(r, c.key)
            for a, dec in keys:
                dec = implied(r, set(dec) | set(s.facts))
                if a is k:
                    ctx.ok("key-named", where, "a key names its own value", n)
                    continue
                pre = escape_of(a, k)
                ok = pre is not None and len(keys) == 1 or pre is not None and pre != "" and any(p and lstrip_test(g, k, pre) for g, p in dec if contains(g, lambda u: u is k) is not None)
                ctx.check("key-named", where, ok, f"a key that cannot name its value is escaped so that no other key gets that name (here {show(a, 4)})", n)


def dict_names_back(ctx, r, where, n, s, obj, items):
    k = mk("key", items)
    # what names the storage makes
    q = typed(ctx, "Storage", "get_struct_inputs", op_names(), ("c15", "DictType"), {"tp": "DictType"})
    key0 = mk("key", q.P["val"])
    esc = set()
    for n0, s0, v0 in q.ends:
        for c in coverage(strip(q.it.snap(s0, v0), {"dict"})):
            for a, dec in picked(q, c.key):
                if a is not key0:
                    pre = escape_of(a, key0)
                    tests = {g for g, p in implied(q, set(dec)) if p and pre and lstrip_test(g, key0, pre)}
                    esc.add((pre, frozenset(ordered(subst(g, {key0: NEUTRAL})) for g in tests)))
    back = set()
    for c in coverage(strip(r.it.snap(s, obj), {"dict"})):
        for a, dec in picked(r, c.key):
            if a is k:
                continue
            dec = implied(r, set(dec) | set(s.facts))
            pre = list({u.args[-1].args[0] for g, p in dec if p for u in subterms(g) if is_call(u, ".startswith") and cargs(u)[0] is k and is_const(cargs(u)[1])})
            if not pre and len(picked(r, c.key)) == 1:
                pre = [p for p, t in esc if not t]
            ok = a.op == "sub" and a.args[0] is k and a.args[1].op == "slice" and len(pre) == 1 and a.args[1].args[0] is const(len(pre[0])) and a.args[1].args[1] in (NONE, None)
            if not ok and is_call(a, ".removeprefix") and cargs(a)[0] is k and is_const(cargs(a)[1]):
                ok, pre = True, [cargs(a)[1].args[0]]
            ctx.check("key-named", where, ok, f"the escape is taken off the key again (here {show(a, 4)})", n)
            if ok:
                tests = frozenset(ordered(subst(g, {k: NEUTRAL})) for g, p in dec if p and lstrip_test(g, k, pre[0]))
                back.add((pre[0], tests))
    ctx.check("key-named", where, back == esc, "exactly the names made for escaped keys are read back as those keys", n)


# ----------------------------------------------------------------- construct / destruct
def constructed(ctx):
    for tp in KINDS:
        r = typed(ctx, "Storage", "construct", op_names("call_internal", "get_struct_builder", "get_struct_inputs", "get_struct_tps", base=lambda f: False), ("c15", tp), {"tp": tp})
        where = f"Storage.construct[{tp}]"
        ci = calls_to(r, "mandala.storage.Storage.call_internal")
        ctx.minimum("constructed", where, len(ci), 1, "structural calls")
        one = lambda nm: {c.d["result"] for c in calls_to(r, "mandala.storage.Storage." + nm)}
        for c in calls_to(r, "mandala.storage.Storage.get_struct_builder", "mandala.storage.Storage.get_struct_inputs", "mandala.storage.Storage.get_struct_tps"):
            ctx.check("constructed", where, barg(r, c, "tp") is r.P["tp"], "the structure is that of the declared type", c)
            if short(c.d["name"]) == "get_struct_inputs":
                ctx.check("constructed", where, barg(r, c, "val") is r.P["val"], "the elements are those of the value", c)
            if short(c.d["name"]) == "get_struct_tps":
                ctx.check("constructed", where, barg(r, c, "struct_inputs") in one("get_struct_inputs"), "elements and types are given under the same names", c)
        for c in ci:
            ctx.check("constructed", where, barg(r, c, "op") in one("get_struct_builder"), "the builder is that of the declared type", c)
            ctx.check("constructed", where, barg(r, c, "storage_inputs") in one("get_struct_inputs"), "all elements are passed to the builder", c)
            ctx.check("constructed", where, barg(r, c, "storage_tps") in one("get_struct_tps"), "with their types", c)
        for n, s, v in r.ends:
            for a in alts(v):
                if a.op == "tuple" and a.args and a.args[0] is r.P["val"]:
                    continue
                ok = a.op == "tuple" and len(a.args) == 2 and any(contains(a.args[0], lambda t: t is c.d["result"]) is not None and output_of(a.args[0], c.d["result"]) for c in ci)
                ctx.check("constructed", where, ok, f"what is constructed is the builder's output (here {show(a.args[0], 4) if a.op == 'tuple' else show(a, 3)})", n)


def output_of(t, res):
    """the (only) output of a structural call"""
    out = (mk("attr", mk("sub", res, const(1)), "outputs"), mk("sub", res, const(0)))
    if t.op == "sub" and t.args[0] in out:
        return True
    if t.op in ("elem", "val") and t.args[0] in out:
        return True
    return contains(t, lambda u: u in out) is not None and t.op in ("sub", "elem", "val", "call")


def taken_apart(ctx):
    for tp, (ref, inp, el) in KINDS.items():
        r = typed(ctx, "Storage", "destruct", op_names("call_internal"), ("destr", ref), {"ref": ref, "tp": tp})
        where = f"Storage.destruct[{ref}]"
        P = r.P
        colls = (P["ref"], mk("attr", P["ref"], "obj"))
        ci = calls_to(r, "mandala.storage.Storage.call_internal")
        ds = calls_to(r, "mandala.storage.Storage.destruct")
        ctx.minimum("apart", where, len(ci), 1, "structural calls")
        good = {}
        for c in ci:
            f = op_function(ctx, barg(r, c, "op"))
            if not ctx.check("apart", where, f is not None, "an element is taken out by a structural op", c):
                continue
            q = ctx.run(None, f[0], wiring=False, tag="c15")
            pars = [a.arg for a in ctx.prog.functions[f[0]].node.args.args]
            si = {k.args[0]: v for k, v in [(i.args[0], i.args[1]) for i in strip(r.snap(c, c.d["bound"]["storage_inputs"]), {"dict"}).args[1:] if hasattr(i, "args")] if is_const(k)} \
                if strip(r.snap(c, c.d["bound"]["storage_inputs"]), {"dict"}).op == "items" else {}
            st = {k.args[0]: v for k, v in [(i.args[0], i.args[1]) for i in strip(r.snap(c, c.d["bound"]["storage_tps"]), {"dict"}).args[1:] if hasattr(i, "args")] if is_const(k)} \
                if strip(r.snap(c, c.d["bound"]["storage_tps"]), {"dict"}).op == "items" else {}
            ctx.check("apart", where, set(si) == set(pars) == set(st), "the structural op gets its arguments by name, with a type each", c)
            cp = [p for p in pars if si.get(p) is P["ref"]]
            ip = [p for p in pars if p not in cp]
            ok = len(cp) == 1 and len(ip) == 1
            ctx.check("apart", where, ok, "an element is taken out of this very collection", c)
            if not ok:
                continue
            k = si[ip[0]]
            okk = k.op == "index" and over(k.args[0], colls[0]) or k.op == "index" and over(k.args[0], colls[1]) if tp == "ListType" else k in keys(colls)
            ctx.check("apart", where, okk, f"by its own {'position' if tp == 'ListType' else 'key'} (here {show(k, 4)})", c)
            ctx.check("apart", where, st.get(cp[0]) is P["tp"], "the collection has its declared type", c)
            # what the op does
            for n, s, v in q.ends:
                for a in alts(v):
                    a = a if a.op != "sub" else a
                    okg = a.op == "sub" and a.args[0] in (mk("param", cp[0]), mk("attr", mk("param", cp[0]), "obj")) and a.args[1] in (mk("param", ip[0]), mk("attr", mk("param", ip[0]), "obj"))
                    ctx.check("apart", f[0].split(".")[-1], okg, f"the op takes the element of that position or key (here {show(a, 4)})", n)
            outs = f[1].get("output_names")
            name = outs.elts[0].value if isinstance(outs, ast.List) and len(outs.elts) == 1 and isinstance(outs.elts[0], ast.Constant) else None
            good[c] = (mk("sub", mk("sub", c.d["result"], const(0)), const(name)), mk("sub", mk("attr", mk("sub", c.d["result"], const(1)), "outputs"), const(name)))
        elems = [t for g in good.values() for t in g]
        for d in ds:
            ctx.check("apart", where, barg(r, d, "ref") in elems, "what is taken apart further is the element taken out", d)
            ctx.check("apart", where, barg(r, d, "tp") is mk("attr", P["tp"], el), "with the declared element type", d)
        res = {mk("sub", d.d["result"], const(0)) for d in ds}
        for n, s, v in r.ends:
            for a in alts(v):
                o = a.args[0] if a.op == "tuple" and a.args else NONE
                if not ctx.check("apart", where, o.op == "obj" and o.args[0] == "inst:" + ref, f"the result is a {ref}", n):
                    continue
                obj = s.heap.get((o, "obj"), NONE)
                t = strip(r.it.snap(s, obj), {"list", "dict"})
                covs = coverage(t)
                ok = in_order(t, *colls) and len(covs) == 1 and not covs[0].guards
                ctx.check("apart", where, ok, f"it has every element, in order (here {show(t, 4)})", n)
                for c in covs:
                    ctx.check("apart", where, c.val in res, "each taken apart further", n)
                    if tp == "DictType":
                        ctx.check("apart", where, c.key in keys(colls), "under its own key", n)


# ----------------------------------------------------------------- saved and loaded
def loaded(ctx):
    for ref in ("ListRef", "DictRef"):
        r0 = ctx.run("Storage", "load_ref", opaque=op_names(*STORE_OPS), tag=("c15",))
        get = store_calls(ctx, r0, "shapes", "get")
        where = f"Storage.load_ref[{ref}]"
        ctx.minimum("loaded", where, len(get), 1, "readings of the shape")
        if not get:
            continue
        shape = get[0].d["result"]

        def setup(it, st):
            it.hints[shape] = ref
            it.hints[("exact", shape)] = True
        r = ctx.run("Storage", "load_ref", opaque=op_names(*STORE_OPS), tag=("c15", ref), setup=setup)
        colls = (shape, mk("attr", shape, "obj"))
        ctx.minimum("loaded", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(v):
                t, obj = obj_of(r, s, a)
                if not ctx.check("loaded", where, obj is not None, f"what is loaded is the collection with its elements (here {show(a, 4)})", n):
                    continue
                cont = strip(obj, {"list", "dict"})
                covs = coverage(cont)
                ok = in_order(cont, *colls) and len(covs) == 1 and not covs[0].guards
                ctx.check("loaded", where, ok, f"every element is loaded, in order (here {show(cont, 4)})", n)
                for c in covs:
                    x = c.val
                    hid = [y.args[1] if y.op == "kw" and y.args[0] == "hid" else y for y in cargs(x)] if is_call(x) and short(x.args[0]) == "load_ref" else []
                    hid = [y for y in hid if y.op == "attr" and y.args[1] == "hid"]
                    ok = len(hid) == 1 and hid[0].args[0] in [mk(o, q) for o in ("elem", "val") for q in colls]
                    ctx.check("loaded", where, ok, f"an element is loaded by its own identity (here {show(x, 4)})", n)
                    if ref == "DictRef":
                        ctx.check("loaded", where, c.key in keys(colls), "under its own key", n)
        for l in calls_to(r, "mandala.storage.Storage.load_ref"):
            ctx.check("loaded", where, barg(r, l, "in_memory") is r.P["in_memory"], "elements are loaded as the collection is", l)


def obj_of(r, s, a):
    """the elements of a collection given back by value or as a copy with elements attached"""
    if a.op == "obj":
        o = s.heap.get((a, "obj"))
        return a, (r.it.snap(s, o) if o is not None else None)
    d = new_obj(a)
    return a, d


def new_obj(a):
    if is_call(a) and short(a.args[0]) == "attached":
        for x in cargs(a)[1:]:
            if x.op == "kw" and x.args[0] == "obj":
                return x.args[1]
        return cargs(a)[1] if len(cargs(a)) > 1 else None
    if a.op == "new":
        for x in a.args[1:]:
            if isinstance(x, T) and x.op == "kw" and x.args[0] == "obj":
                return x.args[1]
    return None


def copied(ctx):
    for ref in ("ListRef", "DictRef"):
        r = ctx.run(ref, "shape", tag=("c15",), wiring=False)
        where = f"{ref}.shape"
        coll = (mk("attr", r.P["self"], "obj"), r.P["self"])
        ctx.minimum("shape", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(v):
                ok = a.op == "obj" and a.args[0] == "inst:" + ref
                if not ctx.check("shape", where, ok, f"a shape is a {ref}", n):
                    continue
                for f in ("cid", "hid"):
                    ctx.check("shape", where, s.heap.get((a, f)) is mk("attr", r.P["self"], f), f"with the same {f}", n)
                stage(ctx, "shape", where, r, n, s, s.heap.get((a, "obj"), NONE), coll,
                      lambda c: is_call(c.val, ".detached", "mandala.model.Ref.detached") and cargs(c.val)[0] in [mk(o, x) for o in ("elem", "val") for x in coll] or detached_copy(c.val, coll), "a shape keeps the elements, without their values",
                      (lambda c: c.key in keys(coll)) if ref == "DictRef" else None)
        # saved: every element
        r = typed(ctx, "Storage", "save_ref", op_names(*STORE_OPS), ("save_ref", ref), {"ref": ref})
        where = f"Storage.save_ref[{ref}]"
        P = r.P
        colls = (P["ref"], mk("attr", P["ref"], "obj"))
        sv = [n for n in calls_to(r, "mandala.storage.Storage.save_ref") if barg(r, n, "ref") in [mk(o, q) for o in ("elem", "val") for q in colls]]
        known = [n.id for n in r.nodes if n.kind == "assume" and n.pol and contains(n.cond, lambda t: is_call(t) and short(t.args[0]) in ("exists", "__contains__") and any(u is mk("attr", P["ref"], "hid") for u in subterms(t))) is not None]
        each(ctx, r, "saved", where, lambda x: x in colls, {n.id for n in sv}, "every element is saved with its collection", legit=known, what="the elements")


def detached_copy(t, coll):
    if t.op != "new":
        return False
    d = {x.args[0]: x.args[1] for x in t.args[1:] if isinstance(x, T) and x.op == "kw"}
    es = [mk(o, x) for o in ("elem", "val") for x in coll]
    return any(d.get("cid") is mk("attr", e, "cid") and d.get("hid") is mk("attr", e, "hid") for e in es)


def access(ctx):
    """a collection answers for its elements"""
    obj = mk("attr", mk("param", "self"), "obj")
    want = {("ListRef", "__len__"): lambda v, P: is_call(v, "len") and cargs(v)[0] is obj,
            ("DictRef", "__len__"): lambda v, P: is_call(v, "len") and cargs(v)[0] is obj,
            ("ListRef", "__getitem__"): lambda v, P: v.op == "sub" and v.args[0] is obj and v.args[1] is P["i"],
            ("DictRef", "__getitem__"): lambda v, P: v.op == "sub" and v.args[0] is obj and all(x in (P["key"], mk("attr", P["key"], "obj")) for x in alts(v.args[1])),
            ("DictRef", "items"): lambda v, P: is_call(v, ".items") and cargs(v)[0] is obj,
            ("DictRef", "values"): lambda v, P: is_call(v, ".values") and cargs(v)[0] is obj}
    for (cls, m), ok in want.items():
        r = ctx.run(cls, m, tag=("c15",), wiring=False)
        ctx.minimum("access", f"{cls}.{m}", len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(v):
                ctx.check("access", f"{cls}.{m}", ok(r.it.snap(s, a), r.P), f"a collection answers for its own elements (here {show(a, 4)})", n)


def inputs_typed(ctx):
    """an argument is made a structure according to the annotation of its own name"""
    for v in (False, True):
        r = internal(ctx, v)
        where = f"call_internal[versioned={v}]"
        si, st = r.P["storage_inputs"], r.P["storage_tps"]
        cs = [n for n in calls_to(r, "mandala.storage.Storage.construct") if from_coll(barg(r, n, "val"), si)]
        ctx.minimum("argument-typed", where, len(cs), 1, "constructions of arguments")
        for n in cs:
            t, val = barg(r, n, "tp"), barg(r, n, "val")
            k = val.args[1] if val.op == "sub" else mk("key", si)
            ctx.check("argument-typed", where, t.op == "sub" and t.args[0] is st and t.args[1] is k, f"an argument has the type given under its own name (here {show(t, 3)})", n)
        # outputs by their annotations
        pr = calls_to(r, "mandala.utils.parse_returns")
        base = {mk("sub", x.d["result"], const(0)): mk("sub", x.d["result"], const(1)) for x in pr}
        for n in calls_to(r, "mandala.storage.Storage.construct", "mandala.storage.Storage.destruct"):
            if n in cs:
                continue
            t = barg(r, n, "tp")
            fa = [u for u in subterms(t) if is_call(u) and short(u.args[0]) == "from_annotation"]
            ok = len(fa) == 1 and any(x in [mk("sub", an, mk("key", o)) for o, an in base.items()] + [mk("val", an) for an in base.values()]
                                      for x in [y.args[1] if y.op == "kw" else y for y in cargs(fa[0])])
            ctx.check("argument-typed", where, ok, f"an output has the type annotated under its own name (here {show(t, 4)})", n)
            if short(n.d["name"]) == "construct":
                ctx.check("argument-typed", where, any(from_coll(barg(r, n, "val"), o) for o in base), "what is made a structure is the value returned", n)
