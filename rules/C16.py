"""Stored values and refs are cut off from live objects."""
import ast
from .common import *
from .C02 import new_of

EXPLANATION = (
    "Value-flow (taint) analysis of every method that touches the stores of values, refs and ops: what flows into them must have passed through serialization or detachment, what flows "
    "out of them to a caller must be deserialized anew into a new ref, and no path writes to an object obtained from them. The methods are found by scanning the classes "
    "for uses of the stores, so that new uses are covered."
)
ASSUMPTIONS = ["joblib reads back a new object on every load", "values in memory are not changed between their computation and the end of the call that produces them"]
REFS = ("AtomRef", "ListRef", "DictRef", "Ref", "TupleRef", "SetRef")
UNITS = ("save_ref", "save_call", "load_ref", "_attach_atom", "_unwrap_atom", "_get_call_from_data", "_drop_ref", "_drop_ref_hid")
REF_FIELDS = ("obj", "in_memory", "cid", "hid")


def check(ctx):
    methods = users(ctx)
    ctx.minimum("scan", "Storage", len(methods), 6, "methods that use the stores of values, refs and ops")
    n = {"atoms": 0, "shapes": 0, "ops": 0, "read": 0}
    for m in methods:
        r = ctx.run("Storage", m, opaque=op_names(*STORE_OPS, "get_content_hash", *["Storage." + x for x in methods if x != m]), tag=("c16",))
        sinks(ctx, r, f"Storage.{m}", n)
    for f in ("atoms", "shapes", "ops", "read"):
        ctx.minimum("scan", "Storage", n[f], 1, f"{'readings' if f == 'read' else 'writes to ' + f}")
    loads(ctx)
    attaching(ctx)
    copies(ctx)
    codec(ctx)


def users(ctx):
    c = ctx.prog.cls("Storage")
    out = []
    for name, fn in c.methods.items():
        if name in ("__init__", "__repr__", "in_context") or "property" in fn.deco_names():
            continue
        if any(isinstance(x, ast.Attribute) and x.attr in ("atoms", "shapes", "ops") and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(fn.node)):
            out.append(name)
    # a private helper is judged where it is used
    known = set(UNITS)
    work, done = [m for m in out if m not in known and m.startswith("_")], set()
    while work:
        h = work.pop()
        done.add(h)
        callers = {m for m, fn in c.methods.items() if m != h and any(isinstance(x, ast.Attribute) and x.attr == h for x in ast.walk(fn.node))}
        if callers:
            out.remove(h)
            for m in callers - set(out):
                out.append(m)
                if m not in known and m.startswith("_") and m not in done:
                    work.append(m)
    return sorted(out)


def conj(facts):
    """the atomic facts that hold"""
    out = set(facts)
    work = list(facts)
    while work:
        c, p = work.pop()
        if c.op == "op" and (c.args[0] == "and" and p or c.args[0] == "or" and not p):
            for a in c.args[1:]:
                if (a, p) not in out:
                    out.add((a, p))
                    work.append((a, p))
    return out


def holds(facts, t):
    return any(p and (c is t or c is mk("op", "truth", t) or (c.op == "op" and c.args[0] in ("is", "eq") and t in c.args and const(True) in c.args)) for c, p in conj(facts))


def sinks(ctx, r, where, cnt):
    # values
    for n in store_calls(ctx, r, "atoms", "set"):
        cnt["atoms"] += 1
        v, k = barg(r, n, "value"), barg(r, n, "key")
        ok = is_call(v) and short(v.args[0]) == "serialize" and cargs(v)
        o = arg_value(v) if ok else NONE
        ok = ok and o.op == "attr" and o.args[1] == "obj"
        if ctx.check("frozen", where, ok, f"a value is stored serialized (here {show(v, 3)})", n):
            ref = o.args[0]
            ctx.check("frozen", where, k is mk("attr", ref, "cid"), "under its own content id", n)
            ctx.check("frozen", where, holds(n.facts, mk("attr", ref, "in_memory")), "only a value that is in memory is stored", n)
    # refs
    for n in store_calls(ctx, r, "shapes", "set"):
        cnt["shapes"] += 1
        v, k = barg(r, n, "value"), barg(r, n, "key")
        for a in alts(v):
            d = new_of(a, *REFS)
            if d is None and is_call(a) and short(a.args[0]) in ("detached", "shape"):
                ref = cargs(a)[0]      # which of the classes' methods it is depends on the class of the ref; copied() decides them
                ctx.check("frozen", where, k is mk("attr", ref, "hid"), "a ref is stored under its own history id", n)
                continue
            if not ctx.check("frozen", where, d is not None, f"a ref is stored as a copy (here {show(a, 3)})", n):
                continue
            ctx.check("frozen", where, k is d.get("hid"), "a ref is stored under its own history id", n)
            if a.args[0] == "AtomRef" or a.args[0] == "Ref":
                ctx.check("frozen", where, is_const(d.get("obj", NONE), None) and is_const(d.get("in_memory"), False), "a stored ref holds no value", n)
            else:
                for c in coverage(d.get("obj", NONE)):
                    ctx.check("frozen", where, all(valueless(x) for x in alts(c.val)), f"a stored structure holds no values (here {show(c.val, 4)})", n)
    # ops
    for n in store_calls(ctx, r, "ops", "set"):
        cnt["ops"] += 1
        v, k = barg(r, n, "value"), barg(r, n, "key")
        for a in alts(v):
            d = new_of(a, "Op")
            ok = d is not None and is_const(d.get("f", NONE), None)
            ctx.check("frozen", where, ok, f"an op is stored without its function (here {show(a, 3)})", n)
            if ok:
                ctx.check("frozen", where, k is d.get("name"), "under its own name", n)
    # what is read is not changed, and values read are decoded
    got = {}
    for f in ("atoms", "shapes", "ops"):
        for n in store_calls(ctx, r, f, "get"):
            got[n.d["result"]] = (f, n)
            cnt["read"] += 1
    if not got:
        return
    for n in r.nodes:
        if n.kind in ("setattr", "mut"):
            b = r.snap(n, n.d["base"] if n.kind == "setattr" else n.d["target"])
            src = root(b)
            ctx.check("untouched", where, src not in got, f"what is stored is not modified (here {show(b, 3)}{'.' + n.d['attr'] if n.kind == 'setattr' else ''})", n)
        if n.kind == "setattr" and n.d["attr"] == "obj" and not (n.fn is not None and n.fn.name == "__init__"):
            decoded(ctx, r, where, n, r.snap(n, n.d["value"]), mk("attr", r.snap(n, n.d["base"]), "cid"), got)
        if n.kind == "new" and n.d["cls"] in REFS:
            a = {k: r.snap(n, v) for k, v in n.d["kwargs"].items()}
            decoded(ctx, r, where, n, a.get("obj", NONE), a.get("cid", NONE), got)
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            ctx.check("untouched", where, a not in got or got[a][0] == "ops", "what is stored is not handed out itself", n)


def arg_value(v):
    x = cargs(v)[0]
    return x.args[1] if x.op == "kw" else x


def valueless(x):
    d = new_of(x, *REFS)
    if d is not None:
        if x.args[0] in ("ListRef", "DictRef"):
            return all(valueless(y) for c in coverage(d.get("obj", NONE)) for y in alts(c.val))
        return is_const(d.get("obj", NONE), None) and is_const(d.get("in_memory"), False)
    return is_call(x) and short(x.args[0]) in ("detached", "shape")


def root(t):
    while t.op in ("attr", "sub", "elem", "val", "key") or is_call(t, ".items", ".values", ".keys", ".get", "enumerate"):
        t = t.args[0] if t.op != "call" else (t.args[1] if isinstance(t.args[1], T) else t)
        if t.op == "call" and not is_call(t, ".items", ".values", ".keys", ".get", "enumerate"):
            break
    return t


def decoded(ctx, r, where, n, v, cid, got):
    """a value put into a ref was read from the bytes of the ref's own content id"""
    for a in alts(v):
        raw = [u for u in subterms(a) if u in got and got[u][0] == "atoms"]
        if not raw:
            continue
        ok = is_call(a) and short(a.args[0]) == "deserialize" and arg_value(a) in raw
        if ctx.check("fresh", where, ok, f"a value read is deserialized (here {show(a, 3)})", n):
            k = barg(r, got[arg_value(a)][1], "key")
            ctx.check("fresh", where, k is cid, f"a ref gets the value of its own content id (here {show(k, 3)})", n)


def loads(ctx):
    base = op_names(*STORE_OPS)
    for ref in ("AtomRef", "ListRef", "DictRef"):
        for mem in (False, True):
            def setup(it, st):
                shape = mk("param", "#shape")
                it.hints[shape] = ref
                it.hints[("exact", shape)] = True
            r0 = ctx.run("Storage", "load_ref", opaque=base, tag=("c16",))
            get = store_calls(ctx, r0, "shapes", "get")
            where = f"Storage.load_ref[{ref}, in_memory={mem}]"
            ctx.minimum("fresh", where, len(get), 1, "readings of the ref")
            if not get:
                continue
            shape = get[0].d["result"]

            def setup(it, st):
                it.hints[shape] = ref
                it.hints[("exact", shape)] = True
            r = ctx.run("Storage", "load_ref", opaque=base, tag=("c16", ref), setup=setup, params={"in_memory": const(mem)})
            ctx.minimum("fresh", where, len(r.ends), 1, "results")
            for n, s, v in r.ends:
                for a in alts(v):
                    ok = a.op == "obj" and a.args[0] == "inst:" + ref
                    if not ctx.check("fresh", where, ok, f"every load makes a new ref (here {show(a, 3)})", n):
                        continue
                    o = s.heap.get((a, "obj"), NONE)
                    if ref == "AtomRef":
                        t = r.it.snap(s, o)
                        if mem:
                            ok = t is mk("attr", shape, "obj") or is_const(t, None)
                        else:
                            ok = is_call(t) and short(t.args[0]) == "deserialize" and is_const(s.heap.get((a, "in_memory"), NONE), True)
                        ctx.check("fresh", where, ok, f"the value is {'left in the storage' if mem else 'deserialized anew'} (here {show(t, 3)})", n)
                    else:
                        ok = o.op == "obj" and o.args[0] in ("list", "dict")
                        ctx.check("fresh", where, ok, f"every load makes a new collection (here {show(o, 3)})", n)
                        for c in coverage(r.it.snap(s, o)):
                            x = c.val
                            ctx.check("fresh", where, is_call(x) and short(x.args[0]) == "load_ref" or new_of(x, *REFS) is not None, f"of elements loaded anew (here {show(x, 3)})", n)


def attaching(ctx):
    where0 = "Storage._attach_atom"
    for inplace in (False, True):
        for mem in (False, True):
            def setup(it, st):
                m = mk("attr", mk("param", "ref"), "in_memory")
                st.facts = st.facts | {(mk("op", "truth", m), mem), (m, mem)}
                it.hints[mk("param", "ref")] = "AtomRef"
            r = ctx.run("Storage", "_attach_atom", opaque=op_names(*STORE_OPS, "load_ref"), setup=setup, params={"inplace": const(inplace)}, tag=("c16", inplace, mem))
            where = f"{where0}[inplace={inplace}, in_memory={mem}]"
            ref = r.P["ref"]
            ctx.minimum("attached", where, len(r.ends), 1, "results")
            sets = [n for n in r.nodes if n.kind == "setattr" and r.snap(n, n.d["base"]) is ref]
            if not inplace or mem:
                ctx.check("attached", where, not sets, "the given ref is left alone", sets[0] if sets else None)
            for n, s, v in r.ends:
                if inplace:
                    ctx.check("attached", where, is_const(v, None), "attaching in place returns nothing", n)
                    if not mem:
                        o = r.it.snap(s, s.heap.get((ref, "obj"), NONE))
                        ctx.check("attached", where, own_value(r, o, ref), "the given ref gets the value of its own content id", n)
                        ctx.check("attached", where, is_const(s.heap.get((ref, "in_memory"), NONE), True), "and is in memory from then on", n)
                        ctx.check("attached", where, all((ref, f) not in s.heap for f in ("cid", "hid")), "with the identities it had", n)
                    continue
                for a in alts(v):
                    d = new_of(r.it.snap(s, a))
                    if not ctx.check("attached", where, d is not None, f"the result is a new ref (here {show(a, 3)})", n):
                        continue
                    ctx.check("attached", where, all(d.get(f) is mk("attr", ref, f) for f in ("cid", "hid")) and is_const(d.get("in_memory"), True), "with the identities of the given one, in memory", n)
                    o = d.get("obj", NONE)
                    ctx.check("attached", where, o is mk("attr", ref, "obj") if mem else own_value(r, o, ref), "and with its value", n)
    for mem in (False, True):
        def setup(it, st):
            m = mk("attr", mk("param", "obj"), "in_memory")
            st.facts = st.facts | {(mk("op", "truth", m), mem), (m, mem)}
            it.hints[mk("param", "obj")] = "AtomRef"
        r = ctx.run("Storage", "_unwrap_atom", opaque=op_names(*STORE_OPS, "load_ref"), setup=setup, tag=("c16", mem))
        where = f"Storage._unwrap_atom[in_memory={mem}]"
        ref = r.P["obj"]
        ctx.minimum("attached", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            t = r.it.snap(s, v)
            if mem:
                ok = t is mk("attr", ref, "obj")
            else:
                ok = own_value(r, t, ref)
                if t.op == "attr" and t.args[1] == "obj":
                    ls = [c for c in calls_to(r, "mandala.storage.Storage.load_ref") if c.d["result"] is t.args[0]]
                    ok = len(ls) == 1 and barg(r, ls[0], "hid") is mk("attr", ref, "hid") and is_const(given(ctx, r, ls[0], "in_memory"), False)
            ctx.check("attached", where, ok, f"unwrapping gives the value {'the ref holds' if mem else 'loaded for the ref'} (here {show(t, 3)})", n)
        sets = [n for n in r.nodes if n.kind == "setattr" and r.snap(n, n.d["base"]) is ref]
        ctx.check("attached", where, not sets, "unwrapping leaves the ref alone", sets[0] if sets else None)


def own_value(r, o, ref):
    gets = {n.d["result"]: n for n in store_calls(None, r, "atoms", "get")}
    return is_call(o) and short(o.args[0]) == "deserialize" and arg_value(o) in gets and barg(r, gets[arg_value(o)], "key") is mk("attr", ref, "cid")


def copies(ctx):
    me = mk("param", "self")
    own = lambda f: mk("attr", me, f)
    want = {"detached": {"obj": NONE, "in_memory": const(False), "cid": own("cid"), "hid": own("hid")},
            "attached": {"obj": mk("param", "obj"), "in_memory": const(True), "cid": own("cid"), "hid": own("hid")},
            "shallow_copy": {f: own(f) for f in REF_FIELDS},
            "with_hid": {"obj": own("obj"), "in_memory": own("in_memory"), "cid": own("cid"), "hid": mk("param", "hid")}}
    for cls in ("AtomRef", "ListRef", "DictRef"):
        for m, fs in want.items():
            r = ctx.run(cls, m, tag=("c16",), wiring=False, selfcls=cls)
            where = f"{cls}.{m}"
            ctx.minimum("copied", where, len(r.ends), 1, "results")
            for n, s, v in r.ends:
                for a in alts(v):
                    if not ctx.check("copied", where, a.op == "obj" and a.args[0].startswith("inst:"), f"the result is a new ref (here {show(a, 3)})", n):
                        continue
                    for f, w in fs.items():
                        g = s.heap.get((a, f), NONE)
                        ctx.check("copied", where, g is w, f"its {f} is {'the same' if w is own(f) else show(w, 2)} (here {show(g, 3)})", n)
            sets = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is me]
            ctx.check("copied", where, not sets, "the ref copied is left alone", sets[0] if sets else None)


def codec(ctx):
    for f, p in (("serialize", "obj"), ("deserialize", "value")):
        fn = ctx.prog.func("mandala.utils." + f)
        ctx.check("codec", f, not fn.deco_names(), "every value is converted anew, none is remembered", fn)
        r = ctx.run(None, "mandala.utils." + f, wiring=False, tag="c16", opaque=op_names(base=lambda fn: False))
        ctx.minimum("codec", f, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(r.it.snap(s, v)):
                ok = a.op == "call" and not is_call(a, ".get", ".setdefault", ".pop") and a is not r.P[p]
                if ok and f == "deserialize":
                    ok = contains(a, lambda u: u is r.P[p]) is not None
                if ok and f == "serialize":
                    base = a.args[1] if len(a.args) > 1 and isinstance(a.args[1], T) else NONE
                    ok = contains(a, lambda u: u is r.P[p]) is not None or any(
                        c.kind == "call" and any(x is r.P[p] for x in c.d["args"]) and any(r.snap(c, x) is base for x in c.d["args"]) for c in r.nodes)
                ctx.check("codec", f, ok, f"the result is made from the {p} given (here {show(a, 4)})", n)
    for cls, m in (("Storage", "load_ref"), ("Storage", "_unwrap_atom"), ("Storage", "_attach_atom"), ("Storage", "unwrap"), ("Storage", "attach"), ("Storage", "save_ref")):
        fn = ctx.prog.method(cls, m)
        ctx.check("codec", f"{cls}.{m}", not [d for d in fn.deco_names() if "cache" in d or "memo" in d], "every request is served anew, none is remembered", fn)
