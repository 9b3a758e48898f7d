"""Ignored arguments: never part of a call's identity or record, always passed to the function."""
from .common import *

EXPLANATION = (
    "Path and value-flow analysis of the function that splits an op's bound arguments into those the storage sees and those the function sees. Every "
    "site that hands an argument to the storage must lie behind the decisions that the argument is not marked as ignored, that its name is not on the "
    "op's ignore list and that it is not a declared default passed explicitly; every site that rewrites a bound argument may only take an ignored "
    "value out of its wrapper (or put the equal default in its place), and every path on which an argument is found to be wrapped passes such a site. "
    "The equality test used for declared defaults, the two markers and the way of the ignore list from the decorator to this function are decided too."
)
ASSUMPTIONS = ["== on plain values agrees with the user's notion of 'the same value'"]
PA = op_names("unwrap", "_conservative_equality_check")


def check(ctx):
    split(ctx)
    equality(ctx)
    markers(ctx)
    plumbing(ctx)


def is_ignored(c, x):
    return isinst_ignore(c) and c.args[1] is x


def split(ctx):
    r = ctx.run("Storage", "parse_args", opaque=PA, tag="pa")
    where = "Storage.parse_args"
    P = r.P
    ign, sig = P["ignore_args"], P["sig"]
    args = next((t for n in r.nodes if n.kind == "loop" for t in subterms(n.d["siter"])
                 if t.op == "attr" and t.args[1] == "arguments" and is_call(t.args[0], ".bind")), None)
    if not ctx.check("anchor", where, args is not None, "there is a loop over the bound arguments", r.it.entry):
        return
    A, K = mk("val", args), mk("key", args)
    starts = [n.id for n in r.nodes if n.kind == "iter" and args in loop_bases(r, n)]
    stores = {v.args[1] for n, s, v in r.ends for v in alts(v) if v.op == "tuple" and len(v.args) == 3}
    els = {A: "argument", mk("elem", A): "positional variadic", mk("val", A): "keyword variadic"}
    for o in list(els):
        if o is not A:
            for n in r.nodes:
                if n.kind == "mut":
                    for t in subterms(n.d["value"]) if isinstance(n.d["value"], T) else ():
                        if t.op == "sub" and t.args[0] is A:
                            els[t] = "variadic"

    def under(v):
        """the argument a value is made of: itself or its payload"""
        if v in els:
            return v
        if v.op == "attr" and v.args[1] == "value" and v.args[0] in els:
            return v.args[0]
        return None

    def track(c):
        return isinst_ignore(c) or c.op == "op" and c.args[0] in ("in", "isnone", "truth", "isinstance")

    def listed(k, pol):
        def f(c):
            return c.op == "op" and c.args[0] == "in" and c.args[1] is k and contains(c.args[2], lambda t: t is ign) is not None
        out = decisions(r, f, pol)
        if not pol:
            out += decisions(r, lambda c: c.op == "op" and c.args[0] == "isnone" and c.args[1] is ign, True)
            out += decisions(r, lambda c: c.op == "op" and c.args[0] == "truth" and c.args[1] is ign, False)
        return out

    def default(t):
        """t is the declared default of the argument at hand"""
        return t.op == "attr" and t.args[1] == "default" and contains(t, lambda u: u is mk("attr", sig, "parameters")) is not None and \
            (t.args[0].op == "sub" and t.args[0].args[1] is K)

    eqs = calls_to(r, "mandala.utils._conservative_equality_check")
    for n in eqs:
        b = n.d["bound"]
        sv, uv = r.snap(n, b.get("safe_value", NONE)), r.snap(n, b.get("unknown_value", NONE))
        ctx.check("default-compared", where, sv.op == "attr" and sv.args[1] == "value" and default(sv.args[0]), "what is compared is the default declared for this very argument", n)
        ctx.check("default-compared", where, all(x is A or unwrapped(x, A) for x in alts(uv)), "it is compared with the argument passed", n)

    def eqd(kinds, pol):
        rs = set()
        for n in eqs:
            uv = r.snap(n, n.d["bound"].get("unknown_value", NONE))
            if any((x is A and "raw" in kinds) or (unwrapped(x, A) and "unwrapped" in kinds) for x in alts(uv)):
                rs.add(n.d["result"])
        return decisions(r, lambda c: c in rs or c.op == "op" and c.args[0] == "truth" and c.args[1] in rs, pol)

    isref = decisions(r, lambda c: c.op == "op" and c.args[0] == "isinstance" and c.args[1] is A and names(c.args[2]) & {"Ref"}, False)
    nodef = decisions(r, lambda c: c.op == "op" and c.args[0] == "isinstance" and default(c.args[1]) and names(c.args[2]) & {"_NewArgDefault", "_Ignore"}, False)
    nodef += decisions(r, lambda c: c.op == "op" and c.args[0] == "in" and c.args[1] is K and contains(c.args[2], lambda t: t.op == "attr" and t.args[1] == "default") is not None, False)
    sites = [n for n in r.nodes if n.kind == "mut" and n.d["target"] in stores and n.d["how"] in ("setitem", "setdefault", "update")]
    ctx.minimum("not-stored", where, len(sites), 3, "sites that hand an argument to the storage")
    kinds = set()
    for n in sites:
        val = r.snap(n, n.d["value"]) if n.d["value"] is not None else (r.snap(n, n.d["args"][-1]) if n.d["args"] else NONE)
        us = {under(x) for x in alts(val)}
        if not ctx.check("not-stored", where, len(us) == 1 and None not in us, "what the storage gets is one of the arguments", n):
            continue
        u = us.pop()
        kinds.add(els[u])
        lbl = f"{where}: {els[u]}"
        p = fpath(r, starts, [n.id], decisions(r, lambda c: is_ignored(c, u), False), track)
        ctx.check("not-stored", lbl, p is None, "an argument marked as ignored is not handed to the storage", n, show_path(p))
        p = fpath(r, starts, [n.id], listed(K, False), track)
        ctx.check("not-stored", lbl, p is None, "an argument on the op's ignore list is not handed to the storage", n, show_path(p))
        if u.op == "val" and u.args[0] is A:
            p = fpath(r, starts, [n.id], listed(mk("key", A), False), track)
            ctx.check("not-stored", lbl, p is None, "a variadic keyword argument on the op's ignore list is not handed to the storage", n, show_path(p))
        if u is A:
            p = fpath(r, starts, [n.id], nodef + eqd(("raw", "unwrapped"), False), track)
            ctx.check("not-stored", lbl, p is None, "a declared default that is passed explicitly is not handed to the storage", n, show_path(p))
            p = fpath(r, starts, [n.id], nodef + isref + eqd(("unwrapped",), False), track)
            ctx.check("not-stored", lbl, p is None, "a declared default that is passed as a ref is not handed to the storage", n, show_path(p))
    ctx.minimum("not-stored", where, len(kinds), 3, "kinds of arguments (regular, *args, **kwargs) handed to the storage")
    # (b) what the function gets
    sets = [n for n in r.nodes if n.kind == "mut" and n.d["target"] is args]
    for n in sets:
        if not ctx.check("value-passed", where, n.d["how"] == "setitem" and r.snap(n, n.d["key"]) is K, "an argument is only replaced under its own name", n):
            continue
        val = r.snap(n, n.d["value"])
        inner = strip(val, {"tuple", "list", "dict"})
        if val.op == "items" or inner.op == "items":
            tot = total(coverage(inner), (A,))
            ctx.check("value-passed", where, tot is not None and all(k is None or k is mk("key", A) for k, _, _ in tot),
                      "a variadic argument keeps all its values, in order and under their names", n)
            for k, v, g in tot or ():
                alternatives(ctx, r, n, where, v, under, starts, track, eqd, default, els, g)
            continue
        alternatives(ctx, r, n, where, val, under, starts, track, eqd, default, els)
    backs = [p for l in r.nodes if l.kind == "loop" and l.id in {n.d["head"] for n in r.nodes if n.id in starts} for p in l.preds if p >= l.id]
    for n in r.nodes:
        if n.kind == "assume" and n.pol and isinst_ignore(n.cond) and under(n.cond.args[1]) is n.cond.args[1] and n.cond.args[1] in els:
            u = n.cond.args[1]
            new = [m.id for m in r.nodes if m.kind == "mut" and m.d["target"] is args]
            p = fpath(r, [n.id], backs, new, track) if fpath(r, starts, [n.id], new, track) is not None else None
            ctx.check("value-passed", f"{where}: {els[u]}", p is None, "an ignored argument is taken out of its wrapper", n, show_path(p))
    dels = [n for n in r.nodes if n.kind == "mut" and n.d["target"] is args and n.d["how"] not in ("setitem",)]
    for n in dels:
        ctx.bad("value-passed", where, "no argument is taken away from the function", n)
    for n, s, v in r.ends:
        ctx.check("value-passed", where, v.op == "tuple" and v.args[0] is args.args[0], "the bound arguments handed on are those rewritten", n)


def unwrapped(x, a):
    return is_call(x) and short(x.args[0]) == "unwrap" and any(y is a for y in cargs(x))


def names(t):
    return {x.args[0] for x in subterms(t) if x.op == "class"}


def alternatives(ctx, r, n, where, val, under, starts, track, eqd, default, els, given=()):
    for a, dec in picked(r, val):
        u = under(a)
        facts = set(dec) | set(n.facts) | set(given)
        if a.op == "attr" and a.args[1] == "value" and default(a.args[0]):
            p = fpath(r, starts, [n.id], eqd(("raw", "unwrapped"), True), track)
            ctx.check("value-passed", where, p is None, "the default replaces an argument only when the two are equal", n, show_path(p))
            continue
        if not ctx.check("value-passed", where, u is not None, f"an argument is replaced by its own value only (here {show(a, 3)})", n):
            continue
        wrapped = u is not a
        ok = any(is_ignored(c, u) and p == wrapped for c, p in facts)
        if not ok:
            p = fpath(r, starts, [n.id], decisions(r, lambda c: is_ignored(c, u), wrapped), track)
            ok = p is None
        ctx.check("value-passed", f"{where}: {els[u]}", ok, "an argument is unwrapped exactly when it is wrapped", n)


def equality(ctx):
    where = "_conservative_equality_check"
    r = ctx.run(None, "mandala.utils._conservative_equality_check")
    a, b = r.P["safe_value"], r.P["unknown_value"]
    same = decisions(r, lambda c: c.op == "op" and c.args[0] in ("eq", "is") and {strip_type(x) for x in c.args[1:]} == {a, b}, True)
    ctx.minimum("equality", where, len(r.ends), 2, "results")
    for n, s, v in r.ends:
        for x in alts(v):
            if is_const(x, False):
                continue
            both = contains(x, lambda t: t is a) is not None and contains(x, lambda t: t is b) is not None
            ctx.check("equality", where, both and compares(x, a, b), f"equality is decided by comparing the two values (here {show(x, 3)})", n)
    # a comparison is only made between values of the same type
    p = r.path([r.it.entry.id], [n.id for n, s, v in r.ends if any(not is_const(x, False) for x in alts(v))], avoid=same)
    ctx.check("equality", where, p is None, "values of different types are different", r.it.entry, show_path(p))


def compares(x, a, b):
    if x.op == "op" and x.args[0] in ("eq", "is"):
        return set(x.args[1:]) == {a, b}
    if is_call(x) and short(x.args[0].lstrip(".")) in ("array_equal", "equals"):
        return {y for y in cargs(x)} >= {a, b}
    return False


def strip_type(t):
    if is_call(t, "type", "builtins.type") and cargs(t):
        return cargs(t)[0]
    return t.args[1] if t.op == "op" and t.args[0] == "type" else None


def markers(ctx):
    for f, cls in (("Ignore", "_Ignore"), ("NewArgDefault", "_NewArgDefault")):
        r = ctx.run(None, f"mandala.model.{f}")
        ctx.minimum("markers", f, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            t = r.it.snap(s, v)
            ctx.check("markers", f, t.op == "new" and t.args[0] == cls and dict(t.args[1:]).get("value") is r.P["value"], f"{f}(x) marks x", n)
    sub = ctx.prog.classes["_NewArgDefault"]
    ctx.check("markers", "_NewArgDefault", any(b.name == "_Ignore" for b in sub.mro), "a declared default left in place is itself ignored", "")


def plumbing(ctx):
    for mode in ("run", "noop"):
        r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode=mode), tag=("call", mode))
        ns = calls_to(r, "mandala.storage.Storage.parse_args")
        ctx.minimum("list-passed", f"Storage.call[{mode}]", len(ns), 1, "argument parses")
        for n in ns:
            ctx.check("list-passed", f"Storage.call[{mode}]", barg(r, n, "ignore_args") is mk("attr", r.P["op"], "ignore_args"), "the op's own ignore list decides", n)
    made = 0
    for q in [k for k in ctx.prog.functions if k == "mandala.model.op" or k.startswith("mandala.model.op.<locals>")]:
        if q.endswith("<lambda>"):
            continue
        r = ctx.run(None, q)
        for n in r.find("new"):
            if n.d["cls"] != "Op":
                continue
            made += 1
            a = {p: x for p, x in zip(ctx.prog.classes["Op"].find("__init__").pos[1:], n.d["args"])}
            a.update(n.d["kwargs"])
            t = a.get("ignore_args", NONE)
            ctx.check("list-passed", "op", t.op in ("param", "ext") and t.args[0] == "ignore_args", "the decorator hands its ignore list to the op", n)
    ctx.minimum("list-passed", "op", made, 1, "ops made by the decorator")
    r = ctx.run("Op", "__init__")
    st = [n for n in r.nodes if n.kind == "setattr" and n.d["attr"] == "ignore_args"]
    ctx.minimum("list-passed", "Op.__init__", len(st), 1, "stores of the ignore list")
    for n in st:
        ctx.check("list-passed", "Op.__init__", is_copy(r, n, n.d["value"], r.P["ignore_args"]), "an op keeps its ignore list", n)
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=[n.id for n in st])
    ctx.check("list-passed", "Op.__init__", p is None, "an op keeps its ignore list", r.it.entry, show_path(p))
