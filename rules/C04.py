"""What the wrapped function receives: exactly the call's arguments, as plain values, however the op is called."""
from .common import *
from .C02 import isinst

EXPLANATION = (
    "Value-flow analysis of every site that executes an op's function: on the recording route, in a storage in noop mode and outside any storage. The "
    "function gets one positional and one keyword collection; each must range over the whole of the corresponding part of the bound arguments, in "
    "order and under their names, and each element must have been unwrapped (refs and nested collections of refs on the storage routes) with "
    "ValuePointers and ignore markers replaced by what they hold exactly when the value is one. The functions that split bound arguments by "
    "parameter kind and that unwrap nested collections are decided by rules of their own."
)
ASSUMPTIONS = ["inspect.signature describes the op's function"]
SPLIT = "mandala.utils.boundargs_to_args_kwargs"


def check(ctx):
    recorded(ctx)
    noop(ctx)
    outside(ctx)
    splitting(ctx)
    unwrapping(ctx)


class Peel:
    """the layers between a value handed to the function and the bound arguments"""

    def __init__(self, r, kinds):
        self.r, self.kinds = r, kinds

    def go(self, v, dec=frozenset(), steps=()):
        """[(source term, steps, decisions)]"""
        out = []
        for a, g in picked(self.r, v):
            d = dec | g
            if is_call(a) and short(a.args[0]) == "unwrap" and cargs(a):
                x = cargs(a)[1] if cargs(a)[0] is self.r.P.get("self") else cargs(a)[0]
                out += self.go(x, d, steps + (("unwrap", x),))
            elif a.op == "attr" and a.args[1] in ("obj", "value") and self.inner(a.args[0]):
                out += self.go(a.args[0], d, steps + ((a.args[1], a.args[0]),))
            else:
                out.append((a, steps, d))
        return out

    def inner(self, t):
        return any(is_call(x) and short(x.args[0]) == "unwrap" or x.op in ("val", "elem") for x in alts(t))


WANT = {"obj": ("ValuePointer",), "value": ("_Ignore", "_NewArgDefault")}


def element(ctx, rule, where, r, n, v, guards, base, kinds):
    """one element handed to the function: `kinds` are the wrappers that must be taken off"""
    ok = True
    src = {mk("elem", base), mk("val", base)}
    un = True
    for a, steps, dec in Peel(r, kinds).go(v):
        dec = set(dec) | set(guards)
        if not ctx.check(rule, where, a in src, f"what the function receives is an argument of the call (here {show(a, 3)})", n):
            ok = False
            continue
        un &= any(k == "unwrap" for k, _ in steps)
        taken = {}
        for k, x in steps:
            if k in WANT:
                taken[k] = x
                ctx.check(rule, where, any(p and isinst(c, x, *WANT[k]) for c, p in dec),
                          f"only a {WANT[k][0]} is replaced by what it holds", n)
        for k in kinds:
            if k in taken:
                continue
            # the value, seen through the unwrapping, is decided not to be such a wrapper
            layers = [a] + [mk_unwrap(r, x) for kk, x in steps if kk == "unwrap"]
            sure = any(not p and c.op == "op" and c.args[0] == "isinstance" and at(r, c.args[1], a) and names_of(c) & set(WANT[k]) for c, p in dec)
            other = any(p and c.op == "op" and c.args[0] == "isinstance" and any(c.args[1] is x for x in taken.values()) for c, p in dec)
            ctx.check(rule, where, sure or other, f"a {WANT[k][0]} is replaced by what it holds", n)
    return un


def at(r, t, a):
    """t is a, possibly unwrapped"""
    return any(x is a or is_call(x) and short(x.args[0]) == "unwrap" and any(at(r, y, a) for y in cargs(x)) for x in alts(t))


def mk_unwrap(r, x):
    return x


def names_of(c):
    return {x.args[0] for x in subterms(c.args[2]) if x.op == "class"}


def peel_base(r, b):
    """(collection of bound arguments, was it unwrapped as a whole)"""
    un = False
    while True:
        b = strip(b, {"list", "tuple", "dict"})
        if is_call(b) and short(b.args[0]) == "unwrap" and cargs(b):
            b = cargs(b)[-1] if cargs(b)[0] is r.P.get("self") else cargs(b)[0]
            b = r.snap(r.nodes[-1], b) if b.op == "obj" else b
            un = True
            continue
        return b, un


def collection(ctx, rule, where, r, n, t, part, bound, kinds, unwrap):
    """the positional (part 0) or keyword (part 1) collection handed to the function"""
    lbl = "positional" if part == 0 else "keyword"
    t = r.snap(n, t)
    for a, dec in picked(r, t):
        seen, unw, guards = set(), False, ()
        todo = strip(a, {"list", "tuple", "dict"})
        # nested rebuilds: peel one comprehension after the other
        for _ in range(4):
            b, un = peel_base(r, todo)
            unw |= un
            if b.op != "items":
                break
            covs = coverage(b)
            bs = {c.bases for c in covs}
            if len(bs) != 1 or len(next(iter(bs))) != 1:
                ctx.bad(rule, where, f"the {lbl} arguments are passed as they are: one after the other", n)
                return
            base = next(iter(bs))[0]
            tot = total(covs, (base,))
            if not ctx.check(rule, where, tot is not None, f"every {lbl} argument is passed", n):
                return
            layer, new = True, set()
            for k, v, g in tot:
                if part == 1:
                    ctx.check(rule, where, k is mk("key", base) or k is None and v.op == "tuple" and v.args[0] is mk("key", base),
                              "a keyword argument is passed under its own name", n)
                    if k is None and v.op == "tuple":
                        v = v.args[1]
                layer &= element(ctx, rule, where, r, n, v, set(g) | set(dec), base, [k for k in kinds if k not in seen])
                new |= {s for s, _ in steps_of(r, v) if s in WANT}
            unw |= layer
            seen |= new
            todo = base
        src, un = peel_base(r, todo)
        unw |= un
        good = any(x is mk("attr", bound, "args" if part == 0 else "kwargs") or x.op == "sub" and is_const(x.args[1], part)
                   and is_call(x.args[0], SPLIT) and cargs(x.args[0])[0] is bound for x in [src])
        ctx.check(rule, where, good, f"the {lbl} arguments are those of the call (here {show(src, 3)})", n)
        ctx.check(rule, where, not unwrap or unw, f"refs among the {lbl} arguments are replaced by their values", n)
        for k in kinds:
            ctx.check(rule, where, k in seen, f"every {WANT[k][0]} among the {lbl} arguments is replaced by what it holds", n)


def steps_of(r, v):
    return [s for a, steps, d in Peel(r, ()).go(v) for s in steps]


def site(ctx, rule, where, r, n, bound, kinds, unwrap):
    sargs, kws, ex = n.d.get("args", []), n.d.get("kwargs", {}), n.d.get("extra", [])
    if n.d["name"] == "apply":
        sargs = sargs
    ctx.check(rule, where, not sargs and not kws, "the function receives the call's arguments and nothing else", n)
    st = {"*": [], "**": []}
    for k, t in ex:
        st[k].append(t)
    for k, part in (("*", 0), ("**", 1)):
        if ctx.check(rule, where, len(st[k]) == 1, f"the function receives the {'positional' if part == 0 else 'keyword'} arguments once", n):
            collection(ctx, rule, where, r, n, st[k][0], part, bound, kinds, unwrap)


def recorded(ctx):
    opq = op_names("boundargs_to_args_kwargs", base=INTERNAL)
    for v in (False, True):
        r = ctx.run("Storage", "call_internal", opaque=opq, attrs_=attrs(versioned=v), tag=("c04",))
        where = f"Storage.call_internal[{'versioned' if v else 'plain'}]"
        op, bound = r.P["op"], r.P["bound_arguments"]
        k = 0
        for n in exec_sites(r, op):
            ex = dict(n.d.get("extra", []))
            if "*" not in ex and structural(n, op):
                # a structural op works on the storage's own representation
                t = r.snap(n, ex.get("**", NONE))
                tot = total(coverage(t), (r.P["storage_inputs"],))
                ctx.check("structural", where, tot is not None and all(kk is mk("key", r.P["storage_inputs"]) for kk, _, _ in tot),
                          "a structural op receives each of its inputs under its name", n)
                continue
            k += 1
            ctx.check("kind", where, not structural(n, op), "only a structural op receives refs", n)
            site(ctx, "recorded", where, r, n, bound, ("obj",), True)
        ctx.minimum("recorded", where, k, 1, "executions of the op's function")
    r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode="run"), tag=("call", "run"))
    parse(ctx, r, "Storage.call[run]")
    ns = calls_to(r, "mandala.storage.Storage.call_internal")
    ctx.minimum("recorded", "Storage.call[run]", len(ns), 1, "calls of the recording engine")
    for n in ns:
        pa = parses(r)
        b = barg(r, n, "bound_arguments")
        ctx.check("recorded", "Storage.call[run]", any(b is mk("sub", p.d["result"], const(0)) for p in pa), "the recording route executes the function on the call's bound arguments", n)
        s = barg(r, n, "storage_inputs")
        ctx.check("recorded", "Storage.call[run]", any(s is mk("sub", p.d["result"], const(1)) for p in pa), "what is recorded are this call's inputs", n)


def structural(n, op):
    return any(p and c is mk("op", "truth", mk("attr", op, "__structural__")) or p and c is mk("attr", op, "__structural__") for c, p in n.facts)


def parses(r):
    return calls_to(r, "mandala.storage.Storage.parse_args")


def parse(ctx, r, where):
    """the arguments parsed are the ones passed, against the signature of this op's function"""
    ns = parses(r)
    ctx.minimum("bound", where, len(ns), 1, "argument parses")
    f = mk("attr", r.P["op"], "f")
    for n in ns:
        sig = barg(r, n, "sig")
        ctx.check("bound", where, is_call(sig, "inspect.signature") and cargs(sig)[0] is f, "arguments are bound to the signature of the op's function", n)
        ctx.check("bound", where, barg(r, n, "args") is r.P["args"] and barg(r, n, "kwargs") is r.P["kwargs"], "the arguments bound are the ones passed", n)
        ctx.check("bound", where, is_const(barg(r, n, "apply_defaults"), True), "defaults of arguments not passed are filled in", n)


def noop(ctx):
    opq = op_names("boundargs_to_args_kwargs", "parse_args", "unwrap", "call_internal", "save_call", "from_annotation")
    r = ctx.run("Storage", "call", opaque=opq, attrs_=attrs(mode="noop"), tag=("c04", "noop"))
    where = "Storage.call[noop]"
    parse(ctx, r, where)
    ns = exec_sites(r, r.P["op"])
    ctx.minimum("noop", where, len(ns), 1, "executions of the op's function")
    for n in ns:
        b = next((mk("sub", p.d["result"], const(0)) for p in parses(r)), NONE)
        site(ctx, "noop", where, r, n, b, ("obj", "value"), True)
    for n, s, v in r.ends:
        ctx.check("noop", where, any(v is m.d["result"] for m in ns), "the result is what the function returned", n)


def outside(ctx):
    opq = op_names("boundargs_to_args_kwargs", "Storage.call", base=std_opaque)
    r = ctx.run("Op", "__call__", opaque=opq, tag=("c04",))
    where = "Op.__call__ outside a storage"
    ns = exec_sites(r, r.P["self"])
    ctx.minimum("outside", where, len(ns), 1, "executions of the op's function")
    f = mk("attr", r.P["self"], "f")
    for n in ns:
        bound = None
        for t in [x for _, e in n.d["extra"] for x in subterms(r.snap(n, e))]:
            if is_call(t, ".bind") or t.op == "call" and t.args[0] == ".bind":
                bound = t
        if not ctx.check("outside", where, bound is not None, "the arguments are bound to the function's signature", n):
            continue
        sg = cargs(bound)[0]
        ctx.check("bound", where, is_call(sg, "inspect.signature") and cargs(sg)[0] in (f, fieldof(r, r.P["self"], "f")), "arguments are bound to the signature of the op's function", n)
        st = [a for a in bound.args[1:] if isinstance(a, T)]
        ctx.check("bound", where, contains(bound, lambda t: t is r.P["args"]) is not None and contains(bound, lambda t: t is r.P["kwargs"]) is not None, "the arguments bound are the ones passed", n)
        ad = [m.id for m in r.nodes if m.kind == "mut" and m.d["target"] is bound and m.d["how"] == "apply_defaults" or m.kind == "call" and (m.d["name"] or "").endswith(".apply_defaults")]
        p = r.path([r.it.entry.id], [n.id], avoid=ad)
        ctx.check("bound", where, p is None, "defaults of arguments not passed are filled in", n, show_path(p))
        site(ctx, "outside", where, r, n, bound, ("obj", "value"), False)
    # the two routes are told apart by whether there is a current storage
    cs = calls_to(r, "mandala.storage.Storage.call")
    ctx.minimum("route", "Op.__call__", len(cs), 1, "calls handed to the storage")
    for n in cs:
        ctx.check("route", "Op.__call__", barg(r, n, "op", "__op__") is r.P["self"] and is_copy(r, n, barg(r, n, "args"), r.P["args"]) and is_copy(r, n, barg(r, n, "kwargs"), r.P["kwargs"]),
                  "inside a storage's context the call is handed to it as it was made", n)


def splitting(ctx):
    r = ctx.run(None, SPLIT, wiring=False)
    where = "boundargs_to_args_kwargs"
    b = r.P["bound_args"]
    sp = mk("attr", mk("attr", b, "signature"), "parameters")
    ba = mk("attr", b, "arguments")
    direct = [n for n, s, v in r.ends if v.op == "tuple" and v.args == (mk("attr", b, "args"), mk("attr", b, "kwargs"))]
    if len(direct) == len(r.ends) and direct:
        for n in direct:
            ctx.ok("split", where, "the arguments are split by inspect itself", n)
        return
    heads = [n for n in r.nodes if n.kind == "loop" and sp in loop_bases(r, n)]
    if not ctx.check("split", where, len(heads) >= 1, "every parameter of the signature is considered", r.it.entry):
        return
    K, Pm = mk("key", sp), mk("val", sp)
    A = mk("sub", ba, K)
    kind = mk("attr", Pm, "kind")
    KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")

    def names(c):
        return {str(x.args[-1]).split(".")[-1] for x in subterms(c) for y in x.args if isinstance(y, str)} | \
               {str(y).split(".")[-1] for x in subterms(c) for y in x.args if isinstance(y, str)}

    def decides(c, k):
        """True/False if condition c on the parameter's kind is decided by it being k; None if it says nothing"""
        if contains(c, lambda t: t is kind) is None:
            return None
        if c.op == "op" and c.args[0] in ("eq", "is", "in"):
            return k in names(c)
        if c.op == "op" and c.args[0] in ("or", "and", "not"):
            vs = [decides(x, k) for x in c.args[1:]]
            if c.args[0] == "not":
                return None if vs[0] is None else not vs[0]
            end = c.args[0] == "or"
            return end if end in vs else None if None in vs else not end
        return None

    starts = [n.id for n in r.nodes if n.kind == "iter" and n.d["head"] in {h.id for h in heads}]

    def reachable(k, val, part):
        """some addition of val (or of its elements) to a result is made for a parameter of kind k"""
        bad = {n.id for n in r.nodes if n.kind == "assume" and decides(n.cond, k) is not None and decides(n.cond, k) != n.pol}
        adds = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in (("append", "extend", "iadd"), ("setitem", "update"))[part]]
        mine = [n.id for n in adds if n.d["how"] in ("append", "setitem") and val in [r.snap(n, x) for x in list(n.d["args"]) + [n.d["value"]] if x is not None]
                or n.d["how"] not in ("append", "setitem") and val.op in ("elem", "val") and val.args[0] in [r.snap(n, x) for x in list(n.d["args"]) + [n.d["value"]] if x is not None]]
        return not mine or r.path([s for s in starts if s not in bad], mine, avoid=bad) is not None

    for n, s, v in r.ends:
        if not ctx.check("split", where, v.op == "tuple" and len(v.args) == 2, "the result is the positional and the keyword arguments", n):
            return
        for part in (0, 1):
            covs = coverage(r.it.snap(s, v.args[part]))
            for k in KINDS:
                act = [c for c in covs if all(decides(g, k) in (None, p) for g, p in c.guards) and reachable(k, c.val, part)]
                if (k in KINDS[:3]) != (part == 0):
                    ctx.check("split", where, not act, f"a {k} argument is not passed among the {'positional' if part == 0 else 'keyword'} ones", n)
                    continue
                ok = len(act) == 1
                for c in act:
                    ok &= bool(c.bases) and all(decides(g, k) is not None for g, p in c.guards)
                    if not ok:
                        break
                    if k.startswith("VAR"):
                        many = c.bases[-1] if len(c.bases) == 2 else None
                        ok &= c.bases[0] is sp and many is not None and is_val(many, A, ba, K) and c.val in (mk("elem", many), mk("val", many))
                        ok &= part == 0 or c.key is mk("key", many)
                    else:
                        ok &= c.bases == (sp,) and is_val(c.val, A, ba, K) and (part == 0 or c.key is K)
                ctx.check("split", where, ok, f"a {k} argument is passed where it belongs, under its name or in its place", n)
    for n in r.nodes:
        if n.kind == "mut" and n.d["how"] in ("insert", "sort", "reverse", "pop", "remove", "clear"):
            ctx.bad("split", where, "arguments keep their order", n)
    for h in heads:
        for n in r.nodes:
            if n.kind in ("break", "loopret") and n.d["head"] == h.id:
                ctx.bad("split", where, "every parameter of the signature is considered", n)


def is_val(x, A, ba, K):
    return all(y is A or y is mk("val", ba) for y in alts(x))


RECURSE = "mandala.model.recurse_on_ref_collections"
NEST = {"list": "list", "ListRef": "list", "tuple": "tuple", "set": "set", "dict": "dict", "DictRef": "dict", "RefCollection": "ValueCollection"}


def unwrapping(ctx):
    where = "recurse_on_ref_collections"
    obj, f = mk("param", "obj"), mk("param", "f")

    def again(t, *xs):
        """t is the recursive call on one of xs"""
        return is_call(t) and t.args[0] == RECURSE and cargs(t)[0] is f and cargs(t)[1] in xs

    for cls in ("AtomRef", *NEST, "int"):
        r = instance(ctx, None, RECURSE, "obj", cls, wiring=False)
        ctx.minimum("nested", f"{where}({cls})", len(r.ends), 1, "results")
        for n, s, v in r.ends:
            x = r.it.snap(s, v)
            if cls == "AtomRef":
                ctx.check("nested", where, is_call(x, "apply") and cargs(x)[0] is f and cargs(x)[1] is obj, "an atom is unwrapped", n)
                continue
            if cls == "int":
                ctx.check("nested", where, x is obj, "a plain value is passed as it is", n)
                continue
            base, kind = obj, NEST[cls]
            got = layers(x)
            ok = got == {kind} or kind in ("tuple", "set") and got == {kind, "list"}
            if kind == "ValueCollection":
                ok = x.op == "new" and x.args[0] == kind
                x = dict(x.args[1:]).get("values", NONE) if ok else x
                base = mk("attr", obj, "refs")
            cv = coverage(x)
            if cls in ctx.prog.classes and any(c.bases == (mk("attr", obj, "obj"),) for c in cv):
                base = mk("attr", obj, "obj")
            tot = total(cv, (base,))
            ok &= tot is not None and all(again(vv, mk("elem", base), mk("val", base)) and (kind != "dict" or k is mk("key", base)) for k, vv, _ in tot)
            ctx.check("nested", where, ok, f"a {cls} is taken over whole: a {kind} with every element unwrapped in its place", n)
    # (b) the storage's unwrapping
    r = ctx.run("Storage", "unwrap", opaque=op_names("recurse_on_ref_collections"), tag="c04u")
    where = "Storage.unwrap"
    for n, s, v in r.ends:
        x = r.it.snap(s, v)
        ok = is_call(x) and x.args[0] == RECURSE and cargs(x)[1] is r.P["obj"] and contains(cargs(x)[0], lambda t: "_unwrap_atom" in str(t.args[:2])) is not None
        ctx.check("atoms", where, ok, "unwrapping takes every atom inside the object out of its ref", n)
    r = ctx.run("Storage", "_unwrap_atom", opaque=op_names("load_ref"), tag="c04u")
    where = "Storage._unwrap_atom"
    o = r.P["obj"]
    mem = mk("attr", o, "in_memory")
    for n, s, v in r.ends:
        for a, dec in picked(r, v):
            dec = set(dec) | set(s.facts)
            if a is mk("attr", o, "obj"):
                ctx.check("atoms", where, any(p and c in (mem, mk("op", "truth", mem)) for c, p in dec), "the value of a ref is its object when it holds one", n)
                continue
            src = a.args[0] if a.op == "attr" and a.args[1] == "obj" else NONE
            ok = is_call(src) and short(src.args[0]) == "load_ref"
            ctx.check("atoms", where, ok and contains(src, lambda t: t is mk("attr", o, "hid")) is not None, f"otherwise it is the object loaded for this ref (here {show(a, 3)})", n)
            if ok:
                m = next((m for m in calls_to(r, "load_ref") if m.d["result"] is src), None)
                ctx.check("atoms", where, m is not None and barg(r, m, "hid") is mk("attr", o, "hid") and is_const(given(ctx, r, m, "in_memory"), False), "the object itself is loaded", n)


def layers(x):
    """the kinds of collections a comprehension is built and copied into"""
    out = set()
    while x.op == "call" and x.args[0] in WRAP and cargs(x):
        out.add(x.args[0])
        x = cargs(x)[0]
    if x.op == "items":
        out.add(str(x.args[0]))
    return out
