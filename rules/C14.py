"""Outputs: split, named, recorded and handed back in the order the function returned them."""
from .common import *

EXPLANATION = (
    "Value-flow analysis of the functions between what an op's function returned and what the caller gets. For every declared number of outputs and "
    "every shape of the returned value, the split must range over the whole returned tuple (or the single value), pair the i-th value with the name of "
    "output i and its annotation with the same name; a fixed number of outputs is compared with the number returned. Names are a function of the "
    "index that is one-to-one; the order in which outputs are handed back is that of the index; one output is handed back by itself, several as "
    "the tuple. Names given to variadic arguments are decided to differ from every output's name."
)
ASSUMPTIONS = ["the names given to an op's outputs are different from each other"]
PR = op_names("dump_output_name", "parse_output_name", base=lambda f: False)
DUMP = "mandala.utils.dump_output_name"


def check(ctx):
    split(ctx)
    naming(ctx)
    ordered(ctx)
    returned(ctx)
    recorded(ctx)
    apart(ctx)


CASES = {"auto, a tuple": ("auto", True), "auto, one value": ("auto", False), "var": ("var", True), "a number": (None, True)}
ANN = ("none", "tuple of any length", "tuple", "single")


def presets(what, how):
    """facts that select one case"""
    nout, tup = CASES[what]
    P, A = lambda n: mk("param", n), lambda b, n: mk("attr", b, n)
    ra = A(P("sig"), "return_annotation")
    args = A(ra, "__args__")
    f = {(mk("op", "isinstance", P("returns"), mk("builtin", "tuple")), tup)}

    def eq(a, b, pol):
        for o in ("eq", "is"):
            f.update(((mk("op", o, a, b), pol), (mk("op", o, b, a), pol)))
    if nout is None:
        f.add((mk("op", "isinstance", P("nout"), mk("builtin", "int")), True))
        for w in ("auto", "var"):
            eq(P("nout"), const(w), False)
    for e in (mk("ext", "inspect._empty"), mk("ext", "inspect.Signature.empty"), mk("attr", P("sig"), "empty")):
        eq(ra, e, how == "none")
    if how != "none":
        tp = how.startswith("tuple")
        f.add((mk("op", "hasattr", ra, const("__origin__")), tp))
        f.add((mk("call", "hasattr", ra, const("__origin__")), tp))
        eq(A(ra, "__origin__"), mk("builtin", "tuple"), tp)
        for e in (mk("builtin", "Ellipsis"), mk("ext", "Ellipsis"), const(...)):
            eq(mk("sub", args, const(1)), e, how == "tuple of any length")
        if how == "tuple of any length":
            eq(mk("call", "len", args), const(2), True)
    return nout, tup, f


def split(ctx):
    for what in CASES:
        for how in ANN:
            nout, tup, facts = presets(what, how)
            if how == "single" and what == "a number":
                facts = facts | {(mk("op", "eq", *o), True) for o in ((mk("param", "nout"), const(1)), (const(1), mk("param", "nout")))}
            split_case(ctx, what, how, nout, tup, facts)


def split_case(ctx, what, how, nout, tup, facts):
    def setup(it, st):
        st.facts = st.facts | facts
    r = ctx.run(None, "mandala.utils.parse_returns", opaque=PR, wiring=False, setup=setup, params={"nout": const(nout)} if nout else {}, tag=("c14", what, how))
    where = f"parse_returns[{what}; annotation: {how}]"
    P = r.P
    ret, sig, names = P["returns"], P["sig"], P["output_names"]
    ra = mk("attr", sig, "return_annotation")
    ctx.minimum("split", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        for t in alts(v):
            if not ctx.check("split", where, t.op == "tuple" and len(t.args) == 2, "the result is outputs and annotations", n):
                continue
            outs = r.it.snap(s, t.args[0])
            covs = coverage(outs)
            zipped = outs.op == "items" and all(len(x.args[2]) == 1 and is_call(x.args[2][0], "zip") for x in outs.args[1:])
            ctx.check("split", where, len(covs) == 1 and not unmet(covs[0], facts), "every value returned is an output", n)
            for c in covs:
                i = named(c.key, names)
                ctx.check("split", where, i is not None, "an output has the name of its position", n)
                if tup:
                    ok = i is not None and i.op == "index" and c.val in (mk("sub", ret, i), mk("elem", ret), mk("val", ret)) and \
                        (i.args[0] is ret or (c.val is mk("sub", ret, i) or zipped) and counts(i.args[0], ret, P["nout"]))
                    ctx.check("split", where, ok, "the i-th output is the i-th value returned", n)
                    ctx.check("split", where, bool(c.bases) and all(counts(b, ret, P["nout"]) for b in c.bases), "every value returned is an output", n)
                else:
                    ctx.check("split", where, c.val is ret and (i is not None and (is_const(i, 0) or i.op == "index" and one(i.args[0]))) and
                              (not c.bases or all(one(b) for b in c.bases)), "a single value is the only output", n)
            for a in alts(t.args[1]):
                annotations(ctx, r, where, how, n, s, a, covs, ra, facts)
    if nout is None:
        eq = decisions(r, lambda c: c.op == "op" and c.args[0] == "eq" and {c.args[1], c.args[2]} == {P["nout"], mk("call", "len", ret)}, True)
        if how == "single":
            eq += decisions(r, lambda c: c.op == "op" and c.args[0] == "eq" and {c.args[1], c.args[2]} == {const(1), mk("call", "len", ret)}, True)
        p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=eq)
        ctx.check("split", where, p is None, "a declared number of outputs is the number returned", r.it.entry, show_path(p))


def unmet(c, facts):
    return [g for g in c.guards if g not in facts and not (isinstance(g, tuple) and g in facts)]


def named(k, names, none=None):
    """the index whose output name k is"""
    if k is not None and is_call(k, DUMP):
        a = [x.args[1] if x.op == "kw" else x for x in cargs(k)]
        if len(a) == 2 and a[1] is names or names is None and (len(a) == 1 or a[1] in (NONE, none)):
            return a[0]
    return None


def counts(t, ret, nout):
    """t counts the values returned"""
    if is_call(t, "range") and len(cargs(t)) == 1:
        return all(x is mk("call", "len", ret) or x is nout or is_call(x, "len") and counts(cargs(x)[0], ret, nout) for x in alts(cargs(t)[0]))
    if is_call(t, "list", "tuple", "enumerate", ".keys", ".values", ".items") and len(cargs(t)) == 1:
        return counts(cargs(t)[0], ret, nout)
    if is_call(t, "zip"):
        return all(counts(x, ret, nout) for x in cargs(t))
    if t.op == "items" and t.args[0] == "list":
        cs = coverage(t)
        return len(cs) == 1 and not cs[0].guards and bool(cs[0].bases) and all(counts(b, ret, nout) for b in cs[0].bases)
    return t is ret


def one(t):
    return is_call(t, "range") and len(cargs(t)) == 1 and is_const(cargs(t)[0], 1) or t.op == "tuple" and len(t.args) == 1


def annotations(ctx, r, where, how, n, s, a, ocovs, ra, facts):
    args = mk("attr", ra, "__args__")
    covs = coverage(r.it.snap(s, a))
    keys = {c.key for c in ocovs}
    ctx.check("annotated", where, bool(covs) and not any(unmet(c, facts) for c in covs), "every output has an annotation", n)
    ctx.check("annotated", where, len(covs) == len(ocovs) and {c.key for c in covs} == keys, "annotations are given under the names of the outputs", n)
    for c in covs:
        if how == "none":
            ctx.check("annotated", where, c.val.op in ("ext", "global", "attr") and "Any" in str(c.val.args), "without an annotation, outputs are atoms", n)
        elif how == "single":
            ctx.check("annotated", where, c.val is ra, "a single output has the function's return annotation", n)
        else:
            i = c.val.args[1] if c.val.op == "sub" and c.val.args[0] is args else None
            if how == "tuple of any length":
                ok = i is not None and is_const(i, 0)
            else:
                pos = {named(k, r.P["output_names"]) for k in keys}
                ok = c.val is mk("elem", args) or i is not None and (i in pos or i.op == "index" and in_order(i.args[0], keys))
            ctx.check("annotated", where, ok, "an output has the annotation of its position", n)


def in_order(t, keys):
    """the positions of t are those of the outputs"""
    while is_call(t, ".keys", ".items", "list", "tuple", "iter", ".values") and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t.op == "items" and t.args[0] in ("dict", "list") and {c.key if c.key is not None else c.val for c in coverage(t)} == keys


def naming(ctx):
    where = "dump_output_name"
    for case, none, pos in (("no names", True, None), ("a name for this position", False, True), ("no name for this position", False, False)):
        def setup(it, st):
            on, ln = mk("param", "output_names"), mk("call", "len", mk("param", "output_names"))
            st.facts = st.facts | {(mk("op", "isnone", on), none), (mk("op", "truth", on), not none)}
            if pos is not None:
                st.facts = st.facts | {(mk("op", "lt", mk("param", "index"), ln), pos), (mk("op", "gt", ln, mk("param", "index")), pos),
                                       (mk("op", "ge", mk("param", "index"), ln), not pos), (mk("op", "le", ln, mk("param", "index")), not pos)}
        r = ctx.run(None, DUMP, wiring=False, setup=setup, params={"output_names": NONE} if none else {}, tag=("c14", case))
        i, names = mk("param", "index"), mk("param", "output_names")
        ctx.minimum("named", f"{where}[{case}]", len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(v):
                if pos:
                    ctx.check("named", f"{where}[{case}]", a is mk("sub", names, i), f"a name given is taken when there is one for this position (here {show(a, 4)})", n)
                else:
                    ctx.check("named", f"{where}[{case}]", made_name(a, i), f"an output without a name of its own is named by its position (here {show(a, 4)})", n)
    r = ctx.run(None, "mandala.utils.parse_output_name", wiring=False)
    nm = r.P["name"]
    for n, s, v in r.ends:
        ok = is_call(v, "int") and last_part(cargs(v)[0], nm)
        ctx.check("named", "parse_output_name", ok, "the position is read back from the end of the name", n)


def made_name(a, i):
    return a.op == "fstr" and len(a.args) == 2 and is_const(a.args[0]) and str(a.args[0].args[0]).endswith("_") and a.args[-1] is i


def last_part(t, nm):
    if t.op != "sub" or t.args[1].op != "const":
        return False
    c, i = t.args[0], t.args[1].args[0]
    if not is_call(c, ".split", ".rsplit", ".rpartition") or cargs(c)[0] is not nm or not is_const(cargs(c)[1], "_"):
        return False
    if i == -1:
        return True
    return is_call(c, ".rpartition") and i == 2 or is_call(c, ".rsplit") and i == 1 and len(cargs(c)) == 3 and is_const(cargs(c)[2], 1)


def ordered(ctx):
    for named_ in (True, False):
        def setup(it, st):
            t = mk("attr", mk("param", "self"), "output_names")
            st.facts = st.facts | {(mk("op", "isnone", t), not named_)}
        r = ctx.run("Op", "get_ordered_outputs", opaque=PR, wiring=False, setup=setup, tag=("c14", named_))
        where = f"Op.get_ordered_outputs[{'named' if named_ else 'unnamed'}]"
        od, names = r.P["output_dict"], mk("attr", r.P["self"], "output_names")
        ctx.minimum("ordered", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for a in alts(r.it.snap(s, v)):
                lay = strip(a, {"tuple", "list"})
                covs = coverage(lay)
                ctx.check("ordered", where, len(covs) == 1 and not covs[0].guards and lay.op == "items" and lay.args[0] == "list", "every output is handed back", n)
                for c in covs:
                    ctx.check("ordered", where, len(c.bases) == 1 and counts(c.bases[0], od, None), "every output is handed back, in the order of positions", n)
                    ctx.check("ordered", where, by_position(c.val, od, names if named_ else None, names), f"the i-th value handed back is the i-th output (here {show(c.val, 4)})", n)


def by_position(t, od, names, attr):
    if t.op != "sub":
        return False
    i = named(t.args[1], names, attr)
    if t.args[0] is od and i is not None and i.op == "index":
        return i.args[0] is od or counts(i.args[0], od, None)
    if t.args[1].op == "index" and (t.args[1].args[0] is od or counts(t.args[1].args[0], od, None)):
        d = t.args[0]
        cs = coverage(d)
        return len(cs) == 1 and cs[0].bases == (od,) and not cs[0].guards and cs[0].val in (mk("val", od), mk("sub", od, mk("key", od))) and \
            is_call(cs[0].key) and short(cs[0].key.args[0]) == "parse_output_name" and mk("key", od) in [x.args[1] if x.op == "kw" else x for x in cargs(cs[0].key)]
    return False


def returned(ctx):
    r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode="run"), tag=("call", "run"))
    where = "Storage.call"
    go = calls_to(r, "mandala.model.Op.get_ordered_outputs")
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    ctx.minimum("returned", where, len(go), 1, "orderings of the outputs")
    for n in go:
        o = barg(r, n, "output_dict")
        ok = any(o in (mk("sub", c.d["result"], const(0)), mk("attr", mk("sub", c.d["result"], const(1)), "outputs")) for c in ci)
        ctx.check("returned", where, ok and r.snap(n, n.d["recv"]) is r.P["op"], "what is ordered are the outputs of this call, by this op", n)
    res = {n.d["result"] for n in go}
    for n, s, v in r.ends:
        for a, dec in picked(r, v):
            dec = set(dec) | set(s.facts)
            if a in res:
                ok = any(not p and single(c, a) for c, p in dec)
                ctx.check("returned", where, ok, "several outputs are handed back as the tuple", n)
            else:
                ok = a.op == "sub" and a.args[0] in res and is_const(a.args[1], 0)
                ctx.check("returned", where, ok and any(p and single(c, a.args[0]) for c, p in dec), f"a single output is handed back by itself (here {show(a, 3)})", n)


def single(c, o):
    ln = mk("call", "len", o)
    return c.op == "op" and c.args[0] == "eq" and set(c.args[1:]) == {ln, const(1)}


def apart(ctx):
    from .C03 import PA

    def setup(it, st):
        st.facts = st.facts | {(mk("op", "isnone", mk("param", "output_names")), False)}
    r = ctx.run("Storage", "parse_args", opaque=PA, setup=setup, tag=("c14",))
    where = "Storage.parse_args"
    on = r.P.get("output_names")
    if not ctx.check("apart", where, on is not None, "the split of the arguments knows the names of the outputs", r.it.entry):
        return
    k = 0
    stores = {v.args[1] for n, s, v in r.ends for v in alts(v) if v.op == "tuple" and len(v.args) == 3}
    made = None
    rr = ctx.run(None, DUMP, wiring=False)
    for n, s, v in rr.ends:
        for a in alts(v):
            if a.op == "fstr" and is_const(a.args[0]):
                made = a.args[0].args[0]
    for n in r.nodes:
        if n.kind != "mut" or n.d["target"] not in stores or n.d["key"] is None:
            continue
        for a, dec in picked(r, r.snap(n, n.d["key"])):
            dec = implied(r, set(dec) | set(n.facts))
            pre = a.args[0].args[0] if a.op == "fstr" and is_const(a.args[0]) else ""
            if a.op == "key" and a.args[0].op == "attr" and a.args[0].args[1] == "arguments":
                continue    # a parameter's own name: decided when the op is made
            if (const(False), True) in dec:
                continue
            k += 1
            if pre and not (pre[0].isalnum() or pre[0] == "_"):
                ctx.ok("apart", where, "a marked name is no output's name", n)
                continue
            own = any(not p and c.op == "op" and c.args[0] == "in" and c.args[1] is a and on in set(subterms(c.args[2])) for c, p in dec)
            gen = any(not p and is_call(t, ".startswith") and cargs(t)[0] is a and is_const(cargs(t)[1]) and str(made).startswith(str(cargs(t)[1].args[0]))
                      for c, p in dec for t in subterms(c))
            ctx.check("apart", where, own and gen, f"a variadic argument does not take an output's name (here {show(a, 3)})", n)
    ctx.minimum("apart", where, k, 2, "names made for variadic arguments")
    r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode="run"), tag=("call", "run"))
    for n in calls_to(r, "mandala.storage.Storage.parse_args"):
        ctx.check("apart", "Storage.call", barg(r, n, "output_names") is mk("attr", r.P["op"], "output_names"), "the names are those of the op's own outputs", n)
    # parameters: an op whose parameters could take an output's name is refused
    for given in (True, False):
        def setup(it, st, given=given):
            st.facts = st.facts | {(mk("op", "isnone", mk("param", "output_names")), not given), (mk("op", "isnone", mk("param", "f")), False)}
        r = ctx.run("Op", "__init__", setup=setup, asserts="raise", tag=("c14", given))
        where = "Op.__init__"
        P = r.P
        pars = mk("attr", mk("call", "inspect.signature", P["f"]), "parameters")

        def par(t):
            """every parameter's name"""
            return contains(t, lambda u: u is mk("key", pars) or u is mk("elem", pars) or u is mk("attr", mk("val", pars), "name")) is not None

        def refuses(c):
            for t in subterms(c):
                if given and t.op == "op" and t.args[0] in ("in", "bitand") and any(par(x) and not part(x) for x in t.args[1:]) and any(P["output_names"] in set(subterms(x)) and not part(x) for x in t.args[1:]):
                    return True
                if given and is_call(t, ".isdisjoint", ".intersection") and any(par(x) for x in cargs(t)) and any(P["output_names"] in set(subterms(x)) for x in cargs(t)):
                    return True
                if not given and is_call(t, ".startswith") and is_const(cargs(t)[1]) and str(made).startswith(str(cargs(t)[1].args[0])) and par(cargs(t)[0]):
                    return True
            return False

        def whole(c):
            """the decision looks at every parameter"""
            return not part(c)
        dec = [n.id for n in r.nodes if n.kind == "assume" and refuses(r.snap(n, n.cond)) and whole(r.snap(n, n.cond))]
        # a loop over all parameters that takes the decision for each of them
        for l in r.nodes:
            if l.kind == "loop" and whole(r.snap(l, l.d["siter"]) if l.d.get("siter") is not None else NONE) and pars in loop_bases(r, l):
                heads = [n.id for n in r.nodes if n.kind == "iter" and l.id in n.preds]
                inside = [d for d in dec if any(d in r.reach([h]) for h in heads)]
                left = [n for n in r.nodes if n.kind in ("break", "loopret") and n.d["head"] == l.id]
                backs = [x for x in r.nodes[l.id].preds if x >= l.id]
                if inside and not left and r.path(heads, backs, avoid=inside) is None:
                    dec += [n.id for n in r.nodes if n.kind == "endloop" and l.id in n.preds]
        p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=dec)
        ctx.check("apart", where, bool(dec) and p is None, "an op whose parameters could have an output's name is refused", r.it.entry, show_path(p))


def part(t):
    """t looks at a slice of something only"""
    return contains(t, lambda u: u.op == "slice" or u.op == "sub" and u.args[1].op == "slice") is not None


def recorded(ctx):
    """the call recorded has every output under its own name"""
    for v in (False, True):
        r = internal(ctx, v)
        where = f"call_internal[versioned={v}]"
        pr = calls_to(r, "mandala.utils.parse_returns")
        base = {mk("sub", x.d["result"], const(0)) for x in pr}
        made = [n for n in r.nodes if n.kind == "new" and n.d["cls"] == "Call"]
        ctx.minimum("recorded", where, len(made), 1, "records made of a new call")
        for n in made:
            o = n.d["kwargs"].get("outputs")
            covs = coverage(r.snap(n, o)) if o is not None else []
            b = covs[0].bases if covs else ()
            ctx.check("recorded", where, len(b) == 1 and b[0] in base and total(covs, b) is not None, "every output is recorded", n)
            for c in covs:
                ctx.check("recorded", where, bool(b) and c.key is mk("key", b[0]), f"an output is recorded under its own name (here {show(c.key, 3) if c.key is not None else None})", n)
                ctx.check("recorded", where, bool(b) and contains(c.val, lambda t: t is mk("val", b[0])) is not None, "what is recorded under a name is the output of that name", n)
        for x in pr:
            for nm in ("nout", "output_names", "sig", "returns"):
                a = barg(r, x, nm)
                ok = a is mk("attr", r.P["op"], nm) if nm in ("nout", "output_names") else is_call(a, "inspect.signature") and contains(a, lambda t: t is mk("attr", r.P["op"], "f")) is not None if nm == "sig" \
                    else is_ran(r, a)
                ctx.check("recorded", where, ok, f"outputs are split by what the op declares ({nm})", x)


def is_ran(r, a):
    return any(a is n.d["result"] or any(x is n.d["result"] for x in alts(a)) for n in exec_sites(r, r.P["op"]))
