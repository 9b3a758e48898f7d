"""Call identity: what the key under which a call is stored and looked up is computed from."""
from .common import *

EXPLANATION = (
    "Value-flow analysis of the functions that compute, store and look up call identities. Every identity of a stored call and every "
    "identity used in a lookup is expanded to a term over the entry point's inputs; the rule requires the hash to be taken of a "
    "structure that injectively contains op name, op version, {argument name: argument identity} over all arguments (only explicitly "
    "ignored ones left out) and the semantic version, requires lookup and store to use the same key function, requires output "
    "identities to be hashes of (call identity, output name), and requires every bound argument to reach the storage inputs on every "
    "path that does not decide that the argument is ignored."
)
ASSUMPTIONS = ["joblib.hash is injective on the structures hashed", "inspect.Signature.bind binds every passed argument"]


def check(ctx):
    store_keys(ctx)
    key_functions(ctx)
    lookup_keys(ctx)
    output_ids(ctx)
    arguments(ctx)
    plumbing(ctx)


def store_keys(ctx):
    for versioned in (False, True):
        r = internal(ctx, versioned)
        P = r.P
        news = [n for n in r.find("new") if n.d["cls"] == "Call"]
        ctx.minimum("store-key", f"call_internal[versioned={versioned}]", len(news), 1, "constructions of a new call")
        for n in news:
            f = fields(ctx, r, n)
            where = f"Call built in {n.fn.name} [versioned={versioned}]"
            inp = f.get("inputs")
            covs = coverage(r.snap(n, inp))
            ok = bool(covs) and all(cv.bases == (P["storage_inputs"],) and not cv.guards and cv.key is mk("key", P["storage_inputs"])
                                    for cv in covs)
            ctx.check("store-inputs", where, ok, "the call records an input for every storage input, under its name", n)
            sv = r.snap(n, f.get("semantic_version"))
            op = r.snap(n, f.get("op"))
            ctx.check("store-op", where, op is P["op"], "the call records the op that was called", n)
            for fld in ("hid", "cid"):
                key_parts(ctx, "store-key", where, n, r.snap(n, f[fld]), P["op"], fld, lambda b: b is P["storage_inputs"],
                          None if is_const(sv, None) or not versioned else None)
                if versioned:
                    structural_or_versioned(ctx, "store-key", where, n, r.snap(n, f[fld]), sv, fld)
        for b in broken_loops(r, P["storage_inputs"]):
            ctx.bad("store-inputs", f"loop in {b.fn.name}", "the loop over the arguments can be left early", b)


def structural_or_versioned(ctx, rule, where, node, key, sv, fld):
    """in a versioned storage: the key contains the semantic version the call records, whenever there is one"""
    s = {x for x in alts(sv) if not is_const(x, None)}
    if not s:
        return
    ks = alts(key)
    found = any(inj_some(k, lambda t: t in s or t is sv) for k in ks)
    ctx.check(rule, where, found, f"the {fld} key contains the semantic version the call records", node)


def inj_some(t, pred):
    """some alternative of t injectively contains it"""
    if pred(t):
        return True
    if t.op in ("phi", "tuple"):
        return any(inj_some(a, pred) for a in t.args)
    if t.op == "call" and cargs(t) and (t.args[0] in HASHES or t.args[0] in ("list", "tuple", "dict")):
        return inj_some(cargs(t)[0], pred)
    if t.op == "op" and t.args[0] == "add":
        return any(inj_some(a, pred) for a in t.args[1:])
    return False


def fields(ctx, r, n):
    """constructor arguments of a `new` node by field name"""
    fn = ctx.prog.classes[n.d["cls"]].find("__init__")
    out = {}
    for p, a in zip(fn.pos[1:], n.d["args"]):
        out[p] = a
    out.update(n.d["kwargs"])
    for p in fn.pos[1:] + fn.kwonly:
        out.setdefault(p, NONE)
    return out


def lookup_keys(ctx):
    """Op key methods called with and without a semantic version; the lookup uses the same functions on the same data"""
    prog = ctx.prog
    base = ctx.run("Storage", "lookup_call", opaque=LOOKUP, attrs_=attrs(), params={"must_version": const(True)}, tag="v1")
    plain = ctx.run("Storage", "lookup_call", opaque=LOOKUP, attrs_=attrs(), params={"must_version": const(False)}, tag="v0")
    for r, versioned in ((base, True), (plain, False)):
        P = r.P
        n_h = n_c = 0
        for n in r.find("call"):
            nm = short(n.d["name"])
            if not nm.startswith(("exists", "get_data", "mget_data")) or (n.d["name"] or "").find("CallStorage") < 0:
                continue
            content = "content" in nm
            fld = "cid" if content else "hid"
            args = [r.snap(n, a) for a in list(n.d["args"]) + list(n.d["kwargs"].values())]
            if not args:
                ctx.bad("lookup-key", f"{nm} in lookup_call", "no key is passed", n)
                continue
            key = args[0]
            if key.op == "items" and len(key.args) == 2:
                key = key.args[1].args[1]
            where = f"{n.d['name'].split('.')[-2]}.{nm} in {n.fn.name} [versioned={versioned}]"
            sv = None
            if versioned:
                lk = calls_to(r, "mandala.deps.versioner.Versioner.lookup_call")
                ctx.minimum("lookup-version", "lookup_call", len(lk), 1, "look-ups of the semantic version")
                sv = lk and mk("sub", lk[0].d["result"], const(1)) or None
            key_parts(ctx, "lookup-key", where, n, key, P["op"], fld, lambda b: b is P["inputs"], None)
            if versioned and sv is not None:
                ctx.check("lookup-key", where, any(inj_some(k, lambda t: t is sv or is_version_of(t, lk)) for k in alts(key)),
                          f"the {fld} key looked up contains the semantic version of the current code", n)
            n_c += content
            n_h += not content
        ctx.minimum("lookup-key", f"lookup_call[versioned={versioned}]", n_h, 1, "look-ups by history id")
        ctx.minimum("lookup-key", f"lookup_call[versioned={versioned}]", n_c, 1, "look-ups by content id")


def key_functions(ctx):
    """the two key functions on their own, without and with a semantic version (so that no alternative can hide another)"""
    for meth, fld in (("get_call_history_id", "hid"), ("get_call_content_id", "cid")):
        for sv in (NONE, mk("fstr", mk("param", "semantic_version"))):
            r = ctx.run("Op", meth, params={"semantic_version": sv}, tag=str(sv is NONE))
            where = f"Op.{meth} [{'without' if sv is NONE else 'with'} semantic version]"
            ctx.minimum("key", where, len(r.ends), 1, "results")
            for n, s, v in r.ends:
                key = r.it.snap(s, v)
                key_parts(ctx, "key", where, n, key, r.P["self"], fld, lambda b: b is r.P["inputs"], None if sv is NONE else sv)
            for b in broken_loops(r, r.P["inputs"]):
                ctx.bad("key", where, "the loop over the arguments can be left early", b)


def is_version_of(t, lk):
    """second component of the versioner's answer"""
    return t.op in ("sub", "elem") and any(t.args[0] is n.d["result"] for n in lk) and (t.op == "elem" or is_const(t.args[1], 1))


def output_ids(ctx):
    r = ctx.run("Op", "get_output_history_ids")
    P = r.P
    chid, names = P["call_history_id"], P["output_names"]
    for n, s, v in r.ends:
        for cv in coverage(r.it.snap(s, v)):
            e = mk("elem", names)
            a = hash_arg(cv.val)
            ctx.check("output-id", "Op.get_output_history_ids",
                      cv.bases == (names,) and not cv.guards and cv.key is e, "every output name gets an id", n)
            ctx.check("output-id", "Op.get_output_history_ids", a is not None and inj(a, lambda t: t is chid) and inj(a, lambda t: t is e),
                      "an output's id is a hash of the call's id and the output's name", n)
    for b in broken_loops(r, names):
        ctx.bad("output-id", "Op.get_output_history_ids", "the loop over the outputs can be left early", b)
    # call_internal: the outputs of a new call carry exactly these ids
    for versioned in (False, True):
        r = internal(ctx, versioned)
        for n in [n for n in r.find("new") if n.d["cls"] == "Call"]:
            f = fields(ctx, r, n)
            hid = r.snap(n, f["hid"])
            outs = r.snap(n, f["outputs"])
            where = f"outputs of the call built in {n.fn.name} [versioned={versioned}]"
            covs = coverage(outs)
            ctx.minimum("output-hid", where, len(covs), 1, "ways outputs are recorded")
            for cv in covs:
                hs = history_ids_given(cv.val)
                good = bool(hs) and all(output_key_ok(h, hid, cv.key) for h in hs)
                ctx.check("output-hid", where, good, "the recorded output carries the id hashed from (call id, output name)", n)


def history_ids_given(v):
    """history ids an output value is created with, per alternative; [] when some alternative gets none"""
    out = []
    for a in alts(v):
        h = given(a)
        if h is None:
            return []
        out.append(h)
    return out


def given(a):
    if a.op == "call":
        nm = short(a.args[0])
        kws = {x.args[0]: x.args[1] for x in cargs(a) if x.op == "kw"}
        pos = [x for x in cargs(a) if x.op not in ("kw", "star")]
        if nm in ("wrap_atom",):
            return kws.get("history_id") or (pos[1] if len(pos) > 1 else None)
        if nm == "destruct":
            x = kws.get("ref") or (pos[1] if len(pos) > 1 else None)
            return given(x) if x is not None else None
        if nm == "with_hid":
            return kws.get("hid") or (pos[1] if len(pos) > 1 else None)
    if a.op == "sub" and is_const(a.args[1], 0):
        return given(a.args[0])
    if a.op == "new":
        d = dict(a.args[1:])
        return d.get("hid")
    return None


def output_key_ok(h, hid, key):
    for x in alts(h):
        a = hash_arg(x)
        if a is None:
            return False
        if not all(inj(a, lambda t: t is y) or inj(a, lambda t: t is hid) for y in alts(hid)):
            return False
        ks = set(alts(key))
        if not inj(a, lambda t: t is key or t in ks):
            return False
    return True


def arguments(ctx):
    r = ctx.run("Storage", "parse_args", opaque=op_names("unwrap", "_conservative_equality_check"), tag="pa")
    P = r.P
    sig, ign = P["sig"], P["ignore_args"]
    where = "Storage.parse_args"
    binds = [t for n in r.nodes if n.kind == "loop" for t in subterms(n.d["siter"])
             if t.op == "attr" and t.args[1] == "arguments" and is_call(t.args[0], ".bind") and cargs(t.args[0])[0] is sig]
    if not ctx.minimum("argument-stored", where, len(set(binds)), 1, "loops over the bound arguments"):
        return
    base = binds[0]
    bound = base.args[0]
    stars = {x.args[0] for x in cargs(bound) if x.op == "star"}
    ctx.check("arguments-bound", where, P["args"] in stars and P["kwargs"] in stars, "all positional and keyword arguments are bound", ctx.prog.method("Storage", "parse_args"))
    outs = []
    for n, s, v in r.ends:
        t = v
        if t.op == "tuple" and len(t.args) == 3:
            outs.append((n, s, t.args[1]))
        else:
            ctx.bad("argument-stored", where, "the result is not (bound arguments, storage inputs, annotations)", n)
    loops = [n for n in r.nodes if n.kind == "loop" and loop_bases(r, n) & {base, mk("val", base)}]
    for n, s, d in outs:
        stores = [m for m in r.nodes if m.kind == "mut" and m.d["target"] is d]
        covs = coverage(r.it.snap(s, d))
        # (1) names
        for cv in covs:
            if not cv.bases:
                continue
            nested = len(set(cv.bases)) > 1
            k = cv.key
            named = k is not None and (inj(k, lambda t: t is mk("key", base)) or inj(k, lambda t: t is mk("key", mk("val", base))))
            distinct = not nested or k is not None and inj(k, lambda t: position(t) or t is mk("key", mk("val", base)))
            ctx.check("argument-name", where, named and distinct, "every argument is stored under a name of its own", n)
            src = contains(cv.val, lambda t: t in (mk("val", base),))
            ctx.check("argument-value", where, src is not None, "the value stored is the argument's", n)
        unique_names(ctx, r, where, stores, base, sig)
        # (2) every argument is stored unless it is decided to be ignored
        store_ids = [m.id for m in stores]
        legit = [m.id for m in r.nodes if m.kind == "assume" and ignoring(r, m, ign)]
        heads = loops
        inner = {}
        for l in heads:
            its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
            body = set()
            for i in its:
                body |= r.reach([i], avoid=[l.id])
            end = [m.id for m in r.nodes if m.kind == "endloop" and m.d["head"] == l.id]
            after = r.reach(end)
            inner[l.id] = (its, (body - after) | (body & set(store_ids)))
        storing = [l for l in heads if inner[l.id][1] & set(store_ids)]
        ctx.minimum("argument-stored", where, len(storing), 1, "loops that store arguments")
        for l in storing:
            sub = [x.id for x in storing if x.id != l.id and x.id in inner[l.id][1]]
            backs = [p for p in r.nodes[l.id].preds if p >= l.id]
            p = r.path(inner[l.id][0], backs, avoid=set(store_ids) | set(legit) | set(sub))
            ctx.check("argument-stored", f"{where} loop over {show(l.d['siter'], 3)}", p is None,
                      "every argument is stored unless it is explicitly ignored", l, show_path(p))
            for b in r.nodes:
                if b.kind in ("break", "loopret") and b.d["head"] == l.id:
                    ctx.bad("argument-stored", f"{where} loop", "the loop over the arguments can be left early", b)
        if not any(base in loop_bases(r, l) for l in storing):
            ctx.bad("argument-stored", where, "regular arguments are never stored", n)
    # defaults are applied before the arguments are read
    first = [l.id for l in loops]
    dn = [m for m in calls_to(r, ".apply_defaults", "apply_defaults")]
    ctx.minimum("defaults-applied", where, len(dn), 1, "applications of the defaults")
    ap = P["apply_defaults"]
    avoid = [m.id for m in dn] + [m.id for m in r.nodes if m.kind == "assume" and contains(m.d["cond"], lambda t: t is ap) and not m.d["pol"]]
    p = r.path([r.it.entry.id], first, avoid=avoid)
    ctx.check("defaults-applied", where, p is None, "defaults are applied before the arguments are collected", dn[0] if dn else None, show_path(p))


def unique_names(ctx, r, where, stores, base, sig):
    """no two arguments of a call, nor of two calls, share a name: variadic values get names no parameter can have where they would"""
    pars = mk("attr", sig, "parameters")
    marks = {}
    for n in stores:
        if n.d["key"] is None:
            continue
        for a, dec in picked(r, n.d["key"]):
            facts = set(dec) | set(n.facts)
            src = [t for t in subterms(a) if t is mk("key", mk("val", base))]
            kind = "keyword" if src else "positional" if contains(a, position) is not None else None
            if kind is None:
                continue
            raw = (a if a.op != "fstr" else None) if kind == "keyword" else (a if a.op == "fstr" and a.args[0].op != "const" else None)
            if raw is None:
                pre = a.args[0].args[0] if a.op == "fstr" and is_const(a.args[0]) and isinstance(a.args[0].args[0], str) else ""
                ctx.check("argument-name-own", where, pre != "" and not (pre[0].isalnum() or pre[0] == "_"), f"the name of a variadic {kind} argument is marked so that no parameter can have it", n)
                marks.setdefault(kind, set()).add(pre)
                continue
            marks.setdefault(kind, set())
            free = any(c.op == "op" and c.args[0] == "in" and c.args[1] is raw and c.args[2] in (pars, mk("call", ".keys", pars)) and not p for c, p in facts)
            ctx.check("argument-name-own", where, free, f"a variadic {kind} argument does not take the name of a parameter", n)
            if kind == "keyword":
                st = [(c, p) for c, p in facts if contains(c, lambda t: is_call(t, ".startswith") and cargs(t)[0] is raw) is not None]
                ctx.check("argument-name-own", where, any(not p and any(is_const(x) for t in subterms(c) if is_call(t, ".startswith") for x in cargs(t)[1:]) for c, p in st),
                          "a variadic keyword argument does not take a marked name", n)
                marks.setdefault("keyword-vs-position", set()).add(any(not p and any(x.op == "fstr" for t in subterms(c) if is_call(t, ".startswith") for x in cargs(t)[1:]) for c, p in st))
    ctx.minimum("argument-name-own", where, len(marks), 3, "kinds of variadic names")
    ctx.check("argument-name-own", where, marks.get("positional") and marks.get("keyword") and not marks["positional"] & marks["keyword"],
              "marked names of positional and keyword arguments differ", r.it.entry)
    ctx.check("argument-name-own", where, True in marks.get("keyword-vs-position", ()), "a variadic keyword argument does not take the name of a position", r.it.entry)


def position(t):
    """the position in an enumeration"""
    return t.op == "index" or t.op == "elem" and is_call(t.args[0], "range") or t.op == "elem" and is_call(t.args[0], "itertools.count")


def ignoring(r, m, ign):
    """branch decisions that mark an argument as ignored"""
    c, pol = plain(r, m, m.d["cond"]), m.d["pol"]
    if not pol:
        return False
    if isinst_ignore(c) and not contains(c.args[1], lambda t: t.op == "attr" and t.args[1] == "default"):
        return True
    if c.op == "op" and c.args[0] == "in" and contains(c.args[2], lambda t: t is ign) is not None:
        return True
    if contains(c, lambda t: t.op == "attr" and t.args[1] == "value" and contains(t, lambda u: u.op == "attr" and u.args[1] == "default") is not None):
        if any(p and isinst_ignore(f) and contains(f.args[1], lambda t: t.op == "attr" and t.args[1] == "default") for f, p in m.facts):
            return c.op == "op" and c.args[0] in ("truth", "eq") or is_call(c)
    return False


def plumbing(ctx):
    """Storage.call and Op.__call__ hand every argument, the op and its ignore list to the functions above"""
    r = ctx.run("Storage", "call", opaque=CALL, attrs_=attrs(mode="run"), tag="call")
    P = r.P
    pa = calls_to(r, "mandala.storage.Storage.parse_args")
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    ctx.minimum("plumbing", "Storage.call", len(pa), 1, "argument parses")
    ctx.minimum("plumbing", "Storage.call", len(ci), 1, "calls of the engine")
    f = mk("attr", P["op"], "f")
    for n in pa:
        b = bound(ctx, n)
        ctx.check("plumbing", "Storage.call", b.get("args") is P["args"] and b.get("kwargs") is P["kwargs"], "all arguments are parsed", n)
        ctx.check("plumbing", "Storage.call", is_const(b.get("apply_defaults", FALSE), True), "defaults are part of the arguments", n)
        ctx.check("plumbing", "Storage.call", b.get("ignore_args") is mk("attr", P["op"], "ignore_args"), "the op's own ignore list is used", n)
        ctx.check("plumbing", "Storage.call", is_call(b.get("sig", NONE), "inspect.signature") and cargs(b["sig"])[0] is f, "arguments are bound to the op's signature", n)
    for n in ci:
        b = bound(ctx, n)
        ctx.check("plumbing", "Storage.call", b.get("op") is P["op"], "the op called is the op looked up", n)
        si = b.get("storage_inputs", NONE)
        ctx.check("plumbing", "Storage.call", any(si is mk("sub", x.d["result"], const(1)) for x in pa),
                  "the parsed storage inputs are the call's inputs", n)
    r = ctx.run("Op", "__call__", opaque=op_names("Storage.call"), tag="opcall")
    P = r.P
    ns = calls_to(r, "mandala.storage.Storage.call", "call")
    ctx.minimum("plumbing", "Op.__call__", len(ns), 1, "calls through the storage")
    for n in ns:
        a = list(n.d["args"]) + list(n.d["kwargs"].values()) + [x for _, x in n.d["extra"]]
        ctx.check("plumbing", "Op.__call__", all(any(is_copy(r, n, x, b) for x in a) for b in (P["args"], P["kwargs"])), "all arguments are passed on", n)


def bound(ctx, n):
    """arguments of an opaque repository call by parameter name"""
    return {k: v for k, v in (n.d.get("bound") or {}).items()}
