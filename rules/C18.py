"""Versioned look-ups: a record is reused only when everything it depended on still means the same."""
from .common import *

EXPLANATION = (
    "Backward value-flow and path analysis of versioned look-ups: what is returned must be the versions of one record of these inputs, on a path that compared the record's semantic "
    "version with the hash of the current semantic hashes of exactly the components the recorded version depends on; every record is tried, and each semantic hash is the one its "
    "component's history gives to the current content. The pre-call ids, the code state and the versioner of the look-up are traced back from the calls that pass them."
)
ASSUMPTIONS = ["content hashes are collision free", "the records are held in a pandas data frame selected by a mask on one column"]
VB = lambda f: False
HASHDICT = "mandala.deps.utils.hash_dict"
SEM = "mandala.deps.versioner.Versioner.get_codestate_semantic_hashes"


def check(ctx):
    lookup(ctx)
    support(ctx)
    semantic_hashes(ctx)
    hashing(ctx)
    other_ops(ctx)
    precall(ctx)
    wiring(ctx)


# ------------------------------------------------------------------ records
def column(c):
    while True:
        if is_call(c, ".tolist", "list", ".to_list", ".to_numpy") and cargs(c):
            c = cargs(c)[0]
        elif c.op == "attr" and c.args[1] in ("values", "iloc"):
            c = c.args[0]
        else:
            break
    return (c.args[0], c.args[1].args[0]) if c.op == "sub" and c.args[1].op == "const" and isinstance(c.args[1].args[0], str) else None


def cell(t):
    """(data frame, column) when t is a cell of its generic row"""
    if t.op == "elem" and column(t.args[0]):
        return column(t.args[0])
    if t.op == "sub" and t.args[1].op == "index" and column(t.args[0]) and column(t.args[1].args[0]) and column(t.args[0])[0] is column(t.args[1].args[0])[0]:
        return column(t.args[0])
    if t.op == "sub" and t.args[1].op == "elem" and is_call(t.args[1].args[0], "range") and column(t.args[0]):
        n = cargs(t.args[1].args[0])
        if len(n) == 1 and is_call(n[0], "len") and (column(cargs(n[0])[0]) or (None,))[0] in (column(t.args[0])[0], None):
            return column(t.args[0])
    if t.op == "attr" and t.args[0].op == "elem" and is_call(t.args[0].args[0], ".itertuples"):
        return cargs(t.args[0].args[0])[0], t.args[1]
    if t.op == "sub" and t.args[1].op == "const" and isinstance(t.args[1].args[0], str):
        row = t.args[0]
        if row.op == "sub" and row.args[1] is const(1) and row.args[0].op == "elem" and is_call(row.args[0].args[0], ".iterrows"):
            return cargs(row.args[0].args[0])[0], t.args[1].args[0]
        if row.op == "elem" and is_call(row.args[0], ".to_dict"):
            return cargs(row.args[0])[0], t.args[1].args[0]
    return None, None


def selection(df, base):
    """[(column, value)] equalities by which df is selected from data frame `base`; None when it is something else"""
    if df is base:
        return []
    if df.op == "attr" and df.args[1] in ("loc", "iloc"):
        return selection(df.args[0], base)
    if is_call(df, ".reset_index", ".copy") and cargs(df):
        return selection(cargs(df)[0], base)
    if df.op == "sub":
        src = df.args[0].args[0] if df.args[0].op == "attr" and df.args[0].args[1] == "loc" else df.args[0]
        inner = selection(src, base)
        if inner is None:
            return None
        out = list(inner)
        work = [df.args[1]]
        while work:
            m = work.pop()
            if m.op == "op" and m.args[0] in ("bitand", "and"):
                work += m.args[1:]
            elif m.op == "op" and m.args[0] == "eq":
                a, b = m.args[1:]
                for x, y in ((a, b), (b, a)):
                    if x.op == "sub" and x.args[1].op == "const" and (x.args[0] is src or x.args[0] is base):
                        out.append((x.args[1].args[0], y))
                        break
                else:
                    return None
            else:
                return None
        return out
    return None


def field_version(t, comp, cv):
    """t is the version of component `comp` recorded under content version cv"""
    def versions(x):
        return x.op == "attr" and x.args[1] == "versions"

    def of_comp(x):
        if x.op == "sub":
            return versions(x.args[0]) and x.args[1] is comp
        return is_call(x, ".get") and versions(cargs(x)[0]) and cargs(x)[1] is comp
    if t.op == "sub":
        return of_comp(t.args[0]) and t.args[1] is cv
    if is_call(t, ".get"):
        return of_comp(cargs(t)[0]) and cargs(t)[1] is cv
    return False


SUPPORT = ("support", "semantic_expansion", "_semantic_expansion", "content_expansion", "_content_expansion")


def lookup(ctx):
    r = ctx.run("Versioner", "lookup_call", opaque=op_names("get_codestate_semantic_hashes", "hash_dict", base=VB), tag=("c18",))
    P, where = r.P, "Versioner.lookup_call"
    comp, pre, code = P["component"], P["pre_call_uid"], P["code_state"]
    df = mk("attr", P["self"], "df")
    hashes = calls_to(r, SEM)
    ctx.minimum("current", where, len(hashes), 1, "readings of the current semantic hashes")
    now = {n.d["result"] for n in hashes}
    for n in hashes:
        ctx.check("current", where, barg(r, n, "code_state") is code, "the current hashes are those of the code state given", n)
    found = 0
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            if is_const(a, None):
                continue
            found += 1
            if not ctx.check("found", where, a.op == "tuple" and len(a.args) == 2, f"a content and a semantic version are returned (here {show(a, 3)})", n):
                continue
            (d1, c1), (d2, c2) = cell(a.args[0]), cell(a.args[1])
            ok = d1 is not None and d1 is d2 and (c1, c2) == ("content_version", "semantic_version")
            if not ctx.check("found", where, ok, "both are taken from one record", n):
                continue
            sel = selection(d1, df)
            ctx.check("found", where, sel is not None and ("pre_call_uid", pre) in sel, "the record is one of a call with these inputs", n)
            # on the way the semantic version was compared with what the current code gives
            good = False
            for c, p in s.facts:
                if p and c.op == "op" and c.args[0] == "eq" and a.args[1] in c.args:
                    h = next(x for x in c.args[1:] if x is not a.args[1])
                    good = good or matches(r, s, h, now, comp, a.args[0])
            ctx.check("found", where, good, "it is returned only if its semantic version is that of the current code on all the recorded version depends on", n)
    ctx.minimum("found", where, found, 1, "ways to find a record")
    # nothing is found: unknown content, no records, or every record tried
    unknown = [n.id for n in r.nodes if none_test(n, now) == 1]
    loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and any(cell(mk("elem", b))[0] is not None or is_call(b, ".itertuples", ".iterrows", ".to_dict")
                                                                                            for b in loop_bases(r, n))]
    ctx.minimum("all-tried", where, len(loops), 1, "loops over the records")
    empty = [n.id for n in r.nodes if n.kind == "assume" and empty_test(n, df)]
    for n, s, v in r.ends:
        if any(is_const(a, None) for a in alts(r.it.snap(s, v))):
            p = r.path([r.it.entry.id], [n.id], avoid=unknown + empty + [m.id for m in r.nodes if m.kind == "endloop" and m.d.get("head") in {l.id for l in loops}])
            ctx.check("all-tried", where, p is None, "'no record' is answered only when the current code is unknown or all records of these inputs were tried", n, show_path(p))
    for l in loops:
        hits = [n.id for n in r.nodes if n.kind == "assume" and skip_ok(r, n, now, comp, True)]
        for n in r.nodes:
            if n.kind in ("break", "loopret") and n.d["head"] == l.id:
                p = r.path([l.id], [n.id], avoid=hits)
                ctx.check("all-tried", where, p is None, "the search does not stop at a record that does not match", n, show_path(p))
        its = [m for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
        ok = [m.id for m in r.nodes if m.kind == "assume" and skip_ok(r, m, now, comp)]
        p = r.path([m.id for m in its], [l.id], avoid=ok)
        ctx.check("all-tried", where, p is None, "a record is passed over only if it is no version of this op or its semantic version is another one", l, show_path(p))
        for m in its:
            for b in loop_bases(r, l):
                d = cell(mk("elem", b))[0]
                if d is not None:
                    ctx.check("all-tried", where, all(c == "pre_call_uid" for c, _ in selection(d, df) or [("?", 0)]), "all records of these inputs are tried", l)
    p = r.path([r.it.entry.id], [m.id for l in loops for m in [l]], avoid=[n.id for n in hashes])
    ctx.check("current", where, p is None, "records are compared with hashes of the current code", r.it.entry, show_path(p))


def version_missing(nd):
    """reading the version of a recorded call: the record may be that of another op of this name"""
    if nd.kind != "getitem" or cell(nd.d["index"])[1] != "content_version":
        return ()
    b = nd.d["base"]
    while b.op == "sub" or is_call(b, ".get"):
        b = b.args[0] if b.op == "sub" else cargs(b)[0]
    return ("KeyError",) if b.op == "attr" and b.args[1] == "versions" else ()


def other_ops(ctx):
    """records of another op of the same name and the same inputs are not this op's"""
    for meth in ("lookup_call", "_check_semantic_distinguishability"):
        r = ctx.run("Versioner", meth, opaque=op_names("get_codestate_semantic_hashes", "hash_dict", base=VB), may_raise=version_missing, tag=("c18", "missing"))
        where = "Versioner." + meth
        ends = {n.id for n, _, _ in r.rends}
        n = 0
        for e in r.nodes:
            if e.kind != "exc":
                continue
            n += 1
            known = any(p and k.op == "op" and k.args[0] == "in" and cell(k.args[1])[1] == "content_version" for k, p in e.facts)
            p = None if known else r.path([e.id], ends)
            ctx.check("other-ops", where, p is None, "a record of another op of this name does not make the look-up fail", e, show_path(p))
        ctx.count("unchecked version readings", n)


def support(ctx):
    """the support of a version, and its expansions, are what was recorded"""
    for nm, field in (("support", ("_content_expansion", "_semantic_expansion")), ("content_expansion", ("_content_expansion",)), ("semantic_expansion", ("_semantic_expansion",)),
                      ("semantic_version", ("_semantic_version",)), ("content_version", ("_content_version",))):
        r = ctx.run("Version", nm, tag=("c18",))
        where = "Version." + nm
        S = r.P["self"]
        want = {mk("attr", S, f) for f in field}
        for n, s, v in r.ends:
            for a in alts(r.it.snap(s, v)):
                x = a
                while is_call(x, ".keys", "list", "set", "tuple", ".copy", "dict", "sorted", "frozenset") and len(cargs(x)) == 1:
                    x = cargs(x)[0]
                ok = x in want
                if not ok and nm == "support":
                    cs = coverage(x)
                    ok = bool(cs) and all(len(c.bases) == 1 and c.bases[0] in want and not c.guards and c.val in (mk("key", c.bases[0]), mk("elem", c.bases[0])) for c in cs)
                ctx.check("support", where, ok, f"{'all components the version depends on, directly or through memoized calls' if nm == 'support' else 'the recorded value'} (here {show(a, 4)})", n)
        ctx.minimum("support", where, len(r.ends), 1, "results")


def empty_test(n, df):
    """the branch on which there is no record of these inputs"""
    c, p = n.d["cond"], n.d["pol"]
    def rec(x):
        return x.op == "sub" and selection(x, df) is not None
    if c.op == "op" and c.args[0] == "truth" and not p and (rec(c.args[1]) or is_call(c.args[1], "len") and rec(cargs(c.args[1])[0])):
        return True
    if c.op == "attr" and c.args[1] == "empty" and rec(c.args[0]) and p or c.op == "op" and c.args[0] == "truth" and c.args[1].op == "attr" and c.args[1].args[1] == "empty" and p:
        return True
    return c.op == "op" and c.args[0] == "eq" and p and const(0) in c.args and any(is_call(x, "len") for x in c.args[1:])


def matches(r, s, h, now, comp, cv):
    """h is the semantic version the current code gives to the version (comp, cv)"""
    out = []
    for a in alts(h):
        if not is_call(a, HASHDICT) or len(cargs(a)) != 1:
            return False
        x = cargs(a)[0]
        x = x.args[1] if x.op == "kw" else x
        covs = coverage(r.it.snap(s, x) if s is not None else x)
        ok = bool(covs)
        for c in covs:
            b = c.bases[0] if len(c.bases) == 1 else None
            sup = b is not None and b.op == "attr" and b.args[1] in SUPPORT and field_version(b.args[0], comp, cv)
            if sup:
                ks = {mk("elem", b), mk("key", b)}
                k = c.key
                ok = ok and k in ks and not [g for g, p in c.guards if not (g.op == "op" and g.args[0] == "isnone" and not p)] \
                    and c.val.op == "sub" and c.val.args[0] in now and c.val.args[1] is k
            else:
                ok = False
        out.append(ok)
    return bool(out) and all(out)


def skip_ok(r, n, now, comp, hit=False):
    """the branch on which a record is none of this op, or its semantic version another one (hit: the one of the current code)"""
    c, p = n.d["cond"], n.d["pol"]
    if hit:
        p = not p
        if not (c.op == "op" and c.args[0] == "eq"):
            return False
    if c.op == "op" and c.args[0] in ("isnone", "truth"):
        x = c.args[1]
        return (p if c.args[0] == "isnone" else not p) and (x.op == "sub" or is_call(x, ".get")) and any(y.op == "attr" and y.args[1] == "versions" for y in subterms(x))
    if c.op == "op" and c.args[0] == "in" and not p:
        return any(y.op == "attr" and y.args[1] == "versions" for y in subterms(c.args[2]))
    if c.op == "op" and c.args[0] == "eq" and not p:
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            d, col = cell(x)
            if d is not None and col == "semantic_version":
                cvs = [t for t in subterms(y) if cell(t) == (d, "content_version")]
                return any(matches(r, None, r.snap(n, y), now, comp, cv) for cv in set(cvs))
    return False


# -------------------------------------------------------- the current code's hashes
CONTENT_HASH = ("content_hash",)


def semantic_hashes(ctx):
    r = ctx.run("Versioner", "get_codestate_semantic_hashes", opaque=op_names("CallableNode.content_hash", "GlobalVarNode.content_hash", base=VB), tag=("c18",))
    P, where = r.P, "Versioner.get_codestate_semantic_hashes"
    nodes = mk("attr", P["code_state"], "nodes")

    def dag(t, k):
        return t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "component_dags" and t.args[1] is k

    def chash(t, k):
        """t is the content hash of the code state's node k"""
        return all(any(y in (mk("val", nodes), mk("sub", nodes, k)) for y in subterms(x)) and not any(y.op == "attr" and y.args[1] in ("component_dags",) for y in subterms(x))
                   and (x.op == "attr" and x.args[1] in ("content_hash", "_content_hash") or x.op == "sub" and is_const(x.args[1], 0) and x.args[0].op == "attr"
                        and x.args[0].args[1] in ("_representation", "representation") or is_call(x) and short(x.args[0]) == "content_hash")
                   for x in alts(t))

    def commits(t, k):
        return t.op == "attr" and t.args[1] == "commits" and dag(t.args[0], k)

    def known(t):
        return any(x.op == "attr" and x.args[1] == "nodes" and any(y.op == "obj" and "DependencyGraph" in y.args[0] or y.op == "attr" and y.args[1] == "global_topology"
                                                                    for y in subterms(x)) for x in subterms(t))
    n_res = 0
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            if is_const(a, None):
                continue
            for c in coverage(a):
                n_res += 1
                k, w = c.key, c.val
                cm = w.args[0].args if w.op == "attr" and w.args[1] == "semantic_hash" and w.args[0].op == "sub" else \
                    cargs(w.args[0])[:2] if w.op == "attr" and w.args[1] == "semantic_hash" and is_call(w.args[0], ".get") else None
                ok = cm is not None and commits(cm[0], k) and chash(cm[1], k)
                ctx.check("hashes", where, ok, f"a component is given the semantic hash of its current content in its own history (here {show(w, 4)})", n)
                ranged = [b for b in c.bases if b is nodes or known(b)]
                ctx.check("hashes", where, len(ranged) == len(c.bases) == 1, "over the components of the code state", n)
                for g, p in c.guards:
                    ok = (g.op == "op" and g.args[0] == "in" and p and (known(g.args[2]) or g.args[2] is nodes or commits(g.args[2], k))) or (g.op == "op" and g.args[0] in ("le", "ge")) \
                        or (g.op == "op" and g.args[0] == "isnone" and not p)
                    ctx.check("hashes", where, ok, f"every known component is given its hash (left out unless {show(g, 3)})", n)
    ctx.minimum("hashes", where, n_res, 1, "ways hashes are produced")
    # unknown content: no hashes at all
    fails = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and any(x.op == "attr" and x.args[1] == "commits" for x in subterms(n.cond.args[2]))
             or n.kind == "assume" and n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "isnone" and is_call(n.cond.args[1], ".get") and cargs(n.cond.args[1])[0].op == "attr" and cargs(n.cond.args[1])[0].args[1] == "commits"]
    nones = [(n, s) for n, s, v in r.ends if all(is_const(a, None) for a in alts(r.it.snap(s, v)))]
    others = [n for n, s, v in r.ends if not all(is_const(a, None) for a in alts(r.it.snap(s, v)))]
    subs = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and any(x.op == "attr" and x.args[1] == "commits" for x in subterms(n.cond.args[2]))]
    if fails:
        ctx.minimum("unknown", where, len(nones), 1, "exits without hashes")
        p = r.path([n.id for n in fails], [n.id for n in others])
        ctx.check("unknown", where, p is None, "when the current content of a component was never committed, there are no hashes", fails[0], show_path(p))
        for n in subs:
            for c in n.cond.args[1:2]:
                ok = any(chash(c, k) for k in (mk("key", nodes), mk("elem", nodes), c) if True)
                ctx.check("unknown", where, ok, "it is the current content that is looked for among the commits", n)


def hashing(ctx):
    """hash_dict determines the mapping"""
    r = ctx.run(None, "deps.utils.hash_dict", opaque=op_names("get_content_hash", base=VB), tag=("c18",))
    d = r.P["d"]
    for n, s, v in r.ends:
        for a in alts(r.it.snap(s, v)):
            x = hash_arg(a)
            x = x.args[1] if x is not None and x.op == "kw" else x
            if not ctx.check("hash", "hash_dict", x is not None, "a mapping is hashed by the content hash", n):
                continue
            covs = coverage(x)
            for c in covs:
                ok = len(c.bases) == 1 and c.bases[0] is d and not c.guards
                k, w = (c.val.args if c.val.op == "tuple" and len(c.val.args) == 2 else (c.key, c.val))
                ok = ok and k in (mk("key", d), mk("elem", d)) and w in (mk("val", d), mk("sub", d, mk("key", d)), mk("sub", d, mk("elem", d)))
                ctx.check("hash", "hash_dict", ok, f"every key enters the hash with its value (here {show(c.val, 4)})", n)
            ctx.minimum("hash", "hash_dict", len(covs), 1, "hashed items")
            srt = any(is_call(t, "sorted") for t in subterms(a)) or any(n2.kind == "call" and short(n2.d["name"] or "") == "sort" or n2.kind == "mut" and n2.d["how"] == "sort" for n2 in r.nodes) \
                or any(is_call(t, "dict") for t in subterms(a))
            ctx.check("hash", "hash_dict", srt or sorted_loops(r), "whatever their order", n)


def sorted_loops(r):
    return all(any(is_call(t, "sorted") for t in subterms(n.d["siter"])) for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None) and \
        any(n.kind == "loop" for n in r.nodes)


def precall(ctx):
    r = ctx.run("Op", "get_pre_call_id", opaque=op_names("get_content_hash", base=VB), tag=("c18",))
    P, where = r.P, "Op.get_pre_call_id"
    for n, s, v in r.ends:
        a = hash_arg(r.it.snap(s, v))
        if ctx.check("pre-call", where, a is not None, "the pre-call id is a content hash", n):
            name = {mk("attr", P["self"], "name"), mk("param", "Op.__init__.name")}
            ctx.check("pre-call", where, inj(a, lambda t: t in name), "it determines the op's name", n)
            ok = False
            for part in inj_parts(a):
                for c in coverage(part):
                    if P["inputs"] in c.bases and c.key is mk("key", P["inputs"]):
                        ok = ok or (c.val is mk("attr", mk("val", P["inputs"]), "cid") and all(isinst_ignore(g) for g, p in c.guards))
            ctx.check("pre-call", where, ok, "and the contents of the inputs by name", n)


# -------------------------------------------------------------- who passes what
def wiring(ctx):
    lk = ctx.run("Storage", "lookup_call", opaque=op_names(*STORE_OPS, "_get_call_from_data", "get_dep_key_from_func"), attrs_=attrs(), params={"must_version": const(True)}, tag=("c18",))
    P, where = lk.P, "Storage.lookup_call"
    vs = calls_to(lk, "mandala.deps.versioner.Versioner.lookup_call")
    ctx.minimum("wiring", where, len(vs), 1, "look-ups of the version")
    keys = {n.d["result"]: n for n in calls_to(lk, "get_dep_key_from_func")}
    for n in vs:
        ctx.check("wiring", where, n.d["recv"] is P["versioner"], "the version is looked up in the versioner given", n)
        ctx.check("wiring", where, barg(lk, n, "pre_call_uid") is P["pre_call_uid"] and barg(lk, n, "code_state") is P["code_state"], "for these inputs and this code state", n)
        c = barg(lk, n, "component")
        k = keys.get(c)
        f = mk("attr", P["op"], "f")
        ok = k is not None and barg(lk, k, "func") in (f,) or c.op == "tuple" and len(c.args) == 2 and all(any(x is f for x in subterms(y)) for y in c.args)
        ctx.check("wiring", where, ok, "for the function of the op called", n)
    got = {n.d["result"] for n in vs}
    for n in [m for m in lk.nodes if m.kind == "call" and short(m.d["name"] or "") in ("exists", "exists_content") and "CallStorage" in (m.d["name"] or "")]:
        for v in n.d["bound"].values():
            pass
    miss = [n for n in lk.nodes if none_test(n, got) == 1]
    for n in miss:
        p = lk.path([n.id], [e.id for e, s, v in lk.ends if not all(is_const(a, None) for a in alts(lk.it.snap(s, v)))])
        ctx.check("wiring", where, p is None, "without a version nothing is found", n, show_path(p))
    ctx.minimum("wiring", where, len(miss), 1, "answers without a version")
    r = executed(ctx)
    ls = calls_to(r, "mandala.storage.Storage.lookup_call")
    ctx.minimum("wiring", "Storage.call_internal", len(ls), 1, "look-ups of calls")
    S = r.P["self"]
    where = "Storage.call_internal[versioned]"
    for n in ls:
        b = {k: r.snap(n, v) for k, v in n.d["bound"].items()}
        for nm, f in (("code_state", "code_state"), ("versioner", "cached_versioner")):
            ctx.check("wiring", where, b.get(nm, NONE) is mk("attr", S, f), f"the {'code state' if nm == 'code_state' else 'versioner'} of the open context is used", n)
        ctx.check("wiring", where, is_const(b.get("must_version", const(False)), True), "calls of ops are looked up by version", n)
        ctx.check("wiring", where, b.get("op", NONE) is r.P["op"], "the op called is looked up", n)
        pre, inputs = b.get("pre_call_uid", NONE), b.get("inputs", NONE)
        ok = is_call(pre) and short(pre.args[0]) == "get_pre_call_id"
        g = [m for m in calls_to(r, "mandala.model.Op.get_pre_call_id") if m.d["result"] is pre]
        ok = ok and bool(g) and all(m.d["recv"] is r.P["op"] and barg(r, m, "inputs") is inputs for m in g)
        ctx.check("wiring", where, ok, "under the pre-call id of the op and the inputs of this call", n)


def executed(ctx):
    """an execution of a versioned (not a structural) call"""
    def setup(it, st):
        st.hset((mk("param", "op"), "__structural__"), const(False))
    k = "c18.executed"
    if k not in ctx._memo:
        ctx._memo[k] = ctx.run("Storage", "call_internal", opaque=EXEC, attrs_=attrs(versioned=True), setup=setup, tag=("c18",))
    return ctx._memo[k]


EXEC = op_names("construct", "destruct", "lookup_call", "unwrap", "_get_call_from_data", "wrap_atom", "parse_returns", "from_annotation", "DecTracer.__enter__", "DecTracer.__exit__",
                "SysTracer.__enter__", "SysTracer.__exit__", "add_globals_from", "track", "register_call", "register_return", "get_pre_call_id")
