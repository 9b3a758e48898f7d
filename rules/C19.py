"""What an execution depended on is recorded with its call."""
from .common import *
from .C18 import executed, HASHDICT, selection

EXPLANATION = (
    "Coverage, value-flow and path analysis of the recording of dependencies: from the trace of an execution (per class of trace node) to the version, its expansions and hashes, the new components, the record "
    "of the call and the versions stored in it; and from memoized calls inside a traced execution to the trace."
)
ASSUMPTIONS = ["the tracer's graph holds what was executed (C21)", "records are rows of a pandas data frame extended by pandas.concat"]
VB = lambda f: False
NODES = ("CallableNode", "GlobalVarNode", "TerminalNode")


def check(ctx):
    from_trace(ctx)
    sync(ctx)
    trace_state(ctx)
    for c in NODES:
        components(ctx, c)
    record(ctx)
    version_ids(ctx)
    for c in NODES:
        hypothesis(ctx, c)
    topology(ctx)
    wiring(ctx)
    leaves(ctx)


def with_class(term, cls, strict=None):
    def setup(it, st):
        it.hints[term] = cls
        it.hints[("exact", term)] = True
    return setup


def is_content_hash(t, v):
    return is_call(t) and short(t.args[0]) == "content_hash" and cargs(t)[0] is v or t.op == "attr" and t.args[0] is v and t.args[1] in ("content_hash", "_content_hash") or \
        t.op == "sub" and is_const(t.args[1], 0) and t.args[0].op == "attr" and t.args[0].args[0] is v and t.args[0].args[1] in ("_representation", "representation") or \
        t.op == "sub" and is_const(t.args[1], 0) and is_call(t.args[0]) and short(t.args[0].args[0]) in ("content", "representation") and cargs(t.args[0])[0] is v


def harmless(g, p):
    return g.op == "op" and (g.args[0] == "isnone" and not p or g.args[0] == "isinstance" and p)


def from_trace(ctx):
    nodes = mk("param", "nodes")
    key, val = mk("key", nodes), mk("val", nodes)
    for c in NODES:
        where = f"Version.from_trace[{c}]"
        r = ctx.run("Version", "from_trace", opaque=op_names("CallableNode.content_hash", "GlobalVarNode.content_hash", base=VB), tag=("c19", c), setup=with_class(val, c))
        ctx.minimum("from-trace", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for o in alts(v):
                comp = s.heap.get((o, "component"))
                ctx.check("from-trace", where, comp is r.P["component"], "the version is one of the component traced", n)
                direct = s.heap.get((o, "direct_deps_commits"))
                memo = s.heap.get((o, "memoized_deps_content_versions"))
                if not ctx.check("from-trace", where, direct is not None and memo is not None, "direct and memoized dependencies are kept", n):
                    continue
                dc, mc = coverage(r.it.snap(s, direct)), coverage(r.it.snap(s, memo))
                if c == "TerminalNode":
                    for m in r.nodes:
                        if m.kind == "mut" and m.d["how"] == "setitem" and any(t.op == "attr" and t.args[1] == "call_content_version" for cv in coverage(r.snap(m, m.d["value"])) for t in subterms(cv.val)):
                            k = m.d["key"]
                            old = any(t.op in ("sub", "call") and any(y is m.d["target"] for y in subterms(t)) for t in subterms(m.d["value"]))
                            new = any(g.op == "op" and g.args[0] == "in" and g.args[1] is k and not pl for g, pl in m.facts)
                            ctx.check("from-trace", where, old or new, "a further call of the same function keeps the versions seen before", m)
                    rep = mk("attr", val, "representation")
                    ok = any(list(cv.bases) == [nodes] and not cv.guards and cv.key is mk("attr", rep, "dep_key") and
                             any(ev.val is mk("attr", rep, "call_content_version") and not ev.guards for ev in coverage(cv.val)) for cv in mc)
                    ctx.check("from-trace", where, ok, "every memoized call seen is kept: its content version, under the function called", n)
                else:
                    ok = any(list(cv.bases) == [nodes] and not cv.guards and cv.key is key and is_content_hash(cv.val, val) for cv in dc)
                    ctx.check("from-trace", where, ok, "every function and global seen is kept: its content hash, under its own key", n)


# ---------------------------------------------------------------- expansions
def sync(ctx):
    r = ctx.run("Version", "sync", opaque=op_names("hash_dict", base=VB), tag=("c19",))
    where = "Version.sync"
    S = r.P["self"]
    dags, vers = r.P["component_dags"], r.P["all_versions"]
    ctx.minimum("expansion", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        f = {}
        for a in ("_content_expansion", "_content_version", "_semantic_expansion", "_semantic_version"):
            f[a] = s.heap.get((S, a))
            if not ctx.check("expansion", where, f[a] is not None, f"{a[1:]} is set", n):
                return
        direct = s.heap.get((S, "direct_deps_commits"), None)
        dnames = {mk("attr", S, "direct_deps_commits"), mk("param", "Version.__init__.dynamic_deps_commits"), direct}
        mnames = {mk("attr", S, "memoized_deps_content_versions"), mk("param", "Version.__init__.memoized_deps_content_versions")}

        def ref(t, field):
            """the expansion of a version referenced by a pointer"""
            if not (t.op == "attr" and t.args[1] in (field, field.lstrip("_"))):
                return False
            x = t.args[0]
            return x.op == "sub" and x.args[0].op == "sub" and x.args[0].args[0] is vers and any(x.args[0].args[1] in (mk("key", m), mk("elem", m)) for m in mnames) and \
                any(x.args[1] in (mk("elem", mk("val", m)), mk("elem", mk("sub", m, mk("key", m))), mk("elem", mk("sub", m, mk("elem", m)))) for m in mnames)

        def pointer_bases(bs, field):
            # all pointers: over the callees, over the versions of each
            rest = [b for b in bs if not ref(b, field)]
            return len(bs) - len(rest) >= 1 and len(rest) == 2 and any(b in mnames for b in rest) and any(b in (mk("val", m), mk("sub", m, mk("key", m)), mk("sub", m, mk("elem", m))) for b in rest for m in mnames)
        ce = coverage(r.it.snap(s, f["_content_expansion"]))
        ok = any(len(c.bases) == 1 and c.bases[0] in dnames and not bad_guards(r, c) and c.key in (mk("key", c.bases[0]), mk("elem", c.bases[0])) and
                 any(e.val in (mk("val", c.bases[0]), mk("sub", c.bases[0], c.key)) and not e.bases and not bad_guards(r, e) for e in coverage(c.val)) for c in ce)
        ctx.check("expansion", where, ok, "the content expansion has every direct dependency with its content", n)
        ok = False
        for c in ce:
            if pointer_bases(c.bases, "_content_expansion") and not bad_guards(r, c):
                b = next(b for b in c.bases if ref(b, "_content_expansion"))
                inner = [e for e in coverage(c.val) if not bad_guards(r, e) and e.val in (mk("elem", mk("val", b)), mk("elem", mk("sub", b, mk("key", b)))) and len(e.bases) == 1]
                ok = ok or c.key in (mk("key", b), mk("elem", b)) and bool(inner)
        ctx.check("expansion", where, ok, "and everything the versions of all memoized callees expand to", n)
        # hashes
        h = f["_content_version"]
        x = plain_arg(h)
        if ctx.check("expansion", where, x is not None, "the content version is the hash of a mapping", n):
            cs = coverage(x)
            kinds = set()
            for c in cs:
                t = c.val
                srt = False
                while is_call(t, "tuple", "sorted", "list", "frozenset", "str") and len(cargs(t)) == 1:
                    srt = srt or is_call(t, "sorted", "frozenset")
                    t = cargs(t)[0]
                ok = srt and not bad_guards(r, c)
                ctx.check("expansion", where, ok, f"the content version covers the sorted contents of every component (here {show(c.val, 3)})", n)
                es = coverage(t)
                for e in es:
                    ok = ok and not bad_guards(r, e)
                vs = {y for e in es for y in [e.val]}
                if any(y in (mk("val", d), mk("sub", d, mk("key", d))) for y in vs for d in dnames if d is not None) or any(b in dnames for b in c.bases):
                    kinds.add("direct")
                if any(ref(b, "_content_expansion") for b in c.bases) and any(y.op == "elem" for y in vs):
                    kinds.add("memoized")
            ctx.check("expansion", where, kinds == {"direct", "memoized"}, "the content version covers direct and memoized dependencies", n)
        se = coverage(r.it.snap(s, f["_semantic_expansion"]))

        def sem_direct(c):
            return len(c.bases) == 1 and c.bases[0] in dnames and not bad_guards(r, c) and c.key in (mk("key", c.bases[0]), mk("elem", c.bases[0])) and semantic_of(c.val, dags, c.key, c.bases[0])

        def sem_ref(c):
            if not pointer_bases(c.bases, "_semantic_expansion") or bad_guards(r, c):
                return False
            b = next(b for b in c.bases if ref(b, "_semantic_expansion"))
            return c.key in (mk("key", b), mk("elem", b)) and c.val in (mk("val", b), mk("sub", b, mk("key", b)), mk("sub", b, mk("elem", b)))
        ctx.check("expansion", where, any(sem_direct(c) for c in se), "the semantic expansion has the semantic hash of every direct dependency's content", n)
        ctx.check("expansion", where, any(sem_ref(c) for c in se), "and everything the versions of all memoized callees expand to", n)
        x = plain_arg(f["_semantic_version"])
        if ctx.check("expansion", where, x is not None, "the semantic version is the hash of a mapping", n):
            cs = coverage(x)
            ctx.check("expansion", where, any(sem_direct(c) for c in cs) and any(sem_ref(c) for c in cs), "the semantic version is that of the whole semantic expansion", n)
    # every pointer is followed
    for n in r.nodes:
        if n.kind in ("break", "loopret") and n.d.get("siter") is not None:
            for b in loop_bases(r, n):
                if b in dnames or b in mnames or any(b in (mk("val", m), mk("sub", m, mk("key", m)), mk("sub", m, mk("elem", m))) or t is m for m in mnames if m is not None for t in subterms(b)):
                    p = r.path([n.id], [e.id for e, _, _ in r.ends])
                    ctx.check("expansion", where, p is None, "no dependency is passed over", n, show_path(p))
    # contradictions
    ups = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("update", "setitem") and any(ref(t, "_semantic_expansion") for a in list(n.d.get("args", ())) + [n.d.get("value")] if a is not None for t in subterms(r.snap(n, a)))]
    confl = [n for n in r.nodes if n.kind == "assume" and conflict(n.cond)]
    ctx.minimum("conflict", where, len(confl), 1, "comparisons of semantic hashes")
    for n in ups:
        p = r.path([r.it.entry.id], [n.id], avoid=[x for m in confl if worse(m) is False or quant(m.cond)[0] is None for x in compared(r, m)])
        ctx.check("conflict", where, p is None, "versions are merged only after their semantic hashes were compared", n, show_path(p))
    for m in confl:
        ctx.check("conflict", where, worse(m) is not None, "any difference between semantic hashes is a contradiction", m)
        if worse(m):
            p = r.path([m.id], [e.id for e, _, _ in r.ends])
            ctx.check("conflict", where, p is None, "contradicting semantic hashes are refused", m, show_path(p))


def compared(r, m):
    """where the comparison is over: itself, or the end of the loop it is made in"""
    if quant(m.cond)[0] is not None:
        return [m.id]
    around = [e for e in r.nodes if e.kind == "endloop" and any(i.kind == "iter" and i.d["head"] == e.d["head"] and r.path([i.id], [m.id], avoid=[e.d["head"]]) and r.path([m.id], [e.d["head"]]) for i in r.nodes)]
    around = [e for e in around if not any(o is not e and r.path([i.id for i in r.nodes if i.kind == "iter" and i.d["head"] == e.d["head"]], [o.id], avoid=[e.d["head"]]) for o in around)]
    return [m.id] + [e.id for e in around]


def quant(c):
    """any / all of a collection of comparisons"""
    c = c.args[1] if c.op == "op" and c.args[0] == "truth" else c
    if c.op == "op" and c.args[0] in ("any", "all") or is_call(c, "any", "all"):
        return (c.args[0] if c.op == "op" else short(c.args[0])), (c.args[1] if c.op == "op" else cargs(c)[0])
    return None, None


def comparisons(c):
    """the equalities of semantic hashes a condition decides, each as (left, right)"""
    q, x = quant(c)
    es = [cv.val for cv in coverage(x)] if q else [c]
    out = []
    for e in es:
        for t in subterms(e):
            if t.op == "op" and t.args[0] == "eq" and any(y.op == "attr" and y.args[1] in ("semantic_expansion", "_semantic_expansion") for z in t.args[1:] for y in subterms(z)):
                out.append(t.args[1:])
    return out


def conflict(c):
    return bool(comparisons(c))


def worse(m):
    """the branch on which some hashes differ"""
    q, x = quant(m.cond)
    if q is None:
        return not m.d["pol"]
    neg = all(cv.val.op == "op" and cv.val.args[0] == "not" for cv in coverage(x))
    return m.d["pol"] if q == "any" and neg else not m.d["pol"] if q == "all" and not neg else None


def bad_guards(r, c):
    return [g for g, p in c.guards if not (harmless(g, p) or refuses(r, g, p))]


def refuses(r, g, p):
    """the other branch of this condition only raises"""
    def same(c):
        if c is g:
            return True
        if g.op == "op" and g.args[0] == "widened":
            return str(c.args[0]) == g.args[1] if c.op in ("op", "call") else c.op == g.args[1]
        return quant(g)[0] is not None and quant(g)[0] == quant(c)[0]
    others = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] != p and same(n.d["cond"])]
    return bool(others) and r.path([n.id for n in others], [e.id for e, _, _ in r.ends]) is None


def plain_arg(h):
    for a in alts(h):
        if is_call(a, HASHDICT) and len(cargs(a)) == 1:
            x = cargs(a)[0]
            return x.args[1] if x.op == "kw" else x
    return None


def semantic_of(t, dags, k, d):
    if not (t.op == "attr" and t.args[1] == "semantic_hash"):
        return False
    c = t.args[0]
    return c.op == "sub" and c.args[0].op == "attr" and c.args[0].args[1] == "commits" and c.args[0].args[0].op == "sub" and c.args[0].args[0].args[0] is dags and c.args[0].args[0].args[1] is k \
        and c.args[1] in (mk("val", d), mk("sub", d, k))


# ------------------------------------------------------------------ the trace
def trace_state(ctx):
    r = ctx.run("DependencyGraph", "get_trace_state", opaque=VB, tag=("c19",))
    where = "DependencyGraph.get_trace_state"
    roots, nodes = mk("attr", r.P["self"], "roots"), mk("attr", r.P["self"], "nodes")
    ctx.minimum("trace", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        v = r.it.snap(s, v)
        ok = v.op == "tuple" and len(v.args) == 2 and v.args[1] is nodes and any(t is roots for t in subterms(v.args[0]))
        ctx.check("trace", where, ok, "the trace is its root and all its nodes", n)
        ok = any(c.op == "op" and c.args[0] == "eq" and p and const(1) in c.args and any(is_call(t, "len") and cargs(t)[0] is roots for t in c.args[1:]) for c, p in s.facts)
        ctx.check("trace", where, ok, "a trace has exactly one root", n)


PT = ("get_trace_state", "from_trace", "Version.sync", "DAG.init", "_check_semantic_distinguishability", "CallableNode.content", "GlobalVarNode.content")


def traced(r):
    g = calls_to(r, "get_trace_state")
    return g[0].d["result"] if g else None


def components(ctx, c):
    where = f"Versioner.process_trace[{c}]"
    # learn the term of the trace first
    r0 = ctx.run("Versioner", "process_trace", opaque=op_names(*PT, base=VB), tag=("c19",))
    g = traced(r0)
    if not ctx.check("components", where, g is not None, "the trace is read from the graph", r0.it.entry):
        return
    nodes = mk("sub", g, const(1))
    key, val = mk("key", nodes), mk("val", nodes)
    r = ctx.run("Versioner", "process_trace", opaque=op_names(*PT, base=VB), tag=("c19", c), setup=with_class(val, c))
    S = r.P["self"]
    syncs = calls_to(r, "mandala.deps.deep_versions.Version.sync")
    new = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and n.cond.args[1] is key
           and n.cond.args[2] in (mk("attr", S, "nodes"), mk("attr", S, "component_dags"), mk("attr", S, "versions"))]
    if c == "TerminalNode":
        bad = [n for n in r.nodes if n.kind == "mut" and n.d.get("key") is key]
        ctx.check("components", where, not bad, "memoized calls are no components", bad[0] if bad else r.it.entry)
        return
    ctx.minimum("components", where, len(new), 1, "tests for new components")
    loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and nodes in loop_bases(r, n)]
    ctx.minimum("components", where, len(loops), 1, "loops over the trace")
    ends = [n.id for n in r.nodes if n.kind == "endloop" and n.d["head"] in {l.id for l in loops}]
    heads = [l.id for l in loops]

    def sets(field, ok):
        return [n for n in r.nodes if n.kind == "mut" and n.d["how"] == "setitem" and r.snap(n, n.d["target"]) is mk("attr", S, field) and n.d["key"] is key and ok(n)]
    inits = [n for n in calls_to(r, "mandala.deps.shallow_versions.DAG.init")]
    for what, field, ok in (("node", "nodes", lambda n: n.d["value"] is val), ("history", "component_dags", lambda n: any(m.d["recv"] is n.d["value"] for m in inits)),
                            ("collection of versions", "versions", lambda n: r.snap(n, n.d["value"]).op in ("dict", "obj", "coll") or True)):
        ss = sets(field, ok)
        for m in new:
            p = r.path([m.id], heads + ends + [x.id for x in syncs], avoid=[n.id for n in ss])
            ctx.check("components", where, p is None, f"every function or global seen for the first time gets its {what}", m, show_path(p))
    for m in new:
        p = r.path([m.id], heads + ends + [x.id for x in syncs], avoid=[n.id for n in inits])
        ctx.check("components", where, p is None, "its history starts with what was executed", m, show_path(p))
    for n in inits:
        x = r.snap(n, barg(r, n, "initial_content"))
        ok = is_call(x) and short(x.args[0]) == "content" and cargs(x)[0] is val or x.op == "attr" and x.args[0] is val and x.args[1] in ("_representation", "representation")
        ctx.check("components", where, ok, "its history starts with its own content", n)
    for l in loops:
        for n in broken_loops(r, nodes):
            ctx.bad("components", where, "every function and global seen is considered", n)
    for x in syncs:
        p = r.path([r.it.entry.id], [x.id], avoid=ends)
        ctx.check("components", where, p is None, "components exist before the version is expanded", x, show_path(p))
    # skipping only what is known
    for l in loops:
        its = [n.id for n in r.nodes if n.kind == "iter" and n.d["head"] == l.id]
        known = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and n.cond.args[1] is key
                 and n.cond.args[2] in (mk("attr", S, "nodes"), mk("attr", S, "component_dags"), mk("attr", S, "versions"))]
        if any(m for m in new):
            p = r.path(its, [l.id], avoid=known + [n.id for n in sets("component_dags", lambda n: True)])
            ctx.check("components", where, p is None, "only known components are passed over", l, show_path(p))


def record(ctx):
    r = ctx.run("Versioner", "process_trace", opaque=op_names(*PT, base=VB), tag=("c19",))
    where = "Versioner.process_trace"
    P = r.P
    S = P["self"]
    g = traced(r)
    root, nodes = mk("sub", g, const(0)), mk("sub", g, const(1))
    for n in calls_to(r, "get_trace_state"):
        ctx.check("record", where, n.d["recv"] is P["graph"], "the trace given is the one recorded", n)
    fts = calls_to(r, "mandala.deps.deep_versions.Version.from_trace")
    ctx.minimum("record", where, len(fts), 1, "versions made from the trace")
    for n in fts:
        ctx.check("record", where, barg(r, n, "component") is root and barg(r, n, "nodes") is nodes, "the version is made from the trace's root and all its nodes", n)
    ver = {n.d["result"] for n in fts}
    syncs = calls_to(r, "mandala.deps.deep_versions.Version.sync")
    ctx.minimum("record", where, len(syncs), 1, "expansions")
    for n in syncs:
        ok = n.d["recv"] in ver and barg(r, n, "component_dags") is mk("attr", S, "component_dags") and barg(r, n, "all_versions") is mk("attr", S, "versions")
        ctx.check("record", where, ok, "it is expanded against all known histories and versions", n)
    ends = [e.id for e, _, _ in r.ends]
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in syncs])
    ctx.check("record", where, p is None, "the version is always expanded", r.it.entry, show_path(p))
    for n, s, v in r.ends:
        ctx.check("record", where, v in ver, "the version recorded is the one returned", n)

    def field(t, names):
        return t.op == "attr" and t.args[0] in ver and t.args[1] in names

    def cv(t):
        return field(t, ("content_version", "_content_version"))

    def sv(t):
        return field(t, ("semantic_version", "_semantic_version"))
    vs = mk("attr", S, "versions")

    def of_comp(t):
        return t.op == "sub" and t.args[0] is vs and (t.args[1] is root or field(t.args[1], ("component",)))
    stored = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("setitem", "setdefault") and of_comp(r.snap(n, n.d["target"])) and cv(n.d.get("key") or n.d["args"][0]) and (n.d.get("value") or n.d["args"][-1]) in ver]
    known = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and cv(n.cond.args[1]) and of_comp(n.cond.args[2])]
    p = r.path([n.id for n in syncs], ends, avoid=[n.id for n in stored + known])
    ctx.check("record", where, p is None, "the version is kept under its component and content version", r.it.entry, show_path(p))
    df = mk("attr", S, "df")
    again = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and (n.cond is P["is_recompute"] or n.cond.op == "op" and n.cond.args[0] == "truth" and n.cond.args[1] is P["is_recompute"])]

    def recorded(c):
        """some record of these inputs has this semantic version"""
        c = c.args[1] if c.op == "op" and c.args[0] == "truth" else c
        if not is_call(c, ".any"):
            return False
        m = cargs(c)[0]
        sel = selection(mk("sub", df, m), df)
        return sel is not None and any(col == "pre_call_uid" and v is P["pre_call_uid"] for col, v in sel) and any(col == "semantic_version" and sv(v) for col, v in sel)
    known = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and recorded(n.cond)]
    fresh = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and recorded(n.cond)]
    for n in calls_to(r, "_check_semantic_distinguishability"):
        p = r.path([r.it.entry.id], [n.id], avoid=fresh)
        ctx.check("record", where, p is None, "only an execution not yet on record is compared with those on record", n, show_path(p))
    rows = []
    for n in r.nodes:
        if n.kind == "setattr" and n.d["base"] is S and n.d["attr"] == "df":
            v = r.snap(n, n.d["value"])
            if ctx.check("record", where, is_call(v, "pandas.concat"), "records are only added", n):
                parts = [c.val for c in coverage(cargs(v)[0])]
                ctx.check("record", where, df in parts, "all earlier records stay", n)
                for x in parts:
                    if is_call(x, "pandas.DataFrame"):
                        for row in coverage(cargs(x)[0]):
                            d = {c.key.args[0]: c.val for c in coverage(row.val) if c.key is not None and c.key.op == "const"}
                            ok = d.get("pre_call_uid") is P["pre_call_uid"] and sv(d.get("semantic_version", NONE)) and cv(d.get("content_version", NONE))
                            ctx.check("record", where, ok, "the record holds the inputs' id and both versions", n)
                            if ok:
                                rows.append(n)
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in rows + again + known])
    ctx.check("record", where, p is None, "every execution is recorded unless it is on record already", r.it.entry, show_path(p))


def version_ids(ctx):
    r = ctx.run("Versioner", "get_version_ids", opaque=op_names("process_trace", base=VB), tag=("c19",))
    where = "Versioner.get_version_ids"
    P = r.P
    ps = calls_to(r, "mandala.deps.versioner.Versioner.process_trace")
    ctx.minimum("version-ids", where, len(ps), 1, "traces processed")
    for n in ps:
        ok = barg(r, n, "graph") is mk("attr", P["tracer_option"], "graph") and barg(r, n, "pre_call_uid") is P["pre_call_uid"] and barg(r, n, "is_recompute") is P["is_recompute"] and n.d["recv"] is P["self"]
        ctx.check("version-ids", where, ok, "the tracer's graph is recorded for these inputs", n)
    got = {n.d["result"] for n in ps}
    for n, s, v in r.ends:
        v = r.it.snap(s, v)
        def f(t, names):
            return t.op == "attr" and t.args[0] in got and t.args[1] in names
        ok = v.op == "tuple" and len(v.args) == 2 and f(v.args[0], ("content_version", "_content_version")) and f(v.args[1], ("semantic_version", "_semantic_version"))
        ctx.check("version-ids", where, ok, "the answer is the content and the semantic version", n)


# --------------------------------------------------- the trace against the code state
def hypothesis(ctx, c):
    tr, hyp = mk("param", "trace_result"), mk("param", "hypothesis")
    key, val = mk("key", tr), mk("val", tr)
    want = mk("sub", mk("attr", hyp, "nodes"), key)
    where = f"Versioner.apply_state_hypothesis[{c}]"

    def setup(it, st):
        with_class(val, c)(it, st)
        if c != "TerminalNode":
            with_class(want, c)(it, st)
    r = ctx.run("Versioner", "apply_state_hypothesis", opaque=op_names("CallableNode.content", "GlobalVarNode.content", "_get_colorized_diff", "get_content_hash", base=VB), tag=("c19", c), setup=setup)
    loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and tr in loop_bases(r, n)]
    if c != "TerminalNode":
        ctx.minimum("hypothesis", where, len(loops), 1, "loops over the trace")
    ends = [e.id for e, _, _ in r.ends]
    dels = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("delitem", "pop", "clear", "popitem") and r.snap(n, n.d["target"]) is tr]
    unexpected = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in" and n.cond.args[1] is key]
    first = [l for l in loops[:1]]
    for l in first:
        its = [n.id for n in r.nodes if n.kind == "iter" and n.d["head"] == l.id]
        if c == "CallableNode":
            hs = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is val and n.d["attr"] in ("_representation", "representation")]
            for n in hs:
                x = r.snap(n, n.d["value"])
                ok = x.op == "attr" and x.args[0] is want and x.args[1] in ("_representation", "representation")
                ctx.check("hypothesis", where, ok, "an executed function is recorded with its source in the current code", n)
            p = r.path(its, [l.id] + ends, avoid=[n.id for n in hs] + unexpected)
            ctx.check("hypothesis", where, p is None, "every executed function of the code state is recorded with its current source", l, show_path(p))
            hashes = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is val and n.d["attr"] == "_content_hash"]
            for n in hashes:
                x = hash_arg(r.snap(n, n.d["value"]))
                x = x.args[1] if x is not None and x.op == "kw" else x
                ctx.check("hypothesis", where, x is not None and x.op == "attr" and x.args[0] is want, "and with the hash of that source", n)
            p = r.path([n.id for n in hs], [l.id] + ends, avoid=[n.id for n in hashes])
            ctx.check("hypothesis", where, p is None, "and with the hash of that source", l, show_path(p))
        for n in calls_to(r, "_get_colorized_diff"):
            for x in n.d["args"]:
                ctx.check("hypothesis", where, not (is_call(x) and short(x.args[0]) == "content"), "the difference shown is one of texts", n)
        if c == "GlobalVarNode":
            def cont(t, w):
                return is_call(t) and short(t.args[0]) in ("content", "content_hash") and cargs(t)[0] is w or t.op == "attr" and t.args[0] is w and t.args[1] in ("_representation", "representation")
            same = [n for n in r.nodes if n.kind == "assume" and n.cond.op == "op" and n.cond.args[0] == "eq" and any(cont(a, want) and cont(b, val) for a, b in (n.cond.args[1:], n.cond.args[:0:-1]))]
            p = r.path(its, [l.id] + ends, avoid=[n.id for n in same] + unexpected)
            ctx.check("hypothesis", where, p is None, "the value of an accessed global is compared with the code state's", l, show_path(p))
            for n in same:
                if not n.d["pol"]:
                    p = r.path([n.id], ends)
                    ctx.check("hypothesis", where, p is None, "a global that changed since the context was entered is refused", n, show_path(p))
    # nothing seen is forgotten, except functions that are no part of the code state
    if c != "CallableNode":
        for n in dels:
            x = n.d.get("key") if n.d.get("key") is not None else (n.d["args"] or [None])[0]
            removable = x is not None and x.op == "elem" and not coverage(r.snap(n, x.args[0])) and x.args[0].op == "obj"
            ctx.check("hypothesis", where, removable, f"no {'memoized call' if c == 'TerminalNode' else 'accessed global'} is left out of the trace", n)
    else:
        strict = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and any("strict" in str(t.args[-1]) for t in subterms(n.cond) if t.op in ("attr", "param"))]
        for n in dels:
            x = n.d.get("key") if n.d.get("key") is not None else (n.d["args"] or [None])[0]
            cs = coverage(r.snap(n, x.args[0])) if x is not None and x.op == "elem" else []
            around = [l for l in r.nodes if l.kind == "loop" and l.d.get("siter") is not None and n.id in r.reach([l.id]) and all(c.val is key and c.guards for c in coverage(r.snap(l, l.d["siter"])))]
            cs = cs or (coverage(r.snap(around[-1], around[-1].d["siter"])) if around else [])
            ok = bool(cs) and all(cv.val is key and any(g.op == "op" and g.args[0] == "in" and g.args[1] is key and not p for g, p in cv.guards) for cv in cs) or \
                x is key and any(g.op == "op" and g.args[0] == "in" and g.args[1] is key and not p for g, p in n.facts)
            ctx.check("hypothesis", where, ok, "only functions that are no part of the code state are left out", n)
    for m in r.nodes:
        if m.kind == "setattr" and m.d["base"] is want:
            ctx.bad("hypothesis", where, "the code state stays as it is", m)


def topology(ctx):
    for c in NODES:
        g = mk("param", "graph")
        nodes, edges = mk("attr", g, "nodes"), mk("attr", g, "edges")
        val = mk("val", nodes)
        where = f"Versioner.update_global_topology[{c}]"
        r = ctx.run("Versioner", "update_global_topology", opaque=VB, tag=("c19", c), setup=with_class(val, c))
        T = mk("attr", mk("attr", r.P["self"], "global_topology"), "nodes")
        adds = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("setitem", "update") and r.snap(n, n.d["target"]).op == "attr" and r.snap(n, n.d["target"]).args[1] == "nodes" and n.d.get("value") is val]
        if c == "TerminalNode":
            ctx.check("topology", where, not adds, "memoized calls are no components", adds[0] if adds else r.it.entry)
            continue
        loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and nodes in loop_bases(r, n)]
        ctx.minimum("topology", where, len(loops), 1, "loops over the trace")
        for l in loops[:1]:
            its = [n.id for n in r.nodes if n.kind == "iter" and n.d["head"] == l.id]
            p = r.path(its, [l.id] + [e.id for e, _, _ in r.ends], avoid=[n.id for n in adds])
            ctx.check("topology", where, p is None, "every function and global seen is known from then on", l, show_path(p))
        for n in adds:
            k = n.d.get("key")
            ok = k in (mk("key", nodes), mk("attr", val, "key")) or k is not None and k.op == "tuple" and all(x.op == "attr" and x.args[0] is val for x in k.args) and [x.args[1] for x in k.args] == ["module_name", "obj_name"]
            ctx.check("topology", where, ok, "under its own key", n)
    # globals seen become part of the code state
    g = mk("param", "graph")
    nodes = mk("attr", g, "nodes")
    val, where = mk("val", nodes), "CodeState.add_globals_from"
    r = ctx.run("CodeState", "add_globals_from", opaque=VB, tag=("c19",), setup=with_class(val, "GlobalVarNode"))
    loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and nodes in loop_bases(r, n)]
    ctx.minimum("topology", where, len(loops), 1, "loops over the trace")
    adds = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in ("setitem", "setdefault") and n.d.get("value") is val]
    known = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.cond.op == "op" and n.cond.args[0] == "in"]
    for l in loops[:1]:
        its = [n.id for n in r.nodes if n.kind == "iter" and n.d["head"] == l.id]
        p = r.path(its, [l.id] + [e.id for e, _, _ in r.ends], avoid=[n.id for n in adds] + known)
        ctx.check("topology", where, p is None, "a global seen for the first time is part of the code state from then on", l, show_path(p))


# -------------------------------------------------------------- who calls what
def wiring(ctx):
    r = executed(ctx)
    where = "Storage.call_internal[versioned]"
    S = r.P["self"]
    V, C = mk("attr", S, "cached_versioner"), mk("attr", S, "code_state")
    mks = calls_to(r, "make_tracer")
    tracer = {n.d["result"] for n in mks}
    ctx.minimum("wiring", where, len(mks), 1, "tracers made")
    for n in mks:
        ctx.check("wiring", where, n.d["recv"] is V, "the execution is traced as the open context's versioner says", n)
    graphs = {mk("attr", t, "graph") for t in tracer}
    seq = []
    for nm, q, ok, msg in (
            ("hypothesis", "mandala.deps.versioner.Versioner.apply_state_hypothesis", lambda n: n.d["recv"] is V and barg(r, n, "hypothesis") is C and barg(r, n, "trace_result") in {mk("attr", g, "nodes") for g in graphs},
             "the trace is checked against the code state of the open context"),
            ("topology", "mandala.deps.versioner.Versioner.update_global_topology", lambda n: n.d["recv"] is V and barg(r, n, "graph") in graphs, "the components seen become known"),
            ("globals", "mandala.deps.versioner.CodeState.add_globals_from", lambda n: n.d["recv"] is C and barg(r, n, "graph") in graphs, "globals seen become part of the code state"),
            ("ids", "mandala.deps.versioner.Versioner.get_version_ids", lambda n: n.d["recv"] is V and barg(r, n, "tracer_option") in tracer and is_const(barg(r, n, "is_recompute"), False)
             and is_call(barg(r, n, "pre_call_uid")) and short(barg(r, n, "pre_call_uid").args[0]) == "get_pre_call_id", "the versions are those of this execution's trace")):
        ns = calls_to(r, q)
        ctx.minimum("wiring", where, len(ns), 1, f"{nm} steps")
        for n in ns:
            ctx.check("wiring", where, ok(n), msg, n)
        seq.append(ns)
    news = [n for n in r.nodes if n.kind == "new" and n.d["cls"] == "Call" and r.snap(n, n.d["kwargs"].get("op", NONE)) is r.P["op"]]
    ctx.minimum("wiring", where, len(news), 1, "calls recorded")
    runs = exec_sites(r, r.P["op"])
    if not runs:
        runs = [n for n in r.nodes if n.kind == "call" and n.d.get("func") is not None and any(t is mk("attr", r.P["op"], "f") for t in subterms(n.d["func"])) and short(n.d["name"] or "") not in ("signature", "track")]
    ctx.minimum("wiring", where, len(runs), 1, "executions")
    chain = [("the execution", runs), ("the check against the code state", seq[0]), ("the recording of its trace", seq[3]), ("its call", news)]
    for (a, xs), (b, ys) in zip(chain, chain[1:]):
        p = r.path([r.it.entry.id], [y.id for y in ys], avoid=[x.id for x in xs])
        ctx.check("wiring", where, p is None, f"{b} comes after {a}", ys[0] if ys else r.it.entry, show_path(p))
    for nm, ns in (("components seen", seq[1]), ("globals seen", seq[2])):
        p = r.path([r.it.entry.id], [y.id for y in news], avoid=[x.id for x in ns])
        ctx.check("wiring", where, p is None, f"the {nm} become known with every execution", r.it.entry, show_path(p))
        p = r.path([x.id for x in ns], [y.id for y in seq[0]])
        ctx.check("wiring", where, p is None, f"the {nm} become known after the check against the code state", r.it.entry, show_path(p))
    ids = {n.d["result"] for n in seq[3]}
    for n in news:
        for f, i in (("content_version", 0), ("semantic_version", 1)):
            v = r.snap(n, n.d["kwargs"].get(f, NONE))
            ctx.check("wiring", where, v in {mk("sub", t, const(i)) for t in ids}, f"the call holds the {f.replace('_', ' ')} of its execution", n)
    # the function runs inside the tracer
    untraced = [n.id for n in r.nodes if none_test(n, tracer) == 1]  # (a tracer is always made)
    runs = [n for n in runs if r.path([r.it.entry.id], [n.id], avoid=untraced)]
    ctx.minimum("wiring", where, len(runs), 1, "traced executions")
    enters = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "__enter__" and n.d["recv"] in tracer]
    exits = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "__exit__" and n.d["recv"] in tracer]
    ctx.minimum("wiring", where, len(enters), 1, "traces started")
    p = r.path([r.it.entry.id], [n.id for n in runs], avoid=[n.id for n in enters] + untraced)
    ctx.check("wiring", where, p is None, "the function runs under the tracer", runs[0] if runs else r.it.entry, show_path(p))
    p = r.path([n.id for n in exits], [n.id for n in runs])
    ctx.check("wiring", where, p is None, "the function runs before the trace ends", runs[0] if runs else r.it.entry, show_path(p))
    p = r.path([n.id for n in runs], [n.id for n in seq[0]], avoid=[n.id for n in exits] + untraced)
    ctx.check("wiring", where, p is None, "the trace ends with the execution", runs[0] if runs else r.it.entry, show_path(p))


def leaves(ctx):
    where = "Storage.call[traced]"
    r = ctx.run("Storage", "call", opaque=op_names("boundargs_to_args_kwargs", "parse_args", "unwrap", "call_internal", "save_call", "from_annotation", "get_active_trace_obj", "set_active_trace_obj",
                                                   "register_leaf_event", "get_dep_key_from_func", "get_ordered_outputs"), attrs_=attrs(versioned=True, mode="run"), tag=("c19",))
    ci = calls_to(r, "mandala.storage.Storage.call_internal")
    ctx.minimum("leaves", where, len(ci), 1, "calls made")
    act = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "get_active_trace_obj"]
    ctx.minimum("leaves", where, len(act), 1, "readings of the active trace")
    p = r.path([r.it.entry.id], [n.id for n in ci], avoid=[n.id for n in act])
    ctx.check("leaves", where, p is None, "the trace of an enclosing execution is known before the call", r.it.entry, show_path(p))
    active = {n.d["result"] for n in act}
    regs = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "register_leaf_event"]
    ctx.minimum("leaves", where, len(regs), 1, "memoized calls reported to the trace")
    none = [n.id for n in r.nodes if none_test(n, active) == 1]
    p = r.path([n.id for n in ci], [e.id for e, _, _ in r.ends], avoid=[n.id for n in regs] + none)
    ctx.check("leaves", where, p is None, "every call made in a traced execution, found or executed, is reported to its trace", r.it.entry, show_path(p))
    main = {mk("sub", n.d["result"], const(1)) for n in ci}
    f = mk("attr", r.P["op"], "f")
    keys = {n.d["result"]: n for n in calls_to(r, "get_dep_key_from_func")}
    for n in regs:
        a = [r.snap(n, x) for x in list(n.d["args"]) + list(n.d["kwargs"].values())]
        ctx.check("leaves", where, any(x in active for x in a), "it is reported to the trace that was active", n)
        data = [x for x in list(n.d["args"]) + list(n.d["kwargs"].values()) if x.op == "obj"]
        if not ctx.check("leaves", where, len(data) == 1, "what is reported are the call's data", n):
            continue
        st = {k[1]: v for k, v in n.heap.items() if k[0] is data[0] and isinstance(k[1], str)}
        ok = st.get("call_content_version") in {mk("attr", m, "content_version") for m in main}
        ctx.check("leaves", where, ok, "with the content version of the call", n)
        ok = st.get("call_semantic_version") in {mk("attr", m, "semantic_version") for m in main}
        ctx.check("leaves", where, ok, "with the semantic version of the call", n)
        k = st.get("dep_key")
        ok = k in keys and barg(r, keys[k], "func") is f or k is not None and k.op == "tuple" and len(k.args) == 2 and all(any(x is f for x in subterms(y)) for y in k.args)
        ctx.check("leaves", where, ok, "under the function called", n)
