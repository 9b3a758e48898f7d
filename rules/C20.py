"""The history of a component's code and globals."""
import ast

from .common import *

EXPLANATION = (
    "Symbolic path and value-flow analysis of the history of every component, once per kind of content: what a commit stores, its semantic id per answer of the user, composition of taking and applying a difference, "
    "what synchronising does per case, which operations touch commits, and the all-or-nothing synchronisation of the code base on a copy."
)
ASSUMPTIONS = ["content hashes do not collide", "copy.deepcopy copies"]
VB = lambda f: False
LEAF = lambda f: f.cls is None and f.name == "get_content_hash"
KINDS = {"StringContentAdapter": "CallableNode", "GlobalVariableContentAdapter": "GlobalVarNode"}
GROWING = {"setitem", "setdefault"}
SHRINKING = {"delitem", "pop", "popitem", "clear", "update", "remove"}


def check(ctx):
    for a in KINDS:
        adapter(ctx, a)
        init(ctx, a)
        commit(ctx, a)
        sync(ctx, a)
        content(ctx, a)
    checkout(ctx)
    ask(ctx)
    for a, c in KINDS.items():
        component(ctx, a, c)
    codebase(ctx)
    one(ctx)
    growing(ctx)
    saved(ctx)


def typed_run(ctx, a, cls, meth, opaque=VB, facts=frozenset(), **kw):
    def setup(it, st):
        s = mk("param", "self")
        t = mk("param", "adapter")
        st.heap[(s, "content_adapter")] = t
        it.hints[t] = a
        it.hints[("exact", t)] = True
        st.facts = st.facts | facts
    return ctx.run(cls, meth, opaque=opaque, tag=("c20", a, str(sorted((kw.get("params") or {}).items(), key=str))), setup=setup, **kw)


HASH = ("StringContentAdapter.get_content_hash", "GlobalVariableContentAdapter.get_content_hash")


def hash_of(t, content):
    return is_call(t) and short(t.args[0]) == "get_content_hash" and len([x for x in cargs(t)]) >= 1 and any((x.args[1] if x.op == "kw" else x) is content for x in cargs(t))


def unkw(t):
    return t.args[1] if t.op == "kw" else t


def applied(ctx, a, b, diff):
    """the content obtained by applying a difference"""
    r = ctx.run(a, "apply_diff", opaque=VB, tag=("c20", str(b), str(diff)), params={"b": b, "diff": diff})
    return {x for n, s, v in r.ends for x in alts(r.it.snap(s, v))}


# ----------------------------------------------------------------- adapters
def adapter(ctx, a):
    where = f"{a}"
    A, B = mk("param", "a"), mk("param", "b")
    r = ctx.run(a, "get_diff", opaque=VB, tag=("c20",), params={"a": A, "b": B})
    ctx.minimum("difference", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        for d in alts(r.it.snap(s, v)):
            res = applied(ctx, a, B, d)
            ctx.check("difference", where, res == {A}, "applying the difference to the old content gives the new content", n)
    # the history's hash of a content is the component's
    c = KINDS[a]
    r1 = ctx.run(c, "content", opaque=VB, tag=("c20",))
    ctx.minimum("hash", f"{c}.content", len(r1.ends), 1, "results")
    S = r1.P["self"]
    rep = {mk("attr", S, "_representation"), mk("attr", S, "representation")}
    for n, s, v in r1.ends:
        ctx.check("hash", f"{c}.content", v in rep, "the content of a component is its representation", n)
        r2 = ctx.run(a, "get_content_hash", opaque=LEAF, tag=("c20", str(v)), params={"content": v})
        r3 = ctx.run(c, "content_hash", opaque=VB, tag=("c20",))
        h2 = {x for m, t, w in r2.ends for x in alts(r2.it.snap(t, w))}
        h3 = {x for m, t, w in r3.ends for x in alts(r3.it.snap(t, w))}
        if c == "CallableNode":
            ok = h3 <= {mk("attr", S, "_content_hash")} and bool(h3) and bool(h2) and all(hash_of(x, v) for x in h2)
        else:
            ok = len(h2) == 1 and h2 == h3
        ctx.check("hash", f"{c}.content_hash", ok, "a component has the same content hash as its content has in the history", r3.it.entry)
    if c == "CallableNode":
        r = ctx.run("CallableNode", "from_obj", opaque=op_names("represent", "extract_code", "get_runtime_description", base=LEAF), tag=("c20",))
        ctx.minimum("hash", "CallableNode.from_obj", len(r.ends), 1, "results")
        for n, s, v in r.ends:
            for o in alts(v):
                x, h = s.heap.get((o, "_representation")), s.heap.get((o, "_content_hash"))
                if x is None or x is NONE:
                    continue
                ok = h is not None and hash_of(h, x)
                ctx.check("hash", "CallableNode.from_obj", ok, "the content hash of a function is that of its source", n)


# ------------------------------------------------------------------ the graph
def stores(r):
    S = r.P["self"]
    C = mk("attr", S, "commits")
    return [n for n in r.nodes if n.kind == "mut" and r.snap(n, n.d["target"]) is C or n.kind == "setattr" and n.d["base"] is S and n.d["attr"] == "commits"]


def heads(r):
    return [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is r.P["self"] and n.d["attr"] == "head"]


def fields(r, n, c):
    return {f: r.snap(n, n.heap[(c, f)]) if (c, f) in n.heap else None for f in ("parents", "diffs", "content_hash", "semantic_hash", "_content")}


def one_elem(t):
    cs = coverage(t)
    return cs[0].val if len(cs) == 1 and not cs[0].bases and not cs[0].guards else None


def init(ctx, a):
    where = f"DAG.init[{a}]"
    r = typed_run(ctx, a, "DAG", "init", op_names(*HASH, base=VB))
    x = r.P["initial_content"]
    ends = [e.id for e, _, _ in r.ends]
    ss = stores(r)
    ctx.minimum("first", where, len(r.ends), 1, "results")
    ok = [n for n in ss if n.kind == "mut" and n.d["how"] in GROWING]
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in ok])
    ctx.check("first", where, p is None, "the first content is committed", r.it.entry, show_path(p))
    for n in ss:
        if n not in ok:
            ctx.bad("first", where, "a commit is stored under its content hash", n)
            continue
        ctx.check("first", where, hash_of(n.d["key"], x), "the first commit is stored under its content hash", n)
        for c in alts(n.d["value"]):
            f = fields(r, n, c)
            ctx.check("first", where, f["_content"] is x, "the first commit holds its content", n)
            ctx.check("first", where, f["content_hash"] is not None and hash_of(f["content_hash"], x) and f["semantic_hash"] is not None and hash_of(f["semantic_hash"], x), "the ids of the first commit are its content hash", n)
            ctx.check("first", where, f["parents"] is not None and not coverage(f["parents"]), "the first commit has no parent", n)
    for n, s, v in r.ends:
        h = s.heap.get((r.P["self"], "head"))
        ctx.check("first", where, h is not None and hash_of(h, x), "the first commit is the head", n)
        i = s.heap.get((r.P["self"], "_initial_commit"))
        ctx.check("first", where, i is not None and hash_of(i, x), "the first commit is known as such", n)


MR = lambda n: ["?"] if n.kind == "call" else None


COMMIT = op_names("get_content", "get_presentable_content", "ask_user", "_get_colorized_diff", *HASH, base=VB)


def commit(ctx, a):
    for given in (const(True), const(False)):
        committed(ctx, a, "semantic" if given is const(True) else "not semantic", given, given is const(True), {"is_semantic_change": given})
    # the user decides
    where = f"DAG.commit[{a}, asked]"
    r = typed_run(ctx, a, "DAG", "commit", COMMIT, params={"is_semantic_change": NONE})
    asks = calls_to(r, "mandala.utils.ask_user")
    ctx.minimum("commit", where, len(asks), 1, "questions")
    p = r.path([r.it.entry.id], [e.id for e, _, _ in r.ends], avoid=[n.id for n in asks])
    ctx.check("commit", where, p is None, "the user decides whether a change is semantic", r.it.entry, show_path(p))
    for m in asks:
        valid = [const_val(e.val) for e in coverage(r.snap(m, barg(r, m, "valid_options")))]
        if not ctx.check("commit", where, {"y", "n"} <= set(valid), "yes and no are valid answers", m):
            continue
        for w in valid:
            facts = set()
            for n in r.nodes:
                g = n.cond if n.kind == "assume" else None
                if g is not None and g.op == "op" and g.args[0] == "eq" and m.d["result"] in g.args[1:]:
                    o = [t for t in g.args[1:] if t is not m.d["result"]]
                    if o and o[0].op == "const":
                        facts.add((g, const_val(o[0]) == w))
                if g is not None and g.op == "op" and g.args[0] == "in" and g.args[1] is m.d["result"]:
                    facts.add((g, w in [const_val(e.val) for e in coverage(g.args[2])]))
            committed(ctx, a, f"answer {w}", NONE, {"y": True, "n": False}.get(w), {"is_semantic_change": NONE}, facts)


def committed(ctx, a, tag, given, semantic, params, facts=()):
    where = f"DAG.commit[{a}, {tag}]"
    r = typed_run(ctx, a, "DAG", "commit", COMMIT, may_raise=MR, params=params, facts=frozenset(facts))
    S, x = r.P["self"], r.P["content"]
    C, H0 = mk("attr", S, "commits"), mk("attr", S, "head")
    old = mk("attr", mk("sub", C, H0), "semantic_hash")
    ends = [e.id for e, _, _ in r.ends]
    ss = stores(r)
    muts = [n.id for n in ss + heads(r)]
    if semantic is None:
        ctx.check("commit", where, not muts and not ends, "anything but yes or no aborts the commit", r.it.entry)
        return
    ctx.minimum("commit", where, len(r.ends), 1, "results")
    ok = [n for n in ss if n.kind == "mut" and n.d["how"] in GROWING]
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in ok])
    ctx.check("commit", where, p is None, "new content is committed", r.it.entry, show_path(p))
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in heads(r)])
    ctx.check("commit", where, p is None, "the new commit becomes the head", r.it.entry, show_path(p))
    for n in heads(r):
        ctx.check("commit", where, hash_of(r.snap(n, n.d["value"]), x), "the new commit becomes the head", n)
    for n in ss:
        if n not in ok:
            ctx.bad("commit", where, "commits are only added", n)
            continue
        ctx.check("commit", where, hash_of(n.d["key"], x), "a commit is stored under its content hash", n)
        fresh = any(g.op == "op" and g.args[0] == "in" and hash_of(g.args[1], x) and g.args[2] is C and not p for g, p in n.facts)
        ctx.check("commit", where, fresh, "only content that was never committed is added", n)
        for c in alts(n.d["value"]):
            f = fields(r, n, c)
            if not ctx.check("commit", where, all(f[k] is not None for k in f), "what is stored is a commit", n):
                continue
            ctx.check("commit", where, hash_of(f["content_hash"], x), "a commit knows its content hash", n)
            ctx.check("commit", where, one_elem(f["parents"]) is H0, "the parent of a new commit is the commit before it", n)
            d = one_elem(f["diffs"])
            if f["_content"] is not NONE:
                ctx.check("commit", where, f["_content"] is x, "a commit that holds content holds its own", n)
            elif ctx.check("commit", where, d is not None, "a commit holds the difference to its parent", n):
                parent = {m.d["result"] for m in calls_to(r, "mandala.deps.shallow_versions.DAG.get_content") if barg(r, m, "commit") is H0}
                ctx.check("commit", where, any(applied(ctx, a, b, d) == {x} for b in parent | {mk("param", "b")}), "the difference to the parent gives the content", n)
            sem = f["semantic_hash"]
            ctx.check("commit", where, hash_of(sem, x) if semantic else sem is old, "a semantic change gets a new semantic id" if semantic else "other changes keep the semantic id", n)
    p = r.path(muts, [node_of(e).id for e in r.rends])
    ctx.check("commit", where, p is None, "a commit that fails leaves the history as it was", r.it.entry, show_path(p))


def node_of(e):
    return e[0] if isinstance(e, tuple) else e


def checkout(ctx):
    where = "DAG.checkout"
    r = ctx.run("DAG", "checkout", opaque=VB, tag=("c20",))
    S, k = r.P["self"], r.P["commit"]
    C = mk("attr", S, "commits")
    for n in stores(r):
        ctx.bad("checkout", where, "checking out an earlier commit changes no commit", n)
    ctx.minimum("checkout", where, len(r.ends), 1, "results")
    for n in heads(r):
        ok = r.snap(n, n.d["value"]) is k and any(g.op == "op" and g.args[0] == "in" and g.args[1] is k and g.args[2] is C and p for g, p in n.facts)
        ctx.check("checkout", where, ok, "only a commit of the history is checked out", n)
    p = r.path([r.it.entry.id], [e.id for e, _, _ in r.ends], avoid=[n.id for n in heads(r)])
    ctx.check("checkout", where, p is None, "the commit checked out is the head", r.it.entry, show_path(p))


def sync(ctx, a):
    where = f"DAG.sync[{a}]"
    r = typed_run(ctx, a, "DAG", "sync", op_names("DAG.commit", *HASH, base=VB), asserts="assume")
    S, x = r.P["self"], r.P["content"]
    C, H0 = mk("attr", S, "commits"), mk("attr", S, "head")
    cs = calls_to(r, "mandala.deps.shallow_versions.DAG.commit")
    ctx.minimum("sync", where, len(r.ends), 1, "results")
    ctx.minimum("sync", where, len(cs), 1, "commits of new content")
    for n in stores(r):
        ctx.bad("sync", where, "synchronising changes no commit that exists", n)

    def known(facts, pol):
        return any(g.op == "op" and g.args[0] == "in" and hash_of(g.args[1], x) and g.args[2] is C and p == pol for g, p in facts)

    def current(facts, pol):
        return any(g.op == "op" and g.args[0] == "eq" and H0 in g.args[1:] and any(hash_of(y, x) for y in g.args[1:]) and p == pol for g, p in facts)
    for n in cs:
        ctx.check("sync", where, n.d["recv"] is S and barg(r, n, "content") is x, "new content is committed", n)
        ctx.check("sync", where, barg(r, n, "is_semantic_change") is r.P["is_semantic_change"], "whether the change is semantic is as the caller says", n)
        ctx.check("sync", where, known(n.facts, False) or n.d["recv"] is S and False, "only content that was never committed is added", n)
    hs = heads(r)
    for n in hs:
        ctx.check("sync", where, hash_of(r.snap(n, n.d["value"]), x) and known(n.facts, True), "content that was committed before is checked out", n)
    same = [n.id for n in r.nodes if n.kind == "assume" and current([(n.cond, n.d["pol"])], True) and H0 in n.cond.args and not r.path([m.id for m in cs], [n.id])]
    p = r.path([r.it.entry.id], [e.id for e, _, _ in r.ends], avoid=[n.id for n in cs + hs] + same)
    ctx.check("sync", where, p is None, "the head is the given content afterwards", r.it.entry, show_path(p))
    res = {n.d["result"] for n in cs}
    for n, s, v in r.ends:
        ok = all(hash_of(y, x) or y in res or y is H0 and True for y in alts(v))
        ctx.check("sync", where, ok, "the id of the content is returned", n)


def content(ctx, a):
    where = f"DAG.get_content[{a}]"
    r = typed_run(ctx, a, "DAG", "get_content")
    S, k = r.P["self"], r.P["commit"]
    C = mk("sub", mk("attr", S, "commits"), k)
    own = mk("attr", C, "_content")
    parent = [n for n in calls_to(r, "mandala.deps.shallow_versions.DAG.get_content")]
    P0, D0 = mk("sub", mk("attr", C, "parents"), const(0)), mk("sub", mk("attr", C, "diffs"), const(0))
    ctx.minimum("content", where, len(r.ends), 1, "results")
    for n in parent:
        ctx.check("content", where, barg(r, n, "commit") is P0, "a content is computed from that of the commit before it", n)
    rec = applied(ctx, a, parent[0].d["result"] if parent else mk("param", "b"), D0)
    for n, s, v in r.ends:
        vs = alts(r.it.snap(s, v))
        for y in vs:
            ctx.check("content", where, y is own or y in rec, "the content of a commit is its own, or its difference applied to its parent's", n)
        if any(y in rec for y in vs):
            has = [m.id for m in r.nodes if m.kind == "assume" and m.cond.op == "op" and m.cond.args[0] == "isnone" and m.cond.args[1] is own]
            ctx.check("content", where, bool(has), "a commit that holds its content is not computed", n)


def ask(ctx):
    where = "ask_user"
    r = ctx.run(None, "ask_user", opaque=VB, tag=("c20",))
    o = r.P["valid_options"]
    ctx.minimum("answers", where, len(r.ends), 1, "results")
    for n, s, v in r.ends:
        ok = any(g.op == "op" and g.args[0] == "in" and g.args[1] is v and g.args[2] is o and p for g, p in s.facts)
        ctx.check("answers", where, ok, "only a valid answer is taken", n)


# ------------------------------------------------------------------ components
def component(ctx, a, c):
    where = f"Versioner.init_component[{c}]"
    node = mk("param", "node")

    def setup(it, st):
        it.hints[node] = c
        it.hints[("exact", node)] = True
    r = ctx.run("Versioner", "init_component", opaque=op_names("DAG.init", base=VB), tag=("c20", c), setup=setup)
    S, k = r.P["self"], r.P["component"]
    ctx.minimum("component", where, len(r.ends), 1, "results")
    inits = calls_to(r, "mandala.deps.shallow_versions.DAG.init")
    ends = [e.id for e, _, _ in r.ends]
    for n in inits:
        ctx.check("component", where, barg(r, n, "initial_content") is r.P["initial_content"], "a history starts with the initial content", n)
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in inits])
    ctx.check("component", where, p is None, "a history starts with the initial content", r.it.entry, show_path(p))
    sets = [n for n in r.nodes if n.kind == "mut" and n.d["how"] in GROWING and r.snap(n, n.d["target"]) is mk("attr", S, "component_dags") and n.d["key"] is k]
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in sets])
    ctx.check("component", where, p is None, "every component has a history", r.it.entry, show_path(p))
    for n in sets:
        for d in alts(n.d["value"]):
            ad = n.heap.get((d, "content_adapter"))
            ok = any(m.d["recv"] is d for m in inits) and ad is not None and all(a in str(z) for z in alts(ad))
            ctx.check("component", where, ok, "the history is one of contents of this kind", n)


def node_content(t, k):
    """t is the content of the code state's node of component k"""
    for f in ("content", "_representation", "representation"):
        if is_call(t) and short(t.args[0]) == f:
            t0 = unkw(cargs(t)[0])
        elif t.op == "attr" and t.args[1] == f:
            t0 = t.args[0]
        else:
            continue
        return t0.op == "sub" and t0.args[1] is k and t0.args[0].op == "attr" and t0.args[0].args[1] == "nodes" and t0.args[0].args[0]
    return None


def copied(t):
    """t is a deep copy of something: what of"""
    return unkw(cargs(t)[0]) if is_call(t) and short(t.args[0]) == "deepcopy" and cargs(t) else None


def codebase(ctx):
    where = "Versioner.sync_codebase"
    r = ctx.run("Versioner", "sync_codebase", opaque=op_names("DAG.sync", "get_dependent_versions", "content", "content_hash", base=VB), tag=("c20",), may_raise=MR)
    S, st = r.P["self"], r.P["code_state"]
    D = mk("attr", S, "component_dags")
    ends = [e.id for e, _, _ in r.ends]
    syncs = calls_to(r, "mandala.deps.shallow_versions.DAG.sync")
    ctx.minimum("codebase", where, len(r.ends), 1, "results")
    ctx.minimum("codebase", where, len(syncs), 1, "synchronised histories")

    def keys(base):
        return (mk("key", base), mk("elem", base))

    def history(t):
        """the component whose copied history t is"""
        if t.op in ("val", "sub") and copied(t.args[0]) is D:
            return keys(t.args[0]) + keys(D) if t.op == "val" else (t.args[1],)
        x = copied(t)
        if x is not None and x.op in ("val", "sub") and x.args[0] is D:
            return keys(D) if x.op == "val" else (x.args[1],)
        return ()
    for n in syncs:
        ks = history(n.d["recv"])
        if not ctx.check("codebase", where, bool(ks), "histories are synchronised on a copy", n):
            continue
        x = barg(r, n, "content")
        ctx.check("codebase", where, all(any(node_content(y, k) is st for k in ks) for y in alts(x)), "every history is synchronised with its own component's current content", n)
        sem = barg(r, n, "is_semantic_change")
        ctx.check("codebase", where, sem is None or sem is NONE, "the user decides which changes are semantic", n)
    loops = [l for l in r.nodes if l.kind == "loop" and any(b is D or copied(b) is D for b in loop_bases(r, l))]
    ctx.minimum("codebase", where, len(loops), 1, "loops over the histories")
    main = [l for l in loops if r.path([i.id for i in r.nodes if i.kind == "iter" and i.d["head"] == l.id], [n.id for n in syncs], avoid=[l.id])]
    ctx.minimum("codebase", where, len(main), 1, "loops that synchronise")
    sets = [n for n in r.nodes if n.kind == "setattr" and n.d["base"] is S and n.d["attr"] == "component_dags"]
    for l in main:
        its = [i.id for i in r.nodes if i.kind == "iter" and i.d["head"] == l.id]
        outs = [l.id] + ends + [n.id for n in sets]
        p = r.path(its, outs, avoid=[n.id for n in syncs])
        ctx.check("codebase", where, p is None, "every known component is synchronised", l, show_path(p))
    for b in {b for l in main for b in loop_bases(r, l)}:
        for n in broken_loops(r, b):
            ctx.bad("codebase", where, "every known component is synchronised", n)
    done = [n.id for n in r.nodes if n.kind == "endloop" and n.d["head"] in {l.id for l in main}]
    p = r.path([r.it.entry.id], ends, avoid=done)
    ctx.check("codebase", where, p is None, "every known component is synchronised", r.it.entry, show_path(p))
    p = r.path([r.it.entry.id], ends, avoid=[n.id for n in sets])
    ctx.check("codebase", where, p is None, "the synchronised histories replace the earlier ones", r.it.entry, show_path(p))
    for n in sets:
        v = r.snap(n, n.d["value"])
        full = copied(v) is D or any(len(c.bases) == 1 and (c.bases[0] is D or copied(c.bases[0]) is D) and not c.guards and c.key in keys(c.bases[0]) and any(c.key is k for k in history(c.val)) for c in coverage(v))
        ctx.check("codebase", where, full, "the histories of all components are kept", n)
        if copied(v) is D:
            ctx.check("codebase", where, all(m.d["recv"].args[0] is v for m in syncs if history(m.d["recv"])), "the synchronised histories replace the earlier ones", n)
        p = r.path([r.it.entry.id], [n.id], avoid=done)
        ctx.check("codebase", where, p is None, "histories are replaced only after all were synchronised", n, show_path(p))
        p = r.path([n.id], [node_of(e).id for e in r.rends])
        ctx.check("codebase", where, p is None, "if synchronising is aborted, every history stays as it was", n, show_path(p))
    for n in r.nodes:
        if n.kind == "mut" and any(t is D for t in subterms(r.snap(n, n.d["target"]))) and not any(copied(t) is not None for t in subterms(r.snap(n, n.d["target"]))):
            ctx.bad("codebase", where, "if synchronising is aborted, every history stays as it was", n)


def one(ctx):
    where = "Versioner.sync_component"
    r = ctx.run("Versioner", "sync_component", opaque=op_names("DAG.sync", "content", base=VB), tag=("c20",))
    S, k = r.P["self"], r.P["component"]
    ss = calls_to(r, "mandala.deps.shallow_versions.DAG.sync")
    ctx.minimum("one", where, len(ss), 1, "synchronised histories")
    for n in ss:
        ctx.check("one", where, n.d["recv"] is mk("sub", mk("attr", S, "component_dags"), k), "the history of the component is synchronised", n)
        ctx.check("one", where, all(node_content(y, k) is r.P["code_state"] for y in alts(barg(r, n, "content"))), "with its current content", n)
        ctx.check("one", where, barg(r, n, "is_semantic_change") is r.P["is_semantic_change"], "as the kind of change the caller says", n)
    p = r.path([r.it.entry.id], [e.id for e, _, _ in r.ends], avoid=[n.id for n in ss])
    ctx.check("one", where, p is None, "the history of the component is synchronised", r.it.entry, show_path(p))
    where = "Storage.sync_code"
    r = ctx.run("Storage", "sync_code", attrs_=attrs(versioned=True, mode="run"), tag=("c20",), opaque=op_names("get_versioner"))
    ctx.minimum("one", where, len(r.ends), 1, "results")
    ss, gs = calls_to(r, "mandala.deps.versioner.Versioner.sync_codebase"), calls_to(r, "mandala.deps.versioner.Versioner.guess_code_state")
    ctx.minimum("one", where, len(ss), 1, "synchronisations")
    vs = {n.d["result"] for n in calls_to(r, "get_versioner")}
    for n in ss:
        ctx.check("one", where, n.d["recv"] in vs and all(y in {g.d["result"] for g in gs if g.d["recv"] in vs} for y in alts(barg(r, n, "code_state"))), "the histories are synchronised with the current code", n)
    p = r.path([r.it.entry.id], [e.id for e, _, _ in r.ends], avoid=[n.id for n in ss])
    ctx.check("one", where, p is None, "the histories are synchronised with the current code", r.it.entry, show_path(p))
    for n, s, v in r.ends:
        v = r.it.snap(s, v)
        ok = v.op == "tuple" and len(v.args) == 2 and v.args[0] in vs and set(alts(v.args[1])) <= {g.d["result"] for g in gs}
        ctx.check("one", where, ok, "the versioner and the code state it was synchronised with are returned", n)
    where = "Storage.sync_component"
    r = ctx.run("Storage", "sync_component", attrs_=attrs(versioned=True, mode="run"), tag=("c20",), opaque=op_names("get_versioner", "get_dep_key_from_func"))
    ss, gs = calls_to(r, "mandala.deps.versioner.Versioner.sync_component"), calls_to(r, "mandala.deps.versioner.Versioner.guess_code_state")
    ctx.minimum("one", where, len(ss), 1, "synchronisations")
    for n in ss:
        k = barg(r, n, "component")
        ctx.check("one", where, is_call(k) and short(k.args[0]) == "get_dep_key_from_func" and any(t is r.P["component"] for t in subterms(k)), "the history of the given function is synchronised", n)
        ctx.check("one", where, set(alts(barg(r, n, "code_state"))) <= {g.d["result"] for g in gs}, "with the current code", n)
        ctx.check("one", where, barg(r, n, "is_semantic_change") is r.P["is_semantic_change"], "as the kind of change the caller says", n)


# ------------------------------------------------------------- nothing is lost
def growing(ctx):
    n_runs = 0
    for cls in ("Versioner", "DAG"):
        c = ctx.prog.cls(cls)
        for name in sorted(c.methods):
            if name.startswith("__") or cls == "DAG" and name in ("init", "commit"):
                continue
            try:
                r = ctx.run(cls, name, opaque=op_names(*(x for x in ("DAG.init", "DAG.commit", "DAG.sync", "show", "present_dependencies", "get_tree_rich") if x.split(".")[-1] != name), base=VB), tag=("c20", "grow"))
            except TimeoutError:
                continue
            n_runs += 1
            where = f"{cls}.{name}"
            for n in r.nodes:
                if n.kind == "mut":
                    t = r.snap(n, n.d["target"])
                    if t.op == "attr" and t.args[1] == "commits":
                        ctx.bad("kept", where, "commits are only added by committing", n)
                    if t.op == "attr" and t.args[1] == "component_dags" and n.d["how"] in SHRINKING:
                        ctx.bad("kept", where, "histories are never dropped", n)
                if n.kind == "setattr" and n.d["attr"] in ("commits", "diffs", "parents", "content_hash", "semantic_hash", "_content", "_initial_commit") and (n.d["base"], "$alloc") not in n.heap:
                    ctx.bad("kept", where, "commits never change", n)
            ctx.ok("kept", where, "no commit or history is changed or dropped", r.it.entry)
    ctx.minimum("kept", "Versioner, DAG", n_runs, 20, "operations analysed")


def saved(ctx):
    """the histories are saved under the name they are read from"""
    cls = ctx.prog.classes.get("Storage")
    if cls is None:
        return
    reads, writes = set(), {}

    def of_sources(e):
        while isinstance(e, ast.Attribute) and e.attr in ("cache", "persistent"):
            e = e.value
        return isinstance(e, ast.Attribute) and e.attr == "sources"

    def key(e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None
    for x in ast.walk(cls.node):
        if isinstance(x, ast.Subscript) and of_sources(x.value):
            if isinstance(x.ctx, ast.Store):
                writes.setdefault(key(x.slice), x)
            else:
                reads.add(key(x.slice))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and of_sources(x.func.value):
            k = next((w.value for w in x.keywords if w.arg == "key"), x.args[0] if x.args else None)
            if x.func.attr == "set":
                writes.setdefault(key(k), x)
            elif x.func.attr in ("get", "exists"):
                reads.add(key(k))
    if None in reads or None in writes:
        return
    ctx.count("places where histories are saved or read", len(reads) + len(writes))
    for k, x in writes.items():
        ctx.check("saved", "Storage.sources", k in reads, f"what is saved under {k!r} is read again", f"mandala/storage.py:{x.lineno}")
