"""Tables of a computation frame show the histories of its final values; only deletion changes the storage."""
from .members import *
from .C25 import inn, atm, X
from .C26 import walk, contains
from .C27 import fresh

EXPLANATION = (
    "Path-sensitive analysis of the steps a table is made of: which calls and values the history of a value consists of and under which names, that histories are followed through every variable, that every value of every final variable has a row and every table is joined, "
    "and what of it each option keeps, loads or leaves. Of deletion and attachment, that exactly the elements stated reach the storage; of everything else in computation frames, that no call reaches an operation that writes."
)
ASSUMPTIONS = ["pandas merges and concatenates tables as documented; which rows a join yields is not analysed", "the indexes of a frame agree (C24), sub-frames are those of C26, deletion drops what C13 says"]
S = mk("param", "self")
HIST = {"get_direct_history", "get_total_history", "get_history_df", "get_joint_history_df", "eval_df", "midstream", "get_sink_elts", "in_neighbors", "in_edges", "get_reverse_proj", "_unify_subobjects", "_is_subobject", "sort_nodes", "_sort_df"}


def check(ctx):
    for calls in (True, False):
        direct(ctx, calls)
        total(ctx, calls)
        rows(ctx, calls)
    unions(ctx)
    joint(ctx)
    table(ctx)
    one_node(ctx)
    values(ctx)
    deletion(ctx)
    attach(ctx)
    reads(ctx)


def go(ctx, name, tag=(), also=(), pure=False, facts=(), inline=(), **params):
    op = contracts(ctx, name, inline=VIEWS)

    def setup(it, st):
        it.hints[S] = CF
        it.pure_lookup = pure
        st.facts = st.facts | frozenset(facts)
    return ctx.run(CF, name, opaque=lambda f: f.name not in inline and f.name != name and (f.name in ENTRY | HIST | set(also) or op(f)), tag=("c28", name) + tuple(tag), params=params or None, setup=setup)


def same(a, b):
    plain = lambda t: mk("attr", *t.args[-2:]) if t.op == "attr" else t
    return a is b or plain(a) is plain(b) or a.op == b.op == "sub" and a.args[1] is b.args[1] and same(a.args[0], b.args[0])


def earlier(t):
    """what a variable held when the loop came round"""
    return any(a.op == "unk" for a in alts(t))


def short(n):
    return str(n.d["name"]).rsplit(".", 1)[-1] if n.kind == "call" else None


def calls_of(r, *names):
    return [n for n in r.nodes if short(n) in names]


def args(n):
    return list(n.d["args"]) + list(n.d["kwargs"].values())


def entries(r):
    """elements put into the sets kept per key: (node, mapping, key, element)"""
    out = []
    put_ = [(m.d["target"], m.d["key"], m.d["value"]) for m in r.nodes if m.kind == "mut" and m.d["how"] == "setitem"]
    put_ += [(b, k, z) for b, k, v, _ in r.it.looked for z in alts(v)]
    for m in r.nodes:
        if m.kind != "mut":
            continue
        if m.d["how"] in ("add", "update", "append"):
            for b, k, v in {(b, k, v) for b, k, v in put_ if v is m.d["target"]}:
                out += [(m, b, k, r.snap(m, a)) for a in m.d["args"]]
        elif m.d["how"] == "setitem":
            v = r.snap(m, m.d["value"])
            if any(y.op not in ("items", "obj") or len(y.args) > 1 for y in alts(v)) or contains_any(v):
                out.append((m, m.d["target"], m.d["key"], v))
    return out


def contains_any(v):
    return any(y.op == "items" and len(y.args) > 1 for y in walk(v))


def values_of(t):
    """the elements of a set written out, or the term itself"""
    out = []
    for a in alts(t):
        its = [y for y in walk(a) if y.op == "items" and len(y.args) > 1]
        out += [z for y in its for i in y.args[1:] for z in alts(i.args[1])] if its else [a]
    return out


# ------------------------------------------------------------------------- history
def direct(ctx, with_calls):
    rule = "history"
    name = "get_direct_history"
    r = go(ctx, name, (with_calls,), also=("vnames",), include_calls=const(with_calls))
    where = f"{CF}.{name} ({'with' if with_calls else 'without'} calls)"
    H, V = mk("param", "hids"), mk("param", "vname")
    hid = mk("elem", H)
    got = [y for n in r.nodes if n.kind == "assume" for y in walk(n.d["cond"]) if y.op == "call" and y.args[0] == ".get" and same(y.args[1], atm(S, "creator")) and y.args[2] is hid]
    chid = got[0] if got else mk("sub", atm(S, "creator"), hid)
    call = mk("sub", atm(S, "calls"), chid)
    ins = mk("attr", call, "inputs")
    es = [(m, b, k, z) for m, b, k, v in entries(r) for z in values_of(v)]
    near = [n for n in calls_of(r, "in_neighbors")]
    for n in near:
        ctx.check(rule, where, given(ctx, r, n, "node") is V, "the calls that made a value are looked for next to its variable", n)
    ofcall = [(m, b, k) for m, b, k, z in es if z is chid]
    ofval = [(m, b, k, z) for m, b, k, z in es if z is not chid]
    nodes = lambda k: contains(k, mk("sub", atm(S, "callinv"), chid)) and any(contains(k, n.d["result"]) for n in near)
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and nodes(mk("elem", r.snap(l, l.d["siter"])))]
    at_node = lambda m, k: any(m.id in body(r, l) for l in loops) and k.op == "elem" and contains(k, mk("sub", atm(S, "callinv"), chid))
    ctx.minimum(rule, where, len(loops), 1, "goes through the nodes with the call that made the value")
    if with_calls:
        ctx.minimum(rule, where, len(ofcall), 1, "calls noted")
        for l in loops:
            ms = [m for m, b, k in ofcall if m.id in body(r, l)]
            every_item(ctx, r, rule, where, l, ms, "the call that made the value is shown in each of its nodes next to the variable")
    else:
        ctx.check(rule, where, not ofcall, "calls are left out", r.it.entry)
    for m, b, k in ofcall:
        ctx.check(rule, where, at_node(m, r.snap(m, k)), "calls go under the node they are in", m, show(k))
    # inputs
    ctx.minimum(rule, where, len(ofval), 1, "inputs noted")
    edges = calls_of(r, "in_edges")
    for n in edges:
        ctx.check(rule, where, at_node(n, given(ctx, r, n, "node")), "the edges into the node of the call are followed", n)
    for m, b, k, z in ofval:
        k = r.snap(m, k)
        e = [y for n in edges for y in walk(k) if y is mk("elem", n.d["result"])]
        ctx.check(rule, where, bool(e) and k is mk("sub", e[0], const(0)), "an input goes under the variable at the other end of the edge", m, show(k))
        if not e:
            continue
        key = [y.args[1] for y in walk(z) if y.op == "sub" and y.args[0] is ins]
        ok = z.op == "attr" and z.args[-1] == "hid" and bool(key) and z.args[0] is mk("sub", ins, key[0]) and key[0].op in ("elem", "key")
        ctx.check(rule, where, ok, "inputs of the call that made the value are shown", m, show(z))
        if not ok:
            continue
        proj = any(y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] == "get_reverse_proj" and contains(y, call) for y in walk(key[0])) and contains(key[0], mk("sub", e[0], const(2)))
        ctx.check(rule, where, proj, "those under the edge's label", m, show(key[0]))
        held = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["cond"].args[1] is z and r.snap(n, n.d["cond"].args[2]) is mk("sub", atm(S, "vs"), k)]
        inner = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) is key[0].args[0] and m.id in body(r, l)]
        ctx.minimum(rule, where, len(inner), 1, "goes through the inputs under the label")
        for l in inner:
            p = r.path(per_item(r, l), [m.id], avoid=[n.id for n in held])
            ctx.check(rule, where, p is None, "and held by that variable", m, show_path(p))
            legit = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and (
                n.d["cond"].args[1] is key[0] or n.d["cond"].args[1] is z and r.snap(n, n.d["cond"].args[2]) is mk("sub", atm(S, "vs"), k))]
            every_item(ctx, r, rule, where, l, [x for x, _, _, y in ofval if x.id in body(r, l)], "every such input is shown", legit)
            unbroken(ctx, r, rule, where, l, "every such input is shown")
            over = [q for q in r.nodes if q.kind == "loop" and q.d["siter"] is not None and any(r.snap(q, q.d["siter"]) is n.d["result"] for n in edges) and l.id in body(r, q)]
            ctx.minimum(rule, where, len(over), 1, "goes through the edges")
            for q in over:
                every_item(ctx, r, rule, where, q, [l], "every edge is followed")
                unbroken(ctx, r, rule, where, q, "every edge is followed")
                for w in loops:
                    if q.id in body(r, w):
                        every_item(ctx, r, rule, where, w, [q], "of every node of the call")
    for l in loops:
        unbroken(ctx, r, rule, where, l, "every node of the call is gone through")
    # joined over the values
    joins = calls_of(r, "_unify_subobjects")
    outer = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and r.snap(l, l.d["siter"]) is H and any(x.id in body(r, l) for x in loops)]
    ctx.minimum(rule, where, len(outer), 1, "goes through the values")
    origin = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["cond"].args[1] is hid and same(r.snap(n, n.d["cond"].args[2]), atm(S, "creator"))]
    origin += [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "isnone" and contains(n.d["cond"], atm(S, "creator"))]
    for l in outer:
        every_item(ctx, r, rule, where, l, loops, "every value with a known origin is followed", origin)
        unbroken(ctx, r, rule, where, l, "every value with a known origin is followed")
    made = {b for _, b, _, _ in es}
    for m in r.nodes:
        if m.kind == "mut" and m.d["how"] == "setitem" and m.d["target"] in made:
            new = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and n.d["cond"].args[1] is m.d["key"] and (contains(n.d["cond"].args[2], m.d["target"]) or any(y.op in ("items", "obj") for y in alts(n.d["cond"].args[2])))]
            w = m.d["value"]
            p = None if any(y is m.d["target"] for y in walk(w)) else r.path([r.it.entry.id], [m.id], avoid=[n.id for n in new])
            ctx.check(rule, where, p is None, "what was found under a node is kept", m, show_path(p))
    if joins:
        for l in outer:
            every_item(ctx, r, rule, where, l, joins, "what is found for each value is kept", origin)
        for n in joins:
            ctx.check(rule, where, any(any(a in made for a in alts(z)) for z in args(n)), "what is found for each value is kept", n)
            ctx.check(rule, where, any(n.d["result"] in alts(z) or earlier(z) for z in args(n)), "together with what was found for others", n)
    for e, st, v in r.ends:
        t = r.it.snap(st, v)
        ctx.check(rule, where, all(contains(a, V) or contains(a, H) or any(contains(a, n.d["result"]) for n in joins) for a in alts(t)), "the values themselves are part of it", e, show(t))
        if joins:
            ctx.check(rule, where, any(n.d["result"] in alts(v) for n in joins), "all that is found is returned", e, show(v))


def total(ctx, with_calls):
    rule = "history"
    name = "get_total_history"
    r = go(ctx, name, (with_calls,), also=("vnames",), include_calls=const(with_calls))
    where = f"{CF}.{name} ({'with' if with_calls else 'without'} calls)"
    N, H, R = (mk("param", z) for z in ("node", "hids", "result"))
    ds = calls_of(r, "get_direct_history")
    ctx.minimum(rule, where, len(ds), 1, "direct histories")
    for n in ds:
        ctx.check(rule, where, given(ctx, r, n, "vname") is N and given(ctx, r, n, "hids") is H, "of the values given", n)
        ctx.check(rule, where, given(ctx, r, n, "include_calls") is const(with_calls), "calls as asked for", n)
    D = [n.d["result"] for n in ds]
    again = calls_of(r, name)
    joins = calls_of(r, "_unify_subobjects")
    ctx.minimum(rule, where, len(again), 1, "histories of the history")
    ctx.minimum(rule, where, len(joins), 1, "joined histories")
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(contains(r.snap(l, l.d["siter"]), d) for d in D) and any(n.id in body(r, l) for n in again)]
    ctx.minimum(rule, where, len(loops), 1, "goes through what is directly before")
    notvar = [n for n in r.nodes if n.kind == "assume" and not n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and any(n.d["cond"].args[1] is mk("key", d) for d in D)
              and (contains(n.d["cond"].args[2], atm(S, "vs")) or any(y.op == "call" and str(y.args[0]).endswith("vnames") for y in walk(r.snap(n, n.d["cond"].args[2]))))]
    notvar += [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and any(n.d["cond"].args[1] is mk("key", d) for d in D) and contains(r.snap(n, n.d["cond"].args[2]), atm(S, "fs"))]
    for l in loops:
        every_item(ctx, r, rule, where, l, again, "the history of every variable directly before is followed", notvar)
        every_item(ctx, r, rule, where, l, joins, "and kept", notvar)
        unbroken(ctx, r, rule, where, l, "the history of every variable directly before is followed")
    for n in again:
        ok = any(same(r.snap(n, given(ctx, r, n, "node")), mk("key", d)) and same(r.snap(n, given(ctx, r, n, "hids")), mk("val", d)) for d in D)
        ctx.check(rule, where, ok, "of all its values found", n)
        w = given(ctx, r, n, "include_calls")
        ctx.check(rule, where, w is const(with_calls), "calls as asked for", n)
    for n in joins:
        ctx.check(rule, where, any(a.d["result"] in alts(z) or contains(z, a.d["result"]) for z in args(n) for a in again), "the histories found are joined", n)
        ctx.check(rule, where, any(n.d["result"] in alts(z) or earlier(z) for z in args(n)), "with those found before", n)
    # the end of the recursion: nothing new
    ends_ = [n for n in r.nodes if n.kind == "assume" and n.d["pol"] and any(y.op == "call" and str(y.args[0]).endswith("_is_subobject") for y in walk(n.d["cond"]))]
    for e, st, v in r.ends:
        if any(a is R for a in alts(v)):
            p = r.path([r.it.entry.id], [e.id], avoid=[n.id for n in ends_] + [l.id for l in loops])
            ctx.check(rule, where, p is None, "histories are left when they add nothing to what is known", e, show_path(p))
        if any(a is not R for a in alts(v)):
            ctx.check(rule, where, any(n.d["result"] in alts(v) for n in joins), "all that is found is returned", e, show(v))
    for n in calls_of(r, "_is_subobject"):
        a = [r.snap(n, z) for z in args(n)]
        ctx.check(rule, where, len(a) == 2 and a[0] in D and a[1] is R, "histories are left when they add nothing to what is known", n)


def unions(ctx):
    rule = "history"
    a, b = mk("param", "a"), mk("param", "b")
    K = sym("K")
    r = go(ctx, "_unify_subobjects")
    where = f"{CF}._unify_subobjects"
    for e, st, v in r.ends:
        M = members(ctx, r, st)
        v0, v = v, M.deep(v)
        if step_by_step(r, v0, v, a, b):
            continue
        f = M.mem(v, K)
        ok = equiv(f, OR(inn(K, a), inn(K, b)))
        ctx.check(rule, where, ok, "the nodes of both histories are kept", e, None if ok else showf(f))
        f = AND(f, M.mem(mk("sub", v, K), X))
        ok = equiv(f, OR(AND(inn(K, a), inn(X, mk("sub", a, K))), AND(inn(K, b), inn(X, mk("sub", b, K)))))
        ctx.check(rule, where, ok, "the elements of both histories are kept", e, None if ok else showf(f))
    for m in r.nodes:
        if m.kind == "mut":
            ctx.check(rule, where, m.d["target"].op == "obj" or m.d["target"].op == "sub" and m.d["target"].args[0].op == "obj", "joining histories leaves those joined as they are", m, show(m.d["target"]))
    r = go(ctx, "_is_subobject")
    where = f"{CF}._is_subobject"
    seen = [y for n in r.nodes if n.kind == "assume" for y in walk(r.snap(n, n.d["cond"]))] + [y for e, st, v in r.ends for y in walk(r.it.snap(st, v))]
    les = [y for y in seen if y.op == "op" and y.args[0] in ("le", "lt") or y.op == "call" and y.args[0] == ".issubset"]
    ctx.minimum(rule, where, len(les), 1, "comparisons of elements")
    of = lambda t, m: contains(t, m)
    for y in les:
        x, z = y.args[-2:]
        ok = y.args[0] != "lt" and of(x, a) and not of(x, b) and of(z, b) and all(q.args[0] in (a,) for q in walk(z) if q.op in ("key", "val", "elem") and of(q, a))
        ctx.check(rule, where, ok, "a history adds nothing if all of its elements are known", r.it.entry, show(y))
    keys = [y for y in seen if y.op == "op" and y.args[0] == "in" and of(y.args[1], a) and of(y.args[2], b) or y.op == "op" and y.args[0] == "le" and all(q.op == "call" and q.args[0] == ".keys" for q in y.args[1:]) or y.op == "call" and y.args[0] == ".get" and y.args[1] is b]
    ctx.minimum(rule, where, len(keys), 1, "a history adds nothing if its nodes are known")
    for y in seen:
        if y.op in ("call", "op") and y.args[0] == "any":
            ctx.check(rule, where, not any(z in les for z in walk(y)) or any(z.op == "op" and z.args[0] == "not" for z in walk(y)), "a history adds nothing if all of its elements are known", r.it.entry, show(y))


def step_by_step(r, v, deep, a, b):
    """each history's elements are added to what is there under its nodes"""
    ms = [m for m in r.nodes if m.kind == "mut" and m.d["how"] == "setitem" and m.d["target"] is v]
    old = lambda y: y.op == "call" and y.args[0] == ".get" and y.args[1] is v or y.op == "sub" and y.args[0] is v
    ms = [m for m in ms if any(old(y) or y.op == "unk" for y in walk(m.d["value"]))]
    if not ms:
        return False
    covered = {i.args[2][0] for y in walk(deep) if y.op == "items" for i in y.args[1:] if len(i.args[2]) == 1 and i.args[0] is mk("key", i.args[2][0]) and i.args[1] is mk("val", i.args[2][0])}
    for m in ms:
        w = m.d["value"]
        if not (w.op == "op" and w.args[0] == "bitor" or w.op == "call" and w.args[0] == ".union") or not any(y.op in ("val", "sub") and not old(y) for y in walk(w)):
            return False
        ls = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and m.id in body(r, l)]
        for l in ls:
            if r.path(per_item(r, l), backs(r, l), avoid=[x.id for x in ms] + [q.id for q in ls if q.id in body(r, l)]):
                return False
            t = r.snap(l, l.d["siter"])
            covered |= {z for z in alts(cargs(t)[0] if t.op == "call" and t.args[0] in (".items", ".keys") else t)}
    return a in covered and b in covered


def rows(ctx, with_calls):
    rule = "rows"
    name = "get_history_df"
    r = go(ctx, name, (with_calls,), also=("vnames", "fnames"), include_calls=const(with_calls))
    where = f"{CF}.{name} ({'with' if with_calls else 'without'} calls)"
    V = mk("param", "vname")
    vals = mk("sub", atm(S, "vs"), V)
    hs = calls_of(r, "get_total_history")
    ctx.minimum(rule, where, len(hs), 1, "histories")
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), vals) and any(n.id in body(r, l) for n in hs)]
    ctx.minimum(rule, where, len(loops), 1, "goes through the variable's values")
    for n in hs:
        h = r.snap(n, given(ctx, r, n, "hids"))
        ctx.check(rule, where, given(ctx, r, n, "node") is V and all(z is mk("elem", vals) for z in values_of(h)), "the history of each value of the variable", n, show(h))
        ctx.check(rule, where, given(ctx, r, n, "include_calls") is const(with_calls), "calls as asked for", n)
    tables = calls_of(r, "DataFrame")
    ctx.minimum(rule, where, len(tables), 1, "tables")
    for l in loops:
        f = members(ctx, r, r.ends[0][1]).mem(r.snap(l, l.d["siter"]), X)
        ctx.check(rule, where, equiv(f, inn(X, vals)), "every value has a row", l, showf(f))
        every_item(ctx, r, rule, where, l, hs, "every value has a row")
        unbroken(ctx, r, rule, where, l, "every value has a row")
    for n in tables:
        t = r.snap(n, args(n)[0])
        per = [i for y in walk(t) if y.op == "items" for i in y.args[1:]]
        row = [i for i in per if i.args[0] is None and not isinstance(i.args[3], T) and any(contains(z, vals) for z in i.args[2])]
        ctx.check(rule, where, bool(row) and not any(i.args[3] for i in row), "every value has a row", n)
        for h in hs:
            H = h.d["result"]
            refs = any(same(y, mk("sub", atm(S, "refs"), mk("elem", mk("val", H)))) for y in walk(t))
            ctx.check(rule, where, refs, "the row shows the values of the history", n)
            cs = any(same(y, mk("sub", atm(S, "calls"), mk("elem", mk("val", H)))) for y in walk(t))
            ctx.check(rule, where, cs == with_calls, "the row shows the calls of the history if asked for", n)
            bad = [q for i in per for q in i.args[3] if any(contains(z, H) for z in (*i.args[2], q[0])) and not row_cond(q[0])]
            ctx.check(rule, where, not bad, "the row shows all of the history", n, show(bad[0][0]) if bad else None)
            cut = [y for y in walk(t) if y.op == "sub" and y.args[1].op == "slice" and contains(y, H)]
            ctx.check(rule, where, not cut, "the row shows all of the history", n)
    single = [n for n in r.nodes if n.kind == "assume" and any(z.op == "call" and z.args[0] == "len" for z in walk(n.d["cond"]))]
    ctx.minimum(rule, where, len(single), 1, "decisions whether an element stands for itself")
    for n in single:
        # several elements are shown together
        if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] in ("eq", "lt", "le") and any(z.op == "call" and z.args[0] == "len" for z in n.d["cond"].args[1:]):
            ctx.check(rule, where, any(is_const(z, 1) for z in n.d["cond"].args[1:]), "only a single element stands for itself", n)
    for e, st, v in r.ends:
        ctx.check(rule, where, all(any(contains(r.it.snap(st, a), n.d["result"]) for n in tables) for a in alts(v)), "the rows are returned", e)


def row_cond(q):
    """the kind of the node, or how many elements there are"""
    while q.op == "op" and q.args[0] in ("not", "truth"):
        q = q.args[1]
    if q.op == "op" and q.args[0] in ("and", "or"):
        return all(row_cond(z) for z in q.args[1:])
    if q.op == "op" and q.args[0] == "in":
        return True
    return q.op == "op" and (q.args[0] == "widened" or any(z.op == "call" and z.args[0] == "len" for z in q.args[1:]))


def joint(ctx):
    rule = "join"
    name = "get_joint_history_df"
    r = go(ctx, name, (), verbose=const(False))
    where = f"{CF}.{name}"
    hs = calls_of(r, "get_history_df")
    ctx.minimum(rule, where, len(hs), 1, "tables of a variable")
    P = mk("param", "varnames")
    loops = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and any(n.id in body(r, l) for n in hs)]
    for n in hs:
        v = r.snap(n, given(ctx, r, n, "vname"))
        ctx.check(rule, where, v.op == "elem" and contains(v, P), "a table of each variable asked for", n, show(v))
        ctx.check(rule, where, given(ctx, r, n, "include_calls") is mk("param", "include_calls"), "calls as asked for", n)
        cut = [y for y in walk(v) if y.op in ("slice", "items") and (y.op == "slice" or any(i.args[3] for i in y.args[1:]))]
        ctx.check(rule, where, not cut, "a table of each variable asked for", n)
    for l in loops:
        every_item(ctx, r, rule, where, l, hs, "a table of each variable asked for")
    H = [n.d["result"] for n in hs]
    merges = [n for n in calls_of(r, "merge", "concat", "join") if any(contains(r.snap(n, z), h) for z in ([n.d["recv"]] if n.d["recv"] is not None else []) + args(n) for h in H)]
    ctx.minimum(rule, where, len(merges), 1, "joins")
    ml = [l for l in r.nodes if l.kind == "loop" and any(n.id in body(r, l) for n in merges) and l.d["siter"] is not None]
    ctx.minimum(rule, where, len(ml), 1, "goes through the tables")
    for l in ml:
        every_item(ctx, r, rule, where, l, merges, "every table is joined")
        cut = [y for y in walk(r.snap(l, l.d["siter"])) if y.op == "sub" and y.args[1].op == "slice" and not (all(is_const(z, None) for z in y.args[1].args[1:]) and any(is_const(y.args[1].args[0], z) for z in (None, 0, 1)))]
        ctx.check(rule, where, not cut, "every table is joined", l, show(cut[0]) if cut else None)
        unbroken(ctx, r, rule, where, l, "every table is joined")
    common = [n for n in r.nodes if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] in ("truth", "eq", "lt", "le", "not") and sum(y.op == "attr" and y.args[-1] == "columns" for y in walk(r.snap(n, n.d["cond"]))) >= 1]
    for n in merges:
        on = n.d["kwargs"].get("on")
        if short(n) == "merge" and on is not None:
            p = r.path([r.it.entry.id], [n.id], avoid=[x.id for x in common])
            ctx.check(rule, where, p is None, "tables without common nodes can be joined too", n, show_path(p))
            o = r.snap(n, on)
            sides = ([n.d["recv"]] if n.d["recv"] is not None and n.d["recv"].op != "module" and not str(n.d["recv"]).endswith("pandas") else []) + list(n.d["args"])
            sides = [z for z in sides if any(contains(r.snap(n, o), mk("attr", z, "columns")) or contains(on, mk("attr", z, "columns")) for _ in (0,))]
            ctx.check(rule, where, len(sides) >= 2, "tables are joined on the nodes they share", n, show(o))
        if short(n) == "merge":
            how = n.d["kwargs"].get("how")
            ctx.check(rule, where, how is mk("param", "how") or how is not None and is_const(how, "cross"), "in the way asked for", n)
        if short(n) == "concat":
            outer = [x for x in r.nodes if x.kind == "assume" and x.d["cond"].op == "op" and x.d["cond"].args[0] == "eq" and contains(x.d["cond"], mk("param", "how")) and x.d["pol"] == any(is_const(z, "outer") for z in x.d["cond"].args[1:])]
            p = r.path([r.it.entry.id], [n.id], avoid=[x.id for x in outer])
            ctx.check(rule, where, p is None, "rows without a counterpart are kept in an outer join only", n, show_path(p))
    for e, st, v in r.ends:
        some = [a for a in alts(v) if contains(r.it.snap(st, a), merges[0].d["result"]) or any(contains(a, n.d["result"]) for n in merges)]
        ctx.check(rule, where, bool(some) or any(a.op == "call" and str(a.args[0]).endswith("DataFrame") and not cargs(a) for a in alts(v)), "the joined table is returned", e)


def table(ctx):
    rule = "table"
    N = mk("param", "nodes")
    one = {(mk("op", "eq", *z), False) for z in ((mk("call", "len", N), const(1)), (const(1), mk("call", "len", N)))}
    for kind in ("refs", "objs"):
        for calls in (True, False):
            r = go(ctx, "df", (kind, calls), facts=one, values=const(kind), include_calls=const(calls), verbose=const(False))
            where = f"{CF}.df ({kind}, {'with' if calls else 'without'} calls)"
            ms = calls_of(r, "midstream")
            js = calls_of(r, "get_joint_history_df")
            evs = calls_of(r, "eval_df")
            ctx.minimum(rule, where, len(js), 1, "joint histories")
            ctx.minimum(rule, where, len(ms), 1, "sub-frames")
            sub = {n.d["result"] for n in ms}
            for n in ms:
                a = [r.snap(n, z) for z in args(n)] + [v for _, v in n.d["extra"]]
                ctx.check(rule, where, any(contains(z, N) for z in a) and not any(y.op == "slice" for z in a for y in walk(z)), "of what lies between the nodes given", n)
            sinks = calls_of(r, "get_sink_elts")
            for n in sinks:
                ctx.check(rule, where, n.d["recv"] in sub, "the final values are those of the part between the nodes", n)
            for n in js:
                ctx.check(rule, where, n.d["recv"] in sub, "the histories are those within the part between the nodes", n)
                ctx.check(rule, where, given(ctx, r, n, "how") is mk("param", "join_how"), "joined in the way asked for", n)
                ctx.check(rule, where, given(ctx, r, n, "include_calls") in (const(True), None), "calls take part in the join", n)
                v = r.snap(n, given(ctx, r, n, "varnames"))
                its = [i for y in walk(v) if y.op == "items" for i in y.args[1:]]
                got = [i for i in its if any(i.args[1] is mk("key", s.d["result"]) for s in sinks)]
                ctx.check(rule, where, bool(got) or any(contains(v, s.d["result"]) for s in sinks), "all variables with final values are shown", n, show(v))
                for i in got:
                    bad = [q for q in i.args[3] if not final_cond(q, [s.d["result"] for s in sinks])]
                    ctx.check(rule, where, not bad, "all variables with final values are shown", n, show(bad[0][0]) if bad else None)
            J = [n.d["result"] for n in js]
            if kind == "refs":
                live = [n for n in evs if not (n.d["recv"] is S)]
                ctx.check(rule, where, not live, "references are left as they are", r.it.entry)
            else:
                need(ctx, r, rule, where, [n for n in evs] + calls_of(r, "DataFrame"), "the values are loaded")
            for n in evs:
                ctx.check(rule, where, given(ctx, r, n, "skip_cols") is mk("param", "lazy_vars"), "except those to be left", n)
            fs = [n for n in r.nodes if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and any(contains(n.d["cond"].args[1], j) for j in J)
                  and any(contains(r.snap(n, n.d["cond"].args[2]), z) for s in sub for z in (atm(s, "fs"), mk("attr", s, "fs")))]
            ctx.check(rule, where, bool(fs) != calls, "calls are shown as asked for", r.it.entry)


def final_cond(q, sinks):
    c = q[0]
    while c.op == "op" and c.args[0] in ("not", "truth", "isnone"):
        c = c.args[1]
    return c.op == "op" and c.args[0] == "in" or any(c is mk("val", s) for s in sinks) or any(y.op == "call" and y.args[0] == "len" for y in walk(c)) and size_cond(q[0], lambda t: True) in ("0", ">0")


def one_node(ctx):
    rule = "table"
    N = mk("param", "nodes")
    one = {(mk("op", "eq", *z), True) for z in ((mk("call", "len", N), const(1)), (const(1), mk("call", "len", N)))} | {(mk("op", "truth", N), True)}
    for kind in ("refs", "objs"):
        r = go(ctx, "df", ("one", kind), also=("values", "get_var_values"), facts=one, values=const(kind), verbose=const(False))
        where = f"{CF}.df (one node, {kind})"
        ts = calls_of(r, "DataFrame")
        ctx.minimum(rule, where, len(ts), 1, "tables")
        evs = calls_of(r, "eval_df")
        n0 = mk("sub", N, const(0))
        for n in ts:
            t = r.snap(n, args(n)[0])
            both = any(y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] == "values" and y.args[0] != ".values" for y in walk(t)) or all(any(contains(t, z) for z in (atm(S, f), mk("attr", S, f))) for f in ("vs", "fs"))
            ctx.check(rule, where, contains(t, n0) and both, "the elements of the node, values or calls", n, show(t))
        if kind == "objs":
            need(ctx, r, rule, where, evs, "the values are loaded")
            for e, st, v in r.ends:
                ctx.check(rule, where, all(a in {n.d["result"] for n in evs} for a in alts(v)), "the values are loaded", e, show(v))
        else:
            ctx.check(rule, where, not evs, "references are left as they are", r.it.entry)
        for n in evs:
            ctx.check(rule, where, given(ctx, r, n, "skip_cols") is mk("param", "lazy_vars"), "except those to be left", n)


def values(ctx):
    rule = "values"
    name = "eval_df"
    D, K = mk("param", "df"), mk("param", "skip_cols")
    r = go(ctx, name, ())
    where = f"{CF}.{name}"
    un = calls_of(r, "unwrap")
    ctx.minimum(rule, where, len(un), 2, "values loaded")
    for n in un:
        ctx.check(rule, where, contains(r.snap(n, args(n)[0]), D), "the table's values are loaded", n)
    tests = [n for n in r.nodes if n.kind == "assume" and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in" and contains(r.snap(n, n.d["cond"].args[2]), K)]
    ctx.minimum(rule, where, len(tests), 1, "decisions whether a column is left")
    for n in tests:
        ctx.check(rule, where, not any(a is K for a in alts(n.d["cond"].args[2])), "names may be given by an iterator or alone", n)
    for n in un:
        ls = [l for l in r.nodes if l.kind == "loop" and n.id in body(r, l)]
        for l in ls:
            left = [x for x in tests if x.d["pol"]]
            every_item(ctx, r, rule, where, l, un, "every column is loaded except those to be left", left)
            p = r.path([x.id for x in tests if x.d["pol"]], [n.id], avoid=backs(r, l))
            ctx.check(rule, where, p is None, "columns to be left are not loaded", n, show_path(p))
    # which columns hold calls is told from all rows
    firsts = [y for n in r.nodes if n.kind == "assume" for y in walk(r.snap(n, n.d["cond"])) if y.op == "sub" and y.args[0].op == "attr" and y.args[0].args[-1] in ("iloc", "iat", "values") and is_const(y.args[1], 0) and contains(y, D)]
    ctx.check(rule, where, not firsts, "columns of calls are told from all rows, the first may be empty", r.it.entry)


# ------------------------------------------------------------------------- the storage
def deletion(ctx):
    rule = "deletion"
    for name in ("delete_calls", "delete_calls_from_df"):
        op = contracts(ctx, name, inline=VIEWS)
        r = ctx.run(CF, name, opaque=lambda f: f.name in ENTRY | {"drop_calls"} or op(f) and f.name != name, tag=("c28", name), setup=lambda it, st: it.hints.__setitem__(S, CF))
        where = f"{CF}.{name}"
        ds = calls_of(r, "drop_calls")
        need(ctx, r, rule, where, ds, "the calls are deleted")
        for n in ds:
            w = given(ctx, r, n, "delete_dependents")
            ctx.check(rule, where, w is const(True), "with what depends on them", n)
            h = r.snap(n, given(ctx, r, n, "calls_or_hids"))
            if name == "delete_calls":
                f = members(ctx, r, r.it.states[n.id] if hasattr(r.it, "states") else r.ends[0][1]).mem(h, X)
                its = [i for y in walk(h) if y.op == "items" for i in y.args[1:]]
                each = len(its) == 1 and not its[0].args[3] and same(its[0].args[1], mk("attr", mk("val", atm(S, "calls")), "hid")) or len(its) == 1 and not its[0].args[3] and its[0].args[1] is mk("attr", mk("elem", mk("call", ".values", atm(S, "calls"))), "hid")
                ok = equiv(f, inn(X, atm(S, "calls"))) or each or same(h, mk("call", ".values", atm(S, "calls")))
                ctx.check(rule, where, ok, "exactly the calls of the frame", n, None if ok else showf(f))
                continue
            D = mk("param", "df")
            its = [i for y in walk(h) if y.op == "items" for i in y.args[1:]]
            cell = lambda t: t.op == "elem" and contains(t, D)
            single = [i for i in its for v in alts(i.args[1]) if v.op == "attr" and v.args[-1] == "hid" and cell(v.args[0]) and v.args[0].args[0].op != "attr" or cell(i.args[1])]
            coll = [i for i in its for v in alts(i.args[1]) if v.op == "attr" and v.args[-1] == "hid" and v.args[0].op == "elem" and v.args[0].args[0].op == "attr" and v.args[0].args[0].args[-1] == "calls"]
            flat = [y for y in walk(h) if y.op == "attr" and y.args[-1] == "calls"]
            ctx.check(rule, where, bool(single) or any(y.op == "attr" and y.args[-1] == "hid" for y in walk(h)), "the calls shown in the table", n, show(h))
            ctx.check(rule, where, bool(coll) or bool(flat), "and those shown together in one cell", n, show(h))
            for i in its:
                bad = [q for q in i.args[3] if not (q[0].op == "op" and (q[0].args[0] in ("isinstance", "widened") or q[0].args[0] in ("or", "and", "not") and all(z.op == "op" and z.args[0] in ("isinstance", "not", "and", "or") for z in q[0].args[1:])))]
                ctx.check(rule, where, not bad, "all of them", n, show(bad[0][0]) if bad else None)
                col = mk("elem", mk("attr", D, "columns"))
                if contains(i.args[1], col):
                    ctx.check(rule, where, any(any(y is mk("attr", D, "columns") for y in walk(z)) and not contains(z, col) for z in i.args[2]), "those of every column", n, show(i.args[1]))
                cols = [y for z in i.args[2] for y in walk(z) if y.op == "slice"]
                ctx.check(rule, where, not cols, "all of them", n)


def attach(ctx):
    rule = "attach"
    r = ctx.run(CF, "attach", opaque=lambda f: f.name in ENTRY | {"attach"} and f.cls is not None and f.cls.name == "Storage" or f.name in ENTRY, tag=("c28",), setup=lambda it, st: it.hints.__setitem__(S, CF))
    where = f"{CF}.attach"
    cs = [n for n in r.nodes if n.kind == "call" and str(n.d["name"]).endswith("Storage.attach")]
    ctx.minimum(rule, where, len(cs), 1, "the storage attaches the values")
    ls = [l for l in r.nodes if l.kind == "loop" and l.d["siter"] is not None and contains(r.snap(l, l.d["siter"]), atm(S, "refs")) and any(n.id in body(r, l) for n in cs)]
    for l in ls:
        every_item(ctx, r, rule, where, l, cs, "all values of the frame are attached")
        unbroken(ctx, r, rule, where, l, "all values of the frame are attached")
    need(ctx, r, rule, where, cs + ls, "the storage attaches the values")
    for n in cs:
        a = [r.snap(n, z) for z in args(n)]
        ip = given(ctx, r, n, "inplace")
        f = a[0]
        one = f is mk("elem", mk("call", ".values", atm(S, "refs"))) or f is mk("val", atm(S, "refs"))
        whole = contains(f, atm(S, "refs")) and not any(y.op == "items" and any(i.args[3] for i in y.args[1:]) for y in walk(f))
        ctx.check(rule, where, one or whole, "all values of the frame are attached", n, show(f))
        kept = any(m.kind in ("setattr", "mut") and isinstance(m.d.get("value"), T) and contains(m.d["value"], n.d["result"]) for m in r.nodes)
        ctx.check(rule, where, ip is const(True) or kept, "the frame's own values are attached", n)


WRITES = {"drop_calls", "commit", "save_call", "save_ref", "save", "drop_orphan_refs", "cleanup_refs", "clear_all", "clear_cache", "drop", "drop_all", "delete", "detach", "set", "sync_component", "sync_codebase", "set_db_conn"}


def reads(ctx):
    """no operation on frames but deletion reaches one that writes the storage"""
    rule = "reads"
    import ast
    cls = ctx.prog.classes[CF] if CF in ctx.prog.classes else next(c for k, c in ctx.prog.classes.items() if k.rsplit(".", 1)[-1] == CF)
    allowed = {"delete_calls", "delete_calls_from_df"}
    n = 0
    for f in cls.methods.values():
        for c in ast.walk(f.node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)):
                continue
            chain, x = [], c.func
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if "storage" not in chain[1:] and not (isinstance(x, ast.Name) and x.id == "storage"):
                continue
            n += 1
            bad = chain[0] in WRITES and f.name not in allowed
            sql = [k.value for k in ast.walk(c) if isinstance(k, ast.Constant) and isinstance(k.value, str)] if chain[0].startswith("execute") else []
            bad = bad or any(s.strip().split(" ")[0].upper() in ("INSERT", "UPDATE", "DELETE", "DROP", "ALTER", "CREATE", "REPLACE") for s in sql)
            ctx.check(rule, f"{CF}.{f.name}", not bad, f"the storage is only read ({chain[0]})", f"{f.module.path if hasattr(f, 'module') and hasattr(f.module, 'path') else 'mandala/cf.py'}:{c.lineno}")
    ctx.minimum(rule, CF, n, 5, "uses of the storage")
