"""Contexts: left as they were entered; only the outermost exit commits; noop mode records nothing."""
from .common import *

EXPLANATION = (
    "State analysis of entering and leaving a storage context, with the stacks preset to one, two and three open contexts: on every exit, also those by exceptions of the code "
    "state, the commit or the hooks, the current context, the mode stack and the mode of the next entry are compared with the state the context was entered in. "
    "Call-graph analysis of noop mode: no path of a call in noop mode, or outside any context, reaches a write to the storage."
)
ASSUMPTIONS = ["contexts are left in the reverse order of entering them (with statements)"]
CUR = ("Context", "current_context")


def check(ctx):
    entering(ctx)
    leaving(ctx)
    noop_helper(ctx)
    modes(ctx)
    dispatch(ctx)


def raising(n):
    return ["?"] if n.kind == "call" else None


def stack(st, attr, vals):
    o = mk("obj", "list", (("<preset>", attr),))
    st.hset((mk("param", "self"), attr), o)
    st.hset((o, "$items"), tuple(mk("item", None, v, (), frozenset()) for v in vals))
    return o


def M(i):
    return mk("param", f"#mode{i}")


def C(i):
    return mk("param", f"#context{i}")


def run(ctx, meth, depth, versioned, opaque=op_names("sync_code", "commit")):
    def setup(it, st):
        stack(st, "_mode_stack", [M(i) for i in range(depth)])
        stack(st, "_context_stack", [C(i) for i in range(depth)])
        st.hset((mk("class", "Context"), "current_context"), mk("param", "#current"))
        st.hset((mk("param", "self"), "_next_mode"), mk("param", "#next"))
    return ctx.run("Storage", meth, opaque=opaque, attrs_=attrs(versioned=versioned), setup=setup, may_raise=raising, tag=("c17", depth, versioned))


def contents(r, s, attr):
    o = s.heap.get((mk("param", "self"), attr))
    if o is None:
        return None
    t = r.it.snap(s, o)
    if t.op != "items" or any(i.args[2] for i in t.args[1:]):
        return None
    return [i.args[1] for i in t.args[1:]]


def current(r, s):
    for (b, a), v in s.heap.items():
        if a == "current_context" and b is mk("class", "Context"):
            return r.it.snap(s, v), v
    return None, None


def attr_of(r, s, a, default=None):
    v = s.heap.get((mk("param", "self"), a))
    return default if v is None else r.it.snap(s, v)


def exits(r):
    for n, s, v in r.ends:
        yield n, s, v, False
    for x in r.rends:
        n, s = (x[0], x[1]) if isinstance(x, tuple) else (x, x.state)
        yield n, s, None, True


def entering(ctx):
    for versioned in (False, True):
        for depth in (0, 1, 2):
            r = run(ctx, "__enter__", depth, versioned)
            where = f"Storage.__enter__[versioned={versioned}, depth={depth}]"
            ctx.minimum("entered", where, len(r.ends), 1, "normal exits")
            ms, cs = [M(i) for i in range(depth)], [C(i) for i in range(depth)]
            for n, s, v, exc in exits(r):
                m, c = contents(r, s, "_mode_stack"), contents(r, s, "_context_stack")
                cur, obj = current(r, s)
                if exc:
                    ctx.check("failed-enter", where, m == ms and c == cs and cur is mk("param", "#current"), "a context that was not entered leaves no trace in the context and mode", n)
                    want = ms[-1] if ms else const("run")
                    ctx.check("failed-enter", where, attr_of(r, s, "_next_mode") is want, "a context that was not entered does not change the mode of the next one", n)
                    continue
                ctx.check("entered", where, m == ms + [mk("param", "#next")], "the mode asked for is in effect, over the modes in effect before", n)
                ctx.check("entered", where, c == cs + [mk("param", "#current")], "the context that was current is remembered", n)
                ok = obj is not None and obj.op == "obj" and obj.args[0] == "inst:Context" and s.heap.get((obj, "storage")) is mk("param", "self")
                ctx.check("entered", where, ok, "the current context is one of this storage", n)
                ctx.check("entered", where, v is mk("param", "self"), "entering gives the storage", n)
                if versioned:
                    sc = {x.d["result"] for x in calls_to(r, "mandala.storage.Storage.sync_code")}
                    for a, i in (("cached_versioner", 0), ("code_state", 1)):
                        ctx.check("entered", where, attr_of(r, s, a) in {mk("sub", t, const(i)) for t in sc}, "a versioned context works on the code state read on entering it", n)


def leaving(ctx):
    for versioned in (False, True):
        for depth in (1, 2, 3):
            r = run(ctx, "__exit__", depth, versioned)
            where = f"Storage.__exit__[versioned={versioned}, depth={depth}]"
            commits = calls_to(r, "mandala.storage.Storage.commit")
            ctx.minimum("left", where, len(r.ends), 1, "normal exits")
            ms, cs = [M(i) for i in range(depth)], [C(i) for i in range(depth)]
            for n, s, v, exc in exits(r):
                m, c = contents(r, s, "_mode_stack"), contents(r, s, "_context_stack")
                cur, _ = current(r, s)
                ctx.check("left", where, cur is cs[-1], f"the context that was current before is current again{' when leaving fails' if exc else ''}", n)
                ctx.check("left", where, m == ms[:-1] and c == cs[:-1], "exactly the innermost context is closed", n)
                ctx.check("left", where, attr_of(r, s, "_next_mode") is (ms[-2] if depth > 1 else const("run")), "the mode of the enclosing context is in effect again", n)
                if depth == 1:
                    for a in ("cached_versioner", "code_state"):
                        ctx.check("left", where, attr_of(r, s, a) is NONE, "the code state of a context is dropped with it", n)
                else:
                    for a in ("cached_versioner", "code_state"):
                        ctx.check("left", where, attr_of(r, s, a) is None, "the enclosing context keeps its code state", n)
                if not exc:
                    ctx.check("left", where, is_const(v, None) or is_const(v, False), "exceptions of the block are not swallowed", n)
                if depth == 1:
                    p = r.path([r.it.entry.id if hasattr(r.it.entry, "id") else r.it.entry], [n.id], avoid=[x.id for x in commits])
                    ctx.check("committed", where, p is None, "leaving the outermost context commits, whether or not its block failed", n)
            if depth > 1:
                ctx.check("committed", where, not commits, "leaving an inner context does not commit", commits[0] if commits else None)


def noop_helper(ctx):
    cc = mk("attr", mk("class", "Context"), "current_context")
    for meth in ("__enter__", "__exit__"):
        for active in (False, True):
            def setup(it, st):
                st.hset((mk("class", "Context"), "current_context"), mk("param", "#current") if active else NONE)
                if active:
                    st.facts = st.facts | {(mk("op", "isnone", mk("param", "#current")), False)}
                    it.hints[mk("param", "#current")] = "Context"
                    it.hints[mk("attr", mk("param", "#current"), "storage")] = "Storage"
            r = ctx.run("noop", meth, opaque=op_names("Storage.__enter__", "Storage.__exit__"), setup=setup, tag=("c17", active))
            where = f"noop.{meth}[{'in' if active else 'outside'} a context]"
            st = mk("attr", mk("param", "#current"), "storage")
            into = calls_to(r, "mandala.storage.Storage." + meth)
            other = calls_to(r, "mandala.storage.Storage." + ("__exit__" if meth == "__enter__" else "__enter__"))
            ctx.minimum("noop-helper", where, len(r.ends), 1, "exits")
            ctx.check("noop-helper", where, not other, "entering enters and leaving leaves", other[0] if other else None)
            if not active:
                ctx.check("noop-helper", where, not into, "without a context there is nothing to enter or leave", into[0] if into else None)
                continue
            for n, s, v in r.ends:
                p = r.path([r.it.entry.id], [n.id], avoid=[x.id for x in into])
                ctx.check("noop-helper", where, p is None and len(into) == 1, "the storage of the current context is entered and left", n)
            for n in into:
                ctx.check("noop-helper", where, n.d["recv"] is st, "it is the storage of the current context", n)
                if meth == "__enter__":
                    modes_ = {x.d["value"] for x in r.nodes if x.kind == "setattr" and x.d["attr"] == "_next_mode" and x.d["base"] is st}
                    dom = [x.id for x in r.nodes if x.kind == "setattr" and x.d["attr"] == "_next_mode" and is_const(x.d["value"], "noop") and x.d["base"] is st]
                    ctx.check("noop-helper", where, modes_ == {const("noop")} and r.dominated(n.id, dom), "it is entered in noop mode", n)


def modes(ctx):
    for depth in (0, 1, 2):
        r = run(ctx, "mode", depth, False)
        where = f"Storage.mode[depth={depth}]"
        ctx.minimum("mode", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            ctx.check("mode", where, v is (M(depth - 1) if depth else const("run")), f"the mode is that of the innermost context (here {show(v, 3)})", n)
    r = run(ctx, "__call__", 1, False)
    for n, s, v in r.ends:
        where = "Storage.__call__"
        ctx.check("mode", where, v is mk("param", "self") and attr_of(r, s, "_next_mode") is r.P["mode"], "the mode asked for is that of the context entered next", n)
        ctx.check("mode", where, contents(r, s, "_mode_stack") == [M(0)], "asking for a mode does not change the one in effect", n)
    # noop: nothing is recorded
    opq = op_names("unwrap", "call_internal", "save_call", "save_ref", "commit", *STORE_OPS)
    r = ctx.run("Storage", "call", opaque=opq, attrs_=attrs(mode="noop"), tag=("c17", "noop"))
    where = "Storage.call[noop]"
    bad = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") in ("call_internal", "save_call", "save_ref", "commit", "set", "save", "drop")
           and str(n.d["name"]).startswith("mandala.")]
    ctx.minimum("noop", where, len(r.ends), 1, "exits")
    ctx.check("noop", where, not bad, "a call in noop mode records and looks up nothing", bad[0] if bad else None)


def dispatch(ctx):
    """a call inside a context goes to the storage of the current context"""
    for active in (False, True):
        def setup(it, st):
            st.hset((mk("class", "Context"), "current_context"), mk("param", "#current") if active else NONE)
            if active:
                st.facts = st.facts | {(mk("op", "isnone", mk("param", "#current")), False)}
                it.hints[mk("param", "#current")] = "Context"
        r = ctx.run("Op", "__call__", opaque=op_names("Storage.call"), setup=setup, tag=("c17", active))
        where = f"Op.__call__[{'in' if active else 'outside'} a context]"
        cs = calls_to(r, "mandala.storage.Storage.call")
        ctx.minimum("dispatch", where, len(r.ends), 1, "exits")
        if not active:
            ctx.check("dispatch", where, not cs, "outside any context nothing is recorded", cs[0] if cs else None)
            continue
        for n, s, v in r.ends:
            ctx.check("dispatch", where, v in {c.d["result"] for c in cs}, "in a context the result is that of the storage", n)
        for c in cs:
            ctx.check("dispatch", where, c.d["recv"] is mk("attr", mk("param", "#current"), "storage"), "a call goes to the storage of the current context", c)
            ctx.check("dispatch", where, barg(r, c, "op") is mk("param", "self"), "with the op called", c)
            ctx.check("dispatch", where, is_copy(r, c, barg(r, c, "args"), r.P["args"]) and is_copy(r, c, barg(r, c, "kwargs"), r.P["kwargs"]), "and its arguments", c)
            cfg = r.snap(c, barg(r, c, "config"))
            ok = any(x.key is const("save_calls") and is_const(x.val, True) and not x.guards for x in coverage(cfg))
            ctx.check("dispatch", where, ok, "calls made in a context are saved", c)
