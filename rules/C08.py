"""Pending entries: what has not reached the database is marked as such and is not forgotten."""
import ast
from .stores import *

EXPLANATION = (
    "Analysis of every method of the two cached stores and of every Storage method that touches a cache, a pending set or the call "
    "frame of the call cache. An insertion into a cache is either a value just read from the store's own persistent half under the "
    "same key, or on every path the key is also put into the pending set; a method that only reads puts nothing there. A pending mark "
    "or a cached entry goes away only (1) for one key, together, when that key is dropped, (2) after a loop that wrote every pending "
    "entry, or (3) behind a decision that nothing is pending or that the caller's own parameter allows the loss. Methods that clear "
    "marks without such a decision may only be called from the flow of Storage.commit. Replacing a cache wholesale (preloading) keeps "
    "every pending entry. Functions outside these entries that write to the same attributes are reported."
)
ASSUMPTIONS = ["the order of the writes of one commit is the subject of C07"]


def check(ctx):
    cleaners = {}
    lays = layouts(ctx)
    for cls, lay in lays.items():
        store_class(ctx, cls, lay, cleaners)
    entries = touching(ctx, lays, cleaners)
    storage_entries(ctx, entries)


# ------------------------------------------------------------------ the stores themselves
def store_class(ctx, cls, lay, cleaners):
    c = ctx.prog.cls(cls)
    names = []
    for k in c.mro:
        for m in k.methods:
            if m not in names and m != "__init__":
                names.append(m)
    put = 0
    for m in sorted(names):
        fn = c.find(m)
        if "abstractmethod" in fn.deco_names() or "staticmethod" in fn.deco_names():
            continue
        r = method_run(ctx, lay, m)
        s = Store(r, r.P["self"], lay)
        put += entry(ctx, r, s, f"{cls}.{m}", cleaners, fn)
    ctx.minimum("marked", cls, put, 1, "methods that put a new entry into the cache")


def entry(ctx, r, s, where, cleaners=None, fn=None, commits=()):
    """the obligations of one method on one store; returns whether it puts new entries into it"""
    ms, us, ev, ins = marks(r, s), unmarks(r, s), evictions(r, s), insertions(r, s)
    exits = [n.id for n, _, _ in r.ends]
    start = [r.it.entry.id]
    new = 0
    for n, k, v in ins:
        src = r.snap(n, v) if v is not None else NONE
        if v is not None and all(a.op == "call" and contains(a, lambda t: t is s.per) is not None and (k is None or contains(a, lambda t: t is k) is not None)
                                 for a in alts(v)):
            ctx.ok("marked", where, "what was read from the database under the key it is cached with", n)
            continue
        if k is None:
            ctx.bad("marked", where, "entries are put into the cache in bulk", n)
            continue
        new = 1
        sites = marked(ms, k)
        before, after = r.path(start, [n.id], avoid=sites), r.path(r.succ[n.id], exits, avoid=sites)
        ctx.check("marked", where, before is None or after is None, "every new entry is marked as pending", n, show_path(after))
    if not new:
        for n, args in ms:
            if not any(contains(a, lambda t: t is s.pending) is not None for a in args):
                ctx.bad("reading-marks-nothing", where, "an entry is marked as pending although nothing new was put into the cache", n)
        ctx.ok("reading-marks-nothing", where, "nothing is marked by this method")
    # marks and entries that go away
    for q in r.P.values():
        if allows(r, q) and (us or ev):
            f = fn or ctx.prog.method("Storage", where.split(":")[0].split(".")[1])
            d = default_of(f, q.args[0])
            ctx.check("kept", where, d is not None and d.value is False, f"the caller has to ask for the loss: {q.args[0]} is off by default", f)
    legit = set(empty_or_allowed(r, s)) | set(commits)
    legit |= flush_heads(r, s)
    for n in us:
        ks = [a for a in (n.d["args"] if n.kind == "mut" else ())] if n.kind == "mut" and n.d["how"] in ("remove", "discard") else [None]
        for k in ks:
            if k is not None:
                sites = [e.id for e, kk in ev if kk is k] + decided(r, k, s.cache)
                before, after = r.path(start, [n.id], avoid=sites), r.path(r.succ[n.id], exits, avoid=sites)
                ctx.check("kept", where, before is None or after is None, "a single mark goes only together with the cached entry", n, show_path(after))
                continue
            p = r.path(start, [n.id], avoid=legit)
            if p is not None and cleaners is not None and fn is not None:
                cleaners.setdefault(fn.name, (fn, n, p))
                continue
            ctx.check("kept", where, p is None, "marks are cleared only when nothing is pending, or the caller allows losing it", n, show_path(p))
    for n, k in ev:
        if k is not None:
            sites = marks_removed(us, k) + decided(r, k, s.pending)
            before, after = r.path(start, [n.id], avoid=sites), r.path(r.succ[n.id], exits, avoid=sites)
            ctx.check("kept", where, before is None or after is None, "an entry that is dropped from the cache is no longer pending", n, show_path(after))
            continue
        if n.kind == "setattr":
            ok, why = superset(r, n, s)
            if ok is None:
                continue
            if ok:
                ctx.ok("kept", where, "the new cache holds every pending entry of the old one", n)
                continue
        p = r.path(start, [n.id], avoid=legit)
        if p is not None and cleaners is not None and fn is not None:
            cleaners.setdefault(fn.name, (fn, n, p))
            continue
        ctx.check("kept", where, p is None, "the cache is emptied only when nothing is pending, or the caller allows losing it", n, show_path(p))
    return new


def marks_removed(us, k):
    return [n.id for n in us if n.kind == "mut" and any(a is k for a in n.d["args"])] + [n.id for n in us if n.kind == "mut" and n.d["how"] == "clear"]


def decided(r, k, coll):
    """decisions that k is not in coll"""
    out = []
    for n in r.nodes:
        if n.kind == "assume" and not n.d["pol"]:
            c = n.d["cond"]
            if c.op == "op" and c.args[0] == "in" and c.args[1] is k and c.args[2] is coll:
                out.append(n.id)
            if c.op == "call" and short(c.args[0]) == "exists" and contains(c, lambda t: t is coll) is not None and contains(c, lambda t: t is k) is not None:
                out.append(n.id)
    return out


def flush_heads(r, s):
    """loops over the pending set that hand every entry to the persistent half"""
    out = set()
    for l in loops_over(r, lambda t: t is s.pending):
        its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
        body = r.reach(its, avoid=[l.id])
        w = [n.id for n in r.nodes if n.id in body and n.kind == "call" and n.d.get("recv") is s.per and short(n.d["name"] or "") in ("set", "save")
             and contains(mk("tuple", *[r.snap(n, a) for a in (n.d.get("bound") or {}).values()]), lambda t: t is mk("elem", s.pending)) is not None]
        # (a persistent half of several possible classes: one site per class)
        if not w:
            continue
        backs = [p for p in r.nodes[l.id].preds if p >= l.id]
        if r.path(its, backs, avoid=w) is None and not any(b.kind in ("break", "loopret") and b.d["head"] == l.id for b in r.nodes):
            out.add(l.id)
    return out


def superset(r, n, s):
    """does an assignment to the cache (or to a field of the call cache) keep every pending entry?  None: not an entry collection"""
    v = r.snap(n, n.d["value"])
    if n.d["base"] is s.o and s.lay.cls == DICT:
        for cv in coverage(v):
            if cv.bases == (s.cache,) and all(g.op == "op" and g.args[0] == "in" and g.args[2] is s.pending and p for g, p in cv.guards):
                if cv.val is None or contains(cv.val, lambda t: t.op in ("val", "sub", "elem")) is not None:
                    return True, ""
        # built in steps: the old cache was merged into the new one
        for m in r.nodes:
            if m.kind == "mut" and m.d["target"] is n.d["value"] and m.d["how"] == "update" and any(a is s.cache for a in m.d["args"]) and r.dominated(n.id, [m.id]):
                return True, ""
        return False, ""
    if n.d["base"] is s.o:
        return False, ""
    # a field of the call cache: its frame, or the index over it
    df = mk("attr", s.cache, "df")
    parts = [t for t in subterms(v) if t.op == "sub" and t.args[0] is df]
    whole = any(t is df and not any(contains(p, lambda u: u is t) is not None for p in parts) for t in subterms(v))
    for t in parts:
        if all(keeps_pending(c, s, df) for c in conjuncts(t.args[1])):
            return True, ""
    if n.d["attr"] == "df":
        kept = frame_parts(v, df)
        return kept, ""
    # an index: must be computed from the new frame
    cur = r.it  # noqa: F841
    return (True, "") if frame_parts(v, df) or any(keeps(t, s, df) for t in subterms(v)) else (False, "")


def keeps(t, s, df):
    return t.op == "sub" and t.args[0] is df and all(keeps_pending(c, s, df) for c in conjuncts(t.args[1]))


def frame_parts(v, df):
    """the whole old frame is one of the concatenated parts"""
    if v is df:
        return True
    if v.op == "call" and short(v.args[0]) in ("concat", "append", "combine_first") and cargs(v):
        for a in cargs(v):
            for i in (items(a) if a.op == "items" else (a,)):
                x = i.args[1] if i.op == "item" else i
                if x is df:
                    return True
    return False


def conjuncts(m):
    if m.op == "op" and m.args[0] in ("bitand", "and"):
        return [c for a in m.args[1:] for c in conjuncts(a)]
    return [m]


def keeps_pending(c, s, df):
    """a row filter that keeps every pending call which the database does not have"""
    def isin(t, pred):
        return t.op == "call" and t.args[0] == ".isin" and len(cargs(t)) >= 2 and contains(cargs(t)[0], lambda u: u is df) is not None and pred(cargs(t)[1])
    if isin(c, lambda a: contains(a, lambda u: u is s.pending) is not None and not a.op == "sub"):
        return True
    if c.op == "op" and c.args[0] in ("invert", "not"):
        # rows the database already has
        return isin(c.args[1], lambda a: contains(a, lambda u: is_call(u) and short(u.args[0]) == "get_df") is not None)
    return False


# ------------------------------------------------------------------ who else touches them
def touching(ctx, lays, cleaners):
    """the Storage methods to analyse; and sites that are outside every analysed flow"""
    pend = {l.pending for l in lays.values()}
    caches = {l.cache for l in lays.values()}
    prog = ctx.prog
    direct = {}
    for fn in prog.functions.values():
        if fn.cls is not None and fn.cls.name in (DICT, CALLS, "InMemCallStorage"):
            continue
        site = writes_to(fn, pend, caches, cleaners)
        if site is not None:
            direct[fn.qual] = (fn, site)
    st = prog.cls("Storage")
    tset = {f.name for f, _ in direct.values()}
    while True:
        more = {m for m, f in st.methods.items() if m not in tset and m not in ("commit",) and calls_self(f, tset - {"commit"})}
        if not more:
            break
        tset |= more
    ctx.count("functions_touching_caches", len(direct))
    reached = set()
    entries = []
    # the flow of commit
    r = ctx.run("Storage", "commit", attrs_=attrs(versioned=True), tag="commit")
    reached_commit = {n.fn.qual for n in r.nodes if n.fn is not None}
    for m in sorted(tset):
        if m in st.methods and m != "commit" and not (m.startswith("_") and called_only_within(st, m, tset)):
            entries.append(m)
    for nm, (fn, node, p) in cleaners.items():
        ctx.count("unguarded_cleaners")
    for q, (fn, site) in sorted(direct.items()):
        if site[0] == "cleaner":
            ok = q in reached_commit
            ctx.check("cleaners", fn.qual.split(".", 1)[-1], ok, f"{site[2]}() forgets what is pending without asking; only the flow of commit may call it",
                      f"{fn.module.replace('.', '/')}.py:{site[1]}")
    ctx.minimum("cleaners", "Storage.commit", len([1 for f, s in direct.values() if s[0] == "cleaner"]) + len([1 for q in reached_commit]), 1, "commit flow")
    entries_seen = set()
    for m in entries:
        rr = run_storage(ctx, m)
        if rr is not None:
            entries_seen |= {n.fn.qual for n in rr.nodes if n.fn is not None}
    for q, (fn, site) in sorted(direct.items()):
        ctx.check("analysed", fn.qual.split(".", 1)[-1], q in reached_commit or q in entries_seen,
                  f"writes to {site[2]} outside every analysed flow", f"{fn.module.replace('.', '/')}.py:{site[1]}")
    return entries


OPQ = op_names("Storage.commit", "call_internal", "sync_code", "ComputationFrame.__init__", "from_op", "from_refs", "from_vars", "load_ref",
               "_get_call_from_data", "get_versioner")


def run_storage(ctx, m):
    return ctx.run("Storage", m, opaque=OPQ, attrs_=attrs(versioned=False), tag="touch")


def called_only_within(st, m, tset):
    return any(calls_self(f, {m}) for n, f in st.methods.items() if n != m)


def calls_self(fn, names):
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names and isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "storage"):
            return True
    return False


def writes_to(fn, pend, caches, cleaners):
    """(kind, line, what) when the function itself writes to a pending set, a cache or the cached frame, or calls a cleaner"""
    for x in ast.walk(fn.node):
        t = None
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and (t.attr in pend or t.attr in caches or (t.attr in ("df", "call_hids") and over_cache(t.value, caches))):
                    if not (fn.name == "__init__"):
                        return ("write", x.lineno, t.attr)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            b = x.func.value
            if x.func.attr in MUT and isinstance(b, ast.Attribute) and (b.attr in pend or b.attr in caches):
                return ("write", x.lineno, b.attr)
            if x.func.attr in cleaners and not (x.func.attr in ("commit", "clear") and isinstance(b, ast.Name)):
                return ("cleaner", x.lineno, x.func.attr)
            if x.func.attr == "clear" and isinstance(b, ast.Attribute):
                return ("clear", x.lineno, b.attr)
    return None


def over_cache(e, caches):
    return isinstance(e, ast.Attribute) and (e.attr in caches or "cache" in e.attr) or isinstance(e, ast.Name) and "cache" in e.id


def storage_entries(ctx, entries):
    n_evict = 0
    for m in entries:
        r = run_storage(ctx, m)
        commits = [n.id for n in r.nodes if n.kind == "call" and n.d["name"] == "mandala.storage.Storage.commit"]
        for f, s in sorted(storage_stores(ctx, r).items()):
            if f == "sources":
                continue
            entry(ctx, r, s, f"Storage.{m}: {f}", None, None, commits)
            n_evict += len(evictions(r, s))
    ctx.minimum("kept", "Storage", n_evict, 8, "evictions and replacements of caches in Storage methods")


def default_of(fn, name):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if p.arg == name:
            return d if isinstance(d, ast.Constant) else None
    return ast.Constant(False)   # no default: the caller must say
