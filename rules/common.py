"""Rule building blocks used by several properties."""
import ast
from vlib.rulekit import *

TRACING = {"track", "register_call", "register_return", "make_tracer", "apply_state_hypothesis", "update_global_topology",
           "add_globals_from", "get_version_ids"}


def op_names(*names, base=std_opaque):
    """opaque predicate: the standard leaves plus functions of the given bare or Class.method names"""
    ns = frozenset(names)
    k = ("opq", base, ns)
    if k not in _opq:
        def p(fn):
            return base(fn) or fn.name in ns or (fn.cls is not None and f"{fn.cls.name}.{fn.name}" in ns)
        _opq[k] = p
    return _opq[k]


_opq: dict = {}

# Storage.call_internal with its collaborators as contracts of their own
INTERNAL = op_names("construct", "destruct", "lookup_call", "unwrap", "_get_call_from_data", "wrap_atom", "parse_returns",
                    "from_annotation", "DecTracer.__enter__", "DecTracer.__exit__", "SysTracer.__enter__", "SysTracer.__exit__",
                    "add_globals_from", "track", "register_call", "register_return")
LOOKUP = op_names("_get_call_from_data", "get_dep_key_from_func")
CALL = op_names("parse_args", "call_internal", "save_call", "unwrap", "from_annotation", "get_dep_key_from_func",
                "get_ordered_outputs")


def internal(ctx, versioned):
    return ctx.run("Storage", "call_internal", opaque=INTERNAL, attrs_=attrs(versioned=versioned), tag=("internal",))


def isinst_ignore(c):
    """c is isinstance(x, <_Ignore or a subclass>)"""
    return c.op == "op" and c.args[0] == "isinstance" and any(x.op == "class" and x.args[0] in ("_Ignore", "_NewArgDefault")
                                                              for x in subterms(c.args[2]))


def hash_arg(t):
    """the argument of a content hash term"""
    if t.op == "call" and t.args[0] in HASHES and cargs(t):
        return cargs(t)[0]
    return None


def key_parts(ctx, rule, where, node, key, op, field, base, sv, allow_guard=isinst_ignore):
    """obligations on a call identity term: hash over (op name, op version, {argument name: argument identity}, semantic version)

    base(term) -> True for the mapping of arguments; field is 'hid' or 'cid'; sv None when there is no semantic version
    """
    for k in alts(key):
        a = hash_arg(k)
        if not ctx.check(rule, where, a is not None, f"the {field} key of a call is a content hash", node):
            continue
        for f in ("name", "version"):
            want = {mk("attr", op, f), mk("param", f"Op.__init__.{f}")}
            ctx.check(rule, where, inj(a, lambda t: t in want), f"the {field} key determines the op's {f}", node)
        if sv is not None:
            ctx.check(rule, where, inj(a, lambda t: t is sv), f"the {field} key determines the semantic version", node)
        for aa in alts(a):
            hit = False
            why = "no collection of argument identities in the key"
            for c in inj_parts(aa):
                for cv in coverage(c):
                    ok, w = arg_item(cv, field, base, allow_guard)
                    if ok:
                        hit = True
                    elif w:
                        why = w
            ctx.check(rule, where, hit, f"the {field} key determines name and {field} of every argument" + ("" if hit else f" ({why})"), node)


def arg_item(cv, field, base, allow_guard):
    """does one coverage alternative pair every argument name with its identity?"""
    k, v = cv.key, cv.val
    if k is None and v.op == "tuple" and len(v.args) == 2:
        k, v = v.args
    if not cv.bases or not all(base(b) for b in cv.bases):
        return False, None
    if v.op != "attr" or v.args[1] != field:
        return False, f"argument identity is {show(v, 3)}, not its {field}"
    if k is None or not contains(k, lambda t: t.op == "key"):
        return False, "argument names are not part of the key"
    for g, p in cv.guards:
        if not (allow_guard(g) and not p):
            return False, f"arguments are left out under the condition {'' if p else 'not '}{show(g, 3)}"
    return True, ""


def mut_has(r, n, t):
    """a mutation's arguments are, or contain, t"""
    return any(contains(r.snap(n, a), lambda u: u is t) is not None for a in n.d["args"])


def loops_over(r, pred, within=None):
    """loop heads whose iteration ranges over a collection satisfying pred"""
    out = []
    for n in r.nodes:
        if n.kind == "loop" and n.d.get("siter") is not None and any(pred(b) for b in loop_bases(r, n)):
            out.append(n)
    return out


def each(ctx, r, rule, where, pred, ids, msg, legit=(), always=True, starts=None, exits=None, what="", raising=True):
    """every element of a collection satisfying pred passes one of the sites `ids` (or a legitimate decision `legit`)

    always: additionally, every flow from the entry to a normal exit runs such a loop.
    """
    ids, legit = set(ids), set(legit)
    heads = []
    for l in loops_over(r, pred):
        its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
        body = r.reach(its, avoid=[l.id])
        if not ids & body:
            continue
        heads.append(l.id)
        backs = [p for p in r.nodes[l.id].preds if p >= l.id]
        p = r.path(its, backs, avoid=ids | legit)
        ctx.check(rule, where, p is None, msg, l, show_path(p))
        for b in r.nodes:
            if b.kind in ("break", "loopret") and b.d["head"] == l.id:
                ctx.bad(rule, where, f"{msg}: the loop can be left early", b)
    if not ctx.check(rule, where, bool(heads), f"{msg}: there is a loop over {what or 'the collection'} that does it", r.it.entry):
        return heads
    if always:
        p = r.path(starts or [r.it.entry.id], exits if exits is not None else [n.id for n, _, _ in r.ends], avoid=set(heads) | legit)
        ctx.check(rule, where, p is None, f"{msg}: on every path", r.nodes[heads[0]], show_path(p))
    return heads


def fieldof(r, base, f):
    """the value of field f of an object at the entry of the analysis (wired by the constructor)"""
    v = r.it._wired.get(base, {}).get(f)
    return v if v is not None else mk("attr", base, f)


# ------------------------------------------------------- executing an op's function
def callee(n):
    """the term called by a call node"""
    if n.kind != "call":
        return None
    res = n.d.get("result")
    if res is None:
        return None
    if n.d["name"] == "apply" and is_call(res, "apply") and cargs(res):
        return cargs(res)[0]
    if n.d["name"] == ".f" and n.d.get("recv") is not None:
        return mk("attr", n.d["recv"], "f")
    return None


def exec_sites(r, op):
    """call nodes that execute op's function (directly, or through the dependency tracker)"""
    f = mk("attr", op, "f")
    out = []
    for n in r.nodes:
        c = callee(n)
        if c is not None and contains(r.snap(n, c), lambda t: t is f) is not None:
            out.append(n)
    return out


def lookups(r):
    return calls_to(r, "mandala.storage.Storage.lookup_call")


def none_test(n, terms):
    """n decides whether one of `terms` is None: +1 it is, -1 it is not, 0 something else"""
    if n.kind != "assume":
        return 0
    c, pol = n.d["cond"], n.d["pol"]
    if c.op == "op" and c.args[0] == "isnone" and all(a in terms for a in alts(c.args[1])):
        return 1 if pol else -1
    if c.op == "op" and c.args[0] == "truth" and all(a in terms for a in alts(c.args[1])):
        return -1 if pol else 1
    return 0


# ----------------------------------------------------------- runs with a known class
def typed(ctx, cls, meth, opaque, tag, params_cls=None, **kw):
    """an analysis in which parameters are instances of exactly the given classes: params_cls = {param: class}"""
    k = ("typed", cls, meth, tag)
    if k in ctx._memo:
        return ctx._memo[k]

    def setup(it, st):
        for p, c in (params_cls or {}).items():
            t = mk("param", p)
            it.hints[t] = c
            it.hints[("exact", t)] = True
    r = ctx.run(cls, meth, opaque=opaque, tag=(tag,), setup=setup, **kw)
    ctx._memo[k] = r
    return r


def instance(ctx, cls, meth, param, of, opaque=None, **kw):
    """an analysis in which a parameter is known to be an instance of the named repository or builtin class"""
    k = ("instance", cls, meth, param, of, opaque)
    if k not in ctx._memo:
        def setup(it, st):
            t = mk("param", param)
            if of in ctx.prog.classes:
                it.hints[t] = of
                it.hints[("exact", t)] = True
                st.facts = st.facts | {(mk("op", "isinstance", t, mk("class", of)), True)}
            else:
                st.facts = st.facts | {(mk("op", "isinstance", t, mk("builtin", of)), True)}
        ctx._memo[k] = ctx.run(cls, meth, opaque=opaque, tag=("instance", param, of), setup=setup, **kw)
    return ctx._memo[k]


STORE_OPS = ("CachedDictStorage.set", "CachedDictStorage.get", "CachedDictStorage.exists", "CachedDictStorage.drop",
             "CachedCallStorage.save", "CachedCallStorage.exists", "CachedCallStorage.exists_content", "CachedCallStorage.get_data",
             "CachedCallStorage.get_data_content", "CachedCallStorage.drop")


def store_calls(ctx, r, field, *meths):
    """calls of the given methods on the storage's store `field` (atoms, shapes, ops, calls)"""
    o = fieldof(r, r.P["self"], field)
    return [n for n in r.nodes if n.kind == "call" and n.d.get("recv") is not None and r.snap(n, n.d["recv"]) is o and short(n.d["name"] or "") in meths]


def barg(r, n, *names):
    """an argument of an opaque call by parameter name"""
    b = n.d.get("bound") or {}
    for k in names:
        if k in b:
            return r.snap(n, b[k])
    return NONE


def given(ctx, r, n, name):
    """an argument of a call by parameter name, or the constant default of the parameter"""
    t = barg(r, n, name)
    if name in (n.d.get("bound") or {}):
        return t
    fn = ctx.prog.functions.get(n.d["name"])
    if fn is not None:
        a = fn.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        d = dflt.get(name)
        if isinstance(d, ast.Constant):
            return const(d.value)
    return NONE


def all_paths_through(ctx, r, rule, where, sites, msg, legit=(), starts=None):
    """every path from the entry (or starts) to a normal exit passes one of the sites, or a legitimate decision"""
    if not ctx.check(rule, where, bool(sites), msg + ": there is code for it", r.it.entry):
        return False
    p = r.path(starts or [r.it.entry.id], [n.id for n, _, _ in r.ends], avoid={n.id for n in sites} | set(legit))
    return ctx.check(rule, where, p is None, msg, sites[0], show_path(p))


def in_result(r, t, st, want, elems=False):
    """collection t (as it is in state st) contains the term `want`, or every element of `want`"""
    for a in alts(t):
        a = r.it.snap(st, a) if st is not None else a
        ok = False
        for c in coverage(a):
            if elems and (want in c.bases and c.val in (mk("elem", want), mk("val", want))):
                ok = True
            if not elems and c.val is want:
                ok = True
        if not ok:
            return False
    return True


def from_coll(t, base):
    """t is an element of collection `base`"""
    return t.op in ("val", "elem", "sub") and t.args[0] is base


def nonempty_loops(r, sites, val):
    """heads of loops that certainly run for `val` (an element written out in what they iterate over) and pass a site each time"""
    out = []
    for l in r.nodes:
        if l.kind != "loop" or l.d.get("siter") is None:
            continue
        if any(c.val is val and not c.bases and not c.guards for c in coverage(r.snap(l, l.d["siter"]))):
            its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
            if r.path(its, [l.id], avoid=[s.id for s in sites]) is None:
                out.append(l.id)
    return out


# --------------------------------------------------- alternatives with their decisions
def picked(r, t, _d=0):
    """[(alternative of t, decisions under which it was taken)] as far as the analysis recorded them"""
    if t.op != "phi":
        return [(t, frozenset())]
    o = r.it.origins.get(t)
    if not o or _d > 6:
        return [(a, frozenset()) for a in t.args]
    out = []
    for v, f in o:
        for w, g in picked(r, v, _d + 1):
            out.append((w, f | g))
    for a in t.args:
        if all(a is not w for w, _ in out):
            out.append((a, frozenset()))
    return out


def fpath(r, starts, goals, avoid=(), track=lambda c: True):
    """like Result.path, but no path takes contradictory decisions on a tracked condition within one loop iteration"""
    from collections import deque
    avoid, goals = set(avoid), set(goals)
    prev, q = {}, deque()

    def enter(st, i):
        n = r.nodes[i]
        if n.kind == "iter" and n.d.get("siter") is not None:
            bs = loop_bases(r, n)
            st = frozenset((c, p) for c, p in st
                           if contains(c, lambda t: t.op in ("elem", "val", "key", "index") and t.args[0] in bs) is None)
        if n.kind == "assume" and track(n.cond):
            if (n.cond, not n.pol) in st:
                return None
            st = st | {(n.cond, n.pol)}
        return st
    for s in starts:
        if s not in avoid:
            st = enter(frozenset(), s)
            prev[(s, st)] = None
            q.append((s, st))
    while q:
        k = q.popleft()
        if k[0] in goals:
            out = []
            while k is not None:
                out.append(k[0])
                k = prev[k]
            return [r.nodes[i] for i in reversed(out)]
        for y in r.succ[k[0]]:
            if y in avoid:
                continue
            st = enter(k[1], y)
            if st is not None and (y, st) not in prev:
                prev[(y, st)] = k
                q.append((y, st))
    return None


def decisions(r, pred, pol):
    """ids of branch nodes that decide pred(cond) with the given polarity"""
    return [n.id for n in r.nodes if n.kind == "assume" and n.pol == pol and pred(plain(r, n, n.cond))]


def plain(r, n, c):
    """condition with the containers it mentions written out"""
    return r.snap(n, c) if contains(c, lambda t: t.op == "obj") is not None else c


def total(covs, bases_):
    """coverage alternatives that together take every element exactly over `bases_`, as [(key, val, decisions)]; None otherwise"""
    import itertools
    if not covs or any(c.bases != bases_ for c in covs):
        return None
    def atoms(g):
        if g.op == "op" and g.args[0] in ("and", "or", "not"):
            return set().union(*[atoms(x) for x in g.args[1:]])
        return {g}

    def ev(g, asg):
        if g.op == "op" and g.args[0] in ("and", "or", "not"):
            vs = [ev(x, asg) for x in g.args[1:]]
            return not vs[0] if g.args[0] == "not" else all(vs) if g.args[0] == "and" else any(vs)
        return asg[g]
    conds = sorted(set().union(*[atoms(g) for c in covs for g, _ in c.guards], set()), key=lambda t: t.uid)
    if len(conds) > 8:
        return None
    for vals in itertools.product((False, True), repeat=len(conds)):
        asg = dict(zip(conds, vals))
        if not any(all(ev(g, asg) == p for g, p in c.guards) for c in covs):
            return None
    return [(c.key, c.val, c.guards) for c in covs]


def implied(r, facts, _d=0):
    """the facts with what they imply: a choice whose outcome is known tells which way was taken"""
    out, work = set(), list(facts)
    while work:
        c, p = work.pop()
        if (c, p) in out:
            continue
        out.add((c, p))
        if c.op == "op" and c.args[0] == "not":
            work.append((c.args[1], not p))
        elif c.op == "op" and c.args[0] == "truth":
            work.append((c.args[1], p))
        elif c.op == "op" and c.args[0] == ("and" if p else "or"):
            work += [(x, p) for x in c.args[1:]]
        elif c.op == "phi":
            live = []
            for v, f in picked(r, c):
                if v.op == "const" and bool(v.args[0]) != p or _d > 4:
                    continue
                g = implied(r, f, _d + 1)
                if not any((x, not p) in g for x in (v, mk("op", "truth", v))):
                    live.append(g | {(v, p)})
            if live:
                work += list(frozenset.intersection(*map(frozenset, live)))
            elif c.args:
                out.add((const(False), True))   # no way to this outcome: cannot happen
    return out
