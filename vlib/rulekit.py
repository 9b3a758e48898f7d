"""What every rule module shares: analysed entries, obligations, reporting."""
from __future__ import annotations
import ast
import time
from .terms import *
from .terms import T
from .program import Program, AnchorError, Fn, Cls
from .interp import Interp, Cfg, Result, Node, exc_matches, find_tx_decorators

# Leaf back ends: their methods are contracts of their own (checked by the
# storage properties) and are recorded as events by every other analysis.
BACKENDS = {"SQLiteDictStorage", "SQLiteCallStorage", "InMemCallStorage", "JoblibDictStorage", "Versioner", "DBAdapter"}
LEAF_FUNCS = {"get_content_hash", "serialize", "deserialize"}


def std_opaque(fn):
    return (fn.cls is not None and fn.cls.name in BACKENDS and fn.parent is None) or (fn.cls is None and fn.name in LEAF_FUNCS)


def attrs(versioned=None, mode=None, **kw):
    a = {("Config", "has_torch"): False, ("Config", "has_rich"): False, ("Config", "has_prettytable"): False}
    if versioned is not None:
        a[("Storage", "_versioned")] = versioned
    if mode is not None:
        a[("Storage", "mode")] = mode
    for k, v in kw.items():
        c, f = k.split("__", 1)
        a[(c, f)] = v
    return a


class Obligation:
    __slots__ = ("rule", "where", "ok", "msg", "loc", "path")

    def __init__(self, rule, where, ok, msg, loc, path):
        self.rule, self.where, self.ok, self.msg, self.loc, self.path = rule, where, ok, msg, loc, path


class Ctx:
    def __init__(self, prop, prog=None, tier="quick"):
        self.prop, self.tier = prop, tier
        self.prog = prog or Program()
        self.obs: list[Obligation] = []
        self.entries: dict = {}
        self.notes: list[str] = []
        self.counts: dict = {}
        self._memo: dict = {}

    # ------------------------------------------------------------ analysis
    def run(self, cls, name, *, opaque=None, attrs_=None, may_raise=None, asserts="assume", wiring=True, maxrec=0, tag=None,
            params=None, types=None, setup=None, selfcls=None, tx="transparent", after=None, **cfg):
        fn = self.prog.method(cls, name) if cls else self.prog.func(name)
        key = (fn.qual, opaque, tag, tuple(sorted((attrs_ or {}).items(), key=str)), may_raise, asserts, wiring, tx, selfcls)
        if key in self._memo and setup is None and params is None and after is None:
            return self._memo[key]
        it = Interp(self.prog, Cfg(opaque=opaque or std_opaque, attrs=attrs_ or attrs(), may_raise=may_raise, asserts=asserts,
                                   wiring=wiring, maxrec=maxrec, tx=tx, **cfg))
        t = time.time()
        r = it.run(fn, selfcls=selfcls, params=params, types=types, setup=setup, after=after)
        e = self.entries.setdefault(fn.qual.split(".", 1)[-1], {"nodes": 0, "normal_exits": 0, "exceptional_exits": 0, "runs": 0})
        e["runs"] += 1
        e["nodes"] += len(r.nodes)
        e["normal_exits"] += len(r.ends)
        e["exceptional_exits"] += len(r.rends)
        e["functions"] = len({n.fn.qual for n in r.nodes if n.fn} | set(()))
        self._memo[key] = r
        return r

    # --------------------------------------------------------- obligations
    def check(self, rule, where, ok, msg, node=None, path=None):
        loc = node.loc() if isinstance(node, Node) else (fn_loc(node) if isinstance(node, Fn) else (node or ""))
        stack = ""
        if isinstance(node, Node) and node.stack:
            stack = node.path()
        self.obs.append(Obligation(rule, where, bool(ok), msg, loc, path or stack))
        return bool(ok)

    def ok(self, rule, where, msg="", node=None):
        return self.check(rule, where, True, msg, node)

    def bad(self, rule, where, msg, node=None, path=None):
        return self.check(rule, where, False, msg, node, path)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def minimum(self, rule, where, n, least, what):
        """an anchored rule that matches fewer sites than confirmed by hand is a violation, not a silent pass"""
        return self.check(rule, where, n >= least, f"{what}: found {n}, at least {least} expected")


def fn_loc(fn):
    return f"{fn.module.replace('.', '/')}.py:{fn.node.lineno} in {fn.qual.split('.', 1)[-1]}"


def show_path(p, limit=14):
    """a short rendering of a node path: its branch decisions, calls and exits"""
    if not p:
        return ""
    out = []
    last = None
    for n in p:
        if n.kind == "assume":
            s = f"{n.loc()}: {'' if n.pol else 'not '}{show(n.cond, 3)}"
        elif n.kind in ("exit", "raise_exit", "raise", "exc", "handler", "setattr", "mut"):
            s = f"{n.loc()}: {n.kind}"
        elif n.kind == "call":
            s = f"{n.loc()}: call {n.d.get('name')}"
        else:
            continue
        if s != last:
            out.append(s)
        last = s
    if len(out) > limit:
        out = out[: limit // 2] + ["…"] + out[-limit // 2:]
    return "\n    ".join(out)


# ------------------------------------------------------------------ terms
def is_call(t, *names):
    return t.op == "call" and (not names or t.args[0] in names)


def cargs(t):
    return [a for a in t.args[1:] if isinstance(a, T)]


def const_val(t):
    return t.args[0] if t.op == "const" else None


def items(t):
    return t.args[1:] if t.op == "items" else ()


WRAP = {"list", "tuple", "sorted", "set", "frozenset", "dict", "iter", "reversed", "inserted"}


def strip(t, names=WRAP):
    """drop copies: list(x), tuple(x), sorted(x), ..."""
    while t.op == "call" and t.args[0] in names and len(cargs(t)) >= 1:
        t = cargs(t)[0]
    return t


# ----------------------------------------------- collections and their coverage
class Cov:
    """one way elements enter a collection: key, value, the base collection they range over, and the conditions"""
    __slots__ = ("key", "val", "bases", "guards")

    def __init__(self, key, val, bases, guards):
        self.key, self.val, self.bases, self.guards = key, val, bases, guards

    def __repr__(self):
        return (f"<{show(self.key, 4) + ': ' if self.key is not None else ''}{show(self.val, 5)} for "
                f"{[show(b, 4) for b in self.bases]} if {[('' if p else 'not ') + show(g, 4) for g, p in self.guards]}>")


VIEW = {".items", ".keys", ".values", "sorted", "list", "tuple", "enumerate", "iter", "reversed", "set", "frozenset", "dict",
        ".copy", "copy.copy", "zip"}


def bases(it):
    """[(base collections, guards)] an iteration ranges over, seen through views, copies and filtered rebuilds"""
    if is_call(it, "range") and len(cargs(it)) == 1 and is_call(cargs(it)[0], "len") and len(cargs(cargs(it)[0])) == 1:
        return bases(cargs(cargs(it)[0])[0])
    if it.op == "call" and it.args[0] in ("itertools.chain", "chain") and cargs(it) and all(a.op not in ("star", "kw") for a in cargs(it)):
        return [x for a in cargs(it) for x in bases(a)]
    if it.op == "call" and it.args[0] in VIEW and cargs(it):
        if it.args[0] == "zip":
            out = [((), frozenset())]
            for a in cargs(it):
                out = [(b0 + b, g0 | g) for b0, g0 in out for b, g in bases(a)]
            return out
        return bases(cargs(it)[0])
    if it.op == "items":
        out = []
        for i in it.args[1:]:
            k, v, its, g = i.args
            cur = [((), frozenset(g))]
            for x in its:
                cur = [(b0 + b, g0 | g1) for b0, g0 in cur for b, g1 in bases(x)]
            out += cur
        return out or [((), frozenset())]
    if it.op == "phi":
        out = []
        for a in it.args:
            out += bases(a)
        return out
    return [((it,), frozenset())]


def coverage(t):
    """how the contents of collection term t come about: [Cov]"""
    t = strip(t, WRAP | {".copy", ".items", ".values", ".keys"})
    out = []
    if t.op == "phi":
        for a in t.args:
            out += coverage(a)
        return out
    if t.op == "items":
        for i in t.args[1:]:
            k, v, its, g = i.args
            cur = [((), frozenset(g))]
            for x in its:
                cur = [(b0 + b, g0 | g1) for b0, g0 in cur for b, g1 in bases(x)]
            for b, gg in cur:
                out.append(Cov(k, v, b, gg))
        return out
    return [Cov(mk("key", t), mk("val", t), (t,), frozenset())]


def broken_loops(r, base):
    """loops over `base` that can be left early"""
    return [n for n in r.nodes if n.kind in ("break", "loopret") and base in loop_bases(r, n)]


def loop_bases(r, n):
    """every collection the loop of node n (loop, iter, break, ...) ranges over"""
    return {x for b, _ in bases(r.snap(n, n.d["siter"])) for x in b}


def is_copy(r, n, t, base):
    """t is `base` or a complete copy of it"""
    t = strip(r.snap(n, t), WRAP | {".copy"})
    if t is base:
        return True
    cs = coverage(t)
    return t.op == "items" and bool(cs) and all(c.bases == (base,) and not c.guards and c.val in (mk("val", base), mk("elem", base)) for c in cs)


HASHES = {"get_content_hash", "mandala.utils.get_content_hash", "joblib.hash"}


def inj(t, pred):
    """t injectively determines a value satisfying pred (for every alternative of t)"""
    if pred(t):
        return True
    if t.op == "phi":
        return all(inj(a, pred) for a in t.args)
    if t.op == "tuple":
        return any(inj(a, pred) for a in t.args)
    if t.op == "items":
        return any(not i.args[2] and not i.args[3] and (inj(i.args[1], pred) or (i.args[0] is not None and inj(i.args[0], pred)))
                   for i in t.args[1:])
    if t.op == "call" and (t.args[0] in HASHES or t.args[0] in ("list", "tuple", "dict")) and cargs(t):
        return inj(cargs(t)[0], pred)
    if t.op == "op" and t.args[0] == "add":
        return any(inj(a, pred) for a in t.args[1:])
    if t.op == "fstr" or (t.op == "call" and t.args[0] in ("str", "repr")):
        return any(inj(a, pred) for a in t.args if isinstance(a, T))
    if t.op == "new":
        return any(inj(v, pred) for _, v in t.args[1:])
    return False


def inj_parts(t):
    """the collections t injectively contains"""
    out = []

    def go(x):
        if x.op == "tuple":
            for a in x.args:
                go(a)
        elif x.op == "items":
            out.append(x)
            for i in x.args[1:]:
                if not i.args[2] and not i.args[3]:
                    go(i.args[1])
        elif x.op == "call" and cargs(x) and (x.args[0] in HASHES or x.args[0] in WRAP or x.args[0] in (".items",)):
            go(cargs(x)[0])
        elif x.op == "op" and x.args[0] == "add":
            for a in x.args[1:]:
                go(a)
        else:
            out.append(x)
    go(t)
    return out


def arg(n, i, *names):
    """argument of a call node by position or keyword"""
    if len(n.d["args"]) > i:
        return n.d["args"][i]
    for k in names:
        if k in n.d["kwargs"]:
            return n.d["kwargs"][k]
    return None


def short(q):
    return q.rsplit(".", 1)[-1]


def calls_to(r, *names):
    """call events whose resolved callee has one of the given (qualified or bare) names"""
    return [n for n in r.nodes if n.kind == "call" and (n.d.get("name") in names or short(n.d.get("name") or "") in names)]
