"""The two cached stores, described by what their constructors set up rather than by attribute names."""
import ast
from .common import *

MUT = {"clear", "remove", "discard", "pop", "popitem", "add", "update", "difference_update", "intersection_update", "symmetric_difference_update",
       "setdefault"}
UNMARK = {"clear", "remove", "discard", "pop", "difference_update", "intersection_update", "assign", "isub", "iand", "ixor", "symmetric_difference_update"}
DICT, CALLS = "CachedDictStorage", "CachedCallStorage"


class Layout:
    """attribute names of a cached store: the persistent half, the cache, the pending set"""

    def __init__(self, prog, cls):
        self.cls = cls
        init = prog.cls(cls).find("__init__")
        params = set(init.pos[1:])
        self.persistent = self.cache = self.pending = None
        for x in ast.walk(init.node):
            t = x.targets[0] if isinstance(x, ast.Assign) else (x.target if isinstance(x, ast.AnnAssign) else None)
            if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.pos[0]) or x.value is None:
                continue
            v = x.value
            if isinstance(v, ast.Name) and v.id in params:
                self.persistent = t.attr
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set" and not v.args:
                self.pending = t.attr
            elif isinstance(v, ast.Dict) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "InMemCallStorage")):
                self.cache = t.attr
        if not (self.persistent and self.cache and self.pending):
            from vlib.program import AnchorError
            raise AnchorError(f"{cls}.__init__ no longer sets up a persistent half, a cache and a pending set")


def layouts(ctx):
    return {c: Layout(ctx.prog, c) for c in (DICT, CALLS)}


class Store:
    """one cached store in a run"""

    def __init__(self, r, owner, lay, name=""):
        self.o, self.lay, self.name = owner, lay, name
        self.per = fieldof(r, owner, lay.persistent)
        self.cache = mk("attr", owner, lay.cache)
        self.pending = mk("attr", owner, lay.pending)


def storage_stores(ctx, r):
    """the stores wired up by Storage.__init__: {attribute: Store}"""
    lays = layouts(ctx)
    out = {}
    for f, v in r.it._wired.get(r.P["self"], {}).items():
        if v.op == "obj":
            for c in lays:
                if v.args[0] == "inst:" + c:
                    out[f] = Store(r, v, lays[c], f)
    return out


def unmarks(r, s):
    """events that take entries out of the pending set"""
    out = []
    for n in r.nodes:
        if n.kind == "mut" and n.d["target"] is s.pending and n.d["how"] in UNMARK:
            out.append(n)
        elif n.kind == "setattr" and n.d["base"] is s.o and n.d["attr"] == s.lay.pending:
            if not marking_assign(r, n, s):
                out.append(n)
    return out


def marking_assign(r, n, s):
    """pending = pending | {..}"""
    v = r.snap(n, n.d["value"])
    return v.op == "op" and v.args[0] in ("bitor", "or") and any(a is s.pending for a in v.args[1:])


def marks(r, s):
    """[(event, key term)] events that put an entry into the pending set"""
    out = []
    for n in r.nodes:
        if n.kind == "mut" and n.d["target"] is s.pending and n.d["how"] in ("add", "update", "ior", "setdefault"):
            out.append((n, [r.snap(n, a) for a in n.d["args"]]))
        elif n.kind == "setattr" and n.d["base"] is s.o and n.d["attr"] == s.lay.pending and marking_assign(r, n, s):
            out.append((n, [r.snap(n, n.d["value"])]))
    return out


def evictions(r, s):
    """[(event, key or None)] events that take entries out of the cache, or replace it"""
    out = []
    for n in r.nodes:
        if n.kind == "mut" and n.d["target"] is s.cache:
            if n.d["how"] in ("clear", "popitem"):
                out.append((n, None))
            elif n.d["how"] == "delitem":
                out.append((n, n.d["key"]))
            elif n.d["how"] == "pop":
                out.append((n, n.d["args"][0] if n.d["args"] else None))
        elif n.kind == "setattr" and n.d["base"] is s.o and n.d["attr"] == s.lay.cache:
            out.append((n, None))
        elif n.kind == "setattr" and n.d["base"] is s.cache:
            out.append((n, None))
        elif n.kind == "call" and n.d.get("recv") is s.cache and short(n.d["name"] or "") == "drop" and n.d.get("bound"):
            out.append((n, next((v for k, v in n.d["bound"].items() if k != "self"), None)))
    return out


def insertions(r, s):
    """[(event, key, value)] events that put one entry into the cache"""
    out = []
    for n in r.nodes:
        if n.kind == "mut" and n.d["target"] is s.cache and n.d["how"] in ("setitem", "setdefault", "update"):
            if n.d["how"] == "setitem":
                out.append((n, n.d["key"], n.d["value"]))
            elif n.d["how"] == "setdefault":
                out.append((n, n.d["args"][0], n.d["args"][1] if len(n.d["args"]) > 1 else NONE))
            else:
                out.append((n, None, n.d["args"][0] if n.d["args"] else NONE))
        elif n.kind == "call" and n.d.get("recv") is s.cache and short(n.d["name"] or "") == "save" and n.d.get("bound"):
            v = next((v for k, v in n.d["bound"].items() if k != "self"), None)
            out.append((n, mk("attr", v, "hid"), v))
    return out


def is_key(t, k):
    return t is k or (t.op == "items" and len(t.args) == 2 and t.args[1].args[1] is k)


def marked(ms, k):
    """sites that put key k into the pending set"""
    return [n.id for n, args in ms if any(contains(a, lambda u: u is k) is not None for a in args)]


def empty_or_allowed(r, s):
    """decisions that the pending set is empty, or that the caller allowed losing it"""
    out = []
    for n in r.nodes:
        if n.kind != "assume":
            continue
        c = n.d["cond"]
        if c.op == "op" and c.args[0] == "truth":
            x = c.args[1]
            if x is s.pending and not n.d["pol"]:
                out.append(n.id)
            if allows(r, x) and n.d["pol"]:
                out.append(n.id)
        elif allows(r, c) and n.d["pol"]:
            out.append(n.id)
    return out


def method_run(ctx, lay, m, **kw):
    """a method of a cached store; its persistent half is of the class Storage gives it"""
    def setup(it, st):
        p = it._wired.get(mk("param", "self"), {}).get(lay.persistent)
        if p is not None and p.op == "param":
            it.hints[p] = "SQLiteDictStorage" if lay.cls == DICT else "SQLiteCallStorage"
            it.hints[("exact", p)] = True
    return ctx.run(lay.cls, m, selfcls=lay.cls, setup=setup, **kw)


def allows(r, x):
    """x is a parameter of the entry by which the caller allows a loss; it is off unless given"""
    return x.op == "param" and "allow" in str(x.args[0]) and x in r.P.values()
