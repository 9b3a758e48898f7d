"""Building blocks for the properties of computation frames."""
from .common import *

CF = "ComputationFrame"
FIELDS = ("inp", "out", "vs", "fs", "refinv", "callinv", "creator", "consumers", "refs", "calls")
DEPTH = {"inp": 2, "out": 2, "vs": 1, "fs": 1, "refinv": 1, "callinv": 1, "consumers": 1, "creator": 0, "refs": 0, "calls": 0}
# internal operations that change the frame they are called on, by contract
MUTATORS = ("_add_var", "_add_func", "_add_edge", "_drop_edge", "add_ref", "drop_ref", "add_call", "drop_call", "simplify", "_expand_from_call_groups")
# views of a frame that are computed on the spot
VIEWS = {"sets", "vnames", "fnames", "nodes", "in_edges", "out_edges", "edges", "in_neighbors", "out_neighbors", "values", "get_var_values",
         "sources", "sinks", "_unify_subobjects", "_is_subobject", "get_names_projecting_to", "get_io_proj", "_add_adj_calls",
         "_binary_union", "_binary_intersection", "_binary_setwise_difference", "_binary_difference"}
SHALLOW = WRAP | {".copy", "copy.copy", ".values", ".items", ".keys", "zip", "enumerate"}
DEEP = {"copy.deepcopy", "deepcopy"}


def methods(ctx):
    return ctx.prog.classes[CF].methods


# operations other analyses treat as contracts (each is checked on its own); anything else of the class is followed
KNOWN = ("ops refs_by_var calls_by_func drop drop_node rename _add_var drop_var rename_var _add_func drop_func _add_edge _drop_edge add_ref drop_ref "
         "add_call drop_call get_source_elts get_sink_elts get_adj_elts_edge get_adj_elts select_nodes select_subsets get_reachable_nodes downstream "
         "upstream midstream union intersection __or__ __and__ __sub__ _group_calls _expand_from_call_groups _expand_unidirectional expand_back "
         "expand_forward expand_all topsort_modulo_sccs sort_nodes _sort_df get_all_edges_on_paths_between eval df attach eval_df get get_func_table "
         "get_direct_history get_total_history get_history_df get_joint_history_df apply copy __getitem__ get_reachable_elts "
         "get_reachable_elts_acyclic __lt__ isin move_ref merge_into merge_vars drop_unreachable simplify cleanup from_op from_refs from_vars "
         "delete_calls delete_calls_from_df get_new_vname get_new_fname print_graph get_graph_desc draw __repr__ get_var_stats get_func_stats "
         "_get_prettytable_str var_info func_info info").split()


_opq2: dict = {}


def contracts(ctx, *entries, inline=()):
    """opaque predicate: the named operations of the class and everything of the storage and the model are contracts, except the entries"""
    k = (id(ctx), entries, tuple(inline))
    if k not in _opq2:
        qs = {ctx.prog.method(CF, e).qual for e in entries}

        def p(f):
            if f.qual in qs or f.name in inline:
                return False
            if f.cls is not None and f.cls.name == CF and f.parent is None:
                return f.name in KNOWN
            m = f.module.rsplit(".", 1)[-1]
            return m in ("storage", "model", "viz", "storage_utils")
        _opq2[k] = p
    return _opq2[k]


def deep_facts(r_or_st, self_t, extra=()):
    """copies of a field are never None"""
    return frozenset((mk("op", "isnone", mk("call", d, mk("attr", self_t, f))), False) for f in FIELDS for d in DEEP)


def cf_method(ctx, n):
    """the name of the frame operation a call node calls by contract, or None"""
    if n.kind != "call":
        return None
    q = n.d.get("name") or ""
    f = ctx.prog.functions.get(q)
    return f.name if f is not None and f.cls is not None and f.cls.name == CF and f.parent is None else None


def term_method(ctx, t):
    """the name of the frame operation whose result the term is"""
    if t.op != "call":
        return None
    f = ctx.prog.functions.get(t.args[0])
    return f.name if f is not None and f.cls is not None and f.cls.name == CF and f.parent is None else None


def inplace_methods(ctx):
    out = {}
    for name, fn in methods(ctx).items():
        a = fn.node.args
        if "inplace" in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            out[name] = fn
    return out


def inplace_of(ctx, n):
    """the constant value of the `inplace` argument of a call by contract: True, False, or None when it is not constant"""
    v = given(ctx, None, n, "inplace") if "inplace" not in (n.d.get("bound") or {}) else n.d["bound"]["inplace"]
    return v.args[0] if v.op == "const" else None


# ------------------------------------------------------------- what happens to a frame
class Op1:
    """one change of a container of the frame: kind (set, del, add, remove), path (field, key, ...), value"""
    __slots__ = ("node", "kind", "path", "val")

    def __init__(self, node, kind, path, val):
        self.node, self.kind, self.path, self.val = node, kind, path, val

    def __repr__(self):
        return f"{self.kind} {[x if isinstance(x, str) else show(x, 3) for x in self.path]} {show(self.val, 2) if self.val is not None else ''}"


ADDS = {"add", "update", "append"}
REMS = {"remove", "discard", "difference_update"}
DELS = {"delitem", "pop"}


class Frame:
    """changes of, and decisions about, the containers of frame S in a run"""

    def __init__(self, r, S):
        self.r, self.S = r, S
        self.stored = {}
        for n in r.nodes:
            if n.kind == "mut" and n.d["how"] == "setitem" and n.d.get("value") is not None and n.d["value"].op == "obj":
                self.stored.setdefault(n.d["value"], []).append((n, n.d["key"]))
            if n.kind == "mut" and n.d["how"] == "setdefault" and len(n.d["args"]) == 2 and n.d["args"][1].op == "obj":
                self.stored.setdefault(n.d["args"][1], []).append((n, n.d["args"][0]))
        self.ops = [o for n in r.nodes for o in self._ops(n)]
        self.unknown = [n for n in r.nodes if n.kind == "mut" and self.place(n.d["target"]) is not None and not any(o.node is n for o in self.ops)]

    def place(self, t, d=0):
        """where in the frame container t is: (field, key, ...), or None"""
        if t is None or d > 8:
            return None
        if t.op == "attr" and t.args[0] is self.S and t.args[1] in DEPTH:
            return (t.args[1],)
        if t.op == "sub":
            p = self.place(t.args[0], d + 1)
            return p + (t.args[1],) if p else None
        if t.op == "call" and t.args[0] in (".setdefault", ".get") and len(cargs(t)) >= 2:
            p = self.place(cargs(t)[0], d + 1)
            return p + (cargs(t)[1],) if p else None
        if t.op == "val":
            p = self.place(t.args[0], d + 1)
            return p + (mk("key", t.args[0]),) if p else None
        if t.op == "obj":
            ps = {self.place(n.d["target"], d + 1) + (self.r.snap(n, k),) for n, k in self.stored.get(t, []) if self.place(n.d["target"], d + 1)}
            return ps.pop() if len(ps) == 1 else None
        if t.op == "phi":
            ps = {self.place(a, d + 1) for a in t.args}
            return ps.pop() if len(ps) == 1 else None
        return None

    def _members(self, t):
        """elements written out in a set term"""
        if t.op == "items":
            return [i.args[1] for i in t.args[1:] if not i.args[2] and not i.args[3]]
        return []

    def _ops(self, n):
        r = self.r
        if n.kind != "mut":
            return []
        p = self.place(n.d["target"])
        if p is None:
            return []
        how, args = n.d["how"], [r.snap(n, a) for a in n.d["args"]]
        key = r.snap(n, n.d["key"]) if n.d.get("key") is not None else None
        val = r.snap(n, n.d["value"]) if n.d.get("value") is not None else None
        out = []
        if how == "setitem":
            out.append(Op1(n, "set", p + (key,), val))
            out += [Op1(n, "add", p + (key,), x) for x in self._members(val)]
            if val.op == "op" and val.args[0] in ("bitor", "sub") and self.place(val.args[1]) == p + (key,):
                out.append(Op1(n, "add" if val.args[0] == "bitor" else "remove", p + (key,), None))
                out += [Op1(n, "add" if val.args[0] == "bitor" else "remove", p + (key,), x) for x in self._members(val.args[2])]
        elif how == "setdefault":
            k = key if key is not None else (args[0] if args else None)
            if k is not None:
                out.append(Op1(n, "default", p + (k,), args[1] if len(args) > 1 else None))
        elif how in DELS:
            k = key if key is not None else (args[0] if args else None)
            if k is not None:
                out.append(Op1(n, "del", p + (k,), None))
        elif how in ("add", "append"):
            out += [Op1(n, "add", p, x) for x in args]
        elif how in ("update",):
            out += [Op1(n, "add", p, x) for a in args for x in self._members(a)]
        elif how in ("remove", "discard"):
            out += [Op1(n, "remove", p, x) for x in args]
        elif how in ("difference_update",):
            out += [Op1(n, "remove", p, x) for a in args for x in self._members(a)]
        return out

    def sites(self, kind, path, val=None, check_val=True):
        return [o.node for o in self.ops if o.kind == kind and same_path(o.path, path) and (not check_val or val is None or o.val is val)]

    def empty(self, n, path):
        """n decides whether the container at path is empty: +1 it is, -1 it is not, 0 something else"""
        if n.kind != "assume":
            return 0
        c, pol = n.d["cond"], n.d["pol"]
        if c.op != "op":
            return 0
        if c.args[0] == "truth" and self.at(c.args[1], path):
            return -1 if pol else 1
        s = size_cond(c, lambda t: self.at(t, path))
        if s == "0":
            return 1 if pol else -1
        if s == ">0":
            return -1 if pol else 1
        return 0

    def last(self, n, path, x):
        """n decides whether x is the only element at path: +1 it is, -1 there are others, 0 something else"""
        if n.kind != "assume":
            return 0
        c, pol = n.d["cond"], n.d["pol"]
        if c.op != "op":
            return 0
        s = size_cond(c, lambda t: self.at(t, path))
        if s in ("1", "<=1", ">1") and self.after(n, path, x):
            return 0
        if s in ("1", "<=1"):
            return 1 if pol else -1
        if s == ">1":
            return -1 if pol else 1
        if c.args[0] == "eq":
            for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if self.at(a, path) and self.r.snap(n, b).op == "items" and self._members(self.r.snap(n, b)) == [x]:
                    return 1 if pol else -1
        return 0

    def after(self, n, path, x):
        """x may have been taken out before n"""
        return self.r.path([o.id for o in self.sites("remove", path, x)], [n.id], avoid=[m.id for m in self.r.nodes if m.kind == "iter"]) is not None

    def at(self, t, path):
        p = self.place(t)
        return p is not None and same_path(p, path)

    def has(self, n, path, x):
        """n decides whether x is in (a key of) the container at path: +1 it is, -1 it is not, 0 something else"""
        if n.kind != "assume":
            return 0
        c, pol = n.d["cond"], n.d["pol"]
        if c.op == "op" and c.args[0] == "in" and c.args[1] is x:
            t = c.args[2]
            if t.op == "call" and t.args[0] in (".keys", "set", "list"):
                t = cargs(t)[0]
            if self.at(t, path):
                return 1 if pol else -1
        if c.op == "op" and c.args[0] == "isnone" and c.args[1].op == "call" and c.args[1].args[0] == ".get" and self.at(c.args[1], path + (x,)):
            return -1 if pol else 1
        return 0


def same_path(p, q):
    return len(p) == len(q) and all(a is b or a == b for a, b in zip(p, q))


def size_cond(c, pred):
    """what a condition says about the size of a collection satisfying pred: "0", "1", ">0", ">1", "<=1" or None"""
    if c.op != "op" or c.args[0] not in ("eq", "lt", "le", "gt", "ge"):
        return None
    a, b = c.args[1], c.args[2]
    o = c.args[0]

    def ln(t):
        return t.op == "call" and t.args[0] == "len" and cargs(t) and pred(cargs(t)[0])
    if ln(b) and a.op == "const":
        a, b = b, a
        o = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq"}[o]
    if not (ln(a) and b.op == "const" and isinstance(b.args[0], int)):
        return None
    k = b.args[0]
    return {("eq", 0): "0", ("eq", 1): "1", ("gt", 0): ">0", ("ge", 1): ">0", ("gt", 1): ">1", ("ge", 2): ">1", ("lt", 1): "0", ("le", 0): "0",
            ("lt", 2): "<=1", ("le", 1): "<=1"}.get((o, k))


def exits(r):
    return [n.id for n, _, _ in r.ends]


def need(ctx, r, rule, where, sites, msg, legit=(), starts=None, goals=None):
    """every flow to a normal exit passes one of the sites or a legitimate decision"""
    ids = {n.id for n in sites} | {n.id for n in legit}
    p = r.path(starts if starts is not None else [r.it.entry.id], goals if goals is not None else exits(r), avoid=ids)
    return ctx.check(rule, where, bool(sites) and p is None, msg, sites[0] if sites else r.it.entry, show_path(p))


def before(ctx, r, rule, where, site, dec, msg):
    """site is reached only through one of the decisions"""
    ids = {n.id for n in dec}
    p = r.path([r.it.entry.id], [site.id], avoid=ids - {site.id})
    return ctx.check(rule, where, p is None, msg, site, show_path(p))


def method_calls(ctx, r, name, recv=None):
    """calls of the named frame operation, on the given frame"""
    out = []
    for n in r.nodes:
        if cf_method(ctx, n) == name and (recv is None or n.d["recv"] is recv):
            out.append(n)
    return out


def per_item(r, head):
    return [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == head.id]


def backs(r, head):
    return [p for p in r.nodes[head.id].preds if p >= head.id]


def every_item(ctx, r, rule, where, head, sites, msg, legit=()):
    """every round of the loop passes one of the sites, or a legitimate decision; it is not left early"""
    ids = {n.id if hasattr(n, "id") else n for n in sites} | {n.id if hasattr(n, "id") else n for n in legit}
    p = r.path(per_item(r, head), backs(r, head), avoid=ids)
    ok = ctx.check(rule, where, bool(sites) and p is None, msg, head, show_path(p))
    return unbroken(ctx, r, rule, where, head, msg) and ok


def unbroken(ctx, r, rule, where, head, msg):
    """the loop is not left early"""
    ok = True
    for b in r.nodes:
        if b.kind in ("break", "loopret") and b.d["head"] == head.id:
            ctx.bad(rule, where, f"{msg}: the loop can be left early", b)
            ok = False
    return ok


def body(r, head):
    """ids of the nodes of the loop's body"""
    return r.reach(per_item(r, head), avoid=[head.id])


def is_any(c, x, y):
    """condition c says that x is y, possibly among others: a disjunct of it does"""
    if c.op != "op":
        return False
    if c.args[0] == "or":
        return any(is_any(d, x, y) for d in c.args[1:])
    return is_one(c, x, y) or c.args[0] == "in" and c.args[1] is x and c.args[2].op in ("tuple", "items") and any(
        z is y for z in (c.args[2].args if c.args[2].op == "tuple" else [i.args[1] for i in c.args[2].args[1:] if not i.args[2] and not i.args[3]]))


def is_one(c, x, y):
    """condition c says that x is y"""
    return c.op == "op" and c.args[0] == "eq" and set(c.args[1:]) == {x, y}


def selects(r, l, x, y):
    """the collection the loop goes through holds every item with x being y"""
    for c in coverage(r.snap(l, l.d["siter"])):
        if all(p and is_any(g, x, y) or not p and g.op == "op" and g.args[0] == "ne" and set(g.args[1:]) == {x, y} for g, p in c.guards):
            return True
    return False
