"""Abstract interpreter producing value-flow terms and an interprocedural
event graph for one entry point.  Nothing of the repository is executed.

Every abstract step that can matter (call, store, mutation, branch, loop,
return, raise, allocation) becomes a Node whose `preds` are the nodes that can
precede it on some flow.  Flows are kept apart while they differ in the
None/constant/object shape of the values in scope (trace partitioning) and are
otherwise merged; branch conditions decided by earlier tests are pruned.
"""
from __future__ import annotations
import ast
import builtins
from .terms import *
from .terms import T, mk, const, phi, unk, alts
from .program import Program, Fn, Cls, AnchorError

MAXP = 10
BUDGET = 250000


class Budget(Exception):
    pass


def st_neg(st, t):
    return st.heap.get((t, "$neg"))


class Node:
    __slots__ = ("id", "kind", "d", "preds", "fn", "line", "stack", "facts", "heap", "loops", "mod", "ast")

    def __init__(self, id, kind, d, preds, fn, line, stack, facts, heap, loops):
        self.id, self.kind, self.d, self.preds = id, kind, d, list(preds)
        self.fn, self.line, self.stack = fn, line, stack
        self.facts, self.heap, self.loops = facts, heap, loops

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def loc(self):
        if self.fn is None:
            return "?"
        return f"{self.fn.module.replace('.', '/')}.py:{self.line} in {self.fn.qual.split('.', 1)[-1]}"

    def path(self):
        return " > ".join(f"{q.split('.')[-1]}:{l}" for q, l, *_ in self.stack) if self.stack else ""

    def __repr__(self):
        return f"<{self.id} {self.kind} {self.loc()} {({k: (v if not isinstance(v, T) else show(v, 4)) for k, v in self.d.items()})}>"


TOP = frozenset((frozenset(),))


def simplify(dnf):
    """a disjunction of sets of decisions, without what the other alternatives make superfluous"""
    cur = set(dnf)
    if len(cur) > 24:
        return TOP
    ch = True
    while ch:
        ch = False
        for x in list(cur):
            if any(y < x for y in cur):
                cur.discard(x)
                ch = True
                continue
            for l in x:
                n = (l[0], not l[1])
                rest = x - {l}
                if any(n in y and y - {n} <= rest for y in cur if y is not x):
                    cur.discard(x)
                    cur.add(rest)
                    ch = True
                    break
    return frozenset(cur)


class State:
    __slots__ = ("env", "heap", "facts", "at", "loops", "dnf", "_hs")

    def __init__(self, env=None, heap=None, facts=frozenset(), at=(), loops=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts, self.at, self.loops = facts, at, loops
        self.dnf = TOP          # the ways the current iteration got here, as sets of decisions
        self._hs = False

    def fork(self):
        s = State(dict(self.env), self.heap, self.facts, self.at, self.loops)
        s.dnf = self.dnf
        self._hs = True
        s._hs = True
        return s

    def hset(self, k, v):
        if self._hs:
            self.heap = dict(self.heap)
            self._hs = False
        self.heap[k] = v

    def hdel(self, k):
        if k in self.heap:
            if self._hs:
                self.heap = dict(self.heap)
                self._hs = False
            del self.heap[k]


class Frame:
    __slots__ = ("fn", "fid", "stack", "mod", "selfT", "cm")

    def __init__(self, fn, fid, stack, selfT):
        self.fn, self.fid, self.stack, self.mod, self.selfT = fn, fid, stack, fn.module, selfT
        self.cm = None


class Cfg:
    """Analysis configuration.

    may_raise(node)->list of exception type names ('?' = any) or None
    opaque: predicate(Fn)->bool, functions recorded as events instead of expanded
    attrs: {(class name, attribute): python constant} assumed attribute values
    inline: expand repository functions (False: every call is an event)
    tx: 'transparent' treats the transaction decorator as a begin/end pair
    """

    def __init__(self, **kw):
        self.may_raise = None
        self.opaque = lambda fn: False
        self.attrs = {}
        self.params = {}
        self.tx = "transparent"
        self.maxrec = 1
        self.asserts = "assume"
        self.maxdepth = 30
        self.wiring = True
        self.join_exits = False
        self.__dict__.update(kw)


PURE = set("""isinstance len str repr hash bool int float abs min max sum any all id callable hasattr getattr type
tuple sorted reversed range enumerate zip iter format issubclass round chr ord divmod frozenset
.items .keys .values .get .startswith .endswith .split .rsplit .join .format .strip .lstrip .rstrip .lower .upper .splitlines
.replace .issubset .issuperset .intersection .union .difference .symmetric_difference .isdigit .encode .decode .count .index
.is_file .relative_to .with_suffix .as_posix .hexdigest .tolist .unique .nunique .get_level_values
os.path.join os.path.splitext os.path.exists os.path.basename os.path.dirname Path pathlib.Path
itertools.chain operator.itemgetter operator.attrgetter functools.partial
inspect.signature inspect.isfunction inspect.ismodule inspect.getfile
textwrap.indent textwrap.shorten textwrap.dedent
get_content_hash joblib.hash
typing.cast copy.deepcopy copy.copy
set list dict map filter
""".split())

IGNORED_PREFIX = ("logging.", "logger.", "print")
MUTATORS = {"append", "add", "extend", "update", "pop", "remove", "discard", "clear", "insert", "setdefault", "popitem",
            "appendleft", "popleft", "sort", "reverse", "difference_update", "intersection_update", "symmetric_difference_update",
            "__setitem__", "__delitem__"}
BOOLOPS = {"not", "isnone", "truth", "eq", "lt", "le", "gt", "ge", "in", "is", "isinstance", "and", "or", "all", "any", "hasattr",
           "callable", "issubset"}
CONTAINERS = ("list", "dict", "set", "gen")

_EXC = {n: getattr(builtins, n) for n in dir(builtins)
        if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
_SQL_EXC = {"sqlite3.OperationalError": "sqlite3.DatabaseError", "sqlite3.IntegrityError": "sqlite3.DatabaseError",
            "sqlite3.DatabaseError": "sqlite3.Error", "sqlite3.Error": "Exception"}


def exc_matches(exc, handler):
    """True/False/None(unknown) for exception type names"""
    if handler in ("BaseException",):
        return True
    if exc == "?":
        return True if handler == "Exception" else None
    if exc == handler:
        return True
    if handler == "Exception" and exc not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit", "BaseException"):
        return True
    e = exc
    while e in _SQL_EXC:
        e = _SQL_EXC[e]
        if e == handler:
            return True
    if exc in _EXC and handler in _EXC:
        return issubclass(_EXC[exc], _EXC[handler])
    return False


def free_iter(t):
    """the iteration variables of t that are not bound inside it"""
    if t.op in ("key", "val", "elem", "index"):
        yield t
    elif t.op != "items":
        for a in t.args:
            if isinstance(a, T):
                yield from free_iter(a)


class Interp:
    def __init__(self, prog: Program, cfg: Cfg | None = None):
        self.prog = prog
        self.cfg = cfg or Cfg()
        self.nodes: list[Node] = []
        self.frames: list[Frame] = []
        self.hints: dict[T, object] = {}
        self.looked = []             # lookups in containers: (container, key, found, found as it was)
        self.pure_lookup = False     # a looked-up container is taken by content, not by identity
        self._acc = {}
        self.probes = {}             # (key, content of the container) -> the containers asked
        self.nfid = 0
        self.rs: list = []           # raised (state, exc)
        self.closures: dict = {}
        self.alive: set = set()
        self.cm_hooks: dict = {}     # call expression of a `with` over a generator context manager -> body runner
        self.unroll: tuple = ()
        self.steps = 0
        self.tx_funcs = find_tx_decorators(prog)
        self.gcache: dict = {}
        self._wired: dict = {}
        self.rdnf: list = []        # decisions under which the current iteration raised
        self.origins: dict = {}     # phi -> {(alternative, decisions)}
        self.entry_exits = []
        self.line = 0
        self.trace = None

    # ================================================================= graph
    def emit(self, st, kind, node=None, **d):
        fr = self.frames[-1] if self.frames else None
        if len(self.nodes) > BUDGET:
            raise Budget("node budget exhausted")
        st._hs = True
        line = getattr(node, "lineno", self.line)
        n = Node(len(self.nodes), kind, d, st.at, fr.fn if fr else None, line, fr.stack if fr else (),
                 st.facts, st.heap, st.loops)
        self.nodes.append(n)
        st.at = (n.id,)
        return n

    def site(self, node):
        fr = self.frames[-1]
        return fr.stack + ((fr.fn.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0) + 1000 * getattr(node, "end_col_offset", 0) + 1000000 * (getattr(node, "end_lineno", 0) - getattr(node, "lineno", 0) if isinstance(node, ast.Call) else 0)) + self.unroll,)

    # ================================================================= types
    def typeof(self, t, st=None):
        if st is not None and st.facts:
            for (f, p) in st.facts:
                if p and f.op == "op" and f.args[0] == "isinstance" and f.args[1] is t:
                    n = self._clsname(f.args[2])
                    if n:
                        return n
        h = self.hints.get(t)
        if h is not None:
            return h
        o = t.op
        if o == "obj":
            k = t.args[0]
            if k.startswith("inst:"):
                return k[5:]
            return {"list": ("List", None), "gen": ("List", None), "dict": ("Dict", None, None), "set": ("Set", None)}[k]
        if o == "attr":
            b = self.typeof(t.args[0], st)
            for n in self._clsnames(b):
                ty = self.prog.field_ty(n, t.args[1])
                if ty is not None:
                    return ty
            return None
        if o in ("elem", "val", "key"):
            b = self._nonnull(self.typeof(t.args[0], st))
            if isinstance(b, tuple):
                if b[0] == "Dict":
                    return b[2] if o == "val" else b[1]
                if b[0] in ("List", "Set") and o == "elem":
                    return b[1]
                if b[0] == "Tuple" and o == "elem" and len(b) > 1 and len(set(b[1:])) == 1:
                    return b[1]
            return None
        if o == "sub":
            b = self._nonnull(self.typeof(t.args[0], st))
            if isinstance(b, tuple):
                if b[0] == "Dict":
                    return b[2]
                if b[0] == "List":
                    return b[1]
                if b[0] == "Tuple" and is_const(t.args[1]) and isinstance(t.args[1].args[0], int):
                    i = t.args[1].args[0]
                    if -len(b) + 1 <= i < len(b) - 1:
                        return b[1:][i]
            return None
        if o == "phi":
            return self.prog._union([self.typeof(a, st) for a in t.args if not is_const(a, None)])
        if o == "const":
            v = t.args[0]
            return None if v is None else type(v).__name__
        if o == "fstr":
            return "str"
        if o == "tuple":
            return ("Tuple",) + tuple(self.typeof(a, st) for a in t.args)
        if o == "call" and t.args[0] in ("set", "list", "sorted", "dict", "deepcopy", "copy.deepcopy"):
            if t.args[0] in ("copy.deepcopy",) and len(t.args) > 1:
                return self.typeof(t.args[1], st)
            return {"set": ("Set", None), "list": ("List", None), "sorted": ("List", None), "dict": ("Dict", None, None)}.get(t.args[0])
        if o == "op" and t.args[0] in BOOLOPS:
            return "bool"
        if o == "op" and t.args[0] in ("sub", "bitor", "bitand", "bitxor"):
            return self.typeof(t.args[1], st)
        return None

    @staticmethod
    def _nonnull(ty):
        if isinstance(ty, tuple) and ty and ty[0] == "Union":
            r = [x for x in ty[1:] if x != "None"]
            full = [x for x in r if isinstance(x, tuple) and any(y is not None for y in x[1:])]
            r = [x for x in r if not (isinstance(x, tuple) and x and all(y is None for y in x[1:]) and any(f[0] == x[0] for f in full))]
            if len(r) == 1:
                return r[0]
            return ty
        return ty

    def _clsnames(self, ty):
        ty = self._nonnull(ty)
        if isinstance(ty, str):
            return [ty] if ty in self.prog.classes else []
        if isinstance(ty, tuple) and ty and ty[0] == "Union":
            return [x for x in ty[1:] if isinstance(x, str) and x in self.prog.classes]
        return []

    def _clsname(self, t):
        if t.op == "class":
            return t.args[0]
        return None

    def hint(self, t, ty):
        if ty is None or t.op in ("const", "obj"):
            return
        if t.op == "phi":
            for a in t.args:
                self.hint(a, ty)
            return
        ty = self._nonnull(ty)
        if isinstance(ty, tuple) and ty[0] == "Union":
            if not self._clsnames(ty):
                return
        if t not in self.hints and self.typeof(t) is None:
            self.hints[t] = ty

    # ================================================================= merge
    def sigval(self, v):
        if v.op == "const":
            return v.uid
        if v.op == "obj" and v.args[0].startswith("inst:"):
            return v.uid
        if v.op in ("class", "func", "closure", "bound"):
            return v.uid
        if v.op == "phi":
            return tuple(sorted({self.sigval(a) for a in v.args}, key=str))
        return "*"

    def sig(self, st, val=None):
        fid = self.frames[-1].fid if self.frames else None
        sv = self.sigval
        e = frozenset((k[1], sv(v)) for k, v in st.env.items() if k[0] == fid)
        h = frozenset((k, v.uid) for k, v in st.heap.items()
                      if v.__class__ is T and v.op == "const" and k[1].__class__ is str and k[1][0] != "$")
        return (e, h, sv(val) if val is not None else None)

    def coarse(self, st, val=None):
        return (self.sigval(val) if val is not None else None)

    def join(self, sts):
        """join states into one"""
        if len(sts) == 1:
            return sts[0]
        a = sts[0]
        r = State(dict(a.env), None, a.facts, a.at, a.loops)
        r.dnf = a.dnf
        if any(s.dnf is not a.dnf for s in sts):
            r.dnf = simplify(frozenset().union(*[s.dnf for s in sts]))
        at = []
        for s in sts:
            for x in s.at:
                if x not in at:
                    at.append(x)
        r.at = tuple(at)
        facts = a.facts
        for s in sts[1:]:
            if s.facts is not facts:
                facts = facts & s.facts
        r.facts = facts
        diff = {}
        for s in sts[1:]:
            for k, v in s.env.items():
                o = r.env.get(k)
                if o is None:
                    r.env[k] = v
                elif o is not v:
                    r.env[k] = phi(o, v)
                    diff[k] = 1
        for k in diff:
            self.note_phi(r.env[k], [(s.env[k], s.facts) for s in sts if k in s.env])
        # loops: keep the longest common prefix
        lp = a.loops
        for s in sts[1:]:
            n = 0
            while n < len(lp) and n < len(s.loops) and lp[n] is s.loops[n]:
                n += 1
            lp = lp[:n]
        r.loops = lp
        heap = a.heap
        same = all(s.heap is heap for s in sts)
        if same:
            r.heap = heap
            r._hs = True
            for s in sts:
                s._hs = True
            return r
        keys = {}
        done = {id(heap)}
        for s in sts[1:]:
            if id(s.heap) in done:
                continue
            done.add(id(s.heap))
            for k, v in s.heap.items():
                if heap.get(k) is not v:
                    keys[k] = 1
            if len(s.heap) != len(heap) or keys:
                for k in heap:
                    if k not in s.heap:
                        keys[k] = 1
        h = dict(heap)
        for k in keys:
            h.pop(k, None)
            vs = []
            missing = False
            for s in sts:
                v = s.heap.get(k)
                if v is None:
                    missing = True
                elif v not in vs:
                    vs.append(v)
            base, f = k
            if len(vs) == 1 and not missing:
                h[k] = vs[0]
                continue
            if isinstance(f, str) and f == "$items":
                u = []
                for v in vs:
                    for i in v:
                        if i not in u:
                            u.append(i)
                h[k] = tuple(u)
            elif isinstance(f, str) and f in ("$facts", "$loops", "$alloc", "$def"):
                h[k] = vs[0]
            elif isinstance(f, tuple):
                if not missing:
                    h[k] = phi(*vs)
                # else: forget the element store
            else:
                if missing and base.op != "obj":
                    vs = vs + [mk("attr", base, f)]
                elif missing and (base, "$alloc") in heap and all((base, "$alloc") in s.heap for s in sts):
                    vs = vs + [mk("attr", base, f)]
                h[k] = phi(*vs)
        r.heap = h
        return r

    def merge(self, sts, limit=MAXP):
        if len(sts) <= 1:
            return sts
        g = {}
        for s in sts:
            g.setdefault(self.sig(s), []).append(s)
        if len(g) > limit:
            return [self.join(sts)]
        return [self.join(v) for v in g.values()]

    def merge_vals(self, svs, limit=MAXP):
        if len(svs) <= 1:
            return svs
        g = {}
        for s, v in svs:
            g.setdefault(self.sig(s, v), []).append((s, v))
        if len(g) > limit:
            g = {}
            for s, v in svs:
                g.setdefault(self.coarse(s, v), []).append((s, v))
            if len(g) > limit:
                g = {None: svs}
        out = []
        for lst in g.values():
            if len(lst) == 1:
                out.append(lst[0])
            else:
                j = self.join([s for s, _ in lst])
                p = phi(*[v for _, v in lst])
                if p.op == "phi":
                    self.note_phi(p, [(v, s.facts) for s, v in lst])
                out.append((j, p))
        return out

    def note_phi(self, p, parts):
        """remember under which decisions each alternative of a merged value was taken"""
        if p.op == "phi":
            self.origins.setdefault(p, set()).update((v, f) for v, f in parts if v is not p)

    # ================================================================= names
    def lookup(self, st, name, node=None):
        # local and enclosing frames
        fr = self.frames[-1]
        k = (fr.fid, name)
        if k in st.env:
            return st.env[k]
        f = fr.fn
        chain = self.closure_chain(fr)
        for fid in chain:
            if (fid, name) in st.env:
                return st.env[(fid, name)]
        return self.global_name(st, fr.mod, name)

    def closure_chain(self, fr):
        out = []
        c = self.closures.get(("frame", fr.fid))
        while c is not None:
            out.append(c)
            c = self.closures.get(("frame", c))
        return out

    def global_name(self, st, modname, name):
        r = self.prog.lookup_global(modname, name)
        if r is None:
            if hasattr(builtins, name):
                return mk("builtin", name)
            return mk("ext", name)
        return self.binding(st, r, name)

    def binding(self, st, r, name):
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            return mk("class", r[1].name)
        if r[0] == "module":
            return mk("module", r[1])
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "expr":
            key = (r[2], name)
            if key in self.gcache:
                v = self.gcache[key]
                return v
            self.gcache[key] = mk("ext", f"{r[2]}.{name}")   # recursion guard
            v = self.eval_global(r[1], r[2], name, r[3])
            self.gcache[key] = v
            return v
        return mk("ext", name)

    def eval_global(self, expr, modname, name, prev):
        """module level value"""
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.Call):
            r = self.prog.lookup_global(modname, ast.unparse(expr.func)) if isinstance(expr.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "class":
                o = mk("obj", "inst:" + r[1].name, (("<module>", modname, name),))
                self.global_objs = getattr(self, "global_objs", {})
                self.global_objs[o] = (expr, modname, prev, r[1])
                return o
            return mk("ext", f"{modname}.{name}")
        if isinstance(expr, (ast.Tuple,)):
            return mk("tuple", *[self.eval_global(e, modname, name, None) for e in expr.elts])
        if isinstance(expr, ast.Name):
            return self.global_name(None, modname, expr.id)
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            return self.binop("add", self.eval_global(expr.left, modname, name, None), self.eval_global(expr.right, modname, name, None))
        if isinstance(expr, ast.JoinedStr) and all(isinstance(v, ast.Constant) for v in expr.values):
            return const("".join(v.value for v in expr.values))
        if isinstance(expr, (ast.List, ast.Set)) and expr.elts:
            return mk("tuple", *[self.eval_global(e, modname, name, None) for e in expr.elts])
        return mk("ext", f"{modname}.{name}")

    def global_obj_field(self, o, attr):
        """field of a module level instance: constructor keyword binding"""
        expr, modname, prev, cls = self.global_objs[o]
        init = cls.find("__init__")
        args = {}
        if init is not None:
            for p, a in zip(init.pos[1:], expr.args):
                args[p] = a
            for kw in expr.keywords:
                if kw.arg:
                    args[kw.arg] = kw.value
            # field := parameter (find self.attr = name)
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and n.targets[0].attr == attr and isinstance(n.value, ast.Name):
                    p = n.value.id
                    e = args.get(p, init.defaults.get(p))
                    if e is None:
                        return None
                    if isinstance(e, ast.Constant):
                        return const(e.value)
                    if isinstance(e, ast.Name) and prev and prev[0] == "func" and e.id == prev[1].name:
                        return mk("func", prev[1].qual)
                    if isinstance(e, ast.Attribute) and e.attr == "__name__":
                        return const(getattr(e.value, "id", "?"))
                    if isinstance(e, (ast.List, ast.Tuple)):
                        return mk("tuple", *[const(x.value) if isinstance(x, ast.Constant) else mk("ext", ast.unparse(x)) for x in e.elts])
                    r = self.prog.lookup_global(modname, ast.unparse(e))
                    if r and r[0] == "func":
                        return mk("func", r[1].qual)
                    return mk("ext", ast.unparse(e))
        return None

    # ================================================================= heap
    def alloc(self, st, kind, node, tag=None):
        s = self.site(node)
        if tag is not None:
            s = s + (tag,)
        o = mk("obj", kind, s)
        st.hset((o, "$alloc"), TRUE)
        st.hset((o, "$facts"), st.facts)
        st.hset((o, "$loops"), st.loops)
        if kind in CONTAINERS:
            st.hset((o, "$items"), ())
            if self.pure_lookup and kind == "set" and tag != "$neg":
                # what is taken out of the set
                st.hset((o, "$neg"), self.alloc(st, kind, node, "$neg"))
        else:
            for k in [k for k in st.heap if k[0] is o and not (isinstance(k[1], str) and k[1].startswith("$"))]:
                st.hdel(k)
        return o

    def item(self, st, o, key, val):
        f0 = st.heap.get((o, "$facts"), frozenset())
        l0 = st.heap.get((o, "$loops"), ())
        guards = frozenset(x for x in st.facts if x not in f0)
        iters = st.loops[len(l0):]
        if self.pure_lookup and key is not None and val is not None and val.op == "obj" and val.args[0] in CONTAINERS and not st.heap.get((val, "$items"), ()) and not st.heap.get((val, "$def")):
            # d[k] = <empty> unless k is in d: afterwards k is in d either way
            guards = frozenset((c, p) for c, p in guards if p or not (c.op == "op" and c.args[0] == "in" and c.args[1] is key and o in self.probes.get((key, c.args[2]), ())))
        if iters:
            d = simplify(st.dnf | self.rdnf[-1]) if self.rdnf else st.dnf
            if len(d) > 1:
                guards |= {(mk("op", "or", *sorted((mk("op", "and", *sorted((c if p else mk("op", "not", c) for c, p in x), key=lambda t: t.uid))
                                                    for x in d), key=lambda t: t.uid)), True)}
        return mk("item", key, val, tuple(it for it, _u in iters), guards)

    def add_item(self, st, o, key, val):
        it = self.item(st, o, key, val)
        items = st.heap.get((o, "$items"), ())
        if key is not None and not it.args[2] :
            items = tuple(i for i in items if i.args[0] is not key)
        elif key is not None:
            items = tuple(i for i in items if not (i.args[0] is key and i.args[2] == it.args[2] and i.args[3] == it.args[3]))
        if not any(j.args[:3] == it.args[:3] and j.args[3] <= it.args[3] for j in items):
            items = items + (it,)
        if len(items) > 40:
            items = (mk("item", None if key is None else unk(*[i.args[0] for i in items if i.args[0] is not None]),
                        unk(*[i.args[1] for i in items]), (), frozenset()),)
        st.hset((o, "$items"), items)

    def negated(self, heap, t):
        """the container of what was taken out of set t, if anything was"""
        n = heap.get((t, "$neg")) if self.pure_lookup else None
        return n if n is not None and heap.get((n, "$items"), ()) else None

    def added(self, st, t):
        """something is put into a set again: what was taken out before is no longer told"""
        n = self.negated(st.heap, t)
        if n is not None:
            st.hset((n, "$items"), ())

    def items_of(self, st, t):
        """items of a container value, or None when its contents are not tracked"""
        if t.op == "obj" and t.args[0] in CONTAINERS:
            if self.negated(st.heap, t):
                w = self.snap(st.heap, t)
                return (mk("item", None, mk("elem", w), (w,), frozenset()),)
            return st.heap.get((t, "$items"), ())
        if t.op == "tuple":
            return tuple(mk("item", None, a, (), frozenset()) for a in t.args)
        if t.op == "items":
            return t.args[1:]
        return None

    def copy_items(self, st, dst, src, as_dict=None):
        """add the contents of src to container dst"""
        for s in alts(src):
            its = self.items_of(st, s)
            want_key = dst.args[0] == "dict"
            if its is not None:
                l0 = st.heap.get((dst, "$loops"), ())
                f0 = st.heap.get((dst, "$facts"), frozenset())
                ex = tuple(x for x, _ in st.loops[len(l0):])
                g = frozenset(x for x in st.facts if x not in f0)
                items = st.heap.get((dst, "$items"), ())
                src_is_dict = s.op == "obj" and s.args[0] == "dict" or (s.op == "items" and s.args[0] == "dict")
                for i in its:
                    k, v, itr, gd = i.args
                    if want_key and not src_is_dict:
                        if v.op == "tuple" and len(v.args) == 2:
                            k, v = v.args
                    if not want_key and src_is_dict:
                        k, v = None, k
                    n = mk("item", k, v, ex + itr, g | gd)
                    if n.args[0] is not None and not n.args[2]:
                        items = tuple(j for j in items if j.args[0] is not n.args[0])
                    if not any(j.args[:3] == n.args[:3] and j.args[3] <= n.args[3] for j in items):
                        items = items + (n,)
                st.hset((dst, "$items"), items)
            else:
                if is_const(s, None):
                    continue
                if want_key:
                    k, v = mk("key", s), mk("val", s)
                    if s.op == "call" and s.args[0] == "zip" and len(s.args) == 3:
                        k, v = self.elem(st, s.args[1]), self.elem(st, s.args[2])
                    elif self.kindof(st, s) == "list":
                        e = self.elem(st, s)
                        k, v = self.sub(st, e, const(0)), self.sub(st, e, const(1))
                else:
                    k, v = None, self.elem(st, s)
                l0 = st.heap.get((dst, "$loops"), ())
                f0 = st.heap.get((dst, "$facts"), frozenset())
                ex = tuple(x for x, _ in st.loops[len(l0):])
                g = frozenset(x for x in st.facts if x not in f0)
                n = mk("item", k, v, ex + (s,), g)
                items = st.heap.get((dst, "$items"), ())
                if not any(j.args[:3] == n.args[:3] and j.args[3] <= n.args[3] for j in items):
                    st.hset((dst, "$items"), items + (n,))

    def kindof(self, st, t):
        ty = self._nonnull(self.typeof(t, st))
        if isinstance(ty, tuple) and ty:
            return {"Dict": "dict", "List": "list", "Set": "set", "Tuple": "tuple"}.get(ty[0])
        return None

    def snap(self, heap, t, _seen=None, depth=0):
        """expand allocated objects inside t to their contents in `heap`"""
        if isinstance(heap, State):
            heap = heap.heap
        seen = _seen if _seen is not None else {}
        if t in seen:
            return seen[t]
        if depth > 24:
            return t
        if t.op == "obj":
            seen[t] = t
            if t.args[0] in CONTAINERS:
                its = heap.get((t, "$items"), ())
                out = []
                for i in its:
                    k, v, itr, g = i.args
                    out.append(mk("item", self.snap(heap, k, seen, depth + 1) if k is not None else None,
                                  self.snap(heap, v, seen, depth + 1),
                                  tuple(self.snap(heap, x, seen, depth + 1) for x in itr), g))
                kind = "list" if t.args[0] == "gen" else t.args[0]
                if kind != "list":
                    out.sort(key=lambda z: z.uid)
                r = mk("items", kind, *out)
                if kind == "list" and heap.get((t, "$sorted")) is TRUE:
                    r = mk("call", "sorted", r)
                ng = self.negated(heap, t)
                if ng is not None:
                    r = mk("op", "sub", r, self.snap(heap, ng, seen, depth + 1))
            else:
                fs = []
                for (b, f), v in heap.items():
                    if b is t and isinstance(f, str) and not f.startswith("$"):
                        fs.append((f, self.snap(heap, v, seen, depth + 1)))
                if (t, "$alloc") not in heap and not fs:
                    r = t
                else:
                    r = mk("new", t.args[0][5:], *sorted(fs, key=lambda z: z[0]))
            seen[t] = r
            return r
        if t.op in ("const", "param", "ext", "func", "class", "builtin", "module", "unk", "closure", "exc"):
            return t
        if t.op == "bound":
            return t
        ch = False

        def go(a):
            nonlocal ch
            if isinstance(a, T):
                b = self.snap(heap, a, seen, depth + 1)
                ch = ch or b is not a
                return b
            return a
        if t.op == "item":
            k, v, itr, g = t.args
            na = (go(k) if k is not None else None, go(v), tuple(go(x) for x in itr), g)
        elif t.op == "new":
            na = (t.args[0],) + tuple((f, go(v)) for f, v in t.args[1:])
        else:
            na = tuple(go(a) for a in t.args)
        if not ch:
            seen[t] = t
            return t
        r = phi(*na) if t.op == "phi" else mk(t.op, *na)
        seen[t] = r
        return r

    # ---- reading
    def elem(self, st, t):
        """generic element of iterating t"""
        if t.op == "phi":
            return phi(*[self.elem(st, a) for a in t.args])
        its = self.items_of(st, t)
        if its is not None:
            isd = (t.op == "obj" and t.args[0] == "dict") or (t.op == "items" and t.args[0] == "dict")
            vs = [(i.args[0] if isd and i.args[0] is not None else i.args[1]) for i in its]
            if vs:
                return phi(*vs)
            return mk("elem", t)
        if t.op == "call":
            n = t.args[0]
            a = [x for x in t.args[1:] if isinstance(x, T)]
            if n == ".items" and a:
                b = a[0]
                return mk("tuple", self.mapkey(st, b), self.mapval(st, b))
            if n == ".keys" and a:
                return self.mapkey(st, a[0])
            if n == ".values" and a:
                return self.mapval(st, a[0])
            if n == "enumerate" and a:
                return mk("tuple", mk("index", self.positions(st, a[0])), self.elem(st, a[0]))
            if n == "zip" and a:
                return mk("tuple", *[mk("elem", self.snap(st, x)) if len(a) > 1 and self.reordered(st, x) else self.elem(st, x) for x in a])
            if n in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset") and a:
                return self.elem(st, a[0])
            if n == "itertools.chain":
                return phi(*[self.elem(st, x) for x in a]) if a else mk("elem", t)
            if n == "range":
                if len(a) == 1 and a[0].op == "call" and a[0].args[0] == "len" and len(a[0].args) == 2:
                    return mk("index", self.positions(st, a[0].args[1]))
                return mk("index", t)
        if t.op == "op" and t.args[0] in ("bitor", "add") :
            return phi(self.elem(st, t.args[1]), self.elem(st, t.args[2]))
        if t.op == "op" and t.args[0] in ("bitand", "sub"):
            return self.elem(st, t.args[1])
        k = self.kindof(st, t)
        if k == "dict":
            return mk("key", t)
        # instances with __iter__
        return mk("elem", t)

    def reordered(self, st, x):
        """x has its elements in another order than what it was built from"""
        while x.op == "call" and x.args[0] in ("list", "tuple", "iter", ".keys", ".values", ".items", "enumerate") and len(x.args) == 2 and isinstance(x.args[1], T):
            x = x.args[1]
        if x.op == "obj":
            return st.heap.get((x, "$sorted")) is TRUE or x.args[0] == "set"
        return x.op == "call" and x.args[0] in ("sorted", "reversed", "set", "frozenset") or x.op == "items" and x.args[0] == "set"

    def positions(self, st, x):
        """the collection whose positions are those of x (x itself, or what x was built from one for one)"""
        while True:
            if x.op == "call" and x.args[0] in ("list", "tuple", "iter") and len(x.args) == 2 and isinstance(x.args[1], T):
                x = x.args[1]
                continue
            if x.op == "obj" and st.heap.get((x, "$sorted")) is TRUE:
                return self.snap(st, x)
            its = self.items_of(st, x)
            if its and x.op in ("obj", "items") and x.args[0] in ("list", "gen") and len(its[0].args[2]) == 1 \
                    and len({i.args[2] for i in its}) == 1 and (len(its) > 1 or not its[0].args[3]):
                x = its[0].args[2][0]
                continue
            return self.snap(st, x) if x.op == "obj" else x

    def mapkey(self, st, b):
        if b.op == "phi":
            return phi(*[self.mapkey(st, a) for a in b.args])
        its = self.items_of(st, b)
        if its:
            return phi(*[i.args[0] if i.args[0] is not None else mk("key", b) for i in its])
        return mk("key", b)

    def mapval(self, st, b):
        if b.op == "phi":
            return phi(*[self.mapval(st, a) for a in b.args])
        its = self.items_of(st, b)
        if its:
            return phi(*[i.args[1] for i in its])
        return mk("val", b)

    def sub(self, st, b, i):
        """b[i]"""
        if b.op == "phi":
            return phi(*[self.sub(st, a, i) for a in b.args])
        v = st.heap.get((b, ("$k", i)))
        if v is not None:
            return v
        if b.op == "tuple":
            if is_const(i) and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
                n = i.args[0]
                if -len(b.args) <= n < len(b.args):
                    return b.args[n]
            return phi(*b.args) if b.args else mk("sub", b, i)
        its = self.items_of(st, b)
        if its is not None:
            isd = (b.op == "obj" and b.args[0] == "dict") or (b.op == "items" and b.args[0] == "dict")
            if isd:
                ex = [x for x in its if x.args[0] is i]
                if ex:
                    return phi(*[x.args[1] for x in ex])
                if is_const(i) and all(x.args[0] is not None and is_const(x.args[0]) for x in its):
                    return mk("sub", b, i)
                if len(its) == 1 and not its[0].args[3] and len(its[0].args[2]) == 1:
                    # a complete copy of an unknown mapping
                    src = its[0].args[2][0]
                    if its[0].args[0] is mk("key", src) and its[0].args[1] is mk("val", src):
                        return mk("sub", src, i)
                if self.pure_lookup:
                    its = [self.snap(st, x) for x in its]
                if len(its) == 1:
                    w = self.at_key(its[0], i)
                    if w is not None:
                        return w
                if len(its) == 1 and i.op == "index" and its[0].args[0] is not None and its[0].args[0].op == "call" and its[0].args[1].op == "val":
                    return mk("sub", self.snap(st, b), i)     # a position looked up among computed keys
                if its:
                    out = []
                    for x in its:
                        w = self.at_key(x, i)
                        out.append(x.args[1] if w is None else w)
                    return phi(*out)
                return mk("sub", b, i)
            if is_const(i) and isinstance(i.args[0], int) and not isinstance(i.args[0], bool) and all(not x.args[2] and not x.args[3] for x in its):
                n = i.args[0]
                if -len(its) <= n < len(its):
                    return its[n].args[1]
            if i.op == "slice":
                return mk("sub", self.snap(st, b), i)
            if its:
                return phi(*[x.args[1] for x in its])
            return mk("sub", b, i)
        if i.op == "key" and i.args[0] is b:
            return mk("val", b)
        if i.op == "index" and i.args[0] is b:
            return mk("elem", b)
        return mk("sub", b, i)

    def at_key(self, item, i):
        """{k: f(k) for k in src}[i] is f(i), when f depends on nothing else of the iteration"""
        k, v, its, g = item.args
        if k is None or len(its) != 1 or v.op == "obj":
            return None
        if not all(a.op in ("key", "elem") for a in alts(k)):
            if k.op == "const":
                return None
            srcs = {its[0]} | {u.args[0] for u in free_iter(k)}
            w = its[0]
            while w.op == "call" and len(w.args) == 2 and isinstance(w.args[1], T):
                w = w.args[1]
                srcs.add(w)
            vars_ = {mk(o, b) for o in ("key", "val", "elem", "index") for b in srcs}
            rest = set(subterms(subst(v, {k: NONE})))
            if rest & vars_ or any(u.op == "obj" and not u.args[0].startswith("inst:") for u in rest):
                return None
            return subst(v, {k: i})
        m = {k: i}
        if k.op == "key":
            m[mk("val", k.args[0])] = mk("sub", k.args[0], i)
        gone = {mk(o, a.args[0]) for a in alts(k) for o in ("key", "val", "elem", "index")} - set(m)
        w = subst(v, m)
        if any(u.op == "obj" and not u.args[0].startswith("inst:") for u in subterms(v)) or any(u in gone for u in subterms(subst(v, {x: NONE for x in m}))):
            return None
        return w

    # ================================================================= conditions
    def nonnull(self, t):
        return t.op in ("obj", "tuple", "fstr", "func", "class", "closure", "bound", "module", "builtin", "items", "new", "exc") \
            or (t.op == "const" and t.args[0] is not None) \
            or (t.op == "call" and t.args[0] in ("set", "list", "dict", "sorted", "len", "str", "tuple", "repr", "get_content_hash", "joblib.hash")) \
            or (t.op == "op" and t.args[0] in BOOLOPS)

    def norm_cond(self, st, t):
        """truth value of t as a canonical condition -> (term, polarity) or bool"""
        pol = True
        while True:
            if t.op == "op" and t.args[0] == "not":
                t, pol = t.args[1], not pol
                continue
            break
        if t.op == "const":
            return bool(t.args[0]) == pol
        if t.op in ("func", "class", "closure", "bound", "module"):
            return pol
        if t.op == "obj" and t.args[0].startswith("inst:"):
            return pol
        its = self.items_of(st, t)
        if its is not None:
            if t.op == "tuple":
                return bool(t.args) == pol
            if not its:
                if t.op == "obj" and (t, "$weak") not in st.heap and self._no_loop_since(st, t):
                    return False == pol
            if any(not i.args[2] and not i.args[3] for i in its):
                return pol
            return (mk("op", "truth", self.snap(st, t)), pol)
        if t.op == "op":
            o = t.args[0]
            if o in ("isnone", "eq", "is", "lt", "le", "gt", "ge", "in", "isinstance", "and", "or", "truth", "all", "any", "hasattr"):
                if o == "isnone":
                    x = t.args[1]
                    if is_const(x, None):
                        return pol
                    if self.nonnull(x):
                        return not pol
                return (t, pol)
        if t.op == "phi" and all(a.op == "const" for a in t.args):
            tv = {bool(a.args[0]) for a in t.args}
            if len(tv) == 1:
                return tv.pop() == pol
        return (mk("op", "truth", t), pol)

    def _no_loop_since(self, st, t):
        return len(st.loops) <= len(st.heap.get((t, "$loops"), ()))

    def decide(self, st, t, pol):
        """known truth of canonical condition t, as bool or None"""
        f = st.facts
        if (t, True) in f:
            return pol
        if (t, False) in f:
            return not pol
        if t.op != "op":
            return None
        o = t.args[0]
        if o == "isnone":
            x = t.args[1]
            if (mk("op", "truth", x), True) in f:
                return not pol
            for (g, p) in f:
                if p and g.op == "op" and g.args[0] == "isinstance" and g.args[1] is x:
                    return not pol
        elif o == "truth":
            if (mk("op", "isnone", t.args[1]), True) in f:
                return not pol
            for (g, p) in f:
                if p and g.op == "op" and g.args[0] == "isinstance" and g.args[1] is t.args[1] and g.args[2].op == "class":
                    c = self.prog.classes.get(g.args[2].args[0])
                    if c and not (c.find("__len__") or c.find("__bool__")):
                        return pol
        elif o == "eq":
            a, b = t.args[1], t.args[2]
            if b.op != "const":
                a, b = b, a
            if b.op == "const":
                for (g, p) in f:
                    if p and g.op == "op" and g.args[0] == "eq":
                        x, y = g.args[1], g.args[2]
                        if y.op != "const":
                            x, y = y, x
                        if x is a and y.op == "const" and y is not b:
                            return not pol
        elif o == "isinstance":
            r = self.isinst(st, t.args[1], t.args[2])
            if r is not None:
                return r == pol
        elif o == "in":
            k, d = t.args[1], t.args[2]
            if (d, ("$k", k)) in st.heap:
                return pol
        return None

    def isinst(self, st, x, c):
        """exact knowledge about isinstance(x, c) or None"""
        cn = self._clsname(c) or (c.args[0] if c.op in ("builtin", "ext") else None)
        if cn is None:
            return None
        if x.op == "obj":
            k = x.args[0]
            if k.startswith("inst:"):
                have = self.prog.classes.get(k[5:])
                if have is None:
                    return None
                if c.op == "class":
                    return any(m.name == cn for m in have.mro)
                return any(ast.unparse(b).split(".")[-1].split("[")[0] == cn for m in have.mro for b in m.node.bases) or cn == "object"
            if c.op == "class":
                return False
            if c.op == "builtin":
                return {"list": "list", "dict": "dict", "set": "set", "gen": "generator"}[k] == cn
            return None
        if x.op == "tuple":
            return cn == "tuple"
        if x.op == "const" and c.op in ("builtin", "class"):
            if c.op == "class":
                return False
            b = getattr(builtins, cn, None)
            return isinstance(x.args[0], b) if isinstance(b, type) else None
        if x.op == "fstr":
            return cn == "str"
        neg = []
        for (g, p) in st.facts:
            if g.op == "op" and g.args[0] == "isinstance" and g.args[1] is x:
                h = g.args[2]
                hn = self._clsname(h)
                if p:
                    if h is c:
                        return True
                    if h.op == "class" and c.op == "class":
                        hc, cc = self.prog.classes.get(hn), self.prog.classes.get(cn)
                        if hc and cc:
                            if cc in hc.mro:
                                return True
                            if hc not in cc.mro:
                                return False
                    elif h.op != c.op and {h.op, c.op} == {"class", "builtin"}:
                        k = self.prog.classes.get(hn or cn)
                        b = cn if c.op == "builtin" else h.args[0]
                        names = [ast.unparse(z).split("[")[0].lower() for m in k.mro for z in m.node.bases]
                        if b not in names and b != "object":
                            return False
                    elif h.op == "builtin" and c.op == "builtin":
                        hb, cb = getattr(builtins, h.args[0], None), getattr(builtins, cn, None)
                        if isinstance(hb, type) and isinstance(cb, type):
                            if issubclass(hb, cb):
                                return True
                            if not issubclass(cb, hb):
                                return False
                elif c.op == "class" and h.op == "class":
                    hc, cc = self.prog.classes.get(hn), self.prog.classes.get(cn)
                    if hc and cc and hc in cc.mro:
                        return False
        ty = self._nonnull(self.typeof(x, st))
        if isinstance(ty, str) and ty in self.prog.classes and c.op == "class" and cn in self.prog.classes:
            tc, cc = self.prog.classes[ty], self.prog.classes[cn]
            if tc not in cc.mro and cc not in tc.mro:
                return False
            if x in self.hints and self.hints.get(("exact", x)) and cc in tc.mro:
                return True
        if isinstance(ty, tuple) and ty and ty[0] in ("Dict", "List", "Set", "Tuple") and c.op == "class":
            return None
        return None

    def assume(self, st, t, pol, node=None):
        f = {(t, pol)}
        if t.op == "op":
            o = t.args[0]
            if o == "isnone" and pol:
                f.add((mk("op", "truth", t.args[1]), False))
            if o == "truth" and pol:
                f.add((mk("op", "isnone", t.args[1]), False))
            if o == "isnone" and t.args[1].op == "phi":
                self._refine(st, t.args[1], pol)
            if o == "truth" and t.args[1].op == "phi" and pol:
                self._refine(st, t.args[1], False)
            if o == "in" and t.args[2].op == "tuple" and not pol:
                for a in t.args[2].args:
                    f.add((self.eq_term(t.args[1], a), False))
        st.facts = st.facts | f
        st.dnf = frozenset((x - {(t, not pol)}) | {(t, pol)} for x in st.dnf)
        self.emit(st, "assume", node, cond=t, pol=pol)
        return st

    def _refine(self, st, p, isnone):
        keep = [a for a in p.args if (is_const(a, None) if isnone else not is_const(a, None))]
        if not keep or len(keep) == len(p.args):
            return
        n = phi(*keep)
        for k, v in list(st.env.items()):
            if v is p:
                st.env[k] = n
        for k, v in list(st.heap.items()):
            if v is p:
                st.hset(k, n)

    def branch(self, st, t, node=None):
        """split st on the truth of value term t -> (true states, false states)"""
        if t.op == "op" and t.args[0] == "not":
            a, b = self.branch(st, t.args[1], node)
            return b, a
        if t.op == "op" and t.args[0] in ("and", "or"):
            isand = t.args[0] == "and"
            stay, out = [st], []
            for x in t.args[1:]:
                nxt = []
                for s in stay:
                    a, b = self.branch(s, x, node)
                    if isand:
                        nxt += a
                        out += b
                    else:
                        nxt += b
                        out += a
                stay = nxt
            return (stay, out) if isand else (out, stay)
        if t.op == "phi":
            # a phi of constants was merged from several flows: both sides possible
            tv = {}
            nonconst = []
            for a in t.args:
                c = self.norm_cond(st, a)
                if isinstance(c, bool):
                    tv.setdefault(c, []).append(a)
                else:
                    nonconst.append(a)
            if not nonconst:
                if len(tv) == 1:
                    return ([st], []) if True in tv else ([], [st])
        c = self.norm_cond(st, t)
        if isinstance(c, bool):
            return ([st], []) if c else ([], [st])
        ct, pol = c
        k = self.decide(st, ct, pol)
        if k is not None:
            return ([st], []) if k else ([], [st])
        s2 = st.fork()
        a = self.assume(st, ct, pol, node)
        b = self.assume(s2, ct, not pol, node)
        return [a], [b]

    def evc(self, e, st, node):
        """evaluate e as a condition -> (states where it holds, states where it does not)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.evc(e.operand, st, node)
            return b, a
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            stay, out = [st], []
            for x in e.values:
                nxt = []
                for s in stay:
                    a, b = self.evc(x, s, node)
                    go, stop = (a, b) if isand else (b, a)
                    nxt += go
                    out += stop
                stay = nxt if len(nxt) <= 3 else self.merge(nxt)
            return (stay, out) if isand else (out, stay)
        T_, F_ = [], []
        for s, v in self.ev(e, st):
            a, b = self.branch(s, v, node)
            T_ += a
            F_ += b
        return T_, F_

    # ---- operators
    def eq_term(self, a, b):
        if a.op == "const" and a.args[0] is None:
            a, b = b, a
        if is_const(b, None):
            return self.isnone(a)
        if a.op == "const" and b.op == "const":
            return const(a.args[0] == b.args[0])
        if a is b and not (a.op in ("elem", "key", "val") and a.args[0].op != "const") and not self.is_size(a):
            return TRUE   # elements of one collection may be those of two nested iterations
        if a.op in ("class", "func") and b.op in ("class", "func"):
            return FALSE
        if a.uid > b.uid:
            a, b = b, a
        return mk("op", "eq", a, b)

    def is_size(self, a):
        """a size of something: two of them may have been taken at different times"""
        return a.op == "call" and a.args[0] in ("len", "sum") or a.op == "op" and any(isinstance(x, T) and self.is_size(x) for x in a.args)

    def isnone(self, a):
        if is_const(a, None):
            return TRUE
        if self.nonnull(a):
            return FALSE
        return mk("op", "isnone", a)

    def compare(self, st, op, a, b):
        n = type(op).__name__
        if n in ("Is", "Eq"):
            if n == "Is" and not (is_const(a, None) or is_const(b, None)):
                if b.op == "const" and isinstance(b.args[0], bool):
                    if a.op == "const":
                        return const(a.args[0] is b.args[0])
                if a.op == "const" and b.op == "const":
                    return const(a.args[0] == b.args[0])
                if a is b:
                    return TRUE
                if a.op in ("obj", "class", "func") and b.op in ("class", "func"):
                    return FALSE
                x, y = (a, b) if a.uid <= b.uid else (b, a)
                return mk("op", "is", x, y)
            r = self._lencmp("Eq", a, b)
            return r if r is not None else self.eq_term(a, b)
        if n in ("IsNot", "NotEq"):
            return self.neg(self.compare(st, ast.Is() if n == "IsNot" else ast.Eq(), a, b))
        if n == "In":
            return self.contains(st, a, b)
        if n == "NotIn":
            return self.neg(self.contains(st, a, b))
        r = self._lencmp(n, a, b)
        if r is not None:
            return r
        if a.op == "const" and b.op == "const":
            try:
                return const({"Lt": lambda: a.args[0] < b.args[0], "LtE": lambda: a.args[0] <= b.args[0],
                              "Gt": lambda: a.args[0] > b.args[0], "GtE": lambda: a.args[0] >= b.args[0]}[n]())
            except Exception:
                pass
        # canonical: a < b  /  a <= b
        if n == "Gt":
            return mk("op", "lt", b, a)
        if n == "GtE":
            return mk("op", "le", b, a)
        return mk("op", "lt" if n == "Lt" else "le", a, b)

    def _lencmp(self, n, a, b):
        flip = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE", "Eq": "Eq"}
        if b.op == "call" and b.args[0] == "len" and a.op == "const":
            a, b, n = b, a, flip[n]
        if a.op == "call" and a.args[0] == "len" and b.op == "const" and len(a.args) > 1:
            x, v = a.args[1], b.args[0]
            tr = mk("op", "truth", x)
            if x.op == "items":
                if any(not i.args[2] and not i.args[3] for i in x.args[1:]):
                    tr = TRUE
            if (n, v) in (("Gt", 0), ("GtE", 1)):
                return tr
            if (n, v) in (("Eq", 0), ("LtE", 0), ("Lt", 1)):
                return self.neg(tr)
        return None

    def neg(self, t):
        if t.op == "const":
            return const(not t.args[0])
        if t.op == "op" and t.args[0] == "not":
            return t.args[1]
        return mk("op", "not", t)

    def contains(self, st, a, b):
        if b.op == "phi":
            rs = [self.contains(st, a, x) for x in b.args]
            if all(r is rs[0] for r in rs):
                return rs[0]
            return mk("op", "in", a, b)
        if (b, ("$k", a)) in st.heap:
            return TRUE
        if b.op == "call" and b.args[0] in (".keys", "list", "set", "tuple", "sorted") and len(b.args) > 1 and isinstance(b.args[1], T):
            return self.contains(st, a, b.args[1])
        its = self.items_of(st, b)
        if its is not None:
            isd = b.op == "obj" and b.args[0] == "dict" or (b.op == "items" and b.args[0] == "dict")
            ks = [(i.args[0] if isd else i.args[1]) for i in its]
            for i, k in zip(its, ks):
                if k is a and not i.args[2] and not i.args[3]:
                    return TRUE
            if a.op == "const" and all(k is not None and k.op == "const" for k in ks) and self._no_loop_since2(st, b):
                if not any(k is a for k in ks):
                    return FALSE
            if b.op == "tuple" and b.args and all(k.op == "const" for k in ks):
                if len(ks) == 1:
                    return self.eq_term(a, ks[0])
                return mk("op", "or", *[self.eq_term(a, k) for k in ks])
            o, b = b, self.snap(st, b)
            self.probes.setdefault((a, b), set()).add(o)
        return mk("op", "in", a, b)

    def _no_loop_since2(self, st, t):
        return t.op != "obj" or self._no_loop_since(st, t)

    def binop(self, name, a, b):
        if a.op == "phi" and b.op == "const" or b.op == "phi" and a.op == "const":
            pass
        if name == "add" and (a.op in ("const", "fstr") or b.op in ("const", "fstr")):
            pa = a.args if a.op == "fstr" else (a,)
            pb = b.args if b.op == "fstr" else (b,)
            if (a.op == "fstr" or (a.op == "const" and isinstance(a.args[0], str))) or \
               (b.op == "fstr" or (b.op == "const" and isinstance(b.args[0], str))):
                return self.fstr(list(pa) + list(pb))
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.args[0], b.args[0]
                v = {"add": lambda: x + y, "sub": lambda: x - y, "mult": lambda: x * y, "div": lambda: x / y, "pow": lambda: x ** y,
                     "mod": lambda: x % y, "floordiv": lambda: x // y}[name]()
                return const(v)
            except Exception:
                pass
        if name == "add" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        if name == "mod" and a.op == "const" and isinstance(a.args[0], str):
            return mk("op", "mod", a, b)
        return mk("op", name, a, b)

    def fstr(self, parts):
        out = []
        for p in parts:
            if p.op == "fstr":
                ps = p.args
            else:
                ps = (p,)
            for q in ps:
                if q.op == "call" and q.args[0] == "str" and len(q.args) == 2:
                    q = q.args[1]
                if q.op == "const" and (q.args[0] is None or isinstance(q.args[0], (str, int))):
                    q = const(str(q.args[0]))
                    if out and out[-1].op == "const":
                        out[-1] = const(out[-1].args[0] + q.args[0])
                        continue
                out.append(q)
        if len(out) == 1 and out[0].op == "const":
            return out[0]
        if not out:
            return const("")
        return mk("fstr", *out)

    # ================================================================= expressions
    def ev(self, e, st):
        """-> list of (state, value)"""
        self.steps += 1
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return [(st, mk("ext", "expr:" + type(e).__name__))]
        if hasattr(e, "lineno"):
            self.line = e.lineno
        return m(e, st)

    def evs(self, es, st):
        """evaluate several expressions left to right -> list of (state, [values])"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > 3 * MAXP:
                # merge on value signatures
                g = {}
                for s, vs in nxt:
                    g.setdefault(tuple(v.uid for v in vs), []).append(s)
                nxt2 = []
                d = {tuple(v.uid for v in vs): vs for s, vs in nxt}
                for k, ss in g.items():
                    nxt2.append((self.join(ss), d[k]))
                if len(nxt2) > 3 * MAXP:
                    vs = [phi(*[x[1][i] for x in nxt2]) for i in range(len(nxt2[0][1]))]
                    nxt2 = [(self.join([x[0] for x in nxt2]), vs)]
                nxt = nxt2
            res = nxt
        return res

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, (str, int, float, bool, type(None), bytes)):
            return [(st, const(v))]
        return [(st, mk("ext", repr(v)))]

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id, e))]

    def ev_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._seq(e, st, "list")
        return [(s, mk("tuple", *vs)) for s, vs in self.evs(e.elts, st)]

    def ev_List(self, e, st):
        return self._seq(e, st, "list")

    def ev_Set(self, e, st):
        return self._seq(e, st, "set")

    def _seq(self, e, st, kind):
        out = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            o = self.alloc(s, kind, e)
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    self.copy_items(s, o, v)
                else:
                    self._append(s, o, v)
            out.append((s, o))
        return out

    def _append(self, st, o, v):
        """list append keeps duplicates, positionally"""
        it = self.item(st, o, None, v)
        items = st.heap.get((o, "$items"), ())
        if not it.args[2] or it not in items:
            if len(items) < 40:
                st.hset((o, "$items"), items + (it,))

    def ev_Dict(self, e, st):
        out = []
        keys = [k for k in e.keys if k is not None]
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                flat.append(k)
            flat.append(v)
        for s, vs in self.evs(flat, st):
            o = self.alloc(s, "dict", e)
            i = 0
            for k in e.keys:
                if k is None:
                    self.copy_items(s, o, vs[i])
                    i += 1
                else:
                    self.add_item(s, o, vs[i], vs[i + 1])
                    i += 2
            out.append((s, o))
        return out

    def ev_JoinedStr(self, e, st):
        es = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(s, self.fstr(vs)) for s, vs in self.evs(es, st)]

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            self.bind(s, e.target.id, v)
            out.append((s, v))
        return out

    def ev_Slice(self, e, st):
        es = [x for x in (e.lower, e.upper, e.step)]
        out = []
        for s, vs in self.evs([x for x in es if x is not None], st):
            it = iter(vs)
            out.append((s, mk("slice", *[next(it) if x is not None else NONE for x in es])))
        return out

    def ev_Subscript(self, e, st):
        out = []
        for s, (b, i) in self.evs([e.value, e.slice], st):
            out += self.load_sub(s, b, i, e)
        return out

    def load_sub(self, st, b, i, node):
        ty = self.typeof(b, st)
        if b.op == "phi" and self._clsnames(ty):
            outs = []
            for a in b.args:
                outs += self.load_sub(st.fork(), a, i, node)
            return self.merge_vals(outs)
        for n in self._clsnames(ty)[:1]:
            m = self.prog.classes[n].find("__getitem__")
            if m is not None:
                return self.call_method(st, b, "__getitem__", [i], {}, node)
        df = st.heap.get((b, "$def")) if b.op == "obj" else None
        if df is not None and df.args[0] in ("list", "set", "dict") and not is_const(self.contains(st, i, b), True) \
                and not any(x.args[0] is i for x in st.heap.get((b, "$items"), ())):
            o = self.alloc(st, df.args[0], node)
            self.add_item(st, b, i, o)
            return [(st, o)]
        if (b, ("$k", i)) not in st.heap:
            nd = Node(-1, "getitem", {"base": b, "index": i}, (), None, 0, (), st.facts, st.heap, ())
            st = self._maybe_raise(st, nd, node)
        if b.op == "obj" and b.args[0] == "dict" and not is_const(i):
            ex = [x for x in self.items_of(st, b) or () if x.args[0] is i]
            sp = self.flag_split(st, ex, node) if ex and (b, ("$k", i)) not in st.heap else None
            if sp is not None:
                return sp
        if b.op == "obj" and b.args[0] in ("list", "gen") and i.op == "index":
            its = self.items_of(st, b) or ()
            if its and all(x.args[2] == (i.args[0],) for x in its):
                sp = self.flag_split(st, its, node)
                if sp is not None:
                    return sp
        v = self.sub(st, b, i)
        if b.op == "obj":
            self.looked.append((b, i, v, self.snap(st, v)))
        return [(st, v)]

    def ev_Attribute(self, e, st):
        out = []
        for s, b in self.ev(e.value, st):
            out += self.load_attr(s, b, e.attr, e)
        return out

    def load_attr(self, st, b, attr, node):
        if b.op == "phi":
            vals, cur = [], [(st, None)]
            if not any(self._prop(x, attr, st) for x in b.args):
                vs = []
                for x in b.args:
                    if is_const(x, None):
                        continue
                    vs.append(self.load_attr(st, x, attr, node)[0][1])
                return [(st, phi(*vs))] if vs else [(st, mk("attr", b, attr))]
            outs = []
            for x in b.args:
                if is_const(x, None):
                    continue
                outs += self.load_attr(st.fork(), x, attr, node)
            return self.merge_vals(outs) if outs else [(st, mk("attr", b, attr))]
        v = st.heap.get((b, attr))
        if v is not None:
            return [(st, v)]
        if b.op == "module":
            if b.args[0] in self.prog.modules:
                r = self.prog.lookup_global(b.args[0], attr)
                if r:
                    return [(st, self.binding(st, r, attr))]
                if f"{b.args[0]}.{attr}" in self.prog.modules:
                    return [(st, mk("module", f"{b.args[0]}.{attr}"))]
            return [(st, mk("ext", f"{b.args[0]}.{attr}"))]
        if b.op == "ext":
            return [(st, mk("ext", f"{b.args[0]}.{attr}"))]
        if b.op == "func" and attr in ("__name__", "__qualname__"):
            return [(st, const(b.args[0].split(".")[-1]))]
        if b.op == "class":
            return self.class_attr(st, b, attr, node)
        if b in getattr(self, "global_objs", {}):
            v = self.global_obj_field(b, attr)
            if v is not None:
                return [(st, v)]
        if b.op == "op" and b.args[0] == "super":
            cls = self.prog.classes[b.args[1].args[0]]
            for c in cls.mro[1:]:
                if attr in c.methods:
                    return [(st, mk("bound", b.args[2], c.methods[attr].qual))]
            return [(st, mk("attr", b, attr))]
        if b.op == "obj" and b.args[0] in CONTAINERS:
            return [(st, mk("bmeth", b, attr))]
        if b.op == "new":
            for f, v in b.args[1:]:
                if f == attr:
                    return [(st, v)]
        ty = self.typeof(b, st)
        for n in self._clsnames(ty):
            c = self.prog.classes[n]
            key = next(((m.name, attr) for m in c.mro if (m.name, attr) in self.cfg.attrs), None)
            if key is not None:
                return [(st, const(self.cfg.attrs[key]))]
            m = c.find(attr)
            if m is not None:
                dn = m.deco_names()
                if "property" in dn or "cached_property" in dn:
                    return self.call_method(st, b, attr, [], {}, node)
                if "staticmethod" in dn:
                    return [(st, mk("func", m.qual))]
                return [(st, mk("bound", b, m.qual))]
            w = self.wired(b, n, attr)
            if w is not None:
                return [(st, w)]
            ca = c.find_attr(attr)
            if ca is not None and (n, attr) not in self.prog.field_type and attr not in self.prog.assigned_outside:
                v = self.eval_global(ca.attrs[attr], ca.module, attr, None)
                if v.op != "ext":
                    return [(st, v)]
        if attr == "__class__":
            return [(st, mk("op", "type", b))]
        return [(st, mk("attr", b, attr))]

    def _prop(self, b, attr, st):
        for n in self._clsnames(self.typeof(b, st)):
            m = self.prog.classes[n].find(attr)
            if m is not None and "property" in m.deco_names():
                return True
        return False

    def class_attr(self, st, b, attr, node):
        c = self.prog.classes[b.args[0]]
        for m in c.mro:
            v = st.heap.get((mk("class", m.name), attr))
            if v is not None:
                return [(st, v)]
        f = c.find(attr)
        if f is not None:
            return [(st, mk("func", f.qual))]
        for m in c.mro:
            if (m.name, attr) in self.cfg.attrs:
                return [(st, const(self.cfg.attrs[(m.name, attr)]))]
        if attr in ("__name__", "__qualname__"):
            return [(st, const(b.args[0]))]
        ca = c.find_attr(attr)
        if ca is not None and attr not in self.prog.assigned_outside:
            v = self.eval_global(ca.attrs[attr], ca.module, attr, None)
            if v.op == "const" or v.op == "tuple":
                return [(st, v)]
        t = mk("attr", mk("class", ca.name if ca else b.args[0]), attr)
        ty = self.prog.field_ty(b.args[0], attr)
        if ty is not None:
            self.hint(t, ty)
        return [(st, t)]

    # ---- wiring: fields assigned only in the constructor
    def wired(self, b, clsname, attr):
        if not self.cfg.wiring or b.op not in ("param", "attr", "obj"):
            return None
        if attr in self.prog.assigned_outside:
            return None
        w = self._wired.get(b)
        if w is None:
            return None
        return w.get(attr)

    def wire(self, b, clsname, initargs=None):
        """abstractly construct an instance to learn the fixed part of the object graph"""
        c = self.prog.cls(clsname)
        init = c.find("__init__")
        if init is None:
            return
        sub = Interp(self.prog, Cfg(attrs=self.cfg.attrs, maxrec=1))
        sub.cfg.wiring = False
        st = State()
        fr = Frame(Fn(ast.parse("def entry(): pass").body[0], c.module, None, "<wire>"), 0, (), None)
        sub.frames.append(fr)
        args = {}
        for p in init.pos[1:] + init.kwonly:
            t = mk("param", f"{clsname}.__init__.{p}")
            if initargs and p in initargs:
                t = const(initargs[p])
            else:
                sub.hint(t, self.prog.parse_type(init.ann.get(p), init.module))
            args[p] = t
        root = sub.alloc(st, "inst:" + clsname, c.node, tag=("wire",))
        res = sub.call_fn(st, init, root, [], args, c.node)
        sub.frames.pop()
        if not res:
            return
        stf = sub.join([s for s, _ in res])
        self.hints.update({k: v for k, v in sub.hints.items() if k not in self.hints})
        # field values: keep repo-class instances, constants and constructor parameters
        objmap = {root: b}

        def val(v):
            if v.op == "phi":
                vs = [val(a) for a in v.args]
                return None if any(x is None for x in vs) else phi(*vs)
            if v is root:
                return b
            if v.op == "obj":
                if v.args[0].startswith("inst:"):
                    return v
                return None
            if v.op in ("const", "class", "func", "ext"):
                return v
            if v.op in ("param",):
                return v
            if v.op == "attr" or v.op == "call":
                if contains(v, lambda x: x.op == "obj" and x.args[0] in CONTAINERS):
                    return None
                return v
            return None
        for (o, f), v in stf.heap.items():
            if not isinstance(f, str) or f.startswith("$") or not isinstance(v, T):
                continue
            if o.op != "obj" or not o.args[0].startswith("inst:"):
                continue
            if f in self.prog.assigned_outside:
                continue
            x = val(v)
            if x is None:
                continue
            tgt = objmap.get(o, o)
            self._wired.setdefault(tgt, {})[f] = x
        for (o, f), v in stf.heap.items():
            if isinstance(o, T) and o.op == "obj" and o.args[0].startswith("inst:"):
                self._wired.setdefault(objmap.get(o, o), {})

    # ---- comparisons, booleans
    def ev_Compare(self, e, st):
        out = []
        for s, vs in self.evs([e.left] + list(e.comparators), st):
            ts = []
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and vs[1].op != "phi" and self._repo_method(vs[1], "__contains__", s):
                for s2, t in self.call_method(s, vs[1], "__contains__", [vs[0]], {}, e):
                    t = t if self.is_bool(t) else mk("op", "truth", t)
                    out.append((s2, self.neg(t) if isinstance(e.ops[0], ast.NotIn) else t))
                continue
            for i, op in enumerate(e.ops):
                ts.append(self.compare(s, op, vs[i], vs[i + 1]))
            if len(ts) == 1:
                out.append((s, ts[0]))
            elif all(is_const(t, True) for t in ts):
                out.append((s, TRUE))
            elif any(is_const(t, False) for t in ts):
                out.append((s, FALSE))
            else:
                out.append((s, mk("op", "and", *[t for t in ts if not is_const(t, True)])))
        return out

    def is_bool(self, t):
        return (t.op == "op" and t.args[0] in BOOLOPS) or (t.op == "const" and isinstance(t.args[0], bool))

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        done = []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if last:
                        done.append((s2, v))
                        continue
                    a, b = self.branch(s2, v, x)
                    go, stop = (a, b) if isand else (b, a)
                    nxt += go
                    for q in stop:
                        if self.is_bool(v):
                            done.append((q, const(not isand)))
                        elif isand and v.op == "attr" or v.op in ("param", "sub", "call", "elem", "val", "phi", "const", "obj", "key", "op", "tuple", "fstr", "unk"):
                            done.append((q, v))
                        else:
                            done.append((q, v))
            cur = nxt if len(nxt) <= 3 else self.merge(nxt)
        if len(done) <= 8 and all(self.is_bool(v) for _, v in done):
            return done          # a flag: keep the flows that decide it apart
        return self.merge_vals(done)

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                c = self.norm_cond(s, v)
                if isinstance(c, bool):
                    out.append((s, const(not c)))
                else:
                    out.append((s, self.neg(c[0] if c[1] else self.neg(c[0]))))
            elif isinstance(e.op, ast.USub) and v.op == "const":
                out.append((s, const(-v.args[0])))
            else:
                out.append((s, mk("op", type(e.op).__name__.lower(), v)))
        return out

    def ev_BinOp(self, e, st):
        out = []
        n = type(e.op).__name__.lower()
        for s, (a, b) in self.evs([e.left, e.right], st):
            out.append((s, self.do_binop(s, n, a, b, e)))
        return out

    def do_binop(self, s, n, a, b, node):
        if n in ("bitor", "add") and (self._cont(a) or self._cont(b)):
            kind = next((x.args[0] for x in (a, b) if self._cont(x)), "list")
            o = self.alloc(s, kind if kind != "gen" else "list", node)
            for x in (a, b):
                its = self.items_of(s, x)
                if kind == "list" and its is not None and all(not i.args[2] for i in its):
                    for i in its:
                        self._append(s, o, i.args[1])
                else:
                    self.copy_items(s, o, x)
            return o
        if n in ("bitor", "bitand", "sub", "bitxor", "add", "mult") and (a.op == "obj" or b.op == "obj" or a.op == "phi" or b.op == "phi"):
            return self.binop(n, self.snap(s, a), self.snap(s, b))
        return self.binop(n, a, b)

    def _cont(self, t):
        return t.op == "obj" and t.args[0] in CONTAINERS

    def ev_IfExp(self, e, st):
        out = []
        for a, b in [self.evc(e.test, st, e)]:
            if isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant) and isinstance(e.body.value, bool) \
                    and isinstance(e.orelse.value, bool):
                # a flag: keep the flows that decide it apart
                out += [(x, const(e.body.value)) for x in a] + [(x, const(e.orelse.value)) for x in b]
                continue
            for x in self.merge(a):
                out += self.ev(e.body, x)
            for x in self.merge(b):
                out += self.ev(e.orelse, x)
        if len(out) <= 12 and all(v.op == "const" and isinstance(v.args[0], bool) for _, v in out):
            return out
        return self.merge_vals(out)

    def branches(self, e, st):
        """the values of e, the branches of a conditional expression kept apart"""
        if not isinstance(e, ast.IfExp) or not self.pure_lookup:
            return self.ev(e, st)
        out = []
        for a, b in [self.evc(e.test, st, e)]:
            for x in self.merge(a):
                out += self.branches(e.body, x)
            for x in self.merge(b):
                out += self.branches(e.orelse, x)
        return out

    def ev_Lambda(self, e, st):
        return [(st, self.closure(e))]

    def closure(self, node):
        fr = self.frames[-1]
        g = self.prog.nested_fn(node, fr.fn)
        key = (g.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fr.fid)
        self.closures[key] = (g, fr.fid)
        self.alive.add(fr.fid)
        return mk("closure", key)

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        out = []
        cm = self.frames[-1].cm
        if cm is not None:
            for s, v in (self.ev(e.value, st) if e.value is not None else [(st, NONE)]):
                self.emit(s, "yield", e, value=v)
                out += cm(s, v)
            return out
        for s, v in (self.ev(e.value, st) if e.value is not None else [(st, NONE)]):
            y = s.env.get((self.frames[-1].fid, "$yield"))
            self.emit(s, "yield", e, value=v)
            if y is not None:
                self._append(s, y, v)
            out.append((s, NONE))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            y = s.env.get((self.frames[-1].fid, "$yield"))
            if y is not None:
                self.copy_items(s, y, v)
            out.append((s, NONE))
        return out

    # ---- comprehensions
    def _comp(self, e, st, kind, add):
        out = []
        o = None
        # iterate generators as nested loops
        res_states = []

        def gen(i, s):
            if i == len(e.generators):
                return add(s)
            g = e.generators[i]
            r = []
            for s1, it in self.ev(g.iter, s):
                def body(b, g=g, i=i):
                    cur = [b]
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            a, _f = self.evc(c, x, c)
                            nxt += a
                            skipped.extend(_f)
                        cur = self.merge(nxt)
                    rr = []
                    for x in cur:
                        rr += gen(i + 1, x)
                    return rr
                skipped = []

                def bodyall(b):
                    skipped.clear()
                    rr = body(b)
                    return rr + list(skipped)
                r += self.loop(s1, it, lambda b, el, g=g: self.assign(g.target, el, b, e), bodyall, e, comp=True)
            return r
        o = self.alloc(st, kind, e)
        self.holder = o
        states = gen(0, st)
        s = self.join(states) if states else st
        return [(s, o)]

    def _comp_simple(self, e, st, kind):
        fr = self.frames[-1]
        # comprehension scope: bind targets in the enclosing frame under their own names, restored after
        o_holder = []

        def add(s):
            o = mk("obj", kind, site)
            rr = []
            if kind == "dict":
                for s1, k in self.ev(e.key, s):
                    for s2, v in self.branches(e.value, s1):
                        self.add_item(s2, o, k, v)
                        rr.append(s2)
            else:
                for s2, v in self.branches(e.elt, s):
                    self._append_c(s2, o, v)
                    rr.append(s2)
            return rr
        site = self.site(e)
        saved = {}
        names = [n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        for n in names:
            if (fr.fid, n) in st.env:
                saved[n] = st.env[(fr.fid, n)]
        res = self._comp(e, st, kind, add)
        out = []
        for s, o in res:
            for n in names:
                if n in saved:
                    s.env[(fr.fid, n)] = saved[n]
                else:
                    s.env.pop((fr.fid, n), None)
            out.append((s, o))
        return out

    def _append_c(self, st, o, v):
        it = self.item(st, o, None, v)
        items = st.heap.get((o, "$items"), ())
        if it not in items:
            st.hset((o, "$items"), items + (it,))

    def ev_ListComp(self, e, st):
        return self._comp_simple(e, st, "list")

    def ev_SetComp(self, e, st):
        return self._comp_simple(e, st, "set")

    def ev_GeneratorExp(self, e, st):
        return self._comp_simple(e, st, "gen")

    def ev_DictComp(self, e, st):
        return self._comp_simple(e, st, "dict")

    # ================================================================= calls
    def ev_Call(self, e, st):
        out = []
        # receiver / callee
        if isinstance(e.func, ast.Attribute):
            bases = self.ev(e.func.value, st)
        else:
            bases = None
        callees = []
        if bases is not None:
            for s, b in bases:
                callees.append((s, b, e.func.attr))
        else:
            for s, f in self.ev(e.func, st):
                callees.append((s, f, None))
        for s, b, attr in callees:
            es, shape = [], []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    es.append(a.value)
                    shape.append(("*", None))
                else:
                    es.append(a)
                    shape.append(("p", None))
            for k in e.keywords:
                es.append(k.value)
                shape.append(("**", None) if k.arg is None else ("k", k.arg))
            for s2, vs in self.evs(es, s):
                args, kwargs, extra = [], {}, []
                for (sh, nm), v in zip(shape, vs):
                    if sh == "p":
                        args.append(v)
                    elif sh == "k":
                        kwargs[nm] = v
                    elif sh == "*":
                        its = self.items_of(s2, v)
                        if v.op == "tuple":
                            args.extend(v.args)
                        elif its is not None and all(not i.args[2] and not i.args[3] for i in its):
                            args.extend(i.args[1] for i in its)
                        else:
                            extra.append(("*", v))
                    else:
                        its = self.items_of(s2, v)
                        if its is not None and v.op == "obj" and v.args[0] == "dict" and \
                                all(i.args[0] is not None and is_const(i.args[0]) and not i.args[2] for i in its):
                            for i in its:
                                if str(i.args[0].args[0]) in kwargs and not i.args[3]:
                                    self.emit(s2, "error", e, what=f"multiple values for keyword argument {i.args[0].args[0]}")
                                kwargs.setdefault(str(i.args[0].args[0]), i.args[1])
                        else:
                            extra.append(("**", v))
                if attr is not None:
                    out += self.call_method(s2, b, attr, args, kwargs, e, extra)
                else:
                    out += self.call_value(s2, b, args, kwargs, e, extra)
        return self.merge_vals(out, 4 * MAXP) if len(out) > 1 else out

    def call_value(self, st, f, args, kwargs, node, extra=()):
        """call a function value"""
        if f.op == "phi":
            outs = []
            for a in f.args:
                if is_const(a, None):
                    continue
                outs += self.call_value(st.fork(), a, args, kwargs, node, extra)
            return self.merge_vals(outs)
        if f.op == "func":
            return self.call_fn(st, self.prog.functions[f.args[0]], None, args, kwargs, node, extra)
        if f.op == "rawfunc":
            return self.call_fn(st, self.prog.functions[f.args[0]], None, args, kwargs, node, extra, raw=True)
        if f.op == "bound":
            return self.call_fn(st, self.prog.functions[f.args[1]], f.args[0], args, kwargs, node, extra)
        if f.op == "closure":
            g, fid = self.closures[f.args[0]]
            return self.call_fn(st, g, None, args, kwargs, node, extra, parent=fid)
        if f.op == "class":
            return self.instantiate(st, f.args[0], args, kwargs, node, extra)
        if f.op == "op" and f.args[0] == "type":
            return self.inst_like(st, f.args[1], args, kwargs, node, extra)
        if f.op == "bmeth":
            return self.call_method(st, f.args[0], f.args[1], args, kwargs, node, extra)
        if f.op == "builtin":
            return self.call_builtin(st, f.args[0], args, kwargs, node, extra)
        if f.op == "ext":
            return self.call_ext(st, f.args[0], args, kwargs, node, extra)
        for n in self._clsnames(self.typeof(f, st)):
            if self.prog.classes[n].find("__call__"):
                return self.call_method(st, f, "__call__", args, kwargs, node, extra)
        # symbolic callable (e.g. the memoized function)
        return self.opaque(st, None, f, args, kwargs, node, extra)

    def inst_like(self, st, x, args, kwargs, node, extra):
        if x.op == "phi":
            outs = []
            for a in x.args:
                outs += self.inst_like(st.fork(), a, args, kwargs, node, extra)
            return self.merge_vals(outs)
        if x.op == "obj" and x.args[0].startswith("inst:"):
            return self.instantiate(st, x.args[0][5:], args, kwargs, node, extra, like=x)
        ns = self._clsnames(self.typeof(x, st))
        if ns:
            return self.instantiate(st, ns[0], args, kwargs, node, extra, like=x)
        return self.opaque(st, None, mk("op", "type", x), args, kwargs, node, extra)

    def instantiate(self, st, cname, args, kwargs, node, extra=(), like=None):
        c = self.prog.classes[cname]
        init = c.find("__init__")
        ext_bases = [ast.unparse(b).split("[")[0].split(".")[-1] for m in c.mro for b in m.node.bases]
        if any(b in _EXC for b in ext_bases):
            return [(st, mk("call", cname, *args))]
        o = self.alloc(st, "inst:" + cname, node)
        if like is not None:
            st.hset((o, "$like"), like)
        self.emit(st, "new", node, obj=o, cls=cname, args=tuple(args), kwargs=dict(kwargs))
        if init is not None:
            res = self.call_fn(st, init, o, args, kwargs, node, extra)
            return [(s, o) for s, _ in res]
        # dataclass / NamedTuple style
        for p, v in zip(list(c.field_ann), args):
            st.hset((o, p), v)
        for k, v in kwargs.items():
            st.hset((o, k), v)
        return [(st, o)]

    def opaque(self, st, name, f, args, kwargs, node, extra=(), recv=None, ty=None, pure=False):
        sargs = [self.snap(st, a) for a in args]
        skw = {k: self.snap(st, v) for k, v in kwargs.items()}
        ex = [(k, self.snap(st, v)) for k, v in extra]
        nm = name if name is not None else "apply"
        targs = ([self.snap(st, recv)] if recv is not None else []) + ([f] if f is not None else []) + sargs + \
                [mk("kw", k, v) for k, v in sorted(skw.items())] + [mk("star", v) for _, v in ex]
        if pure:
            return [(st, mk("call", nm, *targs))]
        t = mk("call", nm, *targs, self.site(node))
        if ty is not None:
            self.hint(t, ty)
        n = self.emit(st, "call", node, name=nm, func=f, recv=recv, args=tuple(args), kwargs=dict(kwargs), extra=tuple(extra), result=t,
                      sargs=tuple(sargs), skw=skw)
        st = self._maybe_raise(st, n, node)
        return [(st, t)]

    def _maybe_raise(self, st, n, node):
        mr = self.cfg.may_raise
        if mr is None:
            return st
        names = mr(n)
        if not names:
            return st
        for x in names:
            s2 = st.fork()
            exc = mk("exc", x, n.d.get("name") or n.kind)
            self.emit(s2, "exc", node, exc=exc, cause=n.id)
            self.rs.append((s2, exc))
        # the normal continuation must be distinguishable from the exceptional one
        self.emit(st, "ok", node, cause=n.id)
        return st

    # ---- methods
    def call_method(self, st, b, attr, args, kwargs, node, extra=()):
        if b.op == "phi":
            cand = [a for a in b.args if not is_const(a, None)]
            if len(cand) > 1:
                outs = []
                # alternatives that are plain containers/symbolic and call is pure: keep as one
                if f".{attr}" in PURE and not any(self._repo_method(a, attr, st) for a in cand) and attr not in ("get",):
                    return [(st, phi(*[self.pure_method(st, a, attr, args, kwargs, node, extra)[0][1] for a in cand]))]
                for a in cand:
                    outs += self.call_method(st.fork(), a, attr, args, kwargs, node, extra)
                return self.merge_vals(outs)
            if len(cand) == 1:
                return self.call_method(st, cand[0], attr, args, kwargs, node, extra)
        # field holding a callable stored on an instance
        v = st.heap.get((b, attr))
        if v is not None:
            return self.call_value(st, v, args, kwargs, node, extra)
        if b.op in ("module", "ext", "class") or (b.op == "op" and b.args[0] == "super"):
            outs = []
            for s, f in self.load_attr(st, b, attr, node):
                if b.op == "class" and f.op == "func":
                    fn = self.prog.functions[f.args[0]]
                    if "classmethod" in fn.deco_names():
                        outs += self.call_fn(s, fn, b, args, kwargs, node, extra)
                        continue
                outs += self.call_value(s, f, args, kwargs, node, extra)
            return outs
        if self._cont(b) or b.op in ("tuple", "items", "fstr") or (b.op == "const" and isinstance(b.args[0], str)):
            return self.container_method(st, b, attr, args, kwargs, node, extra)
        ty = self.typeof(b, st)
        names = self._clsnames(ty)
        cands = {}
        exact = b.op == "obj" or (("exact", b) in self.hints)
        for n in names:
            c = self.prog.classes[n]
            own = c.find(attr)
            impls = {}
            if own is not None and not self._abstract(own):
                impls[own.qual] = own
            if not exact:
                for sc in c.all_subs()[1:]:
                    m = sc.methods.get(attr)
                    if m is not None and not self._abstract(m):
                        impls[m.qual] = m
            if own is not None and not impls:
                impls[own.qual] = own
            for q, m in impls.items():
                if m.cls is not None and len(impls) > 1:
                    # class known impossible by facts?
                    r = self.isinst(st, b, mk("class", m.cls.name)) if b.op != "obj" else None
                    if r is False:
                        continue
                cands[q] = m
        if not cands and names:
            # the class does not define it (field holding a callable, or external base)
            outs = []
            for s, f in self.load_attr(st, b, attr, node):
                if f.op in ("func", "closure", "bound", "class", "phi") or (f.op == "op" and f.args[0] == "type") \
                        or any(self.prog.classes[n].find("__call__") for n in self._clsnames(self.typeof(f, s))):
                    outs += self.call_value(s, f, args, kwargs, node, extra)
                else:
                    outs += self.ext_method(s, b, attr, args, kwargs, node, extra, f)
            return outs
        if not cands and not names and not isinstance(self._nonnull(ty), (tuple, str)):
            u = self.unique_method(attr) if not self._external(b) else None
            if u is not None:
                cands[u.qual] = u
        if cands:
            if len(cands) == 1:
                m = next(iter(cands.values()))
                if "staticmethod" in m.deco_names():
                    return self.call_fn(st, m, None, args, kwargs, node, extra)
                return self.call_fn(st, m, b, args, kwargs, node, extra)
            outs = []
            for q, m in cands.items():
                s = st.fork()
                if m.cls is not None:
                    s.facts = s.facts | {(mk("op", "isinstance", b, mk("class", m.cls.name)), True)}
                    self.emit(s, "assume", node, cond=mk("op", "isinstance", b, mk("class", m.cls.name)), pol=True)
                if "staticmethod" in m.deco_names():
                    outs += self.call_fn(s, m, None, args, kwargs, node, extra)
                else:
                    outs += self.call_fn(s, m, b, args, kwargs, node, extra)
            return self.merge_vals(outs)
        return self.ext_method(st, b, attr, args, kwargs, node, extra, None)

    def _abstract(self, m):
        if "abstractmethod" in m.deco_names():
            return True
        body = [x for x in m.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and "NotImplementedError" in ast.unparse(body[0].exc)

    def _repo_method(self, b, attr, st):
        for n in self._clsnames(self.typeof(b, st)):
            if self.prog.classes[n].find(attr):
                return True
        return False

    COMMON = {"get", "set", "items", "keys", "values", "add", "append", "update", "pop", "copy", "clear", "remove", "commit", "close",
              "execute", "join", "split", "save", "drop", "exists", "show", "load", "query", "unique", "index", "sort", "print", "union",
              "intersection", "difference", "rollback", "fetchall", "fetchone", "init", "sync", "content", "name", "type"}

    def _external(self, b):
        """b comes out of a library call or a data frame"""
        while True:
            if b.op == "call":
                n = b.args[0]
                if n.startswith("mandala."):
                    return False
                if not n.startswith("."):
                    return n.split(".")[0] in ("pandas", "pd", "numpy", "np", "re", "sqlite3", "joblib", "os", "json", "inspect", "ast")
                b = b.args[1] if len(b.args) > 1 and isinstance(b.args[1], T) else None
                if b is None:
                    return True
            elif b.op in ("attr", "sub", "elem", "val"):
                if b.op == "attr" and b.args[1] in ("df", "loc", "index"):
                    return True
                b = b.args[0]
            else:
                return b.op == "ext"

    def unique_method(self, attr):
        if attr in self.COMMON or attr.startswith("__"):
            return None
        c = [m for m in self.prog.functions.values() if m.cls is not None and m.parent is None and m.name == attr and not self._abstract(m)]
        return c[0] if len(c) == 1 else None

    def ext_method(self, st, b, attr, args, kwargs, node, extra, f):
        """method of a value whose class is not in the repository"""
        if b.op == "attr" and b.args[0].op == "ext":
            pass
        k = self.kindof(st, b)
        if attr == "fromkeys" and b.op in ("builtin", "ext", "class") and b.args[0] == "dict" and 1 <= len(args) <= 2 and not kwargs and not extra:
            tmp, o = self.alloc(st, "list", node), self.alloc(st, "dict", node)
            self.copy_items(st, tmp, args[0])
            for i in st.heap.get((tmp, "$items"), ()):
                n = mk("item", i.args[1], args[1] if len(args) > 1 else NONE, i.args[2], i.args[3])
                st.hset((o, "$items"), st.heap.get((o, "$items"), ()) + (n,))
            return [(st, o)]
        if f"{attr}" in ("copy",) and not args:
            kind = k if k in ("dict", "list", "set") else None
            if kind is None:
                ty = self.typeof(b, st)
                if ty in ("DataFrame",):
                    return self.opaque(st, ".copy", None, args, kwargs, node, extra, recv=b, pure=True)
                t = mk("call", ".copy", self.snap(st, b))
                return [(st, t)]
            o = self.alloc(st, kind, node)
            self.copy_items(st, o, b)
            return [(st, o)]
        if f".{attr}" in PURE:
            return self.pure_method(st, b, attr, args, kwargs, node, extra)
        if attr in MUTATORS:
            self.mutate(st, b, attr, args, kwargs, node)
            r = NONE
            if attr in ("pop", "popleft", "popitem"):
                r = mk("elem", b) if not args or attr != "pop" or k in ("list", None) and not args else self.sub(st, b, args[0])
                if args and attr == "pop":
                    st.hdel((b, ("$k", args[0])))
            elif attr == "setdefault":
                r = phi(self.sub(st, b, args[0]), args[1] if len(args) > 1 else NONE)
            return [(st, r)]
        return self.opaque(st, "." + attr, None, args, kwargs, node, extra, recv=b)

    def pure_method(self, st, b, attr, args, kwargs, node, extra):
        if attr == "get" and args:
            its = self.items_of(st, b)
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if its is not None and b.op == "obj":
                v = phi(self.sub(st, b, args[0]), d)
                self.looked.append((b, args[0], v, self.snap(st, v)))
            if its is not None:
                c = self.contains(st, args[0], b)
                if is_const(c, True):
                    return [(st, self.sub(st, b, args[0]))]
                if is_const(c, False):
                    return [(st, d)]
                return [(st, phi(self.sub(st, b, args[0]), d))]
            if (b, ("$k", args[0])) in st.heap:
                return [(st, self.sub(st, b, args[0]))]
            return [(st, mk("call", ".get", b, *[self.snap(st, a) for a in args]))]
        if attr in ("items", "keys", "values") and not args:
            return [(st, mk("call", "." + attr, b))]
        if attr == "join" and b.op == "const" and isinstance(b.args[0], str) and len(args) == 1:
            its = self.items_of(st, args[0])
            if its is not None and its and all(not i.args[2] and not i.args[3] for i in its):
                parts = []
                for n, i in enumerate(its):
                    if n:
                        parts.append(b)
                    parts.append(i.args[1])
                return [(st, self.fstr(parts))]
        if attr == "format" and b.op == "const" and isinstance(b.args[0], str) and not extra:
            import string
            try:
                parts, auto = [], 0
                for lit, fld, spec, conv in string.Formatter().parse(b.args[0]):
                    if lit:
                        parts.append(const(lit))
                    if fld is not None:
                        if fld == "":
                            parts.append(args[auto])
                            auto += 1
                        elif fld.isdigit():
                            parts.append(args[int(fld)])
                        else:
                            parts.append(kwargs[fld])
                return [(st, self.fstr(parts))]
            except (KeyError, IndexError, ValueError):
                pass
        return self.opaque(st, "." + attr, None, args, kwargs, node, extra, recv=b, pure=True)

    def mutate(self, st, target, how, args, kwargs, node, key=None, value=None):
        n = self.emit(st, "mut", node, target=target, how=how, args=tuple(args), kwargs=dict(kwargs), key=key, value=value)
        st2 = self._maybe_raise(st, n, node)
        return n

    def container_method(self, st, b, attr, args, kwargs, node, extra):
        if b.op != "obj":
            if attr in ("union", "intersection", "difference") or f".{attr}" in PURE or attr in ("copy",):
                return self.pure_method(st, b, attr, args, kwargs, node, extra)
            return self.opaque(st, "." + attr, None, args, kwargs, node, extra, recv=b, pure=f".{attr}" in PURE)
        kind = b.args[0]
        if attr in ("add", "update"):
            self.added(st, b)
        if attr in MUTATORS:
            self.mutate(st, b, attr, args, kwargs, node)
        if attr in ("append", "add", "appendleft") and args:
            if attr == "add":
                self._append_c(st, b, args[0])
            else:
                self._append(st, b, args[0])
            return [(st, NONE)]
        if attr == "insert" and len(args) == 2:
            it = self.item(st, b, None, args[1])
            it = mk("item", None, args[1], tuple(mk("call", "reversed" if is_const(args[0], 0) else "inserted", x) for x in it.args[2]), it.args[3])
            its = st.heap.get((b, "$items"), ())
            st.hset((b, "$items"), (it,) + its if is_const(args[0], 0) else its + (it,))
            return [(st, NONE)]
        if attr in ("extend", "update"):
            for a in args:
                its = self.items_of(st, a)
                if kind == "list" and its is not None and all(not i.args[2] for i in its):
                    for i in its:
                        self._append(st, b, i.args[1])
                else:
                    self.copy_items(st, b, a)
            for k, v in kwargs.items():
                self.add_item(st, b, const(k), v)
            for k, v in extra:
                if k == "**":
                    self.copy_items(st, b, v)
            return [(st, NONE)]
        if attr == "setdefault" and args:
            d = args[1] if len(args) > 1 else NONE
            c = self.contains(st, args[0], b)
            if is_const(c, True):
                v = self.sub(st, b, args[0])
                self.looked.append((b, args[0], v, self.snap(st, v)))
                return [(st, v)]
            old = [i.args[1] for i in st.heap.get((b, "$items"), ()) if i.args[0] is args[0]]
            if old:
                self.looked.append((b, args[0], phi(*old), self.snap(st, phi(*old))))
                return [(st, phi(*old))]
            self.looked.append((b, args[0], d, self.snap(st, d)))
            self.add_item(st, b, args[0], d)
            return [(st, d)]
        if attr == "pop":
            its = st.heap.get((b, "$items"), ())
            if kind == "dict" and args:
                v = self.sub(st, b, args[0])
                if len(args) > 1 and not is_const(self.contains(st, args[0], b), True):
                    v = phi(v, args[1])
                if all(not (i.args[0] is args[0] and i.args[2]) for i in its):
                    st.hset((b, "$items"), tuple(i for i in its if i.args[0] is not args[0]))
                return [(st, v)]
            v = self.elem(st, b)
            if kind == "list" and not args and its and all(not i.args[2] and not i.args[3] for i in its) and self._no_loop_since(st, b):
                v = its[-1].args[1]
                st.hset((b, "$items"), its[:-1])
            return [(st, v)]
        if attr in ("remove", "discard", "difference_update") and self.pure_lookup and st_neg(st, b) is not None:
            for a in args:
                if attr == "difference_update":
                    self.copy_items(st, st_neg(st, b), a)
                else:
                    self.add_item(st, st_neg(st, b), None, a)
            return [(st, NONE)]
        if attr in ("remove", "discard"):
            its = st.heap.get((b, "$items"), ())
            if any(i.args[1] is args[0] and not i.args[2] for i in its):
                st.hset((b, "$items"), tuple(i for i in its if not (i.args[1] is args[0] and not i.args[2])))
            return [(st, NONE)]
        if attr == "clear":
            st.hset((b, "$items"), ())
            return [(st, NONE)]
        if attr in ("difference_update", "intersection_update", "sort", "reverse", "popitem", "popleft"):
            return [(st, self.elem(st, b) if attr.startswith("pop") else NONE)]
        if attr == "copy":
            o = self.alloc(st, "list" if kind == "gen" else kind, node)
            st.hset((o, "$items"), st.heap.get((b, "$items"), ()))
            return [(st, o)]
        if attr == "union":
            o = self.alloc(st, kind, node)
            for x in [b] + list(args):
                self.copy_items(st, o, x)
            for z in [v for k, v in extra if k == "*"]:
                e = self.elem(st, z)
                n = mk("item", None, self.elem(st, e), (self.snap(st, z), self.snap(st, e)), frozenset())
                st.hset((o, "$items"), st.heap.get((o, "$items"), ()) + (n,))
            return [(st, o)]
        if attr in ("difference", "intersection") and not extra:
            t = self.snap(st, b)
            for a in args:
                t = self.binop("sub" if attr == "difference" else "bitand", t, self.snap(st, a))
            return [(st, t)]
        return self.pure_method(st, b, attr, args, kwargs, node, extra) if f".{attr}" in PURE else \
            self.opaque(st, "." + attr, None, args, kwargs, node, extra, recv=b)

    # ---- builtins and externals
    def call_builtin(self, st, name, args, kwargs, node, extra):
        if name == "isinstance" and len(args) == 2:
            return [(st, self.isinstance_term(st, args[0], args[1]))]
        if name == "type" and len(args) == 1:
            x = args[0]
            if x.op == "obj" and x.args[0].startswith("inst:"):
                return [(st, mk("class", x.args[0][5:]) if (x, "$like") not in st.heap else mk("op", "type", x))]
            return [(st, mk("op", "type", x))]
        if name == "super":
            fr = self.frames[-1]
            if fr.fn.cls is not None and fr.selfT is not None:
                return [(st, mk("op", "super", mk("class", fr.fn.cls.name), fr.selfT))]
        if name in ("list", "set", "dict", "sorted", "frozenset", "OrderedDict") or (name == "tuple" and args):
            kind = {"list": "list", "sorted": "list", "set": "set", "frozenset": "set", "dict": "dict", "tuple": "list"}[name]
            if name == "tuple":
                x = args[0]
                if x.op == "tuple":
                    return [(st, x)]
                its = self.items_of(st, x)
                if its is not None and all(not i.args[2] and not i.args[3] for i in its) and not (x.op == "obj" and x.args[0] in ("set", "dict")):
                    return [(st, mk("tuple", *[i.args[1] for i in its]))]
                return [(st, mk("call", "tuple", self.snap(st, x)))]
            o = self.alloc(st, kind, node)
            if args:
                src = args[0]
                if src.op == "call" and src.args[0] == "enumerate" and False:
                    pass
                for s1 in alts(src):
                    if s1.op == "call" and s1.args[0] in (".items", ".keys", ".values") and self.items_of(st, s1.args[1]) is not None:
                        b = s1.args[1]
                        for i in self.items_of(st, b):
                            k, v, itr, gd = i.args
                            val = {".items": mk("tuple", k if k is not None else NONE, v), ".keys": k if k is not None else v, ".values": v}[s1.args[0]]
                            if kind == "dict" and s1.args[0] == ".items":
                                n = mk("item", k, v, itr, gd)
                            else:
                                n = mk("item", None, val, itr, gd)
                            its = st.heap[(o, "$items")]
                            if n not in its:
                                st.hset((o, "$items"), its + (n,))
                    else:
                        self.copy_items(st, o, s1)
            for k, v in kwargs.items():
                if name != "sorted":
                    self.add_item(st, o, const(k), v)
            for k, v in extra:
                if k == "**":
                    self.copy_items(st, o, v)
            if name == "sorted":
                st.hset((o, "$sorted"), TRUE)
            return [(st, o)]
        if name == "len" and args:
            x = args[0]
            if x.op == "tuple":
                return [(st, const(len(x.args)))]
            its = self.items_of(st, x)
            if its is not None and x.op == "obj" and all(not i.args[2] and not i.args[3] for i in its) and self._no_loop_since(st, x):
                return [(st, const(len(its)))]
            for n in self._clsnames(self.typeof(x, st))[:1]:
                if self.prog.classes[n].find("__len__"):
                    return self.call_method(st, x, "__len__", [], {}, node)
            return [(st, mk("call", "len", self.snap(st, x)))]
        if name == "bool" and args:
            c = self.norm_cond(st, args[0])
            return [(st, const(c) if isinstance(c, bool) else (c[0] if c[1] else self.neg(c[0])))]
        if name in ("all", "any") and args:
            x = args[0]
            its = self.items_of(st, x)
            if its is not None and all(not i.args[2] and not i.args[3] for i in its):
                vs = [i.args[1] for i in its]
                if all(v.op == "const" for v in vs):
                    return [(st, const((all if name == "all" else any)(bool(v.args[0]) for v in vs)))]
                if len(vs) == 1:
                    return [(st, vs[0])]
                return [(st, mk("op", "and" if name == "all" else "or", *vs))]
            return [(st, mk("op", name, self.snap(st, x)))]
        if name == "vars" and len(args) == 1:
            return self.load_attr(st, args[0], "__dict__", node)
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.load_attr(st, args[0], args[1].args[0], node)
        if name == "setattr" and len(args) == 3:
            if is_const(args[1]):
                self.store_attr(st, args[0], args[1].args[0], args[2], node)
            else:
                self.emit(st, "setattr", node, base=args[0], attr="*", value=args[2], key=args[1])
            return [(st, NONE)]
        if name == "hasattr" and len(args) == 2:
            return [(st, mk("op", "hasattr", args[0], args[1]))]
        if name == "next" and args:
            x = args[0]
            return [(st, self.elem(st, x))]
        if name == "iter" and args:
            return [(st, args[0])]
        if name == "map" and len(args) == 2:
            o = self.alloc(st, "gen", node)
            outs = self.loop(st, args[1], lambda b, el: self._bindtmp(b, el),
                             lambda b: self._map_body(b, o, args[0], node), node, comp=True)
            return [(s, o) for s in self.merge(outs)]
        if name == "filter" and len(args) == 2:
            o = self.alloc(st, "gen", node)
            outs = self.loop(st, args[1], lambda b, el: self._bindtmp(b, el),
                             lambda b: self._filter_body(b, o, args[0], node), node, comp=True)
            return [(s, o) for s in self.merge(outs)]
        if name in ("print",):
            return [(st, NONE)]
        if name in ("min", "max", "sum", "zip", "enumerate", "range", "reversed", "str", "int", "float", "repr", "hash", "id", "callable", "abs", "format", "iter"):
            if name == "str" and args and args[0].op in ("fstr", "const"):
                return [(st, self.fstr([args[0]]))]
            if name in ("zip", "enumerate", "reversed"):
                a = args
                return [(st, mk("call", name, *a))]
            return self.opaque(st, name, None, args, kwargs, node, extra, pure=True)
        if name in ("input",):
            return self.opaque(st, "input", None, args, kwargs, node, extra)
        return self.opaque(st, name, None, args, kwargs, node, extra, pure=name in PURE or name in _EXC)

    def _bindtmp(self, st, el):
        st.env[(self.frames[-1].fid, "$tmp")] = el
        return [st]

    def _map_body(self, b, o, f, node):
        el = b.env[(self.frames[-1].fid, "$tmp")]
        outs = []
        for s, v in self.call_value(b, f, [el], {}, node):
            self._append_c(s, o, v)
            outs.append(s)
        return outs

    def _filter_body(self, b, o, f, node):
        el = b.env[(self.frames[-1].fid, "$tmp")]
        outs = []
        res = [(b, el)] if is_const(f, None) else self.call_value(b, f, [el], {}, node)
        for s, v in res:
            t, fl = self.branch(s, v, node)
            for x in t:
                self._append_c(x, o, el)
            outs += t + fl
        return outs

    def isinstance_term(self, st, x, c):
        if x.op == "phi" and len(x.args) <= 6:
            rs = [self.isinstance_term(st, a, c) for a in x.args]
            if all(r is rs[0] for r in rs):
                return rs[0]
        its = self.items_of(st, c)
        if its is not None:
            c = mk("tuple", *[i.args[1] for i in its])
        if c.op == "op" and c.args[0] == "bitor":
            c = mk("tuple", c.args[1], c.args[2])
        if c.op == "tuple":
            parts = [self.isinstance_term(st, x, a) for a in c.args]
            if any(is_const(p, True) for p in parts):
                return TRUE
            parts = [p for p in parts if not is_const(p, False)]
            if not parts:
                return FALSE
            return parts[0] if len(parts) == 1 else mk("op", "or", *parts)
        r = self.isinst(st, x, c)
        if r is not None:
            return const(r)
        return mk("op", "isinstance", x, c)

    def call_ext(self, st, name, args, kwargs, node, extra):
        if name.startswith(("mandala.common_imports.logger", "logging.", "warnings.", "tqdm")) or ".logger." in name or name.endswith("logger"):
            if name.startswith("tqdm") and args:
                return [(st, args[0])]
            return [(st, NONE)]
        last = name.split(".")[-1]
        if last in ("tqdm",) and args:
            return [(st, args[0])]
        if name in ("copy.copy",) and args:
            x = args[0]
            if self._cont(x) or self.kindof(st, x) in ("dict", "list", "set"):
                return self.call_method(st, x, "copy", [], {}, node)
            return [(st, mk("call", "copy.copy", self.snap(st, x)))]
        if name in ("copy.deepcopy",) and args:
            return [(st, mk("call", "copy.deepcopy", self.snap(st, args[0])))]
        if name in ("collections.defaultdict", "defaultdict"):
            o = self.alloc(st, "dict", node)
            if args and args[0].op == "builtin":
                st.hset((o, "$def"), args[0])
            return [(st, o)]
        if name in ("collections.OrderedDict", "collections.deque", "OrderedDict", "deque"):
            return self.call_builtin(st, "dict" if "Ordered" in name else "list", args, kwargs, node, extra)
        if name in ("typing.cast",) and len(args) == 2:
            return [(st, args[1])]
        if name.startswith("itertools.chain"):
            if name.endswith("from_iterable") and args:
                return [(st, mk("call", "elemof", args[0]))]
            return [(st, mk("call", "itertools.chain", *args))]
        if name in ("functools.wraps", "functools.update_wrapper", "functools.lru_cache", "functools.cache", "abc.abstractmethod", "contextlib.contextmanager"):
            if name == "functools.update_wrapper" and args:
                return [(st, args[0])]
            return [(st, mk("ext", "identity_decorator"))]
        if name == "identity_decorator" and args:
            return [(st, args[0])]
        if name in ("functools.reduce",) and len(args) >= 2:
            el = self.elem(st, args[1])
            init = args[2] if len(args) > 2 else el
            outs = self.call_value(st, args[0], [init, el], {}, node)
            return [(s, phi(v, init)) for s, v in outs]
        pure = name in PURE or name != "inspect.getsource" and (last in _EXC or name.startswith(("np.", "numpy.", "typing.", "textwrap.", "inspect.", "os.path.")))
        return self.opaque(st, name, None, args, kwargs, node, extra, pure=pure)

    # ================================================================= repository functions
    def call_fn(self, st, fn: Fn, selfT, args, kwargs, node, extra=(), parent=None, raw=False):
        dn = [d for d in fn.deco_names() if d not in ("staticmethod", "classmethod", "property", "abstractmethod", "setter", "wraps",
                                                      "cached_property", "contextmanager", "overload", "override", "dataclass", "lru_cache", "cache")]
        if not raw and dn:
            if any(d in self.tx_funcs for d in dn) and self.cfg.tx == "transparent":
                return self.call_tx(st, fn, selfT, args, kwargs, node, extra)
            if dn and self.cfg.tx != "ignore":
                # generic decorator: evaluate decorator(function) and call the result
                rd = [d for d in fn.decorators if ast.unparse(d if not isinstance(d, ast.Call) else d.func).split(".")[-1] in dn]
                cur = [(st, mk("rawfunc", fn.qual))]
                ok = True
                for d in reversed(rd):
                    nxt = []
                    for s, v in cur:
                        for s2, dv in self.ev_in_module(d, s, fn.module):
                            if dv.op in ("func", "closure"):
                                nxt += self.call_value(s2, dv, [v], {}, node)
                            else:
                                nxt.append((s2, v))
                    cur = nxt
                outs = []
                for s, v in cur:
                    a = ([selfT] if selfT is not None else []) + list(args)
                    if v.op == "rawfunc":
                        outs += self.call_fn(s, fn, None, a, kwargs, node, extra, raw=True)
                    else:
                        outs += self.call_value(s, v, a, kwargs, node, extra)
                return self.merge_vals(outs)
        if selfT is None and fn.cls is not None and args and fn.parent is None and "staticmethod" not in fn.deco_names():
            selfT, args = args[0], list(args[1:])
        depth = sum(1 for f in self.frames if f.fn is fn)
        if self.cfg.opaque(fn) or depth > self.cfg.maxrec or len(self.frames) > self.cfg.maxdepth:
            ty = self.prog.parse_type(fn.returns, fn.module)
            bound = self.bindmap(fn, selfT, args, kwargs)
            allargs = list(args)
            if selfT is not None:
                allargs = [selfT] + allargs
            sargs = [self.snap(st, a) for a in allargs]
            skw = {k: self.snap(st, v) for k, v in kwargs.items()}
            t = mk("call", fn.qual, *sargs, *[mk("kw", k, v) for k, v in sorted(skw.items())], *[mk("star", self.snap(st, v)) for _, v in extra], self.site(node))
            self.hint(t, ty)
            n = self.emit(st, "call", node, name=fn.qual, func=mk("func", fn.qual), recv=selfT, args=tuple(args), kwargs=dict(kwargs),
                          extra=tuple(extra), result=t, bound=bound, sargs=tuple(sargs), skw=skw, rec=depth > self.cfg.maxrec)
            st = self._maybe_raise(st, n, node)
            return [(st, t)]
        # enter frame
        stack = self.frames[-1].stack + ((self.frames[-1].fn.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + self.unroll,)
        self.nfid += 1
        fr = Frame(fn, self.nfid, stack, selfT)
        if fn.is_gen and "contextmanager" in fn.deco_names():
            fr.cm = self.cm_hooks.pop(node, None)
        if parent is not None:
            self.closures[("frame", fr.fid)] = parent
            # inherit self for super()
        old_unroll, self.unroll = self.unroll, ()
        callline = getattr(node, "lineno", self.line)
        en = self.emit(st, "enter", node, fn_entered=fn.qual, args=tuple(args), kwargs=dict(kwargs), recv=selfT)
        self.frames.append(fr)
        try:
            self.bind_params(st, fr, selfT, args, kwargs, extra, node)
            if fn.is_gen:
                y = self.alloc(st, "gen", fn.node)
                st.env[(fr.fid, "$yield")] = y
            out = self.block(fn.body, [st])
        finally:
            self.frames.pop()
            self.unroll = old_unroll
        rets = out["ret"]
        for s in out["next"]:
            rets.append((s, NONE))
        if fr.cm is not None:
            # the with statement resumes the caller as its body ended (see _with)
            rets = [(s, s.env[(fr.fid, "$cm")]) for s, _ in rets if (fr.fid, "$cm") in s.env]
        elif fn.is_gen:
            rets = [(s, y) for s, _ in rets]
        keep = fn.has_nested
        res = []
        ty = self.prog.parse_type(fn.returns, fn.module)
        for s, v in rets:
            if not keep:
                for k in [k for k in s.env if k[0] == fr.fid]:
                    del s.env[k]
            s.loops = st.loops if len(s.loops) >= 0 else s.loops
            self.line = callline
            self.emit(s, "leave", node, fn_left=fn.qual, value=v)
            if ty is not None:
                self.hint(v, ty)
            res.append((s, v))
        return self.merge_vals(res)

    def ev_in_module(self, e, st, modname):
        self.nfid += 1
        f = Fn(ast.parse("def deco(): pass").body[0], modname, None, "<deco>")
        fr = Frame(f, self.nfid, self.frames[-1].stack + (("<deco>", getattr(e, "lineno", 0), 0),), None)
        self.frames.append(fr)
        try:
            return self.ev(e, st)
        finally:
            self.frames.pop()

    def bindmap(self, fn, selfT, args, kwargs):
        m = {}
        pos = list(fn.pos)
        if selfT is not None and pos:
            m[pos[0]] = selfT
            pos = pos[1:]
        for p, v in zip(pos, args):
            m[p] = v
        m.update(kwargs)
        return m

    def bind_params(self, st, fr, selfT, args, kwargs, extra, node):
        fn = fr.fn
        env = st.env
        pos = list(fn.pos)
        fid = fr.fid
        if selfT is not None and pos:
            env[(fid, pos[0])] = selfT
            if fn.cls is not None and selfT.op not in ("class",):
                self.hint(selfT, fn.cls.name)
            pos = pos[1:]
        kwargs = dict(kwargs)
        args = list(args)
        stars = [v for k, v in extra if k == "*"]
        dstars = [v for k, v in extra if k == "**"]
        bound = set()
        for p in pos:
            if args:
                env[(fid, p)] = args.pop(0)
                bound.add(p)
                if p in kwargs:
                    self.emit(st, "error", node, what=f"multiple values for argument {p}")
            elif p in kwargs:
                env[(fid, p)] = kwargs.pop(p)
                bound.add(p)
        for p in fn.kwonly:
            if p in kwargs:
                env[(fid, p)] = kwargs.pop(p)
                bound.add(p)
        if args and not fn.vararg and not stars:
            self.emit(st, "error", node, what=f"too many positional arguments for {fn.qual}")
        for p in pos + fn.kwonly:
            if p not in bound:
                alts_ = []
                for v in stars:
                    if p in pos:
                        alts_.append(mk("elem", v))
                for v in dstars:
                    its = self.items_of(st, v)
                    if its is not None:
                        for i in its:
                            if i.args[0] is not None and is_const(i.args[0]) and i.args[0].args[0] == p:
                                alts_.append(i.args[1])
                            elif i.args[0] is not None and not is_const(i.args[0]):
                                alts_.append(i.args[1])
                    else:
                        alts_.append(mk("call", ".get", v, const(p)))
                if p in fn.defaults:
                    d = fn.defaults[p]
                    dv = const(d.value) if isinstance(d, ast.Constant) and isinstance(d.value, (str, int, float, bool, type(None))) else None
                    if dv is None:
                        dv = self.ev(d, st)[0][1]
                    alts_.append(dv)
                if not alts_:
                    if not stars and not dstars:
                        self.emit(st, "error", node, what=f"missing argument {p} for {fn.qual}")
                    alts_.append(mk("param", f"{fn.qual}.{p}?"))
                env[(fid, p)] = phi(*alts_)
        if fn.vararg:
            if stars:
                if not args and len(stars) == 1:
                    env[(fid, fn.vararg)] = stars[0]
                else:
                    o = self.alloc(st, "list", node)
                    for a in args:
                        self._append(st, o, a)
                    for s in stars:
                        self.copy_items(st, o, s)
                    env[(fid, fn.vararg)] = o
            else:
                env[(fid, fn.vararg)] = mk("tuple", *args)
        if fn.kwarg:
            o = self.alloc(st, "dict", node, tag=("kw",))
            for k, v in kwargs.items():
                self.add_item(st, o, const(k), v)
            for v in dstars:
                self.copy_items(st, o, v)
            env[(fid, fn.kwarg)] = o
        elif kwargs:
            bad = [k for k in kwargs]
            self.emit(st, "error", node, what=f"unexpected keyword argument(s) {bad} for {fn.qual}")
        for p in pos + fn.kwonly:
            a = fn.ann.get(p)
            if a is not None:
                self.hint(env[(fid, p)], self.prog.parse_type(a, fn.module))

    # ---- transactions
    def call_tx(self, st, fn, selfT, args, kwargs, node, extra):
        c = kwargs.get("conn", NONE)
        npos = len(args) + (1 if selfT is not None else 0)
        if "conn" in fn.pos and fn.pos.index("conn") < npos:
            self.emit(st, "error", node, what="transaction connection passed positionally (the decorator adds it again)")
            return self.call_fn(st, fn, selfT, args, kwargs, node, extra, raw=True)
        outs = []
        for a in alts(c):
            s = st.fork() if c.op == "phi" else st
            if is_const(a, None):
                kw = {k: v for k, v in kwargs.items() if k != "conn"}
                cn = mk("call", "txconn", self.site(node))
                self.hint(cn, "Connection")
                self.emit(s, "tx_begin", node, conn=cn, fn_name=fn.qual, recv=selfT)
                kw["conn"] = cn
                old, self.rs = self.rs, []
                res = self.call_fn(s, fn, selfT, args, kw, node, extra, raw=True)
                raised, self.rs = self.rs, old
                for s2, v in res:
                    self.emit(s2, "tx_end", node, conn=cn)
                    outs.append((s2, v))
                for s2, x in raised:
                    self.emit(s2, "tx_abort", node, conn=cn)
                    self.rs.append((s2, x))
            else:
                kw = dict(kwargs)
                kw["conn"] = a
                self.emit(s, "tx_join", node, conn=a, fn_name=fn.qual)
                outs += self.call_fn(s, fn, selfT, args, kw, node, extra, raw=True)
        return self.merge_vals(outs)

    # ================================================================= statements
    def block(self, stmts, sts):
        out = {"next": [], "ret": [], "brk": [], "cont": []}
        cur = list(sts)
        for x in stmts:
            if not cur:
                break
            cur = self.merge(cur)
            if self.trace is not None:
                self.trace(self, x, cur)
            nxt = []
            for s in cur:
                o = self.stmt(x, s)
                nxt += o["next"]
                out["ret"] += o["ret"]
                out["brk"] += o["brk"]
                out["cont"] += o["cont"]
            cur = nxt
        out["next"] = self.merge(cur)
        return out

    @staticmethod
    def nxt(sts):
        return {"next": sts, "ret": [], "brk": [], "cont": []}

    def stmt(self, x, st):
        self.steps += 1
        if hasattr(x, "lineno"):
            self.line = x.lineno
        m = getattr(self, "st_" + type(x).__name__, None)
        if m is None:
            return self.nxt([st])
        return m(x, st)

    def st_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return self.nxt([st])
        return self.nxt([s for s, _ in self.ev(x.value, st)])

    def st_Pass(self, x, st):
        return self.nxt([st])

    st_Global = st_Nonlocal = st_Import = st_Pass

    def st_ImportFrom(self, x, st):
        for a in x.names:
            if a.name != "*":
                m = self.prog._rel(self.frames[-1].mod, x.level, x.module or "")
                r = self.prog.lookup_global(m, a.name) if m in self.prog.modules else None
                v = self.binding(st, r, a.name) if r else mk("ext", f"{m}.{a.name}")
                self.bind(st, a.asname or a.name, v)
        return self.nxt([st])

    def st_Import(self, x, st):
        for a in x.names:
            self.bind(st, a.asname or a.name.split(".")[0], mk("module", a.name if a.asname else a.name.split(".")[0]))
        return self.nxt([st])

    def bind(self, st, name, v):
        fr = self.frames[-1]
        if name in fr.fn.nonlocals:
            for fid in self.closure_chain(fr):
                if (fid, name) in st.env:
                    st.env[(fid, name)] = v
                    return
        if name in fr.fn.globals_decl:
            self.emit(st, "setglobal", None, name=name, value=v)
        st.env[(fr.fid, name)] = v

    def assign(self, target, v, st, node):
        """-> list of states"""
        if isinstance(target, ast.Name):
            self.bind(st, target.id, v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(target.elts)
            for i, t in enumerate(target.elts):
                nxt = []
                for s in sts:
                    if isinstance(t, ast.Starred):
                        nxt += self.assign(t.value, mk("sub", self.snap(s, v), mk("slice", const(i), NONE, NONE)), s, node)
                    else:
                        nxt += self.assign(t, self.sub(s, v, const(i)), s, node)
                sts = nxt
            return sts
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st):
                out += self.store_attr(s, b, target.attr, v, node)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, (b, i) in self.evs([target.value, target.slice], st):
                out += self.store_sub(s, b, i, v, node)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        return [st]

    def store_attr(self, st, b, attr, v, node):
        for a in alts(b):
            ns = self._clsnames(self.typeof(a, st))
            for n in ns[:1]:
                m = self.prog.classes[n].find(attr + ".setter")
                if m is not None:
                    res = self.call_fn(st, m, a, [v], {}, node, raw=True)
                    return [s for s, _ in res]
        n = self.emit(st, "setattr", node, base=b, attr=attr, value=v)
        st2 = self._maybe_raise(st, n, node)
        if b.op == "phi":
            for a in b.args:
                old = st.heap.get((a, attr), mk("attr", a, attr))
                st.hset((a, attr), phi(old, v))
        else:
            st.hset((b, attr), v)
        return [st2]

    def store_sub(self, st, b, i, v, node):
        if b.op == "phi":
            sts = [st]
            for a in b.args:
                nxt = []
                for s in sts:
                    nxt += self.store_sub(s, a, i, v, node)
                sts = nxt
            return sts
        for n in self._clsnames(self.typeof(b, st))[:1]:
            m = self.prog.classes[n].find("__setitem__")
            if m is not None:
                return [s for s, _ in self.call_method(st, b, "__setitem__", [i, v], {}, node)]
        n = self.emit(st, "mut", node, target=b, how="setitem", args=(), kwargs={}, key=i, value=v)
        st = self._maybe_raise(st, n, node)
        if self._cont(b):
            if b.args[0] == "dict":
                self.add_item(st, b, i, v)
            else:
                self._append(st, b, v)
        else:
            st.hset((b, ("$k", i)), v)
        return [st]

    def accumulation(self, x):
        """t[k] = t.get(k, set()) | e is t.setdefault(k, set()) followed by t[k] |= e: what t holds is the same"""
        if x in self._acc:
            return self._acc[x]
        out = None
        t, v = x.targets[0], x.value
        if len(x.targets) == 1 and isinstance(t, ast.Subscript):
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr):
                parts = [v.left, v.right]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "union" and not v.keywords and not any(isinstance(a, ast.Starred) for a in v.args):
                parts = [v.func.value] + v.args
            else:
                parts = []
            src = ast.unparse(t)
            tv, tk = ast.unparse(t.value), ast.unparse(t.slice)
            for i, p in enumerate(parts):
                e = p
                while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "set" and len(e.args) == 1:
                    e = e.args[0]
                get = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and len(e.args) == 2 and ast.unparse(e.func.value) == tv \
                    and ast.unparse(e.args[0]) == tk and ast.unparse(e.args[1]) in ("set()", "frozenset()", "{}", "()", "[]")
                if get or ast.unparse(e) == src:
                    rest = [q for j, q in enumerate(parts) if j != i]
                    if not rest or any(isinstance(w, (ast.Name, ast.Attribute)) and ast.unparse(w) == tv for q in rest for w in ast.walk(q)):
                        break
                    lines = ([f"{tv}.setdefault({tk}, set())"] if get else []) + [f"{src} |= {ast.unparse(q)}" for q in rest]
                    out = ast.parse("\n".join(lines)).body
                    for n, y in enumerate(out):
                        for w in ast.walk(y):
                            if hasattr(w, "lineno"):
                                w.lineno = w.end_lineno = x.lineno
                                w.col_offset = w.col_offset + 1000 * (n + 1)
                    break
        self._acc[x] = out
        return out

    def st_Assign(self, x, st):
        if self.pure_lookup:
            acc = self.accumulation(x)
            if acc is not None:
                sts = [st]
                for y in acc:
                    sts = [z for q in sts for z in self.stmt(y, q)["next"]]
                return self.nxt(sts)
        sts = []
        for s, v in self.ev(x.value, st):
            cur = [s]
            for t in x.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c, x)
                cur = nxt
            sts += cur
        return self.nxt(sts)

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return self.nxt([st])
        sts = []
        for s, v in self.ev(x.value, st):
            self.hint(v, self.prog.parse_type(x.annotation, self.frames[-1].mod))
            sts += self.assign(x.target, v, s, x)
        return self.nxt(sts)

    def st_AugAssign(self, x, st):
        n = type(x.op).__name__.lower()
        load = ast.parse(ast.unparse(x.target), mode="eval").body
        ast.copy_location(load, x)
        for c in ast.walk(load):
            ast.copy_location(c, x)
        sts = []
        for s, (a, b) in self.evs([load, x.value], st):
            k = None
            if self._cont(a):
                k = a.args[0]
            elif a.op == "phi" and any(self._cont(q) for q in a.args):
                k = next(q.args[0] for q in a.args if self._cont(q))
            else:
                k = self.kindof(s, a)
            if k in ("set", "dict") and n in ("bitor", "bitand", "sub", "bitxor") or (k == "list" and n == "add"):
                # in-place mutation of a container
                how = {"bitor": "update", "add": "extend", "bitand": "intersection_update", "sub": "difference_update", "bitxor": "symmetric_difference_update"}[n]
                for a1 in alts(a):
                    self.emit(s, "mut", x, target=a1, how=how, args=(b,), kwargs={}, key=None, value=None)
                    if self._cont(a1) and how == "difference_update" and st_neg(s, a1) is not None and self.pure_lookup:
                        self.copy_items(s, st_neg(s, a1), b)
                    elif self._cont(a1) and how in ("update", "extend"):
                        self.added(s, a1)
                        its = self.items_of(s, b)
                        if a1.args[0] == "list" and its is not None and all(not i.args[2] for i in its):
                            for i in its:
                                self._append(s, a1, i.args[1])
                        else:
                            self.copy_items(s, a1, b)
                    elif not self._cont(a1):
                        pass
                if isinstance(x.target, ast.Name) and not self._cont(a) and a.op != "phi":
                    # symbolic: value changes; keep identity but remember data
                    self.bind(s, x.target.id, a)
                sts.append(s)
            else:
                if n in ("bitor", "bitand", "bitxor", "sub") and a.op not in ("const", "op", "fstr"):
                    # changes the object itself if it is a container, rebinds otherwise
                    self.emit(s, "aug", x, target=a, how=n, args=(b,))
                v = self.do_binop(s, n, a, b, x)
                sts += self.assign(x.target, v, s, x)
        return self.nxt(sts)

    def st_Delete(self, x, st):
        sts = [st]
        for t in x.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Subscript):
                    for s2, (b, i) in self.evs([t.value, t.slice], s):
                        for b1 in alts(b):
                            done = False
                            for n in self._clsnames(self.typeof(b1, s2))[:1]:
                                if self.prog.classes[n].find("__delitem__"):
                                    s2 = self.merge([q for q, _ in self.call_method(s2, b1, "__delitem__", [i], {}, x)])[0]
                                    done = True
                            if done:
                                continue
                            n = self.emit(s2, "mut", x, target=b1, how="delitem", args=(), kwargs={}, key=i, value=None)
                            s2 = self._maybe_raise(s2, n, x)
                            if self._cont(b1):
                                its = s2.heap.get((b1, "$items"), ())
                                s2.hset((b1, "$items"), tuple(q for q in its if not (q.args[0] is i and not q.args[2])))
                            else:
                                s2.hdel((b1, ("$k", i)))
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        self.emit(s2, "delattr", x, base=b, attr=t.attr)
                        s2.hdel((b, t.attr))
                        nxt.append(s2)
                elif isinstance(t, ast.Name):
                    s.env.pop((self.frames[-1].fid, t.id), None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            sts = nxt
        return self.nxt(sts)

    def st_Return(self, x, st):
        out = self.nxt([])
        for s, v in (self.ev(x.value, st) if x.value is not None else [(st, NONE)]):
            out["ret"].append((s, v))
        return out

    def st_Break(self, x, st):
        o = self.nxt([])
        o["brk"].append(st)
        return o

    def st_Continue(self, x, st):
        o = self.nxt([])
        o["cont"].append(st)
        return o

    def st_Raise(self, x, st):
        if x.exc is None:
            e = st.env.get((self.frames[-1].fid, "$exc"), mk("exc", "?", "reraise"))
            self.emit(st, "raise", x, exc=e)
            self.rs.append((st, e))
            self.note_raise(st)
            return self.nxt([])
        for s, v in self.ev(x.exc, st):
            for a in alts(v):
                s2 = s.fork() if v.op == "phi" else s
                e = a
                if a.op in ("builtin", "ext", "class"):
                    e = mk("call", a.args[0])
                self.emit(s2, "raise", x, exc=e)
                self.rs.append((s2, e))
                self.note_raise(s2)
        return self.nxt([])

    def note_raise(self, st):
        if self.rdnf:
            self.rdnf[-1] |= st.dnf

    def exc_type(self, e):
        if e.op == "exc":
            return e.args[0]
        if e.op == "call":
            return e.args[0]
        if e.op == "obj":
            return e.args[0][5:]
        return "?"

    def st_Assert(self, x, st):
        sts = []
        for a, b in [self.evc(x.test, st, x)]:
            sts += a
            for q in b:
                self.note_raise(q)
                if self.cfg.asserts == "raise":
                    self.emit(q, "raise", x, exc=mk("call", "AssertionError"))
                    self.rs.append((q, mk("call", "AssertionError")))
        return self.nxt(sts)

    def st_If(self, x, st):
        out = self.nxt([])
        T_, F_ = self.evc(x.test, st, x)
        for sts, body in ((T_, x.body), (F_, x.orelse)):
            if not sts:
                continue
            o = self.block(body, self.merge(sts))
            for k in out:
                out[k] += o[k]
        out["next"] = self.merge(out["next"])
        return out

    def st_Match(self, x, st):
        """match on literal/class patterns, lowered to conditions"""
        out = self.nxt([])
        for s, subj in self.ev(x.subject, st):
            rest = [s]
            for c in x.cases:
                nr, taken = [], []
                for r in rest:
                    t = self.pattern(r, c.pattern, subj)
                    if t is None:
                        taken.append(r)
                        nr.append(r.fork())
                    else:
                        a, b = self.branch(r, t, x)
                        taken += a
                        nr += b
                t2 = []
                for r in taken:
                    if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                        self.bind(r, c.pattern.name, subj)
                    if c.guard is not None:
                        for y, v in self.ev(c.guard, r):
                            a, b = self.branch(y, v, x)
                            t2 += a
                            nr += b
                    else:
                        t2.append(r)
                if t2:
                    o = self.block(c.body, self.merge(t2))
                    for k in out:
                        out[k] += o[k]
                rest = self.merge(nr)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    rest = []
                    break
            out["next"] += rest
        return out

    def pattern(self, st, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.eq_term(subj, self.ev(p.value, st)[0][1])
        if isinstance(p, ast.MatchSingleton):
            return self.isnone(subj) if p.value is None else self.eq_term(subj, const(p.value))
        if isinstance(p, ast.MatchClass):
            return self.isinstance_term(st, subj, self.ev(p.cls, st)[0][1])
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(st, q, subj) for q in p.patterns]
            return None if any(t is None for t in ts) else mk("op", "or", *ts)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE
            return self.pattern(st, p.pattern, subj)
        return None

    # ---- loops
    def loop(self, st, it, bindf, bodyf, node, comp=False):
        """generic for-loop used for comprehensions; bodyf(state)->states; returns exit states"""
        res = self._for(st, it, bindf, lambda b: {"next": bodyf(b), "ret": [], "brk": [], "cont": []}, node)
        return res["next"]

    def literal_elems(self, st, it):
        if it.op == "tuple":
            return list(it.args)
        its = self.items_of(st, it)
        if its is not None and it.op == "obj" and it.args[0] in ("list", "gen") and all(not i.args[2] and not i.args[3] for i in its) \
                and self._no_loop_since(st, it):
            return [i.args[1] for i in its]
        if it.op == "call" and it.args[0] in (".items",) and it.args[1].op == "obj":
            its = self.items_of(st, it.args[1])
            if its is not None and all(i.args[0] is not None and is_const(i.args[0]) and not i.args[2] and not i.args[3] for i in its):
                return [mk("tuple", i.args[0], i.args[1]) for i in its]
        if it.op == "call" and it.args[0] == "enumerate":
            e = self.literal_elems(st, it.args[1])
            if e is not None:
                return [mk("tuple", const(i), v) for i, v in enumerate(e)]
        if it.op == "call" and it.args[0] == "zip":
            es = [self.literal_elems(st, a) for a in it.args[1:] if isinstance(a, T)]
            if es and all(e is not None for e in es):
                return [mk("tuple", *x) for x in zip(*es)]
        if it.op == "call" and it.args[0] == "itertools.chain":
            es = [self.literal_elems(st, a) for a in it.args[1:] if isinstance(a, T)]
            if es and all(e is not None for e in es):
                return [y for x in es for y in x]
        return None

    def st_For(self, x, st):
        out = self.nxt([])
        for s, it in self.ev(x.iter, st):
            o = self._for(s, it, lambda b, el: self.assign(x.target, el, b, x), lambda b: self.block(x.body, [b]), x, x.orelse)
            for k in out:
                out[k] += o[k]
        return out

    def _for(self, st, it, bindf, bodyf, node, orelse=()):
        out = self.nxt([])
        if it.op == "phi":
            # keep alternatives with the same single loop: treat as one symbolic sequence
            pass
        lit = self.literal_elems(st, it)
        if lit is not None and len(lit) <= 8:
            cur = [st]
            old = self.unroll
            brk = []
            for i, el in enumerate(lit):
                self.unroll = old + (i,)
                nxt = []
                for s in cur:
                    for b in bindf(s, el):
                        o = bodyf(b)
                        nxt += o["next"] + o["cont"]
                        brk += o["brk"]
                        out["ret"] += o["ret"]
                cur = self.merge(nxt)
                if not cur:
                    break
            self.unroll = old
            out["next"] = self.merge(cur + brk)
            return out
        sit = it if it.op != "obj" else self.snap(st, it)
        # iterating the mapping itself or its keys/items/values visits the same elements
        el = self.elem(st, it)
        head = self.emit(st, "loop", node, iter=it, siter=sit)
        base_loops = st.loops
        entry = (sit, (node, self.frames[-1].fid))
        cur = st
        entry_snapshot = None
        n0 = len(self.nodes)
        rs0 = len(self.rs)
        self.rdnf.append(set())
        dnf0 = st.dnf
        for p in range(5):
            del self.nodes[n0:]
            del self.rs[rs0:]
            b = cur.fork()
            b.at = (head.id,)
            b.loops = base_loops + (entry,)
            b.dnf = TOP
            self.rdnf[-1] = set()
            self.emit(b, "iter", node, head=head.id, siter=sit)
            el = self.elem(b, it)
            rets, brks, backs = [], [], []
            for b1, el in self.elem_split(b, it, node):
                for b2 in bindf(b1, el):
                    o = bodyf(b2)
                    backs += o["next"] + o["cont"]
                    rets += o["ret"]
                    brks += o["brk"]
            if not backs:
                break
            for z in backs:
                z.loops = base_loops
            j = self.join([cur.fork()] + backs)
            ch = self.changed(cur, j)
            if not ch:
                break
            cur2 = State(j.env, j.heap, j.facts, cur.at, base_loops)
            cur2._hs = True
            if p >= 2:
                self.widen(cur, cur2, ch, node)
            cur = cur2
            cur.at = (head.id,)
        self.rdnf.pop()
        self.carry(head, st, cur, backs or [])
        for z in backs if backs else []:
            for a in z.at:
                if a not in head.preds:
                    head.preds.append(a)
        ex = State(dict(cur.env), cur.heap, cur.facts, (head.id,), base_loops)
        if backs:
            # names bound inside the loop stay visible after it
            for z in backs:
                for k, v in z.env.items():
                    if k not in ex.env:
                        ex.env[k] = v
            j = self.join([ex] + backs)
            ex = State(j.env, j.heap, ex.facts & j.facts, (head.id,), base_loops)
        ex._hs = True
        ex.dnf = dnf0
        self.emit(ex, "endloop", node, head=head.id)
        nxt = [ex]
        if orelse:
            o = self.block(orelse, [ex])
            nxt = o["next"]
            out["ret"] += o["ret"]
        for z in brks:
            z.loops = base_loops
            z.dnf = dnf0
            self.emit(z, "break", node, head=head.id, siter=sit)
        out["next"] = self.merge(nxt + brks)
        for s, v in rets:
            s.dnf = dnf0
            self.emit(s, "loopret", node, head=head.id, siter=sit)
        out["ret"] += rets
        return out

    def elem_split(self, st, it, node):
        """the generic element of `it`; when it is a flag computed per element (e.g. a mask), one state per flag
        value, with the conditions under which it has that value"""
        if it.op == "call" and it.args[0] == "zip":
            cur = [(st, [])]
            for a in it.args[1:]:
                if isinstance(a, T):
                    cur = [(s2, els + [el]) for s, els in cur for s2, el in self.elem_split(s, a, node)]
            return [(s, mk("tuple", *els)) for s, els in cur]
        its = self.items_of(st, it)
        sp = self.flag_split(st, its, node) if its and it.op == "obj" and it.args[0] in ("list", "gen") else None
        return sp if sp is not None else [(st, self.elem(st, it))]

    def flag_split(self, st, its, node):
        if not (2 <= len(its) <= 16) or any(i.args[1].op != "const" and not self.is_bool(i.args[1]) for i in its) \
                or len({i.args[1] for i in its}) < 2 \
                or len({i.args[2] for i in its}) != 1:
            return None
        out = []
        for i in its:
            gs = [g for g in i.args[3] if g not in st.facts]
            if any((c, not p) in st.facts or self.decide(st, c, p) is False for c, p in gs):
                continue
            s = st.fork()
            for c, p in sorted(gs, key=lambda z: z[0].uid):
                self.assume(s, c, p, node)
            out.append((s, i.args[1]))
        return out or None

    def changed(self, a, b):
        ch = []
        for k, v in a.env.items():
            if b.env.get(k) is not v:
                ch.append(("e", k))
        if a.heap is not b.heap:
            for k, v in b.heap.items():
                o = a.heap.get(k)
                if o is None:
                    if k[0].op == "obj" and (k[0], "$alloc") not in a.heap:
                        continue
                    if isinstance(k[1], tuple):
                        continue
                    ch.append(("h", k))
                elif o is not v and o != v:
                    ch.append(("h", k))
            for k in a.heap:
                if k not in b.heap and not isinstance(k[1], tuple):
                    ch.append(("h", k))
        if a.facts != b.facts:
            ch.append(("f", None))
        return ch

    def carry(self, head, st, cur, backs):
        """what a loop does to the variables that change in it: {name: (before, at the head, [at the back edges])}"""
        c = {}
        for k, v in cur.env.items():
            i = st.env.get(k)
            if i is not None and (i is not v or any(z.env.get(k) not in (None, v) for z in backs)):
                c.setdefault(k[1], (self.snap(st.heap, i), v, [self.snap(z.heap, z.env[k]) for z in backs if k in z.env]))
        head.d["carried"] = c
        head.d["heap0"] = st.heap
        head.d["back_at"] = [tuple(z.at) for z in backs]

    def widen(self, a, b, ch, node):
        h = dict(b.heap)
        for kind, k in ch:
            if kind == "e":
                v = b.env[k]
                b.env[k] = self._wid(v, mk("lvar", str(k[1]), self.site(node)))
            elif kind == "h" and k in h and isinstance(h[k], T):
                h[k] = self._wid(h[k])
            elif kind == "h" and k in h and k[1] == "$items":
                its = h[k]
                gr = {}
                for i in its:
                    gr.setdefault(i.args[:3], []).append(i.args[3])
                if len(gr) < len(its):
                    # the same elements under ever new conditions (which mention the container): what the conditions share, and what kind the others are
                    def widened(cs):
                        both = frozenset.intersection(*map(frozenset, cs))
                        rest = frozenset().union(*cs) - both
                        return both | {(t if t.op == "op" and t.args[0] == "widened" else mk("op", "widened", str(t.args[0]) if t.op in ("op", "call") else t.op), p) for t, p in rest}
                    h[k] = tuple(mk("item", *g, widened(c)) for g, c in gr.items())
                    continue
                ks = [i.args[0] for i in its if i.args[0] is not None]
                h[k] = (mk("item", unk(*ks) if ks else None, unk(*[i.args[1] for i in its]), (), frozenset()),)
        b.heap = h

    def _wid(self, v, lv=None):
        keep = [x for x in alts(v) if x.op in ("const", "obj", "class", "func")]
        rest = [x for x in alts(v) if x.op not in ("const", "obj", "class", "func")]
        if not rest:
            return v
        u = unk(*rest, lv=lv)
        return phi(u, *keep) if len(keep) < 6 else unk(v, lv=lv)

    def st_While(self, x, st):
        out = self.nxt([])
        head = self.emit(st, "loop", x, iter=None, siter=None)
        base_loops = st.loops
        w = mk("call", "while", self.site(x))
        entry = (w, (x, self.frames[-1].fid))
        cur = st
        n0, rs0 = len(self.nodes), len(self.rs)
        self.rdnf.append(set())
        dnf0 = st.dnf
        for p in range(5):
            del self.nodes[n0:]
            del self.rs[rs0:]
            b = cur.fork()
            b.at = (head.id,)
            b.loops = base_loops + (entry,)
            b.dnf = TOP
            self.rdnf[-1] = set()
            self.emit(b, "iter", x, head=head.id, siter=None)
            backs, rets, brks, exits = [], [], [], []
            for a, f in [self.evc(x.test, b, x)]:
                exits += f
                if a:
                    o = self.block(x.body, self.merge(a))
                    backs += o["next"] + o["cont"]
                    rets += o["ret"]
                    brks += o["brk"]
            if not backs:
                break
            for z in backs:
                z.loops = base_loops
            j = self.join([cur.fork()] + backs)
            ch = self.changed(cur, j)
            if not ch:
                break
            cur2 = State(j.env, j.heap, j.facts, (head.id,), base_loops)
            cur2._hs = True
            if p >= 2:
                self.widen(cur, cur2, ch, x)
            cur = cur2
        self.rdnf.pop()
        self.carry(head, st, cur, backs or [])
        for z in backs:
            for a in z.at:
                if a not in head.preds:
                    head.preds.append(a)
        for s, _v in rets:
            s.dnf = dnf0
        for z in exits + brks:
            z.loops = base_loops
            z.dnf = dnf0
            self.emit(z, "endloop", x, head=head.id)
        out["next"] = self.merge(exits + brks)
        out["ret"] += rets
        return out

    # ---- try / with
    def prune_env(self, s):
        live = {f.fid for f in self.frames} | self.alive
        for k in [k for k in s.env if k[0] not in live]:
            del s.env[k]

    def join_raised(self, raised):
        g = {}
        for s, e in raised:
            self.prune_env(s)
            g.setdefault((self.exc_type(e), self.sig(s)), []).append((s, e))
        if len(g) > 3 * MAXP:
            g = {}
            for s, e in raised:
                g.setdefault(self.exc_type(e), []).append((s, e))
        return [(self.join([s for s, _ in l]), phi(*[e for _, e in l])) for l in g.values()]

    def st_Try(self, x, st):
        out = self.nxt([])
        outer = self.rs
        self.rs = []
        loops0 = st.loops
        o = self.block(x.body, [st])
        raised = self.join_raised(self.rs)
        pend = []                      # exceptions leaving the try statement (before finally)
        self.rs = pend
        norm = o["next"]
        if x.orelse and norm:
            oo = self.block(x.orelse, norm)
            norm = oo["next"]
            for k in ("ret", "brk", "cont"):
                o[k] += oo[k]
        hnext = []
        for s, e in raised:
            s.loops = loops0
            rem = s
            for h in x.handlers:
                if rem is None:
                    break
                names = self.handler_types(h, rem)
                res = False
                for et in {self.exc_type(a) for a in alts(e)}:
                    for hn in names:
                        m = exc_matches(et, hn)
                        if m is True:
                            res = True
                        elif m is None and res is False:
                            res = None
                if res is False:
                    continue
                hs = rem if res is True else rem.fork()
                if res is True:
                    rem = None
                self.emit(hs, "handler", h, exc=e, types=tuple(names))
                fid = self.frames[-1].fid
                hs.env[(fid, "$exc")] = e
                if h.name:
                    hs.env[(fid, h.name)] = e
                oh = self.block(h.body, [hs])
                for z in oh["next"]:
                    z.env.pop((fid, "$exc"), None)
                hnext += oh["next"]
                for k in ("ret", "brk", "cont"):
                    o[k] += oh[k]
            if rem is not None:
                pend.append((rem, e))
        allnext = self.merge(norm + hnext)
        self.rs = outer
        if not x.finalbody:
            out["next"] = allnext
            for k in ("ret", "brk", "cont"):
                out[k] += o[k]
            outer.extend(pend)
            return out
        # finally: once per kind of exit
        if allnext:
            f = self.block(x.finalbody, allnext)
            out["next"] += f["next"]
            for k in ("ret", "brk", "cont"):
                out[k] += f[k]
        for s, v in self.merge_vals(o["ret"]):
            f = self.block(x.finalbody, [s])
            out["ret"] += [(z, v) for z in f["next"]] + f["ret"]
            out["brk"] += f["brk"]
            out["cont"] += f["cont"]
        for k in ("brk", "cont"):
            if o[k]:
                f = self.block(x.finalbody, self.merge(o[k]))
                out[k] += f["next"]
                out["ret"] += f["ret"]
        for s, e in self.join_raised(pend):
            f = self.block(x.finalbody, [s])
            for z in f["next"]:
                self.rs.append((z, e))
            for k in ("ret", "brk", "cont"):
                out[k] += f[k]
        return out

    st_TryStar = st_Try

    def handler_types(self, h, st):
        if h.type is None:
            return ["BaseException"]
        out = []
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            v = self.ev(t, st)[0][1]
            for a in alts(v):
                if a.op in ("builtin", "ext", "class"):
                    out.append(a.args[0])
                elif a.op == "tuple":
                    out += [b.args[0] for b in a.args if b.op in ("builtin", "ext", "class")]
                else:
                    out.append("Exception")
        return out

    def st_With(self, x, st):
        return self._with(x, 0, st)

    st_AsyncWith = st_With

    def _with(self, x, i, st):
        if i == len(x.items):
            return self.block(x.body, [st])
        item = x.items[i]
        out = self.nxt([])
        if isinstance(item.context_expr, ast.Call):
            depth = len(self.frames)
            ended = {}

            def body(s, v):
                """run the with body at the yield of the context manager"""
                gen = self.frames[depth:]
                gfid = gen[-1].fid
                fids = {f.fid for f in gen} - self.alive
                self.frames = self.frames[:depth]
                self.alive |= fids
                unroll, self.unroll = self.unroll, ()
                sts = [s]
                if item.optional_vars is not None:
                    sts = self.assign(item.optional_vars, v, s, x)
                o = self.nxt([])
                for s3 in sts:
                    q = self._with(x, i + 1, s3)
                    for k in o:
                        o[k] += q[k]
                self.frames = self.frames + gen
                self.alive -= fids
                self.unroll = unroll
                res = []

                def tag(z, kind, val):
                    m = const(f"$cm{len(ended)}:{kind}")
                    for mm, kv in ended.items():
                        if kv == (kind, val):
                            m = mm
                    ended[m] = (kind, val)
                    z.env[(gfid, "$cm")] = m
                    res.append((z, NONE))
                for k in ("next", "brk", "cont"):
                    for z in self.merge(o[k]):
                        tag(z, k, None)
                for z, val in self.merge_vals(o["ret"]):
                    tag(z, "ret", val)
                return res
            self.cm_hooks[item.context_expr] = body
        for s, ctx in self.ev(item.context_expr, st):
            if isinstance(item.context_expr, ast.Call) and ctx in ended:
                kind, val = ended[ctx]
                out[kind].append((s, val) if kind == "ret" else s)
                continue
            for ctx1 in ([ctx] if ctx.op != "phi" or not any(self._clsnames(self.typeof(a, s)) for a in ctx.args) else list(ctx.args)):
                s1 = s if ctx1 is ctx else s.fork()
                repo = any(self.prog.classes[n].find("__enter__") for n in self._clsnames(self.typeof(ctx1, s1)))
                gen = ctx1.op == "obj" and ctx1.args[0] == "gen"
                if repo:
                    ents = self.call_method(s1, ctx1, "__enter__", [], {}, x)
                elif gen:
                    ents = [(s1, self.elem(s1, ctx1))]
                else:
                    n = self.emit(s1, "with_enter", x, ctx=ctx1)
                    s1 = self._maybe_raise(s1, n, x)
                    ents = [(s1, ctx1)]
                for s2, v in ents:
                    sts = [s2]
                    if item.optional_vars is not None:
                        sts = self.assign(item.optional_vars, v, s2, x)
                    for s3 in sts:
                        outer, self.rs = self.rs, []
                        o = self._with(x, i + 1, s3)
                        raised, self.rs = self.join_raised(self.rs), outer

                        def leave(z, e):
                            if repo:
                                a = [NONE, NONE, NONE] if e is None else [mk("op", "type", e), e, mk("ext", "traceback")]
                                return self.call_method(z, ctx1, "__exit__", a, {}, x)
                            n = self.emit(z, "with_exit", x, ctx=ctx1, exc=e)
                            z = self._maybe_raise(z, n, x)
                            return [(z, NONE)]
                        for z in o["next"]:
                            out["next"] += [q for q, _ in leave(z, None)]
                        for z, v2 in self.merge_vals(o["ret"]):
                            out["ret"] += [(q, v2) for q, _ in leave(z, None)]
                        for k in ("brk", "cont"):
                            for z in o[k]:
                                out[k] += [q for q, _ in leave(z, None)]
                        for z, e in raised:
                            for q, r in leave(z, e):
                                if is_const(r, True):
                                    out["next"].append(q)
                                else:
                                    self.rs.append((q, e))
        self.cm_hooks.pop(item.context_expr, None)
        out["next"] = self.merge(out["next"])
        return out

    def st_FunctionDef(self, x, st):
        c = self.closure(x)
        sts = [(st, c)]
        for d in reversed(x.decorator_list):
            nxt = []
            for s, v in sts:
                for s2, dv in self.ev(d, s):
                    if dv.op in ("func", "closure"):
                        nxt += self.call_value(s2, dv, [v], {}, x)
                    else:
                        nxt.append((s2, v))
            sts = nxt
        res = []
        for s, v in sts:
            self.bind(s, x.name, v)
            res.append(s)
        return self.nxt(res)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, x, st):
        self.bind(st, x.name, mk("ext", x.name))
        return self.nxt([st])

    # ================================================================= entry
    def run(self, fn: Fn, selfcls=None, params=None, types=None, setup=None, consts=None, selfT=None, after=None):
        """analyse fn as an entry point with symbolic parameters.

        -> Result(nodes, exits: [(state,value)], raises: [(state,exc)])
        """
        params = params or {}
        types = types or {}
        st = State()
        root = Fn(ast.parse("def entry(): pass").body[0], fn.module, None, "<entry>")
        fr0 = Frame(root, 0, (), None)
        self.frames = [fr0]
        self.entry = self.emit(st, "entry", fn.node, fn_name=fn.qual)
        static = "staticmethod" in fn.deco_names()
        pos = list(fn.pos)
        self_t = selfT
        if fn.cls is not None and fn.parent is None and not static:
            if self_t is None:
                self_t = mk("param", "self")
            cn = selfcls or fn.cls.name
            if self_t.op == "param":
                self.hints[self_t] = cn
                self.hints[("exact", self_t)] = True
                if self.cfg.wiring:
                    self.wire(self_t, cn, self.cfg.params.get("__init__"))
            pos = pos[1:]
        args, kwargs = [], {}
        self.P = {"self": self_t}
        for p in pos + fn.kwonly:
            if p in params:
                v = params[p]
                v = v if isinstance(v, T) else const(v)
            else:
                v = mk("param", p)
                ty = types.get(p) or self.prog.parse_type(fn.ann.get(p), fn.module)
                if ty is not None:
                    self.hints[v] = self._nonnull(ty)
            self.P[p] = v
            kwargs[p] = v
        extra = []
        if fn.vararg:
            v = params.get(fn.vararg, mk("param", fn.vararg))
            self.hints.setdefault(v, ("List", None))
            extra.append(("*", v))
            self.P[fn.vararg] = v
        if fn.kwarg:
            v = params.get(fn.kwarg, mk("param", fn.kwarg))
            self.hints.setdefault(v, ("Dict", "str", None))
            extra.append(("**", v))
            self.P[fn.kwarg] = v
        if extra and fn.vararg:
            args = [kwargs.pop(p) for p in pos]
        if setup:
            setup(self, st)
        self.rs = []
        txp = bool([d for d in fn.deco_names() if d in self.tx_funcs])
        if txp and "conn" in kwargs and "conn" not in params:
            kwargs.pop("conn")
        if txp and "conn" in params:
            pass
        res = self.call_fn(st, fn, self_t, args, kwargs, fn.node, extra)
        if after:
            # (what the entry returned or registered is then called itself)
            res = [x for s, v in res for x in after(self, s, v)]
        self.exits = res
        self.raises = self.rs
        ends = []
        for s, v in res:
            n = self.emit(s, "exit", fn.node, value=v)
            ends.append((n, s, v))
        rends = []
        for s, e in self.raises:
            n = self.emit(s, "raise_exit", fn.node, exc=e)
            rends.append((n, s, e))
        return Result(self, fn, ends, rends)


class Result:
    def __init__(self, it, fn, ends, rends):
        self.it, self.fn, self.ends, self.rends = it, fn, ends, rends
        self.nodes = it.nodes
        self.P = it.P
        self._succ = None
        # drop nodes that are not reachable from the entry (defensive)

    @property
    def succ(self):
        if self._succ is None:
            s = [[] for _ in self.nodes]
            for n in self.nodes:
                for p in n.preds:
                    s[p].append(n.id)
            self._succ = s
        return self._succ

    def find(self, kind=None, pred=None):
        return [n for n in self.nodes if (kind is None or n.kind == kind) and (pred is None or pred(n))]

    def reach(self, starts, avoid=(), forward=True):
        avoid = set(avoid)
        succ = self.succ
        seen, st = set(), [s for s in starts if s not in avoid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in (succ[x] if forward else self.nodes[x].preds):
                if y not in seen and y not in avoid:
                    st.append(y)
        return seen

    def path(self, starts, goals, avoid=()):
        """a shortest node path from a start to a goal that avoids `avoid`, or None"""
        from collections import deque
        avoid, goals = set(avoid), set(goals)
        prev, q = {}, deque()
        for s in starts:
            if s not in avoid:
                prev[s] = None
                q.append(s)
        while q:
            x = q.popleft()
            if x in goals:
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return [self.nodes[i] for i in reversed(out)]
            for y in self.succ[x]:
                if y not in prev and y not in avoid:
                    prev[y] = x
                    q.append(y)
        return None

    def dominated(self, n, by):
        """every flow from the entry to n passes one of `by`"""
        return self.path([self.it.entry.id], [n], avoid=set(by) - {n}) is None

    def always_after(self, n, by, ends=None):
        """every flow from n to a normal exit passes one of `by`; returns offending path or None"""
        e = ends if ends is not None else [x[0].id for x in self.ends]
        return self.path([n], e, avoid=set(by) - {n})

    def snap(self, node, t):
        return self.it.snap(node.heap, t)


def find_tx_decorators(prog):
    """decorator functions whose wrapper opens a database transaction"""
    out = set()
    for q, f in prog.functions.items():
        if f.cls is None and f.parent is None and any(isinstance(n, ast.FunctionDef) for n in f.body):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.strip().upper().startswith("BEGIN"):
                    out.add(f.name)
                    break
    return out
