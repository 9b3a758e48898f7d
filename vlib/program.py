"""Whole-program index of the analysed sources (stdlib ast only).

Modules, classes (with bases and MRO), functions, imports (star imports
followed), decorators, field types (from annotations and constructor
assignments).  Nothing of the repository is imported or executed.
"""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "mandala"


class AnchorError(Exception):
    """A construct the analysis is anchored on has vanished (exit 2)."""


class Fn:
    def __init__(self, node, module, cls, qual, parent=None):
        self.node, self.module, self.cls, self.qual, self.parent = node, module, cls, qual, parent
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = list(getattr(node, "decorator_list", []))
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.returns = getattr(node, "returns", None)
        body = node.body if isinstance(node.body, list) else [ast.Return(value=node.body, lineno=node.lineno, col_offset=node.col_offset)]
        self.body = body
        self.is_gen = False
        self.has_nested = False
        self.assigned = set()
        self.globals_decl = set()
        self.nonlocals = set()
        self._scan()

    def _scan(self):
        stack = list(self.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.has_nested = True
                self.assigned.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                self.has_nested = True
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals_decl.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.assigned.add(n.id)
            stack.extend(ast.iter_child_nodes(n))

    @property
    def params(self):
        return self.pos + self.kwonly

    def deco_names(self):
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d).split(".")[-1])
        return out

    def __repr__(self):
        return f"Fn({self.qual})"


class Cls:
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name
        self.bases = []
        self.methods: dict[str, Fn] = {}
        self.attrs: dict[str, ast.expr] = {}   # class level assignments
        self.field_ann: dict[str, ast.expr] = {}
        self.mro: list[Cls] = []
        self.sub: list[Cls] = []

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c
        return None

    def all_subs(self):
        out, st = [], [self]
        while st:
            c = st.pop()
            if c not in out:
                out.append(c)
                st.extend(c.sub)
        return out

    def __repr__(self):
        return f"Cls({self.name})"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env: dict[str, tuple] = {}      # name -> binding
        self.stars: list[str] = []


class Program:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.overlay = overlay or {}
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Cls] = {}
        self.functions: dict[str, Fn] = {}
        self.nested: dict[int, Fn] = {}       # id(ast node) -> Fn for nested defs/lambdas
        self._load()
        self._link()

    # ---------------------------------------------------------------- load
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnchorError(f"package directory {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = self.overlay.get(rel)
                if src is None:
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                tree = ast.parse(src, filename=rel)
                self.modules[name] = Module(name, rel, tree, src)

    def _rel(self, mod, level, target):
        if level == 0:
            return target
        m = self.modules[mod]
        parts = mod.split(".")
        is_pkg = m.path.endswith("__init__.py")
        drop = level - 1 if is_pkg else level
        base = parts[: len(parts) - drop]
        return ".".join(base + ([target] if target else []))

    def _link(self):
        for m in self.modules.values():
            self._top(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                n = ast.unparse(b)
                r = self.lookup_global(c.module, n)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].sub.append(c)
        for c in self.classes.values():
            c.mro = self._mro(c)
        self._fields()

    def _mro(self, c):
        out = [c]
        for b in c.bases:
            for x in self._mro(b):
                if x not in out:
                    out.append(x)
        return out

    def _top(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{m.name}.{n.name}"
                f = Fn(n, m.name, None, q)
                self.functions[q] = f
                m.env[n.name] = ("func", f)
                self._nested(f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(n, m.name, n.name)
                self.classes[n.name] = c
                m.env[n.name] = ("class", c)
                self._clsbody(m, c, n.body)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        prev = m.env.get(t.id)
                        m.env[t.id] = ("expr", n.value, prev)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = n.value.elts[i] if isinstance(n.value, ast.Tuple) else None
                                m.env[e.id] = ("expr", v, None) if v is not None else ("opaque", e.id)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.env[n.target.id] = ("expr", n.value, None)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.env[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                tgt = self._rel(m.name, n.level, n.module or "")
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(tgt)
                    else:
                        m.env[a.asname or a.name] = ("from", tgt, a.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for part in ("body", "orelse", "finalbody"):
                    self._top(m, getattr(n, part, []))
                for h in getattr(n, "handlers", []):
                    self._top(m, h.body)

    def _clsbody(self, m, c, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{m.name}.{c.name}.{n.name}"
                f = Fn(n, m.name, c, q)
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in n.decorator_list):
                    self.functions[q + ".setter"] = f
                    c.methods[n.name + ".setter"] = f
                else:
                    self.functions[q] = f
                    c.methods[n.name] = f
                self._nested(f)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.field_ann[n.target.id] = n.annotation
                if n.value is not None:
                    c.attrs[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                for part in ("body", "orelse", "finalbody"):
                    self._clsbody(m, c, getattr(n, part, []))
                for h in getattr(n, "handlers", []):
                    self._clsbody(m, c, h.body)

    def _nested(self, f):
        stack = list(f.body) + [d for d in f.defaults.values()]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                g = Fn(n, f.module, f.cls, f"{f.qual}.<locals>.{getattr(n, 'name', '<lambda>')}", parent=f)
                self.nested[id(n)] = g
                self.functions.setdefault(g.qual, g)
                self._nested(g)
                continue
            stack.extend(ast.iter_child_nodes(n))

    def nested_fn(self, node, f):
        g = self.nested.get(id(node))
        if g is None:
            g = Fn(node, f.module, f.cls, f"{f.qual}.<locals>.{getattr(node, 'name', '<lambda>')}", parent=f)
            self.nested[id(node)] = g
            self._nested(g)
        return g

    # ---------------------------------------------------------------- lookup
    def lookup_global(self, modname, name, _seen=None):
        """resolve a module level name to
        ('func',Fn) ('class',Cls) ('module',dotted) ('expr',node,modname,prev) ('ext',dotted) or None"""
        if "." in name:
            head, rest = name.split(".", 1)
            r = self.lookup_global(modname, head)
            if r and r[0] == "module":
                if r[1] in self.modules:
                    return self.lookup_global(r[1], rest)
                return ("ext", r[1] + "." + rest)
            return None
        seen = _seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        b = m.env.get(name)
        if b is not None:
            if b[0] in ("func", "class"):
                return b
            if b[0] == "module":
                return b
            if b[0] == "expr":
                return ("expr", b[1], modname, b[2])
            if b[0] == "opaque":
                return ("ext", f"{modname}.{name}")
            if b[0] == "from":
                tgt, nm = b[1], b[2]
                if tgt in self.modules:
                    sub = f"{tgt}.{nm}"
                    r = self.lookup_global(tgt, nm, seen)
                    if r:
                        return r
                    if sub in self.modules:
                        return ("module", sub)
                    return None
                if f"{tgt}.{nm}" in self.modules:
                    return ("module", f"{tgt}.{nm}")
                return ("ext", f"{tgt}.{nm}")
        for s in reversed(m.stars):
            if s in self.modules:
                if name.startswith("_") :
                    continue
                r = self.lookup_global(s, name, seen)
                if r:
                    return r
        return None

    def cls(self, name) -> Cls:
        c = self.classes.get(name)
        if c is None:
            raise AnchorError(f"class {name} not found in the sources")
        return c

    def method(self, cls, name) -> Fn:
        f = self.cls(cls).find(name)
        if f is None:
            raise AnchorError(f"method {cls}.{name} not found in the sources")
        return f

    def func(self, suffix) -> Fn:
        for q, f in self.functions.items():
            if q == suffix or q.endswith("." + suffix):
                return f
        raise AnchorError(f"function {suffix} not found in the sources")

    # ---------------------------------------------------------------- types
    def parse_type(self, node, modname):
        """annotation AST -> type: str class name | ('Dict',k,v) | ('List',t) | ('Set',t) | ('Tuple',t..)
        | ('Union',..) | 'str'.. | None"""
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.parse_type(ast.parse(node.value, mode="eval").body, modname)
                except SyntaxError:
                    return None
            if node.value is None:
                return "None"
            return None
        if isinstance(node, ast.Name):
            n = node.id
            if n in ("dict", "Dict"):
                return ("Dict", None, None)
            if n in ("list", "List"):
                return ("List", None)
            if n in ("set", "Set"):
                return ("Set", None)
            if n in ("tuple", "Tuple"):
                return ("Tuple",)
            if n in ("str", "int", "bool", "float", "bytes", "type"):
                return n
            r = self.lookup_global(modname, n)
            if r and r[0] == "class":
                return r[1].name
            if r and r[0] == "expr" and not isinstance(r[1], ast.Call):
                return self.parse_type(r[1], r[2])
            return None
        if isinstance(node, ast.Attribute):
            if node.attr == "DataFrame":
                return "DataFrame"
            if node.attr == "Connection":
                return "Connection"
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self._union([self.parse_type(node.left, modname), self.parse_type(node.right, modname)])
        if isinstance(node, ast.Subscript):
            h = node.value.attr if isinstance(node.value, ast.Attribute) else getattr(node.value, "id", None)
            sl = node.slice
            el = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h in ("Optional",):
                return self._union([self.parse_type(el[0], modname), "None"])
            if h in ("Union",):
                return self._union([self.parse_type(e, modname) for e in el])
            if h in ("Dict", "dict", "OrderedDict", "defaultdict", "Mapping", "MDict"):
                if len(el) == 2:
                    return ("Dict", self.parse_type(el[0], modname), self.parse_type(el[1], modname))
                return ("Dict", None, None)
            if h in ("List", "list", "Iterable", "Sequence", "Iterator", "MList"):
                return ("List", self.parse_type(el[0], modname))
            if h in ("Set", "set", "FrozenSet", "frozenset"):
                return ("Set", self.parse_type(el[0], modname))
            if h in ("Tuple", "tuple"):
                if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis:
                    return ("List", self.parse_type(el[0], modname))
                return ("Tuple",) + tuple(self.parse_type(e, modname) for e in el)
            return None
        return None

    @staticmethod
    def _union(ts):
        ts = [t for t in ts if t is not None]
        u = []
        for t in ts:
            for x in (t[1:] if isinstance(t, tuple) and t and t[0] == "Union" else (t,)):
                if x not in u:
                    u.append(x)
        if not u:
            return None
        if len(u) == 1:
            return u[0]
        return ("Union",) + tuple(u)

    # ---------------------------------------------------------------- fields
    def _fields(self):
        """field types and which fields are assigned only by the constructor"""
        self.field_type: dict[tuple, object] = {}
        self.assigned_outside: set[str] = set()    # attribute names stored outside __init__ of self
        for q, f in list(self.functions.items()):
            init = f.cls is not None and f.name == "__init__" and f.parent is None
            selfn = f.pos[0] if (f.cls is not None and f.pos) else None
            for n in ast.walk(f.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign):
                    tg = [(n.target, n.value)]
                elif isinstance(n, ast.AugAssign):
                    tg = [(n.target, None)]
                for t, v in tg:
                    for pos, e in enumerate(t.elts if isinstance(t, ast.Tuple) else [t]):
                        if not isinstance(e, ast.Attribute):
                            continue
                        own = isinstance(e.value, ast.Name) and e.value.id == selfn
                        if not (own and init):
                            self.assigned_outside.add(e.attr)
                        if own and f.cls is not None:
                            ty = None
                            if isinstance(n, ast.AnnAssign):
                                ty = self.parse_type(n.annotation, f.module)
                            if ty is None and v is not None and e is t:
                                ty = self._call_type(v, f) if isinstance(v, ast.Call) else self._expr_type(v, f)
                            elif ty is None and isinstance(v, ast.Call):
                                ty = self._call_type(v, f)
                                ty = ty[pos + 1] if isinstance(ty, tuple) and ty and ty[0] == "Tuple" and len(ty) > pos + 1 else None
                            elif ty is None and isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts):
                                ty = self._expr_type(v.elts[pos], f)
                            k = (f.cls.name, e.attr)
                            if ty is not None:
                                old = self.field_type.get(k)
                                self.field_type[k] = ty if old is None else self._union([old, ty])
        for c in self.classes.values():
            for a, ann in c.field_ann.items():
                ty = self.parse_type(ann, c.module)
                if ty is not None:
                    self.field_type.setdefault((c.name, a), ty)

    def _expr_type(self, v, f):
        if isinstance(v, ast.Constant) and v.value is None:
            return "None"
        if isinstance(v, ast.Name) and v.id in f.ann:
            return self.parse_type(f.ann[v.id], f.module)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            r = self.lookup_global(f.module, v.func.id)
            if r and r[0] == "class":
                return r[1].name
            if r and r[0] == "func":
                return self.parse_type(r[1].returns, r[1].module)
            if v.func.id in ("set", "dict", "list"):
                return {"set": ("Set", None), "dict": ("Dict", None, None), "list": ("List", None)}[v.func.id]
        if isinstance(v, ast.IfExp):
            return self._union([self._expr_type(v.body, f), self._expr_type(v.orelse, f)])
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return ("Dict", None, None)
        if isinstance(v, (ast.List, ast.ListComp)):
            return ("List", None)
        if isinstance(v, (ast.Set, ast.SetComp)):
            return ("Set", None)
        # a local variable holding an annotated result: search assignments in the same function
        if isinstance(v, ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t = n.targets[0]
                    if isinstance(t, ast.Name) and t.id == v.id and isinstance(n.value, ast.Call):
                        return self._call_type(n.value, f)
                    if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name) and e.id == v.id:
                                ty = self._call_type(n.value, f)
                                if isinstance(ty, tuple) and ty and ty[0] == "Tuple" and len(ty) > i + 1:
                                    return ty[i + 1]
        return None

    def _call_type(self, call, f):
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.pos and fn.value.id == f.pos[0]:
            m = f.cls.find(fn.attr) if f.cls.mro else f.cls.methods.get(fn.attr)
            if m is not None:
                return self.parse_type(m.returns, m.module)
        return self._expr_type(call, f)

    def field_ty(self, clsname, attr):
        c = self.classes.get(clsname)
        if c is None:
            return None
        for k in c.mro:
            t = self.field_type.get((k.name, attr))
            if t is not None:
                return t
        return None
