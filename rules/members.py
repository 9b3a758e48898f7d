"""Membership conditions: when an element is in a collection built from the containers of computation frames.

A collection term of the event graph (comprehensions, set operations, filled dictionaries) is turned into a propositional
formula over atoms "x in base[k]" with bound variables for what is only iterated; two formulas are compared by truth table under
the index invariants of a frame (C24)."""
from itertools import permutations, product
from .cfs import *

T_, F_ = ("t",), ("f",)
COPIES = {".keys", ".items", "set", "list", "tuple", "frozenset", "sorted", "dict", "iter", "reversed", ".copy", "copy.copy", "copy.deepcopy", "deepcopy"}
UNIONS = {".union", "get_nullable_union", "mandala.utils.get_nullable_union"}
INTERS = {".intersection", "get_nullable_intersection", "mandala.utils.get_nullable_intersection"}


def AND(*fs):
    fs = [y for f in fs for y in (f[1:] if f[0] == "and" else (f,))]
    fs = [f for f in fs if f != T_]
    if any(f == F_ for f in fs):
        return F_
    return T_ if not fs else fs[0] if len(fs) == 1 else ("and",) + tuple(fs)


def OR(*fs):
    fs = [f for f in fs if f != F_]
    if any(f == T_ for f in fs):
        return T_
    return F_ if not fs else fs[0] if len(fs) == 1 else ("or",) + tuple(fs)


def NOT(f):
    return F_ if f == T_ else T_ if f == F_ else f[1] if f[0] == "not" else ("not", f)


def var(i):
    return mk("param", f"?{i}")


def sym(name):
    return mk("param", f"${name}")


class Members:
    """membership in the terms of run r at state st; same: terms that stand for frames with the content of another"""

    def __init__(self, r, st, same=()):
        self.r, self.st = r, st
        self.same = dict(same)
        self._deep = {}

    # ------------------------------------------------------------------ terms
    def deep(self, t):
        """t with its allocated containers written out, in conditions too"""
        if t in self._deep:
            return self._deep[t]
        self._deep[t] = t
        s = self.r.it.snap(self.st, t) if t.op == "obj" else t
        s = self.same.get(s, s)

        def go(a):
            if isinstance(a, T):
                return self.deep(a)
            if isinstance(a, tuple):
                return tuple(go(b) for b in a)
            if isinstance(a, frozenset):
                return frozenset(go(b) for b in a)
            return a
        if s.op not in ("const", "param", "func", "class", "builtin", "module", "bound", "closure", "unk"):
            na = tuple(go(a) for a in s.args)
            s = phi(*na) if s.op == "phi" else mk(s.op, *na)
        s = self.same.get(s, s)
        self._deep[t] = s
        return s

    def mem(self, t, x, d=0):
        """x is an element (a key) of t"""
        o = t.op
        if d > 12:
            return self.atom(x, t)
        if x.op == "call" and x.args[0] == ".get" and len(cargs(x)) == 2:
            m, k = cargs(x)
            return AND(self.mem(m, k, d), self.mem(t, mk("sub", m, k), d))     # None is no element
        if o == "const":
            return F_
        if o == "op" and t.args[0] in ("bitor", "bitand", "sub", "bitxor", "add") and len(t.args) == 3:
            a, b = self.mem(t.args[1], x, d), self.mem(t.args[2], x, d)
            return {"bitor": lambda: OR(a, b), "add": lambda: OR(a, b), "bitand": lambda: AND(a, b), "sub": lambda: AND(a, NOT(b)),
                    "bitxor": lambda: OR(AND(a, NOT(b)), AND(b, NOT(a)))}[t.args[0]]()
        if o == "call":
            n, a = t.args[0], [z for z in cargs(t)]
            if n in COPIES and len(a) <= 1:
                return self.mem(a[0], x, d) if a else F_
            if n == ".get" and len(a) >= 2:
                k = self.mem(a[0], a[1], d)
                w = self.mem(self.at1(a[0], a[1]), x, d)
                return OR(AND(k, w), AND(NOT(k), self.mem(a[2], x, d)) if len(a) > 2 else F_)
            if n in UNIONS:
                return OR(*[self.arg(z, x, d) for z in a])
            if n in INTERS and not any(z.op == "star" for z in a):
                return AND(*[self.mem(z, x, d) for z in a])
            if n == ".difference" and len(a) == 2:
                return AND(self.mem(a[0], x, d), NOT(self.mem(a[1], x, d)))
        if o == "phi":
            return self.phi(t, x, d)
        if o == "sub" and t.args[0].op == "sub" and self.adj(t.args[0].args[0]):
            # the edges given as tuples, looked up by node and label
            E, j, sup = self.adj(t.args[0].args[0])
            n, l = t.args[0].args[1], t.args[1]
            return self.mem(E, mk("tuple", *((n, x, l) if j == 0 else (x, n, l))), d)
        if self.adj(t):
            E, j, sup = self.adj(t)
            return self.mem(sup, x, d) if sup is not None else self.atom(x, t)
        if o == "sub":
            return OR(*[EXS(d, n, AND(g, self.mem(v, x, d + n))) if v is not t else self.atom(x, t) for g, v, n in self.open(t.args[0], t.args[1], d)])
        if o == "items":
            isd = t.args[0] == "dict"
            return OR(*[self.item(i, i.args[0] if isd and i.args[0] is not None else i.args[1], x, d)[0] for i in t.args[1:]])
        if o == "builtin":
            return F_
        return self.atom(x, t)

    def adj(self, t):
        """t is one of the two adjacencies made from edges: (edges, which, nodes)"""
        if t.op == "sub" and t.args[0].op == "call" and t.args[0].args[0].rsplit(".", 1)[-1] == "get_adj_from_edges" and t.args[1].op == "const":
            c = t.args[0]
            pos = [a for a in c.args[1:] if isinstance(a, T) and a.op != "kw"]
            kw = {a.args[0]: a.args[1] for a in c.args[1:] if isinstance(a, T) and a.op == "kw"}
            E = pos[0] if pos else kw.get("edges")
            sup = pos[1] if len(pos) > 1 else kw.get("node_support")
            return (E, t.args[1].args[0], sup) if E is not None else None
        return None

    def phi(self, t, x, d):
        full = [a for a in t.args if not (a.op == "items" and len(a.args) == 1 or a.op == "call" and a.args[0] in COPIES and not cargs(a))]
        if len(full) == 1:
            return self.mem(full[0], x, d)
        # looked up in the joined dictionary of variables and functions: no node is both
        uses = [{(u.args[0].args[0], u.args[1]): u.args[0].args[1] for u in subterms(a) if u.op == "sub" and u.args[0].op == "attr" and u.args[0].args[1] in ("vs", "fs")}
                for a in full]
        for p in uses[0] if uses else ():
            if all(p in u for u in uses) and len({u[p] for u in uses}) == len(full):
                return OR(*[AND(("a", mk("op", "in", p[1], mk("attr", p[0], u[p]))), self.mem(a, x, d)) for a, u in zip(full, uses)])
        return ("a", mk("op", "maybe", x, t))

    def arg(self, z, x, d):
        """x is in the argument z of a union"""
        if z.op != "star":
            return self.mem(z, x, d)
        z = z.args[0]
        return self.some(z, x, d)

    def some(self, z, x, d):
        """x is in an element of z"""
        if z.op == "call" and z.args[0] in COPIES - {".keys"} and len(cargs(z)) == 1:
            return self.some(cargs(z)[0], x, d)
        if z.op == "phi" and all(a.op == "items" and len(a.args) == 1 for a in z.args[1:]):
            return self.some(z.args[0], x, d)
        if z.op == "tuple":
            return OR(*[self.mem(a, x, d) for a in z.args])
        if z.op == "call" and z.args[0] == ".values" and len(cargs(z)) == 1:
            y = var(d)
            return EX(d, OR(*[AND(g, self.mem(v, x, d + 1)) for g, v in self.at(cargs(z)[0], y, d + 1)]))
        if z.op == "items":
            out = []
            for i in z.args[1:]:
                f, m = self.item(i, None, None, d)
                n = self.vars_of(i)
                out.append(EXS(d, n, AND(f, self.mem(subst(i.args[1], m), x, d + n))))
            return OR(*out)
        y = var(d)
        return EX(d, AND(self.mem(z, y, d + 1), self.mem(y, x, d + 1)))

    def at1(self, m, k):
        a = self.at(m, k, 0)
        return a[0][1] if len(a) == 1 else mk("sub", m, k)

    def at(self, m, k, d):
        """m[k]: alternatives (condition, value)"""
        return [(EXS(d, n, g), v) for g, v, n in self.open(m, k, d)]

    def open(self, m, k, d):
        """m[k]: alternatives (condition, value, n), where condition and value speak of n variables from ?d on"""
        if m.op == "call" and m.args[0] in COPIES and len(cargs(m)) == 1:
            return self.open(cargs(m)[0], k, d)
        if m.op == "items" and m.args[0] == "dict":
            out = []
            for j, i in enumerate(m.args[1:], 2):
                f, mp, n = self.instance(i, i.args[0], k, d)
                # what is put in as a whole later replaces it
                for o in m.args[j:]:
                    s = o.args[2][0] if len(o.args[2]) == 1 and not o.args[3] else None
                    if s is not None and o.args[0] is mk("key", s) and o.args[1] is mk("val", s):
                        f = AND(f, NOT(self.mem(s, k, d + n)))
                if f != F_:
                    out.append((f, subst(i.args[1], mp), n))
            return out
        if m.op == "phi":
            full = [a for a in m.args if not (a.op == "items" and len(a.args) == 1)]
            if len(full) == 1:
                return self.open(full[0], k, d)
        if m.op == "call" and m.args[0] == ".get" and len(cargs(m)) in (2, 3):
            b, key, *dflt = cargs(m)
            c = self.mem(b, key, d)
            ws = [(AND(c, g), v, n) for g, v, n in self.open(b, key, d)]
            ws = [(AND(g, h), v, n + j) for g, w, n in ws for h, v, j in self.open(w, k, d + n)]
            return ws + [(AND(NOT(c), h), v, n) for w in dflt for h, v, n in self.open(w, k, d)]
        if m.op == "sub":
            ws = self.open(m.args[0], m.args[1], d)
            if any(w is not m for _, w, _n in ws):
                return [(AND(g, h), v, n + j) for g, w, n in ws for h, v, j in (self.open(w, k, d + n) if w is not m else [(T_, mk("sub", m, k), 0)])]
        return [(self.mem(m, k, d) if m.op in ("attr", "param") else T_, mk("sub", m, k), 0)]

    # ------------------------------------------------------------------ iterations
    def sources(self, its, alt=0):
        """(bases, conditions) the iterations come down to"""
        bs, gs = [], []
        for b in its:
            while b.op == "call" and b.args[0] in COPIES | {".values"} and len(cargs(b)) == 1:
                b = cargs(b)[0]
            if b.op == "items" and len(b.args) == 2:
                k, v, jt, g = b.args[1].args
                b2, g2 = self.sources(jt)
                bs += b2
                gs += g2 + list(g)
            elif b.op == "phi" and len([a for a in b.args if not (a.op == "items" and len(a.args) == 1)]) == 1:
                b2, g2 = self.sources([a for a in b.args if not (a.op == "items" and len(a.args) == 1)])
                bs += b2
                gs += g2
            else:
                bs.append(b)
        return bs, gs

    def vars_of(self, i):
        return len(self.sources(i.args[2])[0])

    def parts(self, b):
        while b.op == "call" and b.args[0] in COPIES | {".values"} and len(cargs(b)) == 1:
            b = cargs(b)[0]
        if b.op == "op" and b.args[0] in ("bitor", "bitand", "sub", "bitxor"):
            return self.parts(b.args[1]) + self.parts(b.args[2])
        if b.op == "phi":
            return [p for a in b.args for p in self.parts(a)]
        if b.op == "items" and len(b.args) > 2 and all(len(i.args[2]) == 1 for i in b.args[1:]):
            # several collections put together
            ss = [i.args[2][0] for i in b.args[1:]]
            if all((i.args[0] is mk("key", s) and i.args[1] is mk("val", s)) if b.args[0] == "dict" else i.args[1] in (mk("elem", s), mk("key", s))
                   for i, s in zip(b.args[1:], ss)):
                return [p for s in ss for p in self.parts(s)]
        return [b]

    def item(self, i, target, x, d):
        """(condition under which an instance of item i has the target x, substitution for the iterated variables)"""
        f, m, n = self.instance(i, target, x, d)
        return (EXS(d, n, f) if target is not None else f), m

    def instance(self, i, target, x, d):
        """like item, with the condition open: it speaks of n variables from ?d on"""
        k, v, its, g = i.args
        bs, gs = self.sources(its)
        gs = gs + list(g)
        names = []
        n = d
        fixed = {}
        xs = x.args if x is not None and x.op == "tuple" else (x,)
        ts = target.args if target is not None and target.op == "tuple" and x is not None and x.op == "tuple" else (target,)
        rest = []
        al = [self.aliases(b) for b in bs]
        for tt, xx in zip(ts, xs):
            if tt is None:
                continue
            for j, a in enumerate(al):
                if tt in a and j not in fixed:
                    fixed[j] = xx
                    break
            else:
                rest.append((tt, xx))
        m, conds = {}, []
        free = 0
        for j, b in enumerate(bs):
            if j in fixed:
                y = fixed[j]
            else:
                y = var(d + free)
                free += 1
            names.append(y)
        for b, y, a in zip(bs, names, al):
            conds.append(self.mem(subst(b, m), y, d + free))
            for z in a:
                m[z] = y
            for p in self.parts(b):
                m[mk("val", p)] = mk("sub", subst(p, m), y)
        for tt, xx in rest:
            w = subst(tt, m)
            if w is not xx:
                if w.op == "const" and xx.op == "const":
                    return F_, m, 0
                conds.append(("a", mk("op", "same", *sorted((w, xx), key=lambda z: z.uid))))
        for c, p in gs:
            f = self.form(subst(c, m), d + free)
            conds.append(f if p else NOT(f))
        return AND(*conds), m, free

    def aliases(self, b):
        out = set()
        for p in self.parts(b):
            out |= {mk("key", p), mk("elem", p)}
        out.add(phi(*[mk("key", p) for p in self.parts(b)]))
        out.add(phi(*[mk("elem", p) for p in self.parts(b)]))
        try:
            out.add(self.deep(self.r.it.elem(self.st, b)))
        except Exception:
            pass
        return out

    # ------------------------------------------------------------------ conditions
    def form(self, c, d):
        if c.op == "const":
            return T_ if c.args[0] else F_
        if c.op != "op":
            return ("a", c)
        o = c.args[0]
        if o == "not":
            return NOT(self.form(c.args[1], d))
        if o in ("and", "or"):
            return (AND if o == "and" else OR)(*[self.form(a, d) for a in c.args[1:]])
        if o == "in":
            return self.mem(c.args[2], c.args[1], d)
        if o == "truth":
            return self.nonempty(c.args[1], d)
        if o == "isnone":
            t = c.args[1]
            if t.op == "items" or t.op == "op":
                return F_
            if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] in FIELDS:
                return F_
            if t.op == "call" and t.args[0] == ".get" and len(cargs(t)) == 2:
                return NOT(self.mem(cargs(t)[0], cargs(t)[1], d))
        if o in ("any", "all") and len(c.args) == 2 and c.args[1].op == "items":
            out = []
            for i in c.args[1].args[1:]:
                f, m = self.item(i, None, None, d)
                n = self.vars_of(i)
                g = self.form(subst(i.args[1], m), d + n)
                out.append(EXS(d, n, AND(f, g if o == "any" else NOT(g))))
            return OR(*out) if o == "any" else NOT(OR(*out))
        s = size_cond(c, lambda t: True)
        if s in ("0", ">0"):
            t = next(a for a in c.args[1:] if a.op == "call")
            f = self.nonempty(cargs(t)[0], d)
            return f if s == ">0" else NOT(f)
        if o == "eq" and c.args[1] is c.args[2]:
            return T_
        return ("a", c)

    def nonempty(self, t, d):
        return EX(d, self.mem(t, var(d), d + 1))

    def atom(self, x, t):
        """x in t, with the indexes of a frame expressed by the sets of its nodes"""
        if t.op == "attr":
            S, f = t.args[0], t.args[1]
            if f == "refinv":
                return ("a", mk("op", "in", x, mk("attr", S, "refs")))
            if f == "callinv":
                return ("a", mk("op", "in", x, mk("attr", S, "calls")))
            if f in ("inp", "out"):
                return OR(("a", mk("op", "in", x, mk("attr", S, "vs"))), ("a", mk("op", "in", x, mk("attr", S, "fs"))))
        if t.op == "sub" and t.args[0].op == "attr":
            S, f, k = t.args[0].args[0], t.args[0].args[1], t.args[1]
            if f == "refinv":
                return ("a", mk("op", "in", k, mk("sub", mk("attr", S, "vs"), x)))
            if f == "callinv":
                return ("a", mk("op", "in", k, mk("sub", mk("attr", S, "fs"), x)))
        if t.op == "sub" and t.args[0].op == "sub" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == "inp":
            S, n, l = t.args[0].args[0].args[0], t.args[0].args[1], t.args[1]
            return ("a", mk("op", "in", n, mk("sub", mk("sub", mk("attr", S, "out"), x), l)))
        return ("a", mk("op", "in", x, t))


def EX(d, f):
    return f if f in (T_, F_) else lift(("ex", d, f))


def EXS(d, n, f):
    for i in reversed(range(n)):
        f = EX(d + i, f)
    return f


def point(d, b):
    """the body of 'some ?d: b' with ?d put in where b says what it is; None when it does not"""
    v = var(d)
    if b[0] == "a":
        parts = [b]
    elif b[0] == "and":
        parts = list(b[1:])
    else:
        return None
    for i, x in enumerate(parts):
        if x[0] == "a" and x[1].op == "op" and x[1].args[0] in ("eq", "same"):
            p, q = x[1].args[1:]
            for a, c in ((p, q), (q, p)):
                if a is v and v not in set(subterms(c, guards=True)):
                    return AND(*[put(y, v, c) for j, y in enumerate(parts) if j != i])
    return None


def lift(f):
    """conjuncts that do not speak of the bound variable leave the quantifier; a disjunction is quantified disjunct by disjunct"""
    _, d, b = f
    v = var(d)
    if b[0] == "or":
        return OR(*[lift(("ex", d, x)) if mentions(x, v) else x for x in b[1:]])
    w = point(d, b)
    if w is not None:
        return w
    if b[0] == "and":
        flat = [y for x in b[1:] for y in (x[1:] if x[0] == "and" else (x,))]
        if len(flat) > len(b) - 1:
            return lift(("ex", d, AND(*flat)))
        for i, x in enumerate(b[1:]):
            if x[0] == "ex" and any(y[0] == "a" and y[1].op == "op" and y[1].args[0] in ("eq", "same") and mentions(y, v) for y in necessary(x[2])):
                # ?d is fixed inside: go in
                return EX(x[1], lift(("ex", d, AND(*[y for j, y in enumerate(b[1:]) if j != i], x[2]))))
        out = [x for x in b[1:] if not mentions(x, v)]
        ins = [x for x in b[1:] if mentions(x, v)]
        if out:
            return AND(*out, lift(("ex", d, AND(*ins)))) if ins else AND(*out)
    return f if mentions(b, v) else b


def mentions(f, v):
    if f[0] == "a":
        return v in set(subterms(f[1], guards=True))
    if f[0] == "ex":
        return mentions(f[2], v)
    return any(mentions(x, v) for x in f[1:] if isinstance(x, tuple))


# ------------------------------------------------------------------------- comparison
def atoms(f, out=None):
    out = [] if out is None else out
    if f[0] in ("a", "ex"):
        if f not in out:
            out.append(f)
    else:
        for x in f[1:]:
            atoms(x, out)
    return out


def value(f, env):
    o = f[0]
    if o == "t":
        return True
    if o == "f":
        return False
    if o in ("a", "ex"):
        return env[f]
    if o == "not":
        return not value(f[1], env)
    return all(value(x, env) for x in f[1:]) if o == "and" else any(value(x, env) for x in f[1:])


def implied_by(a):
    """conditions of the same frame that follow from atom a"""
    out = []
    if a[0] == "ex":
        for b in necessary(a[2]):
            for c in [b] + implied_by(b):
                if not mentions(c, var(a[1])):
                    out.append(c)
        return out
    t = a[1]
    if t.op != "op" or t.args[0] != "in":
        return out
    x, m = t.args[1], t.args[2]
    inn = lambda y, c: ("a", mk("op", "in", y, c))
    if m.op == "sub":
        if m.args[0].op == "sub" and m.args[0].args[0].op == "attr":
            S = m.args[0].args[0].args[0]
            out.append(inn(m.args[1], m.args[0]))
        out.append(inn(m.args[1], m.args[0]))
        if m.args[0].op == "attr":
            S, f = m.args[0].args
            if f == "vs":
                out.append(inn(x, mk("attr", S, "refs")))
            if f == "fs":
                out.append(inn(x, mk("attr", S, "calls")))
            if f == "consumers":
                out += [inn(x, mk("attr", S, "calls"))]
    if m.op == "attr":
        S, f = m.args
        if f in ("creator", "consumers"):
            out.append(inn(x, mk("attr", S, "refs")))
        if f == "creator":
            out.append(inn(mk("sub", m, x), mk("attr", S, "calls")))
    more = []
    for b in out:
        if b != a:
            more += implied_by(b)
    return out + more


def edges_in(a):
    """the edge (frame, from, label, to) atom a says there is"""
    if a[0] == "a":
        t = a[1]
        if t.op == "op" and t.args[0] == "in":
            x, m = t.args[1], t.args[2]
            if m.op == "sub" and m.args[0].op == "sub" and m.args[0].args[0].op == "attr" and m.args[0].args[0].args[1] == "out":
                yield m.args[0].args[0].args[0], m.args[0].args[1], m.args[1], x


def edges_known(a):
    """the edges there must be when a holds, as far as they are named outside a"""
    if a[0] == "ex":
        for b in necessary(a[2]):
            for S, s, l, d in edges_known(b):
                z = var(a[1])
                w = [None if x is z else x for x in (s, l, d)]
                if any(x is not None for x in w):
                    yield (S, *w)
    else:
        yield from edges_in(a)


def necessary(f):
    """atoms that hold whenever f does"""
    if f[0] in ("a", "ex"):
        return [f]
    if f[0] == "and":
        return [b for x in f[1:] for b in necessary(x)]
    if f[0] == "or":
        sets = [necessary(x) for x in f[1:]]
        return [b for b in sets[0] if all(b in s for s in sets[1:])]
    return []


def exclusive(a, b):
    """a and b cannot both hold: no name is a variable and a function"""
    if a[0] != "a" or b[0] != "a":
        return False
    p, q = a[1], b[1]
    if not all(t.op == "op" and t.args[0] == "in" and t.args[2].op == "attr" for t in (p, q)) or p.args[1] is not q.args[1]:
        return False
    S, R = p.args[2].args, q.args[2].args
    return S[0] is R[0] and {S[1], R[1]} == {"vs", "fs"}


def put(f, a, b):
    if f[0] == "a":
        return ("a", subst(f[1], {a: b}))
    if f[0] == "ex":
        return ("ex", f[1], put(f[2], a, b))
    return (f[0],) + tuple(put(x, a, b) if isinstance(x, tuple) else x for x in f[1:])


def alpha(f, n=50):
    """f with its bound variables numbered from outside in"""
    if f[0] == "ex":
        return ("ex", n, alpha(put(f[2], var(f[1]), var(n)), n + 1))
    if f[0] in ("and", "or", "not"):
        return (f[0],) + tuple(alpha(x, n) for x in f[1:])
    return f


def prenex(f):
    """(variables, body) of nested existential quantifiers"""
    vs = []
    while f[0] == "ex":
        vs.append(f[1])
        f = f[2]
        ps = list(f[1:]) if f[0] == "and" else [f]
        i = next((i for i, x in enumerate(ps) if x[0] == "ex"), None)
        if i is not None:
            inner = alpha(ps[i], max(vs + [z for x in ps for z in bound(x)]) + 1) if ps[i][1] in vs else ps[i]
            f = ("ex", inner[1], AND(*[x for j, x in enumerate(ps) if j != i], inner[2]))
    return vs, f


def bound(f):
    if f[0] == "ex":
        return [f[1]] + bound(f[2])
    return [z for x in f[1:] if isinstance(x, tuple) for z in bound(x)] if f[0] in ("and", "or", "not") else []


def same_ex(f, g):
    """the two existential conditions are the same up to the names and the order of their variables"""
    vf, a = prenex(f)
    vg, b = prenex(g)
    if len(vf) != len(vg) or len(vf) > 4:
        return False
    new = [100 + i for i in range(len(vf))]
    for v, n in zip(vf, new):
        a = put(a, var(v), var(n))
    for p in permutations(new):
        c = b
        for v, n in zip(vg, p):
            c = put(c, var(v), var(n))
        if equiv(a, c):
            return True
    return False


def rename_ex(f, reps):
    """ex-atoms replaced by their representatives"""
    if f[0] == "ex":
        for r in reps:
            if r == f or same_ex(r, f):
                return r
        reps.append(f)
        return f
    if f[0] in ("and", "or", "not"):
        return (f[0],) + tuple(rename_ex(x, reps) for x in f[1:])
    return f


def equiv(f, g):
    return implies(f, g, both=True)


def fixed(f, a, v):
    """f with the atom a (of no bound variable) decided, inside quantifiers too"""
    if f == a:
        return T_ if v else F_
    if f[0] in ("t", "f", "a"):
        return f
    if f[0] == "ex":
        return EX(f[1], fixed(f[2], a, v))
    return {"and": AND, "or": OR, "not": NOT}[f[0]](*[fixed(x, a, v) for x in f[1:]])


def open_choices(f, inside=False):
    """decisions of an iteration that are not known, inside quantifiers"""
    if f[0] == "a":
        return [f] if inside and f[1].op == "op" and f[1].args[0] == "widened" or f[1].op == "op" and f[1].args[0] == "eq" and f[1].args[1] is f[1].args[2] else []
    if f[0] in ("t", "f"):
        return []
    return [y for x in (f[2:] if f[0] == "ex" else f[1:]) for y in open_choices(x, inside or f[0] == "ex")]


def implies(f, g, both=False):
    """f implies g (and g implies f) under the invariants of a frame"""
    for a in (open_choices(f) + open_choices(g))[:1]:
        return all(implies(fixed(f, a, v), fixed(g, a, v), both) for v in ((True, False) if a[1].args[0] == "widened" else (True,)))
    reps = []
    f, g = rename_ex(alpha(f), reps), rename_ex(alpha(g), reps)
    at = atoms(f)
    atoms(g, at)
    if len(at) > 14:
        return f == g
    idx = {a: i for i, a in enumerate(at)}
    imp = []
    for a in at:
        for b in implied_by(a):
            if b in idx and b != a:
                imp.append((idx[a], idx[b]))
    conj = lambda e, v: {put(x, var(e[1]), v) for x in (e[2][1:] if e[2][0] == "and" else (e[2],))}
    for a in at:
        for b in at:
            if a is not b and a[0] == b[0] == "ex" and conj(b, var("x")) <= conj(a, var("x")):
                imp.append((idx[a], idx[b]))   # what is so of one that also ... is so of one
    ends = []
    for a in at:
        for S, s, l, d in edges_known(a):
            inn = lambda y, c: ("a", mk("op", "in", y, c))
            for e, z in ((s, "out"), (d, "inp")):
                if l is not None and e is not None and inn(l, mk("sub", mk("attr", S, z), e)) in idx:
                    imp.append((idx[a], idx[inn(l, mk("sub", mk("attr", S, z), e))]))
            for y in (s, d):
                if y is None:
                    continue
                either = [idx[q] for q in (inn(y, mk("attr", S, "vs")), inn(y, mk("attr", S, "fs"))) if q in idx]
                if len(either) == 2:
                    ends.append((idx[a], either))
    exc = [(i, j) for i in range(len(at)) for j in range(i) if exclusive(at[i], at[j])]
    for row in product((False, True), repeat=len(at)):
        if any(row[i] and not row[j] for i, j in imp) or any(row[i] and row[j] for i, j in exc):
            continue
        if any(row[i] and not any(row[j] for j in js) for i, js in ends):
            continue
        env = {a: v for a, v in zip(at, row)}
        u, v = value(f, env), value(g, env)
        if u != v if both else u and not v:
            return False
    return True


def showf(f):
    if f[0] == "a":
        return show(f[1], 6)
    if f[0] == "ex":
        return f"some ?{f[1]}: ({showf(f[2])})"
    if f[0] in ("t", "f"):
        return {"t": "always", "f": "never"}[f[0]]
    if f[0] == "not":
        return f"not {showf(f[1])}"
    return "(" + f" {f[0]} ".join(showf(x) for x in f[1:]) + ")"


# ------------------------------------------------------------------------- frames built from others
ENTRY = {"get_nullable_union", "get_nullable_intersection", "get_adj_from_edges"}


def frame_run(ctx, name, tag, frames=("self",), params=None, inline=VIEWS, extra=ENTRY, after=None):
    def setup(it, st):
        it.pure_lookup = True
        for f in frames:
            it.hints[mk("param", f)] = CF
            it.hints[mk("call", f"mandala.cf.{CF}.copy", mk("param", f))] = CF
    op = contracts(ctx, name, inline=inline)
    return ctx.run(CF, name, opaque=lambda f: f.name in extra or op(f), tag=(tag, name, tuple(extra)), params=params, setup=setup)


def members(ctx, r, st):
    return Members(r, st, {n.d["result"]: n.d["recv"] for n in r.nodes if cf_method(ctx, n) == "copy"})


def field(ctx, r, M, st, v, f):
    """component f of the frame v at state st"""
    w = st.heap.get((v, f))
    if w is not None:
        return M.deep(w)
    for n in r.nodes:
        if n.kind == "new" and n.d["obj"] is v:
            if f in n.d["kwargs"]:
                return M.deep(n.d["kwargs"][f])
            i = ("storage",) + FIELDS
            if i.index(f) < len(n.d["args"]):
                return M.deep(n.d["args"][i.index(f)])
    if v.op == "obj":
        return None
    return mk("attr", M.same.get(v, v), f)
