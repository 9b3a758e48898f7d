"""Hash-consed value-flow terms.

A term denotes the value an expression has on the analysed flows, as a tree
over symbolic inputs.  Equal terms denote equal values (the analysis never
runs repository code).

  const v                literal
  param n                symbolic input of the analysed entry point
  attr b f               field f of symbolic object b (initial value)
  elem b / key b / val b element of iterating b / key / value of mapping b
  index b                position while enumerating b
  sub b i                b[i]
  obj kind site          object allocated by the analysed code
  call name a..          result of a call that is not expanded (name: str)
  op name a..            operator
  phi a..                one of the alternatives
  tuple a..              tuple literal
  fstr a..               string concatenation
  items i.. / item k v iters guards     snapshot of a container
  new cls (f v)..        snapshot of an instance
  func / class / closure / bound / ext / builtin / module   callables
  unk leaves             widened value (depends on leaves)
"""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "uid")

    def __init__(self, op, args, uid):
        self.op, self.args, self.uid = op, args, uid

    def __repr__(self):
        return show(self)


_tab: dict = {}


def _key(x):
    # True == 1 in Python; keep constants of different type apart
    if isinstance(x, (bool, int, float)):
        return (type(x).__name__, x)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def mk(op, *args) -> T:
    k = (op, _key(args))
    t = _tab.get(k)
    if t is None:
        t = T(op, args, len(_tab))
        _tab[k] = t
    return t


def const(v):
    return mk("const", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t, v=...):
    return t.op == "const" and (v is ... or (t.args[0] is v if v is None or isinstance(v, bool) else
                                             type(t.args[0]) is type(v) and t.args[0] == v))


PHI_MAX = 10


def phi(*alts):
    s = []
    seen = set()
    for a in alts:
        for b in a.args if a.op == "phi" else (a,):
            if b not in seen:
                seen.add(b)
                s.append(b)
    if len(s) == 1:
        return s[0]
    if len(s) > PHI_MAX:
        return unk(*s)
    s.sort(key=lambda t: t.uid)
    return mk("phi", *s)


def unk(*ts, lv=None):
    """an unknown value computed from ts; lv names the loop variable it belongs to"""
    ls = set()
    for t in ts:
        ls |= leaves(t)
    return mk("unk", frozenset(ls)) if lv is None else mk("unk", frozenset(ls), lv)


def alts(t):
    return t.args if t.op == "phi" else (t,)


def children(t):
    """direct subterms; guards of items are NOT children (see guards())"""
    out = []
    if t.op == "item":
        k, v, iters, guards = t.args
        if k is not None:
            out.append(k)
        out.append(v)
        out.extend(iters)
        return out
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    out.extend(c for c in b if isinstance(c, T))
        elif isinstance(a, frozenset):
            out.extend(b for b in a if isinstance(b, T))
    return out


_leafcache: dict = {}


def leaves(t):
    r = _leafcache.get(t)
    if r is not None:
        return r
    stack, seen, res = [t], set(), set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "attr":
            res.add(x)
            stack.extend(children(x))
        elif x.op in ("param", "ext", "func", "class", "builtin", "obj"):
            res.add(x)
        elif x.op == "unk":
            res |= x.args[0]
        else:
            if x.op == "item":
                for (g, _p) in x.args[3]:
                    stack.append(g)
            stack.extend(children(x))
    _leafcache[t] = frozenset(res)
    return _leafcache[t]


def subterms(t, guards=False):
    """all subterms (DAG walk)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))
        if x.op == "unk":
            stack.extend(x.args[0])
        if guards and x.op == "item":
            stack.extend(g for g, _ in x.args[3])


def contains(t, pred, guards=False):
    for x in subterms(t, guards):
        if pred(x):
            return x
    return None


def must_contain(t, pred, _memo=None):
    """every alternative of t contains a subterm satisfying pred"""
    memo = {} if _memo is None else _memo
    if t in memo:
        return memo[t]
    memo[t] = False
    if pred(t):
        r = True
    elif t.op == "phi":
        r = all(must_contain(a, pred, memo) for a in t.args)
    else:
        r = any(must_contain(c, pred, memo) for c in children(t))
    memo[t] = r
    return r


def subst(t, mapping, _memo=None):
    memo = {} if _memo is None else _memo
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]

    def go(a):
        if isinstance(a, T):
            return subst(a, mapping, memo)
        if isinstance(a, tuple):
            return tuple(go(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(go(b) for b in a)
        return a
    na = tuple(go(a) for a in t.args)
    if t.op == "phi":
        r = phi(*na)
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    a = t.args
    d = depth - 1
    if t.op == "const":
        return repr(a[0])
    if t.op == "param":
        return str(a[0])
    if t.op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if t.op == "sub":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if t.op == "obj":
        w = a[1][-1] if a[1] else ()
        return f"<{a[0]}@{':'.join(str(x) for x in (w[:2] if isinstance(w, tuple) else (w,)))}>"
    if t.op == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:] if isinstance(x, T))})"
    if t.op == "phi":
        return "{" + " | ".join(show(x, d) for x in a) + "}"
    if t.op == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if t.op == "item":
        k, v, it, g = a
        s = (show(k, d) + ": " if k is not None else "") + show(v, d)
        if it:
            s += " for " + ", ".join(show(x, d) for x in it)
        if g:
            s += " if " + " & ".join(("" if p else "not ") + show(x, d) for x, p in sorted(g, key=lambda z: z[0].uid))
        return s
    if t.op == "items":
        return f"{a[0]}[" + "; ".join(show(x, d) for x in a[1:]) + "]"
    if t.op == "new":
        return f"{a[0]}(" + ", ".join(f"{f}={show(v, d)}" for f, v in a[1:]) + ")"
    if t.op == "op":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if t.op == "fstr":
        return "f'" + "".join(x.args[0] if x.op == "const" else "{" + show(x, d) + "}" for x in a) + "'"
    if t.op in ("func", "class", "ext", "builtin", "module"):
        return str(a[0])
    if t.op == "unk":
        return "?{" + ", ".join(sorted(show(x, 3) for x in a[0]))[:200] + "}"
    return f"{t.op}({', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a)})"
