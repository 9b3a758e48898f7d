"""Database transactions: begin, commit, roll back, close, join."""
from .common import *

EXPLANATION = (
    "Typestate analysis of the connection. (1) The transaction decorator is expanded around representative database methods with "
    "every connection operation and the body itself allowed to fail; on the resulting exceptional control flow graph: the body runs "
    "only after a successful BEGIN IMMEDIATE, every normal exit passes a successful commit after the body, every failure after the "
    "BEGIN passes a rollback before the function is left or the transaction retried, a connection opened for the transaction is "
    "closed on every exit and the shared in-memory connection never is; with a connection passed in, nothing is begun, committed, "
    "rolled back or closed and the body runs on that connection. (2) Every function under the decorator is analysed with "
    "everything it calls: no transaction and no connection is opened while its own is open, and every statement it executes runs "
    "on its own connection. (3) Every INSERT/DELETE/UPDATE statement of the code base is executed on a transaction's connection."
)
ASSUMPTIONS = ["sqlite3 connections implement BEGIN IMMEDIATE/commit/rollback as documented", "the retry loop's back-off is not analysed"]
REPR = [("SQLiteCallStorage", "drop"), ("SQLiteDictStorage", "set"), ("SQLiteDictStorage", "get")]


def tx_functions(prog):
    it = Interp(prog, Cfg(opaque=lambda f: True, attrs=attrs()))
    return [fn for q, fn in sorted(prog.functions.items()) if any(d in it.tx_funcs for d in fn.deco_names())]


def check(ctx):
    wrapper(ctx)
    joined(ctx)
    explicit_none(ctx)
    nesting(ctx)
    writers(ctx)


FAIL = ("sqlite3.OperationalError", "?")


def conn_fails(n):
    if n.kind != "call":
        return None
    nm = n.d.get("name") or ""
    if nm.startswith(("logging.", "logger.")) or short(nm) in ("rollback", "close", "sleep", "connect") or nm in PURE_NAMES:
        return None
    if sql(n).startswith("PRAGMA") or n.d.get("recv") is not None and contains(n.d["recv"], lambda t: t.op == "const" and isinstance(t.args[0], str)
                                                                            and t.args[0].startswith("PRAGMA")):
        return None # which kind of database this is
    return list(FAIL)


PURE_NAMES = {"range", "len", "print"}


def sql(n):
    """the constant head of an executed statement"""
    if n.kind != "call" or short(n.d.get("name") or "") not in ("execute", "executemany", "executescript", "read_sql", "read_sql_query"):
        return ""
    a = arg(n, 0, "sql")
    if a is None:
        return ""
    for x in alts(a):
        if x.op == "const" and isinstance(x.args[0], str):
            return x.args[0].strip().upper()
        if x.op == "fstr" and x.args and x.args[0].op == "const":
            return str(x.args[0].args[0]).strip().upper()
    return ""


def is_sql(n):
    return n.kind == "call" and short(n.d.get("name") or "") in ("execute", "executemany", "executescript", "read_sql", "read_sql_query")


def conn_of(n):
    nm = short(n.d.get("name") or "")
    if nm.startswith("read_sql"):
        return arg(n, 1, "con")
    return n.d.get("recv")


def memory_decision(m):
    """a branch decision on whether the database is in memory"""
    if m.kind != "assume":
        return None
    c = m.d["cond"]
    if contains(c, lambda t: t.op == "attr" and t.args[1] in ("db_path", "in_memory") or is_call(t) and ("is_in_memory" in t.args[0])
                or is_call(t, ".execute") and contains(t, lambda u: u.op == "const" and isinstance(u.args[0], str) and "database_list" in u.args[0])):
        return m.d["pol"]
    return None


def wrapper(ctx):
    for cls, name in REPR:
        r = ctx.run(cls, name, tx="expand", may_raise=conn_fails, tag="wrapper", opaque=op_names("serialize", "deserialize", base=lambda f: False))
        where = f"transaction wrapper around {cls}.{name}"
        body = [n for n in r.nodes if is_sql(n) and not sql(n).startswith(("BEGIN", "PRAGMA", "COMMIT", "ROLLBACK"))]
        begins = [n for n in r.nodes if is_sql(n) and sql(n).startswith("BEGIN")]
        commits = [n for n in r.nodes if n.kind == "call" and (short(n.d["name"] or "") == "commit" or sql(n).startswith("COMMIT"))]
        rolls = [n.id for n in r.nodes if n.kind == "call" and (short(n.d["name"] or "") == "rollback" or sql(n).startswith("ROLLBACK"))]
        closes = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "close"]
        opens = [n for n in r.nodes if n.kind == "call" and n.d["name"] == "sqlite3.connect"]
        if not all([ctx.minimum("transaction", where, len(x), 1, w) for x, w in
                    ((body, "statements of the body"), (begins, "BEGIN statements"), (commits, "commits"), (rolls, "rollbacks"),
                     (closes, "closes"), (opens, "connections opened"))]):
            continue
        for n in begins:
            ctx.check("begin-immediate", where, sql(n).startswith(("BEGIN IMMEDIATE", "BEGIN EXCLUSIVE")), "the write lock is taken up front", n)
        okb = [s for n in begins for s in r.succ[n.id] if r.nodes[s].kind == "ok"]
        okc = [s for n in commits for s in r.succ[n.id] if r.nodes[s].kind == "ok"]
        head = [n.id for n in r.nodes if n.kind == "loop" and n.fn is begins[0].fn]
        restart = [n.id for n in opens]
        for n in body:
            ctx.check("begin-before-body", where, r.dominated(n.id, okb), "the body runs only after a successful BEGIN", n)
            ctx.check("body-connection", where, conn_of(n) is begins[0].d["recv"] or conn_of(n) in [b.d["recv"] for b in begins],
                      "the body runs on the connection of the transaction", n)
        exits = [n.id for n, _, _ in r.ends]
        rex = [n.id for n, _, _ in r.rends]
        first = set()
        for n in r.nodes:   # everything after BEGIN up to the end of the attempt
            pass
        p = r.path(okb, exits, avoid=okc)
        ctx.check("commit-on-success", where, p is None, "every normal exit passes a successful commit", begins[0], show_path(p))
        p = r.path([r.it.entry.id], exits, avoid=okc)
        ctx.check("commit-on-success", where, p is None, "no result is returned from an attempt that was not committed", begins[0], show_path(p))
        inside = r.reach(okb, avoid=okc + rolls + restart)
        excs = [r.nodes[i] for i in sorted(inside) if r.nodes[i].kind in ("exc", "raise") and not any(p in {b.id for b in begins} for p in r.nodes[i].preds)]
        ctx.minimum("rollback-on-failure", where, len(excs), 2, "failures inside the transaction")
        for x in excs:
            p = r.path([x.id], rex + exits + restart, avoid=rolls)
            ctx.check("rollback-on-failure", where, p is None, f"a failure inside the transaction ({exc_name(x)}) rolls back", x, show_path(p))
        # after a rollback nothing is committed without a new BEGIN
        p = r.path(rolls, [n.id for n in commits], avoid=[b.id for b in begins])
        ctx.check("rollback-on-failure", where, p is None, "nothing is committed after a rollback", begins[0], show_path(p))
        p = r.path(okc, rolls, avoid=[b.id for b in begins])
        ctx.check("commit-on-success", where, p is None, "a committed transaction is not rolled back", begins[0], show_path(p))
        # commit comes after the body
        for n in commits:
            p = r.path(r.succ[n.id], [b.id for b in body], avoid=[b.id for b in begins])
            ctx.check("commit-on-success", where, p is None, "the body is complete when the transaction is committed", n, show_path(p))
        mem = [m.id for m in r.nodes if memory_decision(m) is True and not (contains(m.d["cond"], lambda t: is_call(t, "len")))]
        # (a connection with several databases attached is not one of ours)
        mem += [m.id for m in r.nodes if m.kind == "raise" and any(contains(c, lambda t: is_call(t, "len") and contains(t, lambda u: u.op == "const"
                and isinstance(u.args[0], str) and "database_list" in u.args[0])) for c, _ in m.facts)]
        for n in opens:
            p = r.path(r.succ[n.id], exits + rex + [n.id], avoid=[c.id for c in closes] + [m for m in mem])
            ctx.check("connection-closed", where, p is None, "a connection opened for a transaction is closed on every exit", n, show_path(p))
        notmem = [m.id for m in r.nodes if memory_decision(m) is False and m.fn is not None and not in_conn(m)]
        for n in closes:
            ctx.check("shared-connection-kept", where, r.dominated(n.id, notmem), "the shared in-memory connection is never closed", n)
        # exhausting the attempts is an error
        ends_none = [n for n, s, v in r.ends if is_const(v, None)] if (cls, name) == ("SQLiteDictStorage", "get") else []
        p = r.path([r.it.entry.id], [n.id for n in ends_none], avoid=okc)
        ctx.check("commit-on-success", where, p is None, "giving up is reported as an error", begins[0], show_path(p))


def explicit_none(ctx):
    """`conn=None` asks for a transaction like no `conn` at all"""
    for cls, name in REPR:
        r = ctx.run(cls, name, tx="expand", may_raise=conn_fails, tag="none", params={"conn": NONE}, opaque=op_names("serialize", "deserialize", base=lambda f: False))
        where = f"transaction wrapper around {cls}.{name} [conn=None]"
        for n in r.nodes:
            if n.kind == "error":
                ctx.bad("explicit-none", where, "an explicit conn=None begins a transaction: " + n.d["what"], n)
        begins = [n for n in r.nodes if is_sql(n) and sql(n).startswith("BEGIN")]
        okb = [s for n in begins for s in r.succ[n.id] if r.nodes[s].kind == "ok"]
        body = [n for n in r.nodes if is_sql(n) and not sql(n).startswith(("BEGIN", "PRAGMA", "COMMIT", "ROLLBACK"))]
        if ctx.minimum("explicit-none", where, len(body), 1, "statements of the body"):
            for n in body:
                ctx.check("explicit-none", where, okb and r.dominated(n.id, okb), "an explicit conn=None begins a transaction", n)


def in_conn(m):
    return any(f in ("conn",) for f in [m.fn.name])


def exc_name(x):
    t = x.d.get("exc") or x.d.get("exc_t")
    return show(t, 2) if t is not None and isinstance(t, T) else str(t)


def joined(ctx):
    for cls, name in REPR:
        conn = mk("fstr", mk("param", "conn"))
        r = ctx.run(cls, name, tx="expand", may_raise=conn_fails, tag="joined", params={"conn": conn},
                    opaque=op_names("serialize", "deserialize", base=lambda f: False))
        where = f"transaction wrapper around {cls}.{name} [joining]"
        bad = [n for n in r.nodes if n.kind == "call" and (short(n.d["name"] or "") in ("commit", "rollback", "close", "connect")
                                                            or sql(n).startswith(("BEGIN", "COMMIT", "ROLLBACK")))]
        for n in bad:
            ctx.bad("join", where, f"an operation that joins a transaction does not {short(n.d['name'])} it", n)
        body = [n for n in r.nodes if is_sql(n)]
        ctx.minimum("join", where, len(body), 1, "statements of the body")
        for n in body:
            ctx.check("join", where, conn_of(n) is conn, "the body runs on the connection passed in", n)


NEST = op_names("serialize", "deserialize", "get_content_hash", "print_graph", "get_dep_key_from_func", "extract_func_obj", base=lambda f: (
    (f.cls is not None and f.cls.name in ("Versioner", "CodeState", "DAG", "ContentDAG", "InMemCallStorage", "JoblibDictStorage", "DecTracer", "SysTracer"))
    or (f.module.startswith("mandala.deps") or f.module.startswith("mandala.viz") or f.module.startswith("mandala.cf"))))


def nesting(ctx):
    fns = tx_functions(ctx.prog)
    ctx.minimum("nesting", "transactional functions", len(fns), 20, "functions under the transaction decorator")
    for fn in fns:
        cls = fn.cls.name if fn.cls else None
        r = ctx.run(cls, fn.name, opaque=NEST, tag="nest")
        where = f"{cls}.{fn.name}"
        begins = r.find("tx_begin")
        ends = [n.id for n in r.nodes if n.kind in ("tx_end", "tx_abort")]
        ctx.minimum("nesting", where, len(begins), 1, "transactions begun")
        outer = [n for n in begins if n.d["fn_name"] == fn.qual and r.path([r.it.entry.id], [n.id], avoid=[b.id for b in begins if b is not n])]
        for b in outer:
            inside = r.reach(r.succ[b.id], avoid=[n.id for n in r.nodes if n.kind in ("tx_end", "tx_abort") and n.d["conn"] is b.d["conn"]])
            bad = False
            for i in sorted(inside):
                n = r.nodes[i]
                if n.kind == "tx_begin":
                    bad = True
                    ctx.bad("nesting", f"{where} -> {n.d['fn_name'].split('.', 1)[-1]}",
                            "a transactional operation inside a transaction joins it instead of beginning another", n)
                elif n.kind == "call" and n.d["name"] == "sqlite3.connect":
                    bad = True
                    ctx.bad("nesting", f"{where} -> connect", "no other connection is opened inside a transaction", n)
                elif is_sql(n):
                    c = conn_of(n)
                    ok = c is b.d["conn"]
                    bad = bad or not ok
                    ctx.check("own-connection", where, ok, "statements run on the transaction's own connection", n)
                elif n.kind == "tx_join":
                    ok = n.d["conn"] is b.d["conn"]
                    bad = bad or not ok
                    ctx.check("own-connection", f"{where} -> {n.d['fn_name'].split('.', 1)[-1]}", ok, "the operation joins the enclosing transaction", n)
                elif n.kind == "error":
                    ctx.bad("nesting", where, n.d["what"], n)
            if not bad:
                ctx.ok("nesting", where, "nothing inside the transaction begins another one", b)


def writers(ctx):
    """every modifying statement is executed under the decorator"""
    import ast
    prog = ctx.prog
    txq = {f.qual for f in tx_functions(prog)}
    n = 0
    for q, fn in sorted(prog.functions.items()):
        for e in ast.walk(fn.node):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("execute", "executemany", "executescript") and e.args:
                s = e.args[0]
                txt = ""
                for k in ast.walk(s):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        txt = k.value
                        break
                if txt.strip().upper().startswith(("INSERT", "DELETE", "UPDATE", "REPLACE", "DROP")):
                    n += 1
                    owner = fn
                    while owner.qual not in txq and owner.parent is not None:
                        owner = owner.parent
                    top = owner.qual in txq
                    callers = top or helper_of_tx(prog, owner, txq)
                    ctx.check("writes-in-transaction", fn.qual.split(".", 1)[-1], callers, "a modifying statement is executed inside a transaction",
                              f"{fn.module.replace('.', '/')}.py:{e.lineno}")
    ctx.minimum("writes-in-transaction", "code base", n, 4, "modifying statements")


def helper_of_tx(prog, fn, txq, depth=3):
    """fn is only called by transactional functions, which pass their connection"""
    import ast
    sites = []
    for q, g in prog.functions.items():
        for e in ast.walk(g.node):
            if isinstance(e, ast.Call):
                nm = e.func.attr if isinstance(e.func, ast.Attribute) else (e.func.id if isinstance(e.func, ast.Name) else None)
                if nm == fn.name and g is not fn:
                    sites.append((g, e))
    if not sites or depth == 0:
        return False
    return all((g.qual in txq or helper_of_tx(prog, g, txq, depth - 1)) and
               any(isinstance(a, ast.Name) and a.id in ("conn", "cursor") for a in list(e.args) + [k.value for k in e.keywords]) for g, e in sites)
