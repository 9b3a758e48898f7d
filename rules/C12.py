"""Values in overflow files: crash-safe creation, and one consistent view of table and files."""
from .common import *

EXPLANATION = (
    "Path and value-flow analysis of the value stores. Sinks: every operation that creates or renames a file. The rule requires that a "
    "file gets its final name only by an atomic rename of a complete temporary file that lies in the same directory, is not taken for "
    "a value by the listing and is removed when writing fails; that all operations on overflow files agree on the name of a key's "
    "file and the listing inverts it; that storing a value writes it, serialised from the value given, under the key given to exactly "
    "one of table and overflow store on every path that returns normally; and that every reading operation consults both places "
    "before it answers that a key is missing."
)
ASSUMPTIONS = ["os.replace is atomic within a directory", "keys contain no path separators"]
FILE = op_names("serialize", "deserialize", base=lambda f: False)
WRITES = {"joblib.dump": 1, "pickle.dump": 1, "cloudpickle.dump": 1, "numpy.save": 0, "shutil.copy": 1, "shutil.copyfile": 1, "shutil.copyfileobj": 1}
RENAMES = {"os.replace": (0, 1), "os.rename": (0, 1), "shutil.move": (0, 1)}


def check(ctx):
    files(ctx)
    names(ctx)
    table(ctx)


def fails(n):
    return ["OSError", "?"] if n.kind == "call" and n.d["name"] in set(WRITES) | set(RENAMES) | {"open"} else None


def written(n):
    """the path a call writes to"""
    nm = n.d.get("name") or ""
    if nm in WRITES:
        return arg(n, WRITES[nm], "filename", "file", "dst")
    if nm == "open":
        m = arg(n, 1, "mode")
        if m is not None and is_const(m) and isinstance(m.args[0], str) and set(m.args[0]) & set("wax+"):
            return arg(n, 0, "file")
    if short(nm) in ("write_bytes", "write_text"):
        return n.d.get("recv")
    return None


def names_of(ctx):
    """the file that holds a key, as each operation computes it"""
    out = {}
    for m, sink in (("get", "joblib.load"), ("exists", "os.path.exists"), ("drop", "os.remove")):
        r = ctx.run("JoblibDictStorage", m, opaque=FILE, tag="names")
        ts = set()
        for n in r.find("call"):
            if n.d["name"] in (sink, "os.unlink", "os.path.isfile"):
                ts.add(r.snap(n, n.d["args"][0]))
        for n, s, v in r.ends:
            for t in subterms(r.it.snap(s, v)):
                if t.op == "call" and t.args[0] in (sink, "os.path.isfile"):
                    ts.add(cargs(t)[0])
        out[m] = (ts, r)
    return out


def names(ctx):
    ns = names_of(ctx)
    rs = ctx.run("JoblibDictStorage", "set", opaque=FILE, may_raise=fails, tag="files")
    dst = {rs.snap(n, n.d["args"][RENAMES[n.d["name"]][1]]) for n in rs.find("call") if n.d["name"] in RENAMES}
    for m, (ts, r) in ns.items():
        ctx.minimum("file-name", f"JoblibDictStorage.{m}", len(ts), 1, "file operations")
        ctx.check("file-name", f"JoblibDictStorage.{m}", ts == dst, "reads, tests and removes the file that storing the key created", ctx.prog.method("JoblibDictStorage", m))
        key = r.P.get("key")
        for t in ts:
            ctx.check("file-name", f"JoblibDictStorage.{m}", contains(t, lambda u: u is key), "the file is the key's own", ctx.prog.method("JoblibDictStorage", m))
    suf = {suffix(t) for t in dst}
    r = ctx.run("JoblibDictStorage", "keys", opaque=FILE, tag="names")
    root = None
    for n, s, v in r.ends:
        t = r.it.snap(s, v)
        for cv in coverage(t):
            ctx.check("listing", "JoblibDictStorage.keys", len(cv.bases) == 1 and is_call(cv.bases[0], "os.listdir"), "the listing covers the directory", n)
            k = cv.val
            e = [x for x in subterms(k) if x.op == "elem"]
            good = (k.op == "sub" and is_const(k.args[1], 0) and is_call(k.args[0], "os.path.splitext")) or \
                   any(is_call(x, ".removesuffix", ".replace") and any(is_const(y) and y.args[0] in suf for y in cargs(x)) for x in subterms(k)) or \
                   any(x.op == "slice" for x in subterms(k))
            ctx.check("listing", "JoblibDictStorage.keys", bool(e) and good, "the listing inverts the file name", n)
            pos = [g for g, p in cv.guards if p and is_call_in(g, ".endswith")]
            ctx.check("listing", "JoblibDictStorage.keys", any(const_in(g, suf) for g in pos) or any(const_in(g, suf) for g, p in cv.guards),
                      "the listing takes exactly the value files", n)
            loose = [g for g, p in cv.guards if p and g.op == "op" and g.args[0] == "in" and const_in(g, suf)]
            strict = [g for g, p in cv.guards if const_in(g, suf) and g not in loose]
            ctx.check("listing", "JoblibDictStorage.keys", bool(strict) or not loose, "a file whose name merely contains the value files' suffix (an unfinished one) is not listed", n)
            other = [(g, p) for g, p in cv.guards if not const_in(g, suf)]
            ctx.check("listing", "JoblibDictStorage.keys", not other, "no value file is left out of the listing", n)


def is_call_in(t, *names):
    return contains(t, lambda u: is_call(u, *names)) is not None


def const_in(t, vals):
    return contains(t, lambda u: u.op == "const" and u.args[0] in vals) is not None


def suffix(t):
    """constant tail of a path"""
    while t.op == "call" and t.args[0] == "os.path.join":
        t = cargs(t)[-1]
    if t.op == "fstr" and t.args and t.args[-1].op == "const":
        return t.args[-1].args[0]
    if t.op == "op" and t.args[0] == "add" and t.args[2].op == "const":
        return t.args[2].args[0]
    return None


def directory(t):
    """a term for the directory of a path, when it is explicit"""
    if t.op == "call" and t.args[0] == "os.path.join":
        return cargs(t)[0]
    if t.op == "fstr" and t.args and t.args[0].op == "call":
        return directory(t.args[0])
    if t.op == "op" and t.args[0] == "add":
        return directory(t.args[1])
    if t.op == "call" and t.args[0] in ("tempfile.mktemp", "tempfile.NamedTemporaryFile", "tempfile.mkstemp"):
        for x in cargs(t):
            if x.op == "kw" and x.args[0] == "dir":
                return x.args[1]
    if t.op in ("sub", "attr") and isinstance(t.args[0], T):
        return directory(t.args[0])
    return None


def files(ctx):
    r = ctx.run("JoblibDictStorage", "set", opaque=FILE, may_raise=fails, tag="files")
    where = "JoblibDictStorage.set"
    P = r.P
    ns = names_of(ctx)
    final = ns["get"][0]
    ren = [n for n in r.find("call") if n.d["name"] in RENAMES]
    wr = [n for n in r.find("call") if written(n) is not None]
    if not (ctx.minimum("atomic-file", where, len(ren), 1, "atomic renames") and ctx.minimum("atomic-file", where, len(wr), 1, "writes")):
        return
    sufs = {suffix(t) for t in final}
    for n in wr:
        t = r.snap(n, written(n))
        ctx.check("atomic-file", where, t not in final, "a value is never written directly under its final name", n)
        ctx.check("atomic-file", where, not (suffix(t) in sufs or any(s and suffix(t) and suffix(t).endswith(s) for s in sufs)),
                  "an unfinished file is not taken for a value", n)
        ctx.check("atomic-file", where, contains(t, lambda u: is_call(u) and u.args[0].startswith(("uuid.", "tempfile.", "os.getpid", "secrets.")))
                  is not None, "writers do not share a temporary file", n)
        v = n.d["args"][0] if n.d["args"] else None
        if n.d["name"] in WRITES and n.d["name"].endswith("dump"):
            ctx.check("file-value", where, v is P["value"], "the value given is written", n)
    oks = [s for n in wr for s in r.succ[n.id] if r.nodes[s].kind == "ok"]
    for n in ren:
        a, b = RENAMES[n.d["name"]]
        src, dst = r.snap(n, n.d["args"][a]), r.snap(n, n.d["args"][b])
        ctx.check("atomic-file", where, n.d["name"] != "shutil.move", "the rename is atomic", n)
        ctx.check("atomic-file", where, dst in final, "the file gets the name under which it is read", n)
        ctx.check("atomic-file", where, src in {r.snap(m, written(m)) for m in wr}, "the file renamed is the file written", n)
        ctx.check("atomic-file", where, r.dominated(n.id, oks), "only a completely written file gets its final name", n)
        d1, d2 = directory(src), directory(dst)
        ctx.check("atomic-file", where, d1 is not None and d1 is d2, "the temporary file lies in the directory of the value files", n)
    # an existing file means the value is there; otherwise a normal return has stored it
    there = [m.id for m in r.nodes if m.kind == "assume" and m.d["pol"] and is_call_in(m.d["cond"], "os.path.exists", "os.path.isfile")
             and any(contains(m.d["cond"], lambda u: u is f) for f in final)]
    okr = [s for n in ren for s in r.succ[n.id] if r.nodes[s].kind == "ok"]
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=there + okr)
    ctx.check("file-stored", where, p is None, "a normal return means that the value is in its file", ren[0], show_path(p))
    # nothing is left behind by a failure
    gone = [m.id for m in r.nodes if m.kind == "call" and m.d["name"] in ("os.remove", "os.unlink") or m.kind == "assume" and not m.d["pol"]
            and is_call_in(m.d["cond"], "os.path.exists", "os.path.isfile")]
    for n in wr:
        for s in r.succ[n.id]:
            if r.nodes[s].kind == "exc":
                p = r.path([s], [x.id for x, _, _ in r.rends], avoid=gone)
                ctx.check("no-leftover", where, p is None, "a failed write removes its temporary file", n, show_path(p))
                p = r.path([s], [x.id for x, _, _ in r.ends])
                ctx.check("file-stored", where, p is None, "a failed write is reported", n, show_path(p))
    # the only writer of overflow files
    for m in ("get", "exists", "drop", "keys", "values", "load_all"):
        q = ctx.run("JoblibDictStorage", m, opaque=FILE, tag="names")
        for n in q.find("call"):
            ctx.check("atomic-file", f"JoblibDictStorage.{m}", written(n) is None and n.d["name"] not in RENAMES, "reading does not write files", n)


OVER = ("get", "exists", "drop", "keys", "values", "load_all", "set")


def table(ctx):
    opq = op_names(*["JoblibDictStorage." + m for m in OVER], base=FILE)
    for m in OVER:
        r = ctx.run("SQLiteDictStorage", m, opaque=opq, tag="table")
        where = f"SQLiteDictStorage.{m}"
        P = r.P
        ov = [n for n in r.find("call") if (n.d["name"] or "").startswith("mandala.storage_utils.JoblibDictStorage.")]
        sq = [n for n in r.find("call") if short(n.d["name"] or "") == "execute" and not stmt(n).startswith("PRAGMA")]
        none = [n.id for n in r.nodes if n.kind == "assume" and n.d["pol"] and no_overflow(n.d["cond"])]
        exits = [n.id for n, _, _ in r.ends]
        if not (ctx.minimum("both-places", where, len(ov), 1, "uses of the overflow store") and ctx.minimum("both-places", where, len(sq), 1, "statements")):
            continue
        key = P.get("key")
        for n in ov:
            nm = short(n.d["name"])
            if key is not None:
                ctx.check("same-key", where, n.d["args"] and n.d["args"][0] is key, "the overflow store is asked for the same key", n)
        for n in sq:
            if key is not None:
                a = arg(n, 1, "parameters")
                ctx.check("same-key", where, a is not None and contains(r.snap(n, a), lambda u: u is key), "the table is asked for the same key", n)
            ctx.check("own-table", where, contains(arg(n, 0), lambda u: u.op == "attr" and u.args[1] == "table" or u.op == "param" and str(u.args[0]).endswith(".table"))
                      is not None, "the statement addresses the store's own table", n)
        if m == "set":
            wsql = [n for n in sq if stmt(n).startswith(("INSERT", "REPLACE"))]
            wov = [n for n in ov if short(n.d["name"]) == "set"]
            ctx.minimum("one-place", where, len(wsql), 1, "statements that write")
            ctx.minimum("one-place", where, len(wov), 1, "overflow writes")
            ids = [n.id for n in wsql + wov]
            p = r.path([r.it.entry.id], exits, avoid=ids)
            ctx.check("one-place", where, p is None, "every normal return has stored the value", wsql[0] if wsql else None, show_path(p))
            for n in wsql + wov:
                p = r.path(r.succ[n.id], ids)
                ctx.check("one-place", where, p is None, "the value is stored in one place only", n, show_path(p))
            for n in wsql:
                ctx.check("replace", where, "OR REPLACE" in stmt(n) or stmt(n).startswith("REPLACE") or "OR IGNORE" in stmt(n) or "ON CONFLICT" in stmt(n),
                          "storing a key again does not fail", n)
                row = r.snap(n, arg(n, 1, "parameters"))
                good = row.op == "tuple" and len(row.args) == 2 and row.args[0] is key and is_call(row.args[1]) and short(row.args[1].args[0]) == "serialize" \
                    and cargs(row.args[1])[0] is P["value"]
                ctx.check("stored-value", where, good, "the row holds the key and the serialised value", n)
            for n in wov:
                ctx.check("stored-value", where, arg(n, 1, "value") is P["value"], "the file holds the value", n)
            continue
        avoid = [n.id for n in ov] + none
        if m in ("get", "exists"):
            avoid += [n.id for n in r.nodes if n.kind == "assume" and row_found(n)]
        p = r.path([r.it.entry.id], exits + [n.id for n, _, _ in r.rends], avoid=avoid)
        ctx.check("both-places", where, p is None, "the overflow store is consulted before the key counts as missing", ov[0], show_path(p))
        p = r.path([r.it.entry.id], exits, avoid=[n.id for n in sq] + ([n.id for n in r.nodes if n.kind == "call" and n in ov] if m in ("get", "exists") else []))
        ctx.check("both-places", where, p is None, "the table is consulted", sq[0], show_path(p))
        if m == "drop":
            rem = [n.id for n in ov if short(n.d["name"]) == "drop"]
            ab = [n.id for n in r.nodes if n.kind == "assume" and not n.d["pol"] and contains(n.d["cond"], lambda u: is_call(u) and u.args[0].endswith("JoblibDictStorage.exists"))]
            p = r.path([r.it.entry.id], exits, avoid=rem + none + ab)
            ctx.check("both-places", where, p is None, "dropping a key removes its file", ov[0], show_path(p))
            ctx.check("both-places", where, any(stmt(n).startswith("DELETE") for n in sq), "dropping a key deletes its row", sq[0])
        if m in ("keys", "values", "load_all"):
            for n, s, v in r.ends:
                t = r.it.snap(s, v)
                if any(f.kind == "assume" and f.id in none for f in ()):
                    continue
                srcs = {b for cv in coverage(t) for b in cv.bases}
                has_ov = any(contains(b, lambda u: is_call(u) and "JoblibDictStorage" in u.args[0]) for b in srcs)
                has_sq = any(contains(b, lambda u: is_call(u, ".execute")) for b in srcs)
                ctx.check("both-places", where, has_ov and has_sq, "the result lists the rows and the files", n)
                for cv in coverage(t):
                    ctx.check("both-places", where, not [g for g, p in cv.guards if not no_overflow(g)], "no row or file is left out", n)
        if m == "get":
            for n, s, v in r.ends:
                for a in alts(r.it.snap(s, v)):
                    good = is_call(a) and (short(a.args[0]) == "deserialize" and contains(a, lambda u: is_call(u, ".execute")) is not None or a.args[0].endswith("JoblibDictStorage.get"))
                    ctx.check("read-value", where, good, "the value returned is the stored one", n)


def stmt(n):
    a = arg(n, 0)
    for x in alts(a) if a is not None else ():
        if x.op == "const" and isinstance(x.args[0], str):
            return x.args[0].strip().upper()
        if x.op == "fstr":
            return "".join(str(y.args[0]) if y.op == "const" else "?" for y in x.args).strip().upper()
    return ""


def no_overflow(c):
    return c.op == "op" and c.args[0] == "isnone" and contains(c, lambda t: t.op == "attr" and t.args[1] == "overflow_storage"
                                                              or t.op == "param" and str(t.args[0]).endswith("overflow_storage")) is not None


def row_found(n):
    """a branch decision that the table has a row for the key"""
    c, pol = n.d["cond"], n.d["pol"]
    if contains(c, lambda t: is_call(t, ".execute")) is None:
        return False
    if c.op == "op" and c.args[0] == "isnone":
        return not pol
    if c.op == "op" and c.args[0] == "lt":
        return pol and is_const(c.args[1], 0)
    if c.op == "op" and c.args[0] in ("eq", "le"):
        return not pol and any(is_const(a, 0) for a in c.args[1:])
    return pol
