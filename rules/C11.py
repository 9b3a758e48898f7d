"""Call records: what is written per call is what is read back, in both call stores."""
import re
from .common import *
from .C12 import stmt

EXPLANATION = (
    "Schema analysis. The column order of the persistent table (CREATE TABLE) and of the in-memory frame (its constructor) is read from "
    "the source; every write into either is expanded to a value-flow term per column and compared with what the column means; every "
    "record read from either is expanded to a column per record field, with the direction test that guards it; every query by "
    "identity or direction is reduced to (columns compared, constants, column returned) and compared with what the operation promises. "
    "Bulk reads have to range over the requested identities in their order, and a call object rebuilt from a record has to take every "
    "field from the field of the same meaning."
)
ASSUMPTIONS = ["SQLite and pandas evaluate the recognised queries as documented"]
IDX = ("call_history_id", "name")
LEAF = op_names("serialize", "deserialize", base=lambda f: False)
MEAN = {"call_content_id": "cid", "op": "op_name", "semantic_version": "semantic_version", "content_version": "content_version", "call_history_id": "hid"}


def check(ctx):
    cols = sql_columns(ctx)
    mem = mem_columns(ctx)
    sql_write(ctx, cols)
    mem_write(ctx, mem)
    reads(ctx, cols)
    queries(ctx, cols, mem)
    rebuild(ctx)
    bulk(ctx)


def sql_columns(ctx):
    r = ctx.run("SQLiteCallStorage", "__init__", opaque=LEAF)
    for n in r.find("call"):
        s = stmt(n)
        if s.startswith("CREATE TABLE"):
            body = s[s.index("(") + 1:]
            body = body[:body.rindex(")")]
            pk = re.search(r"PRIMARY KEY\s*\(([^)]*)\)", body)
            body = re.sub(r",?\s*PRIMARY KEY\s*\([^)]*\)", "", body)
            cols = [c.strip().split()[0].lower() for c in body.split(",") if c.strip()]
            keys = {c.strip().lower() for c in pk.group(1).split(",")} if pk else set()
            ctx.check("schema", "SQLiteCallStorage table", keys == set(IDX), "one row per call and name", n)
            ctx.check("schema", "SQLiteCallStorage table", set(cols) >= set(MEAN) | {"name", "direction", "ref_content_id", "ref_history_id"},
                      "the table has a column for everything recorded", n)
            return cols
    raise AnchorError("CREATE TABLE of the call storage")


def mem_columns(ctx):
    r = ctx.run("InMemCallStorage", "__init__", opaque=LEAF, params={"df": NONE}, tag="none")
    for n in r.find("setattr"):
        if n.d["attr"] == "df":
            t = r.snap(n, n.d["value"])
            names, idx = None, None
            for x in subterms(t):
                if x.op == "call" and x.args[0].endswith("DataFrame"):
                    for a in cargs(x):
                        if a.op == "kw" and a.args[0] == "columns":
                            names = const_list(a.args[1])
                if is_call(x, ".set_index"):
                    idx = const_list(cargs(x)[1]) if len(cargs(x)) > 1 and cargs(x)[1].op != "kw" else None
            if names and idx:
                ctx.check("schema", "InMemCallStorage frame", tuple(idx) == IDX, "one row per call and name", n)
                return [c for c in names if c not in idx]
    raise AnchorError("columns of the in-memory call frame")


def const_list(t):
    t = strip(t)
    if t.op == "items":
        vs = [i.args[1] for i in t.args[1:]]
    elif t.op == "tuple":
        vs = list(t.args)
    else:
        return None
    return [v.args[0] for v in vs] if all(is_const(v) for v in vs) else None


def row_tuples(r, n):
    """row value tuples an INSERT writes, with the collection they range over when it is an executemany"""
    a = arg(n, 1, "parameters", "seq_of_parameters")
    if a is None:
        return []
    t = r.snap(n, a)
    if short(n.d["name"]) == "executemany":
        return [(c.val, c) for c in coverage(t)]
    return [(t, None)]


def sql_write(ctx, cols):
    r = ctx.run("SQLiteCallStorage", "save", opaque=LEAF)
    P = r.P
    rec = P["call_data"]
    where = "SQLiteCallStorage.save"
    done = {}
    for n in r.find("call"):
        if short(n.d["name"] or "") not in ("execute", "executemany") or "INSERT" not in stmt(n) and "REPLACE" not in stmt(n):
            continue
        s = stmt(n)
        ctx.check("row-replaced", where, "OR REPLACE" in s or s.startswith("REPLACE"), "saving a call again replaces its rows", n)
        m = re.search(r"\(([^()]*)\)\s*VALUES", s)
        order = [c.strip().lower() for c in m.group(1).split(",")] if m else cols
        for row, cv in row_tuples(r, n):
            for x in alts(row):
                if not ctx.check("row-written", where, x.op == "tuple" and len(x.args) == len(order), "a row has a value for every column", n):
                    continue
                v = dict(zip(order, x.args))
                d, base = row_ok(ctx, "row-written", where, n, v, lambda f: mk("sub", rec, const(f)))
                if d:
                    done.setdefault(d, []).append((n, cv, base))
    for d in ("in", "out"):
        if not ctx.check("row-written", where, d in done, f"the refs of direction '{d}' are recorded"):
            continue
        every_element(ctx, r, where, done[d], mk("sub", rec, const("input_hids" if d == "in" else "output_hids")))


def every_element(ctx, r, where, sites, base):
    """each element of base reaches one of the write sites"""
    many = [cv for n, cv, b in sites if cv is not None]
    if many:
        ctx.check("row-written", where, all(not cv.guards for cv in many), "a row is written for every ref", sites[0][0])
        return
    loops = [n for n in r.nodes if n.kind == "loop" and n.d.get("siter") is not None and base in loop_bases(r, n)]
    ctx.minimum("row-written", where, len(loops), 1, f"loops over {show(base, 3)}")
    ids = [n.id for n, _, _ in sites]
    hit = False
    for l in loops:
        its = [m.id for m in r.nodes if m.kind == "iter" and m.d["head"] == l.id]
        if not set(ids) & r.reach(its, avoid=[l.id]):
            continue
        hit = True
        backs = [p for p in r.nodes[l.id].preds if p >= l.id]
        p = r.path(its, backs, avoid=ids)
        ctx.check("row-written", where, p is None, "a row is written for every ref", l, show_path(p))
        for b in r.nodes:
            if b.kind in ("break", "loopret") and b.d["head"] == l.id:
                ctx.bad("row-written", where, "the loop over the refs can be left early", b)
    ctx.check("row-written", where, hit, f"rows are written in a loop over {show(base, 3)}", sites[0][0])


def row_ok(ctx, rule, where, n, v, field):
    """the values of one row against the meaning of the columns; returns its direction"""
    d = v.get("direction")
    if not ctx.check(rule, where, d is not None and is_const(d) and d.args[0] in ("in", "out"), "the direction column holds 'in' or 'out'", n):
        return None, None
    d = d.args[0]
    p = "input" if d == "in" else "output"
    hids, cids = field(p + "_hids"), field(p + "_cids")
    k = v["name"]
    keys = {mk("elem", hids), mk("key", hids), mk("elem", cids), mk("key", cids)}
    ctx.check(rule, where, k in keys, f"the name column of an '{d}' row holds the {p}'s name", n)
    ctx.check(rule, where, v["ref_history_id"] in {mk("sub", hids, k), mk("val", hids) if k is mk("key", hids) else None, mk("sub", hids, mk("key", hids))},
              f"ref_history_id of an '{d}' row is the {p}'s history id", n)
    ctx.check(rule, where, v["ref_content_id"] in {mk("sub", cids, k), mk("val", cids) if k is mk("key", cids) else None},
              f"ref_content_id of an '{d}' row is the {p}'s content id", n)
    for c, f in MEAN.items():
        if c in v:
            ctx.check(rule, where, v[c] is field(f), f"column {c} holds the call's {f}", n)
    return d, hids


def mem_write(ctx, cols):
    r = ctx.run("InMemCallStorage", "save", opaque=LEAF)
    call = r.P["call"]
    where = "InMemCallStorage.save"
    done = {}
    for n in r.find("mut"):
        if not (n.d["how"] == "setitem" and n.d["target"].op == "attr" and n.d["target"].args[1] in ("loc", "at", "df")):
            continue
        key, val = r.snap(n, n.d["key"]), r.snap(n, n.d["value"])
        if key.op == "tuple" and key.args and key.args[0].op == "tuple":
            key = key.args[0]
        val = strip(val)
        if val.op == "items" and all(not i.args[2] and not i.args[3] and i.args[0] is None for i in val.args[1:]):
            val = mk("tuple", *[i.args[1] for i in val.args[1:]])
        if not ctx.check("frame-row", where, key.op == "tuple" and len(key.args) == 2 and val.op == "tuple" and len(val.args) == len(cols),
                         "a row is addressed by (call, name) and has a value for every column", n):
            continue
        v = dict(zip(cols, val.args))
        v["call_history_id"], v["name"] = key.args
        d = v["direction"]
        if not ctx.check("frame-row", where, is_const(d) and d.args[0] in ("in", "out"), "the direction column holds 'in' or 'out'", n):
            continue
        d = d.args[0]
        coll = mk("attr", call, "inputs" if d == "in" else "outputs")
        k = v["name"]
        refs = {mk("val", coll) if k is mk("key", coll) else None, mk("sub", coll, k)}
        ctx.check("frame-row", where, k in (mk("key", coll), mk("elem", coll)), f"the name of an '{d}' row is the name of the ref", n)
        for c, f in (("ref_content_id", "cid"), ("ref_history_id", "hid")):
            t = v[c]
            ctx.check("frame-row", where, t.op == "attr" and t.args[1] == f and t.args[0] in refs, f"{c} of an '{d}' row is the ref's {f}", n)
        want = {"call_content_id": {mk("attr", call, "cid")}, "call_history_id": {mk("attr", call, "hid")},
                "semantic_version": {mk("attr", call, "semantic_version")}, "content_version": {mk("attr", call, "content_version")}}
        for c, ts in want.items():
            ctx.check("frame-row", where, v[c] in ts, f"column {c} holds the call's value", n)
        o = v["op"]
        ctx.check("frame-row", where, o.op == "attr" and o.args[1] in ("name", "id") and o.args[0] is mk("attr", call, "op") or
                  o.op == "param" and str(o.args[0]).endswith("Op.__init__.name"), "column op holds the op's name", n)
        done.setdefault(d, []).append((n, None, coll))
    for d in ("in", "out"):
        if ctx.check("frame-row", where, d in done, f"the refs of direction '{d}' are recorded"):
            every_element(ctx, r, where, done[d], done[d][0][2])
    # the index of known calls agrees with the frame
    adds = [n.id for n in r.find("mut") if n.d["how"] in ("add", "update") and n.d["target"].op == "attr" and n.d["target"].args[1] == "call_hids"
            and mut_has(r, n, mk("attr", call, "hid"))]
    known = [n.id for n in r.find("assume") if n.d["pol"] and n.d["cond"].op == "op" and n.d["cond"].args[0] == "in"
             and n.d["cond"].args[1] is mk("attr", call, "hid")]
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=adds + known)
    ctx.check("frame-index", where, bool(adds) and p is None, "a saved call is registered in the index of known calls", None, show_path(p))
    r = ctx.run("InMemCallStorage", "drop", opaque=LEAF)
    hid = r.P["hid"]
    rem = [n.id for n in r.find("mut") if n.d["how"] in ("remove", "discard", "difference_update") and n.d["target"].op == "attr" and n.d["target"].args[1] == "call_hids"
           and mut_has(r, n, hid)]
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=rem)
    ctx.check("frame-index", "InMemCallStorage.drop", p is None, "a dropped call is removed from the index of known calls", None, show_path(p))
    drops = [n for n in r.find("setattr") if n.d["attr"] == "df"]
    unused = [n for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") in ("remove_unused_levels", "reset_index")]
    fr = [n.id for n in drops if contains(r.snap(n, n.d["value"]), lambda t: is_call(t, ".drop") and contains(t, lambda u: u is hid) or is_call(t, "ne") or t.op == "op" and t.args[0] in ("ne", "not", "invert"))]
    fr += [n.id for n in r.nodes if n.kind == "call" and short(n.d["name"] or "") == "drop"]
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=fr)
    ctx.check("frame-index", "InMemCallStorage.drop", p is None, "a dropped call's rows are removed", None, show_path(p))
    p = r.path([r.it.entry.id], [n.id for n, _, _ in r.ends], avoid=[n.id for n in unused])
    ctx.check("frame-index", "InMemCallStorage.drop", p is None, "a dropped call does not survive in the levels of the frame's index", None, show_path(p))


def col_of(t, cols):
    """the column a term reads from a row"""
    if t.op == "sub" and is_const(t.args[1]):
        i = t.args[1].args[0]
        if isinstance(i, str):
            return i
        if isinstance(i, int) and contains(t.args[0], lambda u: is_call(u, ".execute")) is not None and -len(cols) <= i < len(cols):
            return cols[i]
    if t.op == "attr" and t.args[1] in cols:
        return t.args[1]
    if t.op == "elem" and t.args[0].op == "sub":
        return col_of(t.args[0], cols)
    return None


def reads(ctx, cols):
    for cls in ("SQLiteCallStorage", "InMemCallStorage"):
        r = ctx.run(cls, "mget_data", opaque=LEAF)
        where = f"{cls}.mget_data"
        hids = r.P["call_hids"]
        order = cols
        for n in r.find("call"):
            m = re.match(r"SELECT (.*?) FROM", stmt(n))
            if m and m.group(1).strip() != "*":
                order = [c.strip().lower() for c in m.group(1).split(",")]
        ctx.minimum("record-read", where, len(r.ends), 1, "results")
        for n, s, v in r.ends:
            t = r.it.snap(s, v)
            for cv in coverage(t):
                ctx.check("record-order", where, cv.bases == (hids,) and not cv.guards and not is_call(t, "sorted"),
                          "one record per requested call, in the order requested", n)
                recs = alts(cv.val)
                # (an alternative the analysis widened stands next to its expanded form)
                for rec in [x for x in recs if x.op != "unk"] or recs:
                    record_ok(ctx, where, n, rec, order, hids)


def unwrap_val(rec):
    return rec


def record_ok(ctx, where, n, rec, cols, hids):
    rec = strip(rec, {"dict"})
    if rec.op in ("sub", "val"):   # looked up in a mapping that is not resolved further
        base = rec.args[0]
        if base.op == "items":
            for i in base.args[1:]:
                record_ok(ctx, where, n, i.args[1], cols, hids)
            return
    if not ctx.check("record-read", where, rec.op == "items" and rec.args[0] == "dict", f"the record is a mapping ({show(rec, 2)})", n):
        return
    f = {}
    for i in rec.args[1:]:
        k = i.args[0]
        if is_const(k):
            f.setdefault(k.args[0], []).append(i.args[1])
    inv = {m: c for c, m in MEAN.items()}
    for m, c in inv.items():
        vs = f.get(m, [])
        ok = bool(vs) and all(all(col_of(a, cols) == c or m == "hid" and hid_term(a, hids) for a in alts(v)) for v in vs)
        ctx.check("record-read", where, ok, f"field {m} is read from column {c}", n)
    for p, d in (("input", "in"), ("output", "out")):
        for suffix, c in (("hids", "ref_history_id"), ("cids", "ref_content_id")):
            vs = f.get(f"{p}_{suffix}", [])
            if not ctx.check("record-read", where, bool(vs), f"the record has {p}_{suffix}", n):
                continue
            n_items = 0
            for v in vs:
                for i in (strip(v, {"dict"}).args[1:] if strip(v, {"dict"}).op == "items" else ()):
                    n_items += 1
                    k, val, _, g = i.args
                    ctx.check("record-read", where, k is not None and col_of(k, cols) == "name" and col_of(val, cols) == c,
                              f"{p}_{suffix} maps column name to column {c}", n)
                    ctx.check("record-read", where, direction_of(g, cols) == d, f"{p}_{suffix} takes the rows of direction '{d}'", n)
            ctx.check("record-read", where, n_items >= 1, f"{p}_{suffix} is filled from the rows", n)


def hid_term(a, hids):
    """a group's key or the requested id"""
    return a is mk("elem", hids) or (a.op in ("sub", "elem", "key") and (contains(a, lambda t: is_call(t, ".groupby")) is not None))


def direction_of(guards, cols):
    out = set()
    for g, p in guards:
        if g.op == "op" and g.args[0] in ("eq", "is"):
            for x, y in ((g.args[1], g.args[2]), (g.args[2], g.args[1])):
                if is_const(x) and x.args[0] in ("in", "out") and col_of(y, cols) == "direction":
                    d = x.args[0]
                    out.add(d if p else {"in": "out", "out": "in"}[d])
    return out.pop() if len(out) == 1 else None


QUERY = {  # method: (columns compared with the argument, direction, column returned)
    "get_creator_hids": ("ref_history_id", "out", "call_history_id"),
    "get_consumer_hids": ("ref_history_id", "in", "call_history_id"),
    "get_input_hids": ("call_history_id", "in", "ref_history_id"),
    "get_output_hids": ("call_history_id", "out", "ref_history_id"),
}
SIMPLE = {"exists": "call_history_id", "exists_content": "call_content_id", "exists_ref_hid": "ref_history_id", "drop": "call_history_id",
          "get_data_content": "call_content_id", "mget_data": "call_history_id"}


def sql_query(s):
    """(returned, compared columns, direction, connective) of a recognised statement"""
    m = re.match(r"(SELECT\s+(DISTINCT\s+)?(?P<col>COUNT\(\*\)|\*|\w+|[\w, ]+)\s+FROM|DELETE\s+FROM)\s+\S+\s+WHERE\s+(?P<w>.*)$", s.strip(), re.I | re.S)
    if not m:
        return None
    w = m.group("w")
    comp = {c.lower() for c in re.findall(r"(\w+)\s*(?:=\s*\?|IN\s*\()", w, re.I)}
    dirs = {d.lower() for d in re.findall(r"direction\s*=\s*[\"'](\w+)[\"']", w, re.I)}
    neg = bool(re.search(r"\bNOT\b|!=|<>", w, re.I))
    ors = bool(re.search(r"\bOR\b", w, re.I))
    return (m.group("col") or "").lower(), comp - {"direction"}, dirs, neg or ors


def queries(ctx, cols, mem):
    for cls in ("SQLiteCallStorage", "InMemCallStorage"):
        for meth in list(QUERY) + list(SIMPLE):
            c = ctx.prog.classes[cls].find(meth)
            if c is None:
                continue
            r = ctx.run(cls, meth, opaque=op_names("get_data", base=LEAF), tag="q")
            where = f"{cls}.{meth}"
            ps = [v for p, v in r.P.items() if p not in ("self", "conn")]
            if cls == "SQLiteCallStorage":
                n_q = 0
                for n in r.find("call"):
                    if short(n.d["name"] or "") not in ("execute", "read_sql"):
                        continue
                    q = sql_query(stmt(n))
                    if not ctx.check("query", where, q is not None, f"the statement is a recognised query ({stmt(n)[:60]})", n):
                        continue
                    n_q += 1
                    a = arg(n, 1, "parameters", "params")
                    ctx.check("query", where, a is not None and any(contains(r.snap(n, a), lambda t: t in ps) is not None for _ in (1,)),
                              "the query is about the identities asked for", n)
                    col, comp, dirs, odd = q
                    if meth in QUERY:
                        wc, wd, wr = QUERY[meth]
                        ctx.check("query", where, comp == {wc} and dirs == {wd} and not odd, f"selects rows of direction '{wd}' by {wc}", n)
                        ctx.check("query", where, col == wr or col == "*", f"returns {wr}", n)
                        if col == "*":
                            ctx.check("query", where, False, f"returns {wr}", n)
                    else:
                        ctx.check("query", where, comp == {SIMPLE[meth]} and not dirs and not odd, f"selects rows by {SIMPLE[meth]}", n)
                ctx.minimum("query", where, n_q, 1, "statements")
                sql_results(ctx, r, where, meth, cols)
            else:
                mem_query(ctx, r, where, meth, ps, mem)


def sql_results(ctx, r, where, meth, cols):
    for n, s, v in r.ends:
        t = r.it.snap(s, v)
        if meth in QUERY:
            for cv in coverage(t):
                ctx.check("query", where, cv.val.op == "sub" and is_const(cv.val.args[1], 0) and len(cv.bases) == 1 and not cv.guards
                          and contains(cv.bases[0], lambda u: is_call(u, ".execute")) is not None, "every selected row is part of the result", n)
        elif meth.startswith("exists"):
            ok = all(a.op == "op" and a.args[0] == "lt" and is_const(a.args[1], 0) and contains(a, lambda u: is_call(u, ".execute")) is not None
                     or a.op == "op" and a.args[0] in ("not",) or a.op == "const" for a in alts(t)) and contains(t, lambda u: is_call(u, ".execute")) is not None
            ctx.check("query", where, ok or len(r.ends) > 1, "true exactly when there is a row", n)
        elif meth == "get_data_content":
            ns = [m for m in r.find("call") if short(m.d["name"] or "") == "get_data"]
            ctx.minimum("query", where, len(ns), 1, "record reads")
            for m in ns:
                a = r.snap(m, m.d["args"][0] if m.d["args"] else list(m.d["kwargs"].values())[0])
                ctx.check("query", where, a.op == "sub" and col_of(a, cols) == "call_history_id" or col_of(a, ["call_history_id"]) == "call_history_id",
                          "the call read is one of those selected", m)


def mem_conds(t):
    """columns compared in a pandas selection: {(column, 'arg' | constant)}"""
    out = set()
    for x in subterms(t):
        if is_call(x, ".query") and len(cargs(x)) > 1 and is_const(cargs(x)[1]):
            q = cargs(x)[1].args[0]
            for c, a in re.findall(r"(\w+)\s+(?:in|==)\s+@(\w+)", q):
                out.add((c, "arg"))
            for c, op, a in re.findall(r"(\w+)\s*(==|!=)\s*[\"'](\w+)[\"']", q):
                out.add((c, a if op == "==" else "not " + a))
            if re.search(r"\bor\b|\bnot\b|\|", q):
                out.add(("", "or"))
        if is_call(x, ".isin"):
            c = column(cargs(x)[0])
            if c:
                out.add((c, "arg"))
        if x.op == "op" and x.args[0] == "eq":
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                c = column(b)
                if c:
                    out.add((c, a.args[0] if is_const(a) else "arg"))
        if x.op == "op" and x.args[0] in ("bitor", "invert"):
            out.add(("", "or"))
    return out


def column(t):
    if is_call(t, ".get_level_values") and len(cargs(t)) > 1 and is_const(cargs(t)[1]):
        l = cargs(t)[1].args[0]
        return IDX[l] if isinstance(l, int) else l
    if t.op == "attr" and contains(t.args[0], lambda u: u.op == "attr" and u.args[1] == "df" or u.op == "param" and str(u.args[0]).endswith(".df")) is not None \
            and t.args[1] not in ("loc", "index", "iloc"):
        return t.args[1]
    if t.op == "sub" and is_const(t.args[1]) and isinstance(t.args[1].args[0], str):
        return t.args[1].args[0]
    return None


def mem_query(ctx, r, where, meth, ps, cols):
    terms = [(n, r.it.snap(s, v)) for n, s, v in r.ends]
    if meth in QUERY:
        wc, wd, wr = QUERY[meth]
        for n, t in terms:
            cs = mem_conds(t)
            ctx.check("query", where, cs == {(wc, "arg"), ("direction", wd)}, f"selects rows of direction '{wd}' by {wc}", n)
            names = {column(x) for x in subterms(t) if column(x)}
            outer = strip(t, WRAP | {".unique", ".tolist"})
            while outer.op == "items" and len(outer.args) == 2 and len(outer.args[1].args[2]) == 1 and outer.args[1].args[1] is mk("elem", outer.args[1].args[2][0]):
                outer = strip(outer.args[1].args[2][0], WRAP | {".unique", ".tolist"})
            ctx.check("query", where, column(outer) == wr, f"returns {wr}", n)
    elif meth in ("exists", "exists_content"):
        for n, t in terms:
            ok = False
            for a in alts(t):
                if a.op == "op" and a.args[0] == "in":
                    col = strip(a.args[2], WRAP | {".unique"})
                    if a.args[1] in ps:
                        ok = column(col) == SIMPLE[meth] or meth == "exists" and col.op == "attr" and col.args[1] == "call_hids"
            ctx.check("query", where, ok, f"true exactly when {SIMPLE[meth]} is recorded", n)
    elif meth == "get_data_content":
        ns = [m for m in r.find("call") if short(m.d["name"] or "") == "get_data"]
        ctx.minimum("query", where, len(ns), 1, "record reads")
        for m in ns:
            a = r.snap(m, m.d["args"][0] if m.d["args"] else list(m.d["kwargs"].values())[0])
            cs = mem_conds(a)
            ctx.check("query", where, ("call_content_id", "arg") in cs and len(cs) == 1, "selects rows by call_content_id", m)
            ctx.check("query", where, any(column(x) == "call_history_id" for x in subterms(a)), "the call read is one of those selected", m)


def rebuild(ctx):
    r = ctx.run("Storage", "_get_call_from_data", opaque=op_names("load_ref", "CachedDictStorage.get"), attrs_=attrs(), tag="rebuild")
    rec = r.P["call_data"]
    where = "Storage._get_call_from_data"
    news = [n for n in r.find("new") if n.d["cls"] == "Call"]
    ctx.minimum("rebuild", where, len(news), 1, "calls built")
    from .C01 import fields

    def fld(f):
        s = mk("sub", rec, const(f))
        return lambda t: t is s or (is_call(t, ".get") and cargs(t)[0] is rec and is_const(cargs(t)[1], f))
    for n in news:
        f = fields(ctx, r, n)
        for a in ("cid", "hid", "semantic_version", "content_version"):
            ctx.check("rebuild", where, all(fld(a)(x) or is_const(x, None) and a.endswith("version") for x in alts(r.snap(n, f[a]))) and any(fld(a)(x) for x in alts(r.snap(n, f[a]))),
                      f"the call's {a} is the record's", n)
        op = r.snap(n, f["op"])
        ctx.check("rebuild", where, is_call(op) and short(op.args[0]) == "get" and fld("op_name")(cargs(op)[-1]) and
                  contains(op, lambda t: t is r.it.final_attr("ops") if hasattr(r.it, "final_attr") else True) is not None, "the call's op is the one recorded", n)
        for a, h in (("inputs", "input_hids"), ("outputs", "output_hids")):
            base = mk("sub", rec, const(h))
            covs = coverage(r.snap(n, f[a]))
            ok = bool(covs)
            for cv in covs:
                v = cv.val
                ok = ok and cv.bases == (base,) and not cv.guards and cv.key in (mk("key", base), mk("elem", base)) and is_call(v) and short(v.args[0]) == "load_ref" \
                    and any(x in (mk("val", base), mk("sub", base, cv.key)) for x in cargs(v))
            ctx.check("rebuild", where, ok, f"the call's {a} are the refs recorded, under their names", n)


def bulk(ctx):
    """the cache and the database are asked for disjoint parts of the request and merged back in order"""
    r = ctx.run("Storage", "get_call", opaque=op_names("mget_call"), attrs_=attrs(), tag="bulk")
    ns = calls_to(r, "mget_call")
    ctx.minimum("bulk", "Storage.get_call", len(ns), 1, "bulk reads")
    for n in ns:
        b = n.d["bound"]
        ctx.check("bulk", "Storage.get_call", [c.val for c in coverage(r.snap(n, b["hids"]))] == [r.P["hid"]] or const_seq(r.snap(n, b["hids"])) == [r.P["hid"]],
                  "the call asked for is read", n)
        ctx.check("bulk", "Storage.get_call", b.get("in_memory") is r.P["lazy"], "lazy is passed on", n)
    for cls in ("SQLiteCallStorage", "InMemCallStorage"):
        r = ctx.run(cls, "get_data", opaque=op_names("mget_data", base=LEAF), tag="bulk")
        ns = calls_to(r, "mget_data")
        ctx.minimum("bulk", f"{cls}.get_data", len(ns), 1, "bulk reads")
        for n in ns:
            b = n.d["bound"]
            ctx.check("bulk", f"{cls}.get_data", const_seq(r.snap(n, b["call_hids"])) == [r.P["call_history_id"]], "the call asked for is read", n)


def const_seq(t):
    t = strip(t)
    if t.op == "items":
        return [i.args[1] for i in t.args[1:] if not i.args[2] and not i.args[3]]
    if t.op == "tuple":
        return list(t.args)
    return None
