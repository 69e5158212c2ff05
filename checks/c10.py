"""C10: every SQL statement is valid for the database it is sent to."""
import ast

from sa.lab import *
from sa.sqlfx import placeholders

R_VALID = "statement-compiles"
R_BIND = "values-match-placeholders"
R_COL = "columns-exist-in-result"
R_UNP = "row-unpacked-exactly"
R_POS = "columns-line-up"


def run(c, lab):
    c.rule(R_VALID, "the statement compiles (SQLite's compiler) against the schema the package itself creates for that connection")
    c.rule(R_BIND, "as many values are bound as the statement has placeholders; named placeholders exist in what is bound")
    c.rule(R_COL, "each result column that is used is selected by the statement")
    c.rule(R_UNP, "a row is unpacked into exactly the columns selected")
    c.rule(R_POS, "a column copied between tables keeps its name: column i of the source is not another column of the target")
    c.assumptions += ["the schema of Twittersphere databases is external: only placeholders and result columns are checked there"]
    groups = {}
    visited = set()
    runs = lab.all_runs()
    c.require(runs, "no database code found")
    cats = {"index": lab.catalogue("index"), "segment": lab.catalogue("segment")}
    for g, r in runs:
        if g not in cats and g.startswith("hyperreal.corpus"):
            cats[g] = corpus_catalogue(lab, runs, g)
    for kind, cat in cats.items():
        if cat is None:
            continue
        for s, e in cat.errors:
            c.bad(R_VALID, kind, clean(s)[:60], f"the schema statement is invalid: {e}", kind)
        if kind in ("index", "segment"):
            c.ok(R_VALID, kind, "schema", f"{len(cat.tables())} tables")
    for g, r in runs:
        c.guard(R_VALID, r.name, lambda: check_run(c, lab, cats, g, r, visited))
    for v in (4, 5):
        for e in lab.open_index(v).of("sql"):
            visited.add((e.mod.name, e.node.lineno, e.node.col_offset))
    # statements in code no analysis reached
    for m in lab.p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("execute", "executemany", "executescript"):
                c.count("sql_call_sites")
                if (m.name, n.lineno, n.col_offset) not in visited:
                    c.count("sql_call_sites_not_reached")
                    c.unsure(R_VALID, m.name, ast.unparse(n)[:60], "call site not reached by the analysis", f"{m.path.name}:{n.lineno}")


def corpus_catalogue(lab, runs, g):
    ddl = []
    for g2, r in runs:
        if g2 != g:
            continue
        for e, s in lab.const_sql(r, lab.main_conns(r)):
            if first(s) == "create" and s not in ddl:
                ddl.append(s)
    if not ddl:
        return None
    ag, fu = lab.aggregates()
    return Catalogue(ddl, ag, fu)


def dict_rows(r, conn):
    """Does the connection return rows as mappings?  True / False / None."""
    for e in r.events:
        if e.kind == "setattr" and e.d.get("obj") is conn and e.d.get("name") == "row_factory":
            return not is_const(e.d["value"], None)
    for _, _, st in r.outs:
        v = st.env.get(("@", conn, "row_factory"))
        if v is not None:
            return not is_const(v, None)
    return False


def check_run(c, lab, cats, g, r, visited):
    _CATS[:] = [x for x in cats.values() if x is not None]
    for e in r.of("sql"):
        visited.add((e.mod.name, e.node.lineno, e.node.col_offset))
        kind = lab.conn_group(r, g, e.d["conn"])
        sql = e.d["sql"]
        label = stmt_label(text_of(sql))
        if not is_const(sql):
            c.unsure(R_VALID, e.fn, label, f"statement text is not constant: {text_of(sql)[:80]}", e.where)
            continue
        text = sql[0]
        if not isinstance(text, str) or not clean(text):
            continue
        cat = cats.get(kind)
        stmts = split_script(text) if e.d["how"] == "executescript" else [text]
        for s in stmts:
            w = first(s)
            if w in ("begin", "commit", "end", "rollback", "savepoint", "release", "pragma", "attach", "detach", "vacuum"):
                c.count("control_statements")
                continue
            if cat is None:
                fx = lab.empty_catalogue().compile(s)
                if fx.error and any(x in fx.error for x in ("syntax error", "unrecognized token", "incomplete input", "no such function")):
                    c.bad(R_VALID, e.fn, label, f"{fx.error} in: {clean(s)[:120]}", e.where)
                elif kind is not None:
                    c.unsure(R_VALID, e.fn, label, "the schema of this database is not declared by the package", e.where)
                else:
                    c.unsure(R_VALID, e.fn, label, "connection of unknown purpose", e.where)
                continue
            fx = cat.compile(s)
            if fx.error and "no such table" in fx.error and not lab.segment_ddl()[1]:
                c.unsure(R_VALID, e.fn, label, f"the worker that creates the temporary tables was not found: {fx.error}", e.where)
            elif fx.error and "already exists" not in fx.error:
                c.bad(R_VALID, e.fn, label, f"{fx.error} in: {clean(s)[:120]}", e.where)
            else:
                c.ok(R_VALID, e.fn, f"{label} {hash_of(s)}", f"reads {sorted(fx.read_tables())} writes {sorted(fx.written_tables())}", e.where)
                positional(c, cat, e, s, label)
        if e.d["how"] != "executescript":
            bind(c, r, e, text, label)
    cols(c, lab, cats, g, r)


def hash_of(s):
    import hashlib
    return hashlib.sha1(clean(s).encode()).hexdigest()[:6]


def bind(c, r, e, text, label):
    n, names = placeholders(text)
    row = e.d["row"]
    params = e.d["params"]
    if e.d["how"] == "executemany" and row is None:
        c.ok(R_BIND, e.fn, label, "no rows are ever bound", e.where)
        return
    con = f"{label} {hash_of(text)}"
    if params is None or is_const(params, None) or (params.op == "tuple" and not params.args):
        c.decide(n == 0 and not names, R_BIND, e.fn, con, f"{n or len(names)} placeholders, no values bound", e.where)
        return
    if names and e.defaults:
        c.ok(R_BIND, e.fn, con, "the mapping bound has a default for every name", e.where)
        return
    for o in options(row):
        if names:
            have, open_ = mapping_keys(r, o, params)
            missing = sorted(x for x in names if have is not None and x not in have)
            if have is None or (missing and open_):
                c.unsure(R_BIND, e.fn, con, f"what is bound to {sorted(names)} is not known", e.where)
            else:
                c.decide(not missing, R_BIND, e.fn, con, f"placeholders {missing} are not in what is bound" if missing else "", e.where)
            continue
        k = length(o, r, e)
        if k is None:
            c.unsure(R_BIND, e.fn, con, f"the number of values bound is not known ({show(o, 3)[:60]})", e.where)
        else:
            c.decide(k == n, R_BIND, e.fn, con, f"{n} placeholders, {k} values bound", e.where)


def length(o, r, e, depth=0):
    """Number of values in a sequence, from its construction."""
    if depth > 8:
        return None
    if o.op in ("tuple", "list"):
        total = 0
        for a in o.args:
            m = length(a[0], r, e, depth + 1) if a.op == "star" else 1
            if m is None:
                return None
            total += m
        return total
    if o.op == "phi":
        ls = {length(x, r, e, depth + 1) for x in o.args}
        return ls.pop() if len(ls) == 1 else None
    if is_const(o) and isinstance(o[0], (tuple, list)):
        return len(o[0])
    if o.op == "row" and o[0].op == "cursor":
        return row_width(o)
    if o.op == "elem":
        return elem_length(o[0], r, e, depth + 1)
    sh = r.ip.shape(o, e.heap)
    if sh is not o:
        return length(sh, r, e, depth + 1)
    return None


def elem_length(seq, r, e, depth):
    """Number of values in each element of a sequence."""
    if depth > 10:
        return None
    if seq.op == "mcall" and seq[1] == "items":
        return 2
    if seq.op == "item" and seq[1].op in ("slice",):
        return elem_length(seq[0], r, e, depth + 1)
    if seq.op == "mu":
        d = r.ip.mus.get(seq)
        if not d or d["init_content"] is None:
            return None
        ls = {elem_length(x, r, e, depth + 1) for x in [d["init_content"]] + [b[1] for b in d["backs"] if b[1] is not None]}
        return ls.pop() if len(ls) == 1 else None
    if seq.op == "upd":
        base = elem_length(seq[1], r, e, depth + 1)
        if seq[0] == "sort":
            return base
        if seq[0] == "add":
            m = length(seq[2][0], r, e, depth + 1)
            return m if base == m or (seq[1].op == "list" and not seq[1].args) else None
        return None
    if seq.op == "rows":
        return row_width(t("row", seq[0], ("@x",)))
    if seq.op == "comp":
        return length(seq[1], r, e, depth + 1)
    if seq.op in ("list", "tuple") and seq.args:
        ls = {length(x, r, e, depth + 1) for x in seq.args}
        return ls.pop() if len(ls) == 1 else None
    if seq.op == "call" and seq[0] in ("list", "sorted", "reversed", "tuple", "set", "iter") and seq[1]:
        return elem_length(seq[1][0], r, e, depth + 1)
    if seq.op == "call" and seq[0] == "enumerate":
        return 2
    if seq.op == "call" and seq[0] == "zip":
        return len(seq[1])
    sh = r.ip.shape(seq, e.heap)
    if sh is not seq:
        return elem_length(sh, r, e, depth + 1)
    return None


_CATS = []


def row_width(o):
    cur = o[0]
    if is_const(cur[1]):
        for cat in _CATS:
            cs = cat.result_columns(cur[1][0])
            if cs is not None:
                return len(cs)
    return None


def mapping_keys(r, o, params):
    """(keys, may there be more) of a mapping bound to named placeholders."""
    if o.op == "kwdict":
        return {k[0] if isinstance(k, T) and is_const(k) else k for k, _ in o[0]}, False
    if o.op == "row" and o[0].op == "cursor" and is_const(o[0][1]):
        for cat in _CATS:
            cs = cat.result_columns(o[0][1][0])
            if cs is not None:
                return set(cs), False
        return None, True
    if o.op == "upd":
        base, open_ = mapping_keys(r, o[1], params)
        if base is None:
            # a mapping with a default answers every name
            return None, True
        if o[0] == "setitem" and is_const(o[2][0]):
            return base | {o[2][0][0]}, open_
        return base, True
    if o.op == "mu":
        return None, True
    return None, True


def select_names(sql):
    """Result column names of a query as written (None when not all can be named)."""
    from sa.sql import parse, SqlError
    try:
        st, _ = parse(sql)
    except SqlError:
        return None
    if st.op != "select":
        return None
    out = set()
    for e, alias in st[0]:
        if alias:
            out.add(alias)
        elif e.op in ("col", "name"):
            out.add(e.args[-1])
        else:
            return None
    return out


def positional(c, cat, e, s, label):
    """insert into T [cols] select ...: a named source column that T also has must land in the column of that name."""
    import re as _re
    m = _re.match(r"\s*(?:insert(?:\s+or\s+\w+)?|replace)\s+into\s+(?:(\w+)\.)?[\"`]?(\w+)[\"`]?\s*(\(([^()]*)\))?\s*(select\b.*)$",
                  s, _re.S | _re.I)
    if not m:
        return
    tb = m.group(2)
    decl = [x[0].lower() for x in cat.columns(tb, m.group(1) or "main")] or [x[0].lower() for x in cat.columns(tb, "temp")]
    cols = [x.strip().strip('"').lower() for x in m.group(4).split(",")] if m.group(3) else decl
    src = cat.result_columns(m.group(5))
    if src is None or not decl:
        return
    src = [x.lower() for x in src]
    wrong = [(a, b) for a, b in zip(src, cols) if a != b and a in decl]
    if wrong:
        c.bad(R_POS, e.fn, label, f"{tb}.{wrong[0][1]} is filled from the column named {wrong[0][0]}: {clean(s)[:100]}", e.where)
    else:
        c.ok(R_POS, e.fn, f"{label} {hash_of(s)}", f"{list(zip(src, cols))[:6]}", e.where)


def cols(c, lab, cats, g, r):
    seen = set()
    for e in r.events:
        terms = []
        for v in e.d.values():
            if isinstance(v, T):
                terms.append(v)
            elif isinstance(v, tuple):
                terms.extend(x for x in v if isinstance(x, T))
            elif isinstance(v, dict):
                terms.extend(x for x in v.values() if isinstance(x, T))
        if e.kind == "unpack":
            v = e.d["value"]
            for o in options(v):
                if o.op == "row" and o[0].op == "cursor" and is_const(o[0][1]):
                    names = width_names(lab, cats, g, r, o[0])
                    if names is not None and not dict_rows(r, o[0][0]):
                        ok = len(names) >= e.d["n"] - 1 if e.d["star"] else len(names) == e.d["n"]
                        c.decide(ok, R_UNP, e.fn, f"{stmt_label(clean(o[0][1][0]))} {hash_of(o[0][1][0])}",
                                 f"{len(names)} columns {names} are unpacked into {e.d['n']}", e.where)
        if e.kind in ("sql", "mcall", "call", "setattr", "yield", "mutate", "unpack", "submit", "iter", "return"):
            for v in terms:
                for x in sub_terms(v):
                    if x.op == "col" and x not in seen and x[0].op == "row":
                        seen.add(x)
                        one_col(c, lab, cats, g, r, x, e)
    for kind, v, st in r.outs:
        for x in sub_terms(v) if isinstance(v, T) else ():
            if x.op == "col" and x not in seen and x[0].op == "row":
                seen.add(x)
                one_col(c, lab, cats, g, r, x, None)


def width_names(lab, cats, g, r, cur):
    kind = lab.conn_group(r, g, cur[0])
    cat = cats.get(kind)
    if cat is None:
        return None
    return cat.result_columns(cur[1][0])


def one_col(c, lab, cats, g, r, x, e):
    cur = x[0][0]
    if cur.op != "cursor" or not is_const(cur[1]):
        return
    names = width_names(lab, cats, g, r, cur)
    key = x[1]
    fn = r.name
    where = e.where if e is not None else fn
    con = f"{stmt_label(clean(cur[1][0]))} {hash_of(cur[1][0])} {key!r}"
    rows_are_dicts = dict_rows(r, cur[0])
    if isinstance(key, int) and not isinstance(key, bool):
        if rows_are_dicts:
            c.bad(R_COL, fn, con, "a row that is a mapping is subscripted by position", where)
        elif names is not None:
            c.decide(-len(names) <= key < len(names), R_COL, fn, con, f"column {key} of {names}", where)
    elif isinstance(key, str):
        if not rows_are_dicts:
            c.bad(R_COL, fn, con, f"a row that is a tuple is subscripted by name {key!r}", where)
        else:
            nm = set(names) if names is not None else select_names(cur[1][0])
            if nm is None:
                c.unsure(R_COL, fn.split('.')[0], con, "result columns unknown", where)
            else:
                low = {n.lower() for n in nm} if names is None else nm
                k = key.lower() if names is None else key
                c.decide(k in low, R_COL, fn, con, f"column {key!r} is not among {sorted(nm)}", where)
