"""C24: loading documents is atomic and keeps every field (transaction typestate under faults; provenance of columns)."""
from sa.hyp import UNKNOWN, value, Unknown, consistent
from sa.interp import Monitor
from sa.lab import *
from sa.rel import Query, Coverage, argument, schema_of
from sa.sql import parse, Resolver, SqlError, conjuncts, eq_closure
from sa.sqlfx import placeholders
from sa.txn import Txn, text_of, stmt_label
from sa.web import Cli, expand

R_TXN = "a-load-is-one-transaction"
R_ERR = "a-failed-load-raises"
R_DROP = "records-are-never-dropped-silently"
R_ALL = "every-record-of-the-input-is-stored"
R_COL = "values-are-stored-in-the-column-of-the-same-meaning"
R_KIND = "post-types-are-named-correctly"
R_ID = "known-records-keep-their-ids"
R_LIVE = "records-are-read-before-they-are-discarded"
R_READ = "values-are-read-from-the-column-of-the-same-meaning"
R_REF = "related-records-are-found-through-their-reference"
R_TEXT = "lines-of-text-are-stored-whole"
R_TAB = "table-fields-are-present-in-every-row"

KINDS = {"1": "Question", "2": "Answer"}


def run(c, lab):
    c.rule(R_TXN, "everything a load writes is inside one transaction: on an error nothing it wrote stays, nothing is left open")
    c.rule(R_ERR, "an error or interrupt inside a load is not turned into a normal return, by the corpus or by the command that calls it")
    c.rule(R_DROP, "inserts of a load never skip a row other than an exact duplicate")
    c.rule(R_ALL, "every iteration over the input of a load writes its record (other kinds of StackExchange posts excepted)")
    c.rule(R_COL, "the value stored in a column comes from the attribute of the same name, and from the file holding that kind of record")
    c.rule(R_KIND, "PostTypeId 1 is stored as Question, 2 as Answer")
    c.rule(R_ID, "storing a record again reuses the generated id found through the record's natural key")
    c.rule(R_LIVE, "attributes of an XML element are read before the element is cleared")
    c.rule(R_READ, "a result column named after a table column is that column (or a fallback to one of the same name)")
    c.rule(R_REF, "rows of related tables are matched on the declared reference")
    c.rule(R_TEXT, "a command that loads a text file stores every line that is not blank, with all of its text")
    c.rule(R_TAB, "the rows rendered for tables have a value for each of the declared table fields")
    c.assumptions += [
        "first-fault model: one error or interrupt per call; transaction control statements of the error path do not fail themselves",
        "StackExchange dumps name their attributes as the corpus names its columns; PostTypeId 1 = question, 2 = answer",
    ]
    loads = set()
    for cls in lab.corpus_classes():
        for n in lab.all_methods(cls):
            if n.startswith("_"):
                continue
            if c.guard(R_TXN, f"{cls.name}.{n}", lambda: load(c, lab, cls, n)):
                loads.add(cls.find(n).qual)
        c.guard(R_READ, cls.qual, lambda: reads(c, lab, cls))
        c.guard(R_TAB, cls.qual, lambda: tables(c, lab, cls))
        for n in ("render_docs_html", "render_docs_table"):
            if cls.find(n) is not None and lab.corpus_cat(cls) is not None:
                c.guard(R_REF, cls.qual, lambda: rendered(c, lab, cls, n))
    c.count("loads", len(loads))
    c.guard(R_ERR, "cli", lambda: commands(c, lab, loads))
    c.guard(R_TEXT, "cli", lambda: text_files(c, lab, loads))


def is_write(s):
    w = first(s)
    return w in DML or w in DDL


def harmless(sql):
    """Only creates what is missing."""
    stmts = [clean(x).lower() for x in split_script(sql)]
    return all(re.match(r"create (unique )?(table|index|trigger|view) if not exists ", s) or s.startswith("pragma ") for s in stmts if s)


class LoadTxn(Txn):
    """Creating what is missing is not part of the content."""

    def step(self, cur, ev):
        if ev.kind == "sql" and is_const(ev.d["sql"]) and isinstance(ev.d["sql"][0], str) and harmless(ev.d["sql"][0]):
            if ev.d["how"] == "executescript":
                if cur[0]:
                    self.commits.append(ev)
                    if cur[1]:
                        self.bad("implicit-commit", ev, "executescript commits the open transaction")
                return ((), False, cur[2] or cur[1])
            return None
        if ev.kind == "sqldone" and ev.d["how"] == "executescript":
            return None
        return super().step(cur, ev)


class Cleared(Monitor):
    """XML elements that have been emptied in this iteration."""
    name = "cleared"

    def __init__(self):
        self.late = []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        cur = st.mon[self.name]
        if ev.kind == "mutate" and ev.d["op"] == "clear" and isinstance(ev.d["ref"], T) and ev.d["ref"].op != "cell":
            st.mon[self.name] = cur | {ev.d["ref"]}
        elif ev.kind == "mcall" and ev.d["name"] == "clear" and isinstance(ev.d["recv"], T):
            st.mon[self.name] = cur | {ev.d["recv"]}
        elif ev.kind == "iter":
            st.mon[self.name] = frozenset(x for x in cur if not any(e is ev.d["elem"] for e in sub_terms(x)))
        elif ev.kind == "mutate" and cur:
            for a in ev.d["args"]:
                for y in sub_terms(a) if isinstance(a, T) else ():
                    if y.op == "attr" and y[0] in cur:
                        self.late.append(ev)


def load(c, lab, cls, n):
    plain = lab.run_method(cls, n, max_states=2)
    main = lab.main_conns(plain)
    writes = [e for e in plain.of("sql") if e.d["conn"] in main and e.d["how"] != "executescript" and is_write(text_of(e.d["sql"]))]
    if not any(first(text_of(e.d["sql"])) in DML for e in writes):
        return 0
    fn = f"{cls.name}.{n}"
    conns = []

    def prep(ip, obj, st):
        return st

    mon = LoadTxn(lambda conn: conn in main)
    cl = Cleared()
    r = lab.run_method(cls, n, faults=True, monitors=[mon, cl], max_states=4, key="c24")
    c.count("paths", len(r.outs))
    bad = False
    for rule, ev, msg in mon.problems:
        if rule in ("write-outside", "implicit-commit", "nested-begin"):
            c.bad(R_TXN, fn, f"{rule}:{stmt_label(text_of(ev.d['sql'])) if 'sql' in ev.d else ev.kind}", f"{fn}: {msg}", ev.where)
            bad = True
    for kind, v, st in r.outs:
        stack, dirty, durable = st.mon["txn"]
        if stack and not control(r, st.fault):
            c.bad(R_TXN, fn, f"open:{kind}", f"{fn} {'ends with an error' if kind == 'raise' else 'returns'} with a transaction left open", fn)
            bad = True
        if kind == "raise" and durable:
            c.bad(R_TXN, fn, "partial", f"{fn} ends with an error after committing part of the new content{site(st.fault)}", fn, ())
            bad = True
        if kind == "return" and st.fault is not None and len(st.fault) < 3 and st.fault[0] != "Exception?":
            c.bad(R_ERR, fn, "return", f"{fn} returns normally after {st.fault[0]}{site(st.fault)}", fn)
            bad = True
    if not bad:
        c.ok(R_TXN, fn, "", f"{len(r.outs)} outcomes, {len(mon.writes)} writes")
        c.ok(R_ERR, fn, "", f"{len(r.outs)} outcomes")
    if cl.late:
        for ev in cl.late:
            c.bad(R_LIVE, fn, "clear", f"{fn} reads the attributes of an element after it has been cleared", ev.where)
    else:
        c.ok(R_LIVE, fn)
    cat = lab.corpus_cat(cls)
    coverage(c, lab, cls, n, fn, main, plain)
    full = lab.run_method(cls, n, max_states=4)
    for e in full.of("sql"):
        if e.d["conn"] in main and is_const(e.d["sql"]) and isinstance(e.d["sql"][0], str) and e.d["how"] != "executescript":
            s = e.d["sql"][0]
            if first(s) in ("insert", "replace") and cat is not None:
                c.guard(R_COL, fn, lambda: insert(c, lab, full, fn, cat, e, s))
    return 1


def control(r, fault):
    """Is the failing statement the one that ends the transaction?"""
    return fault is not None and any(e.d["word"] in ("commit", "end", "release", "rollback") for e in r.of("sql") if e.site == fault[1][-len(e.site):])


def site(fault):
    s = [x for x in (fault or ((), ()))[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int)]
    return f" (after {fault[0]} at {s[-1][0]}:{s[-1][1]})" if s else ""


# ---------------------------------------------------------------- coverage of the input
def of_params(x):
    return {y[1] for y in sub_terms(x) if y.op == "param" and not str(y[0]).endswith("()")}


def type_leaf(kind, look=None):
    def leaf(x):
        if x.op == "cell" and look is not None:
            y = look(x)
            return UNKNOWN if y is x else value(y, leaf)
        if x.op == "item" and is_const(x[1], "PostTypeId"):
            return kind
        if x.op == "mcall" and x[1] == "get" and x[2] and is_const(x[2][0], "PostTypeId"):
            return kind
        return UNKNOWN
    return leaf


def coverage(c, lab, cls, n, fn, main, plain):
    loops = {}
    for e in plain.of("iter"):
        if of_params(e.d["iter"]):
            loops[e.d["loop"]] = e
    for e in list(plain.of("sql")):
        # a whole input stored by one executemany
        if e.d["how"] == "executemany" and e.d["conn"] in main and not e.loops and of_params(expand(plain.ip, e.d["params"], e.heap)):
            loops.pop(None, None)
    top = {lid: e for lid, e in loops.items() if not any(x in loops for x in e.loops if x != lid)}

    def other_kind(facts, look):
        # the record is neither a question nor an answer
        return bool(facts) and all(consistent(facts, type_leaf(k, look)) is False for k in KINDS)

    def work(ev):
        return ev.kind == "sql" and ev.d["conn"] in main and first(text_of(ev.d["sql"])) in ("insert", "replace", "update")

    for lid, e in top.items():
        # rows produced by a generator are stored by the executemany that consumes it
        if generator_of(plain, lid) is not None:
            generated(c, plain, fn, lid, e)
            continue
        cov = Coverage([lid], work, other_kind)
        r = lab.run_method(cls, n, monitors=[cov], max_states=4, key=("c24cov", lid))
        what = "/".join(sorted(of_params(e.d["iter"])))
        miss = [s for k, v, s in r.outs if k == "return" and dict(s.mon["coverage"]).get("!")]
        early = [s for k, v, s in r.outs if k == "return" and lid in dict(s.mon["coverage"])]
        if miss or early:
            c.bad(R_ALL, fn, what, f"{fn} can {'skip records of' if miss else 'stop before the end of'} {what}", e.where)
        else:
            c.ok(R_ALL, fn, what, "every iteration writes", e.where)
    for e in plain.of("iter"):
        it = e.d["iter"]
        x = expand(plain.ip, it, e.heap)
        p = [y[-1] for y in sub_terms(x) if y.op == "param" and y[-1] in INPUT_PARAMS(plain)]
        if not p or e.loops and any(it2.d["loop"] in e.loops for it2 in loops.values()):
            continue
        kinds_ = {y[0] for y in sub_terms(x) if y.op == "call" and isinstance(y[0], str)}
        if it.op == "cell" and it[0] in ("set", "frozenset") or kinds_ & {"set", "frozenset", "dict.fromkeys"}:
            c.bad(R_ALL, fn, p[0], f"{fn} keeps only one of equal {p[0]}", e.where)
        elif x.op == "call" and x[0] == "itertools.islice" and len(x[1]) > 1 and x[1][0].op == "param" and not is_const(x[1][1 if len(x[1]) == 2 else 2], None):
            c.bad(R_ALL, fn, p[0], f"{fn} stops before the end of {p[0]}", e.where)
    for p in plain.fn.posargs[1:] if plain.fn else ():
        if p in INPUT_PARAMS(plain) and not any(p in of_params(e.d["iter"]) for e in loops.values()):
            c.unsure(R_ALL, fn, p, "the input is not iterated over in a recognised way")


def INPUT_PARAMS(r):
    return {p for p in r.fn.posargs[1:] if p.endswith("_file") or p in ("texts", "docs")}


def generator_of(r, lid):
    for s in r.of("sql"):
        if s.d["how"] != "executemany":
            continue
        for y in sub_terms(expand(r.ip, s.d["params"], s.heap)):
            if y.op == "comp" and any(z is lid or z == lid for z in flat(y.args[-1])):
                return s, y
    return None


def generated(c, r, fn, lid, e):
    what = "/".join(sorted(of_params(e.d["iter"])))
    s, y = generator_of(r, lid)
    if y.args[-2]:
        c.bad(R_ALL, fn, what, f"{fn} leaves out some of {what}", s.where)
    else:
        c.ok(R_ALL, fn, what, "one row for every element", s.where)


def flat(x):
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            out += flat(y)
    return out


# ---------------------------------------------------------------- inserts
def lookup(row, key):
    """(value, name of the attribute it was copied from) of a bound parameter."""
    if row is None:
        return None
    if row.op == "upd" and row[0] == "setitem":
        k, v = row[2].args if isinstance(row[2], T) else row[2]
        if is_const(k, key):
            return v, None
        return lookup(row[1], key) if is_const(k) else None
    if row.op == "upd" and row[0] in ("extend", "update"):
        src = row[2][0] if isinstance(row[2], tuple) else row[2].args[0]
        if src.op == "attr" and src[1] == "attrib":
            return t("item", src, const(key)), key
        inner = lookup(src, key)
        return inner or lookup(row[1], key)
    if row.op in ("tuple", "list") and isinstance(key, int):
        return (row[key - 1], None) if len(row.args) >= key else None
    if row.op == "kwdict":
        for k, v in row[0]:
            if (k[0] if isinstance(k, T) and is_const(k) else k) == key:
                return v, None
    if row.op == "call" and row[0] == "dict" and row[1]:
        return lookup(row[1][0], key)
    return None


def sources(v):
    """Names of the attributes and columns a value is computed from, and whether it is one of them unchanged."""
    names, direct = set(), False
    x = v
    while x.op == "call" and x[0] in ("int", "str") and len(x[1]) == 1:
        x = x[1][0]
    n = name_of(x)
    if n is not None:
        return {n.lower()}, True
    for y in sub_terms(v):
        n = name_of(y)
        if n is not None:
            names.add(n.lower())
    return names, direct


def name_of(x):
    if x.op == "item" and is_const(x[1]) and isinstance(x[1][0], str):
        return x[1][0]
    if x.op == "mcall" and x[1] == "get" and x[2] and is_const(x[2][0]) and isinstance(x[2][0][0], str):
        return x[2][0][0]
    if x.op == "col" and isinstance(x[1], str):
        return x[1]
    return None


def insert(c, lab, r, fn, cat, e, s):
    stmt, params = parse(s)
    alg, sch, table, cols, src, upsert = stmt.args
    table = table.lower()
    allc = [x[0].lower() for x in cat.columns(table)]
    if not allc or src.op != "select":
        c.unsure(R_COL, fn, table, "insert not understood", e.where)
        return
    names = [x.lower() for x in cols] if cols else allc
    values = None
    frm = src[1]
    if frm and frm[0][0] == "values":
        rows = frm[0][1]
        values = rows[0][0] if hasattr(rows, "args") else None
        while isinstance(values, tuple) and len(values) == 1 and isinstance(values[0], tuple):
            values = values[0]
    else:
        values = [x[0] for x in src[0]]
    if values is None or len(values) != len(names):
        c.unsure(R_COL, fn, table, "values not understood", e.where)
        return
    row = expand(r.ip, e.d["row"], e.heap) if e.d.get("row") is not None else None
    keys = [tuple(k) for k in cat.unique_keys(table)]
    # ---- conflicts
    w = (alg or "").lower()
    if w == "ignore" or (upsert is not None and upsert.op == "do_nothing"):
        if any(set(names) <= set(k) for k in keys):
            c.ok(R_DROP, fn, table, "only exact duplicates are skipped", e.where)
        else:
            c.bad(R_DROP, fn, table, f"{fn} skips a row of {table} that conflicts with another or is invalid instead of storing it or failing", e.where)
    else:
        c.ok(R_DROP, fn, table, f"{'insert or ' + w if w and w != 'replace' else first(s)}", e.where)
    # ---- columns
    bound = {}
    good, decided = True, 0
    linking = {k for ks in keys for k in ks} | {row_[3].lower() for row_ in cat.db.execute(f"pragma foreign_key_list({table})").fetchall()}
    for name, x in zip(names, values):
        v = None
        fixed = x.op == "lit" and x[0] is not None
        if x.op == "param":
            v = lookup(row, x[0])
            fixed = v is not None and is_const(v[0]) and v[0][0] is not None
        if fixed and name in linking:
            good = False
            c.bad(R_COL, fn, f"{table}.{name}", f"{fn} stores the same {name} for every {table} record", e.where)
        if x.op == "param":
            if v is None and isinstance(x[0], str):
                v = (t("item", t("record"), const(x[0])), x[0])
        if v is None:
            continue
        bound[name] = x
        v, copied = v
        names_, direct = sources(v)
        if copied:
            names_, direct = {copied.lower()}, True
        if name in names_:
            decided += 1
            continue
        other = names_ & set(allc)
        if direct and other:
            good = False
            c.bad(R_COL, fn, f"{table}.{name}", f"{fn} stores {sorted(other)[0]} in {table}.{name}", e.where)
        if not direct and other and not (name in names_) and len(names_) == len(other):
            good = False
            c.bad(R_COL, fn, f"{table}.{name}", f"{fn} computes {table}.{name} from {', '.join(sorted(other))}", e.where)
        if isinstance(x[0], str) and x[0].lower() in allc and x[0].lower() != name:
            good = False
            c.bad(R_COL, fn, f"{table}.{name}", f"{fn} stores :{x[0]} in {table}.{name}", e.where)
        if name == "posttype":
            kinds(c, fn, e, v)
    # the file the records come from
    files = {y[1] for x in sub_terms(row) if row is not None for y in [x] if y.op == "param" and str(y[1]).endswith("_file")} if row is not None else set()
    named = {p for p in r.fn.posargs if p.endswith("_file")}
    own = {p for p in named if table in p.lower() or p.lower().split("_")[0].rstrip("s") == table}
    if own and files and not files & own:
        good = False
        c.bad(R_COL, fn, f"{table} source", f"{fn} fills {table} from {'/'.join(sorted(files))}", e.where)
    if good:
        c.ok(R_COL, fn, table, f"{decided} of {len(names)} columns traced to the attribute of the same name", e.where)
    identity(c, r, fn, cat, e, stmt, table, names, values, keys, allc)


def kinds(c, fn, e, v):
    ok = True
    for k, want in KINDS.items():
        if consistent(e.facts, type_leaf(k)) is False:
            continue
        try:
            got = value(v, type_leaf(k))
        except Unknown:
            c.unsure(R_KIND, fn, k, "value not evaluated", e.where)
            ok = False
            continue
        if got != want:
            ok = False
            c.bad(R_KIND, fn, k, f"{fn} stores posts of type {k} ({want}) as {got!r}", e.where)
    if ok:
        c.ok(R_KIND, fn, "PostType", "1 -> Question, 2 -> Answer", e.where)


def identity(c, r, fn, cat, e, stmt, table, names, values, keys, allc):
    """A generated id survives storing the record again."""
    alg, sch, _, cols, src, upsert = stmt.args
    info = cat.columns(table)
    pk = [x for x in info if x[2]]
    if len(pk) != 1 or "int" not in pk[0][1]:
        return
    pkn = pk[0][0].lower()
    natural = [k for k in keys if pkn not in k]
    if not natural:
        return
    if (alg or "").lower() != "replace":
        c.ok(R_ID, fn, table, "existing rows are not replaced", e.where)
        return
    if pkn not in names:
        c.bad(R_ID, fn, table, f"{fn} replaces rows of {table} without keeping {pkn}: known records get new ids", e.where)
        return
    x = values[names.index(pkn)]
    if x.op == "fn" and x[0] == "coalesce":
        x = x.args[2] if len(x.args) > 2 else x
    if x.op != "sub":
        if x.op == "lit" or (x.op == "null"):
            c.bad(R_ID, fn, table, f"{fn} replaces rows of {table} with a new {pkn}: known records get new ids", e.where)
        elif x.op == "param":
            c.unsure(R_ID, fn, table, "the id is bound", e.where)
        else:
            c.unsure(R_ID, fn, table, f"id expression {x.op}", e.where)
        return
    q = Resolver(schema_of(cat)).select(x[0])
    want = {}
    for k in natural:
        want[k] = {col: values[names.index(col)] for col in k if col in names}
    conds = [y for w in q[2] for y in conjuncts(w)]
    have, extra = {}, []
    for y in conds:
        if y.op == "cmp" and y[0] in ("=", "is"):
            a, b = y[1], y[2]
            if a.op != "c":
                a, b = b, a
            if a.op == "c":
                have[a[1]] = b
                continue
        extra.append(y)
    sel = q[0][0][0]
    insts = [i for jt, i, on, u in q[1]]
    if len(insts) != 1 or insts[0].op != "inst" or insts[0][0] != table:
        c.bad(R_ID, fn, table, f"{fn} looks the id of a {table} record up in another table", e.where)
        return
    if not (sel.op == "c" and sel[1] == pkn):
        c.bad(R_ID, fn, table, f"{fn} looks up something else than {table}.{pkn} for the id", e.where)
        return
    for k in natural:
        if set(have) == set(k) and not extra:
            diff = [col for col in k if have[col] is not want[k].get(col)]
            if not diff:
                c.ok(R_ID, fn, table, f"{pkn} is looked up by {', '.join(k)}", e.where)
            else:
                c.bad(R_ID, fn, table, f"{fn} looks the id of a {table} record up by another value of {', '.join(diff)} than the record's", e.where)
            return
    if any(set(have) < set(k) for k in natural) and not extra:
        c.bad(R_ID, fn, table, f"{fn} looks the id of a {table} record up by {', '.join(sorted(have))} only", e.where)
        return
    c.bad(R_ID, fn, table, f"{fn} looks the id of a {table} record up by {', '.join(sorted(have)) or 'no column'}"
          f"{' and further conditions' if extra else ''}, not by its key", e.where) if not (set(have) & set(sum(natural, ()))) or extra else \
        c.unsure(R_ID, fn, table, "lookup not understood", e.where)


# ---------------------------------------------------------------- reading
def reads(c, lab, cls):
    cat = lab.corpus_cat(cls)
    if cat is None or not cat.tables():
        return
    seen = set()
    for g, r in lab.all_runs():
        if g != cls.qual:
            continue
        main = lab.main_conns(r)
        for e in r.of("sql"):
            if e.d["conn"] in main and is_const(e.d["sql"]) and isinstance(e.d["sql"][0], str) and first(e.d["sql"][0]) == "select":
                k = (e.d["sql"][0], e.fn)
                if k in seen:
                    continue
                seen.add(k)
                c.guard(R_READ, e.fn, lambda: read(c, lab, r, cat, e, e.d["sql"][0]))


def rendered(c, lab, cls, n):
    from checks import c29
    c29.own_records(c, lab, cls, c29.Docs(lab, cls, n), method=n, rule=R_REF)


def col_leaves(x):
    """Columns a value may be (through fallbacks and scalar subqueries), None when it is computed otherwise."""
    if x.op == "c":
        return [x]
    if x.op == "fn" and x[0] in ("coalesce", "ifnull"):
        out = []
        for a in x.args[2:]:
            if isinstance(a, T) and a.op == "lit" or not isinstance(a, T):
                continue
            s = col_leaves(a)
            if s is None:
                return None
            out += s
        return out
    if x.op == "sub":
        cols = x[0][0]
        return col_leaves(cols[0][0]) if len(cols) == 1 else None
    return None


def read(c, lab, r, cat, e, s):
    q = Query(cat, s)
    fn = e.fn
    label = "+".join(sorted({i[0] for jt, i, on, u in q.frm if i.op == "inst" and isinstance(i[0], str)}))
    colnames = {x[0].lower() for tb in cat.tables() for x in cat.columns(tb)}
    good = True
    for x, alias in zip(q.cols, q.aliases):
        leaves = col_leaves(x) if isinstance(x, T) else None
        a = (alias or (x[1] if isinstance(x, T) and x.op == "c" else "")).lower()
        if not leaves or not a:
            continue
        if a in colnames:
            wrong = [y for y in leaves if y[1] != a]
            if wrong:
                good = False
                c.bad(R_READ, fn, f"{label}:{a}", f"{fn}: the result column {alias} is {wrong[0][0][0] if wrong[0][0].op == 'inst' else ''}.{wrong[0][1]}", e.where)
        own = {w[k][0] for w in q.where if w.op == "cmp" and w[0] in ("=", "is") for k in (1, 2) if w[k].op == "c" and w[k][0].op == "inst" and w[3 - k].op == "param"}
        if x.op == "c" and x[0].op == "inst" and a in colnames and own and x[0] not in own and any(i[0] == x[0][0] for i in own):
            good = False
            c.bad(R_READ, fn, f"{label}:{a}", f"{fn}: the result column {alias} is that of another {x[0][0]} record than the one asked for", e.where)
        if x.op == "fn" and x[0] in ("coalesce", "ifnull") and len(x.args) > 3:
            y = x.args[2]
            if isinstance(y, T) and y.op == "c" and y[0].op == "inst" and any(y[1] in k for k in cat.unique_keys(y[0][0])) and \
                    any(isinstance(z, T) and z.op == "c" for z in x.args[3:]):
                good = False
                c.bad(R_READ, fn, f"{label}:{a}:fallback", f"{fn}: the fallback of {alias} is never used: {y[0][0]}.{y[1]} identifies the record", e.where)
    if good:
        c.ok(R_READ, fn, label, f"{len(q.cols)} result columns", e.where)
    # related rows
    refs(c, lab, r, cat, e, q, fn, label)


def determined(cat, q):
    """Table instance -> its columns whose values follow from the parameters of the query."""
    eqs = []
    for w in list(q.where) + [on for jt, i, on, u in q.frm if on is not None]:
        for y in conjuncts(w):
            if y.op == "cmp" and y[0] in ("=", "is"):
                eqs.append((y[1], y[2]))
    out = {i: set() for jt, i, on, u in q.frm if i.op == "inst" and isinstance(i[0], str)}
    known = lambda z: z.op in ("param", "lit") or z.op == "c" and (z[1] in out.get(z[0], ()) or z[0] in out and any(set(k) <= out[z[0]] for k in cat.unique_keys(z[0][0])))  # noqa: E731
    for _ in range(len(eqs) + 1):
        for a, b in eqs:
            for x, y in ((a, b), (b, a)):
                if x.op == "c" and x[0] in out and known(y):
                    out[x[0]].add(x[1])
    return out


def fks(cat, child, parent):
    """Declared references: list of sets of (child column, parent column)."""
    out = {}
    for row in cat.db.execute(f"pragma foreign_key_list({child})").fetchall():
        if (row[2] or "").lower() == parent:
            out.setdefault(row[0], set()).add(((row[3] or "").lower(), (row[4] or "").lower()))
    return list(out.values())


def refs(c, lab, r, cat, e, q, fn, label):
    """Equalities between columns of two tables must be (part of) a declared reference between them."""
    pairs = {}

    def eqs(conds):
        for w in conds:
            for y in conjuncts(w):
                if y.op == "cmp" and y[0] in ("=", "is"):
                    yield y[1], y[2]

    def note(a, b):
        if a.op == "c" and b.op == "c" and a[0].op == "inst" and b[0].op == "inst" and a[0] is not b[0]:
            if str(a[0]) > str(b[0]) or (b[0], a[0]) in pairs:
                a, b = b, a
            pairs.setdefault((a[0], b[0]), set()).add((a[1], b[1]))

    def walk(sel):
        for a, b in eqs(sel[2]):
            note(a, b)
        for jt, i, on, u in sel[1]:
            if on is not None:
                for a, b in eqs([on]):
                    note(a, b)
            if i.op not in ("inst",):
                for y in sub_terms(i):
                    if y.op == "select":
                        walk(y)
        for x, a in sel[0]:
            for y in sub_terms(x) if isinstance(x, T) else ():
                if y.op == "sub":
                    walk(y[0])

    walk(q.q)
    # parameters bound to columns of a row read before
    row = expand(r.ip, e.d["row"], e.heap) if isinstance(e.d.get("row"), T) else None
    if row is not None:
        for a, b in eqs(q.q[2]):
            if b.op == "c":
                a, b = b, a
            if a.op == "c" and a[0].op == "inst" and b.op == "param":
                for tb, col in origin(cat, r, row, b[0]):
                    pairs.setdefault((a[0], t("inst", tb, "bound")), set()).add((a[1], col))
    met = determined(cat, q)
    for i, have in met.items():
        site = "site_id" in have or "site_id" not in {x[0].lower() for x in cat.columns(i[0])}
        if have and not site and not any(set(k) <= have for k in cat.unique_keys(i[0])):
            c.bad(R_REF, fn, f"{i[0]} site", f"{fn}: {i[0]} records are found by {', '.join(sorted(have))} only, ignoring the site", e.where)
    for (i, j), got in pairs.items():
        ti, tj = i[0], j[0]
        cands = [(f, False) for f in fks(cat, ti, tj)] + [({(b, a) for a, b in f}, True) for f in fks(cat, tj, ti)]
        if not cands or ti == tj:
            continue
        exact = [f for f, _ in cands if all((a, b) in f or (b == "" or a == "") and any(a == x or b == y for x, y in f) or a == b and a in ("site_id",) for a, b in got)]
        unknown = any(b == "" or a == "" for f, _ in cands for a, b in f)
        what = f"{ti}({', '.join(sorted(a for a, b in got))}) = {tj}({', '.join(sorted(b for a, b in got))})"
        if exact:
            full = [f for f in exact if all((a, b) in got for a, b in f)]
            if full or j[1] == "bound" or unknown:
                c.ok(R_REF, fn, what, "a declared reference", e.where)
            else:
                partial = [f for f in exact if any(a == "site_id" for a, b in f - got)]
                if partial:
                    c.bad(R_REF, fn, what, f"{fn}: {ti} and {tj} are matched on {what}, ignoring the site", e.where)
                else:
                    c.ok(R_REF, fn, what, "part of a declared reference", e.where)
        elif unknown:
            c.unsure(R_REF, fn, what, "reference to an implicit key", e.where)
        else:
            c.bad(R_REF, fn, what, f"{fn}: {ti} and {tj} are matched on {what}, which is not the declared reference between them", e.where)


def origin(cat, r, row, key):
    """(table, column) a bound parameter was read from."""
    x = row
    v = None
    if x.op == "row":
        v = (x, key)
    elif x.op in ("list", "tuple") and isinstance(key, int) and len(x.args) >= key:
        y = x[key - 1]
        if y.op == "col" and isinstance(y[1], str):
            v = (y[0], y[1])
        elif y.op == "item" and is_const(y[1]):
            v = (y[0], y[1][0])
    while v is None and x.op == "upd":
        x = x[1]
        if x.op == "row":
            v = (x, key)
    if v is None or v[0].op != "row" or not isinstance(v[1], str):
        return []
    cur = v[0][0]
    if cur.op != "cursor" or not is_const(cur[1]):
        return []
    try:
        q = Query(cat, cur[1][0])
    except SqlError:
        return []
    for x, alias in zip(q.cols, q.aliases):
        if (alias or (x[1] if x.op == "c" else "")).lower() == v[1].lower() and x.op == "c" and x[0].op == "inst":
            return [(x[0][0], x[1])]
    return []


# ---------------------------------------------------------------- tables
def tables(c, lab, cls):
    f = cls.find("render_docs_table")
    fields = class_const(lab, cls, "table_fields")
    if f is None or fields is None:
        return
    def prep(ip, obj, st):
        ip.keep_heap = True

    r = lab.run_method(cls, "render_docs_table", max_states=4, prep=prep, key="c24table")
    cat = lab.corpus_cat(cls)
    found = []
    for e in r.of("mutate"):
        if e.d["op"] in ("append", "add"):
            for a in e.d["args"]:
                note_row(r, cat, a, e.heap, found)
    for kind, v, st in r.outs:
        if kind == "return" and not found:
            note_row(r, cat, expand(r.ip, v, st.heap, 6), st.heap, found)
    name = f"{cls.name}.render_docs_table"
    if not found:
        c.unsure(R_TAB, name, "row", "the rendered row was not followed", "")
        return
    missing = [x for x in fields if not all(x.lower() in ks for ks in found)]
    c.decide(not missing, R_TAB, name, "row", f"{name}: no value for the table fields {', '.join(missing)}" if missing else f"{len(fields)} fields", r.fn.qual)


def note_row(r, cat, v, heap, found):
    for x in sub_terms(v):
        if x.op == "tuple" and len(x.args) == 2 and isinstance(x[1], T):
            ks = keys_of(r.ip, cat, x[1], heap)
            if ks is not None:
                found.append(ks)


def class_const(lab, cls, name):
    import ast
    for k in cls.mro():
        for n in k.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                try:
                    return list(ast.literal_eval(n.value))
                except ValueError:
                    return None
    return None


def keys_of(ip, cat, x, heap, d=0):
    """Lower case keys of a row or dictionary."""
    if d > 8:
        return None
    y = heap.get(x, x) if x.op == "row" and heap else ip.shape(x, heap)
    if y.op == "upd" and y is not x and any(z is x for z in sub_terms(y)) and x.op == "row":
        heap = {k: v for k, v in heap.items() if k is not x}
    if y.op == "upd" and y[0] == "setitem":
        base = keys_of(ip, cat, y[1], heap, d + 1)
        k = y[2][0]
        return None if base is None else base | ({str(k[0]).lower()} if is_const(k) else set())
    if y.op == "kwdict":
        return {str(k[0] if isinstance(k, T) else k).lower() for k, v in y[0]}
    if y.op == "row":
        cur = y[0]
        if cur.op == "cursor" and is_const(cur[1]) and cat is not None:
            names = cat.result_columns(cur[1][0])
            return {n.lower() for n in names} if names else None
    if y.op == "phi":
        ks = [keys_of(ip, cat, a, heap, d + 1) for a in y.args]
        return set.intersection(*ks) if ks and all(k is not None for k in ks) else None
    return None


# ---------------------------------------------------------------- commands
def commands(c, lab, loads):
    cli = Cli(lab)
    for cmd in cli.commands():
        try:
            r0 = cli.run_command(cmd, max_states=2)
        except (AnalysisError, RecursionError) as e:
            c.failed(R_ERR, cmd.qual, e)
            continue
        if not any(e.d["qual"] in loads for e in r0.of("pcall")):
            continue
        r = cli.run_command(cmd, max_states=4, key="c24", faults=True)
        bad = False
        for kind, v, st in r.outs:
            if kind == "return" and st.fault is not None and len(st.fault) < 3 and st.fault[0] != "Exception?":
                bad = True
                c.bad(R_ERR, cmd.qual, "command", f"{cmd.qual} ends normally after {st.fault[0]}{site(st.fault)}", cmd.qual)
        if not bad:
            c.ok(R_ERR, cmd.qual, "command", f"{len(r.outs)} outcomes")


# ---------------------------------------------------------------- text files
LINES = ("word", "one, two", ", two", "# heading", "  indented", "a; b\tc | d: e", "1", "x" * 300, "caf\u00e9 \u4e2d", "a.", "THE END")


def source_leaf(line):
    """Values of the elements of a text file read line by line, when the line is this one."""
    def is_file(x):
        return isinstance(x, T) and (x.op == "file" or (x.op == "call" and x[0] in ("iter", "list", "tuple") and len(x[1]) == 1 and is_file(x[1][0])))

    def leaf(x):
        if x.op != "elem":
            return UNKNOWN
        it = x[0]
        while it.op == "call" and it[0] in ("iter", "list", "tuple") and len(it[1]) == 1:
            it = it[1][0]
        if is_file(it) or (it.op == "mcall" and it[1] == "readlines" and is_file(it[0])):
            return line + "\n"
        if it.op == "mcall" and it[1] in ("splitlines", "split") and it[0].op == "mcall" and it[0][1] == "read" and is_file(it[0][0]):
            if it[1] == "splitlines" and not it[2] or it[1] == "split" and it[2] and is_const(it[2][0], "\n"):
                return line
        if it.op == "call" and it[0] == "csv.reader" and it[1] and is_file(it[1][0]):
            kw = {k: v[0] for k, v in it[2] if is_const(v)}
            if len(it[1]) == 1 and len(kw) == len(it[2]):
                import csv
                rows = list(csv.reader([line + "\n"], **kw))
                if len(rows) == 1:
                    return tuple(rows[0])
        return UNKNOWN
    return leaf


def from_text(x):
    """Is this term made from lines of a file?"""
    return isinstance(x, T) and any(y.op == "elem" and any(z.op == "file" for z in sub_terms(y[0])) for y in sub_terms(x))


def text_files(c, lab, loads):
    cli = Cli(lab)
    index = lab.index_cls.qual.rsplit(".", 1)[0]
    opaque = {q for q in cli.engine() if q.startswith(index + ".")}
    for cmd in cli.commands():
        try:
            r0 = cli.run_command(cmd, max_states=2)
            if not any(e.d["qual"] in loads for e in r0.of("pcall")):
                continue
            r = cli.run_command(cmd, max_states=4, key="c24text", opaque=opaque)
        except (AnalysisError, RecursionError) as e:
            c.failed(R_TEXT, cmd.qual, e)
            continue
        for e in r.of("sql"):
            s = e.d["sql"]
            if not is_const(s) or first(s[0]) not in ("insert", "replace") or e.d["row"] is None:
                continue
            row = expand(r.ip, e.d["row"], e.heap)
            facts = {}
            if e.d["how"] == "executemany":
                for y in sub_terms(expand(r.ip, e.d["params"], e.heap)):
                    if y.op == "comp":
                        facts.update((expand(r.ip, k, e.heap), v) for k, v in y.args[-2])
            facts.update(e.facts)
            vals = [v for v in (row.args if row.op in ("list", "tuple") else [v for _, v in row[0]] if row.op == "kwdict" else ()) if from_text(v)]
            if len(vals) == 1:
                text_line(c, cmd, e, stmt_label(s[0]), [(vals[0], {k: b for k, b in facts.items() if from_text(k)})])
                continue
            # a list filled line by line beforehand
            for y in sub_terms(e.d["row"]):
                if y.op == "elem" and y[0].op == "cell":
                    alts = []
                    for m in r.of("mutate"):
                        if m.d["ref"] is y[0] and m.d["op"] == "add":
                            v = expand(r.ip, m.d["args"][0], m.heap)
                            a = (v, {k: b for k, b in m.facts.items() if from_text(k)})
                            if from_text(v) and a not in alts:
                                alts.append(a)
                    if alts:
                        text_line(c, cmd, e, stmt_label(s[0]), alts)


def text_line(c, cmd, e, label, alts):
    unknown = None
    for line in LINES:
        leaf = source_leaf(line)
        shown = line if len(line) < 40 else line[:10] + "..."
        live = [(v, ok) for v, facts in alts for ok in [consistent(facts, leaf)] if ok is not False]
        if not live:
            c.bad(R_TEXT, cmd.qual, label, f"a line such as {shown!r} is left out", e.where)
            return
        for v, ok in live:
            try:
                got = value(v, leaf)
            except Unknown:
                unknown = v
                continue
            if not isinstance(got, str) or got.strip("\r\n") != line.strip("\r\n"):
                if ok:
                    c.bad(R_TEXT, cmd.qual, label, f"of a line such as {shown!r} only {str(got)[:40]!r} is stored", e.where)
                    return
                unknown = v
            if ok is None:
                unknown = v
    if unknown is not None:
        c.unsure(R_TEXT, cmd.qual, label, f"what is stored of a line is not known ({show(unknown, 4)[:80]})", e.where)
    else:
        c.ok(R_TEXT, cmd.qual, label, f"{len(LINES)} kinds of lines are stored whole", e.where)
