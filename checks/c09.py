"""C09: opening a database yields the current schema or refuses untouched (partial evaluation per stored version)."""
from sa.interp import Monitor
from sa.lab import *
from sa.sqlfx import Catalogue
from sa.txn import Txn, DML, DDL, TEMP

R_FINAL = "upgrade-reaches-current-schema"
R_STATE = "same-version-same-schema"
R_TXN = "upgrade-is-one-transaction"
R_VER = "version-and-schema-change-together"
R_REFRESH = "summaries-refreshed-after-upgrade"
R_KEEP = "upgrade-keeps-the-index-content"
R_REF = "foreign-databases-refused-untouched"
R_PROBE = "file-probe-answers-no"
R_SWAL = "upgrade-errors-reach-the-caller"

SUPPORTED = (4, 5, 6, 7, 8, 9)
# layout of databases written by released versions (history, cannot be derived from the current source)
V10 = {
    "settings": "key primary key, value",
    "doc_key": "doc_id integer primary key, doc_key unique",
    "inverted_index": "feature_id integer primary key, field text not null, value not null, docs_count integer not null, "
                      "doc_ids roaring_bitmap not null, unique (field, value)",
    "position_doc_map": "field text not null, first_doc_id integer not null, last_doc_id integer not null, docs_count integer not null, "
                        "doc_ids roaring_bitmap not null, doc_boundaries roaring_bitmap not null, primary key (field, first_doc_id)",
    "position_index": "feature_id references inverted_index on delete cascade, first_doc_id integer, position_count integer, "
                      "positions roaring_bitmap, primary key (feature_id, first_doc_id)",
    "field_summary": "field text primary key, distinct_values integer, min_value, max_value, position_count",
    "cluster": "cluster_id integer primary key, feature_count integer default 0, docs_count integer default 0, "
               "weight integer default 0, doc_ids roaring_bitmap, pinned bool default 0",
    "feature_cluster": "feature_id integer primary key references inverted_index(feature_id) on delete cascade, "
                       "cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer, pinned bool default 0",
    "changed_cluster": "cluster_id integer primary key references cluster on delete cascade",
}
CONTENT = ("doc_key", "inverted_index", "cluster", "feature_cluster")
OLD_TRIGGERS = ("mark_cluster_changed", "ensure_cluster", "delete_feature_cluster", "ensure_cluster_update", "update_cluster_feature_counts")


def historical(v):
    """DDL of a database as version v left it."""
    out = []
    drop = {"cluster": [], "feature_cluster": [], "field_summary": []}
    if v <= 4:
        drop["cluster"] += ["docs_count", "weight", "doc_ids"]
    if v <= 7:
        drop["cluster"].append("pinned")
        drop["feature_cluster"].append("pinned")
    if v <= 9:
        drop["field_summary"].append("position_count")
    skip = () if v >= 10 else ("position_doc_map", "position_index", "settings") if v <= 7 else ("settings",)
    for name, cols in V10.items():
        if name in skip:
            continue
        keep = [x for x in re.split(r",\s*(?![^(]*\))", cols) if x.split(" ")[0] not in drop.get(name, ())]
        out.append(f"create table {name} ({', '.join(keep)})")
    if v <= 6:
        for tg in OLD_TRIGGERS:
            out.append(f"create trigger {tg} after insert on feature_cluster begin select 1; end")
    return out


def layout(cat):
    out = {}
    for tb in cat.tables():
        if tb.startswith("sqlite_"):
            continue
        out[tb] = {x[0].lower() for x in cat.columns(tb)}
    return out


def objects(cat):
    return {(r[0], r[1].lower()) for r in cat.db.execute(
        "select type, name from sqlite_master where type in ('trigger', 'index', 'view') and sql is not null")}


class Opening(Monitor):
    """(version written in this call, committed, read changed_cluster after it, marked all)"""
    name = "open"

    def __init__(self, conn_of):
        self.conn_of = conn_of
        self.partial = []
        self.loose = []

        self.late = []

    def init(self):
        return (None, False, False, False, False)

    def event(self, ev, st, ip):
        if ev.kind not in ("sql", "sqldone", "conn_commit") or not self.conn_of(ev.d["conn"]):
            return
        ver, com, ref, mark, wrote = st.mon[self.name]
        stack = st.mon["txn"][0]
        if ev.kind == "conn_commit":
            com = com or ver is not None
        else:
            low = text_of(ev.d["sql"]).lower()
            word = low.split(" ")[0] if low else ""
            if ev.kind == "sql":
                m = re.match(r"pragma (?:main\.)?user_version\s*(?:=|\()\s*(\d+)", low)
                if m:
                    if not stack and (wrote or ver is None):
                        self.loose.append(ev)
                    ver = int(m.group(1))
                    com = com if stack else True
                elif word in DML + DDL and not TEMP.match(low):
                    wrote = True
                    if re.match(r"(insert|replace)[a-z ]* into changed_cluster\b.*\bselect\b.*\bfrom cluster\b(?!.*\bwhere\b)", low):
                        mark = True
                    if com and (word in DDL or target_of(text_of(ev.d["sql"])) not in ("cluster", "changed_cluster", "feature_cluster")):
                        self.late.append(ev)
                if re.search(r"\bfrom changed_cluster\b", low) and ver is not None and word == "select":
                    ref = True
            elif word in ("commit", "end", "release"):
                left = stack  # already stepped by the transaction monitor
                if not left:
                    if wrote and ver is None and not com:
                        self.partial.append(ev)
                    com = com or ver is not None
                    wrote = False
        st.mon[self.name] = (ver, com, ref, mark, wrote)


def run(c, lab):
    c.rule(R_FINAL, "the statements run for an old version turn its tables into exactly those of a new index, and set the current version")
    c.rule(R_STATE, "databases written by the released version with the current number have the current tables")
    c.rule(R_TXN, "no write of the upgrade happens outside its transaction, and nothing is committed before its end")
    c.rule(R_VER, "the version number is written in the same transaction as the tables")
    c.rule(R_REFRESH, "after an upgrade the changed clusters are summarised before the constructor returns (all of them from version 4)")
    c.rule(R_KEEP, "no statement of the upgrade drops or deletes documents, features or the model")
    c.rule(R_REF, "non-empty foreign databases and unknown versions end in a MigrationError with no write before it")
    c.rule(R_PROBE, "is_index_db returns True for the application id, False for any other and for any file SQLite rejects")
    c.rule(R_SWAL, "an error during the upgrade is not turned into a normal return")
    c.assumptions += ["the layout of databases written by earlier releases (versions 4-10) is a frozen reference in checks/c09.py",
                      "SQLite schema changes and user_version are transactional"]
    fresh = lab.open_index(0)
    cur = version_of(lab)
    c.require(cur is not None, "the schema version of a new index could not be derived")
    cat = Catalogue(lab.index_ddl(), *lab.aggregates())
    new_layout, new_objs = layout(cat), objects(cat)
    # current version means current tables
    ref = Catalogue(historical(10))
    if cur == 10:
        for tb, cols in layout(ref).items():
            c.decide(new_layout.get(tb) == cols, R_STATE, "schema", tb,
                     f"table {tb} of a new index has columns {sorted(new_layout.get(tb, ()))}, existing version 10 databases have {sorted(cols)}"
                     if new_layout.get(tb) != cols else "")
        for tb in set(new_layout) - set(layout(ref)):
            c.bad(R_STATE, "schema", tb, f"table {tb} does not exist in existing version 10 databases, which are opened without any upgrade")
    for v in sorted(set(SUPPORTED) | ({10} if cur > 10 else set())):
        c.guard(R_FINAL, f"version {v}", lambda: upgrade(c, lab, v, cur, new_layout, new_objs))
    c.guard(R_TXN, "version 0", lambda: upgrade(c, lab, 0, cur, new_layout, new_objs))
    c.guard(R_FINAL, f"version {cur}", lambda: current(c, lab, cur))
    for v, n, ddl in ((0, 1, ()), (0, 2, ()), (0, 0, ("create view v as select 1",)), (1, 1, ()), (3, 3, ()), (2, 0, ()), (cur + 1, 3, ()),
                      (cur + 90, 1, ()), (-1, 2, ())):
        c.guard(R_REF, f"version {v}", lambda: refuse(c, lab, v, n, ddl))
    c.guard(R_PROBE, "Index.is_index_db", lambda: probe(c, lab))


def version_of(lab):
    r = lab.open_index(0)
    out = None
    for e, s in lab.const_sql(r, lab.main_conns(r)):
        m = re.match(r"\s*pragma\s+(?:main\.)?user_version\s*=\s*(\d+)", clean(s), re.I)
        if m:
            out = int(m.group(1))
    return out


def app_id(lab):
    r = lab.open_index(0)
    for e, s in lab.const_sql(r, lab.main_conns(r)):
        m = re.match(r"\s*pragma\s+(?:main\.)?application_id\s*=\s*(-?\d+)", clean(s), re.I)
        if m:
            return int(m.group(1))
    return None


def migrating(lab, v, faults, ddl=()):
    main = lab.main_conns(lab.open_index(0))
    tx = Txn(lambda cn: True)
    op = Opening(lambda cn: True)
    r = lab.open_index(v, 0 if ddl or v == 0 else 3, faults=faults, monitors=[tx, op], key=("c09",), ddl=ddl)
    return r, tx, op


def upgrade(c, lab, v, cur, new_layout, new_objs):
    ddl = historical(v) if v else ()
    r, tx, op = migrating(lab, v, False, ddl)
    what = f"version {v}" if v else "a new database"
    conns = lab.main_conns(r)
    c.count("versions")
    if not any(k == "return" for k, _, _ in r.outs):
        c.bad(R_FINAL, what, "refused", f"opening {what} never succeeds: " + ", ".join(sorted({show(w, 2)[:80] for k, w, _ in r.outs if k == "raise"})))
        return
    # the statements in the order they are run, without the ones inside loops over results
    cat = Catalogue(ddl, *lab.aggregates())
    for s, e in cat.errors:
        raise AnalysisError(f"reference schema: {e}")
    ran = []
    seen = set()
    stmts = lab.const_sql(r, conns)
    for e, s in stmts:
        key = (e.site, s)
        if key in seen:
            continue
        seen.add(key)
        w = first(s)
        if w in DDL or w in DML:
            err = cat.apply(s) if not e.loops or w in DDL else None
            ran.append(e)
            if err:
                c.bad(R_FINAL, what, stmt_label(clean(s)), f"opening {what}: the statement fails there: {err}: {clean(s)[:100]}", e.where)
    got, objs = layout(cat), objects(cat)
    bad = False
    for tb in sorted(set(new_layout) | set(got)):
        if got.get(tb) != new_layout.get(tb):
            bad = True
            c.bad(R_FINAL, what, tb, f"after opening {what}, table {tb} has columns {sorted(got.get(tb, ())) or 'none'}; a new index has "
                  f"{sorted(new_layout.get(tb, ())) or 'none'}", r.fn.qual)
    for o in sorted(objs ^ new_objs):
        bad = True
        c.bad(R_FINAL, what, o[1], f"after opening {what}, {o[0]} {o[1]} {'remains' if o in objs else 'is missing'}", r.fn.qual)
    if not bad:
        c.ok(R_FINAL, what, "tables", f"{len(got)} tables, {len(objs)} triggers and indexes equal those of a new index; {len(ran)} statements")
    aid = app_id(lab)
    for kind, w, st in r.outs:
        if kind != "return":
            c.bad(R_FINAL, what, "raise", f"opening {what} can fail without any error in the database: {show(w, 2)}", r.fn.qual)
            continue
        ver, com, ref, mark, _ = st.mon["open"]
        c.decide(ver == cur and com, R_FINAL, what, "user_version",
                 f"opening {what} ends with version {ver}{'' if com else ' not committed'} instead of {cur}" if not (ver == cur and com) else f"{cur}")
        if v:
            c.decide(ref, R_REFRESH, what, "refresh", "" if ref else f"after the upgrade from {what} the changed clusters are not summarised", r.fn.qual)
            if v == 4:
                c.decide(mark, R_REFRESH, what, "all clusters", "" if mark else
                         "after the upgrade from version 4 not every cluster is marked for summarising, although no summary exists there", r.fn.qual)
        stack = st.mon["txn"][0]
        c.decide(not stack, R_TXN, what, "closed", "" if not stack else f"opening {what} returns with the transaction still open", r.fn.qual)
    ids = [int(m.group(1)) for e, s in stmts for m in [re.match(r"\s*pragma\s+(?:main\.)?application_id\s*=\s*(-?\d+)", clean(s), re.I)] if m]
    c.decide(bool(ids) and all(i == aid for i in ids), R_FINAL, what, "application_id", "" if ids else f"opening {what} does not mark the file as an index")
    if v:
        writes_sum = any(first(s) == "update" and target_of(clean(s)) == "cluster" and "doc_ids" in s for e, s in stmts)
        c.decide(writes_sum, R_REFRESH, what, "update", "" if writes_sum else f"the upgrade from {what} never writes cluster summaries", r.fn.qual)
        dele = set()
        for e, s in stmts:
            w, tg = first(s), target_of(clean(s))
            if (w in ("delete", "drop") and tg in CONTENT and re.match(r"(delete from|drop table)", clean(s).lower())
                    and not (tg == "cluster" and "feature_count" in s)):
                c.bad(R_KEEP, what, f"{w} {tg}", f"the upgrade from {what} removes content: {clean(s)[:80]}", e.where)
                dele.add(tg)
            if w == "delete" and tg == "field_summary":
                dele.add(tg)
            if w in ("insert", "replace") and tg == "field_summary":
                dele.discard(tg)
        if "field_summary" in dele:
            c.bad(R_KEEP, what, "field_summary", f"the upgrade from {what} empties the field summary without rebuilding it")
        elif not dele:
            c.ok(R_KEEP, what, "content")
    # transactions, with faults
    r2, tx2, op2 = migrating(lab, v, True, ddl)
    for rule, ev, msg in tx.problems + tx2.problems:
        c.bad(R_TXN, ev.fn, stmt_label(text_of(ev.d["sql"])) if "sql" in ev.d else ev.kind, f"opening {what}: {msg}", ev.where)
    for ev in op.loose + op2.loose:
        c.bad(R_VER, ev.fn, "user_version", f"opening {what}: the version number is written outside the transaction of the upgrade", ev.where)
    for ev in op.late + op2.late:
        c.bad(R_VER, ev.fn, stmt_label(text_of(ev.d["sql"])),
              f"opening {what}: part of the upgrade runs after its version number was committed: {clean(text_of(ev.d['sql']))[:70]}", ev.where)
    for ev in op.partial + op2.partial:
        c.bad(R_VER, ev.fn, "commit", f"opening {what}: part of the upgrade is committed before the version number is written", ev.where)
    if not tx.problems and not tx2.problems:
        c.ok(R_TXN, what, "transaction", f"{len(r2.outs)} outcomes with one fault at any statement")
    if not (op.loose or op2.loose or op.partial or op2.partial or op.late or op2.late):
        c.ok(R_VER, what, "version")
    sw = [st for k, w, st in r2.outs if k == "return" and st.fault is not None and len(st.fault) == 2]
    c.decide(not sw, R_SWAL, what, "faults", "" if not sw else f"opening {what} returns normally after an error", r.fn.qual)


def current(c, lab, cur):
    r = lab.open_index(cur, 9)
    ok = [k for k, _, _ in r.outs] == ["return"] * len(r.outs)
    c.decide(ok, R_FINAL, "current version", "opens", "" if ok else "an index at the current version cannot be opened", r.fn.qual)
    for e, s in lab.const_sql(r):
        if first(s) in DML + DDL and not TEMP.match(clean(s)):
            c.bad(R_KEEP, "current version", stmt_label(clean(s)), f"opening an index at the current version writes: {clean(s)[:80]}", e.where)


def refuse(c, lab, v, n, ddl):
    what = f"version {v} with {n} tables" + (" and a view" if ddl else "")
    r = lab.open_index(v, n, ddl=ddl)
    bad = False
    for kind, w, st in r.outs:
        if kind == "return":
            bad = True
            c.bad(R_REF, "Index.__init__", what, f"a database that is not an index ({what}) is opened as one", r.fn.qual)
        elif "MigrationError" not in {w[0]} | r.ip.supers(str(w[0])):
            bad = True
            c.bad(R_REF, "Index.__init__", what, f"a database that is not an index ({what}) is refused with {w[0]} instead of MigrationError", r.fn.qual)
    for e in r.of("sql"):
        low = text_of(e.d["sql"]).lower()
        if (first(low) in DML + DDL and not TEMP.match(low)) or re.match(r"pragma (\w+\.)?(user_version|application_id)\s*(=|\()", low) or \
                e.d["how"] == "executescript":
            bad = True
            c.bad(R_REF, e.fn, f"{what} write", f"a database that is not an index ({what}) is written to before it is refused: {low[:80]}", e.where)
    if not bad:
        c.ok(R_REF, "Index.__init__", what)


def probe(c, lab):
    cls = lab.index_cls
    f = cls.find("is_index_db")
    if f is None:
        raise AnalysisError("Index.is_index_db not found")
    aid = app_id(lab)
    for label, val, want in (("application id", aid, True), ("other id", 12345, False), ("no id", 0, False)):
        ip = Interp(lab.p, handler_probe=False)
        ip.sqlrows = lambda conn, sql, params: [tup(const(val))] if is_const(sql) and "application_id" in str(sql[0]) else None
        fv, how = lab.unwrap(ip, f)
        args = [] if how == "static" else [t("class", cls.qual)]
        outs = run_function(ip, fv, args, params_for(f, 0 if how == "static" else 1), State(), tag="probe")
        for kind, w, st in outs:
            if kind == "return" and is_const(w):
                c.decide(bool(w[0]) is want, R_PROBE, "Index.is_index_db", label, f"returns {w[0]} for a file with {label}", f.qual)
            elif kind == "return":
                c.unsure(R_PROBE, "Index.is_index_db", label, f"returns {show(w, 3)}")
            else:
                c.bad(R_PROBE, "Index.is_index_db", label, f"raises {w[0]} for a file with {label}", f.qual)
    for kindname in ("DatabaseError", "OperationalError"):
        ip = Interp(lab.p, faults=True)
        ip.sql_kinds = (kindname,)
        fv, how = lab.unwrap(ip, f)
        args = [] if how == "static" else [t("class", cls.qual)]
        outs = run_function(ip, fv, args, params_for(f, 0 if how == "static" else 1), State(), tag="probe")
        bad = False
        for kind, w, st in outs:
            if st.fault is None or st.fault[0] not in (kindname, "OperationalError"):
                continue
            if kind == "raise":
                bad = True
                c.bad(R_PROBE, "Index.is_index_db", f"{st.fault[0]}", f"is_index_db fails with {w[0]} when SQLite rejects the file with {st.fault[0]}", f.qual)
            elif not (is_const(w) and not w[0]):
                bad = True
                c.bad(R_PROBE, "Index.is_index_db", f"{st.fault[0]} answer", f"is_index_db returns {show(w, 2)} when SQLite rejects the file", f.qual)
        if not bad:
            c.ok(R_PROBE, "Index.is_index_db", kindname)
