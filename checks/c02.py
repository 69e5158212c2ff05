"""C02: stored cluster summaries match the current features (typestate of what is stale, over every path of every edit)."""
from sa.hyp import UNKNOWN, consistent
from sa.interp import Monitor
from sa.lab import *
from sa.rel import Query, Coverage, argument, cursor_of, schema_of
from sa.sql import parse, SqlError, conjuncts
from sa.txn import Txn, text_of

R_TRIG = "membership-changes-mark-both-clusters"
R_STALE = "no-edit-returns-with-stale-summaries"
R_MARKS = "marks-are-dropped-only-after-the-refresh"
R_CNT = "feature-counts-count-the-current-members"
R_UNI = "documents-and-weight-are-those-of-the-current-features"
R_GONE = "clusters-without-features-are-removed"
R_HIST = "an-earlier-failure-does-not-stop-later-refreshes"
R_ALL = "every-changed-cluster-is-refreshed"

MEMBERS, SUMMARY, MARKS, CONTENT = "feature_cluster", "cluster", "changed_cluster", "inverted_index"
COLS = {"docs_count", "weight", "doc_ids"}


# ---------------------------------------------------------------- what a statement does to the summaries
class Stmts:
    def __init__(self, cat):
        self.cat = cat
        self.memo = {}

    def __call__(self, text):
        if text not in self.memo:
            try:
                self.memo[text] = self.classify(text)
            except SqlError:
                w = first(text)
                tg = target_of(clean(text))
                self.memo[text] = [("unknown", tg)] if w in DML and tg in (MEMBERS, SUMMARY, MARKS, CONTENT) else []
        return self.memo[text]

    def classify(self, text):
        s, params = parse(text)
        out = []
        if s.op == "insert":
            alg, sch, tb, cols, src, up = s.args
            if tb == MEMBERS:
                out.append(("member", "replace" if alg == "replace" else "insert"))
            elif tb == CONTENT:
                out.append(("content",))
            elif tb == MARKS:
                out.append(("mark", every(src)))
        elif s.op == "update":
            alg, sch, tb, alias, sets, frm, wh = s.args
            names = {n for n, _ in sets}
            if tb == MEMBERS and names & {"cluster_id", "feature_id"}:
                out.append(("member", "update"))
            elif tb == CONTENT and "doc_ids" in names:
                out.append(("content",))
            elif tb == SUMMARY:
                if "feature_count" in names:
                    out.append(("count",))
                if "doc_ids" in names:
                    out.append(("union",))
        elif s.op == "delete":
            sch, tb, alias, wh = s.args[:4]
            if tb == MEMBERS:
                out.append(("member", "delete-all" if wh is None else "delete"))
            elif tb == SUMMARY:
                out.append(("gone",) if empties(wh) else ("drop",))
            elif tb == MARKS:
                out.append(("clear", wh is None))
            elif tb == CONTENT:
                out.append(("content",))
        return out


def every(src):
    """Does a select produce the id of every cluster (True), certainly not (False), or unknown (None)?"""
    if src.op != "select":
        return None
    cols, frm, wh = src.args[:3]
    if len(frm) == 1 and frm[0][1].op == "table" and frm[0][1][1] in (SUMMARY, MEMBERS) and len(cols) == 1 and cols[0][0].op == "col" \
            and cols[0][0][-1] == "cluster_id":
        return True if wh is None and src[6] is None else False
    return None


def empties(wh):
    """Is this the condition `feature_count = 0` (nothing that holds members is deleted, everything empty is)?"""
    if wh is None:
        return False
    cs = conjuncts(wh)
    if len(cs) != 1:
        return False
    x = cs[0]
    if x.op == "cmp" and x[0] in ("=", "<=", "is", "==", "<"):
        a, b = x[1], x[2]
        if a.op == "col" and a[-1] == "feature_count" and b.op == "lit":
            return (x[0], str(b[0])) in (("=", "0"), ("==", "0"), ("<=", "0"), ("is", "0"), ("<", "1"))
        if b.op == "col" and b[-1] == "feature_count" and a.op == "lit" and x[0] in ("=", "==", "is"):
            return str(a[0]) == "0"
    if x.op == "not" and x[0].op == "col":
        return x[0][-1] == "feature_count"
    if x.op in ("notin", "not") and any(y.op == "table" and y[1] == MEMBERS for y in sub_terms(x)):
        return True
    return False


# ---------------------------------------------------------------- typestate
class Stale(Monitor):
    """(count stale, union stale, empties left, index content changed, marks: none/some/all, replaced), and the state at the
    start of the open transaction."""
    name = "stale"

    def __init__(self, conn_of, stmts, union_loops):
        self.conn_of, self.stmts, self.union_loops = conn_of, stmts, union_loops
        self.problems = []
        self.writes = 0

    def init(self):
        return ((False, False, False, False, "none"), None)

    def event(self, ev, st, ip):
        cur, saved = st.mon[self.name]
        count, union, gone, content, marks = cur
        if ev.kind == "endloop" and ev.d["loop"] in self.union_loops:
            if union == "ready" or union is True and not count:
                union = False
                if content and marks == "all":
                    content = False
            st.mon[self.name] = ((count, union, gone, content, marks), saved)
            return
        if ev.kind != "sql" or not self.conn_of(ev.d["conn"]):
            return
        text = text_of(ev.d["sql"])
        w = first(text)
        if w in ("begin", "savepoint") and saved is None:
            st.mon[self.name] = (cur, cur)
            return
        for fx in self.stmts(text):
            k = fx[0]
            self.writes += 1
            if k == "member":
                count, union, gone = True, True, gone
                marks = "some" if marks == "none" else marks
                if fx[1] == "replace":
                    self.problems.append((R_TRIG, ev, "REPLACE on the cluster assignments moves a feature without marking the cluster it leaves"))
                if fx[1] == "delete-all":
                    gone = gone
            elif k == "content":
                content, union = True, True
            elif k == "mark":
                if fx[1] is True:
                    marks = "all"
                elif marks == "none":
                    marks = "some"
            elif k == "count":
                count, gone = False, True
            elif k == "union":
                if ev.d["how"] == "executemany" or not ev.loops:
                    union = False
                    if content and marks == "all":
                        content = False
            elif k == "gone":
                gone = False if not count else gone
            elif k == "clear":
                if count or union:
                    self.problems.append((R_MARKS, ev, "the marks of changed clusters are deleted before the clusters are refreshed"))
                marks = "none"
        st.mon[self.name] = ((count, union, gone, content, marks), saved)


def pending(s):
    count, union, gone, content, marks = s
    out = []
    if count:
        out.append("feature counts")
    if union:
        out.append("document sets and weights")
    if gone:
        out.append("clusters left empty")
    if content and not union:
        out.append("clusters not marked after the index changed")
    return out


# ---------------------------------------------------------------- the check
def run(c, lab):
    c.rule(R_TRIG, "every trigger-covered change of a feature's cluster marks the cluster it leaves and the one it joins")
    c.rule(R_STALE, "on every path, whatever an operation changed has been recounted and re-united before it returns")
    c.rule(R_MARKS, "the list of changed clusters is cleared only after counts and unions were refreshed")
    c.rule(R_CNT, "the stored feature count is the number of rows assigned to that cluster, for every changed cluster")
    c.rule(R_UNI, "the stored documents, document count and weight are computed from all features of that same cluster")
    c.rule(R_GONE, "clusters whose refreshed count is zero are deleted")
    c.rule(R_HIST, "from the object state any operation can leave behind, the next edit still refreshes the summaries")
    c.rule(R_ALL, "the refresh visits every changed cluster and skips none")
    c.assumptions += ["triggers fire as SQLite documents (not for rows removed by REPLACE unless recursive_triggers is on)",
                      "the object's connection is the only one that edits the index"]
    cat = lab.catalogue("index")
    stmts = Stmts(cat)
    c.guard(R_TRIG, "triggers", lambda: triggers(c, lab, cat))
    cls = lab.index_cls
    fx = lab.effects()
    names = [n for n in lab.public(cls) if fx.get(n) is None or fx.get(n) & {MEMBERS, SUMMARY, MARKS, CONTENT}]
    editing = [n for n in names if fx.get(n)]
    c.require(editing, "no editing operation of Index was found")
    c.count("editing_operations", len(editing))
    loops, rep = set(), None
    for n in editing:
        r = lab.run_method(cls, n, max_states=2)
        for e in r.of("sql"):
            if e.loops and ("union",) in stmts(text_of(e.d["sql"])):
                loops.add(e.loops[-1])
    for n in editing:
        c.guard(R_STALE, f"Index.{n}", lambda: edit(c, lab, cls, n, stmts))
    for n in names:
        if n not in editing:
            c.unsure(R_STALE, f"Index.{n}", "analysis", "could not be analysed")
    c.guard(R_UNI, "refresh", lambda: refresh(c, lab, cls, editing, stmts, cat))
    c.guard(R_HIST, "Index", lambda: history(c, lab, cls, editing, stmts))


def loops_of(r, stmts):
    return {e.loops[-1] for e in r.of("sql") if e.loops and ("union",) in stmts(text_of(e.d["sql"]))}


def edit(c, lab, cls, n, stmts):
    fn = f"Index.{n}"
    plain = lab.run_method(cls, n, max_states=2)
    main = lab.main_conns(plain)
    mon = Stale(lambda k: k in main, stmts, loops_of(plain, stmts))
    r = lab.run_method(cls, n, monitors=[mon], max_states=2 if len(plain.events) > 1500 else 4, key="c02")
    if any(("unknown", x) in stmts(text_of(e.d["sql"])) for e in r.of("sql") for x in (MEMBERS, SUMMARY, MARKS, CONTENT)):
        c.unsure(R_STALE, fn, "statement", "a statement that changes the model is not understood")
        return
    seen = set()
    for rule, ev, msg in mon.problems:
        if (rule, ev.site) not in seen:
            seen.add((rule, ev.site))
            c.bad(rule, fn, stmt_label(clean(text_of(ev.d["sql"]))), f"{fn}: {msg}", ev.where)
    bad = False
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        left = pending(st.mon["stale"][0])
        if left:
            bad = True
            c.bad(R_STALE, fn, "/".join(left), f"{fn} can return without refreshing: {', '.join(left)}", fn)
    if not bad:
        c.ok(R_STALE, fn, "", f"{len(r.outs)} outcomes")
    if not any(p[0] == R_MARKS for p in mon.problems):
        c.ok(R_MARKS, fn, "")


# ---------------------------------------------------------------- triggers
def covered(stmt, new_old):
    """Column references new./old.cluster_id a trigger statement inserts into the marks."""
    if stmt.op != "insert" or stmt[2] != MARKS:
        return set()
    out = set()
    src = stmt[4]
    if src.op != "select":
        return set()
    cols, frm, wh = src.args[:3]
    rows = []
    for f in frm:
        if f[1].op == "values":
            rows += list(f[1][0])
    if not frm and wh is None:
        rows.append(tuple(e for e, a in cols))
    for x in [src] + [y for y in sub_terms(src) if y.op == "select"]:
        for y in (x.args[8] if len(x.args) > 8 and isinstance(x.args[8], tuple) else ()):
            for z in sub_terms(y) if isinstance(y, T) else ():
                if z.op == "select" and not z[1] and z[2] is None:
                    rows.append(tuple(e for e, a in z[0]))
    pos = 0
    if stmt[3]:
        pos = list(stmt[3]).index("cluster_id") if "cluster_id" in stmt[3] else 0
    for row in rows:
        if len(row) > pos and isinstance(row[pos], T) and row[pos].op == "col" and row[pos][-1] == "cluster_id":
            out.add(row[pos][0])
    return out


def when_ok(cond, event):
    """True: holds whenever the cluster changes; False: certainly not always; None: unknown."""
    if cond is None:
        return True
    ok = True
    for x in conjuncts(cond):
        cols = {(y[0], y[-1]) for y in sub_terms(x) if y.op == "col"}
        if x.op == "cmp" and x[0] in ("!=", "<>", "is not", "isnot") and cols == {("old", "cluster_id"), ("new", "cluster_id")}:
            continue
        if x.op in ("isnot", "is not", "ne") and cols == {("old", "cluster_id"), ("new", "cluster_id")}:
            continue
        if x.op == "not" and x[0].op == "cmp" and x[0][0] in ("=", "is", "==") and cols == {("old", "cluster_id"), ("new", "cluster_id")}:
            continue
        if x.op == "cmp" and x[0] in ("<", ">", "<=", ">=", "=", "==") and cols <= {("old", "cluster_id"), ("new", "cluster_id")}:
            return False
        if cols and not cols <= {("old", "cluster_id"), ("new", "cluster_id")}:
            return False
        ok = None
    return ok


def triggers(c, lab, cat):
    trig = []
    for name, tbl, sql in cat.triggers():
        if tbl == MEMBERS:
            try:
                trig.append((name, parse(sql)[0]))
            except SqlError as e:
                c.unsure(R_TRIG, "schema", name, f"trigger not understood: {e}")
                return
    need = {"insert": {"new"}, "update": {"new", "old"}, "delete": {"old"}}
    for ev, want in need.items():
        have, maybe, why = set(), False, ""
        for name, s in trig:
            temp, nm, when, event, cols, tb, cond, body, ine = s.args
            if event != ev:
                continue
            if ev == "update" and cols and "cluster_id" not in cols:
                why = f"trigger {nm} is not fired when the cluster changes"
                continue
            w = when_ok(cond, ev)
            got = set()
            for b in body:
                got |= covered(b, want)
            if w is False:
                why = f"the condition of trigger {nm} leaves out some moves"
                continue
            if w is None:
                maybe = True
                continue
            have |= got
        if want <= have:
            c.ok(R_TRIG, "schema", ev, f"marks {', '.join(sorted(want))}")
        elif maybe or not trig:
            c.unsure(R_TRIG, "schema", ev, "clusters are not marked by an unconditional trigger")
        else:
            miss = " and ".join(sorted(want - have))
            c.bad(R_TRIG, "schema", ev, f"on {ev} of a cluster assignment the {miss} cluster is not marked as changed" + (f": {why}" if why else ""), "_index_schema.py")


# ---------------------------------------------------------------- the refresh itself
def restricted(wh):
    """Conditions of the count update: None fine, else what restricts it."""
    for x in conjuncts(wh) if wh is not None else []:
        if x.op == "in" and x[0].op == "col" and x[0][-1] == "cluster_id":
            s = x[1][0] if x[1].op == "sub" else x[1]
            if isinstance(s, T) and s.op == "select" and len(s[1]) == 1 and s[1][0][1].op == "table" and s[1][0][1][1] == MARKS and s[2] is None and s.args[6] is None:
                continue
            if isinstance(s, T) and s.op == "select" and s[2] is not None:
                return False, x
            return None, x
        if any(y.op == "col" and y[-1] == "cluster_id" for y in sub_terms(x)) and any(y.op == "table" and y[1] == MARKS for y in sub_terms(x)):
            return None, x
        if x.op == "cmp" and {x[1].op, x[2].op} == {"col", "lit"} and [y for y in x.args[1:] if y.op == "col"][0][-1] not in ("cluster_id",):
            return False, x
        if x.op == "cmp" and x[0] in ("=", "==") and x[1].op == "col" and x[1][-1] == "cluster_id":
            return None, x
        return None, x
    return True, None


def counts(c, text, where):
    s, _ = parse(text)
    alg, sch, tb, alias, sets, frm, wh = s.args
    val = dict(sets)["feature_count"]
    sel = val[0] if isinstance(val, T) and val.op == "sub" else None
    if sel is None or frm:
        c.unsure(R_CNT, "refresh", "count", "the count is not a sub-select", where)
        return
    cols, f, cond = sel.args[:3]
    if len(f) != 1 or f[0][1].op != "table" or f[0][1][1] != MEMBERS or len(cols) != 1:
        c.unsure(R_CNT, "refresh", "count", "the count is not taken from the cluster assignments alone", where)
        return
    e = cols[0][0]
    cnt = e.op == "fn" and str(e[0]).lower() == "count"
    inner = f[0][1][2] or MEMBERS
    cs = conjuncts(cond) if cond is not None else []
    join = [x for x in cs if x.op == "cmp" and x[0] in ("=", "==", "is") and {y[-1] for y in (x[1], x[2]) if y.op == "col"} == {"cluster_id"} and
            {y[0] for y in (x[1], x[2])} <= {inner, None, alias or tb, MEMBERS}]
    extra = [x for x in cs if x not in join]
    if not cnt:
        c.bad(R_CNT, "refresh", "count", "the stored feature count is not a count of the cluster's rows", where)
    elif not join and not extra:
        c.bad(R_CNT, "refresh", "count", "the stored feature count counts the features of every cluster", where)
    elif not join:
        c.unsure(R_CNT, "refresh", "count", "the count is not tied to the cluster in a recognised way", where)
    elif extra:
        c.bad(R_CNT, "refresh", "count", "the stored feature count leaves out features of the cluster", where)
    elif e[1] and not any(y.op == "col" and y[-1] == "feature_id" for y in sub_terms(e)):
        c.bad(R_CNT, "refresh", "count", "the stored feature count counts distinct values, not features", where)
    else:
        ok, x = restricted(wh)
        if ok is False:
            c.bad(R_CNT, "refresh", "restricted", "the feature count of some changed clusters is not refreshed", where)
        elif ok is None:
            c.unsure(R_CNT, "refresh", "restricted", "the refresh is restricted in a way that is not understood", where)
        else:
            c.ok(R_CNT, "refresh", "count", "", where)


def refresh(c, lab, cls, editing, stmts, cat):
    pick = min(editing, key=lambda n: len(lab.run_method(cls, n, max_states=2).events))
    best = None
    for n in editing:
        r = lab.run_method(cls, n, max_states=2)
        if any(("union",) in stmts(text_of(e.d["sql"])) for e in r.of("sql")):
            if best is None or len(r.events) < len(best[1].events):
                best = (n, r)
    if best is None:
        c.unsure(R_UNI, "refresh", "", "no statement that stores a cluster's documents was found")
        return
    n, r = best
    main = lab.main_conns(r)
    seen = set()
    for e in r.of("sql"):
        if e.d["conn"] not in main:
            continue
        text = text_of(e.d["sql"])
        for fx in stmts(text):
            if (fx[0], e.site) in seen:
                continue
            if fx[0] == "count":
                seen.add((fx[0], e.site))
                c.guard(R_CNT, "refresh", lambda: counts(c, text, e.where))
            elif fx[0] == "union":
                seen.add((fx[0], e.site))
                c.guard(R_UNI, "refresh", lambda: union(c, lab, r, e, text, cat))
            elif fx[0] == "gone":
                seen.add((fx[0], e.site))
                c.ok(R_GONE, "refresh", "", "", e.where)
    if not any(k == "gone" for k, _ in seen):
        drops = [e for e in r.of("sql") if ("drop",) in stmts(text_of(e.d["sql"])) and e.d["conn"] in main]
        if drops:
            c.unsure(R_GONE, "refresh", "", "clusters are deleted by a condition that is not understood", drops[0].where)
        else:
            c.bad(R_GONE, "refresh", "", "no statement of the refresh deletes clusters without features")
    # every result is stored
    lid = {e.loops[-1] for e in r.of("sql") if e.loops and ("union",) in stmts(text_of(e.d["sql"]))}
    if lid:
        work = lambda ev: ev.kind == "sql" and ("union",) in stmts(text_of(ev.d["sql"]))
        cov = Coverage(lid, work)
        rr = lab.run_method(cls, n, monitors=[cov], max_states=4, key="c02cov")
        miss = any(k == "return" and (dict(s.mon["coverage"]).get("!") or any(x in dict(s.mon["coverage"]) for x in lid)) for k, v, s in rr.outs)
        c.decide(not miss, R_ALL, "refresh", "stored", "" if not miss else "the refresh can skip the result of a changed cluster")


def row_of(x):
    """(element, position) a value is taken from."""
    if x.op in ("item", "col") and isinstance(x[0], T):
        k = x[1]
        return x[0], (k[0] if isinstance(k, T) and is_const(k) else k)
    return None, None


def union(c, lab, r, e, text, cat):
    s, params = parse(text)
    alg, sch, tb, alias, sets, frm, wh = s.args
    fn, where = "refresh", e.where
    cs = conjuncts(wh) if wh is not None else []
    key = [x for x in cs if x.op == "cmp" and x[0] in ("=", "==") and x[1].op == "col" and x[1][-1] == "cluster_id" and x[2].op == "param"]
    vals = dict(sets)
    if not all(isinstance(v, T) and v.op == "param" for v in vals.values()):
        c.unsure(R_UNI, fn, "values", "the stored values are computed in the statement", where)
        return
    if not key:
        if not cs:
            c.bad(R_UNI, fn, "key", "the documents of one cluster are stored for every cluster", where)
        else:
            c.unsure(R_UNI, fn, "key", "the cluster stored to is not understood", where)
        return
    if len(cs) > 1:
        c.unsure(R_UNI, fn, "extra", "the store is restricted further", where)
    row = e.d["row"] if isinstance(e.d["row"], T) else e.d["params"]
    arg = {n: argument(row, v[0], r.ip, e.heap) for n, v in vals.items()}
    kv = argument(row, key[0][2][0], r.ip, e.heap)
    if kv is None or any(v is None for v in arg.values()):
        c.unsure(R_UNI, fn, "values", "the bound values could not be followed", where)
        return
    missing = COLS - set(vals)
    if missing:
        c.bad(R_UNI, fn, "columns", f"the refresh does not store {', '.join(sorted(missing))}", where)
        return
    docs = arg["doc_ids"]
    n = arg["docs_count"]
    sized = None
    if n.op == "call" and n[0] == "len" and len(n[1]) == 1:
        ok = n[1][0] == docs
        if not ok:
            c.bad(R_UNI, fn, "docs_count", "the stored document count is not the size of the stored document set", where)
            return
    else:
        ne, ni = row_of(n)
        if ne is None or ne != row_of(docs)[0]:
            c.unsure(R_UNI, fn, "docs_count", "", where)
            return
        sized = ni
    de, di = row_of(docs)
    we, wi = row_of(arg["weight"])
    wv = arg["weight"]
    if we is None and wv.op == "call" and wv[0] == "len" and len(wv[1]) == 1 and wv[1][0] == docs:
        c.bad(R_UNI, fn, "weight", "the stored weight is the size of the union, not the sum over the features", where)
        return
    ke, ki = row_of(kv)
    if de is None or not (de == we == ke):
        c.unsure(R_UNI, fn, "values", "documents, weight and cluster id do not come from one result", where)
        return
    subs = [x for x in r.of("submit") if any(y.op in ("poolmap", "future") for y in sub_terms(de)) or True]
    subs = [x for x in subs if x.d["future"] is not None and any(y == x.d["future"] for y in sub_terms(de))] or \
           [x for x in subs if any(o in sub_terms(de) for o in options(x.d["f"]))]
    qs = {r.ip.fqual(o) for x in subs for o in options(x.d["f"])}
    if len(qs) != 1:
        c.unsure(R_UNI, fn, "worker", "the background function could not be identified", where)
        return
    q = qs.pop()
    w = lab.run_worker(q, max_states=4)
    dones = [(v, st) for k, v, st in w.outs if k == "return"]
    for v, st in dones:
        for o in options(w.ip.shape(v, st.heap)):
            if o.op != "tuple" or len(o.args) <= max(di, wi, ki):
                c.unsure(R_UNI, q, "result", "the result is not a tuple", where)
                return
            k, d, wt = o[ki], o[di], o[wi]
            if sized is not None:
                n = o[sized]
                if n == wt or n == k or n.op == "mu":
                    c.bad(R_UNI, fn, "docs_count", "the stored document count is not the size of the stored document set", where)
                    return
                if not (n.op == "call" and n[0] == "len" and n[1][0] == d):
                    c.unsure(R_UNI, fn, "docs_count", "", where)
            check_union(c, lab, w, q, k, d, wt, st, subs, cat, r)


def check_union(c, lab, w, q, k, d, wt, st, subs, cat, r):
    name = q.split(".")[-1]
    fn = lab.p_fn(q)
    # the sets united: every feature of the list
    dv = adds(w.ip, d, st)
    wv = adds(w.ip, wt, st)
    if dv is None:
        c.unsure(R_UNI, name, "documents", "the union is not built in a recognised way", fn.qual)
        return
    init, ops, idle = dv
    feats = None
    for op, x in ops:
        if op not in UNITE:
            c.bad(R_UNI, name, "documents", f"the document set of a cluster is combined by `{op}`, not by union", fn.qual)
            return
        one = docs_of(x)
        if one is EMPTY:        # a feature without documents on this path
            continue
        feats = one if feats in (None, one) else None
        if feats is None:
            c.unsure(R_UNI, name, "documents", "what is united could not be followed", fn.qual)
            return
    if not ops or feats is None:
        c.unsure(R_UNI, name, "documents", "nothing is united", fn.qual)
        return
    lost = loses(ops, idle)
    if lost:
        c.bad(R_UNI, name, "documents", "the documents of some features of the cluster are left out", fn.qual)
    elif lost is None:
        c.unsure(R_UNI, name, "documents", "some features may be left out", fn.qual)
    if wv is None:
        c.unsure(R_UNI, name, "weight", "the weight is not built in a recognised way", fn.qual)
    else:
        i2, ops2, idle2 = wv
        sized = lambda x: x.op == "call" and x[0] == "len" and len(x[1]) == 1
        plus = bool(ops2) and all(op == "+" for op, x in ops2)
        if plus and all(sized(x) and (x[1][0].op in ("upd", "mu", "cell") or x[1][0].op == "bin" and any(y.op == "mu" for y in sub_terms(x[1][0]))) for op, x in ops2):
            c.bad(R_UNI, name, "weight", "the weight adds up the sizes of the growing union, not of each feature", fn.qual)
        elif plus and all(is_const(x) for op, x in ops2):
            c.bad(R_UNI, name, "weight", "the weight counts features instead of adding up their documents", fn.qual)
        elif is_const(i2) and i2[0] != 0 and plus:
            c.bad(R_UNI, name, "weight", f"the weight starts at {i2[0]}", fn.qual)
        elif plus and is_const(i2, 0) and all(is_const(x, 0) or sized(x) and docs_of(x[1][0]) in (feats, EMPTY) for op, x in ops2) and loses([(op, x[1][0]) for op, x in ops2 if not is_const(x)], idle2) is False:
            c.ok(R_UNI, name, "weight", "sum of the sizes of the same features", fn.qual)
        else:
            c.unsure(R_UNI, name, "weight", "", fn.qual)
    # key and feature list come from the submitted arguments
    params = [p for p in sub_terms(feats) if p.op == "param"]
    kp = [p for p in sub_terms(k) if p.op == "param"]
    if len(params) != 1 or len(kp) != 1:
        c.unsure(R_UNI, name, "arguments", "", fn.qual)
        return
    if kp[0] == params[0]:
        c.bad(R_UNI, name, "key", "the result is filed under something other than the cluster", fn.qual)
        return
    c.ok(R_UNI, name, "documents", "union over every feature of the list", fn.qual)
    for s in subs:
        submitted(c, lab, r, s, q, kp[0][1], params[0][1], cat)


UNITE = ("|", "extend")


def adds(ip, v, st):
    """(initial value, [(operator, added value)], facts of the iterations that add nothing) of an accumulator."""
    v = ip.content(v, st)
    m = [v] if v.op == "mu" else [y for y in sub_terms(v) if y.op == "mu"]
    if len(m) != 1 or m[0] not in ip.mus:
        return None
    m = m[0]
    d = ip.mus[m]
    init = d["init_content"] if d.get("init_content") is not None else d["init"]
    ops, idle = [], []
    for b in d["backs"]:
        for x in options(b[1] if b[1] is not None else b[0]):
            if x == m:
                idle.append(b[2])
            elif x.op == "bin" and x[1] == m:
                ops.append((x[0], x[2]))
            elif x.op == "bin" and x[2] == m:
                ops.append((x[0], x[1]))
            elif x.op == "upd" and x[1] == m and len(x[2]) == 1:
                ops.append((x[0], x[2][0]))
            else:
                return None
    return init, ops, idle


def loses(ops, idle):
    """Can an iteration whose set is not empty add nothing?  True / False / None."""
    res = False
    sets = {o for op, x in ops for o in [x] + list(options(x))}
    for facts in idle:
        vs = []
        for n in (1, 3, 1000):
            def leaf(x):
                return frozenset(range(n)) if x in sets else UNKNOWN
            vs.append(consistent(facts, leaf))
        if any(v is True for v in vs):
            return True
        if any(v is None for v in vs):
            res = None
    return res


EMPTY = "empty"


def docs_of(x):
    """The list of features whose stored documents a value is; None when it is something else."""
    found, left = None, 0
    for o in options(x):
        left += o.op in ("cell", "bitmap", "call", "new") or is_const(o, None)
        if is_const(o, None) or o.op in ("cell", "bitmap") and not any(y.op == "cursor" for y in sub_terms(o)):
            continue
        if o.op in ("call", "new") and not any(y.op == "cursor" for y in sub_terms(o)):
            continue
        e, i = row_of(o)
        cur = next((y for y in sub_terms(o) if y.op == "cursor"), None)
        if e is None or cur is None or cursor_of(cur) is None:
            return None
        text, params = cursor_of(cur)
        if not re.search(r"select\s+doc_ids\s+from\s+inverted_index\b", text, re.I) or params is None:
            return None
        el = [y for y in sub_terms(params) if y.op in ("elem", "each", "star")]
        if not el or found is not None and found != el[0][0]:
            return None
        found = el[0][0]
    return found if found is not None else None if not left else EMPTY


def submitted(c, lab, r, s, q, kname, fname, cat):
    name = q.split(".")[-1]
    vals = []
    for x in s.d["contents"]:
        if x.op == "comp":
            vals.append((x[1], x[2]))
        elif x.op in ("list",) and x.args:
            vals.append((x[0], ()))
    fn = lab.p_fn(q)
    if s.d["many"]:
        if len(vals) != 1:
            c.unsure(R_UNI, name, "arguments", "", s.where)
            return
        tupv, conds = vals[0]
        names = fn.posargs
        def pick(nm):
            parts = nm.split(".")
            v = tupv
            for p in parts[1:]:
                v = v[int(p)] if v.op == "tuple" and len(v.args) > int(p) else None
                if v is None:
                    return None
            return v
        if conds:
            c.bad(R_ALL, "refresh", "submitted", "some changed clusters are not refreshed", s.where)
    else:
        def pick(nm):
            return s.d["args"][fn.posargs.index(nm)] if nm in fn.posargs and fn.posargs.index(nm) < len(s.d["args"]) else None
    kv, fv = pick(kname), pick(fname)
    if kv is None or fv is None:
        c.unsure(R_UNI, name, "arguments", "", s.where)
        return
    kcur = [cursor_of(y) for y in sub_terms(kv) if y.op == "cursor"]
    fv = r.ip.shape(fv, s.heap) if fv.op == "cell" else fv
    fcur = [y for y in sub_terms(fv) if y.op == "cursor"]
    if not kcur or kcur[0] is None or not fcur or cursor_of(fcur[0]) is None:
        c.unsure(R_UNI, name, "arguments", "the list of features could not be followed", s.where)
        return
    qk = Query(cat, kcur[0][0])
    if not qk.inst(MARKS):
        c.unsure(R_ALL, "refresh", "clusters", "the refreshed clusters are not those marked", s.where)
    elif qk.where or qk.limit is not None:
        c.bad(R_ALL, "refresh", "clusters", "only some of the changed clusters are refreshed", s.where)
    else:
        c.ok(R_ALL, "refresh", "clusters", "", s.where)
    ftext, fparams = cursor_of(fcur[0])
    qf = Query(cat, ftext)
    inst = qf.inst(MEMBERS)
    if not inst or len(qf.frm) != 1:
        c.unsure(R_UNI, name, "features", "", s.where)
        return
    got = None
    for i in range(len(qf.cols)):
        if (MEMBERS, "feature_id") in (qf.column(i) or ()):
            got = i
    keyed = [p for x in qf.where for p in sub_terms(x) if p.op == "param"]
    extra = [x for x in qf.where if not (x.op == "cmp" and x[0] in ("=", "is") and any(y.op == "c" and y[1] == "cluster_id" for y in x.args[1:] if isinstance(y, T)) and
                                        any(y.op == "param" for y in x.args[1:] if isinstance(y, T)))]
    if extra or qf.limit is not None:
        c.bad(R_UNI, name, "features", "some features of a cluster are left out of its summary", s.where)
    elif not keyed:
        c.bad(R_UNI, name, "features", "features of other clusters are included in the summary", s.where)
    elif got is None:
        c.bad(R_UNI, name, "features", "the summary is not computed from the ids of the cluster's features", s.where)
    else:
        p = argument(fparams, keyed[0][0], r.ip, s.heap) if fparams is not None else None
        same = p is not None and p == kv or fparams is not None and row_of(kv)[0] == fparams
        if same:
            c.ok(R_UNI, name, "features", "", s.where)
        else:
            c.unsure(R_UNI, name, "features", "the features are not clearly those of the same cluster", s.where)


# ---------------------------------------------------------------- sequences of calls
def scalars(env, obj):
    return {k[2]: v for k, v in env.items() if k[0] == "@" and k[1] is obj and is_const(v) and type(v[0]) in (int, bool)}


def history(c, lab, cls, editing, stmts):
    moves = [n for n in editing if any(fx[0] == "member" for e in lab.run_method(cls, n, max_states=2).of("sql") for fx in stmts(text_of(e.d["sql"])))]
    if not moves:
        c.unsure(R_HIST, "Index", "", "no operation that changes the clusters was found")
        return
    rep = min(moves, key=lambda n: len(lab.run_method(cls, n, max_states=2).events))
    states = {}
    n_runs = 0
    for n in lab.public(cls):
        if n in ("pool", "is_index_db", "close") or n not in lab.effects():
            continue
        try:
            r = lab.run_method(cls, n, faults=True, max_states=2)
        except (AnalysisError, RecursionError):
            continue
        n_runs += 1
        for kind, v, st in r.outs:
            sc = scalars(st.env, r.obj)
            states.setdefault(tuple(sorted((k, x[0]) for k, x in sc.items())), (n, kind, st.fault))
    bad = False
    for i, (sc, (n, kind, fault)) in enumerate(states.items()):
        main = []

        def prep(ip, obj, st):
            for k, v in list(st.env.items()):
                if k[0] == "@" and k[1] is obj and v.op == "conn":
                    main.append(v)
            for k, x in sc:
                st.env[("@", obj, k)] = const(x)
            return st

        plain = lab.run_method(cls, rep, max_states=2)
        mon = Stale(lambda k: k in main, stmts, loops_of(plain, stmts))
        r2 = lab.run_method(cls, rep, monitors=[mon], max_states=4, prep=prep, key=("c02h", sc))
        for k2, v2, st2 in r2.outs:
            left = pending(st2.mon["stale"][0])
            if k2 == "return" and left:
                bad = True
                where = ""
                if fault:
                    s = [x for x in fault[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int)]
                    where = f" (after {fault[0]} at {s[-1][0]}:{s[-1][1]})" if s else ""
                c.bad(R_HIST, f"Index.{n}", f"{kind}", f"after Index.{n} {'ended with an error' if kind == 'raise' else 'returned'}{where}, the next edit "
                      f"does not refresh {', '.join(left)}", f"Index.{n}")
                break
    if not bad:
        c.ok(R_HIST, "Index", rep, f"{len(states)} object states from {n_runs} operations, continued with {rep}")
    c.count("object_states", len(states))
