"""C04: re-indexing keeps feature ids, cluster membership and pins (effects and dataflow of the statements a re-index runs)."""
from sa.interp import Monitor
from sa.lab import *
from sa.rel import schema_of
from sa.sql import parse, Resolver, SqlError, eq_closure
from checks.c02 import empties, COLS
from checks.c03 import Reindex

R_ID = "known-features-keep-their-id"
R_FEAT = "features-are-never-deleted"
R_FK = "replacing-a-feature-does-not-cascade"
R_MEM = "cluster-membership-is-not-touched"
R_PIN = "pins-are-not-touched"
R_GONE = "vanished-features-match-no-documents"
R_CNT = "counts-per-cluster-follow-the-new-index"
R_TRIG = "triggers-do-not-undo-it"

FEAT, MEM, CLU = "inverted_index", "feature_cluster", "cluster"


def low(x):
    return x.lower() if isinstance(x, str) else x


class Fx:
    """Effect of one statement on features and model: list of (kind, ...)"""

    def __init__(self, lab):
        self.cat = lab.catalogue("index")
        sch = dict(schema_of(self.cat))
        try:
            sch = {**schema_of(lab.catalogue("segment")), **sch}
        except AnalysisError:
            pass
        self.res = Resolver(sch)
        self.memo = {}

    def __call__(self, text):
        if text not in self.memo:
            try:
                self.memo[text] = self.classify(text)
            except (SqlError, KeyError, IndexError, TypeError, AttributeError) as e:
                w, tg = first(text), target_of(clean(text))
                self.memo[text] = [("unknown", tg, str(e))] if (w in DML + DDL or w == "with") and (tg in (FEAT, MEM, CLU) or not tg) else []
        return self.memo[text]

    def classify(self, text):
        s, params = parse(text)
        out = []
        if s.op == "insert":
            alg, sch, tb, cols, src, up = s.args
            tb = low(tb)
            if sch and low(sch) not in ("main",):
                return []
            if tb == FEAT:
                out.append(("feature-insert",) + self.feature(s))
            elif tb in (MEM, CLU):
                if alg == "replace":
                    out.append(("member-replace" if tb == MEM else "cluster-replace",))
                elif up is not None and up.op == "do_update" and {low(n) for n, _ in up[1]} & {"pinned", "cluster_id", "feature_id"}:
                    out.append(("pin",) if "pinned" in {low(n) for n, _ in up[1]} else ("member",))
                elif tb == MEM:
                    out.append(("member-insert",))
        elif s.op == "update":
            i, sets, conj, frm = self.res.update(s)
            names = {low(n) for n in sets}
            tb = low(s[2])
            if s[1] and low(s[1]) != "main":
                return []
            if tb == FEAT:
                if names & {"feature_id", "field", "value"}:
                    out.append(("feature-rename", sorted(names & {"feature_id", "field", "value"})))
                if names & {"docs_count", "doc_ids"}:
                    out.append(("reset" if not conj and not frm and not any(x.op in ("c",) for v in sets.values() for x in sub_terms(v)) else "feature-update",
                                {low(k): v for k, v in sets.items()}, conj))
            elif tb == MEM:
                if "pinned" in names:
                    out.append(("pin",))
                if names & {"cluster_id", "feature_id"}:
                    out.append(("member",))
                if "docs_count" in names:
                    out.append(("counts", self.counts(i, sets, conj, frm)))
            elif tb == CLU and names & {"pinned"}:
                out.append(("pin",))
            elif tb == CLU and "cluster_id" in names:
                out.append(("member",))
        elif s.op == "delete":
            sch, tb, alias, wh = s.args[:4]
            tb = low(tb)
            if sch and low(sch) != "main":
                return []
            if tb == FEAT:
                out.append(("feature-delete", wh))
            elif tb == MEM:
                out.append(("member-delete", wh))
            elif tb == CLU and not empties(wh):
                out.append(("cluster-delete", wh))
        elif first(text) in ("drop", "alter"):
            tg = target_of(clean(text))
            if tg in (FEAT, MEM, CLU):
                out.append(("feature-delete" if tg == FEAT else "member-delete", None))
        return out

    # ------------------------------------------------------------ which id does an inserted feature get
    def feature(self, s):
        """(deletes conflicting rows?, id verdict True/False/None, text)"""
        alg, sch, tb, cols, src, up = s.args
        names = [low(c) for c in cols] if cols is not None else self.cat_cols(FEAT)
        key = any({low(c) for c in k} == {"field", "value"} for k in self.cat.unique_keys(FEAT))
        if up is not None:
            if up.op == "do_nothing":
                return (False, True, "existing features are left alone")
            ups = {low(n) for n, _ in up[1]}
            if ups & {"feature_id"}:
                return (False, None, "the id is assigned in an upsert")
            tg = {low(x[-1]) for x in up[0] if x.op == "col"}
            if tg and tg != {"field", "value"}:
                return (False, None, "upsert on other columns")
            return (False, True, "upsert keeps the id")
        if alg == "ignore":
            return (False, True, "existing features are left alone")
        if alg != "replace":
            return (False, None, "plain insert of features")
        if not key:
            return (True, None, "features have no unique key")
        if "feature_id" not in names:
            return (True, False, "replacing a feature without giving its id assigns a new one")
        if src.op != "select":
            return (True, None, "values")
        q = self.res.select(src)
        es = [e for e, a in q[0]]
        if len(es) != len(names):
            return (True, None, "columns do not line up")
        m = dict(zip(names, es))
        e = m["feature_id"]
        while e.op == "fn" and low(e[0]) in ("coalesce", "ifnull") and len(e.args) >= 3:
            if any(x.op == "c" or x.op == "sub" for y in e.args[3:] for x in sub_terms(y)):
                return (True, None, "several sources of the id")
            e = e[2]
        if e.op == "lit" or e.op == "null" or (e.op == "fn" and low(e[0]) in ("random", "row_number", "max", "min", "count")):
            return (True, False, "the id of a replaced feature is not looked up")
        if e.op == "sub":
            sq = e[0]
            if len(sq[0]) != 1:
                return (True, None, "lookup")
            col, conj, frm = sq[0][0][0], list(sq[2]), sq[1]
            if sq[3] or sq[4] is not None or (sq[8] if len(sq.args) > 8 else ()):
                return (True, None, "lookup with grouping")
        else:
            col, conj, frm = e, list(q[2]), q[1]
            for jt, src_, on, us in frm:
                if on is not None and isinstance(on, T):
                    conj.append(on)
                elif isinstance(on, (tuple, list)):
                    conj.extend(on)
        if not (col.op == "c" and col[0].op == "inst" and low(col[0][0]) == FEAT and low(col[1]) == "feature_id"):
            if col.op == "c":
                return (True, False, f"the id is taken from {show(col, 3)}, not from the feature with the same field and value")
            return (True, None, "lookup of another shape")
        find = eq_closure(conj + list(q[2]))
        for want in ("field", "value"):
            src_e = m.get(want)
            if src_e is None:
                return (True, None, f"{want} is not inserted")
            mine = [x for x in self.mentions(conj, col[0]) if low(x[1]) == want]
            if not any(find(x) is find(src_e) for x in mine):
                others = self.mentions(conj, col[0])
                if not mine and e.op == "sub" and all(low(x[1]) in ("field", "value") for x in others) and \
                        all(c.op == "cmp" and c[0] == "=" for c in conj):
                    return (True, False, f"the id of a feature is looked up without comparing its {want}")
                if mine and all(c.op == "cmp" and c[0] == "=" and c[1].op == "c" and c[2].op == "c" for c in conj):
                    return (True, False, f"the id is looked up by another {want} than the one stored")
                return (True, None, f"lookup does not visibly compare {want}")
        extra = [c for c in conj if not (c.op == "cmp" and c[0] in ("=", "is") and c[1].op == "c" and c[2].op == "c")]
        if e.op == "sub" and extra:
            if any(low(x[1]) in ("docs_count", "doc_ids", "feature_id") and x[0] is col[0] for c in extra for x in sub_terms(c) if x.op == "c"):
                return (True, False, "only some of the known features are looked up: the others get a new id")
            return (True, None, "lookup with further conditions")
        return (True, True, "id of the feature with the same field and value")

    def cat_cols(self, tb):
        return [c[0].lower() for c in self.cat.columns(tb)]

    def mentions(self, conj, inst):
        return [x for c in conj for x in sub_terms(c) if x.op == "c" and x[0] is inst]

    # ------------------------------------------------------------ docs_count of members
    def counts(self, i, sets, conj, frm):
        e = {low(k): v for k, v in sets.items()}["docs_count"]
        while e.op == "fn" and low(e[0]) in ("coalesce", "ifnull"):
            e = e[2]
        if e.op == "lit":
            return False
        cs = list(conj)
        if e.op == "sub":
            q = e[0]
            col = q[0][0][0]
            cs2 = list(q[2])
            if conj:
                for c in conj:
                    if any(x.op == "c" and low(x[1]) == "docs_count" for x in sub_terms(c)):
                        return False       # features without documents keep their old count
                    if any(self.picks(c, i) for c in (c[0] if c.op == "not" else c,)):
                        return False       # only some of the members are brought up to date
                return None
        else:
            col, cs2 = e, cs
        if col.op != "c" or col[0].op != "inst":
            return None
        if low(col[0][0]) == FEAT and low(col[1]) == "docs_count":
            find = eq_closure(cs2)
            a = [x for x in self.mentions(cs2, col[0]) if low(x[1]) == "feature_id"]
            b = [x for x in self.mentions(cs2, i) if low(x[1]) == "feature_id"]
            linked = any(find(x) is find(y) for x in a for y in b)
            rest = [c for c in cs2 if not (c.op == "cmp" and c[0] in ("=", "is") and c[1].op == "c" and c[2].op == "c")]
            if linked and not rest:
                return True
            if not linked and not rest and (a or b):
                return False       # the count of another feature
            if linked and any(x.op == "c" and low(x[1]) == "docs_count" for c in rest for x in sub_terms(c)) and e.op != "sub":
                return False
            return None
        if low(col[0][0]) in (MEM, CLU):
            return False
        return None


    def picks(self, c, i):
        """Is this a condition on the cluster or the pin of the row itself, that some rows do not meet?"""
        own = lambda x: x.op == "c" and x[0] is i and low(x[1]) in ("pinned", "cluster_id")  # noqa: E731
        if own(c):
            return low(c[1]) == "pinned"
        return c.op == "cmp" and c[0] in ("=", "==", "is", "<>", "!=") and (own(c[1]) and c[2].op == "lit" and c[2][0] is not None or own(c[2]) and c[1].op == "lit" and c[1][0] is not None)


class Keep(Monitor):
    """(features reset: no/partly/yes, features merged, member counts stale)"""
    name = "keep"

    def __init__(self, conn_of, fx):
        self.conn_of, self.fx = conn_of, fx
        self.found = []
        self.commits = []

    def init(self):
        return ("no", False, False)

    def event(self, ev, st, ip):
        if ev.kind not in ("sql", "sqldone", "conn_commit") or not self.conn_of(ev.d["conn"]):
            return
        reset, merged, stale = st.mon[self.name]
        if ev.kind == "sql":
            if is_const(ev.d["sql"]):
                fxs = self.fx(ev.d["sql"][0])
            else:
                w, tg = first(text_of(ev.d["sql"])), target_of(text_of(ev.d["sql"]))
                fxs = [("unknown", tg, "built at run time")] if w in DML + DDL and (tg in (FEAT, MEM, CLU) or "{" in tg or not tg) else []
            for fx in fxs:
                k = fx[0]
                self.found.append((fx, ev, st.mon["ri"][1], reset))
                if k == "feature-insert":
                    merged, stale = True, True
                elif k == "reset":
                    v = self.zero(fx[1], ev, ip, st)
                    reset = {True: "yes", False: reset, None: "partly" if reset == "no" else reset}[v]
                    stale = True
                elif k == "feature-update":
                    reset = "partly" if reset == "no" else reset
                    stale = True
                elif k == "counts":
                    if fx[1] is not False:
                        stale = False
                elif k == "unknown":
                    stale = False
                    reset = "partly" if reset == "no" else reset
        elif merged and not st.mon["ri"][0][0]:
            self.commits.append((ev, reset, stale, st.fault))
            merged = False
        st.mon[self.name] = (reset, merged, stale)

    def zero(self, sets, ev, ip, st):
        """Does a reset empty the document set and the count of every feature?"""
        from sa.rel import argument
        if "doc_ids" not in sets:
            return False
        e = sets["doc_ids"]
        if e.op == "param":
            v = argument(ev.d.get("params"), e[0], ip, st.heap)
            if v is None:
                return None
            v = ip.content(v, st)
            if v.op == "call" and str(v[0]).endswith("BitMap") and not v[1]:
                return True
            if v.op in ("set", "list") and not v.args:
                return True
            return None
        return None


def run(c, lab):
    c.rule(R_ID, "every statement that adds features keeps the id of a feature that is already known (looked up by field and value, or upsert)")
    c.rule(R_FEAT, "no statement of a re-index deletes features or changes their field, value or id")
    c.rule(R_FK, "foreign key actions are off where a feature row is replaced")
    c.rule(R_MEM, "no statement of a re-index adds, moves or deletes cluster assignments; only clusters without features are deleted")
    c.rule(R_PIN, "no statement of a re-index writes a pin, or replaces a row that carries one")
    c.rule(R_GONE, "every feature is emptied before the new documents are merged, so that features the corpus no longer has match nothing")
    c.rule(R_CNT, "at the commit of the new index the document counts of cluster members were recomputed from it, for every member")
    c.rule(R_TRIG, "no trigger on the tables a re-index writes deletes features or assignments, or writes pins")
    c.assumptions += ["REPLACE deletes the conflicting rows, with foreign key actions when enforcement is on; an update by upsert does not (SQLite)",
                      "the statements are those on the index's own connection along all paths of Index.index without faults"]
    cls = lab.index_cls
    c.require(cls.find("index") is not None, "Index.index not found")
    c.guard(R_ID, "Index.index", lambda: analyse(c, lab, cls))
    c.guard(R_TRIG, "schema", lambda: triggers(c, lab))


def analyse(c, lab, cls):
    main = []
    cat = lab.catalogue("index")
    fx = Fx(lab)
    ri = Reindex(lambda x: x in main, (), {tb.lower() for tb in cat.tables()}, set(), True)
    from checks.c07 import Futures
    ri.fut = Futures()
    mon = Keep(lambda x: x in main, fx)

    def prep(ip, obj, st):
        for k, v in st.env.items():
            if k[0] == "@" and k[1] is obj:
                main.extend(o for o in options(v) if o.op == "conn")
        return st

    r = lab.run_method(cls, "index", monitors=[ri.fut, ri, mon], max_states=4, prep=prep, key=("c04",))
    fn = "Index.index"
    c.count("statements", len({e.where for e in r.of("sql")}))
    cascade = cascades(cat)
    seen = set()
    clean_ = set((R_FEAT, R_MEM, R_PIN))
    for f, ev, fk, reset in mon.found:
        k = f[0]
        s = stmt_label(text_of(ev.d["sql"]))
        if k == "feature-insert":
            seen.add("merge")
            c.decide(f[2], R_ID, ev.fn, s, f"{fn}: {f[3]}", ev.where)
            if f[1]:
                if fk is True and cascade:
                    c.bad(R_FK, ev.fn, s, f"{fn} replaces feature rows while foreign keys are enforced: the cascade deletes from {', '.join(cascade)}", ev.where)
                else:
                    c.decide(True if fk is False or not cascade else None, R_FK, ev.fn, s, "", ev.where)
            else:
                c.ok(R_FK, ev.fn, s, "no rows are replaced", ev.where)
        elif k == "feature-rename":
            c.bad(R_ID, ev.fn, s, f"{fn} changes {', '.join(f[1])} of existing features", ev.where)
        elif k == "feature-delete":
            clean_.discard(R_FEAT)
            if f[1] is None or only_counts(f[1]):
                c.bad(R_FEAT, ev.fn, s, f"{fn} deletes features: ids, cluster assignments and pins of features are lost", ev.where)
            else:
                c.unsure(R_FEAT, ev.fn, s, "features are deleted selectively", ev.where)
        elif k == "member-delete":
            clean_.discard(R_MEM)
            if orphans(f[1]):
                c.unsure(R_MEM, ev.fn, s, "assignments of unknown features are deleted", ev.where)
            else:
                c.bad(R_MEM, ev.fn, s, f"{fn} deletes cluster assignments", ev.where)
        elif k == "cluster-delete":
            clean_.discard(R_MEM)
            if f[1] is None:
                c.bad(R_MEM, ev.fn, s, f"{fn} deletes clusters", ev.where)
            else:
                x = f[1]
                c.decide(False if only_counts(x) else None, R_MEM, ev.fn, s, f"{fn} deletes clusters that may still hold features", ev.where)
        elif k in ("member", "member-insert"):
            clean_.discard(R_MEM)
            c.decide(None if k == "member-insert" else False, R_MEM, ev.fn, s, f"{fn} moves features between clusters", ev.where)
        elif k in ("member-replace", "cluster-replace"):
            clean_.discard(R_PIN)
            c.bad(R_PIN, ev.fn, s, f"{fn} replaces rows of {MEM if k.startswith('m') else CLU}: their pins are reset", ev.where)
        elif k == "pin":
            clean_.discard(R_PIN)
            c.bad(R_PIN, ev.fn, s, f"{fn} writes pins", ev.where)
        elif k == "counts":
            seen.add("counts")
            c.decide(f[1], R_CNT, ev.fn, s, f"{fn}: the recomputed document counts of cluster members are not those of every member in the new index", ev.where)
        elif k == "unknown":
            c.unsure(R_ID, ev.fn, s, f"statement not understood: {f[2]}", ev.where)
    for rule in clean_:
        c.ok(rule, fn, "", f"{len(mon.found)} effects on features and model")
    if "merge" not in seen:
        c.unsure(R_ID, fn, "merge", "no statement that adds features was recognised")
    for ev, reset, stale, fault in mon.commits:
        if reset == "no":
            c.bad(R_GONE, ev.fn, "commit", f"{fn} merges the new documents and never empties the features of the previous index: features the corpus "
                                           f"no longer contains keep matching documents", ev.where)
        else:
            c.decide(True if reset == "yes" else None, R_GONE, ev.fn, "commit", "", ev.where)
        if stale and not any(o[1] == R_CNT for o in c.by("violation") + c.by("undecided")):
            c.bad(R_CNT, ev.fn, "commit", f"{fn} commits the new index while the document counts of cluster members are those of the old one", ev.where)
        elif not stale:
            c.ok(R_CNT, ev.fn, "commit", "", ev.where)


def only_counts(wh):
    cols = [x for x in sub_terms(wh) if x.op in ("col", "c")]
    return bool(cols) and all(low(x[-1]) in ("docs_count", "weight", "doc_ids") for x in cols)


def orphans(wh):
    """Is the condition about features that do not exist any more?"""
    return wh is not None and any(x.op == "table" and low(x[1]) == FEAT for x in sub_terms(wh)) and not any(
        x.op == "col" and low(x[-1]) in ("docs_count",) for x in sub_terms(wh))


def cascades(cat):
    """Tables with model state that lose rows when a feature row is deleted under foreign key enforcement."""
    out = []
    for tb in cat.tables():
        for r in cat.db.execute(f"pragma foreign_key_list({tb})").fetchall():
            if (r[2] or "").lower() == FEAT and (r[6] or "").upper() in ("CASCADE", "SET NULL", "SET DEFAULT"):
                if tb.lower() in (MEM, CLU):
                    out.append(tb)
    return out


def triggers(c, lab):
    cat = lab.catalogue("index")
    n = 0
    for name, sql in cat.db.execute("select name, sql from sqlite_master where type='trigger'").fetchall():
        n += 1
        s, _ = parse(sql)
        temp, nm, when, event, cols, table, cond, body, ine = s.args
        if low(table) not in (FEAT, MEM, "doc_key", "position_index", "position_doc_map", "field_summary", CLU):
            continue
        for b in body:
            tg = low(b[2] if b.op in ("insert", "update") else b[1]) if b.op in ("insert", "update", "delete") else None
            if low(table) != MEM and tg in (FEAT, MEM) or tg in (FEAT,):
                c.unsure(R_TRIG, name, tg, f"trigger {name} writes {tg}")
            elif b.op == "update" and any(low(k) == "pinned" for k, _ in b[4]):
                c.unsure(R_TRIG, name, tg, f"trigger {name} writes pins")
    if not any(o[1] == R_TRIG for o in c.obs):
        c.ok(R_TRIG, "schema", "", f"{n} triggers")
