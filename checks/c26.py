"""C26: editing operations change exactly the clusters and features they are given (effects of SQL statements under example arguments)."""
from sa.hyp import value, consistent, unrolled, UNKNOWN, Unknown
from sa.lab import *
from sa.rel import Query, argument, cursor_of, schema_of
from sa.sql import Resolver, SqlError, conjuncts, parse
from sa.web import expand
from checks.edits import Marks, Writes, assignments, least, narrowing

R_EACH = "everything-named-is-changed"
R_ONLY = "nothing-else-is-changed"
R_VALUE = "changed-to-what-was-asked-for"
R_NEW = "new-cluster-has-a-new-id"
R_RET = "returns-the-cluster-holding-the-features"
R_OLD = "initialising-discards-the-old-model"
R_WHICH = "initial-features-are-the-ones-asked-for"
R_PART = "every-initial-feature-is-in-one-cluster"

TOP = 40        # highest cluster id of the imagined model
NEW = TOP + 1
TABLES = ("feature_cluster", "cluster")
IDS = ([5], [0], [7, 3], [2, 9, 0])


def top_query(text):
    """Value of a query for an id above all others when the highest one is TOP (None: not understood, False: it can be taken)."""
    try:
        st, _ = parse(text)
    except SqlError:
        return None
    if st.op != "select" or len(st[0]) != 1 or len(st[1]) != 1 or st[1][0][1].op != "table" or st[1][0][1][1] not in TABLES:
        return None
    if any(st[i] for i in (3, 4, 8)):
        return None
    if st[2] is not None:
        return False if all(narrowing(x) for x in conjuncts(st[2])) else None

    def go(e):
        if e.op == "lit":
            return e[0]
        if e.op == "fn":
            nm, args = str(e[0]).lower(), e.args[2:]
            if nm in ("max", "min", "count") and len(args) == 1:
                if args[0].op == "col" and args[0][1] == "cluster_id" or nm == "count":
                    return TOP if nm == "max" else 2
                return None
            if nm in ("coalesce", "ifnull") and args:
                return go(args[0])
        if e.op == "col" and e[1] == "cluster_id":
            o = st[5]
            if o and o[0][0].op == "col" and o[0][0][1] == "cluster_id" and st[6] is not None and st[6].op == "lit" and st[6][0] == 1:
                return TOP if o[0][1] == "desc" else 2
            return None
        if e.op in ("bin", "arith") and e[0] in ("+", "-"):
            a, b = go(e[1]), go(e[2])
            if a is None or b is None:
                return None
            return a + b if e[0] == "+" else a - b
        return None
    return go(st[0][0][0])


def new_id(x, heap, ip):
    """Value of an id taken from the database by a query."""
    if x.op in ("col", "item") and x.args and isinstance(x[0], T) and x[0].op == "row":
        cur = cursor_of(x[0][0])
        if cur is not None and (x[1] == 0 or is_const(x[1], 0)):
            return top_query(cur[0])
    if x.op in ("cell", "comp", "call"):
        y = ip.shape(x, heap) if x.op == "cell" else x
        for _ in range(3):
            if y.op == "call" and y[0] in ("list", "set", "sorted", "tuple") and len(y[1]) == 1:
                y = ip.shape(y[1][0], heap)
        if y.op == "comp" and not y[-2]:
            z = ip.shape(y[1], heap)
            if z.op in ("col", "item") and z[0].op == "row" and (z[1] == 0 or is_const(z[1], 0)):
                cur = cursor_of(z[0][0])
                if cur is not None:
                    return all_ids(cur[0])
    return None


def all_ids(text):
    """The ids a query lists: all of them, some (False), or not understood."""
    try:
        st, _ = parse(text)
    except SqlError:
        return None
    if st.op != "select" or not st[0] or len(st[1]) != 1 or st[1][0][1].op != "table" or st[1][0][1][1] not in TABLES:
        return None
    e = st[0][0][0]
    if e.op != "col" or e[1] != "cluster_id" or any(st[i] for i in (3, 4, 6, 8)):
        return None
    if st[2] is not None:
        return False if all(narrowing(x) for x in conjuncts(st[2])) else None
    return [*range(10), TOP]


def spec(name, args, new=NEW):
    """(required writes, allowed writes, returned value) of a call; a write: (kind, table, key column, key, column, value)."""
    ids = args[0]
    if name == "delete_clusters":
        return {("delete", "feature_cluster", "cluster_id", k, None, None) for k in ids}, \
            {("delete", "cluster", "cluster_id", k, None, None) for k in ids}, UNKNOWN
    if name == "delete_features":
        return {("delete", "feature_cluster", "feature_id", k, None, None) for k in ids}, set(), UNKNOWN
    if name == "merge_clusters":
        to = ids[0]
        return {("set", "feature_cluster", "cluster_id", k, "cluster_id", to) for k in ids[1:] if k != to}, \
            {("set", "feature_cluster", "cluster_id", to, "cluster_id", to)} | \
            {("delete", "cluster", "cluster_id", k, None, None) for k in ids[1:] if k != to}, to
    if name == "create_cluster_from_features":
        return {(w, "feature_cluster", "feature_id", k, "cluster_id", new) for k in ids for w in ("insert", "set")}, \
            {("delete", "feature_cluster", "feature_id", k, None, None) for k in ids} | {("insert", "cluster", "cluster_id", new, "*", None)}, new
    pinned = args[1]
    if name == "pin_features":
        return {("set", "feature_cluster", "feature_id", k, "pinned", pinned) for k in ids}, set(), UNKNOWN
    if name == "pin_clusters":
        return {("set", "cluster", "cluster_id", k, "pinned", pinned) for k in ids}, set(), UNKNOWN
    raise KeyError(name)


EDITS = ("delete_clusters", "delete_features", "merge_clusters", "create_cluster_from_features", "pin_features", "pin_clusters")


def run(c, lab):
    c.rule(R_EACH, "for every example argument, the statements a normally returning path runs write the row of every named cluster or feature")
    c.rule(R_ONLY, "no statement of the operation writes rows that the arguments do not name, or narrows the named ones by a fixed condition")
    c.rule(R_VALUE, "the value written is the one the argument gives (merge target, new cluster, pinned state)")
    c.rule(R_NEW, "the id of a new cluster is above the highest id of any existing cluster")
    c.rule(R_RET, "the returned cluster id is the one written")
    c.rule(R_OLD, "initialising removes every row of the old model before it inserts new ones")
    c.rule(R_WHICH, "the initial features are the indexed features of the given fields (default: all) with at least min_docs documents")
    c.rule(R_PART, "each selected feature is inserted once, with its own document count, into one of the n clusters")
    c.assumptions += [
        "arguments are lists of distinct ids of existing rows; the examples are lists of one to three ids, including 0",
        "the housekeeping at the end of a transaction (summaries, removal of empty clusters) is checked by C16 and others",
    ]
    cls = lab.index_cls
    for n in EDITS + ("initialise_clusters",):
        c.require(cls.find(n) is not None, f"Index.{n} not found")
    for n in EDITS:
        c.guard(R_EACH, f"Index.{n}", lambda: edit(c, lab, cls, n))
    c.guard(R_PART, "Index.initialise_clusters", lambda: initialise(c, lab, cls))


def edit(c, lab, cls, name):
    fn = f"Index.{name}"
    r = lab.run_method(cls, name, monitors=[Marks()], key="c26")
    main = lab.main_conns(r)
    w = Writes(lab, r, main, TABLES)
    params = [x for x in r.fn.posargs if x != "self"]
    c.require(params, f"{fn} takes no argument")
    outs = [(v, st) for kind, v, st in r.outs if kind == "return"]
    c.count("paths", len(outs))
    c.count("statements", len(w.stmts))
    if not outs:
        return c.unsure(R_EACH, fn, "paths", "no normal return was found")
    with_pin = name.startswith("pin_")
    if with_pin and len(params) < 2:
        return c.unsure(R_VALUE, fn, "pinned", "the pinned state is not a parameter")
    ids = IDS if name != "merge_clusters" else IDS + ([4, 0], [6, 2, 9, 1])
    good = True
    for lst in ids:
        for pinned in ((True, False) if with_pin else (None,)):
            good = example(c, fn, name, r, w, outs, params, [list(lst), pinned]) and good
    if good:
        for rule in (R_EACH, R_ONLY, R_VALUE):
            c.ok(rule, fn, "", f"{len(ids)} examples, {len(outs)} paths")


def example(c, fn, name, r, w, outs, params, args):
    given = dict(zip(params, args))
    named = [None]

    some = []
    heap = outs[0][1].heap

    def known(x):
        if x.op == "param" and x[-1] in given:
            return given[x[-1]]
        v = new_id(x, heap, r.ip)
        if v is False:
            some.append(x)
        elif v is not None:
            return v
        if x is named[0]:
            return NEW
        return UNKNOWN

    leaf = unrolled(r.ip, known)
    new = NEW
    if name == "create_cluster_from_features":
        w.leaf = leaf
        got, lost = w.effects(leaf)
        vals = {x[6] for x in got if x[1] in ("insert", "set") and x[2] == "feature_cluster" and x[5] == "cluster_id" and x[6] is not UNKNOWN}
        if some:
            c.bad(R_NEW, fn, "id", f"{fn} looks for the highest id among some of the clusters only: the new id can be that of another cluster")
            return False
        if len(vals) == 1 and isinstance(min(vals), int):
            new = vals.pop()
            c.decide(new > TOP, R_NEW, fn, "id", "" if new > TOP else
                     f"{fn} takes the id {new} for a new cluster when the highest id in use is {TOP}")
            if new <= TOP:
                return False
        else:
            rets = {v for v, st in outs if not is_const(v)}
            named[0] = rets.pop() if len(rets) == 1 else None
            c.unsure(R_NEW, fn, "id", "how the new id is found is not followed")
    need, allow, ret = spec(name, args, new)
    shown = ", ".join(f"{k}={v!r}" for k, v in given.items() if k in params[: (2 if name.startswith("pin_") else 1)])
    good = True
    alive = False
    for v, st in outs:
        facts = {expand(r.ip, k, st.heap): b for k, b in st.facts.items()}
        if consistent(facts, leaf) is False:
            continue
        alive = True
        marks = st.mon["marks"]

        def on_path(e):
            return ("sql", tuple(e.site)) in marks or any(("loop", l) in marks for l in e.loops)

        got, lost = w.effects(leaf, on_path)
        writes = {}
        for e, kind, tb, kc, k, col, val, extra, sure in got:
            val = bool(val) if col == "pinned" and val is not UNKNOWN and not isinstance(val, str) else val
            writes.setdefault((kind, tb, kc, k, col, val), []).append((e, extra, sure))
        good = judge(c, w.lab, fn, name, shown, need, allow, writes, lost) and good
        if ret is not UNKNOWN:
            try:
                rv = value(v, leaf)
                if rv != ret:
                    c.bad(R_RET, fn, "return", f"{fn}({shown}) returns {'the wrong cluster' if rv is not None else 'nothing'}: {show(v)}")
                    good = False
                else:
                    c.ok(R_RET, fn, "return", "")
            except Unknown:
                c.unsure(R_RET, fn, "return", f"returned value not followed: {show(v)}")
    if not alive:
        c.unsure(R_EACH, fn, "paths", f"no path returns for {shown}")
        good = False
    return good


def same_value(a, b):
    return a is b or type(a) in (int, bool) and type(b) in (int, bool) and a == b or a == b


def judge(c, lab, fn, name, shown, need, allow, writes, lost):
    good = True
    keys = {(n[0], n[1], n[2], n[4]) for n in need}
    # statements that touch rows the arguments do not name
    for (kind, tb, kc, k, col, val), evs in writes.items():
        full = (kind, tb, kc, k, col, val)
        for e, extra, sure in evs:
            fixed = [x for x in extra if narrowing(x)]
            odd = [x for x in extra if not narrowing(x) and not same_as_set(x, col)]
            if tb == "cluster" and col != "pinned" and kc is None:
                continue        # housekeeping of the summaries
            if kc is None:
                if not extra and kind in ("delete", "set"):
                    c.bad(R_ONLY, fn, f"{kind} {tb}", f"{fn}({shown}) runs a statement that writes every row of {tb}", e.where)
                    good = False
                else:
                    c.unsure(R_ONLY, fn, f"{kind} {tb}", "rows are chosen by a condition that is not followed", e.where)
                    good = False
                continue
            if odd:
                c.unsure(R_EACH, fn, f"{kind} {tb}", "rows are narrowed by a condition that is not followed", e.where)
                good = False
                continue
            if full in need or any(full[:5] == n[:5] and same_value(val, n[5]) for n in need | allow):
                if fixed and full in need:
                    c.bad(R_EACH, fn, f"{kind} {tb}", f"{fn} leaves out named rows of {tb} by a condition that does not depend on its arguments", e.where)
                    good = False
                elif full in need and not any(x[2] for x in evs):
                    why = [x for x in (leaves_out(lab, k, v) for k, v in sure) if x]
                    if why and not (col == "pinned" and "pinned" in why[0]):
                        c.bad(R_EACH, fn, f"{kind} {tb}", f"{fn} leaves out named rows of {tb}: only those {why[0]} are changed", e.where)
                        good = False
                continue
            if any(full[:4] == n[:4] and n[4] == "*" for n in allow):
                continue
            if not sure or val is UNKNOWN and any(full[:5] == n[:5] for n in need):
                c.unsure(R_VALUE, fn, f"{kind} {tb} {col}", "the value or condition of a write is not followed", e.where)
                good = False
                continue
            if kind == "insert" and (kind, tb, kc, col) not in keys and any(n[:4] == (kind, tb, kc, k) for n in need):
                continue        # other columns of a row that is asked for
            if any(n[:5] == full[:5] for n in need):
                c.bad(R_VALUE, fn, f"{kind} {tb} {col}",
                      f"{fn}({shown}) sets {col} of {tb} rows to {val!r} where {[n[5] for n in need if n[:5] == full[:5]][0]!r} was asked for", e.where)
                good = False
            elif kind in ("delete", "set") and (tb == "feature_cluster" and col in (None, "cluster_id", "feature_id", "pinned")
                                                or tb == "cluster" and col in (None, "pinned", "cluster_id")):
                c.bad(R_ONLY, fn, f"{kind} {tb}", f"{fn}({shown}) {'deletes' if kind == 'delete' else 'changes ' + str(col) + ' of'} rows of {tb} with "
                                                  f"{kc} = {k!r}, which it was not given for that", e.where)
                good = False
            elif kind == "insert" and tb == "feature_cluster" and col == "cluster_id" and val is not UNKNOWN:
                c.bad(R_ONLY, fn, f"{kind} {tb}", f"{fn}({shown}) puts feature {k!r} into cluster {val!r}, which is not asked for", e.where)
                good = False
            else:
                c.unsure(R_ONLY, fn, f"{kind} {tb} {col}", "a further write", e.where)
                good = False
    # named rows no statement writes
    left = [n for n in need if n not in writes and not any(w[:5] == n[:5] and (same_value(w[5], n[5]) or w[5] is UNKNOWN) for w in writes)]
    if name == "create_cluster_from_features":
        # a row that was deleted before it is inserted anew is as good as one that is updated
        left = [n for n in left if not (n[0] == "set" and ("delete", "feature_cluster", "feature_id", n[3], None, None) in writes)]
    wrong = {o[2] for o in c.by("violation") if o[1] == R_VALUE}
    if left and not (fn in wrong):
        n = sorted(left, key=str)[0]
        lost = [e for e in lost if may_write(e, n)]
        if lost or any(k[2] is None for k in writes if k[1] == "feature_cluster"):
            c.unsure(R_EACH, fn, f"{n[0]} {n[1]}", f"{len(lost)} statement(s) with rows that are not followed", lost[0].where if lost else "")
        else:
            what = {"delete": "is not deleted from", "set": f"is not given its {n[4]} in", "insert": "is not added to"}[n[0]]
            c.bad(R_EACH, fn, f"{n[0]} {n[1]}", f"{fn}({shown}) can return normally while {n[2]} {n[3]!r} {what} {n[1]}")
        good = False
    return good


def leaves_out(lab, k, v):
    """The condition a named row has to fulfil, when it is about the stored state of the row: it is left out otherwise."""
    if not (k.op == "cmp" and k[0] == "in" and any(x.op == "elem" for x in sub_terms(k[1]))):
        return None
    for x in sub_terms(k[2]):
        cur = cursor_of(x)
        if cur is None:
            continue
        try:
            q = Query(lab.catalogue("index"), cur[0])
        except SqlError:
            return None
        if q.compound or q.limit is not None:
            return None
        fixed = [y for y in q.where if narrowing(y)]
        if not v and not q.params:
            return "not returned by `" + " ".join(cur[0].split()) + "`"
        if v and fixed:
            return "returned by `" + " ".join(cur[0].split()) + "`"
        return None
    return None


def may_write(e, n):
    """Could a statement that is not followed be the one that makes this write?"""
    s = e.d["sql"]
    if not is_const(s):
        return True
    try:
        st, _ = parse(s[0])
    except SqlError:
        return n[1] in s[0].lower()
    tb = st[1] if st.op == "delete" else st[2]
    if str(tb).lower() != n[1]:
        return False
    if st.op == "update":
        return n[0] == "set" and n[4] in {str(a).lower() for a, b in st[4]}
    return st.op == n[0] or st.op == "insert"


def same_as_set(x, col):
    """`column is not ?`: leaves out rows that have the value already (the value is checked with the statement itself)."""
    return x.op == "cmp" and x[0] in ("!=", "<>", "is not") and any(a.op == "c" and a[1] == col for a in (x[1], x[2]))


# ---------------------------------------------------------------- a new model
def initialise(c, lab, cls):
    fn = "Index.initialise_clusters"
    r = lab.run_method(cls, "initialise_clusters", monitors=[Marks()], key="c26")
    main = lab.main_conns(r)
    params = [x for x in r.fn.posargs if x != "self"]
    c.require(len(params) >= 3, f"{fn} does not take a number of clusters, a minimum of documents and fields")
    n_, min_, inc_ = params[:3]
    w = Writes(lab, r, main, TABLES)
    rs = lambda: Resolver(w.schema)
    empt = {tb: [] for tb in TABLES}
    inserts = []
    unclear = list(w.opaque)
    for e, st, tb in w.stmts:
        if st.op == "delete":
            inst, conj = rs().delete(st)
            if not conj:
                empt[tb].append(e)
        elif st.op == "insert" and tb == "feature_cluster":
            inserts.append((e, st))
        elif st.op == "update":
            inst, sets, conj, frm = rs().update(st)
            if tb == "cluster" and not conj and "pinned" in sets and sets["pinned"].op == "lit" and not sets["pinned"][0]:
                empt[tb].append(e)
    if not inserts:
        return c.unsure(R_PART, fn, "insert", "no insertion of the model was recognised")
    for tb in TABLES:
        sites = {("sql", tuple(e.site)) for e in empt[tb]}
        some = [e for e, st, t2 in w.stmts if t2 == tb and st.op in ("delete", "update") and e not in empt[tb] and e.seq < inserts[0][0].seq]
        missing = [e for e, st in inserts if not sites & dict(e.mon)["marks"]]
        if not missing:
            c.ok(R_OLD, fn, tb, f"{len(inserts)} insertion(s) after it was emptied")
        elif unclear or some and tb == "cluster":
            c.unsure(R_OLD, fn, tb, "rows of the old model are removed in a way that is not followed")
        else:
            c.bad(R_OLD, fn, tb, f"{fn} inserts the new model without having removed every row of {tb}: "
                                 f"{'features' if tb == 'feature_cluster' else 'pinned clusters'} of the old model are still there", missing[0].where)
    which(c, lab, r, w, main, fn, min_, inc_)
    for e, st in inserts:
        partition(c, r, w, fn, e, st, n_)


def which(c, lab, r, w, main, fn, min_, inc_):
    cat = lab.catalogue("index")
    found = 0
    for e in r.of("sql"):
        if e.d["conn"] not in main or not is_const(e.d["sql"]) or first(e.d["sql"][0]) != "select":
            continue
        try:
            q = Query(cat, e.d["sql"][0])
        except SqlError:
            if "inverted_index" in e.d["sql"][0]:
                c.unsure(R_WHICH, fn, "query", "a query about features is not understood", e.where)
            continue
        insts = q.inst("inverted_index")
        names = [q.column(i) or set() for i in range(len(q.cols))]
        if len(insts) != 1 or not names or ("inverted_index", "feature_id") not in names[0]:
            continue
        found += 1
        if len(names) > 1 and not ("inverted_index", "docs_count") in names[1] and q.cols[1].op == "c":
            c.bad(R_PART, fn, "docs_count", f"{fn} takes {q.cols[1][1]} for the document count of a feature", e.where)
        if q.limit is not None:
            c.bad(R_WHICH, fn, "limit", f"{fn} leaves out features beyond a fixed number", e.where)
        low = False
        ok = True
        others = [i for jt, i, on, u in q.frm if i is not insts[0]]
        fields = set()
        for x in q.where:
            if x.op == "cmp" and any(a.op == "c" and a[1] == "docs_count" for a in (x[1], x[2])):
                v = least(x, expand(r.ip, e.d["params"], e.heap), min_)
                if v is None:
                    c.unsure(R_WHICH, fn, "min_docs", "the minimum of documents is compared in a way that is not followed", e.where)
                    ok = False
                elif v is False:
                    c.bad(R_WHICH, fn, "min_docs", f"{fn} does not take exactly the features with at least min_docs documents", e.where)
                    ok = False
                low = True
                continue
            if x.op == "cmp" and x[0] == "=" and x[1].op == "c" and x[2].op == "c":
                sides = {x[1][1], x[2][1]}
                tabs = {y[0] for y in (x[1], x[2])}
                if len(tabs) == 2 and insts[0] in tabs and ("field" in sides):
                    fields.add((tabs - {insts[0]}).pop())
                    continue
            if x.op == "in" and x[0].op == "c" and x[0][1] == "field" and x[1].op == "sub":
                sq = x[1][0]
                if len(sq[1]) == 1 and not sq[2]:
                    fields.add(sq[1][0][1])
                    continue
            if narrowing(x):
                c.bad(R_WHICH, fn, "condition", f"{fn} leaves out features by a condition that does not depend on its arguments", e.where)
            else:
                c.unsure(R_WHICH, fn, "condition", "features are chosen by a condition that is not followed", e.where)
            ok = False
        if not low:
            c.bad(R_WHICH, fn, "min_docs", f"{fn} does not ask for at least min_docs documents", e.where)
            ok = False
        if [i for i in others if i not in fields]:
            c.unsure(R_WHICH, fn, "join", "joined with a table that is not followed", e.where)
            ok = False
        tabs = {i[0] for i in fields if i.op == "inst" and isinstance(i[0], str)}
        if ok:
            c.ok(R_WHICH, fn, "min_docs", "", e.where)
        if tabs:
            for tb in tabs:
                field_table(c, r, w, fn, tb, inc_)
        else:
            c.unsure(R_WHICH, fn, "fields", "how the fields limit the features is not followed", e.where)
    if not found:
        c.unsure(R_WHICH, fn, "query", "no query for the initial features was recognised")


def field_table(c, r, w, fn, tb, inc_):
    """A table that limits the fields holds the given ones, or all of them."""
    ins = w.temp.get(tb, [])
    if not ins:
        return c.unsure(R_WHICH, fn, "fields", f"how {tb} is filled is not followed")
    for given in (["a", "b"], ["c"], None):
        def leaf(x):
            return given if x.op == "param" and x[-1] == inc_ else UNKNOWN
        fields, whole, clear = [], False, True
        for e, st in ins:
            try:
                runs = w.runs(e, leaf)
                for lf, row, sure in runs:
                    vals = w.values_of(st[4])
                    if vals is not None and row is not None:
                        fields.append(w.bound(vals[0], row, lf))
                        clear = clear and sure
                    elif st[4].op == "select" and len(st[4][1]) == 1 and st[4][1][0][1].op == "table" and st[4][1][0][1][1] in ("field_summary", "inverted_index"):
                        col = st[4][0][0][0]
                        if col.op != "col" or col[1] != "field" or st[4][6] is not None:
                            clear = False
                        elif st[4][2] is None:
                            whole = True
                        elif all(narrowing(x) for x in conjuncts(st[4][2])):
                            if sure:
                                return c.bad(R_WHICH, fn, "fields", f"{fn} leaves out fields by a condition that does not depend on its arguments", e.where)
                            clear = False
                        else:
                            clear = False
                    else:
                        clear = False
            except Unknown:
                clear = False
        where = ins[0][0].where
        if not clear:
            c.unsure(R_WHICH, fn, "fields", f"what {tb} holds is not followed", where)
            return
        if given is None and not whole:
            return c.bad(R_WHICH, fn, "fields", f"{fn} without a selection of fields does not take the features of every field", where)
        if given is not None and (set(fields) != set(given) or whole):
            return c.bad(R_WHICH, fn, "fields", f"{fn} with {inc_}={given!r} takes features of {'every field' if whole else sorted(map(str, set(fields)))}", where)
    c.ok(R_WHICH, fn, "fields", f"{tb} holds the given fields, or all")


def partition(c, r, w, fn, e, st, n_):
    vals = w.values_of(st[4])
    cols = [str(x).lower() for x in st[3]] if st[3] is not None else w.schema.get("feature_cluster", [])
    row = e.d["row"]
    if vals is None or row is None or len(vals) != len(cols) or any(v.op != "param" for v, cn in zip(vals, cols) if cn in ("cluster_id", "feature_id")):
        return c.unsure(R_PART, fn, "insert", "what the insertion inserts is not followed", e.where)
    row = r.ip.shape(row, e.heap) if row.op == "cell" else row
    lists = {x[0] for x in sub_terms(row) if x.op in ("elem", "item") and x[0].op in ("cell", "rows", "call")}
    sources = {x for x in lists if from_query(r, x, e.heap)}
    if len(sources) != 1:
        return c.unsure(R_PART, fn, "insert", "where the inserted features come from is not followed", e.where)
    src = sources.pop()
    conds = tuple((k, v) for k, v in e.facts.items() if any(x.op == "param" and x[-1] == n_ or x.op == "elem" for x in sub_terms(k)))
    for n, size in ((3, 7), (2, 5), (1, 3), (4, 2)):
        feats = [(100 + i, 1000 + i) for i in range(size)]

        def leaf(x):
            if x is src:
                return feats
            return n if x.op == "param" and x[-1] == n_ else UNKNOWN
        got = []
        try:
            for lf, sure in assignments((row,), conds, leaf):
                flat = []
                for a in row.args:
                    if isinstance(a, T) and a.op == "star":
                        flat += list(value(a[0], lf))
                    else:
                        flat.append(value(a, lf))
                rec = {}
                for v, cn in zip(vals, cols):
                    if v.op == "param":
                        rec[cn] = flat[v[0] - 1]
                got.append((rec.get("cluster_id"), rec.get("feature_id"), rec.get("docs_count", UNKNOWN), sure))
        except (Unknown, IndexError, TypeError):
            return c.unsure(R_PART, fn, "insert", "how features are spread over clusters is not followed", e.where)
        if not all(s for *_, s in got):
            return c.unsure(R_PART, fn, "insert", "features are inserted under a condition that is not followed", e.where)
        where = e.where
        ids = [f for _, f, _, _ in got]
        if sorted(ids, key=str) != sorted((f for f, _ in feats), key=str):
            miss = [f for f, _ in feats if f not in ids]
            return c.bad(R_PART, fn, "spread", f"{fn} with {n} clusters and {size} features " +
                         (f"leaves out {len(miss)} of the features" if miss else "inserts a feature twice, or something that is not a feature"), where)
        if any(k not in range(n) for k, *_ in got):
            return c.bad(R_PART, fn, "spread", f"{fn} with {n} clusters uses a cluster id outside of 0..{n - 1}", where)
        if any(d is not UNKNOWN and (f, d) not in feats for _, f, d, _ in got):
            return c.bad(R_PART, fn, "spread", f"{fn} inserts a feature with the document count of another", where)
        if size >= n and len({k for k, *_ in got}) != n:
            return c.bad(R_PART, fn, "spread", f"{fn} with {n} clusters and {size} features fills only {len({k for k, *_ in got})} clusters", where)
    c.ok(R_PART, fn, "spread", "", e.where)


def from_query(r, x, heap):
    """Is this list made of rows of a query?"""
    y = expand(r.ip, x, heap)
    return any(z.op in ("cursor", "rows") for z in sub_terms(y))
