"""C27: lookups and listings read what they are asked for (provenance of returned values through the queries they come from)."""
from sa.lab import *
from sa.rel import Query, argument, cursor_of
from sa.sql import SqlError
from sa.web import expand
from sa.hyp import value, UNKNOWN, Unknown
from itertools import product
from checks.edits import least, narrowing

R_KEY = "read-by-the-given-key"
R_COL = "returns-the-column-it-promises"
R_ALL = "nothing-is-left-out"
R_ORDER = "in-the-promised-order"
R_LIMIT = "limited-as-asked"
R_MISS = "unknown-keys-are-refused"
R_OWN = "each-group-holds-its-own-members"


NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "=": "!=", "!=": "="}


def run(c, lab):
    c.rule(R_KEY, "the query behind a returned value selects the row whose key equals the given argument, and nothing narrows it further")
    c.rule(R_COL, "each part of the returned value is the column of that name")
    c.rule(R_ALL, "a listing has every row that qualifies: no fixed limit, condition or skipped iteration")
    c.rule(R_ORDER, "listings are ordered as documented")
    c.rule(R_LIMIT, "the only limit of a listing is the one given")
    c.rule(R_MISS, "looking up an unknown feature raises, it does not answer with nothing")
    c.rule(R_OWN, "members listed or combined for a cluster are those of that cluster")
    c.assumptions += ["ties in an ordering may come in any order", "bit-sliced counting itself (N03) is not decided"]
    cls = lab.index_cls
    jobs = [("__getitem__", getitem), ("lookup_feature", lookup_feature), ("lookup_feature_id", lookup_id), ("cluster_docs", cluster_docs),
            ("cluster_features", cluster_features), ("top_cluster_features", top_features), ("cluster_ids", ids), ("pinned_cluster_ids", ids),
            ("iter_field_docs", iter_field), ("cluster_query", cluster_query), ("union_bitslice", cluster_query),
            ("indexed_field_summary", summary)]
    for n, f in jobs:
        c.require(cls.find(n) is not None, f"Index.{n} not found")
    for n, f in jobs:
        c.guard(R_KEY, f"Index.{n}", lambda: f(Ctx(c, lab, n)))


class Ctx:
    def __init__(self, c, lab, name):
        self.c, self.lab, self.name = c, lab, name
        self.fn = f"Index.{name}"
        self.r = lab.run_method(lab.index_cls, name)
        self.cat = lab.catalogue("index")
        self.params = [x for x in self.r.fn.posargs if x != "self"]
        c.count("methods")
        c.count("paths", len(self.r.outs))

    def returned(self):
        """Values returned normally, containers replaced by their contents."""
        out = []
        for k, v, st in self.r.outs:
            if k == "return":
                for o in flat(v):
                    o = expand(self.r.ip, o, st.heap, 9)
                    out += [(x, st) for x in flat(o)]
        return out

    def query(self, cur):
        """Query and parameters of a cursor."""
        s = cursor_of(cur)
        if s is None:
            return None
        try:
            return Query(self.cat, s[0]), s[1]
        except SqlError:
            return None

    def param(self, i):
        return next((x for x in self.args() if x[-1] == self.params[i]), None) if i < len(self.params) else None

    def args(self):
        out = []
        for e in self.r.events:
            for x in e.d.values():
                if isinstance(x, T):
                    out += [y for y in sub_terms(x) if y.op == "param" and y not in out]
        return out

    # ------------------------------------------------------------ rules
    def keyed(self, q, params, table, want, where="", extra=lambda x: None):
        """The query reads the rows of a table whose columns equal the wanted arguments.  want: {column: test of the bound value}."""
        c, fn = self.c, self.fn
        filters, problems, unknown = q.rows_of(table)
        good = True
        for x in problems:
            if x.op == "not" and x[0].op == "cmp" and x[0][0] in NEG:
                x = t("cmp", NEG[x[0][0]], x[0][1], x[0][2])
            v = extra(x)
            if v is True:
                continue
            if v is False:
                good = False
                continue
            if x.op not in ("group", "aggregate", "distinct") and narrowing(x) and not counts(x):
                c.bad(R_ALL, fn, "condition", f"{fn} leaves out rows of {table} by a condition that does not depend on what is asked for", where)
            elif x.op == "cmp" and any(a.op == "c" and a[1] in want for a in (x[1], x[2])) and x[0] not in ("=", "is"):
                col = next(a[1] for a in (x[1], x[2]) if a.op == "c" and a[1] in want)
                c.bad(R_KEY, fn, col, f"{fn} reads rows whose {col} is {x[0]} the given one", where)
            else:
                c.unsure(R_KEY, fn, "condition", f"a condition that is not followed: {show(x, 4)}", where)
            good = False
        for u in unknown:
            if "left out" in u and not want:
                continue
            c.unsure(R_KEY, fn, table, u, where)
            good = False
        for col, test in want.items():
            if col not in filters:
                if good:
                    c.bad(R_KEY, fn, col, f"{fn} reads rows of {table} without asking for {col}", where)
                good = False
                continue
            y = argument(params, filters[col][0])
            if y is None and params is not None and params.op in ("param", "elem", "item", "tuple", "call", "slice") and isinstance(filters[col][0], int):
                y = t("item", params, const(filters[col][0] - 1))
            v = test(y) if y is not None else None
            if v is True:
                c.ok(R_KEY, fn, f"{table}.{col}", show(y, 3), where)
            elif v is False:
                c.bad(R_KEY, fn, col, f"{fn} looks for rows whose {col} is {show(y, 3)}", where)
                good = False
            else:
                c.unsure(R_KEY, fn, col, f"what {col} is compared with is not followed", where)
                good = False
        for col in filters:
            if col not in want:
                c.unsure(R_KEY, fn, col, f"also limited by {col}", where)
                good = False
        return good

    def columns(self, q, got, names, where=""):
        """got: result column numbers; names: the promised columns."""
        good = True
        for n, i in zip(names, got):
            have = {col for tb, col in q.column(i) or ()}
            ok = n in have if have else (None if not (0 <= i < len(q.cols)) or q.cols[i].op != "c" else q.cols[i][1] == n)
            self.c.decide(ok, R_COL, self.fn, n, "" if ok else f"{self.fn} returns {'/'.join(sorted(have)) or 'an expression'} in the place of {n}", where)
            good = good and ok is True
        return good

    def order(self, q, col, desc, where=""):
        c, fn = self.c, self.fn
        if not q.order:
            return c.bad(R_ORDER, fn, col, f"{fn} returns rows in no particular order", where)
        e, d = q.order[0][0], q.order[0][1] == "desc"
        if {x for tb, x in q.names(e)} & {col} or e.op == "c" and e[1] == col:
            c.decide(d == desc, R_ORDER, fn, col, "" if d == desc else f"{fn} orders by {col} {'descending' if d else 'ascending'}", where)
        elif e.op == "c":
            c.bad(R_ORDER, fn, col, f"{fn} orders by {e[1]} before {col}", where)
        else:
            c.unsure(R_ORDER, fn, col, "ordered by an expression", where)

    def limit(self, q, params, test, where=""):
        c, fn = self.c, self.fn
        if q.limit is None:
            return None
        if q.limit.op == "lit":
            return c.bad(R_LIMIT, fn, "limit", f"{fn} returns at most {q.limit[0]} rows", where) or False
        y = argument(params, q.limit[0]) if q.limit.op == "param" else None
        v = test(y) if y is not None else None
        c.decide(v, R_LIMIT, fn, "limit", "" if v else f"{fn} is limited by {show(y, 3) if y is not None else '?'}", where)
        return v


def counts(x):
    """Clusters without features may be left out of listings: they are about to be removed (those without documents are not)."""
    if x.op != "cmp":
        return False
    for a, b, flip in ((x[1], x[2], False), (x[2], x[1], True)):
        if a.op == "c" and a[1] == "feature_count" and b.op == "lit" and isinstance(b[0], int):
            k = b[0]
            return all({">": n > k, "<": n < k, ">=": n >= k, "<=": n <= k, "!=": n != k, "<>": n != k}.get(
                {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(x[0], x[0]) if flip else x[0], False) for n in (1, 2, 3, 100))
    return False


def flat(v):
    out = []
    for o in options(v):
        if o.op == "phi":
            out += flat(o)
        else:
            out.append(o)
    return out


def is_arg(p):
    """The value is the argument itself."""
    def test(y):
        if p is None:
            return None
        try:
            return all(value(y, lambda z: k if z is p else UNKNOWN) == k for k in (3, 8))
        except Unknown:
            return False if y.op == "param" else None
    return test


def is_part(p, i):
    """The value is part i of the argument."""
    def test(y):
        if p is None:
            return None
        try:
            return all(value(y, lambda z: k if z is p else UNKNOWN) == k[i] for k in (("f", "v"), ("v", "w")))
        except Unknown:
            return False if y.op == "param" else None
    return test


SAMPLES = {"value": ("a", ""), "field": ("f", "g"), "pinned": (0, 1)}


def samples(n):
    return SAMPLES.get(n, (0, 1, 2, 5) if n == "cluster_id" else (1, 2, 5))


def rows_of(m, conds, row=None):
    """Sample rows with the outcomes of conditions about them: [(row, [True/False/None])], None when not known what they are about."""
    leaves = {}
    for k, _ in conds:
        for x in sub_terms(k):
            g = col_of(x)
            if g is not None and (row is None or g[1] is row):
                q = m.query(g[0])
                have = sorted({col for tb, col in q[0].column(g[2]) or ()}) if q else []
                if not have and q and 0 <= g[2] < len(q[0].cols) and q[0].cols[g[2]].op == "c":
                    have = [q[0].cols[g[2]][1]]
                if not have:
                    return None
                leaves[x] = have[0]
            elif x.op == "call" and x[0] == "len" and len(x[1]) == 1:
                for g in [g for g in map(col_of, flat(x[1][0])) if g]:
                    q = m.query(g[0])
                    if q and ("inverted_index", "doc_ids") in (q[0].column(g[2]) or ()):
                        leaves[x] = "docs_count"
    names = sorted(set(leaves.values()))
    out = []
    for vals in product(*[samples(n) for n in names]):
        env = dict(zip(names, vals))
        got = []
        for k, v in conds:
            try:
                got.append(bool(value(k, lambda z: env[leaves[z]] if z in leaves else UNKNOWN)) == bool(v))
            except Unknown:
                got.append(None)
        out.append((env, got))
    return out


def drops(m, conds, row=None, special=None):
    """Do the conditions leave out an element?  True, False or None (not known).  special(values of the row): elements that may be left out."""
    rows = rows_of(m, conds, row)
    if rows is None:
        return None
    rows = [got for env, got in rows if special is None or not special(env)]
    if any(False in got for got in rows):
        return True
    return None if any(None in got for got in rows) else False


def happens(m, conds):
    """Do the conditions hold for some element?"""
    rows = rows_of(m, conds)
    if rows is None:
        return None
    if any(all(got) for env, got in rows):
        return True
    return False if all(False in got for env, got in rows) else None


def col_of(x):
    """(cursor, row, column) of a single value of a query row."""
    if x.op in ("col", "item") and isinstance(x[0], T) and x[0].op == "row":
        i = x[1][0] if isinstance(x[1], T) and is_const(x[1]) else x[1]
        if isinstance(i, int):
            return x[0][0], x[0], i
    return None


def parts(x, q_of):
    """Columns a returned record consists of: [(cursor, row, column)]."""
    if x.op == "row":
        q = q_of(x[0])
        return [(x[0], x, i) for i in range(len(q[0].cols))] if q else None
    if x.op in ("tuple", "list"):
        out = []
        for a in x.args:
            g = col_of(a)
            if g is None:
                return None
            out.append(g)
        return out
    return None


# ---------------------------------------------------------------- single values
def getitem(m):
    c, fn = m.c, m.fn
    p = m.param(0)
    seen = set()
    for v, st in m.returned():
        g = col_of(v)
        if g is None:
            if v.op in ("row", "rows"):
                c.bad(R_COL, fn, "doc_ids", f"{fn} returns a row where a set of documents is promised")
            elif not (is_const(v) or v.op in ("list", "cell", "mu", "any")):
                c.unsure(R_KEY, fn, "value", f"a returned value is not followed: {show(v, 3)}")
            continue
        q = m.query(g[0])
        if q is None:
            c.unsure(R_KEY, fn, "query", "the query is not understood")
            continue
        q, ps = q
        filters, _, _ = q.rows_of("inverted_index")
        if "feature_id" in filters:
            seen.add("id")
            m.keyed(q, ps, "inverted_index", {"feature_id": is_arg(p)})
        else:
            seen.add("value")
            m.keyed(q, ps, "inverted_index", {"field": is_part(p, 0), "value": is_part(p, 1)})
        m.columns(q, [g[2]], ["doc_ids"])
    if seen != {"id", "value"}:
        c.unsure(R_KEY, fn, "kinds", f"lookups recognised: {', '.join(sorted(seen)) or 'none'}")


def single(m, table, want, names):
    c, fn = m.c, m.fn
    found = False
    for v, st in m.returned():
        if is_const(v, None):
            c.bad(R_MISS, fn, "none", f"{fn} answers None for an unknown key")
            continue
        g = parts(v, m.query) or ([col_of(v)] if col_of(v) else None)
        if g is None:
            c.unsure(R_KEY, fn, "value", f"a returned value is not followed: {show(v, 3)}")
            continue
        q = m.query(g[0][0])
        if q is None or any(x[1] is not g[0][1] for x in g):
            c.unsure(R_KEY, fn, "query", "the query is not understood")
            continue
        found = True
        if v.op == "row" and m.name in ("cluster_docs", "lookup_feature_id"):
            c.bad(R_COL, fn, names[0], f"{fn} returns a row in the place of {names[0]}")
            continue
        m.keyed(q[0], q[1], table, want)
        if len(g) != len(names):
            c.unsure(R_COL, fn, "parts", f"{len(g)} values are returned")
        else:
            m.columns(q[0], [x[2] for x in g], names)
    if not found:
        c.unsure(R_KEY, fn, "value", "no value read from the database is returned")


def lookup_feature(m):
    single(m, "inverted_index", {"feature_id": is_arg(m.param(0))}, ["field", "value"])
    miss(m)


def lookup_id(m):
    p = m.param(0)
    single(m, "inverted_index", {"field": is_part(p, 0), "value": is_part(p, 1)}, ["feature_id"])
    miss(m)


def miss(m):
    raised = [v for k, v, st in m.r.outs if k == "raise" and any(x in str(v) for x in ("KeyError", "LookupError", "IndexError"))]
    if raised:
        m.c.ok(R_MISS, m.fn, "raises", show(raised[0], 2))
    else:
        m.c.unsure(R_MISS, m.fn, "raises", "no error for unknown keys was found")


def cluster_docs(m):
    single(m, "cluster", {"cluster_id": is_arg(m.param(0))}, ["doc_ids"])


# ---------------------------------------------------------------- listings
def listing(m, v, heap=None):
    """Elements of a returned sequence: [(element, conditions)], None when not followed."""
    while v.op == "call" and v[0] in ("list", "tuple", "sorted", "iter", "set", "frozenset") and len(v[1]) == 1:
        v = v[1][0]
    if v.op in ("rows", "cursor"):
        return [(t("row", v[0] if v.op == "rows" else v, ("@", "each")), ())]
    if v.op == "comp":
        return [(v[1], tuple(v[-2]))]
    if v.op == "mu" and v[1] == "content":
        d = m.r.ip.mus.get(v)
        if d is None or d["init_content"] is None or d["init_content"].op not in ("list", "set", "tuple") or d["init_content"].args:
            return None
        out, skipped = [], False
        for val, content, facts, mon in d["backs"]:
            if content is v:
                skipped = True
            elif content is not None and content.op == "upd" and content[1] is v and len(content[2]) == 1:
                out.append((expand(m.r.ip, content[2][0], heap, 9), tuple((expand(m.r.ip, k, heap, 6), x) for k, x in facts.items())))
            else:
                return None
        if not skipped:
            out = [(x, ()) for x, k in out]
        return out or None
    return None


def one(m, v, heap=None, special=None):
    """The element of a listing and whether rows are left out (True/False/None); None when not followed."""
    g = listing(m, v, heap)
    if not g or any(x is not g[0][0] for x, k in g):
        return None
    if len(g) > 1:
        return g[0][0], None
    rows = {y[1] for y in (col_of(z) for z in sub_terms(g[0][0])) if y} | {y for y in sub_terms(g[0][0]) if y.op == "row"}
    cond = [(k, x) for k, x in g[0][1] if any(y in rows for y in sub_terms(k))]
    if len(cond) < len(g[0][1]) and any(True for k, x in g[0][1] if (k, x) not in cond):
        return g[0][0], (True if drops(m, cond, None, special) is True else None)
    return g[0][0], drops(m, cond, None, special)


def features_of(m, v, key, top, whose):
    """The features of one cluster: columns, key, order and limit."""
    c, fn = m.c, m.fn
    g = one(m, v)
    rec = parts(g[0], m.query) if g else None
    if g and g[1] is True:
        c.bad(R_ALL, fn, "features", f"{fn} leaves out features")
    if rec is None or g[1] is not False:
        return c.unsure(R_OWN, fn, "features", f"how the features are listed is not followed: {show(v, 3)}")
    q = m.query(rec[0][0])
    if q is None or any(x[1] is not rec[0][1] for x in rec):
        return c.unsure(R_OWN, fn, "features", "the query is not understood")
    q, ps = q
    m.keyed(q, ps, "feature_cluster", {"cluster_id": key})
    if len(rec) != 4:
        c.unsure(R_COL, fn, "features", f"features are described by {len(rec)} values")
    else:
        m.columns(q, [x[2] for x in rec], ["feature_id", "field", "value", "docs_count"])
    m.order(q, "docs_count", True)
    got = m.limit(q, ps, top)
    if got is None:
        c.bad(R_LIMIT, fn, "limit", f"{fn} lists every feature whatever top_k is given")
    return q


def cluster_features(m):
    for v, st in m.returned():
        features_of(m, v, is_arg(m.param(0)), is_arg(m.param(1)), "the given cluster")


def top_features(m):
    c, fn = m.c, m.fn
    for v, st in m.returned():
        g = one(m, v, st.heap)
        if g and g[1] is True:
            c.bad(R_ALL, fn, "clusters", f"{fn} leaves out clusters by a condition")
        if g is None or g[1] is not False or g[0].op != "tuple" or len(g[0].args) != 3:
            c.unsure(R_ALL, fn, "clusters", f"how clusters are listed is not followed: {show(v, 3)}")
            continue
        a, b, f = g[0].args
        ca, cb = col_of(a), col_of(b)
        if ca is None or cb is None or ca[1] is not cb[1]:
            c.unsure(R_OWN, fn, "clusters", "the parts of a cluster do not come from one row")
            continue
        q = m.query(ca[0])
        if q is None:
            c.unsure(R_ALL, fn, "query", "the query is not understood")
            continue
        q, ps = q
        if m.keyed(q, ps, "cluster", {}):
            c.ok(R_ALL, fn, "clusters", "every cluster")
        m.columns(q, [ca[2], cb[2]], ["cluster_id", "docs_count"])
        m.order(q, "docs_count", True)
        if q.limit is not None:
            c.bad(R_ALL, fn, "clusters", f"{fn} leaves out clusters")

        def own(y, a=a, row=ca[1]):
            if y is a:
                return True
            z = col_of(y)
            return False if z is not None and z[1] is row or y.op in ("param", "const") else None
        features_of(m, f, own, is_arg(m.param(0)), "the cluster of the same row")


def ids(m):
    c, fn = m.c, m.fn
    pinned = "pinned" in m.name
    for v, st in m.returned():
        while v.op == "call" and v[0] in ("list", "tuple", "set", "sorted", "frozenset") and len(v[1]) == 1:
            v = v[1][0]
        g = one(m, v, st.heap, (lambda env: not env.get("pinned", 1)) if pinned else None)
        if g and g[1] is True:
            c.bad(R_ALL, fn, "ids", f"{fn} leaves out clusters by a condition")
        x = col_of(g[0]) if g and g[1] is False else None
        if x is None:
            c.unsure(R_ALL, fn, "ids", f"how ids are listed is not followed: {show(v, 3)}")
            continue
        q = m.query(x[0])
        if q is None:
            c.unsure(R_ALL, fn, "query", "the query is not understood")
            continue
        q, ps = q
        asked = []

        def cond(y):
            if not pinned:
                return None
            z = y
            if z.op == "c" and z[1] == "pinned":
                asked.append(True)
                return True
            if z.op == "cmp" and any(u.op == "c" and u[1] == "pinned" for u in (z[1], z[2])):
                lit = z[2] if z[1].op == "c" else z[1]
                if lit.op == "lit" and isinstance(lit[0], (int, bool)):
                    ok = {"=": bool(lit[0]), "is": bool(lit[0]), "!=": not lit[0], ">": lit[0] == 0, "is not": not lit[0]}.get(z[0])
                    if ok is False:
                        c.bad(R_KEY, fn, "pinned", f"{fn} lists clusters that are not pinned")
                    asked.append(ok)
                    return ok
                return None
            if z.op == "not" and z[0].op == "c" and z[0][1] == "pinned":
                c.bad(R_KEY, fn, "pinned", f"{fn} lists clusters that are not pinned")
                return False
            return None
        if not q.inst("cluster") and len(q.inst("feature_cluster")) == 1 and any(narrowing(y) for y in q.where):
            c.bad(R_ALL, fn, "ids", f"{fn} lists only the clusters of some features")
            continue
        if m.keyed(q, ps, "cluster", {}, extra=cond):
            if pinned and not asked and any(("cluster", "pinned") in (q.column(i) or ()) for i in range(len(q.cols))):
                h = listing(m, v, st.heap)
                asked.append(all(drops(m, k, None, lambda env: env.get("pinned", 1)) is True for y, k in h))
                if not asked[0]:
                    c.unsure(R_KEY, fn, "pinned", "how the pinned clusters are chosen is not followed")
            if pinned and not asked:
                c.bad(R_KEY, fn, "pinned", f"{fn} lists clusters whether they are pinned or not")
            else:
                c.ok(R_ALL, fn, "ids", "")
        if q.limit is not None:
            c.bad(R_ALL, fn, "ids", f"{fn} leaves out clusters")
        m.columns(q, [x[2]], ["cluster_id"])


def iter_field(m):
    c, fn = m.c, m.fn
    found = False
    values = []
    for e in m.r.of("yield"):
        v = expand(m.r.ip, e.d["value"], e.heap)
        values.append((v, e))
        rows = {y for y in sub_terms(v) if y.op == "row"}
        conds = [(expand(m.r.ip, k, e.heap, 6), x) for k, x in e.facts.items()]
        if rows and drops(m, [(k, x) for k, x in conds if any(y in rows for y in sub_terms(k))], None) is True:
            c.bad(R_ALL, fn, "value", f"{fn} leaves out values by a condition", e.where)
    for v, st in m.returned():
        g = one(m, v, st.heap)
        if g is not None and g[1] is not None:
            values.append((g[0], None))
            if g[1]:
                c.bad(R_ALL, fn, "value", f"{fn} leaves out values by a condition")
    for v, e in values:
        rec = parts(v, m.query)
        if rec is None:
            c.unsure(R_COL, fn, "value", f"what is yielded is not followed: {show(v, 3)}")
            continue
        q = m.query(rec[0][0])
        if q is None or any(x[1] is not rec[0][1] for x in rec):
            c.unsure(R_KEY, fn, "query", "the query is not understood")
            continue
        q, ps = q
        found = True
        low = []

        def cond(x):
            if x.op == "cmp" and any(a.op == "c" and a[1] == "docs_count" for a in (x[1], x[2])):
                low.append(x)
                v = least(x, ps, m.params[1]) if len(m.params) > 1 else None
                if v is False:
                    c.bad(R_ALL, fn, "min_docs", f"{fn} does not take exactly the values with at least min_docs documents")
                return v
            return None
        m.keyed(q, ps, "inverted_index", {"field": is_arg(m.param(0))}, extra=cond)
        if not low:
            c.bad(R_ALL, fn, "min_docs", f"{fn} does not ask for at least min_docs documents")
        else:
            c.ok(R_ALL, fn, "min_docs", "")
        if q.limit is not None:
            c.bad(R_ALL, fn, "limit", f"{fn} leaves out values beyond a fixed number")
        m.order(q, "value", False)
        if len(rec) == 3:
            m.columns(q, [x[2] for x in rec], ["value", "docs_count", "doc_ids"])
        else:
            c.unsure(R_COL, fn, "value", f"{len(rec)} values are yielded")
    if not found:
        c.unsure(R_KEY, fn, "value", "no row is yielded")


def summary(m):
    c, fn = m.c, m.fn
    for v, st in m.returned():
        g = one(m, v, st.heap)
        rec = parts(g[0], m.query) if g and g[1] is False else None
        if g and g[1] is True:
            c.bad(R_ALL, fn, "rows", f"{fn} leaves out fields by a condition")
        q = m.query(rec[0][0]) if rec else None
        if q is None:
            c.unsure(R_ALL, fn, "rows", "how the summary is listed is not followed")
            continue
        if m.keyed(q[0], q[1], "field_summary", {}):
            c.ok(R_ALL, fn, "rows", "")
        if q[0].limit is not None:
            c.bad(R_ALL, fn, "rows", f"{fn} leaves out fields")


# ---------------------------------------------------------------- combined documents
def cluster_query(m):
    """The features that are combined are all the features of the cluster (or the ones given)."""
    c, fn = m.c, m.fn
    p = m.param(0)
    given = m.name == "union_bitslice"
    q0 = m.lab.index_cls.qual
    seen = False
    for e in m.r.of("pcall", "sql"):
        if e.kind == "pcall":
            args = e.d["args"]
            if not e.d["qual"].startswith(q0 + ".") or not str(e.d["qual"]).endswith("__getitem__"):
                continue
            key = args.get("key", next((x for n, x in args.items() if n != "self"), None))
        else:
            s = e.d["sql"]
            if not is_const(s):
                continue
            try:
                q = Query(m.cat, s[0])
            except SqlError:
                continue
            filters, _, _ = q.rows_of("inverted_index")
            if "feature_id" not in filters or not any(("inverted_index", "doc_ids") in (q.column(i) or ()) for i in range(len(q.cols))):
                continue
            key = argument(expand(m.r.ip, e.d["params"], e.heap), filters["feature_id"][0])
        if key is None:
            continue
        key = expand(m.r.ip, key, e.heap)
        conds = [(k, x) for k, x in ((expand(m.r.ip, k, e.heap, 9), x) for k, x in e.facts.items()) if any(y is key or y.op == "row" for y in sub_terms(k))]
        if drops(m, conds) is True:
            c.bad(R_ALL, fn, "features", f"{fn} leaves out features by a condition", e.where)
        for e2 in m.r.of("pcall"):
            for y in e2.d["args"].values():
                g = one(m, m.r.ip.shape(y, e.heap), e.heap) if isinstance(y, T) and y.op == "cell" else None
                a, b = (col_of(g[0]), col_of(key)) if g else (None, None)
                if g and g[1] is True and (g[0] is key or a and b and (a[0], a[2]) == (b[0], b[2])):
                    c.bad(R_ALL, fn, "features", f"{fn} leaves out features by a condition", e2.where)
        if given:
            src = key
            ok = src.op == "elem" and (src[0] is p or src[0].op == "call" and src[0][0] in ("list", "tuple", "iter") and src[0][1] and src[0][1][0] is p)
            cut = src.op == "elem" and src[0].op == "item" and src[0][0] is p
            if ok:
                seen = True
                c.ok(R_OWN, fn, "features", "each given feature", e.where)
            elif cut:
                seen = True
                c.bad(R_ALL, fn, "features", f"{fn} combines only some of the features it is given", e.where)
            continue
        x = col_of(key)
        if x is None:
            continue
        q = m.query(x[0])
        if q is None:
            continue
        q, ps = q
        if not q.inst("feature_cluster"):
            continue
        seen = True
        if m.keyed(q, ps, "feature_cluster", {"cluster_id": is_arg(p)}, e.where):
            c.ok(R_OWN, fn, "features", "the features of the given cluster", e.where)
        m.columns(q, [x[2]], ["feature_id"], e.where)
        if q.limit is not None:
            y = argument(ps, q.limit[0]) if q.limit.op == "param" else t("const", q.limit[0]) if q.limit.op == "lit" else None
            if y is not None and is_const(y) and isinstance(y[0], int):
                c.decide(y[0] < 0 or y[0] >= 2 ** 31, R_ALL, fn, "features",
                         "" if y[0] < 0 or y[0] >= 2 ** 31 else f"{fn} combines at most {y[0]} features of the cluster", e.where)
            else:
                c.unsure(R_ALL, fn, "features", "limited by a value that is not followed", e.where)
        else:
            c.ok(R_ALL, fn, "features", "", e.where)
    if not seen:
        c.unsure(R_OWN, fn, "features", "which features are combined is not followed")
