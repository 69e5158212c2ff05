"""Rows a statement is run with, worked out for given arguments of the method: which rows of which table it writes, and with what.

The arguments of the analysed call are replaced by small example lists; the loops around a statement are unrolled over the values of
what they iterate, conditions that are false for an element leave it out, and conditions that cannot be evaluated make it a `maybe`.
"""
from sa.hyp import value, consistent, UNKNOWN, Unknown
from sa.interp import Monitor
from sa.lab import *
from sa.rel import argument, cursor_of, schema_of
from sa.sql import conjuncts, parse, Resolver, SqlError
from sa.web import expand


class Maybe(tuple):
    """Conditions that are not settled: a false value that says why."""

    def __bool__(self):
        return False


class Marks(Monitor):
    """Monitor: statements run and loops finished on the way."""
    name = "marks"

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "sql":
            st.mon[self.name] = st.mon[self.name] | {("sql", tuple(ev.site))}
        elif ev.kind == "endloop":
            st.mon[self.name] = st.mon[self.name] | {("loop", ev.d["loop"])}


def assignments(terms, conds, leaf, limit=400):
    """Unroll the loops inside some terms: yields (leaf, sure) for every combination of elements the conditions let through."""
    out = []

    def go(leaf, depth):
        if len(out) > limit:
            raise Unknown
        for k, v in conds:
            try:
                if bool(value(k, leaf)) != bool(v):
                    return
            except Unknown:
                pass
        todo = []
        for x in sub_terms(tuple(terms) + tuple(k for k, _ in conds)):
            if x.op in ("elem", "idx") and leaf(x) is UNKNOWN and not any(y.op in ("elem", "idx") and y is not x and leaf(y) is UNKNOWN for y in sub_terms(x)):
                if all(x not in sub_terms(k) for k, _ in conds) or any(x in sub_terms(y) for y in terms) or evaluable(x, leaf):
                    todo.append(x)
        for x in todo:
            if x.op != "elem":
                continue
            try:
                vals = list(value(x[0], leaf))
            except (Unknown, TypeError):
                if any(x in sub_terms(y) for y in terms):
                    raise Unknown from None
                continue
            for v in vals:
                go(lambda y, v=v, x=x, leaf=leaf: v if y is x else leaf(y), depth + 1)
            return
        if depth > 6:
            raise Unknown
        open_ = []
        for k, v in conds:
            try:
                value(k, leaf)
            except Unknown:
                open_.append((k, v))
        out.append((leaf, Maybe(open_) if open_ else True))

    go(leaf, 0)
    return out


def evaluable(x, leaf):
    try:
        return x.op == "elem" and list(value(x[0], leaf)) is not None
    except (Unknown, TypeError):
        return False


def rows_run(r, e):
    """(row term, conditions) pairs a statement is run with."""
    p = e.d["params"]
    if p is None:
        return [(None, ())]
    if e.d["how"] == "executemany":
        out = []
        for o in options(p):
            c = r.ip.shape(o, e.heap)
            for c in options(c):
                if c.op == "comp":
                    out.append((expand(r.ip, c[1], e.heap), tuple((expand(r.ip, k, e.heap), v) for k, v in c[-2])))
                elif c.op in ("list", "tuple"):
                    out += [(expand(r.ip, y, e.heap), ()) for y in c.args]
                else:
                    out.append((expand(r.ip, e.d["row"], e.heap) if e.d["row"] is not None else None, ()))
        return out
    return [(expand(r.ip, o, e.heap), ()) for o in options(p)]


class Writes:
    """Writes of one analysed call, for given arguments."""

    def __init__(self, lab, r, conns, tables):
        self.lab, self.r, self.conns, self.tables = lab, r, conns, tables
        self.schema = schema_of(lab.catalogue("index"))
        self.temp = {}
        self.stmts = []
        self.opaque = []        # statements about the tables that are not understood
        for e in r.of("sql"):
            if e.d["conn"] not in conns:
                continue
            s = e.d["sql"]
            if not (is_const(s) and isinstance(s[0], str)):
                if first(text_of(s)) in set(DML) | {"replace"}:
                    self.opaque.append(e)
                continue
            if first(s[0]) not in set(DML) | {"replace"}:
                continue
            try:
                st, keys = parse(s[0])
            except SqlError:
                if any(tb in s[0].lower() for tb in tables):
                    self.opaque.append(e)
                continue
            tb = st[1] if st.op == "delete" else st[2]
            if str(tb).lower() in tables:
                self.stmts.append((e, st, str(tb).lower()))
            elif st.op == "insert":
                self.temp.setdefault(str(tb).lower(), []).append((e, st))

    # ---------------------------------------------------------------- one statement
    def runs(self, e, leaf, base=()):
        """(leaf, row, sure) for every row the statement is run with."""
        facts = tuple((expand(self.r.ip, k, e.heap), v) for k, v in e.facts.items())
        out = []
        for row, conds in rows_run(self.r, e):
            if row is not None and row.op not in ("tuple", "list", "kwdict") and e.d["how"] == "executemany":
                # rows collected beforehand
                for o in options(e.d["params"]):
                    for rec in value(self.r.ip.shape(o, e.heap), leaf):
                        if not isinstance(rec, (list, tuple)):
                            raise Unknown
                        out.append((leaf, tup(*[const(v) for v in rec]), True))
                continue
            terms = (row,) if row is not None else ()
            loops = set(e.loops)
            # conditions about the arguments or the loop elements; others are about the state of the database
            rel = tuple(facts) + tuple(conds)
            relevant = tuple((k, v) for k, v in rel if isinstance(k, T) and self.about(k, leaf))
            for lf, sure in assignments(terms, relevant, leaf):
                out.append((lf, row, sure))
        return out

    def about(self, k, leaf):
        return any(x.op == "param" and leaf(x) is not UNKNOWN for x in sub_terms(k))

    def bound(self, expr, row, lf):
        """Value of a parameter or literal of the statement."""
        if expr.op == "lit":
            return expr[0]
        if expr.op == "param":
            if row is None:
                raise Unknown
            a = argument(row, expr[0])
            if a is None:
                raise Unknown
            return value(a, lf)
        raise Unknown

    def keyed(self, inst, conj, row, lf):
        """(column, values, extra conditions) the statement selects rows by."""
        key, extra = None, []
        for c in conj:
            if c.op == "cmp" and c[0] in ("=", "is"):
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a.op == "c" and a[0] is inst and a[1] in ("cluster_id", "feature_id") and b.op in ("param", "lit") and key is None:
                        key = (a[1], [self.bound(b, row, lf)])
                        break
                else:
                    extra.append(c)
                continue
            if c.op == "in" and c[0].op == "c" and c[0][0] is inst and c[0][1] in ("cluster_id", "feature_id") and key is None:
                key = (c[0][1], self.members(c[1], row, lf))
                continue
            extra.append(c)
        return key, extra

    def members(self, src, row, lf):
        if src.op == "sub":
            q = src[0]
            if len(q[1]) == 1 and q[1][0][1].op == "inst" and q[1][0][1][0] in self.temp and not q[2] and len(q[0]) == 1 and q[6] is None and not q[8]:
                vals = []
                for e, st in self.temp[q[1][0][1][0]]:
                    for lf2, row2, sure in self.runs(e, self.leaf):
                        if not sure or st[4].op != "select" and st[4].op != "values":
                            raise Unknown
                        if row2 is None:
                            raise Unknown
                        a = argument(row2, 1)
                        vals.append(value(a, lf2))
                return vals
        if src.op in ("tuple", "list", "row"):
            return [self.bound(x, row, lf) for x in src.args]
        raise Unknown

    def effects(self, leaf, only=None):
        """[(event, kind, table, key column, key, set column, value, sure, extra)], [events not understood]"""
        self.leaf = leaf
        out, lost = [], []
        for e, st, tb in self.stmts:
            if only is not None and not only(e):
                continue
            try:
                runs = self.runs(e, leaf)
                for lf, row, sure in runs:
                    out += [(e, *w, sure) for w in self.one(st, tb, row, lf)]
            except Unknown:
                lost.append(e)
        lost += [e for e in self.opaque if only is None or only(e)]
        return out, lost

    def one(self, st, tb, row, lf):
        """[(kind, table, key column, key, set column, value, extra conditions)]"""
        rs = Resolver(self.schema)
        out = []
        if st.op == "delete":
            inst, conj = rs.delete(st)
            key, extra = self.keyed(inst, conj, row, lf)
            if key is None:
                return [("delete", tb, None, None, None, None, tuple(extra))]
            return [("delete", tb, key[0], k, None, None, tuple(extra)) for k in key[1]]
        if st.op == "update":
            inst, sets, conj, frm = rs.update(st)
            if frm:
                raise Unknown
            key, extra = self.keyed(inst, conj, row, lf)
            for col, ex in sets.items():
                try:
                    v = self.bound(ex, row, lf)
                except Unknown:
                    v = UNKNOWN
                for k in (key[1] if key else [None]):
                    out.append(("set", tb, key[0] if key else None, k, col, v, tuple(extra)))
            return out
        # insert
        alg, sch, nm, cols, src, upsert = st.args
        cols = [str(x).lower() for x in cols] if cols is not None else self.schema.get(tb, [])
        vals = self.values_of(src)
        if vals is None or len(vals) != len(cols):
            raise Unknown
        got = {}
        for cname, ex in zip(cols, vals):
            try:
                got[cname] = self.bound(ex, row, lf)
            except Unknown:
                got[cname] = UNKNOWN
        kcol = "feature_id" if "feature_id" in got else "cluster_id"
        if got.get(kcol, UNKNOWN) is UNKNOWN:
            raise Unknown
        ups = {}
        if upsert is not None and upsert.op == "do_update":
            if upsert[2] is not None:
                raise Unknown
            for cname, ex in upsert[1]:
                if ex.op == "col" and ex[0] == "excluded":
                    ups[str(cname).lower()] = got.get(ex[1], UNKNOWN)
                else:
                    try:
                        ups[str(cname).lower()] = self.bound(ex, row, lf)
                    except Unknown:
                        ups[str(cname).lower()] = UNKNOWN
        for cname, v in got.items():
            if cname == kcol:
                continue
            out.append(("insert", tb, kcol, got[kcol], cname, v, ()))
            if alg == "replace":
                out.append(("set", tb, kcol, got[kcol], cname, v, ()))
            elif cname in ups:
                out.append(("set", tb, kcol, got[kcol], cname, ups[cname], ()))
        return out

    def values_of(self, src):
        """Expressions of the single row an insert inserts."""
        if src.op == "select" and len(src[1]) == 1 and src[1][0][1].op == "values" and len(src[1][0][1][0]) == 1:
            return list(src[1][0][1][0][0])
        if src.op == "values" and len(src[0]) == 1:
            return list(src[0][0])
        if src.op == "select" and not src[1]:
            return [e for e, a in src[0]]
        if src.op == "select" and len(src[1]) == 1 and not any(src[i] for i in (3, 4, 6, 8)):
            # the row of one feature: its columns are what the condition says they are
            eq = {}
            for c in conjuncts(src[2]):
                if not (c.op == "cmp" and c[0] == "="):
                    return None
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a.op == "col" and b.op == "param":
                        eq[a[1]] = b
            if set(eq) == {"feature_id"}:
                return [eq.get(e[1], e) if e.op == "col" else e for e, a in src[0]]
        return None


def narrowing(x):
    """A condition on a column alone: it does not depend on what the call was given."""
    if x.op in ("col", "c"):
        return True
    if x.op == "not":
        return narrowing(x[0])
    if x.op == "cmp":
        return any(a.op in ("col", "c") and b.op == "lit" for a, b in ((x[1], x[2]), (x[2], x[1])))
    return False


def least(x, params, min_):
    """Does the comparison of docs_count keep exactly those with at least the argument `min_`?  (None: not followed)"""
    op, a, b = x[0], x[1], x[2]
    if b.op == "c":
        a, b, op = b, a, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
    if a.op != "c":
        return None
    for m in (1, 5):
        try:
            if b.op == "lit":
                v = b[0]
            elif b.op == "param":
                y = argument(params, b[0])
                if y is None:
                    return None
                v = value(y, lambda z: m if z.op == "param" and z[-1] == min_ else UNKNOWN)
            else:
                return None
        except Unknown:
            return None
        if not isinstance(v, (int, float)):
            return None
        for n in range(0, 9):
            got = {">": n > v, "<": n < v, ">=": n >= v, "<=": n <= v, "=": n == v, "!=": n != v}.get(op)
            if got is None:
                return None
            if got != (n >= m):
                return False
    return True
