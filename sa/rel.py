"""What a query returns: instances, filters, provenance of its columns modulo the equalities it imposes, limits."""
from .sql import parse, Resolver, SqlError, eq_closure, conjuncts
from .terms import T, t, const, is_const, options, sub_terms


def schema_of(cat):
    return {tb: [c[0].lower() for c in cat.columns(tb)] for tb in cat.tables()}


class Query:
    """A resolved select of constant text."""

    def __init__(self, cat, text):
        stmt, self.params = parse(text)
        if stmt.op != "select":
            raise SqlError("not a query")
        self.cat = cat
        self.q = Resolver(schema_of(cat)).select(stmt)
        self.cols = [e for e, a in self.q[0]]
        self.aliases = [a for e, a in self.q[0]]
        self.frm, self.where = self.q[1], list(self.q[2])
        self.group, self.having, self.order, self.limit, self.distinct, self.compound = self.q[3:9]
        self.find = eq_closure(self.where)

    def inst(self, table):
        return [i for jt, i, on, u in self.frm if i.op == "inst" and i[0] == table]

    def names(self, e):
        """(table, column) pairs an expression is known to be equal to."""
        if not isinstance(e, T):
            return set()
        out = set()
        r = self.find(e)
        for x in self.all_cols() | {e}:
            if self.find(x) is r and x.op == "c" and x[0].op == "inst" and isinstance(x[0][0], str):
                out.add((x[0][0], x[1]))
        return out

    def all_cols(self):
        out = set()
        for c in self.where + self.cols:
            out |= {x for x in sub_terms(c) if x.op == "c"}
        return out

    def column(self, i):
        """Names of result column i: the columns of tables it equals, and its alias."""
        if not 0 <= i < len(self.cols):
            return None
        return self.names(self.cols[i])

    def bound(self, e):
        """The parameter an expression is required to equal."""
        r = self.find(e)
        for c in self.where:
            for x in sub_terms(c):
                if x.op == "param" and self.find(x) is r:
                    return x
        return None

    def rows_of(self, table):
        """How the result relates to the rows of a table.

        (filters {column: parameter}, problems [text], unknown [text]): with neither problems nor unknowns the result has
        exactly one row for every row of the table that satisfies the filters.
        """
        insts = self.inst(table)
        if len(insts) != 1 or self.compound:
            return {}, [], [f"not a single scan of {table}"]
        main = insts[0]
        problems, unknown, filters = [], [], {}
        used = set()
        bound = {main}
        rest = [(jt, i, on) for jt, i, on, u in self.frm if i is not main]
        if any(jt not in ("inner", "from", "cross") for jt, i, on in [(j, x, o) for j, x, o, u in self.frm if x is main]):
            unknown.append("outer join")
        progress = True
        while rest and progress:
            progress = False
            for item in list(rest):
                jt, i, on = item
                if i.op != "inst" or not isinstance(i[0], str):
                    continue
                conj = list(conjuncts(on)) if on is not None else self.where
                hit = {}
                for c in conj:
                    if c.op == "cmp" and c[0] == "=":
                        for a, b in ((c[1], c[2]), (c[2], c[1])):
                            if a.op == "c" and a[0] is i and b.op == "c" and b[0] in bound:
                                hit[a[1]] = (b, c)
                keys = [k for k in self.cat.unique_keys(i[0]) if all(x in hit for x in k)]
                if keys:
                    used |= {hit[x][1] for x in keys[0]}
                    if jt in ("inner", "from", "cross") and not self.guaranteed(i[0], keys[0], [hit[x][0] for x in keys[0]]):
                        unknown.append(f"rows without a match in {i[0]} are left out")
                    bound.add(i)
                    rest.remove(item)
                    progress = True
        if rest:
            unknown.append("joined with " + ", ".join(str(i[0]) if i.op == "inst" and isinstance(i[0], str) else i.op for _, i, _ in rest))
        for c in self.where:
            if c in used:
                continue
            if c.op == "cmp" and c[0] in ("=", "is"):
                a, b = c[1], c[2]
                if b.op == "c" and a.op == "param":
                    a, b = b, a
                if a.op == "c" and b.op == "param":
                    for tb, col in self.names(a):
                        if tb == table:
                            filters[col] = b
                    continue
                if a.op == "c" and b.op == "c" and a[0] in bound and b[0] in bound and a[0] is not b[0]:
                    continue
            problems.append(c)
        if self.having is not None:
            problems.append(self.having)
        if self.group and not self.keyed(main, self.group, filters):
            problems.append(t("group"))
        if not self.group and any(aggregate(e) for e in self.cols):
            problems.append(t("aggregate"))
        if self.distinct and not self.keyed(main, self.cols, filters):
            problems.append(t("distinct"))
        return filters, problems, unknown

    def keyed(self, main, exprs, filters):
        have = set(filters)
        for e in exprs:
            have |= {c for tb, c in self.names(e) if tb == main[0]}
        return any(set(k) <= have for k in self.cat.unique_keys(main[0]))

    def guaranteed(self, table, key, sources):
        """Is there always a row of the table with this key (foreign keys, or the same key of a table that references it)?"""
        for s in sources:
            tb = s[0][0]
            fks = self.cat.db.execute(f"pragma foreign_key_list({tb})").fetchall()
            if not any((r[2] or "").lower() == table and (r[3] or "").lower() == s[1] for r in fks):
                return False
        return True


AGG = {"count", "sum", "total", "avg", "group_concat", "min", "max"}


def aggregate(e):
    return any(x.op == "fn" and str(x[0]).lower() in AGG for x in sub_terms(e))


def cursor_of(x):
    """(sql text, parameters) of the cursor a row comes from."""
    if x.op == "cursor" and is_const(x[1]) and isinstance(x[1][0], str):
        return x[1][0], x[2]
    return None


def argument(params, key, ip=None, heap=None):
    """The value bound to a parameter of a statement (key: position from 1, or name)."""
    for v in options(params):
        if ip is not None:
            v = ip.shape(v, heap)
        if v.op in ("list", "tuple") and isinstance(key, int):
            return v[key - 1] if len(v.args) >= key else None
        if v.op == "kwdict":
            for k, x in v[0]:
                if k == key or isinstance(k, T) and is_const(k, key):
                    return x
    return None


class Coverage:
    """Monitor: every iteration of the given loops does its work (a write, or running an inner loop) and none is cut short.

    ``skippable(facts, look)``: iterations on which these conditions hold need not do anything.
    """

    name = "coverage"

    def __init__(self, loops, is_work, skippable=lambda facts, look: False):
        self.loops = set(loops)
        self.is_work = is_work
        self.skippable = skippable

    def init(self):
        return ()

    def event(self, ev, st, ip):
        s = st.mon[self.name]
        if ev.kind in ("iter", "enditer", "endloop") and ev.d["loop"] in self.loops:
            lid = ev.d["loop"]
            d = dict(s)
            if ev.kind == "enditer":
                if d.get(lid) == "pending" and not self.skippable(ev.facts, lambda x: ip.content(x, st)):
                    d["!"] = d.get("!", ()) or (ev.where,)
                d.pop(lid, None)
                outer = [x for x in ev.loops if x in self.loops and x != lid]
                if outer and outer[-1] in d:
                    d[outer[-1]] = "done"
            elif ev.kind == "iter":
                d[lid] = "pending"
            else:
                d.pop(lid, None)
                outer = [x for x in ev.loops if x in self.loops and x != lid]
                if outer and outer[-1] in d:
                    d[outer[-1]] = "done"
            st.mon[self.name] = tuple(sorted(d.items(), key=str))
        elif self.is_work(ev):
            d = dict(s)
            inner = [x for x in ev.loops if x in self.loops]
            if inner and inner[-1] in d:
                d[inner[-1]] = "done"
            st.mon[self.name] = tuple(sorted(d.items(), key=str))
