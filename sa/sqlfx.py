"""Compile-time facts about SQL statements, from SQLite's own compiler.

An empty in-memory database is given the schema the package declares; a statement is then *compiled* (``explain``)
and the compiler's authorizer callback reports every table and column it reads or writes, triggers included.
No statement of the package runs against data.
"""
import re
import sqlite3

from .sql import TOK, split_script, SqlError

ACTIONS = {sqlite3.SQLITE_INSERT: "insert", sqlite3.SQLITE_UPDATE: "update", sqlite3.SQLITE_DELETE: "delete"}


class Fx:
    __slots__ = ("sql", "error", "reads", "writes", "functions", "pragmas", "txn", "creates")

    def __init__(self, sql):
        self.sql, self.error = sql, None
        self.reads, self.writes, self.functions, self.pragmas, self.txn, self.creates = set(), set(), set(), set(), set(), set()

    def direct_writes(self):
        return {(op, tb, col, db) for op, tb, col, db, trig in self.writes if not trig}

    def written_tables(self):
        return {tb for op, tb, col, db, trig in self.writes}

    def read_tables(self):
        return {tb for tb, col, db, trig in self.reads}


def placeholders(sql):
    """(number of positional values needed, set of names)"""
    n, names, pos = 0, set(), 0
    mx = 0
    while pos < len(sql):
        m = TOK.match(sql, pos)
        if not m:
            pos += 1
            continue
        pos = m.end()
        if m.lastgroup == "par":
            p = m.group("par")
            if p[0] == "?":
                if len(p) > 1:
                    mx = max(mx, int(p[1:]))
                else:
                    mx += 1
            else:
                names.add(p[1:])
    return mx, names


class _Agg:
    def step(self, *a):
        pass

    def finalize(self):
        return None


class Catalogue:
    def __init__(self, ddl=(), aggregates=(), functions=(), attached=None):
        self.db = sqlite3.connect(":memory:", isolation_level=None)
        self.errors = []
        for name, n in aggregates:
            self.db.create_aggregate(name, n, _Agg)
        for name, n in functions:
            self.db.create_function(name, n, lambda *a: None)
        self.db.execute("pragma foreign_keys=0")
        self.memo = {}
        self.aggregates, self.functions = list(aggregates), list(functions)
        for s in ddl:
            self.apply(s)
        for name, stmts in (attached or {}).items():
            self.attach(name, stmts)

    def attach(self, name, stmts):
        self.db.execute(f"attach ':memory:' as {name}")
        for s in stmts:
            m = re.match(r"\s*(create\s+(?:unique\s+)?(?:table|index|trigger|view)\s+(?:if\s+not\s+exists\s+)?)(.*)$", s, re.S | re.I)
            if m:
                self.apply(m.group(1) + name + "." + m.group(2).lstrip())

    def apply(self, s):
        try:
            n, names = placeholders(s)
            self.db.execute(s, {x: None for x in names} if names else [None] * n)
        except sqlite3.Error as e:
            self.errors.append((s, str(e)))
            return str(e)
        self.memo = {}
        return None

    def script(self, text):
        out = []
        for s in split_script(text):
            e = self.apply(s)
            if e:
                out.append((s, e))
        return out

    def tables(self, schema="main"):
        return {r[0].lower() for r in self.db.execute(f"select name from {schema}.sqlite_master where type='table'")}

    def columns(self, table, schema="main"):
        return [(r[1], (r[2] or "").lower(), r[5], r[3]) for r in self.db.execute(f"pragma {schema}.table_info({table})")]

    def triggers(self):
        return [(r[0], r[1].lower(), r[2]) for r in
                self.db.execute("select name, tbl_name, sql from sqlite_master where type='trigger'")]

    def unique_keys(self, table):
        """Sets of columns declared unique (primary key included)."""
        out = []
        cols = self.columns(table)
        pk = [c[0].lower() for c in sorted(cols, key=lambda c: c[2]) if c[2]]
        if pk:
            out.append(tuple(pk))
        for r in self.db.execute(f"pragma index_list({table})").fetchall():
            if r[2]:
                k = tuple(x[2].lower() for x in self.db.execute(f"pragma index_info('{r[1]}')"))
                if k not in out:
                    out.append(k)
        return out

    def dump(self):
        """Declared shape of everything: for comparing schemas."""
        out = {}
        for tb in sorted(self.tables()):
            out[tb] = (tuple((c[0].lower(), c[1], c[2], c[3]) for c in self.columns(tb)), tuple(sorted(self.unique_keys(tb))),
                       tuple(sorted((r[2].lower(), r[3].lower(), (r[4] or "").lower(), r[6]) for r in self.db.execute(f"pragma foreign_key_list({tb})"))))
        return out

    def compile(self, sql):
        if sql in self.memo:
            return self.memo[sql]
        fx = Fx(sql)

        def auth(action, a1, a2, dbname, trig):
            if action == sqlite3.SQLITE_READ:
                fx.reads.add(((a1 or "").lower(), (a2 or "").lower(), dbname, trig))
            elif action in ACTIONS:
                fx.writes.add((ACTIONS[action], (a1 or "").lower(), (a2 or "").lower(), dbname, trig))
            elif action == sqlite3.SQLITE_FUNCTION:
                fx.functions.add((a2 or "").lower())
            elif action == sqlite3.SQLITE_PRAGMA:
                fx.pragmas.add((a1, a2))
            elif action in (sqlite3.SQLITE_TRANSACTION, getattr(sqlite3, "SQLITE_SAVEPOINT", 32)):
                fx.txn.add((a1, a2))
            elif action in (sqlite3.SQLITE_CREATE_TABLE, sqlite3.SQLITE_CREATE_INDEX, sqlite3.SQLITE_CREATE_TRIGGER,
                            sqlite3.SQLITE_CREATE_VIEW, sqlite3.SQLITE_DROP_TABLE, sqlite3.SQLITE_DROP_INDEX,
                            sqlite3.SQLITE_DROP_TRIGGER, sqlite3.SQLITE_ALTER_TABLE, sqlite3.SQLITE_CREATE_TEMP_TABLE,
                            sqlite3.SQLITE_DROP_TEMP_TABLE):
                fx.creates.add((action, (a1 or "").lower(), (a2 or "").lower()))
            return sqlite3.SQLITE_OK

        n, names = placeholders(sql)
        self.db.set_authorizer(auth)
        try:
            self.db.execute("explain " + sql, {x: None for x in names} if names else [None] * n)
        except (sqlite3.Error, sqlite3.Warning) as e:
            fx.error = str(e)
        finally:
            self.db.set_authorizer(None)
        fx.writes = {w for w in fx.writes if w[1] not in ("sqlite_master", "sqlite_temp_master")}
        fx.reads = {w for w in fx.reads if w[0] not in ("sqlite_master", "sqlite_temp_master")}
        self.memo[sql] = fx
        return fx

    def result_columns(self, sql):
        """Names of the columns of a query, or None."""
        n, names = placeholders(sql)
        s = sql.strip().rstrip(";")
        try:
            cur = self.db.execute(f"select * from ({s}\n) limit 0", {x: None for x in names} if names else [None] * n)
            return [d[0] for d in cur.description]
        except sqlite3.Error:
            return None
