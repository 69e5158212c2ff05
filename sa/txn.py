"""Transaction typestate of one SQLite connection, as a monitor of the abstract interpreter.

State: (stack, dirty, durable).  ``stack`` holds the open transaction / savepoints with the dirtiness at their start,
``dirty`` says whether the open transaction has uncommitted persistent writes, ``durable`` whether something written
in this call has become permanent.
"""
import re

from .interp import Monitor
from .terms import is_const

DML = ("insert", "update", "delete", "replace")
DDL = ("create", "drop", "alter", "reindex")
TEMP = re.compile(r"^\s*create\s+temp(?:orary)?\s+(?:table|view)\s+(?:if\s+not\s+exists\s+)?([\w\"]+)", re.I)
TARGET = re.compile(
    r"^\s*(?:insert(?:\s+or\s+\w+)?\s+into|replace\s+into|update(?:\s+or\s+\w+)?|delete\s+from|"
    r"create\s+(?:unique\s+)?(?:temp\w*\s+)?(?:table|index|trigger|view)(?:\s+if\s+not\s+exists)?|"
    r"drop\s+(?:table|index|trigger|view)(?:\s+if\s+exists)?|alter\s+table)\s+([\w\"]+)(?:\.([\w\"]+))?", re.I)


def clean(sql):
    return re.sub(r"\s+", " ", re.sub(r"--[^\n]*|/\*.*?\*/", " ", sql, flags=re.S)).strip().rstrip(";").strip()


def text_of(sql):
    """The statement text, holes shown as {}."""
    if is_const(sql):
        return clean(str(sql[0]))
    if sql.op == "fstr":
        return clean("".join(str(a[0]) if is_const(a) else "{}" for a in sql.args))
    return "{}"


def target_of(text):
    m = TARGET.match(text)
    return (m.group(2) or m.group(1)).strip('"').lower() if m else ""


def stmt_label(text):
    w = text.split(" ")[0].lower() if text else "?"
    tg = target_of(text)
    return f"{w} {tg}".strip()


class Txn(Monitor):
    def __init__(self, conn_of, entry=(), name="txn"):
        """conn_of(conn term) -> True when it is the monitored connection."""
        self.name = name
        self.conn_of = conn_of
        self.entry = entry
        self.temp = set()
        self.problems = []   # (rule, event, message)
        self.writes = []     # events writing persistently
        self.commits = []

    def init(self):
        return (self.entry, False, False)

    def bad(self, rule, ev, msg):
        self.problems.append((rule, ev, msg))

    def event(self, ev, st, ip):
        if ev.kind not in ("sql", "sqldone", "conn_commit", "conn_rollback", "conn_close", "conn___enter__", "conn___exit__"):
            return
        if not self.conn_of(ev.d["conn"]):
            return
        cur = st.mon[self.name]
        new = self.step(cur, ev)
        if new is not None:
            st.mon[self.name] = new

    def open_txn(self, conn, st):
        return bool(st.mon[self.name][0]) if self.conn_of(conn) else None

    def step(self, cur, ev):
        stack, dirty, durable = cur
        if ev.kind == "conn_commit":
            if stack:
                self.commits.append(ev)
            return ((), False, durable or dirty)
        if ev.kind == "conn_rollback":
            return ((), False, durable)
        if ev.kind == "conn_close":
            return ((), False, durable)
        if not ev.kind.startswith("sql"):
            return None
        text = text_of(ev.d["sql"])
        word = ev.d["word"] or (text.split(" ")[0].lower() if text else "")
        low = text.lower()
        if ev.d["how"] == "executescript" and ev.kind == "sql":
            # the driver commits what is open, then runs the statements on their own
            if stack:
                self.commits.append(ev)
                if dirty:
                    self.bad("implicit-commit", ev, "executescript commits the open transaction")
            self.writes.append(ev)
            return ((), False, True)
        if ev.kind == "sql":
            m = TEMP.match(low)
            if m:
                self.temp.add(m.group(1).strip('"'))
            if word in DML + DDL or (word == "with" and re.search(r"\b(insert|update|delete|replace)\b", low)):
                if m or target_of(low) in self.temp:
                    return None
                self.writes.append(ev)
                if not stack:
                    self.bad("write-outside", ev, "a write outside any transaction is committed on its own")
                    return (stack, False, True)
                return (stack, True, durable)
            return None
        # sqldone: transaction control takes effect
        if word == "begin":
            if stack:
                self.bad("nested-begin", ev, "a transaction is begun while one is open: the statement fails")
                return None
            return ((("begin", False),), False, durable)
        if word == "savepoint":
            nm = low.split(" ", 1)[1].strip().strip('"').lower() if " " in low else ""
            if len(stack) >= 12:
                self.bad("unbounded", ev, "savepoints pile up without being released")
                return None
            return (stack + ((nm, dirty),), dirty, durable)
        if word in ("commit", "end"):
            if stack:
                self.commits.append(ev)
            return ((), False, durable or dirty)
        if word == "rollback":
            m = re.match(r'rollback(?: transaction)? to(?: savepoint)? (.*)$', low)
            if not m:
                return ((), False, durable)
            nm = m.group(1).strip().strip('"').lower()
            for i in range(len(stack) - 1, -1, -1):
                if stack[i][0] == nm:
                    return (stack[:i + 1], stack[i][1], durable)
            return None
        if word == "release":
            nm = re.sub(r'^release(?: savepoint)? ', "", low).strip().strip('"').lower()
            for i in range(len(stack) - 1, -1, -1):
                if stack[i][0] == nm:
                    if i == 0:
                        self.commits.append(ev)
                        return ((), False, durable or dirty)
                    return (stack[:i], dirty, durable)
            return None
        return None
