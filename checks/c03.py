"""C03: re-indexing replaces the whole index at a single commit (transaction, foreign key and task typestate)."""
import re

from sa.interp import Monitor
from sa.lab import *
from sa.sql import parse, SqlError
from sa.txn import Txn
from checks.c01 import fault_site, path_of
from checks.c07 import Futures, related, outstanding

R_ONE = "index-content-changes-at-one-commit"
R_ALL = "all-batches-succeeded-before-the-commit"
R_FAIL = "failed-reindex-leaves-the-old-index"
R_FK = "foreign-keys-on-again"
R_RAISE = "failed-reindex-raises"
R_OPEN = "no-transaction-left-open"
R_NEST = "a-callers-transaction-is-not-touched"
R_OLD = "previous-content-is-replaced"
R_AGAIN = "later-reindex-can-succeed"

DERIVED = ("cluster", "changed_cluster", "settings")      # model state, not index content


class Change:
    """What one statement does to the tables of the index."""

    def __init__(self, text):
        self.kind = self.table = None
        self.all = False
        self.plain = False
        self.reads = set()
        try:
            s, _ = parse(text)
        except SqlError:
            s = None
        low = clean(text).lower()
        word = low.split(" ")[0] if low else ""
        if s is None:
            if word in DML:
                self.kind, self.table = ("insert" if word == "replace" else word), target_of(clean(text)) or "?"
            return
        self.reads = {(x[0], x[1]) for x in sub_terms(s) if x.op == "table"}
        if s.op == "insert":
            self.kind, self.table = "insert", s[2]
            self.schema = s[1]
            self.plain = s[0] in (None, "", "abort", "fail", "rollback") and not s[5]
        elif s.op == "update":
            self.kind, self.table, self.schema = "update", s[2], s[1]
            self.all = not s[6] and not s[5]
        elif s.op == "delete":
            self.kind, self.table, self.schema = "delete", s[1], s[0]
            self.all = not s[3]
        elif word in ("drop", "create", "alter"):
            self.kind, self.table, self.schema = word, target_of(clean(text)), None
            self.all = word == "drop"


def val(x):
    """A parser slot that may hold a term or a plain value."""
    return x[0] if isinstance(x, T) and x.op in ("const", "name", "lit") and x.args else x


class Reindex(Monitor):
    """State: (transaction typestate, foreign keys on, tables changed in the open transaction, tables reset in it,
    content committed so far)."""
    name = "ri"

    def __init__(self, conn_of, entry, content, unique, fk):
        self.conn_of, self.entry, self.content, self.unique, self.fk = conn_of, entry, content, unique, fk
        self.txn = Txn(conn_of, entry)
        self.segment = set()
        self.found = []          # (rule, construct, event, message)
        self.resets = []         # per content commit: (event, inserted tables, reset, touched)
        self.at_merge = []       # outstanding tasks where their results are read
        self.at_commit = []      # outstanding tasks at a commit of content
        self.changes = {}

    def init(self):
        return ((self.entry, False, False), self.fk, frozenset(), frozenset(), frozenset())

    def open_txn(self, conn, st):
        return bool(st.mon[self.name][0][0]) if self.conn_of(conn) else None

    def change(self, text):
        if text not in self.changes:
            self.changes[text] = Change(text)
        return self.changes[text]

    def event(self, ev, st, ip):
        if not (ev.kind.startswith("sql") or ev.kind.startswith("conn_")) or not self.conn_of(ev.d.get("conn")):
            return
        tx, fk, chg, rst, done = st.mon[self.name]
        if ev.kind == "sql" and is_const(ev.d["sql"]):
            ch = self.change(ev.d["sql"][0])
            if reads_attached(ch, self):
                out = outstanding(ip, self.fut, st)
                if out:
                    self.at_merge.append((ev, out, st))
            if ch.kind and ch.table not in self.txn.temp and str(getattr(ch, "schema", None) or "main").lower() in ("main", "none", ""):
                tb = str(ch.table).lower()
                if tb in self.content:
                    if done:
                        self.found.append((R_ONE, tb, ev, f"{tb} is written after other index content was already committed "
                                                          f"({', '.join(sorted(done))}): readers see a mixture of two indexes in between"))
                    chg = chg | {tb}
                if ch.all and ch.kind in ("delete", "drop", "update"):
                    rst = rst | {(tb, ch.kind)}
                elif ch.kind in ("delete", "update"):
                    rst = rst | {(tb, "some")}
                if ch.kind == "insert":
                    self.ins(ev, ch, tb, rst)
                    if tb in self.content:
                        chg = chg | {"+" + tb}
            elif ch.kind is None and ev.d["word"] in ("vacuum",):
                pass
        before = tx
        ntx = self.txn.step(tx, ev)
        if ntx is not None:
            tx = ntx
        if ev.kind == "sqldone":
            low = text_of(ev.d["sql"]).lower()
            m = re.match(r"pragma (?:main\.)?foreign_keys\s*[=(]\s*'?(\w+)", low)
            if m and not tx[0]:
                fk = m.group(1) in ("1", "on", "true", "yes")
        committed = tx[2] and before[1] and not tx[1] and not tx[0]
        if committed and ev.kind in ("sqldone", "conn_commit", "sql"):
            real = {x for x in chg if not x.startswith("+")}
            if real:
                self.resets.append((ev, chg, rst, st.fault))
                out = outstanding(ip, self.fut, st)
                self.at_commit.append((ev, out, st))
                done = done | real
        if not tx[0] and before[0]:
            chg, rst = frozenset(), frozenset()
        st.mon[self.name] = (tx, fk, chg, rst, done)

    def ins(self, ev, ch, tb, rst):
        if not ch.plain or tb not in self.unique:
            return
        got = {k for x, k in rst if x == tb}
        if got & {"delete", "drop"}:
            self.found.append((None, tb, ev, ""))
        elif "some" in got or "update" in got:
            self.found.append(("?", tb, ev, f"rows of {tb} are removed selectively before new ones are inserted"))
        else:
            self.found.append((R_AGAIN, tb, ev, f"rows are inserted into {tb}, which has a unique key, without removing or tolerating the rows "
                                                f"an earlier index run left there: the re-index fails for good"))


def run(c, lab):
    c.rule(R_ONE, "after index content was committed no further index content is written by the same call")
    c.rule(R_ALL, "at the commit of the content, and when the background results are read, every submitted task's outcome has been collected")
    c.rule(R_FAIL, "a call that ends with an error has committed none of the new content, or all of it")
    c.rule(R_FK, "foreign key enforcement is on again, outside any transaction, on every way out")
    c.rule(R_RAISE, "no error, background failure or interrupt is turned into a normal return")
    c.rule(R_OPEN, "no transaction is open on any way out")
    c.rule(R_NEST, "when the call is refused because a transaction is open, that transaction is neither committed nor rolled back")
    c.rule(R_OLD, "every table filled by the call is emptied or reset in the same transaction")
    c.rule(R_AGAIN, "an insert into a uniquely keyed table follows its removal in the same transaction, or tolerates existing rows")
    c.assumptions += [
        "first-fault model: one error or interrupt per call, at statements that run SQL, submit or collect background work, iterate lazily or call "
        "unknown code; the statements of the error path do not fail themselves",
        "SQLite makes a transaction's changes visible and durable at its commit; `pragma foreign_keys` has no effect inside a transaction",
        "an interrupt exactly between switching foreign keys off and entering the protected block is outside the model",
    ]
    cls = lab.index_cls
    c.require(cls.find("index") is not None, "Index.index not found")
    cat = lab.catalogue("index")
    content = {tb.lower() for tb in cat.tables()} - set(DERIVED)
    unique = {tb.lower() for tb in cat.tables() if cat.unique_keys(tb)}
    c.count("content_tables", len(content))
    c.guard(R_ONE, "Index.index", lambda: analyse(c, lab, cls, content, unique, ()))
    c.guard(R_NEST, "Index.index", lambda: analyse(c, lab, cls, content, unique, (("begin", False),)))


def analyse(c, lab, cls, content, unique, entry):
    main = []
    r0 = lab.run_method(cls, "index", max_states=2)
    fk = None
    for e in r0.of("sqldone"):
        if e.d["conn"] in lab.main_conns(r0) and re.match(r"pragma (main\.)?foreign_keys\s*[=(]\s*'?(1|on|true|yes)", text_of(e.d["sql"]).lower()):
            fk = True
            break
    # the constructor's own statements are analysed with the object; enforcement is on before the call when the constructor turns it on
    ro = lab.open_index(0)
    own = lab.main_conns(ro)
    on = [e for e in ro.of("sql") if e.d["conn"] in own and re.match(r"pragma (main\.)?foreign_keys", text_of(e.d["sql"]).lower())]
    opened = bool(on) and re.search(r"[=(]\s*'?(1|on|true|yes)", text_of(on[-1].d["sql"]).lower()) is not None
    mon = Reindex(lambda x: x in main, entry, content, unique, True)
    fut = mon.fut = Futures()
    try:
        mon.segment = {x.lower() for x in lab.catalogue("segment").tables()} - {x.lower() for x in lab.catalogue("index").tables()}
    except AnalysisError:
        pass

    def prep(ip, obj, st):
        for k, v in st.env.items():
            if k[0] == "@" and k[1] is obj:
                main.extend(o for o in options(v) if o.op == "conn")
        return st

    r = lab.run_method(cls, "index", faults=True, monitors=[fut, mon], max_states=4, prep=prep, key=("c03", entry))
    if not main:
        raise AnalysisError("the index object holds no database connection")
    fn = "Index.index"
    c.count("paths", len(r.outs))
    c.count("sql_events", len(r.of("sql")))
    sites = {tuple(e.site): e for e in r.of("sql", "sqldone")}

    def word_at(fault):
        s = tuple(x for x in fault[1] if x != "@") if fault else ()
        e = sites.get(s)
        return text_of(e.d["sql"]).lower() if e is not None else ""

    if entry:
        nested(c, r, mon, fn, entry, word_at)
        return
    outer(c, r, mon, fut, fn, opened, word_at)


def nested(c, r, mon, fn, entry, word_at):
    seen = False
    firsts = {tuple(e.site) for e in r.of("sql") if text_of(e.d["sql"]).lower().startswith("begin")
              and dict(e.mon)["ri"][0] == (entry, False, False) and not dict(e.mon)["ri"][4] and not e.fault}
    for kind, v, st in r.outs:
        if not st.fault or kind == "return" or tuple(x for x in st.fault[1] if x != "@") not in firsts or st.mon["ri"][4]:
            continue
        (stack, dirty, durable), _, _, _, _ = st.mon["ri"]
        seen = True
        if stack != entry or durable:
            c.bad(R_NEST, fn, "begin", f"{fn}: when a transaction is already open the call is refused, but the caller's transaction is "
                                       f"{'committed' if durable else 'rolled back'}", fn, path_of(r, st.fault))
            return
    if seen:
        c.ok(R_NEST, fn, "begin", "a refused call leaves the open transaction alone")
    else:
        c.unsure(R_NEST, fn, "begin", "no outcome of a refused begin was found")


def outer(c, r, mon, fut, fn, opened, word_at):
    clean_ = True
    for rule, construct, ev, msg in mon.found:
        if rule is None:
            c.ok(R_AGAIN, ev.fn, construct, "", ev.where)
        elif rule == "?":
            c.unsure(R_AGAIN, ev.fn, construct, msg, ev.where)
        else:
            c.bad(rule, ev.fn, construct, f"{fn}: {msg}", ev.where)
    for ev, left, st in mon.at_commit:
        if left and all(related(r.ip, f, fut, st) for f in left):
            c.unsure(R_ALL, ev.fn, "commit", "outcomes are collected in a way the analysis does not follow", ev.where)
        elif left:
            c.bad(R_ALL, ev.fn, "commit", f"{fn} commits the new content before the outcome of every background batch was collected", ev.where)
    for ev, left, st in mon.at_merge:
        if not all(related(r.ip, f, fut, st) for f in left):
            c.bad(R_ALL, ev.fn, "merge", f"{fn} reads the results of the background batches before all of them were collected", ev.where)
    commits = [x for x in mon.resets]
    if not commits:
        c.unsure(R_ONE, fn, "commit", "no commit of index content was recognised")
        return
    for ev, chg, rst, fault in commits:
        for x in chg:
            if not x.startswith("+"):
                continue
            tb = x[1:]
            got = {k for y, k in rst if y == tb}
            if got & {"delete", "drop", "update"}:
                c.ok(R_OLD, fn, tb, "", ev.where)
            elif got:
                c.unsure(R_OLD, fn, tb, f"rows of {tb} are reset selectively", ev.where)
            elif derived_from_index(r, mon, tb):
                c.unsure(R_OLD, fn, tb, f"{tb} is recomputed from the index without being emptied", ev.where)
            else:
                c.bad(R_OLD, fn, tb, f"{fn} fills {tb} but nothing removes or resets what the previous index left there", ev.where)
    want = set()
    for ev, chg, rst, fault in commits:
        want |= {x for x in chg if not x.startswith("+")}
    for kind, v, st in r.outs:
        (stack, dirty, durable), fk, chg, rst, done = st.mon["ri"]
        fault = st.fault
        site = fault_site(fault)
        w = word_at(fault)
        tag = f"{kind}:{'fault' if fault else 'plain'}"
        early = w.startswith("pragma foreign_keys") or w.startswith("pragma main.foreign_keys") or w.startswith("begin")
        if kind == "return" and fault is not None and len(fault) < 3 and fault[0] != "Exception?":
            c.bad(R_RAISE, fn, "swallowed", f"{fn} returns normally after {fault[0]}{site}", fn, path_of(r, fault))
            clean_ = False
        if stack and not early:
            c.bad(R_OPEN, fn, tag, f"{fn} {'ends with an error' if kind == 'raise' else 'returns'} with an open transaction{site}", fn,
                  path_of(r, fault))
            clean_ = False
        if kind == "raise" and done and done != want:
            c.bad(R_FAIL, fn, tag, f"{fn} ends with an error after committing only {', '.join(sorted(done))}{site}", fn, path_of(r, fault))
            clean_ = False
        if not fk and not early:
            if opened:
                c.bad(R_FK, fn, tag, f"{fn} {'ends with an error' if kind == 'raise' else 'returns'} with foreign key enforcement off{site}", fn,
                      path_of(r, fault))
            else:
                c.unsure(R_FK, fn, tag, "opening an index does not switch foreign keys on")
            clean_ = False
        if kind == "return" and fault is None and not done:
            c.unsure(R_ONE, fn, "nothing", "a normal return without a commit of content")
    if clean_:
        for rule in (R_FAIL, R_RAISE, R_OPEN, R_FK):
            c.ok(rule, fn, "", f"{len(r.outs)} outcomes")
    bad = {o[1] for o in c.by("violation")}
    if R_ONE not in bad:
        c.ok(R_ONE, fn, "", f"{len(want)} tables at {len({ev.where for ev, *_ in commits})} commit site(s)")
    if R_ALL not in bad:
        c.ok(R_ALL, fn, "", f"{len(mon.at_commit)} commits")


def reads_attached(ch, mon):
    """Does the statement read the attached database of the background results?"""
    return any(isinstance(sc, str) and sc.lower() not in ("", "main", "temp") for sc, _ in ch.reads) or any(str(n).lower() in mon.segment for _, n in ch.reads)


def derived_from_index(r, mon, tb):
    """Is the table filled from tables of the index itself only?"""
    srcs = set()
    for e in r.of("sql"):
        if is_const(e.d["sql"]):
            ch = mon.change(e.d["sql"][0])
            if ch.kind == "insert" and str(ch.table).lower() == tb:
                srcs |= {str(n).lower() for _, n in ch.reads}
                if not ch.reads:
                    return False
    return bool(srcs) and srcs <= mon.content
