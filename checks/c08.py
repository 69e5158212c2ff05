"""C08: background tasks only read the index, from one snapshot, and clean up (typestate over every worker path)."""
from sa.interp import Monitor
from sa.lab import *
from sa.txn import Txn, text_of

R_RO = "background-work-only-reads-the-index"
R_POOL = "background-work-starts-no-processes"
R_SNAP = "reads-of-the-index-come-from-one-transaction"
R_CLOSE = "connections-are-closed-however-the-work-ends"
R_SEG = "segment-writes-are-one-locked-transaction-per-batch"
R_LOCK = "every-batch-gets-the-same-lock-and-the-temporary-database"

POOLS = ("ProcessPoolExecutor", "Pool", "Manager", "Process", "SyncManager")
READS = ("select", "with", "values")


class Snap(Monitor):
    """Per index connection: open transactions, number of distinct snapshots read (up to 2), is the current one read, closed?"""
    name = "snap"

    def __init__(self, conns):
        self.conns = conns
        self.step = Txn(lambda c: True).step
        self.second = []
        self.late = []

    def init(self):
        return ((), 0, False, False)

    def event(self, ev, st, ip):
        if not (ev.kind.startswith("sql") or ev.kind.startswith("conn_")) or ev.d.get("conn") not in self.conns:
            return
        stack, n, read, closed = st.mon[self.name]
        if ev.kind == "sql":
            if closed:
                self.late.append(ev)
            if ev.d["word"] in READS:
                if not stack:
                    n, read = n + 1, False
                elif not read:
                    n, read = n + 1, True
                if n == 2:
                    self.second.append(ev)
                n = min(n, 2)
        new = self.step((stack, False, False), ev)
        if new is not None:
            if not new[0] or (stack and not new[0]):
                read = False
            stack = new[0]
        if ev.kind == "conn_close":
            closed = True
        st.mon[self.name] = (stack, n, read, closed)


class Seg(Monitor):
    """Connections a worker opens itself: open?, in a transaction?, lock held?, transactions with writes (up to 2)."""
    name = "seg"

    def __init__(self, own, lock_of):
        self.own, self.lock_of = own, lock_of
        self.step = Txn(lambda c: True).step
        self.bad = []

    def init(self):
        return (frozenset(), (), 0, 0, False)

    def event(self, ev, st, ip):
        conns, stack, held, n, dirty = cur = st.mon[self.name]
        k = ev.kind
        if k in ("enter", "exit"):
            if self.lock_of(ev.d["cm"]):
                held += 1 if k == "enter" else -1
        elif k == "mcall" and ev.d["name"] in ("acquire", "release") and self.lock_of(ev.d["recv"]):
            held += 1 if ev.d["name"] == "acquire" else -1
        elif k == "connect" and ev.d["conn"] not in self.own:
            conns = conns | {ev.d["conn"]}
        elif (k.startswith("sql") or k.startswith("conn_")) and ev.d.get("conn") in conns:
            if k == "conn_close":
                conns = conns - {ev.d["conn"]}
            s = text_of(ev.d["sql"]) if "sql" in ev.d else ""
            w = first(s)
            write = k == "sql" and (w in DML or w in DDL) and not TEMP.match(s)
            if write:
                if held <= 0:
                    self.bad.append(("lock", ev, f"`{stmt_label(clean(s))}` is run without holding the lock"))
                if not stack and w in DML:
                    self.bad.append(("txn", ev, f"`{stmt_label(clean(s))}` is run outside any transaction"))
                if dirty is not True:
                    n = min(n + 1, 2)
                    dirty = True
                    if n == 2:
                        self.bad.append(("split", ev, "one batch is written by more than one transaction"))
            if dirty and held <= 0 and k == "sql" and w in ("commit", "end", "release"):
                self.bad.append(("lock", ev, "the batch is committed without holding the lock"))
            new = self.step((stack, False, False), ev)
            if new is not None:
                if not new[0]:
                    dirty = "lost" if dirty and stack and k == "conn_close" else dirty if dirty == "lost" else False
                stack = new[0]
        new = (conns, stack, max(-1, min(held, 2)), n, dirty)
        if new != cur:
            st.mon[self.name] = new


def mentions(v, x):
    return isinstance(v, T) and any(y is x or y == x for y in sub_terms(v))


def run(c, lab):
    c.rule(R_RO, "no statement that changes data or schema, and no write lock, on a connection to the index in any path of any function handed to a pool")
    c.rule(R_POOL, "no path of such a function creates or uses a pool, manager or process")
    c.rule(R_SNAP, "on every path all reads of the index happen in one transaction")
    c.rule(R_CLOSE, "the index connection and every connection the function opens are closed on every way out, errors and interrupts included")
    c.rule(R_SEG, "the connection a background function opens is written in one transaction per call, under the lock it was given")
    c.rule(R_LOCK, "every submission shares one lock and writes inside the temporary directory")
    c.assumptions += ["first-fault model; closing a connection, releasing a lock and starting a deferred transaction do not fail",
                      "one transaction of SQLite reads one snapshot"]
    ws = lab.workers()
    c.require(ws, "no work handed to background processes was found")
    for q in ws:
        c.guard(R_SNAP, q, lambda: worker(c, lab, q))
    c.guard(R_RO, "opening", lambda: opening(c, lab))
    c.count("background_functions", len(ws))
    for name, e in getattr(lab, "worker_errors", []):
        c.unsure(R_RO, f"Index.{name}", "analysis", str(e)[:100], "")


def opening(c, lab):
    """Rebuilding the index object in the other process."""
    from checks.c09 import version_of
    cur = version_of(lab)
    r = lab.open_index(cur)
    main = lab.main_conns(r)
    bad = False
    for e, s in lab.const_sql(r, main):
        if first(s) in DML + DDL and not TEMP.match(s):
            bad = True
            c.bad(R_RO, "opening", stmt_label(clean(s)), f"opening the index in a background process writes to it: {clean(s)[:80]}", e.where)
    if not bad:
        c.ok(R_RO, "opening", "", f"index of version {cur}")
    pools = [e for e in r.of("acquire", "submit") if starts(e)]
    c.decide(not pools, R_POOL, "opening", "pool", "" if not pools else "opening an index starts helper processes, in background processes as well",
             pools[0].where if pools else "")


def starts(e):
    if e.kind == "submit":
        return True
    x = e.d["res"]
    return isinstance(x, T) and x.op == "res" and str(x[0]).split(".")[-1] in POOLS


def worker(c, lab, q):
    name = q.split(".")[-1]
    r = lab.run_worker(q)
    main = lab.main_conns(r)
    fn, build = lab.worker_args(q)
    idx = r.obj
    gets_index = any(mentions(v, idx) for v in build(idx).values())
    # the location of the index under other connections
    def to_index(conn):
        return conn in main or any(mentions(a, idx) for a in conn.args if isinstance(a, T)) or \
            any(y.op == "param" and len(y.args) > 1 and y[1] == "db_path" and str(y[0]).startswith(idx[0]) for y in sub_terms(conn))
    index = main | {e.d["conn"] for e in r.of("connect") if to_index(e.d["conn"])}
    wrote = False
    for e in r.of("sql", "conn_commit"):
        if e.d["conn"] not in index or e.kind != "sql":
            continue
        s = text_of(e.d["sql"])
        w = first(s)
        if (w in DML or w in DDL or w in ("vacuum", "reindex", "analyze")) and not TEMP.match(s):
            if target_of(clean(s)) in temps(r):
                continue
            wrote = True
            c.bad(R_RO, name, stmt_label(clean(s)), f"background function {name} writes to the index: {clean(s)[:80]}", e.where)
        elif w == "begin" and re.search(r"\b(immediate|exclusive)\b", s, re.I):
            wrote = True
            c.bad(R_RO, name, "begin", f"background function {name} takes the write lock of the index: {clean(s)}", e.where)
        elif w == "with" and re.search(r"\b(insert|update|delete|replace)\s+(into|from|\w+\s+set)\b", s, re.I):
            wrote = True
            c.bad(R_RO, name, "with", f"background function {name} writes to the index: {clean(s)[:80]}", e.where)
        elif not is_const(e.d["sql"]) and not s.lower().startswith(("savepoint", "release", "rollback", "select", "pragma", "with", "begin", "commit")):
            c.unsure(R_RO, name, f"sql:{e.where}", "a statement built at run time", e.where)
    if not wrote:
        c.ok(R_RO, name, "", f"{len([e for e in r.of('sql') if e.d['conn'] in index])} statements")
    pools = [e for e in r.of("acquire", "submit") if starts(e)]
    c.decide(not pools, R_POOL, name, "pool", "" if not pools else f"background function {name} starts helper processes of its own", pools[0].where if pools else "")
    uses = any(e.d["conn"] in index for e in r.of("sql"))
    mon = Snap(index)
    locks = lock_params(lab, q, fn)
    is_lock = lambda cm: isinstance(cm, T) and any(o in locks for o in options(cm))
    seg = Seg(index, is_lock)
    rf = lab.run_worker(q, faults=True, monitors=[mon, seg], max_states=3, key="c08")
    opens = {e.site for e in rf.of("sql") if e.d["word"] == "begin" and e.d["conn"] in index} | {e.site for e in rf.of("connect")} | \
        {e.site for e in rf.of("mcall") if e.d["name"] == "acquire" and is_lock(e.d["recv"])}
    closing = {e.site for e in rf.of("conn_close")}
    if uses:
        if mon.second:
            e = mon.second[0]
            c.bad(R_SNAP, name, e.fn, f"background function {name} reads the index from more than one transaction", e.where)
        else:
            c.ok(R_SNAP, name, "", f"{len(rf.outs)} outcomes")
    left = set()
    for kind, v, st in rf.outs:
        s = st.fault[1] if st.fault else ()
        if any(s[-len(x):] == x for x in opens | closing):
            continue
        how = "ends with an error" if kind == "raise" else "returns"
        if (gets_index or uses) and not st.mon["snap"][3]:
            left.add("index")
            c.bad(R_CLOSE, name, f"index:{kind}", f"background function {name} {how} without closing its connection to the index{at(st)}", fn.qual)
        if st.mon["seg"][0]:
            left.add("own")
            c.bad(R_CLOSE, name, f"own:{kind}", f"background function {name} {how} without closing the database it opened{at(st)}", fn.qual)
        if kind == "return" and (st.mon["seg"][4] == "lost" or st.mon["seg"][4] and not st.mon["seg"][0]):
            left.add("commit")
            c.bad(R_SEG, name, "uncommitted", f"background function {name} returns without committing what it wrote", fn.qual)
        if st.mon["seg"][2] > 0:
            left.add("lock")
            c.bad(R_SEG, name, f"locked:{kind}", f"background function {name} {how} holding the lock{at(st)}", fn.qual)
    if not left & {"index", "own"}:
        c.ok(R_CLOSE, name, "", f"{len(rf.outs)} outcomes")
    own = [e for e in r.of("connect") if e.d["conn"] not in index]
    if own:
        seen = set()
        for con, ev, msg in seg.bad:
            if (con, ev.site) not in seen:
                seen.add((con, ev.site))
                c.bad(R_SEG, name, con, f"background function {name}: {msg}", ev.where)
        if not seg.bad and not left & {"commit", "lock"}:
            c.ok(R_SEG, name, "", f"{len(rf.outs)} outcomes")
        submissions(c, lab, q, fn, name, own)


def temps(r):
    return {m.group(1).lower().strip('"') for e in r.of("sql") for m in [TEMP.match(text_of(e.d["sql"]))] if m}


def at(st):
    s = [x for x in (st.fault or ((), ()))[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int)]
    return f" (after {st.fault[0]} at {s[-1][0]}:{s[-1][1]})" if s else ""


def actual(lab, q, pname):
    """Values submitted for one parameter of a background function: (run, submit event, value)."""
    out = []
    fn = lab.p_fn(q)
    for r, e in lab.workers()[q]:
        if e.d["many"]:
            continue
        if pname in e.d["kw"]:
            out.append((r, e, e.d["kw"][pname]))
        elif pname in fn.posargs and fn.posargs.index(pname) < len(e.d["args"]):
            out.append((r, e, e.d["args"][fn.posargs.index(pname)]))
    return out


def lockish(v):
    return any(o.op == "mcall" and o[1] in ("Lock", "RLock", "Semaphore", "BoundedSemaphore") or
               o.op == "call" and str(o[0]).split(".")[-1] in ("Lock", "RLock") for o in options(v))


def lock_params(lab, q, fn):
    return {t("param", q, p) for p in fn.posargs if any(lockish(v) for _, _, v in actual(lab, q, p))}


def submissions(c, lab, q, fn, name, own):
    for p in fn.posargs:
        vals = actual(lab, q, p)
        locks = [(r, e, v) for r, e, v in vals if lockish(v)]
        if locks:
            bad = None
            distinct = {v for _, _, v in locks if len(options(v)) == 1}
            for r, e, v in locks:
                for m in r.of("mcall", "call"):
                    if str(m.d["name"]).split(".")[-1] in ("Lock", "RLock") and m.fn == e.fn and m.loops and m.loops == e.loops[:len(m.loops)]:
                        bad = m
            if bad is not None:
                c.bad(R_LOCK, name, "lock", "a new lock is made for every batch, so batches are not written one at a time", bad.where)
            elif len(distinct) > 1:
                c.unsure(R_LOCK, name, "lock", "different locks are submitted", locks[0][1].where)
            else:
                c.ok(R_LOCK, name, "lock", f"{len(locks)} submissions", locks[0][1].where)
        path = t("param", q, p)
        if any(mentions(e.d["conn"], path) for e in own):
            for r, e, v in vals:
                o = options(v)
                if all(any(y.op == "tempdir" for y in sub_terms(x)) for x in o):
                    c.ok(R_LOCK, name, f"path:{e.line}", "", e.where)
                elif any(any(y.op == "param" and y[-1] == "db_path" for y in sub_terms(x)) for x in o):
                    c.bad(R_LOCK, name, f"path:{e.line}", "background indexing is given the index database itself to write to", e.where)
                else:
                    c.unsure(R_LOCK, name, f"path:{e.line}", "the database written in the background is not in a temporary directory", e.where)
