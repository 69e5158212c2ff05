"""C01: every model edit is all-or-nothing (transaction typestate over every path and every fault)."""
from sa.lab import *
from sa.txn import Txn, text_of, stmt_label

R_OPEN = "no-transaction-left-open"
R_PART = "no-partial-commit"
R_SWAL = "errors-reach-the-caller"
R_IN = "writes-inside-a-transaction"
R_CNT = "nesting-counter-balanced"
R_ONE = "one-commit-per-edit"

SKIP = ("__init__", "__setstate__", "__getstate__", "__enter__", "__exit__", "close", "pool", "is_index_db", "index")


def run(c, lab):
    c.rule(R_OPEN, "on every way out of a public operation, exactly the transactions open at its start are open again")
    c.rule(R_PART, "when an operation ends with an error, nothing it wrote has been committed or is left in the caller's transaction")
    c.rule(R_SWAL, "an error or interrupt inside an editing operation is not turned into a normal return")
    c.rule(R_IN, "every write of an operation happens inside an explicit transaction or savepoint")
    c.rule(R_CNT, "integer state of the index object (the nesting counter) is the same after a call as before it")
    c.rule(R_ONE, "no statement commits the transaction of an operation implicitly half way")
    c.assumptions += [
        "first-fault model: one error or interrupt per call, surfacing at statements that run SQL, submit or collect background work, "
        "iterate lazily or call unknown code; transaction control statements of the error path do not fail themselves",
        "a faulting statement may have executed in part (writes are taken to have happened)",
    ]
    cls = lab.index_cls
    names = [n for n in lab.public(cls) if n not in SKIP]
    writers = 0
    for name in names:
        for entry in ((), (("begin", False),)):
            label = name if not entry else name + " (nested)"
            r = c.guard(R_OPEN, f"Index.{name}", lambda: analyse(c, lab, cls, name, entry))
            if r:
                writers += 1
    c.count("entries", len(names))
    c.count("editing_entries", writers // 2)
    # the well known editing operations must be seen to write: otherwise the analysis lost its subject
    c.require(writers >= 2, "no editing operation of Index was found to write to its database")


def analyse(c, lab, cls, name, entry):
    main = []

    def conn_of(conn):
        return conn in main

    mon = Txn(conn_of, entry)
    ints = {}

    def prep(ip, obj, st):
        for k, v in st.env.items():
            if k[0] == "@" and k[1] is obj:
                if v.op == "conn":
                    main.append(v)
                if is_const(v) and type(v[0]) is int:
                    ints[k] = v
        return st

    big = name in ("refine_clusters",)
    r = lab.run_method(cls, name, faults=True, monitors=[mon], max_states=2 if big else 4, prep=prep, key=("c01", entry))
    if not main:
        raise AnalysisError("the index object holds no database connection")
    fn = f"Index.{name}"
    how = "nested" if entry else "outermost"
    writes = bool(mon.writes)
    c.count("paths", len(r.outs))
    c.count("sql_events", len(r.of("sql")))
    for rule, ev, msg in mon.problems:
        lab_ = stmt_label(text_of(ev.d["sql"])) if "sql" in ev.d else ev.kind
        rr = {"write-outside": R_IN, "implicit-commit": R_ONE, "nested-begin": R_OPEN, "unbounded": R_OPEN}[rule]
        if rule == "nested-begin" and entry:
            continue
        c.bad(rr, ev.fn, lab_, f"{fn} ({how}): {msg}", ev.where)
    bad = False
    for kind, v, st in r.outs:
        stack, dirty, durable = st.mon["txn"]
        fault = st.fault
        site = fault_site(fault)
        if tuple(x[0] for x in stack) != tuple(x[0] for x in entry):
            c.bad(R_OPEN, fn, f"{how}:{kind}:{'fault' if fault else 'plain'}",
                  f"{fn} ({how}) {'ends with an error' if kind == 'raise' else 'returns'} with open transactions "
                  f"{[x[0] for x in stack]} instead of {[x[0] for x in entry]}{site}", fn, path_of(r, fault))
            bad = True
        if kind == "raise" and (durable or (entry and dirty)):
            c.bad(R_PART, fn, f"{how}:{'fault' if fault else 'plain'}",
                  f"{fn} ({how}) ends with an error after {'committing' if durable else 'keeping'} part of its writes{site}", fn,
                  path_of(r, fault))
            bad = True
        if kind == "return" and fault is not None and len(fault) < 3 and writes and fault[0] != "Exception?":
            c.bad(R_SWAL, fn, how, f"{fn} ({how}) returns normally after {fault[0]}{site}", fn, path_of(r, fault))
            bad = True
        for k, v0 in ints.items():
            v1 = st.env.get(k)
            if v1 is not None and is_const(v1) and type(v1[0]) is int and v1[0] != v0[0]:
                c.bad(R_CNT, fn, f"{k[2]}:{kind}", f"{fn} ({how}): {k[2]} is {v1[0]} after the call, {v0[0]} before{site}", fn,
                      path_of(r, fault))
                bad = True
    if not bad:
        for rule in (R_OPEN, R_CNT) + ((R_PART, R_SWAL, R_IN, R_ONE) if writes else ()):
            c.ok(rule, fn, how, f"{len(r.outs)} outcomes, {len(mon.writes)} writing statements")
    return writes


def fault_site(fault):
    if not fault:
        return ""
    s = [x for x in fault[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int)]
    return f" (after {fault[0]} at {s[-1][0]}:{s[-1][1]})" if s else f" (after {fault[0]})"


def path_of(r, fault):
    if not fault:
        return ()
    return tuple(f"{x[0]}:{x[1]}" for x in fault[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int))
