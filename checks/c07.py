"""C07: no failure of a background task is lost (typestate of futures over every path and every fault)."""
from sa.interp import Monitor
from sa.lab import *
from sa.rel import Query, cursor_of
from sa.sql import SqlError
from sa.terms import NONE

R_COL = "every-task-collected"
R_KEEP = "outstanding-tasks-stay-referenced"
R_ERR = "task-errors-reach-the-caller"
R_WORK = "tasks-do-not-hide-errors"
R_EXC = "fetched-errors-are-raised"

WRAP = ("list", "tuple", "set", "frozenset", "sorted", "reversed", "enumerate", "iter", "zip", "itertools.chain",
        "collections.deque", "map", "itertools.chain.from_iterable")
TIMEOUTS = ("TimeoutError", "concurrent.futures.TimeoutError", "cf.TimeoutError")


def tok(y):
    """A task is identified by its submission site and call path."""
    return t(y.op, y.args[-1])


def closure(ip, x, st, seen=None):
    """Tasks (and the two halves of a partial wait) a value holds."""
    out = set()
    stack = [x]
    seen = set() if seen is None else seen
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, T) or y.n in seen:
            continue
        seen.add(y.n)
        if y.op in ("future", "poolmap", "waitdone", "waitrest"):
            out.add(tok(y))
            continue
        if y.op == "mu":
            d = ip.mus.get(y)
            if d:
                stack.append(d["init"])
                stack.append(d["init_content"])
                for one in d.get("inits", ()):
                    stack.extend(one)
                for b in d["backs"]:
                    stack.append(b[0])
                    stack.append(b[1])
            c = ip.content(y, st) if st is not None else y
            if c is not y:
                stack.append(c)
            continue
        if y.op == "cell":
            c = ip.content(y, st) if st is not None else ip.shape(y, None)
            if c is not y:
                stack.append(c)
            continue
        if y.op == "upd":
            stack.extend((y[1], y[2]))
            continue
        if y.op in ("list", "set", "tuple", "dict", "kwdict", "phi", "star", "kw"):
            stack.extend(y.args)
            continue
        if y.op == "comp":
            if not y.args[-2]:
                stack.extend(y.args[1:-2])
            continue
        if y.op == "dictcomp":
            if not y.args[-2]:
                stack.extend(y.args[1:-2])
            continue
        if y.op == "call" and (y[0] in WRAP):
            stack.extend(y[1])
            continue
        if y.op == "bin" and y[0] in ("+", "|"):
            stack.extend(y.args[1:])
            continue
        if y.op == "completed":
            stack.append(y[0])
            continue
        if y.op == "mcall" and y[1] in ("copy", "keys", "values", "items", "union"):
            stack.append(y[0])
            stack.append(y[2])
            continue
        if y.op == "elem" and y.args:
            continue
    return out


class Futures(Monitor):
    """State: frozenset of ('f', task) outstanding, ('it', loop) element not collected yet, ('skip', loop)."""
    name = "fut"

    def __init__(self):
        self.touched = set()      # terms results were taken from
        self.problems = []
        self.tasks = {}
        self.partial = []
        self.taken = set()        # (container, content) whose removed elements are collected
        self.removed = set()      # tasks in containers something is taken out of

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        cur = st.mon[self.name]
        k = ev.kind
        if k == "submitted":
            self.tasks.setdefault(tok(ev.d["future"]), ev)
            cur = cur | {("f", tok(ev.d["future"]))}
        elif k == "wait":
            has = {x[1] for x in cur if x[0] == "f"} & closure(ip, ev.d["content"], st)
            mode = ev.d["kw"].get("return_when", ev.d["args"][2] if len(ev.d["args"]) > 2 else const("ALL_COMPLETED"))
            src = ev.d["content"]
            site = ("@",) + ev.site
            cur = frozenset(x for x in cur if not (x[0] == "f" and x[1] in has))
            if has or True:
                wd, wr = tok(t("waitdone", src, mode, site)), tok(t("waitrest", src, mode, site))
                self.tasks.setdefault(wd, ev)
                self.tasks.setdefault(wr, ev)
                cur = cur | {("f", wd)}
                allc = is_const(mode) and mode[0] == "ALL_COMPLETED" or mode.op in ("ext", "attr") and str(mode.args[-1]).endswith("ALL_COMPLETED")
                if not allc or "timeout" in ev.d["kw"] or len(ev.d["args"]) > 1:
                    cur = cur | {("f", wr)}
        elif k == "iter":
            held = closure(ip, ev.d["iter"], st)
            if held or any(y.op == "completed" for y in sub_terms(ev.d["iter"])):
                lid = ev.d["loop"]
                if ("it", lid) in cur:
                    cur = (cur - {("it", lid)}) | {("skip", lid)}
                if not any(y.op == "poolmap" for y in held):
                    cur = cur | {("it", lid)}
                self.elems = getattr(self, "elems", {})
                e = ev.d["elem"]
                for p in (e.args if e.op == "tuple" else (e,)):
                    self.elems.setdefault(p, set()).add(lid)
        elif k == "endloop":
            held = closure(ip, ev.d["iter"], st)
            lid = ev.d["loop"]
            if held:
                if ("it", lid) in cur or ("skip", lid) in cur:
                    cur = cur - {("it", lid), ("skip", lid)}
                    self.partial.append((ev, held))
                else:
                    cur = frozenset(x for x in cur if not (x[0] == "f" and x[1] in held))
            else:
                cur = cur - {("it", lid), ("skip", lid)}
        elif k == "result":
            f = ev.d["future"]
            self.touched.add(f)
            for y in sub_terms(f):
                if y.op == "popped":
                    self.taken.add((y[0], ip.content(y[0], st)))
            for lid in getattr(self, "elems", {}).get(f, ()):
                cur = cur - {("it", lid)}
            cur = cur - {("f", tok(f))} if f.op == "future" else cur
        elif k == "mutate":
            if ev.d["op"] in ("pop", "remove", "discard", "clear", "delitem", "minus", "inter", "xor", "popitem"):
                self.removed.add((ev.d["ref"], ev.d["old"]))
            return
        elif k == "futop":
            self.touched.add(ev.d["future"])
        else:
            return
        st.mon[self.name] = frozenset(cur)


def run(c, lab):
    c.rule(R_COL, "every task handed to a pool has its outcome collected on every path to a normal return (complete loop over the tasks)")
    c.rule(R_KEEP, "a container of outstanding tasks is not replaced or emptied before they are collected")
    c.rule(R_ERR, "no path turns a failed task into a normal return")
    c.rule(R_WORK, "no background function turns an error of its own work into a normal return")
    c.rule(R_EXC, "an error fetched with exception() is raised")
    c.assumptions += ["a task is identified by its submission site; futures returned lazily to the caller are collected when the result is consumed",
                      "iterating Executor.map, or calling result(), raises the error of the task (concurrent.futures contract)"]
    cls = lab.index_cls
    # every public entry and every private method that itself submits
    names = lab.public(cls) + [n for n in lab.methods(cls) if n.startswith("_") and not n.startswith("__")]
    done = 0
    for n in names:
        r = c.guard(R_COL, f"Index.{n}", lambda: analyse(c, lab, cls, n, False))
        if r:
            done += 1
            c.guard(R_ERR, f"Index.{n}", lambda: analyse(c, lab, cls, n, True))
    for q in lab.workers():
        c.guard(R_WORK, q, lambda: worker(c, lab, q))
    c.count("operations_that_submit", done)
    c.require(done >= 1, "no operation was found that hands work to a pool")


def analyse(c, lab, cls, name, faults):
    mon = Futures()
    big = name in ("refine_clusters", "_refine_feature_groups", "_find_best_moves")
    r = lab.run_method(cls, name, faults=faults, monitors=[mon], max_states=2 if big or faults else 4, key=("c07",))
    ip = r.ip
    subs = r.of("submitted")
    if not subs:
        return 0
    fn = f"Index.{name}"
    c.count("submissions", len({e.site for e in subs}))
    c.count("paths", len(r.outs))
    rsites = {}
    for e in r.of("result", "iter"):
        rsites.setdefault(tuple(e.site), e)
    bad = set()
    soft = False
    if faults:
        for kind, v, st in r.outs:
            if kind != "return" or st.fault is None:
                continue
            ev = site_event(r, st.fault)
            if ev is None:
                continue
            hs = [e for e in r.of("handled") if e.fault and e.fault[1] == st.fault[1]]
            types = sorted({str(e.d.get("handler") or "") for e in hs})
            again = [e for e in r.of("submit") if e.fault is not None and e.fault[1] == st.fault[1]]
            if len(st.fault) > 2 and hs and all(only_timeouts(e) for e in hs):
                continue
            if again:
                c.unsure(R_ERR, fn, ev.fn, "the task is handed out again after the error", ev.where)
                continue
            c.bad(R_ERR, ev.fn, "swallowed", f"{fn} returns normally although a background task failed (its error surfaces at {ev.where})", ev.where)
            bad.add(R_ERR)
        if R_ERR not in bad:
            c.ok(R_ERR, fn, "faults", f"{len(r.outs)} outcomes")
    # outstanding at a normal return
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        left = outstanding(ip, mon, st)
        held = closure(ip, v, st)
        for f in left:
            ev = mon.tasks[f]
            if f in held:
                soft = True
                c.unsure(R_COL, fn, ev.fn, "tasks are returned to the caller", ev.where)
            elif f.op == "waitrest" and not matters(f, mon, left, subs):
                continue
            elif related(ip, f, mon, st):
                soft = True
                c.unsure(R_COL, fn, ev.fn, "outcomes are collected in a way the analysis does not follow", ev.where)
            else:
                what = {"waitdone": "completed tasks of a wait", "waitrest": "tasks left over by a wait"}.get(f.op, "a submitted task")
                tail = " after an error was caught" if st.fault is not None else ""
                c.bad(R_COL, ev.fn, f.op, f"{fn} returns normally without collecting the outcome of {what} ({ev.where}){tail}", ev.where)
                bad.add(R_COL)
    # dropped on a back edge
    loops = {}
    for m, d in ip.mus.items():
        loops.setdefault(d["loop"], []).append((m, d))
    for lid, ms in loops.items():
        n = max((len(d["backs"]) for _, d in ms), default=0)
        for i in range(n):
            col = [(m, d, d["backs"][i]) for m, d in ms if len(d["backs"]) == n]
            if not col:
                continue
            toks = {x[1] for x in dict(col[0][2][3]).get("fut", ()) if x[0] == "f"}
            for tk in toks:
                holders = [(m, d) for m, d, b in col if tk in closure(ip, m, None)]
                if not holders:
                    continue
                if any(tk in closure(ip, (b[0], b[1]), None) for m, d, b in col):
                    continue
                if tk.op == "waitrest" and not matters(tk, mon, toks, subs):
                    continue
                ev = mon.tasks[tk]
                c.bad(R_KEEP, ev.fn, tk.op, f"{fn}: {show(holders[0][0], 2)} stops referring to tasks whose outcome has not been collected ({ev.where})", ev.where)
                bad.add(R_KEEP)
    for e in r.of("mutate"):
        if e.d["op"] == "clear":
            lost = closure(ip, e.d["old"], None) & {x[1] for x in dict(e.mon).get("fut", ()) if x[0] == "f"}
            if lost:
                c.bad(R_KEEP, e.fn, "clear", f"{fn}: a container is emptied while its tasks have not been collected", e.where)
                bad.add(R_KEEP)
    for e in overwritten(r, lab):
        c.bad(R_KEEP, e.fn, "key", f"{fn}: tasks are stored under a key several of them share: only the last one's outcome is collected", e.where)
        bad.add(R_KEEP)
    ex = [e for e in r.of("result") if e.d["how"] == "exception"]
    for e in ex:
        term = t("result", e.d["future"])
        used = [x for x in r.of("raise") if any(y is term for y in sub_terms(x.d.get("exc") or NONE)) or
                any(any(y is term for y in sub_terms(k)) for k in x.facts)] if True else []
        if used:
            c.ok(R_EXC, e.fn, "exception()")
        else:
            c.bad(R_EXC, e.fn, "exception()", f"{fn}: the error fetched with exception() is never raised", e.where)
    if not bad and not soft:
        c.ok(R_COL, fn, "faults" if faults else "paths", f"{len(r.outs)} outcomes, {len(subs)} submissions")
        c.ok(R_KEEP, fn, "faults" if faults else "paths")
    return len(subs)


def overwritten(r, lab):
    """Tasks stored in a mapping under a key that is the same for several turns of a loop."""
    elems = {}
    for e in r.of("iter"):
        x = e.d["elem"]
        if isinstance(x, T):
            elems.setdefault(e.d["loop"], set()).update({x, *(x.args if x.op == "tuple" else ())})
    for e in r.of("mutate"):
        if e.d["op"] != "setitem" or len(e.d["args"]) < 2 or not any(y.op == "future" for o in options(e.d["args"][1]) for y in ((o,) + (o.args if o.op in ("tuple", "list") else ()))
                                                                     if isinstance(y, T)):
            continue
        key, old = e.d["args"][0], e.d["old"]
        if any(y.op in ("future", "call", "mcall") for y in plain(key)):
            continue
        across = set()      # loops the mapping outlives
        while isinstance(old, T) and old.op == "mu" and r.ip.mus.get(old):
            d = r.ip.mus[old]
            across.add(d["loop"])
            old = d.get("init_content") if d.get("init_content") is not None else d["init"]
        subs = set(plain(key))

        def turns(l):
            return bool(elems.get(l, set()) & subs) or any(y.op in ("idx", "elem", "mu") and (y.args[-1] == l or y.op == "mu" and r.ip.mus.get(y, {}).get("loop") == l) for y in subs)
        if e.loops and e.loops[-1] in across and elems.get(e.loops[-1]) and not turns(e.loops[-1]) and \
                (is_const(key) or any(turns(l) for l in e.loops[:-1]) or key.op == "param"):
            yield e
        elif len(e.loops) > 1 and turns(e.loops[-1]) and any(l in across and elems.get(l) and not turns(l) for l in e.loops[:-1]):
            cols = [y for y in subs if y.op in ("col", "item") and isinstance(y[0], T) and y[0].op == "row"]
            if cols and all(repeats(lab, y) for y in cols):
                yield e


def plain(x):
    """The parts of a key, without what its rows were looked up with."""
    out = [x]
    if isinstance(x, T) and x.op not in ("row", "cell"):
        for a in x.args:
            for b in (a if isinstance(a, tuple) else (a,)):
                if isinstance(b, T):
                    out += plain(b)
    return out


def repeats(lab, y):
    """Can this column have the same value in rows of several runs of its query?"""
    s = cursor_of(y[0][0])
    i = y[1][0] if isinstance(y[1], T) and is_const(y[1]) else y[1]
    if s is None or not isinstance(i, int):
        return False
    try:
        q = Query(lab.catalogue("index"), s[0])
    except SqlError:
        return False
    names = q.column(i) or set()
    return bool(names) and bool(q.params) and all([col] not in [list(k) for k in lab.catalogue("index").unique_keys(tb)] for tb, col in names)


def worker(c, lab, q):
    r = lab.run_worker(q, faults=True, max_states=2)
    for kind, v, st in r.outs:
        if kind == "return" and st.fault is not None and len(st.fault) == 2:
            site = [x for x in st.fault[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int) and x[1]]
            w = f"{site[-1][0]}:{site[-1][1]}" if site else ""
            c.bad(R_WORK, q, "swallowed", f"the background task {q.split('.')[-1]} returns normally after an error at {w}", w)
            return
    c.ok(R_WORK, q, "faults", f"{len(r.outs)} outcomes")


def matters(f, mon, left, subs):
    """A wait that leaves nothing over when nothing was put in."""
    return bool(subs)


def outstanding(ip, mon, st, items=None, facts=None):
    """Tasks not collected yet, without those of a container known to be empty whose elements were taken out and collected."""
    left = {x[1] for x in (st.mon["fut"] if items is None else items) if x[0] == "f"}
    if not left:
        return left
    gone = set()
    for k, val in (st.facts if facts is None else facts).items():
        if k.op == "truth" and val is False:
            gone |= closure(ip, k[0], st) & left
        elif k.op == "cmp" and k[0] == "==" and val is True and is_const(k[2], 0) and k[1].op == "call" and k[1][0] == "len":
            gone |= closure(ip, k[1][1], st) & left
    if not gone:
        return left
    taken = closure(ip, tuple(mon.taken), None)
    removed = closure(ip, tuple(mon.removed), None)
    return {f for f in left if not (f in gone and (f in taken or f not in removed))}


def related(ip, f, mon, st):
    """Is an outcome taken from something that contains the task, but not in a recognised way?"""
    for x in mon.touched:
        for y in sub_terms(x):
            if y.op in ("item", "popped", "mcall", "fcall") and y.args:
                if y.op == "item" and slice_of(y[1]):
                    continue
                if f in closure(ip, y.args, st):
                    return True
    return False


def slice_of(i):
    return isinstance(i, T) and (i.op == "slice" or (i.op == "call" and i[0] == "slice"))


def only_timeouts(e):
    names = e.d.get("handler") or ()
    return bool(names) and all(str(n).split(".")[-1] == "TimeoutError" for n in names)


def site_event(r, fault):
    """The collecting event a fault surfaced at."""
    fs = tuple(x for x in fault[1] if x != "@" and x != "loop")
    for e in r.of("result"):
        if tuple(e.site) == fs:
            return e
    for e in r.of("iter"):
        if e.d["loop"] == fault[1] and any(y.op == "poolmap" for y in sub_terms(e.d["iter"])):
            return e
    return None
