"""C25: temporary resources and read transactions are released on every exit (resource typestate over every path and every fault)."""
from sa.interp import Monitor
from sa.lab import *
from sa.txn import Txn, text_of
from sa.web import Cli

R_RES = "acquired-resources-are-released"
R_OWN = "what-the-caller-supplied-is-not-removed"
R_DET = "attached-databases-are-detached"
R_SAVE = "read-transactions-of-a-corpus-are-released"

R_LAST = "resources-last-as-long-as-what-uses-them"

REMOVERS = ("shutil.rmtree", "os.rmdir", "os.removedirs", "os.remove", "os.unlink")
HANDOVER = ("enter_context", "push", "callback", "register", "closing", "finalize", "ExitStack")
WHAT = {"tempdir": "temporary directory or file", "file": "file", "res": "helper processes"}


class Live(Monitor):
    """Resources acquired and not yet released; databases attached and not yet detached."""
    name = "live"

    def __init__(self):
        self.removed = []
        self.where = {}

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        cur = st.mon[self.name]
        new = cur
        k = ev.kind
        if k == "acquire" and isinstance(ev.d["res"], T) and ev.d["res"].op in WHAT:
            new = cur | {ev.d["res"]}
            self.where[ev.d["res"]] = ev.where
        elif k == "release":
            new = cur - {ev.d["res"]}
        elif k == "exit":
            new = cur - set(options(ev.d["cm"]))
            for x in sub_terms(ev.d["cm"]):
                if x.op == "call" and str(x[0]).endswith("closing"):
                    new = new - set(sub_terms(x))
        elif k == "setattr":
            new = cur - {x for x in sub_terms(ev.d["value"]) if x in cur}
        elif k in ("call", "mcall"):
            nm = ev.d["name"]
            args = list(ev.d["args"]) + [v for v in dict(ev.d["kw"]).values()]
            if nm in REMOVERS or k == "mcall" and nm in ("rmdir", "unlink"):
                tgt = ev.d["recv"] if k == "mcall" else args[0] if args else None
                if tgt is not None:
                    hit = {x for x in sub_terms(tgt) if x in cur}
                    if hit and nm == "shutil.rmtree":
                        new = cur - hit
                    self.removed.append((ev, tgt))
            elif nm.split(".")[-1] in HANDOVER:
                held = set()
                for a in args:
                    if isinstance(a, T):
                        held |= {x for x in sub_terms(a) if x in cur}
                        held |= {x for f in sub_terms(a) if f.op == "closure" for x in cur}
                new = cur - held
        elif k == "sqldone":
            s = text_of(ev.d["sql"])
            m = re.match(r"attach\s+(?:database\s+)?\S+\s+as\s+(\S+)", s, re.I)
            if m:
                new = cur | {("attached", m.group(1).strip('"').lower(), ev.d["conn"])}
                self.where[("attached", m.group(1).strip('"').lower(), ev.d["conn"])] = ev.where
            m = re.match(r"detach\s+(?:database\s+)?(\S+)", s, re.I)
            if m:
                new = frozenset(x for x in cur if not (isinstance(x, tuple) and x[1] == m.group(1).strip('"').lower()))
        elif k == "conn_close":
            new = frozenset(x for x in cur if not (isinstance(x, tuple) and x[2] is ev.d["conn"]))
        if new is not cur:
            st.mon[self.name] = new


def run(c, lab):
    c.rule(R_RES, "temporary directories, helper processes and files an operation acquires are released, handed to an owner or returned on every way out")
    c.rule(R_LAST, "a command releases its helper processes after the last operation that submits work to them, and after the server it started has stopped")
    c.rule(R_OWN, "nothing the caller supplied by name is deleted")
    c.rule(R_DET, "a database attached by an operation is detached on every way out")
    c.rule(R_SAVE, "a transaction a corpus method or iterator opened is closed on every way out, an iterator that is abandoned included")
    c.assumptions += ["first-fault model: one error or interrupt per call; releasing a resource does not itself fail",
                      "an iterator that is not exhausted is closed (by the interpreter when it is collected)"]
    cls = lab.index_cls
    n = 0
    for name in lab.public(cls):
        n += c.guard(R_RES, f"Index.{name}", lambda: op(c, lab, f"Index.{name}", lambda **k: lab.run_method(cls, name, **k))) or 0
    for k in lab.corpus_classes():
        for name in lab.all_methods(k):
            if name in ("__getstate__", "__setstate__", "close"):
                continue
            c.guard(R_SAVE, f"{k.name}.{name}", lambda: corpus(c, lab, k, name))
            n += c.guard(R_RES, f"{k.name}.{name}", lambda: op(c, lab, f"{k.name}.{name}", lambda **kw: lab.run_method(k, name, **kw))) or 0
    cli = Cli(lab)
    for cmd in cli.commands():
        n += c.guard(R_RES, cmd.qual, lambda: op(c, lab, cmd.qual, lambda **k: cli.run_command(cmd, **k))) or 0
        c.guard(R_LAST, cmd.qual, lambda: lasting(c, lab, cli, cmd))
    for q in lab.workers():
        n += c.guard(R_RES, q, lambda: op(c, lab, q.split(".")[-1], lambda **k: lab.run_worker(q, **k))) or 0
    for mod in ("hyperreal.utilities", "hyperreal.db_utilities"):
        m = lab.p.mods.get(mod)
        for f in (m.funcs.values() if m else ()):
            n += c.guard(R_RES, f.qual, lambda: op(c, lab, f.qual, lambda **k: lab.run_func(f, **k))) or 0
    c.count("operations_with_resources", n)


class Use(Monitor):
    """Which helper processes were released, and which serve a server that is still running."""
    name = "use"

    def __init__(self, lab):
        self.lab, self.found, self.holder, self.good = lab, [], {}, []

    def init(self):
        return frozenset()

    def held(self, args):
        out = set()
        for a in args:
            for x in (a.args if isinstance(a, T) and a.op in ("list", "tuple") else (a,)):
                if isinstance(x, T):
                    for o in options(x):
                        out |= self.holder.get(o, set()) | ({o} if o.op == "res" else set())
        return out

    def submits(self, qual):
        cl, _, name = qual.rpartition(".")
        if cl.startswith("hyperreal.server"):
            return False
        if cl != self.lab.index_cls.qual or self.lab.index_cls.find(name) is None or name in ("__init__", "close"):
            return False
        return bool(self.lab.run_method(self.lab.index_cls, name, max_states=2).of("submit"))

    def event(self, ev, st, ip):
        cur = st.mon[self.name]
        new = cur
        if ev.kind == "pcall":
            args = [v for v in ev.d["args"].values() if isinstance(v, T)]
            got = self.held(args)
            if ev.d["qual"].endswith(".__init__") and got:
                s = ev.d["args"].get("self")
                if s is not None:
                    self.holder.setdefault(s, set()).update(got)
            elif got:
                short = ev.d["qual"].rpartition(".")[2]
                server = ev.d["qual"].startswith("hyperreal.server.") and any(o.op == "obj" and o[0].startswith("hyperreal.server.") for a in args for o in options(a))
                late = {x for x in got if ("released", x) in cur}
                if late and (server or self.submits(ev.d["qual"])):
                    self.found.append((f"{short} is called after the helper processes it works with were released", short, ev.where))
                elif server:
                    new = new | {("running", x) for x in got}
                self.good.append(ev.where)
        elif ev.kind == "mcall" and ev.d["name"] in ("block", "wait", "exit", "stop"):
            new = frozenset(x for x in cur if x[0] != "running")
        elif ev.kind in ("release", "exit"):
            gone = {x for x in options(ev.d["res"] if ev.kind == "release" else ev.d["cm"]) if x.op == "res"}
            if any(("running", x) in cur for x in gone):
                self.found.append(("the helper processes are released while the server started with them is still running", "running", ev.where))
            new = new | {("released", x) for x in gone}
        if new is not cur:
            st.mon[self.name] = new


def lasting(c, lab, cli, cmd):
    m = Use(lab)
    cli.run_command(cmd, monitors=[m], max_states=4)
    for msg, con, where in m.found:
        c.bad(R_LAST, cmd.qual, con, f"{cmd.name}: {msg}", where)
    if m.good and not m.found:
        c.ok(R_LAST, cmd.qual, "", f"{len(set(m.good))} uses")


def op(c, lab, name, go):
    plain = go(max_states=2)
    acq = [e for e in plain.of("acquire") if e.d["res"].op in WHAT]
    att = [e for e in plain.of("sql") if first(text_of(e.d["sql"])) == "attach"]
    rem = [e for e in plain.of("call", "mcall") if e.d["name"] in REMOVERS or e.kind == "mcall" and e.d["name"] in ("rmdir", "unlink")]
    if not (acq or att or rem):
        return 0
    mon = Live()
    states = 2 if len(plain.events) > 1500 else 4
    r = go(faults=True, monitors=[mon], max_states=states, key="c25")
    bad = set()
    for kind, v, st in r.outs:
        live = st.mon["live"]
        if kind == "return" and isinstance(v, T):
            live = live - set(sub_terms(v))
        for x in live:
            if isinstance(x, tuple):
                rule, what, con = R_DET, f"the database attached as {x[1]} attached", x[1]
            else:
                rule, what, con = R_RES, f"the {WHAT[x.op]} unreleased", f"{x.op}:{where_of(mon, x)}"
            if kind == "raise" and isinstance(v, T) and v.op == "exc" and v[0] == "UnboundLocalError" and st.fault:
                # acquiring another resource failed and its clean-up trips over the missing name
                c.unsure(rule, name, con, f"{what} when acquiring another resource fails{site(st.fault)}", mon.where.get(x, ""))
                continue
            bad.add(rule)
            how = "ends with an error" if kind == "raise" else "returns"
            c.bad(rule, name, f"{con}:{kind}:{'fault' if st.fault else 'plain'}", f"{name} {how} leaving {what}{site(st.fault)}", mon.where.get(x, ""))
    if acq and R_RES not in bad:
        c.ok(R_RES, name, "", f"{len(acq)} resources, {len(r.outs)} outcomes")
    if att and R_DET not in bad:
        c.ok(R_DET, name, "", f"{len(att)} attached, {len(r.outs)} outcomes")
    for ev, tgt in mon.removed:
        opts = options(tgt)
        mine = [x for x in opts if any(y.op in ("tempdir",) for y in sub_terms(x))]
        theirs = [x for x in opts if x not in mine and any(y.op == "param" for y in sub_terms(x))]
        exact = [x for x in theirs if bare(x).op == "param"]
        con = ev.d["name"]
        if exact and not mine:
            c.bad(R_OWN, name, con, f"{name} removes {bare(exact[0])[1]}, which the caller supplied", ev.where)
        elif theirs and ev.d["name"] in ("shutil.rmtree", "os.removedirs"):
            c.unsure(R_OWN, name, con, "removes something below a path of the caller", ev.where)
        elif theirs and mine:
            c.unsure(R_OWN, name, con, "may remove what the caller supplied", ev.where)
        else:
            c.ok(R_OWN, name, con, "", ev.where)
    if not mon.removed:
        c.ok(R_OWN, name, "", "nothing is deleted by name")
    return 1


def bare(x):
    while x.op in ("call", "mcall", "new") and any(isinstance(a, T) for a in sub_args(x)):
        if x.op == "call" and str(x[0]).split(".")[-1] in ("str", "Path", "abspath", "realpath", "fspath") and len(x[1]) == 1:
            x = x[1][0]
        elif x.op == "mcall" and x[1] in ("absolute", "resolve") and not x[2]:
            x = x[0]
        else:
            break
    return x


def sub_args(x):
    return [y for a in x.args for y in (a if isinstance(a, tuple) else (a,))]


def where_of(mon, x):
    w = mon.where.get(x, "")
    return w.split(" in ")[-1] if " in " in w else w


def site(fault):
    s = [x for x in (fault or ((), ()))[1] if isinstance(x, tuple) and len(x) >= 4 and isinstance(x[1], int)]
    return f" (after {fault[0]} at {s[-1][0]}:{s[-1][1]})" if s else ""


def corpus(c, lab, cls, name):
    plain = lab.run_method(cls, name, max_states=2)
    if not any(e.d["word"] in ("savepoint", "begin") for e in plain.of("sql")):
        return
    mon = Txn(lambda conn: True)
    r = lab.run_method(cls, name, faults=True, monitors=[mon], max_states=4, key="c25s")
    fn = f"{cls.name}.{name}"
    bad = False
    for rule, ev, msg in mon.problems:
        if rule in ("unbounded", "nested-begin"):
            bad = True
            c.bad(R_SAVE, fn, rule, f"{fn}: {msg}", ev.where)
    for kind, v, st in r.outs:
        stack = st.mon["txn"][0]
        if stack and not ends(r, st.fault):
            bad = True
            c.bad(R_SAVE, fn, f"{kind}:{'fault' if st.fault else 'plain'}",
                  f"{fn} {'ends with an error' if kind == 'raise' else 'ends'} with {', '.join(x[0] for x in stack)} open{site(st.fault)}", fn)
    if not bad:
        c.ok(R_SAVE, fn, "", f"{len(r.outs)} outcomes")


def ends(r, fault):
    """Is the failing statement the one that ends the transaction?"""
    return fault is not None and any(e.d["word"] in ("commit", "end", "release", "rollback") for e in r.of("sql") if e.site == fault[1][-len(e.site):])
