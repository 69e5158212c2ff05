"""C15: the command line never discards a model or touches a non-index silently (path facts at the calls that destroy, open or write)."""
from sa.hyp import UNKNOWN, value, Unknown, consistent
from sa.interp import Monitor
from sa.lab import *
from sa.web import Cli, seq

R_KEEP = "models-are-discarded-only-after-confirmation"
R_FRESH = "a-model-is-created-only-if-there-is-none"
R_CHECK = "the-file-is-verified-to-be-an-index-before-it-is-opened"
R_REFUSE = "a-file-that-is-not-an-index-is-refused"
R_TARGET = "only-the-declared-target-is-written"


class Confirm(Monitor):
    """Has an aborting confirmation been passed (or a non-aborting one been asked)?"""
    name = "confirm"

    def init(self):
        return ()

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.d["name"] == "click.confirm":
            kw = dict(ev.d["kw"])
            ab = kw.get("abort", ev.d["args"][2] if len(ev.d["args"]) > 2 else None)
            if ab is not None and is_const(ab, True):
                st.mon[self.name] = ("yes",)
        if ev.kind == "call" and ev.d["name"] == "click.prompt":
            st.mon[self.name] = ("prompt",)


def run(c, lab):
    c.rule(R_KEEP, "where a command replaces the model, either no clusters exist, or a restart was requested and an aborting confirmation has been passed")
    c.rule(R_FRESH, "a command that creates a model has looked at the clusters that exist")
    c.rule(R_CHECK, "a command that only serves or exports an index opens it only where Index.is_index_db(path) holds")
    c.rule(R_REFUSE, "where Index.is_index_db(path) does not hold, the command ends with an error")
    c.rule(R_TARGET, "databases that are replaced and files that are written are the arguments that need not exist; inputs (exists=True) are only read")
    c.assumptions += ["click: confirm(abort=True) raises unless confirmed; Path(exists=True) marks the inputs of a command"]
    cli = Cli(lab)
    cmds = cli.commands()
    c.count("commands", len(cmds))
    eff = lab.effects()
    discard = discarding(lab, eff)
    c.require(discard, "no operation that replaces the model was found")
    for cmd in cmds:
        c.guard(R_CHECK, cmd.qual, lambda: command(c, lab, cli, cmd, eff, discard))


def discarding(lab, eff):
    """Index methods that delete the whole model (an unconditional delete of the cluster assignments)."""
    out = set()
    for n, ws in eff.items():
        if not ws or n.startswith("_"):
            continue
        r = lab.run_method(lab.index_cls, n, max_states=2)
        for e in r.of("sql"):
            s = text_of(e.d["sql"])
            if first(s) == "delete" and target_of(s) in ("cluster", "feature_cluster") and " where " not in s.lower():
                out.add(n)
    return out


def mentions_model(k):
    """Does the condition ask about the clusters that exist?"""
    return any(x.op == "attr" and "cluster" in str(x[1]) or x.op == "pcall" and "cluster" in str(x[0]).rsplit(".", 1)[-1] for x in sub_terms(k))


def model_leaf(n, pinned=0):
    def leaf(x):
        name = x[1] if x.op == "attr" else str(x[0]).rsplit(".", 1)[-1] if x.op == "pcall" else None
        if name in ("cluster_ids", "top_cluster_ids", "top_cluster_features"):
            return list(range(1, n + 1))
        if name == "pinned_cluster_ids":
            return set(range(1, pinned + 1))
        return UNKNOWN
    return leaf


MODELS = ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (64, 3), (100, 3))


def possible(facts):
    """False when no non-empty model satisfies the conditions, True when one does."""
    got = [consistent(facts, model_leaf(n, p)) for n, p in MODELS]
    return True if True in got else None if None in got else False


def command(c, lab, cli, cmd, eff, discard):
    r = cli.run_command(cmd, monitors=[Confirm()], key="c15", max_states=24)
    q = lab.index_cls.qual
    writes = set()       # terms of index paths that an editing operation of this command writes
    for e in r.of("pcall"):
        name = e.d["qual"].rsplit(".", 1)[-1]
        if e.d["qual"].startswith(q + ".") and name in discard:
            replaced(c, cmd, e, name)
    servers = {f"{k.qual}.__init__" for k in lab.p.mods["hyperreal.server"].classes.values()} if "hyperreal.server" in lab.p.mods else set()
    edits = any(e.d["qual"].startswith(q + ".") and eff.get(e.d["qual"].rsplit(".", 1)[-1]) for e in r.of("pcall"))
    checks = {}
    for e in r.of("pcall"):
        if e.d["qual"] == q + ".is_index_db":
            checks[e.d["args"].get("db_path")] = e
    for e in r.of("pcall"):
        path = None
        if e.d["qual"] == q + ".__init__":
            path = e.d["args"].get("db_path")
        elif e.d["qual"] in servers:
            path = next((v for k, v in e.d["args"].items() if k != "self"), None)
        if path is None or edits:
            continue
        opens(c, cmd, e, path, checks)
    for path in checks:
        refused(c, cmd, r, path)
    targets(c, lab, cli, cmd, r, eff)


def is_check(k):
    return [x for x in sub_terms(k) if x.op == "pcall" and str(x[0]).endswith(".is_index_db")]


def check_leaf(val):
    def leaf(x):
        if x.op == "pcall" and str(x[0]).endswith(".is_index_db"):
            return val
        return UNKNOWN
    return leaf


def opens(c, cmd, e, path, checks):
    what = "open"
    facts = {k: v for k, v in e.facts.items() if is_check(k)}
    same = {k: v for k, v in facts.items() if any(dict(x[1]).get("db_path") is path for x in is_check(k))}
    if same:
        bad = consistent(same, check_leaf(False))
        c.decide(True if bad is False else False if bad else None, R_CHECK, cmd.qual, what,
                 "" if bad is False else f"{cmd.name} opens {show(path)} where it is not an index", e.where)
    elif facts:
        c.bad(R_CHECK, cmd.qual, what, f"{cmd.name} opens {show(path)} after checking only {', '.join(sorted({show(dict(x[1]).get('db_path'), 2) for k in facts for x in is_check(k)}))}", e.where)
    else:
        odd = [k for k in e.facts if any(x is path for x in sub_terms(k)) and k.op != "cmp" and not plain(k, path)]
        c.decide(None if odd else False, R_CHECK, cmd.qual, what, f"{cmd.name} opens {show(path)} without verifying that it is an index", e.where)


def plain(k, path):
    """Does the condition only look at the name, the existence or the size of the file?"""
    def inner(x):
        return any(y is path for y in sub_terms(x))
    tops = [x for x in sub_terms(k) if x.op in ("call", "mcall", "pcall", "fcall") and inner(x)]
    return bool(tops) and all(x.op == "call" and str(x[0]) in LOOKS or x.op == "mcall" and x[1] in ("endswith", "startswith", "lower", "strip") for x in tops)


LOOKS = {f"os.path.{n}" for n in ("getsize", "exists", "isfile", "isdir", "basename", "dirname", "abspath", "realpath", "splitext", "getmtime", "islink")} | {
    "os.stat", "os.access", "str", "len", "bool"}


def refused(c, cmd, r, path):
    for kind, v, st in r.outs:
        facts = {k: x for k, x in st.facts.items() if is_check(k)}
        if not facts:
            continue
        if consistent(facts, check_leaf(True)) is False and consistent(facts, check_leaf(False)) is not False:
            ok = kind == "raise"
            c.decide(True if ok else None, R_REFUSE, cmd.qual, "refusal", "" if ok else "the command ends without an error")


def replaced(c, cmd, e, name):
    model = {k: v for k, v in e.facts.items() if mentions_model(k)}
    empty = consistent(model, model_leaf(0)) if model else None
    full = possible(model) if model else None
    what = f"{name} " + ("empty" if full is False else "existing")
    if full is False and empty is not False:
        c.ok(R_FRESH, cmd.qual, what, "reached only when there are no clusters", e.where)
        return
    confirmed = e.mon.get("confirm") == ("yes",)
    asked = [(k, v) for k, v in e.facts.items() if any(x.op == "call" and x[0] == "click.confirm" for x in sub_terms(k))]
    if asked and not confirmed:
        leaf = lambda b: (lambda x: b if x.op == "call" and x[0] == "click.confirm" else UNKNOWN)
        confirmed = any(consistent({k: v}, leaf(False)) is False for k, v in asked)
    restart = None
    for k, v in e.facts.items():
        ps = {x for x in sub_terms(k) if x.op == "param"}
        if any(x[-1] == "restart" for x in ps) and len(ps) == 1:
            off = consistent({k: v}, lambda x: False if x.op == "param" and x[-1] == "restart" else UNKNOWN)
            if off is False:
                restart = True
    if not confirmed:
        if e.mon.get("confirm") == ("prompt",) or (model and full is None):
            c.unsure(R_KEEP, cmd.qual, what, "the conditions are not understood", e.where)
            return
        c.bad(R_KEEP, cmd.qual, what, f"{cmd.name} deletes an existing model without confirmation" + (" (it never looked whether one exists)" if not model else ""), e.where)
        return
    if restart:
        on = [name for kind, name, decl, kw in cmd.params() if name == "restart" and is_const(kw.get("default", const(False))) and kw.get("default", const(False))[0]]
        if on:
            c.bad(R_KEEP, cmd.qual, what, f"{cmd.name} restarts without being asked to: the option is on by default", e.where)
            return
    c.decide(restart or False if not restart else True, R_KEEP, cmd.qual, what,
             "" if restart else f"{cmd.name} deletes an existing model although no restart was requested", e.where)


# ------------------------------------------------------------ what is written
def inputs(cmd):
    """Parameter name -> is it an input that must exist?"""
    out = {}
    for kind, name, decl, kw in cmd.params():
        ty = kw.get("type")
        if ty is not None and ty.op == "call" and ty[0].endswith("Path"):
            out[name] = is_const(dict(ty[2]).get("exists", const(False)), True)
        elif ty is not None and ty.op == "call" and ty[0].endswith("File"):
            m = ty[1][0] if ty[1] else const("r")
            out[name] = is_const(m) and not any(x in m[0] for x in "wax+")
    return out


def param_of(v):
    """The command parameters a path value is made of."""
    return {x[-1] for x in sub_terms(v) if x.op == "param"} if v is not None else set()


def targets(c, lab, cli, cmd, r, eff):
    ins = inputs(cmd)
    q = lab.index_cls.qual
    owner = {}
    indexes = set()
    for e in r.of("pcall"):
        if e.d["qual"] in (q + ".__init__", q + ".is_index_db"):
            indexes |= param_of(e.d["args"].get("db_path"))
        if e.d["qual"].endswith(".__init__"):
            s = e.d["args"].get("self")
            p = e.d["args"].get("db_path") or next((v for k, v in e.d["args"].items() if k != "self"), None)
            owner[s] = p

    def written(what, v, e, how):
        ps = param_of(v) & set(ins)
        if not ps:
            c.unsure(R_TARGET, cmd.qual, what, f"{how} {show(v, 3)[:60]}" if v is not None else how, e.where)
            return
        bad = sorted(p for p in ps if ins[p])
        c.decide(not bad, R_TARGET, cmd.qual, what, f"{cmd.name} {how} its input {', '.join(bad)}" if bad else f"{how} {', '.join(sorted(ps))}", e.where)

    modes = {}
    for e in r.of("pcall"):
        cl, _, name = e.d["qual"].rpartition(".")
        s = e.d["args"].get("self")
        if cl == q and name == "index":
            written("index", owner.get(s), e, "re-creates")
        elif name in ("replace_docs", "add_site_data", "add_docs", "replace_data") or (cl != q and s in owner and replaces(lab, cl, name)):
            written(name, owner.get(s), e, "replaces the content of")
            for k, v in e.d["args"].items():
                tgt = param_of(owner.get(s)) if owner.get(s) is not None else set()
                if k != "self" and isinstance(v, T) and v.op == "param" and v[-1] in tgt:
                    c.bad(R_TARGET, cmd.qual, name, f"{cmd.name} loads {k} from its own target", e.where)
        elif cl == q and name == "export_document_sample":
            written(name, e.d["args"].get("output_path"), e, "writes")
    for e in r.of("call"):
        n = e.d["name"]
        kw = dict(e.d["kw"])
        if n in ("open", "io.open", "codecs.open"):
            m = kw.get("mode", e.d["args"][1] if len(e.d["args"]) > 1 else const("r"))
            if is_const(m) and any(x in str(m[0]) for x in "wax+"):
                written("open", e.d["args"][0] if e.d["args"] else kw.get("file"), e, "overwrites")
            elif is_const(m):
                ps = param_of(e.d["args"][0] if e.d["args"] else kw.get("file")) & set(ins)
                if ps:
                    c.decide(all(ins[p] for p in ps), R_TARGET, cmd.qual, "read", f"{cmd.name} reads its target" if not all(ins[p] for p in ps) else "", e.where)
        elif n.split(".")[-1].startswith("write_") and len(e.d["args"]) > 1:
            written(n.split(".")[-1], e.d["args"][1], e, "overwrites")
        elif n in ("os.remove", "os.unlink", "shutil.rmtree", "os.rename", "os.replace", "shutil.move", "shutil.copy", "shutil.copyfile"):
            for i, a in enumerate(e.d["args"]):
                if n.startswith("shutil.copy") and i == 0:
                    continue
                written(n, a, e, "removes or replaces")
                held = param_of(a) & indexes
                if held and e.mon.get("confirm") != ("yes",):
                    c.bad(R_KEEP, cmd.qual, n, f"{cmd.name} removes or replaces the index file {', '.join(sorted(held))}, and the model in it, without confirmation", e.where)


def replaces(lab, cl, name):
    """Does the corpus method write its database?"""
    for k in lab.corpus_classes():
        if k.qual == cl and k.find(name) is not None and name not in ("__init__", "close", "__getstate__", "__setstate__"):
            r = lab.run_method(k, name, max_states=2)
            return any(first(text_of(e.d["sql"])) in DML + DDL for e in r.of("sql"))
    return False
