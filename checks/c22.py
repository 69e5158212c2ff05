"""C22: every option accepted by the command line or web pages takes effect (constant tracers followed to the engine parameters)."""
import ast
import re

from sa.entry import entry_frame, run_function, ENTRY_NODE
from sa.hyp import consistent, UNKNOWN
from sa.lab import *
from sa.interp import Interp, State
from sa.model import AnalysisError
from sa.rel import Query, argument
from sa.sql import SqlError
from sa.templ import Templates, HOLE
from sa.web import Web, Cli, peel, index_calls, is_req_index, expand, REQ, IDX, class_values, seq

R_USED = "no-option-is-dropped"
R_FLOW = "options-reach-the-parameter-they-stand-for"
R_TYPE = "options-arrive-with-the-right-type"
R_NARROW = "selected-features-and-clusters-narrow-every-result"
R_PRES = "each-presentation-is-produced-and-shown"
R_FORM = "forms-and-links-match-the-pages-they-address"
R_LIST = "a-field-sent-several-times-is-the-list-of-its-values"
R_BOUND = "a-searched-value-is-compared-with-the-column-it-names"
R_UNSET = "an-option-that-is-not-given-changes-nothing"
R_WIRE = "served-indexes-are-opened-as-configured"

INTS = [31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]

# engine parameter -> names of the options and form fields that stand for it
MEANS = {
    "n_clusters": ("clusters", "n_clusters"), "include_fields": ("include_fields", "include_field"),
    "cluster_ids": ("cluster_ids", "cluster_id"), "feature_ids": ("feature_ids", "feature_id"),
    "cluster_id": ("cluster_id", "filter_cluster_id"), "feature_id": ("feature_id",),
    "key": ("feature_id",), "top_k": ("top_k_features", "top_k"), "random_sample_size": ("exemplar_docs", "random_sample_size"),
    "output_path": ("output_file", "output_path"), "index_path": ("index_db", "index_path"),
}
# parameters that select what is worked on: required only where the model is edited
SELECT = ("cluster_ids", "feature_ids", "cluster_id", "feature_id", "key")
# an option that also sets this parameter, unless it was already passed to another one on the way
WEAK = {"target_clusters": ("clusters",)}
PRODUCERS = {"concordance": "concordances", "passage": "render_passages_table", "document": "render_docs_html"}


def run(c, lab):
    c.rule(R_USED, "every option, argument and form field influences a call or a decision")
    c.rule(R_FLOW, "a distinct constant given for an option arrives unchanged at the engine parameter of that meaning, at every call of that operation, and at no other")
    c.rule(R_TYPE, "what arrives has the type the engine parameter expects")
    c.rule(R_NARROW, "a feature or cluster selected on a page restricts the query of every result shown")
    c.rule(R_PRES, "for each presentation, the page calls the operation that produces it, hands its result and name to the template, and the template lays it out")
    c.rule(R_FORM, "the fields of every form and the parameters of every link are parameters of the page they address, and carry the value of that kind")
    c.rule(R_LIST, "the request tools that turn a field into a list yield every value sent for it, converted, in order: none, one or several")
    c.rule(R_BOUND, "the field and the value a page searches for arrive, as they were sent, at the columns of that name")
    c.rule(R_UNSET, "an option without a default that is not given leaves the engine parameter it stands for at its own default, unless the same value was used to create the model first")
    c.rule(R_WIRE, "the server opens the configured path with the configured corpus and pool; the commands of one corpus type use one corpus class")
    c.assumptions += ["click passes an option to the parameter of its name with the declared type; cherrypy passes form fields by name, as text"]
    cli, w = Cli(lab), Web(lab)
    cmds, hs = cli.commands(), w.handlers()
    c.count("commands", len(cmds))
    c.count("handlers", len(hs))
    for cmd in cmds:
        c.guard(R_FLOW, cmd.qual, lambda: command(c, lab, cli, cmd))
    c.guard(R_WIRE, "commands", lambda: groups(c, lab, cli, cmds))
    eff = lab.effects()
    c.guard(R_LIST, "tools", lambda: listed(c, lab, w, hs))
    for h in hs:
        c.guard(R_FLOW, h.qual, lambda: handler(c, lab, w, h, eff))
        c.guard(R_PRES, h.qual, lambda: presentations(c, lab, w, h))
    c.guard(R_WIRE, "server", lambda: server(c, lab, w))
    c.guard(R_FORM, "redirects", lambda: redirects(c, lab, w, {path: cls for cls, path, e in w.mounts() if cls is not None}, hs))
    tp = c.guard(R_FORM, "templates", lambda: Templates(lab.p))
    if tp is not None:
        c.guard(R_FORM, "templates", lambda: forms(c, lab, w, tp))
        c.guard(R_PRES, "templates", lambda: layouts(c, lab, w, tp))


# ------------------------------------------------------------ engine parameters
def means(p):
    return MEANS.get(p, (p,))


def candidates(p, opts):
    """Options of this command or page that stand for engine parameter p."""
    got = [o for o in means(p) if o in opts]
    return [p] if p in got and p != "cluster_id" else got


def known_meanings():
    out = set()
    for p, os in MEANS.items():
        out |= set(os)
    return out


def default_of(f, p):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(reversed(pos), reversed(a.defaults)):
        if x.arg == p:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == p:
            return d
    return None


def expected(f, p):
    """The type an engine parameter expects: 'int', 'float', 'bool', 'ids', 'names', 'str' or None."""
    a = f.node.args
    ann = next((x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == p), None)
    s = ast.unparse(ann) if ann is not None else ""
    if p in ("cluster_ids", "feature_ids"):
        return "ids"
    if p in ("cluster_id", "feature_id", "key", "n_clusters", "top_k", "random_sample_size", "docs_per_cluster", "min_docs", "target_clusters",
             "random_seed", "iterations", "minimum_cluster_features", "doc_batch_size", "group_test_batches", "group_test_top_k"):
        return "int"
    if p in ("include_fields",):
        return "names"
    if s in ("int", "Optional[int]", "float", "bool", "str"):
        return s.replace("Optional[", "").rstrip("]")
    d = default_of(f, p)
    if isinstance(d, ast.Constant) and d.value is not None:
        return type(d.value).__name__
    return None


def huge(x):
    return is_const(x) and isinstance(x[0], int) and x[0] >= 2 ** 31


def fits(v, kind):
    """Does a constant have the expected type? None when it cannot be said."""
    if kind is None:
        return None
    if is_const(v):
        x = v[0]
        if x is None:
            return True
        if kind == "int":
            return isinstance(x, int) and not isinstance(x, bool)
        if kind == "float":
            return isinstance(x, (int, float)) and not isinstance(x, bool)
        if kind == "bool":
            return isinstance(x, (bool, int))
        if kind == "str":
            return isinstance(x, str)
        if kind in ("ids", "names"):
            return not isinstance(x, (str, int))
        return None
    if v.op in ("list", "tuple", "set") and kind in ("ids", "names"):
        es = [e for e in v.args if is_const(e)]
        if kind == "ids":
            return all(isinstance(e[0], int) for e in es)
        return True
    if v.op in ("list", "tuple", "set") and kind in ("int", "float", "str", "bool"):
        return False
    return None


def carries(v, tr):
    """Does the value contain the tracer (as itself or converted)?"""
    if isinstance(tr, T) and tr.op == "tuple" and tr.args and all(is_const(x) for x in tr.args):
        return any(carries(v, x[0]) for x in tr.args)
    vals = {tr, str(tr)}
    try:
        vals.add(int(str(tr)))
    except ValueError:
        pass
    for x in sub_terms(v):
        if is_const(x):
            if any(x[0] == y and type(x[0]) is type(y) for y in vals):
                return True
            if isinstance(x[0], str) and isinstance(tr, str) and len(tr) > 2 and tr in x[0]:
                return True
            if isinstance(x[0], (tuple, list)) and any(y in x[0] for y in vals):
                return True
        if x.op == "param" and isinstance(tr, T) and x is tr:
            return True
    return any(x is tr for x in sub_terms(v)) if isinstance(tr, T) else False


def same(v, tr):
    return is_const(v) and v[0] == tr and (isinstance(v[0], bool) == isinstance(tr, bool)) or v is tr


# ------------------------------------------------------------ command line
def click_type(kw):
    ty = kw.get("type")
    d = kw.get("default")
    if is_const(kw.get("is_flag", const(False)), True):
        return "bool"
    if ty is not None:
        n = ty[0] if ty.op in ("call", "ext", "builtin", "class") else str(ty)
        n = str(n).split(".")[-1].lower()
        return {"int": "int", "intrange": "int", "integer": "int", "float": "float", "floatrange": "float", "str": "str", "string": "str",
                "bool": "bool", "path": "path", "file": "file", "boolean": "bool"}.get(n, None)
    if d is not None and is_const(d) and d[0] is not None:
        return type(d[0]).__name__
    return "str"


def tracers(cmd):
    """(option name -> tracer value, option name -> declared type)"""
    out, kinds = {}, {}
    ints = iter(INTS)
    for kind, name, decl, kw in cmd.params():
        if name in out:
            continue
        k = click_type(kw)
        if any("/" in d for d in decl):
            k = "bool"
        multi = is_const(kw.get("multiple", const(False)), True)
        nargs = kw.get("nargs")
        v = {"int": lambda: next(ints), "float": lambda: next(ints) / 100, "bool": lambda: True, "path": lambda: f"/tracer/{name}",
             "str": lambda: f"tracer_{name}", "file": lambda: f"/tracer/{name}"}.get(k, lambda: f"tracer_{name}")()
        out[name] = tup(const(v), const(v + "_2")) if multi and isinstance(v, str) else tup(const(v)) if multi or nargs is not None else const(v)
        kinds[name] = "names" if multi else k
    return out, kinds


def command(c, lab, cli, cmd):
    opts, kinds = tracers(cmd)
    names = set(cmd.fn.params)
    missing = [o for o in opts if o not in names]
    for o in missing:
        c.bad(R_FLOW, cmd.qual, o, f"option {o} of {cmd.name} is not a parameter of the function: every call fails", cmd.fn.qual)
    opts = {o: v for o, v in opts.items() if o in names}
    used(c, cmd.qual, cli.run_command(cmd, key="c22-sym", max_states=8), opts, cmd.fn, drop=("echo",))
    flags = [o for o, k in kinds.items() if k == "bool" and o in opts]
    scen = [("all", opts)]
    for f in flags:
        scen.append((f"no {f}", {**opts, f: const(False)}))
    for o in opts:
        if kinds[o] in ("int", "float") and o not in ("clusters", "n_clusters"):
            scen.append((f"{o} 0", {**opts, o: const(0 if kinds[o] == "int" else 0.0)}))
    for label, given in scen:
        r = cli.run_command(cmd, key="c22-" + label, given=given, max_states=8)
        calls = [(e, e.d["qual"], {k: expand(r.ip, v, e.heap) for k, v in e.d["args"].items() if isinstance(v, T)}) for e in r.of("pcall")
                 if not e.d["qual"].startswith("hyperreal.cli.")]
        passed = {}
        for e, q, args in sorted(calls, key=lambda x: x[0].seq):
            f = lab.p_fn(q)
            if f is None:
                continue
            flow(c, lab, cmd.qual, cmd.name, e, q, f, args, given, passed, must_select=True, zero=label.endswith(" 0") and label.split()[0], kinds=kinds)
            for o, tv in given.items():
                if any(carries(v, tv[0] if is_const(tv) else tv) for v in args.values()):
                    passed.setdefault(o, []).append(e.facts)
        if label == "all":
            paths(c, lab, cmd, calls, given)
    for o in unset(cmd):
        if o in opts:
            for on in ({True, False} if flags else {True}):
                not_given(c, lab, cli, cmd, o, {**opts, **{f: const(on) for f in flags}, o: const(None)})


def unset(cmd):
    """Options whose default is None."""
    return [name for kind, name, decl, kw in cmd.params() if kind == "option" and is_const(kw.get("default", const(None)), None)
            and "multiple" not in kw and not is_const(kw.get("required", const(False)), True) and not is_const(kw.get("is_flag", const(False)), True)]


class Earlier:
    """Monitor: the values already passed, on every way to here, to the parameter an option stands for."""

    name = "earlier"

    def __init__(self, lab, o):
        self.lab, self.o, self.at = lab, o, []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind != "pcall" or ev.d["qual"].startswith("hyperreal.cli."):
            return
        f = self.lab.p_fn(ev.d["qual"])
        if f is None:
            return
        args = {k: expand(ip, v, st.heap) for k, v in ev.d["args"].items() if isinstance(v, T)}
        self.at.append((ev, f, args, st.mon[self.name]))
        st.mon[self.name] |= {args[p] for p in f.params if p in args and self.o in means(p)}


def not_given(c, lab, cli, cmd, o, given):
    m = Earlier(lab, o)
    cli.run_command(cmd, monitors=[m], given=given, max_states=8)
    for e, f, args, passed in m.at:
        short = e.d["qual"].rpartition(".")[2]
        for p in f.params:
            v, d = args.get(p), default_of(f, p)
            mine = o in means(p)
            if v is None or d is None or not (mine or o in WEAK.get(p, ())):
                continue
            if is_default(d, v) or is_const(v, None):
                c.ok(R_UNSET, cmd.qual, f"{o} {short}.{p}", "", e.where)
            elif is_const(v) and isinstance(d, ast.Constant) and d.value is None:
                ok = not mine and v in passed
                c.decide(ok, R_UNSET, cmd.qual, f"{o} {short}.{p}", "" if ok else
                         f"{cmd.name}: without {o}, {short} is told to use {show(v, 2)} for {p}", e.where)
            else:
                c.unsure(R_UNSET, cmd.qual, f"{o} {short}.{p}", show(v, 3)[:60], e.where)


def paths(c, lab, cmd, calls, given):
    """Databases named on the command line reach the constructor of their kind; the corpus opened reaches the index."""
    idx = lab.index_cls.qual
    corp = {k.qual for k in lab.corpus_classes()}
    for e, q, args in calls:
        cl = q.rpartition(".")[0]
        if not q.endswith(".__init__"):
            continue
        if cl == idx:
            own(c, cmd, e, "index_db", args.get("db_path"), given)
            if "corpus_db" in given:
                v = args.get("corpus")
                ok = v is not None and v.op == "obj" and v[0] in corp
                none = v is None or is_const(v, None)
                c.decide(True if ok else False if none else None, R_WIRE, cmd.qual, "corpus", "" if ok else f"{cmd.name} opens the index without the corpus it was given", e.where)
        elif cl in corp:
            own(c, cmd, e, "corpus_db", args.get("db_path"), given)
        elif cl.startswith("hyperreal.server."):
            own(c, cmd, e, "index_db", args.get("index_path"), given)
            if "corpus_db" in given:
                ca, ck = args.get("corpus_args"), args.get("corpus_kwargs")
                got = [v for v in (ca, ck) if v is not None]
                ok = any(carries(v, given["corpus_db"][0]) for v in got)
                other = any(carries(v, tv[0]) for v in got for o, tv in given.items() if o != "corpus_db" and is_const(tv))
                c.decide(False if other or not ok else True, R_WIRE, cmd.qual, "corpus_args", "" if ok and not other else
                         f"{cmd.name} serves documents from {'another file' if other else 'no file'} instead of its corpus_db argument", e.where)
                cc = args.get("corpus_class")
                isc = cc is not None and cc.op == "class"
                c.decide(True if isc else False if cc is None or is_const(cc, None) else None, R_WIRE, cmd.qual, "corpus_class",
                         "" if isc else f"{cmd.name} has no corpus class", e.where)


def own(c, cmd, e, opt, v, given):
    if opt not in given or v is None:
        return
    ok = same(v, given[opt][0])
    other = [o for o, tv in given.items() if o != opt and is_const(tv) and same(v, tv[0])]
    c.decide(True if ok else False if other else None, R_FLOW, cmd.qual, f"{opt}->{e.d['qual'].split('.')[-2]}",
             "" if ok else f"{cmd.name} passes {other or show(v, 2)} where {opt} belongs", e.where)


def before(factses, e):
    return any(all(e.facts.get(k, v) == v for k, v in fs.items()) for fs in factses)


def flow(c, lab, qual, name, e, q, f, args, given, passed, must_select, zero=None, kinds=None):
    """Obligations of one engine call in a scenario where every option has a tracer."""
    short = q.rpartition(".")[2]
    if short == "__init__":
        short = q.split(".")[-2]
    for p in f.params:
        if p in ("self", "cls"):
            continue
        v = args.get(p)
        cands = candidates(p, given)
        if p == "db_path":
            continue
        if not cands:
            weak = [o for o in WEAK.get(p, ()) if o in given and not before(passed.get(o, ()), e)]
            if weak and (v is None or not any(carries(v, given[o][0]) for o in weak if is_const(given[o]))):
                vv = v if v is not None else None
                if vv is None or is_const(vv):
                    c.bad(R_FLOW, qual, f"{short}.{p}", f"{name}: option {weak[0]} has no effect where {short} is called without it", e.where)
                continue
            if v is not None and not weak:
                stray = [o for o, tv in given.items() if is_const(tv) and not isinstance(tv[0], bool) and tv[0] not in (0, None) and same(v, tv[0])
                         and any(o in means(x) for x in f.params)]
                if stray:
                    c.bad(R_FLOW, qual, f"{short}.{p}", f"{name}: {short}'s {p} is given the value of option {stray[0]}", e.where)
            continue
        label = f"{short}.{p}"
        d = default_of(f, p)
        if p == "pinned" and v is not None and is_const(v) and isinstance(v[0], (bool, int)):
            continue  # each value is followed separately
        if v is None or "_given" in args and p not in args["_given"]:
            v = None
        dv = is_default(d, v)
        if v is None or dv and not any(same(v, given[o][0]) for o in cands if is_const(given[o])):
            # not passed at all
            if any(not is_const(given[o]) and gone(e.facts, given[o]) for o in cands):
                continue
            if p in SELECT and not must_select:
                continue
            if d is not None and isinstance(d, ast.BinOp):
                continue  # no limit by default
            if zero and zero in cands:
                c.bad(R_FLOW, qual, label, f"{name}: {zero} = 0 is replaced by {show(v, 2) if v is not None else 'the default'} on the way to {short}", e.where)
                continue
            if any(not is_const(given[o]) or given[o][0] in (False, None) for o in cands) and dv:
                # a default that equals the given value
                if any(is_const(given[o]) and v is not None and same(v, given[o][0]) for o in cands):
                    c.ok(R_FLOW, qual, label, "", e.where)
                    continue
            c.bad(R_FLOW, qual, label, f"{name}: option {cands[0]} is not passed to {short}'s {p}", e.where)
            continue
        hit = [o for o in cands if same(v, given[o][0] if is_const(given[o]) else given[o]) or v is given[o]]
        if hit:
            kd = expected(f, p)
            t_ok = fits(v, kd)
            c.ok(R_FLOW, qual, label, f"{hit[0]} -> {p}", e.where)
            if t_ok is False:
                c.bad(R_TYPE, qual, label, f"{name}: {hit[0]} arrives at {short}'s {p} as {type(v[0]).__name__ if is_const(v) else v.op}, {kd} expected", e.where)
            elif t_ok:
                c.ok(R_TYPE, qual, label, kd, e.where)
            continue
        inside = [o for o in cands if carries(v, given[o][0] if is_const(given[o]) else given[o])]
        if inside:
            o = inside[0]
            kd = expected(f, p)
            tv = given[o]
            if tv.op == "tuple" and v.op in ("tuple", "list", "set") and all(is_const(x) for x in v.args):
                lost = [x[0] for x in tv.args if x not in v.args]
                if lost:
                    c.bad(R_FLOW, qual, label, f"{name}: of the values given for {o}, {lost[0]} does not reach {short}", e.where)
                    continue
            conv = is_const(v) and is_const(tv) and str(v[0]) == str(tv[0])
            if conv:
                ok = fits(v, kd)
                c.decide(ok if ok is not None else True, R_TYPE, qual, label, "" if ok or ok is None else
                         f"{name}: {o} arrives at {short}'s {p} as {type(v[0]).__name__}, {kd} expected", e.where)
                c.ok(R_FLOW, qual, label, f"{o} -> {p}", e.where)
            elif v.op in ("list", "tuple", "set", "call", "item", "comp", "extitem") or kd in ("ids", "names"):
                c.ok(R_FLOW, qual, label, f"{o} -> {p}", e.where)
                t_ok = fits(v, kd)
                if t_ok is False:
                    c.bad(R_TYPE, qual, label, f"{name}: {o} arrives at {short}'s {p} as {show(v, 2)[:40]}, {kd} expected", e.where)
                elif t_ok:
                    c.ok(R_TYPE, qual, label, kd, e.where)
            else:
                c.unsure(R_FLOW, qual, label, f"{p} is {show(v, 3)[:60]}", e.where)
            continue
        others = [o for o, tv in given.items() if o not in cands and is_const(tv) and not isinstance(tv[0], bool) and tv[0] not in (None, 0)
                  and carries(v, tv[0])]
        if zero and zero in cands:
            ok = same(v, 0) or huge(v)
            if ok:
                c.ok(R_FLOW, qual, label + " 0", "", e.where)
            elif is_const(v):
                c.bad(R_FLOW, qual, label, f"{name}: {zero} = 0 is replaced by {show(v, 2)} on the way to {short}", e.where)
            else:
                c.unsure(R_FLOW, qual, label + " 0", show(v, 3)[:60], e.where)
            continue
        if others:
            c.bad(R_FLOW, qual, label, f"{name}: {short}'s {p} is given option {others[0]} instead of {cands[0]}", e.where)
        elif any(not is_const(given[o]) and gone(e.facts, given[o]) for o in cands):
            continue
        elif is_const(v):
            if p in SELECT and not must_select:
                continue
            c.bad(R_FLOW, qual, label, f"{name}: option {cands[0]} is replaced by {show(v, 2)} on the way to {short}'s {p}", e.where)
        elif p in SELECT and not must_select:
            continue
        else:
            ext = any(x.op in ("ext", "item", "call", "pcall", "attr") for x in sub_terms(v))
            c.unsure(R_FLOW, qual, label, f"{p} is {show(v, 3)[:60]}" + ("" if ext else " (no option)"), e.where)


def gone(facts, tr):
    """On this path the value given for the option was found to be absent or empty."""
    known = {k: v for k, v in facts.items() if any(x is tr or x.op == "item" and is_const(x[1]) and x[1][0] == tr[-1] for x in sub_terms(k))}
    return bool(known) and consistent(known, lambda x: ["given"] if x is tr or x.op == "item" and is_const(x[1]) and x[1][0] == tr[-1] else UNKNOWN) is False


def is_default(d, v):
    if d is None or v is None or not is_const(v):
        return False
    try:
        return ast.literal_eval(d) == v[0] and type(ast.literal_eval(d)) is type(v[0])
    except (ValueError, TypeError, SyntaxError):
        return isinstance(d, ast.BinOp) and huge(v)


def used(c, qual, r, opts, fn, drop=()):
    """Symbolic run: each parameter occurs in a call or a decision."""
    seen = set()
    for e in r.events:
        if e.kind in ("enter", "exit", "log") or e.kind == "pcall" and e.d["qual"] == fn.qual:
            continue
        if e.kind == "call" and e.d["name"].split(".")[-1] in drop:
            continue
        vals = [v for v in flatten(e.d)]
        if e.heap is not None:
            vals = [expand(r.ip, v, e.heap) for v in vals]
        for v in vals:
            seen |= {x[-1] for x in sub_terms(v) if x.op == "param" and x[0] == fn.qual}
            seen |= {x[0] for x in sub_terms(v) if is_const(x) and isinstance(x[0], str)} & set(opts) if any(
                x.op == "item" and x[0].op == "ext" and x[0][0].startswith(REQ) for x in sub_terms(v)) else set()
        for k in e.facts:
            seen |= {x[-1] for x in sub_terms(k) if x.op == "param" and x[0] == fn.qual}
    for _, v, st in r.outs:
        for k in st.facts:
            seen |= {x[-1] for x in sub_terms(k) if x.op == "param" and x[0] == fn.qual}
        seen |= {x[-1] for x in sub_terms(v) if x.op == "param" and x[0] == fn.qual} if isinstance(v, T) else set()
    for o in opts:
        c.decide(o in seen, R_USED, qual, o, "" if o in seen else f"{qual}: {o} is accepted but never used", fn.qual)


def flatten(d):
    if isinstance(d, T):
        return [d]
    if isinstance(d, dict):
        return [y for x in d.values() for y in flatten(x)]
    if isinstance(d, (list, tuple)):
        return [y for x in d for y in flatten(x)]
    return []


def groups(c, lab, cli, cmds):
    """All commands of a group work with the same corpus class, different groups with different ones."""
    corp = {k.qual for k in lab.corpus_classes()}
    by = {}
    for cmd in cmds:
        if " " not in cmd.name:
            continue
        g = cmd.name.rsplit(" ", 1)[0]
        r = cli.run_command(cmd, key="c22-sym", max_states=8)
        for e in r.of("new", "pcall"):
            vals = [e.d["cls"]] if e.kind == "new" else list(e.d["args"].values())
            for v in vals:
                q = getattr(v, "qual", None) or (v[0] if isinstance(v, T) and v.op == "class" else None)
                if q in corp:
                    by.setdefault(g, {}).setdefault(q, []).append((cmd, e))
    owner = {}
    for g, qs in by.items():
        if len(qs) > 1:
            n = sorted(qs, key=lambda q: len({x[0].name for x in qs[q]}))
            major = [q for q in qs if kin(g, q)] or [n[-1]]
            for q in qs:
                if q not in major:
                    cmd, e = qs[q][0]
                    c.bad(R_WIRE, cmd.qual, "corpus class", f"{cmd.name} uses {q.split('.')[-1]} where the other commands of {g} use {major[0].split('.')[-1]}", e.where)
        for q in qs:
            owner.setdefault(q, set()).add(g)
            c.ok(R_WIRE, g, q.split(".")[-1])
    for q, gs in owner.items():
        if len(gs) > 1:
            for g in gs:
                if not kin(g, q):
                    cmd, e = by[g][q][0]
                    c.bad(R_WIRE, g, "corpus class", f"{g} uses {q.split('.')[-1]}, the corpus of {', '.join(sorted(gs - {g}))}", e.where)


def kin(g, q):
    a = re.sub(r"[^a-z]", "", g.lower()).replace("corpus", "")
    b = re.sub(r"[^a-z]", "", q.split(".")[-1].lower()).replace("corpus", "")
    return a in b or b in a


# ------------------------------------------------------------ web pages
def ensured(w, h):
    """Parameters turned into lists of a type by a request tool that converts them."""
    out = {}
    for n, (point, f) in w.tools().items():
        for args, kw in h.tools(w.ip, n):
            for k, v in kw.items():
                nm = v[0] if v.op in ("builtin", "class") else v[0].split(".")[-1] if v.op == "ext" else None
                if nm in ("int", "str", "float"):
                    out[k] = nm
    return out


def listed(c, lab, w, hs):
    """Each converting request tool, applied to a field sent not at all, once and several times."""
    names = {n for h in hs for n in w.tools() for args, kw in h.tools(w.ip, n) if any(v.op == "builtin" and v[0] == "int" for v in kw.values())}
    for n in sorted(names):
        f = w.tools()[n][1]
        for label, sent, want in (("not sent", None, ()), ("sent once", ("43",), (43,)), ("sent twice", ("31", "37"), (31, 37)), ("sent three times", ("43", "0", "31"), (43, 0, 31))):
            ip = Interp(lab.p, max_states=8)
            st = State()
            fr = entry_frame(lab.p, "tool")
            v = None
            if sent is not None:
                v = const(sent[0]) if len(sent) == 1 else ip.alloc("list", t("list", *map(const, sent)), st, fr, ENTRY_NODE)
            cell = ip.alloc("dict", t("kwdict", () if v is None else ((const("field"), v),)), st, fr, ENTRY_NODE, extra="params")
            ip.ext_values[REQ + ".params"] = cell
            fv, _ = peel(ip, ip.func_value(f))
            for kind, _, z in run_function(ip, fv, [], {"field": t("builtin", "int")}, st, tag="tool"):
                got = member(expand(ip, cell, z.heap), "field")
                if kind != "return" or got is None:
                    c.unsure(R_LIST, f.qual, label, kind, f.qual)
                    continue
                vals = tuple(x[0] for x in got.args) if got.op in ("list", "tuple") and all(is_const(x) for x in got.args) else None
                ok = True if vals == want and all(type(a) is type(b) for a, b in zip(vals, want)) else False if vals is not None or is_const(got) else None
                if sent is None and is_const(got, None):
                    ok = None
                c.decide(ok, R_LIST, f.qual, label, "" if ok else f"{n}: a field {label} becomes {show(got, 3)[:60]}, not {list(want)}", f.qual)


def member(v, key):
    """The value last stored under a key."""
    while v.op == "upd" and v[0] == "setitem":
        k, x = v[2]
        if is_const(k, key):
            return x
        if not is_const(k):
            return None
        v = v[1]
    if v.op == "kwdict":
        for k, x in v[0]:
            if is_const(k, key):
                return x
    return None


def bound_columns(c, lab, h, e, n, f, args, given):
    """A search key made of several options: each arrives at the column of its name."""
    for p, v in args.items():
        if v.op not in ("tuple", "list") or len(v.args) < 2:
            continue
        cols = columns(lab, n, f, p)
        if not cols or len(cols) != len(v.args) or not set(cols) <= set(given):
            continue
        for col, x in zip(cols, v.args):
            want = given[col]
            if same(x, want[0] if is_const(want) else want):
                c.ok(R_BOUND, h.qual, f"{n}.{p}.{col}", "", e.where)
                continue
            other = [o for o, tv in given.items() if o != col and is_const(tv) and same(x, tv[0])]
            if other:
                c.bad(R_BOUND, h.qual, f"{n}.{p}.{col}", f"{h.qual}: {n} looks for {other[0]} in the column {col}", e.where)
            elif is_const(x):
                c.bad(R_BOUND, h.qual, f"{n}.{p}.{col}", f"{h.qual}: {n} looks for {show(x, 2)} where {col} is {show(want, 2)}", e.where)
            else:
                c.unsure(R_BOUND, h.qual, f"{n}.{p}.{col}", show(x, 3)[:60], e.where)


def columns(lab, n, f, p):
    """The columns an engine method compares the two members of a parameter with."""
    k = ("c22-columns", n, p)
    if k in lab.cache:
        return lab.cache[k]
    members = [t("param", f.qual, p, str(i)) for i in range(2)]
    got = {}
    try:
        cat = lab.catalogue("index")
        r = lab.run_method(lab.index_cls, n, given={p: tup(*members)}, key="c22-bound-" + p)
        for e in r.of("sql"):
            if e.d["word"] != "select" or not is_const(e.d["sql"]) or not isinstance(e.d.get("params"), T):
                continue
            q = Query(cat, e.d["sql"][0])
            for tb in {i[0] for jt, i, on, u in q.frm if i.op == "inst" and isinstance(i[0], str)}:
                for col, x in q.rows_of(tb)[0].items():
                    v = argument(e.d["params"], x[0], r.ip, e.heap)
                    if v in members:
                        got.setdefault(members.index(v), set()).add(col)
    except (AnalysisError, SqlError, KeyError, TypeError, IndexError, ValueError):
        got = {}
    out = [next(iter(got[i])) for i in range(2)] if all(len(got.get(i, ())) == 1 for i in range(2)) else None
    lab.cache[k] = out
    return out


def handler(c, lab, w, h, eff):
    conv = ensured(w, h)
    opts = [p for p in h.fn.params[1:] if p not in (h.fn.node.args.kwarg.arg if h.fn.node.args.kwarg else None,
                                                    h.fn.node.args.vararg.arg if h.fn.node.args.vararg else None)]
    sym = w.run_handler(h, key="c22-sym", max_states=8)
    calls = index_calls(lab, sym)
    if not calls:
        return
    lists_ = [e for e in sym.of("extitem", "call", "mcall") if "request.params" in show(e.d.get("recv") or const(e.d.get("name", "")), 3)]
    real = [o for o in opts if o not in ("index_id",)]
    used(c, h.qual, sym, real, h.fn)
    editing = any(eff.get(n) for _, n, _ in calls)
    ints = iter(INTS)
    given = {}
    for o in real:
        if o in conv:
            given[o] = t("param", h.fn.qual, o)
        elif o in ("field", "value", "scoring", "result_type", "return_to"):
            given[o] = const(f"Tracer {o.title()}") if o not in ("result_type",) else t("param", h.fn.qual, o)
        else:
            given[o] = const(str(next(ints)))
    scen = [("all", given)]
    if "pinned" in given:
        scen.append(("pinned 0", {**given, "pinned": const("0")}))
        scen.append(("pinned 1", {**given, "pinned": const("1")}))
    sel = [o for o in real if o in ("feature_id", "filter_cluster_id", "cluster_id") and has_default(h, o)]
    if not editing and sel:
        for o in sel:
            scen.append((f"only {o}", {**given, **{x: const(None) for x in sel if x != o}}))
        scen.append(("no selection", {**given, **{x: const(None) for x in sel}}))
    for label, g in scen:
        r = w.run_handler(h, key="c22-" + label, given=g, max_states=8)
        page(c, lab, w, h, r, g, conv, editing, label, sel)


def unites(x):
    """A union of document sets, in place or not."""
    if x.op == "bin":
        return x[0] == "|"
    return x.op == "upd" and x[0] in ("extend", "update", "union") and isinstance(x[1], T) and x[1].op in ("call", "item", "upd", "bin")


def real_params(h):
    return [p for p in h.fn.params[1:] if p != "index_id"]


def has_default(h, o):
    return default_of(h.fn, o) is not None


def page(c, lab, w, h, r, given, conv, editing, label, sel):
    passed = {}
    tr = {o: (v if is_const(v) else v) for o, v in given.items() if not is_const(v, None)}
    for e, n, bound in index_calls(lab, r):
        f = lab.index_cls.find(n)
        if f is None:
            continue
        args = {k: expand(r.ip, v, e.heap) for k, v in bound.items() if isinstance(v, T)}
        args = {k: params_items(v, h) for k, v in args.items()}
        if n == "pin_clusters" or n == "pin_features":
            v = args.get("pinned")
            if label.startswith("pinned "):
                want = label.endswith("1")
                if v is not None and is_const(v):
                    ok = bool(v[0]) == want and not isinstance(v[0], str)
                    c.decide(ok, R_TYPE, h.qual, f"{n}.pinned={label[-1]}", "" if ok else f"{h.qual}: pinned={label[-1]!r} arrives as {v[0]!r}", e.where)
                continue
        if label.startswith("pinned "):
            continue
        flow(c, lab, h.qual, h.qual, e, f.qual, f, args, tr, passed, must_select=editing, kinds=None)
        if label == "all":
            bound_columns(c, lab, h, e, n, f, args, tr)
        for o in conv:
            # types of converted lists
            for p in f.params:
                if o in means(p) and p in args and args[p] is t("param", h.fn.qual, o):
                    want = {"ids": "int", "names": "str"}.get(expected(f, p))
                    ok = want is None or conv[o] == want
                    c.decide(ok, R_TYPE, h.qual, f"{n}.{p} items", "" if ok else f"{h.qual}: {o} is converted to {conv[o]}, {n} expects {want}", e.where)
        for o in real_params(h):
            for p in f.params:
                if o in means(p) and o not in conv and args.get(p) is t("param", h.fn.qual, o) and expected(f, p) in ("ids", "names"):
                    c.bad(R_TYPE, h.qual, f"{n}.{p} items", f"{h.qual}: {o} reaches {n} as the request's text, not a list", e.where)
        for p in f.params:
            # a plain text value where a list is needed
            v = args.get(p)
            if v is not None and expected(f, p) in ("ids", "names") and is_const(v) and isinstance(v[0], str):
                c.bad(R_TYPE, h.qual, f"{n}.{p}", f"{h.qual}: {n} gets the text of {p} where a list is expected", e.where)
        for o, v in tr.items():
            if any(carries(a, v[0] if is_const(v) else v) for a in args.values()):
                passed.setdefault(o, []).append(e.facts)
        # narrowing of results
        if not editing and label.startswith("only "):
            o = label[5:]
            for p in ("query", "feature_clauses", "scored_passages"):
                if p in args and n not in ("convert_query_to_keys",):
                    tv = tr.get(o)
                    ok = tv is not None and carries(args[p], tv[0] if is_const(tv) else tv)
                    wide = [x for x in sub_terms(args[p]) if unites(x) and any(carries(y, tv[0]) for y in x.args[1:] for y in ([y] if isinstance(y, T) else y if isinstance(y, tuple) else []) if isinstance(y, T))
                            ] if ok and is_const(tv) and p == "query" else []
                    if wide:
                        c.bad(R_NARROW, h.qual, f"{o} {n}", f"{h.qual}: {o} widens what {n} shows (union instead of intersection)", e.where)
                        continue
                    c.decide(ok, R_NARROW, h.qual, f"{o} {n}", "" if ok else f"{h.qual}: {o} does not restrict what {n} shows", e.where)
    if label == "all" and not editing:
        # every selection together
        req = [o for o in ("feature_id", "filter_cluster_id", "cluster_id") if o in tr]
        cond = either(h, w)
        for e, n, bound in index_calls(lab, r):
            args = {k: expand(r.ip, v, e.heap) for k, v in bound.items() if isinstance(v, T)}
            for p in ("query", "feature_clauses", "scored_passages"):
                if p in args:
                    got = [o for o in req if carries(args[p], tr[o][0])]
                    if n == "convert_query_to_keys":
                        continue
                    need = req if not cond else req[:1]
                    ok = all(o in got for o in need) if not cond else bool(got)
                    c.decide(ok, R_NARROW, h.qual, f"all {n}", "" if ok else f"{h.qual}: {', '.join(o for o in need if o not in got)} does not restrict what {n} shows", e.where)


def either(h, w):
    """A page that shows one selection only (the index overview): selections are alternatives."""
    return all(has_default(h, o) for o in h.fn.params if o in ("feature_id", "cluster_id"))


def params_items(v, h):
    """request.params[name] stands for the parameter of that name."""
    def f(x):
        if x.op == "item" and x[0].op == "ext" and x[0][0] == REQ + ".params" and is_const(x[1]) and x[1][0] in h.fn.params:
            return t("param", h.fn.qual, x[1][0])
        if x.op in ("call",) and x[0] in (REQ + ".params.get", REQ + ".params.pop") and x[1] and is_const(x[1][0]) and x[1][0][0] in h.fn.params:
            return t("param", h.fn.qual, x[1][0][0])
        return x
    return rewrite(v, f)


# ------------------------------------------------------------ presentations
def presentations(c, lab, w, h):
    if "result_type" not in h.fn.params:
        return
    base = {}
    for o in ("feature_id", "filter_cluster_id"):
        if o in h.fn.params:
            base[o] = const("31") if o == "feature_id" else const(None)
    if "cluster_id" in h.fn.params:
        base["cluster_id"] = const(None) if has_default(h, "cluster_id") else const("37")
    for kind, prod in PRODUCERS.items():
        r = w.run_handler(h, key=f"c22-pres-{kind}", given={**base, "result_type": const(kind)}, max_states=8)
        calls = index_calls(lab, r)
        got = {n for e, n, _ in calls if n in PRODUCERS.values()}
        ok = got == {prod}
        c.decide(ok, R_PRES, h.qual, f"{kind} produced", "" if ok else f"{h.qual}: result_type={kind} is produced by {', '.join(sorted(got)) or 'nothing'}, not {prod}", h.fn.qual)
        shown_by = renders(r)
        c.require(shown_by, f"{h.qual} renders no template")
        reach = False
        for e, kw in shown_by:
            rt = kw.get("result_type")
            okt = rt is not None and is_const(rt, kind)
            c.decide(True if okt else False if rt is None or is_const(rt) else None, R_PRES, h.qual, f"{kind} named", "" if okt else
                     f"{h.qual}: the template is told {show(rt, 2) if rt is not None else 'nothing'} for {kind} results", e.where)
            sr = kw.get("search_results")
            if sr is not None and any(x.op == "call" and x[0] == f"{IDX}.{prod}" for x in sub_terms(sr)):
                reach = True
        c.decide(reach, R_PRES, h.qual, f"{kind} shown", "" if reach else f"{h.qual}: the result of {prod} is not handed to the template", shown_by[0][0].where)
    # chosen by the index when the request does not say
    r = w.run_handler(h, key="c22-pres-none", given={**base, "result_type": const(None)}, max_states=8)
    for e, kw in renders(r):
        rt = kw.get("result_type")
        if rt is None or is_const(rt, None):
            c.bad(R_PRES, h.qual, "default named", f"{h.qual}: without result_type the results are produced in the index's default form but shown in another", e.where)
        else:
            c.ok(R_PRES, h.qual, "default named", show(rt, 3)[:60], e.where)
    tested = {k for e, n, _ in index_calls(lab, r) if n in PRODUCERS.values() for k in e.facts if k.op == "cmp" and k[0] == "==" and is_const(k[2]) and k[2][0] in PRODUCERS}
    vals = {k[1] for k in tested}
    for e, kw in renders(r):
        rt = kw.get("result_type")
        if vals and rt is not None and not is_const(rt):
            ok = any(rt is v or v in options(rt) for v in vals)
            c.decide(True if ok else None, R_PRES, h.qual, "same choice", "", e.where)


def renders(r):
    out = []
    for e in r.of("mcall", "call"):
        n = str(e.d["name"]).split(".")[-1]
        if n in ("render", "generate", "stream", "render_async") and e.kind == "mcall":
            out.append((e, {k: expand(r.ip, v, e.heap) for k, v in dict(e.d["kw"]).items() if isinstance(v, T)}))
    return out


def layouts(c, lab, w, tp):
    """The macro that shows results tells the presentations apart and lays out each one's rows."""
    N = tp.nodes
    found = False
    for n, tree in tp.ast.items():
        for m in list(tree.find_all(N.Macro)) + [tree]:
            tests = [x for x in m.find_all(N.If) if compared(N, x.test) is not None]
            if m is tree:
                inner = {id(y) for mm in tree.find_all(N.Macro) for y in mm.find_all(N.If)}
                tests = [x for x in tests if id(x) not in inner]
            if not tests:
                continue
            found = True
            var, lits, branches, other = chain(N, tests[0])
            for k in ("concordance", "passage"):
                ok = k in branches
                c.decide(ok, R_PRES, f"{n}", f"layout {k}", "" if ok else f"{n}: {k} results are laid out as something else", f"{n}:{tests[0].lineno}")
            odd = [k for k in branches if k not in PRODUCERS]
            if odd:
                c.bad(R_PRES, n, "layout", f"{n}: no page produces {odd[0]} results, which the template lays out", f"{n}:{tests[0].lineno}")
            for k, body in list(branches.items()) + [("document", other)]:
                layout(c, tp, n, k, body, m)
    c.decide(found or None, R_PRES, "templates", "choice", "" if found else "no choice between presentations in the templates")


def compared(N, test):
    """(variable, literals) of a test on result_type."""
    if isinstance(test, N.Compare) and isinstance(test.expr, N.Name) and "result_type" in test.expr.name and len(test.ops) == 1:
        o = test.ops[0]
        if o.op == "eq" and isinstance(o.expr, N.Const):
            return test.expr.name, [o.expr.value]
        if o.op == "in" and isinstance(o.expr, (N.Tuple, N.List)):
            return test.expr.name, [x.value for x in o.expr.items if isinstance(x, N.Const)]
    return None


def chain(N, node):
    branches, var, lits = {}, None, []
    cur = node
    other = []
    while True:
        x = compared(N, cur.test)
        if x:
            var = x[0]
            for k in x[1]:
                branches[k] = cur.body
        for e in cur.elif_:
            y = compared(N, e.test)
            if y:
                for k in y[1]:
                    branches.setdefault(k, e.body)
        other = cur.else_
        if len(other) == 1 and isinstance(other[0], N.If) and compared(N, other[0].test):
            cur = other[0]
            continue
        break
    if "document" in branches:
        other = branches.pop("document")
    return var, lits, branches, other


def macro(tp, name):
    for n, tree in tp.ast.items():
        for m in tree.find_all(tp.nodes.Macro):
            if m.name == name:
                return n, m
    return None, None


def layout(c, tp, n, kind, body, m):
    """Rows are triples whose last member is what is shown."""
    N = tp.nodes
    body = list(body or [])
    loops = [x for b in body for x in ([b] if isinstance(b, N.For) else []) + list(b.find_all(N.For))]
    calls = [x for b in body for x in b.find_all(N.Call) if isinstance(x.node, N.Name)]
    where = f"{n}:{body[0].lineno if body else 0}"
    if not loops:
        for call in calls:
            n2, m2 = macro(tp, call.node.name)
            if m2 is not None:
                return layout(c, tp, n2, kind, m2.body, m2)
        c.decide(False if body == [] else None, R_PRES, n, f"layout {kind}", f"{n}: nothing is shown for {kind} results", where)
        return
    lp = loops[0]
    tg = lp.target
    if isinstance(tg, N.Tuple):
        ok = len(tg.items) == 3
        c.decide(ok, R_PRES, n, f"rows {kind}", "" if ok else f"{n}: rows of {kind} results have three members, {len(tg.items)} are taken", f"{n}:{lp.lineno}")
        last = tg.items[-1].name if isinstance(tg.items[-1], N.Name) else None
        names = {x.name for b in lp.body for x in ([b] if isinstance(b, N.Name) else []) + list(b.find_all(N.Name)) if x.ctx == "load"}
        c.decide(last in names if last else None, R_PRES, n, f"shown {kind}", "" if last in names else f"{n}: the content of {kind} results is never shown", f"{n}:{lp.lineno}")


# ------------------------------------------------------------ forms and links
def forms(c, lab, w, tp):
    mounts = {path: cls for cls, path, e in w.mounts() if cls is not None}
    fs = tp.forms()
    c.count("forms", len(fs))
    for f in fs:
        for action, method in f.targets():
            for a in tp.variants(f.template, action):
                one(c, lab, w, tp, mounts, f.template, f.line, a, method, f.fields)
    ls = tp.links()
    c.count("links", len(ls))
    for n, href, ln in ls:
        for a in tp.variants(n, href):
            if re.match(r"^(https?:|mailto:|#|\x00)", a):
                continue
            q = a.split("?", 1)[1] if "?" in a else ""
            fields = {}
            names = re.findall(r"(?:^|&)([\w.-]+)=", q)
            ex = [x for x in re.split(r"[?&]", href)[1:]]
            vals = {}
            for x in ex:
                if "=" in x:
                    k, v = x.split("=", 1)
                    vals[k] = tp.flat(n, v)
            for k in names:
                fields[k] = [vals.get(k)]
            one(c, lab, w, tp, mounts, n, ln, a, "get", fields)


ID = re.compile(r"(cluster|feature|index)_id$")
MADE = {"lookup_feature_id": "feature", "create_cluster_from_features": "cluster", "merge_clusters": "cluster"}


def kind_of(v):
    """Is a value the id of an index, a cluster or a feature?"""
    v = unwrap(v)
    if v.op == "call" and v[0].startswith(IDX + "."):
        return MADE.get(v[0].rpartition(".")[2])
    if v.op == "mcall" and is_req_index(v[0]):
        return MADE.get(v[1])
    name = v[-1] if v.op == "param" else None
    if v.op == "item" and is_const(v[1]) and isinstance(v[1][0], str):
        name = v[1][0]
    elif v.op == "item" and is_const(v[1], 0):
        return kind_of(v[0])
    m = ID.search(name) if isinstance(name, str) else None
    return m.group(1) if m else None


def unwrap(v):
    while v.op == "call" and v[0] in ("str", "int") and len(v[1]) == 1:
        v = v[1][0]
    return v


def redirects(c, lab, w, mounts, hs):
    """Where a page sends the browser afterwards."""
    n = 0
    for h in hs:
        r = w.run_handler(h, key="c22-sym", max_states=8)
        for kind, v, st in r.outs:
            if kind != "raise":
                continue
            for x in sub_terms(v):
                if x.op != "call" or not str(x[0]).endswith("HTTPRedirect") or not (x[1] or dict(x[2]).get("urls")):
                    continue
                for u in options(x[1][0] if x[1] else dict(x[2])["urls"]):
                    n += 1
                    c.guard(R_FORM, h.qual, lambda: redirect(c, lab, w, mounts, h, expand(r.ip, u, st.heap)))
    c.count("redirects", n)


def redirect(c, lab, w, mounts, h, u):
    parts = [u] if is_const(u) else list(u.args) if u.op == "fstr" else None
    if parts is None or any(not isinstance(x, T) and not isinstance(x, str) for x in parts):
        c.unsure(R_FORM, h.qual, "redirect", show(u, 3)[:60])
        return
    text, holes = "", []
    for x in parts:
        if isinstance(x, str) or is_const(x):
            text += x if isinstance(x, str) else str(x[0])
        else:
            text += "\x00"
            holes.append(x)
    label = text.replace("\x00", "*")
    if not text.startswith("/"):
        c.unsure(R_FORM, h.qual, f"to {label}", "a relative address")
        return
    path, _, query = text.partition("?")
    took = []
    to, pp = resolve(w, mounts, path, took)
    if isinstance(to, str):
        c.bad(R_FORM, h.qual, f"to {label}", f"{h.qual} sends the browser to {label}, which leads nowhere ({to})", h.fn.qual)
        return
    if to is None:
        c.unsure(R_FORM, h.qual, f"to {label}", "address not resolved")
        return
    from checks.c13 import allowed
    m = allowed(w, to)
    if isinstance(m, set):
        c.decide("GET" in m, R_FORM, h.qual, f"to {label}", f"{h.qual} sends the browser to {to.qual}, which does not accept GET", h.fn.qual)
    named = [(name, seg) for name, seg in zip(pp, took)]
    i = 0
    pairs = []
    for name, seg in named:
        if seg == "\x00" and i < len(holes):
            pairs.append((name, holes[i]))
        i += seg.count("\x00")
    i = path.count("\x00")
    a = to.fn.node.args
    for q in query.split("&") if query else ():
        k, _, val = q.partition("=")
        ok = k in to.fn.params[1:] or a.kwarg is not None
        c.decide(ok, R_FORM, h.qual, f"to {label} {k}", "" if ok else f"{h.qual} sends {k} to {to.qual}, which has no such parameter: the request is answered with 404", h.fn.qual)
        if val == "\x00" and i < len(holes):
            pairs.append((k, holes[i]))
        i += val.count("\x00")
    for k, v in pairs:
        m2, y = ID.search(k), kind_of(v)
        if m2 and y:
            c.decide(m2.group(1) == y, R_FORM, h.qual, f"to {label} {k} value", "" if m2.group(1) == y else
                     f"{h.qual} sends the browser to {to.qual} with the id of a {y} as {k}", h.fn.qual)
    have = set(pp) | {q.partition("=")[0] for q in query.split("&")}
    lack = [p for p in to.fn.params[1:] if default_of(to.fn, p) is None and p not in (a.kwarg.arg if a.kwarg else None, a.vararg.arg if a.vararg else None) and p not in have]
    c.decide(not lack, R_FORM, h.qual, f"to {label} required", "" if not lack else f"{h.qual} sends the browser to {to.qual} without {', '.join(lack)}", h.fn.qual)


def resolve(w, mounts, path, took=None):
    """(handler, path parameters) a path leads to; a string when it leads nowhere."""
    path = path.split("?", 1)[0].split("#", 1)[0]
    best = max((m for m in mounts if path == m or path.startswith(m.rstrip("/") + "/")), key=len, default=None)
    if best is None:
        return None, {}
    cls = mounts[best]
    segs = [s for s in path[len(best.rstrip("/")):].split("/") if s]
    pp = []
    from sa.web import class_decs
    for _ in range(12):
        if not segs:
            h = [x for x in w.handlers() if x.cls is cls and x.name == "index"]
            return (h[0] if h else "no index page"), pp
        s = segs[0]
        sub = class_values(w.ip, cls).get(s) if s != "\x00" else None
        if sub is not None and w.cls_of(sub) is not None:
            cls, segs = w.cls_of(sub), segs[1:]
            continue
        h = [x for x in w.handlers() if x.cls is cls and x.name == s.replace("-", "_")]
        if h and s != "\x00":
            return (h[0] if len(segs) == 1 else h[0]), pp
        pops = [d for d in class_decs(w.ip, cls) if d.op == "call" and d[0] == "cherrypy.popargs"]
        if not pops:
            return f"nothing at /{s.replace(chr(0), '..')} below {cls.name}", pp
        for a in pops[0][1]:
            if segs and is_const(a):
                if a[0] in pp and segs[0] != "\x00":
                    return f"nothing at /{segs[0]} below {cls.name}", pp
                pp.append(a[0])
                if took is not None:
                    took.append(segs[0])
                segs = segs[1:]
        hv = dict(pops[0][2]).get("handler")
        if hv is not None and hv.op in ("obj", "class") and w.cls_of(hv[0]) is not None:
            cls = w.cls_of(hv[0])
    return None, pp


def one(c, lab, w, tp, mounts, n, ln, action, method, fields):
    where = f"{n}:{ln}"
    label = re.sub("\x00", "*", action)
    if not action.startswith("/"):
        c.unsure(R_FORM, n, label, "a relative address", where)
        return
    h, pp = resolve(w, mounts, action)
    if h is None:
        c.unsure(R_FORM, n, label, "address not resolved", where)
        return
    if isinstance(h, str):
        c.bad(R_FORM, n, label, f"{n}: {label} leads nowhere ({h})", where)
        return
    from checks.c13 import allowed
    m = allowed(w, h)
    if isinstance(m, set):
        ok = method.upper() in m
        c.decide(ok, R_FORM, n, f"{label} {method}", "" if ok else f"{n}: {h.qual} does not accept {method.upper()}", where)
    a = h.fn.node.args
    ps = set(h.fn.params[1:])
    for k, vals in fields.items():
        ok = k in ps or a.kwarg is not None
        c.decide(ok, R_FORM, n, f"{label} {k}", "" if ok else f"{n}: {h.qual} has no parameter {k}: the request is answered with 404", where)
        for v in vals:
            if v is None:
                continue
            m2 = re.fullmatch(r"\s*\{\{\s*([A-Za-z_]\w*)\s*\}\}\s*", v)
            if m2 and re.search(r"(cluster|feature|index)_id$", m2.group(1)) and re.search(r"(cluster|feature|index)_id$", k):
                x, y = (re.search(r"(cluster|feature|index)_id$", z).group(1) for z in (m2.group(1), k))
                c.decide(x == y, R_FORM, n, f"{label} {k} value", "" if x == y else f"{n}: {k} is filled with {m2.group(1)}", where)
    need = [p for p in h.fn.params[1:] if default_of(h.fn, p) is None and p not in (a.kwarg.arg if a.kwarg else None, a.vararg.arg if a.vararg else None)]
    lack = [p for p in need if p not in fields and p not in pp]
    c.decide(not lack, R_FORM, n, f"{label} required", "" if not lack else f"{n}: {h.qual} needs {', '.join(lack)}, which this does not send", where)


# ------------------------------------------------------------ the index server
def server(c, lab, w):
    idx = lab.index_cls.qual
    opaque = Cli(lab).engine() - {f.qual for k in w.mod.classes.values() for f in k.methods.values()} - {f.qual for f in w.mod.funcs.values()}
    for cls in w.mod.classes.values():
        if cls.find("list_indices") is None or cls.find("index") is None:
            continue
        r = lab.run_method(cls, "index", opaque=opaque, key="c22")
        init = cls.find("__init__")
        ctor = f"{cls.qual}()"
        opens = [e for e in r.of("pcall") if e.d["qual"] == idx + ".__init__"]
        for e in opens:
            a = e.d["args"]

            def src(v):
                return {x[-1] for x in sub_terms(v) if x.op == "param" and x[0] == ctor} if isinstance(v, T) else set()
            for p, o in (("db_path", "index_path"), ("pool", "pool")):
                if o in init.params:
                    s = src(a.get(p))
                    c.decide(s == {o} or (None if o in s else False), R_WIRE, cls.qual, p, "" if s == {o} else f"the index is opened with {p} = {show(a.get(p), 3) if a.get(p) is not None else 'nothing'}, not the configured {o}", e.where)
            v = a.get("corpus")
            has = "corpus_class" in init.params
            if has:
                known = {k: x for k, x in e.facts.items() if "corpus_class" in src(k)}
                leaf = lambda b: (lambda x: b if x.op == "param" and x[-1] == "corpus_class" else UNKNOWN)
                on = not known or consistent(known, leaf("C")) is not False
                open_ = lambda o: not any(src(k) for k in e.facts) and any(o in src(x.d["args"].get("corpus")) for x in opens)
                if on and (v is None or is_const(v, None)) and open_("corpus_class"):
                    c.unsure(R_WIRE, cls.qual, "corpus", "which of the ways to make the corpus is taken is not known", e.where)
                elif on and (v is None or is_const(v, None)):
                    c.bad(R_WIRE, cls.qual, "corpus", "the configured corpus is not given to the index", e.where)
                elif on:
                    s = {x for o in options(v) for x in src(o)}
                    for o in ("corpus_class", "corpus_args", "corpus_kwargs"):
                        given = lambda x: ("C",) if x.op == "param" and x[-1] == o else UNKNOWN
                        if o not in s and consistent(e.facts, given) is False:
                            continue            # a path on which it was not configured
                        if o in init.params and not is_const(v):
                            c.decide(True if o in s else None if open_(o) else False, R_WIRE, cls.qual, o, "" if o in s else f"the configured {o} is not used to make the corpus: {show(v, 4)[:80]}", e.where)
    # the server object and port reach the web server
    for e in [e for f in w.mod.funcs.values() for e in lab.run_func(f).of("call") if e.d["name"].endswith("tree.mount")]:
        pass
    for f in w.mod.funcs.values():
        if "index_server" not in f.params:
            continue
        r = lab.run_func(f)
        seen = set()
        for e in r.events:
            if e.kind in ("enter", "exit"):
                continue
            if e.kind == "pcall" and e.d["qual"] == f.qual:
                continue
            for v in flatten(e.d):
                v = expand(r.ip, v, {**r.ip.gstate.heap, **(r.outs[0][2].heap if r.outs else {})})
                seen |= {x[-1] for x in sub_terms(v) if x.op == "param" and x[0] == f.qual}
            for k in e.facts:
                seen |= {x[-1] for x in sub_terms(k) if x.op == "param"}
        for p in f.params:
            c.decide(p in seen, R_WIRE, f.qual, p, "" if p in seen else f"{f.name} ignores {p}", f.qual)
