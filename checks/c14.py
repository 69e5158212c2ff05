"""C14: values supplied by callers, requests, documents or files are never executed as SQL (taint over provenance terms)."""
import ast

from sa.lab import *
from sa.web import Web, Cli

R_TEXT = "statement-text-is-the-program's"
R_LOC = "database-location-is-quoted"
R_BIND = "attached-databases-are-bound"

STR_METHODS = {"format", "join", "replace", "strip", "lower", "upper", "lstrip", "rstrip", "title", "encode", "decode", "casefold", "removeprefix",
               "removesuffix", "ljust", "rjust", "center", "zfill", "splitlines", "split", "partition", "expandtabs", "translate", "format_map"}
NUMERIC = {"int", "len", "float", "bool", "abs", "round", "sum", "hash", "id", "ord"}
TEXTY = {"str", "repr", "ascii", "list", "tuple", "sorted", "reversed", "map", "filter", "min", "max", "set", "iter", "next", "format", "enumerate",
         "zip", "os.fspath", "os.path.abspath", "os.path.join", "pathlib.Path", "json.dumps", "textwrap.dedent", "html.escape"}


HELPERS = ("hyperreal.server", "hyperreal.db_utilities", "hyperreal.utilities", "hyperreal._index_schema", "hyperreal.index")


def taint(x, ip, st, memo=None, depth=0):
    """'clean' (program text and numbers only), ('data', term) or ('unknown', term)."""
    memo = {} if memo is None else memo
    if not isinstance(x, T):
        return "clean"
    if x.n in memo:
        return memo[x.n]
    memo[x.n] = "clean"
    r = _taint(x, ip, st, memo, depth)
    memo[x.n] = r
    return r


def worst(rs):
    rs = list(rs)
    for r in rs:
        if r != "clean" and r[0] == "data":
            return r
    for r in rs:
        if r != "clean":
            return r
    return "clean"


def _taint(x, ip, st, memo, depth):
    if depth > 40:
        return ("unknown", x)
    go = lambda y: taint(y, ip, st, memo, depth + 1)
    op = x.op
    if op == "const" or op in ("func", "closure", "class", "mod", "missing"):
        return "clean"
    if op == "global":
        return "clean"
    if op in ("param", "col", "row", "caught", "input", "tempdir"):
        return ("data", x)
    if op == "phi" or op in ("fstr", "tuple", "list", "set", "star", "slice", "fmt"):
        return worst(go(a) for a in x.args if isinstance(a, T))
    if op == "bin":
        if x[0] in ("*",) and any(is_const(a) and isinstance(a[0], str) for a in x.args[1:]):
            return "clean"
        return worst(go(a) for a in x.args[1:] if isinstance(a, T))
    if op in ("cmp", "not", "bool", "and", "or", "in", "is"):
        return "clean"
    if op == "mcall":
        if x[1] in STR_METHODS or x[1] in ("__add__", "__mod__", "as_uri", "absolute", "resolve", "as_posix", "__str__", "get", "pop", "keys", "values",
                                           "items", "read", "readline", "readlines", "fetchone", "fetchall", "fetchmany"):
            return worst([go(x[0])] + [go(a) for a in x[2]] + [go(v) for _, v in x[3]])
        if x[1] in ("count", "index", "find", "bit_length", "isdigit"):
            return "clean"
        return ("unknown", x)
    if op in ("call",):
        name = x[0]
        if name in NUMERIC:
            return "clean"
        if name in TEXTY:
            return worst([go(a) for a in x[1]] + [go(v) for _, v in x[2]])
        if name in ("input", "os.getenv", "open", "click.prompt"):
            return ("data", x)
        return ("unknown", x)
    if op == "item":
        b = x[0]
        if is_const(b) or go(b) == "clean":
            return "clean"
        return go(b)
    if op == "attr":
        return go(x[0]) if x[0].op != "obj" else ("unknown", x)
    if op == "elem":
        return go(x[0])
    if op == "cursor":
        return ("data", x)
    if op == "cell" and st is not None:
        c = st.heap.get(x)
        return go(c) if c is not None and c is not x else ("unknown", x)
    if op in ("comp", "genexp", "upd", "keys", "values", "items", "dict", "kwdict", "append"):
        rs = []
        for y in sub_terms(x):
            if y is not x and y.op in ("param", "col", "row", "cursor"):
                rs.append(("data", y))
        return worst(rs) if rs else ("unknown", x)
    if op == "mu":
        d = ip.mus.get(x)
        if d is None:
            return ("unknown", x)
        rs = [go(d["init"])] if d.get("init") is not None else []
        for y in d.get("next", ()) or ():
            rs.append(go(y))
        return worst(rs) if rs else ("unknown", x)
    if op == "ext":
        return ("data", x) if x[0].startswith(("cherrypy.request", "sys.argv", "os.environ")) else "clean"
    return ("unknown", x)


def listed(e, term):
    """Is the value known, at this event, to be one of a fixed set of constants?"""
    for cond, truth in (e.facts.items() if isinstance(e.facts, dict) else e.facts or ()):
        if not isinstance(cond, T) or cond.op != "cmp":
            continue
        if cond[1] is term and ((cond[0] in ("in",) and truth) or (cond[0] in ("not in", "notin") and not truth)):
            c = cond[2]
            vals = c.args if c.op in ("tuple", "list", "set") else ()
            if is_const(c) or (vals and all(is_const(v) for v in vals)) or c.op in ("global", "cell"):
                return True
        if cond[0] == "==" and truth and term in (cond[1], cond[2]) and (is_const(cond[1]) or is_const(cond[2])):
            return True
    return False


def run(c, lab):
    c.rule(R_TEXT, "the text of every statement is built from program constants (and numbers), with data only in the bound values")
    c.rule(R_LOC, "a database location given as a URI is percent-quoted, so that no file name can add parameters such as mode or vfs")
    c.assumptions += ["sqlite3 binds parameters as values; Path.as_uri and urllib.parse.quote percent-encode '?', '#' and '%'"]
    visited = set()
    runs = list(lab.all_runs())
    for v in (4, 5, 10):
        runs.append(("index", lab.open_index(v)))
    try:
        w = Web(lab)
        for h in w.handlers():
            runs.append(("server", w.run_handler(h)))
    except AnalysisError as e:
        c.failed(R_TEXT, "server", e)
    for mn in HELPERS:
        m = lab.p.mods.get(mn)
        for f in (m.funcs.values() if m else ()):
            try:
                runs.append((mn, lab.run_func(f, max_states=2)))
            except (AnalysisError, RecursionError):
                pass
    try:
        cli = Cli(lab)
        for cmd in cli.commands():
            runs.append(("cli", cli.run_command(cmd)))
    except AnalysisError as e:
        c.failed(R_TEXT, "cli", e)
    # helpers are judged with the values they are called with; on their own only where nothing else reaches them
    helper = lambda r: r.fn is not None and r.fn.qual not in lab.workers() and (r.fn.name.startswith("_") and not r.fn.name.startswith("__") or r.obj is None and r.fn.cls is None and r.fn.parent is None)  # noqa: E731
    runs = [(g, r, g in HELPERS and helper(r) or g not in ("server", "cli") and r.fn is not None and r.fn.cls is not None and helper(r)) for g, r in runs]
    for g, r, h in sorted(runs, key=lambda x: x[2]):
        c.guard(R_TEXT, r.name, lambda: one(c, lab, g, r, visited, frozenset(visited) if h else frozenset()))
    for m in lab.p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("execute", "executemany", "executescript"):
                c.count("sql_call_sites")
                if (m.name, n.lineno, n.col_offset) not in visited:
                    syntactic(c, lab, m, n)


def syntactic(c, lab, m, n):
    """A call site no analysis reached: the text argument must be a constant expression."""
    a = n.args[0] if n.args else None
    if isinstance(a, ast.Constant):
        c.ok(R_TEXT, m.name, ast.unparse(n)[:60], "constant text (call site not reached by the analysis)", f"{m.path.name}:{n.lineno}")
    else:
        c.unsure(R_TEXT, m.name, ast.unparse(n)[:60], "call site not reached by the analysis", f"{m.path.name}:{n.lineno}")


def one(c, lab, g, r, visited, judged):
    for e in r.of("sql"):
        if (e.mod.name, e.node.lineno, e.node.col_offset) in judged:
            continue
        visited.add((e.mod.name, e.node.lineno, e.node.col_offset))
        sql = e.d["sql"]
        label = stmt_label(text_of(sql))
        if is_const(sql):
            c.ok(R_TEXT, e.fn, label, "constant text", e.where)
            continue
        judge(c, R_TEXT, e, sql, r, label, "the text of this statement")
    for e in r.of("mcall"):
        # statements sent to a connection the analysis does not know as one
        if e.d["name"] in ("execute", "executemany", "executescript") and e.d["args"]:
            if (e.mod.name, e.node.lineno, e.node.col_offset) in judged:
                continue
            visited.add((e.mod.name, e.node.lineno, e.node.col_offset))
            sql = e.d["args"][0]
            label = stmt_label(text_of(sql))
            if is_const(sql):
                c.ok(R_TEXT, e.fn, label, "constant text", e.where)
            else:
                judge(c, R_TEXT, e, sql, r, label, "the text of this statement")
    for e in r.of("connect"):
        args, kw = e.d["args"], dict(e.d["kw"])
        uri = kw.get("uri")
        loc = args[0] if args else kw.get("database")
        if uri is None or is_const(uri, False, None, 0):
            c.ok(R_LOC, e.fn, "connect", "the location is a plain path", e.where)
            continue
        if loc is None:
            continue
        if quoted(loc):
            c.ok(R_LOC, e.fn, "connect", "every part taken from a path is percent-quoted", e.where)
        else:
            raw = [p for p in parts(loc) if not quoted(p)]
            res = [taint(p, r.ip, e.heap_state if hasattr(e, "heap_state") else None) for p in raw]
            if any(x != "clean" and x[0] == "data" for x in res):
                c.bad(R_LOC, e.fn, "connect", f"an unquoted value becomes part of a database URI: {show(loc, 5)[:120]}", e.where)
            elif any(x != "clean" for x in res):
                c.unsure(R_LOC, e.fn, "connect", f"location {show(loc, 4)[:100]}", e.where)
            else:
                c.ok(R_LOC, e.fn, "connect", "constant location", e.where)


def judge(c, rule, e, sql, r, label, what):
    class H:
        heap = getattr(e, "heap", None) or {}
    res = taint(sql, r.ip, H)
    if res == "clean":
        c.ok(rule, e.fn, label, "program text and numbers", e.where)
    elif res[0] == "data":
        leaves = [y for y in sub_terms(sql) if y.op in ("param", "col", "row", "elem", "item")]
        if any(listed(e, y) for y in leaves):
            c.ok(rule, e.fn, label, "the value is one of a fixed list", e.where)
        else:
            c.bad(rule, e.fn, label, f"{what} contains a value that is not the program's own: {show(res[1], 4)[:80]} in {clean(text_of(sql))[:80]}", e.where)
    else:
        c.unsure(rule, e.fn, label, f"{what} depends on {show(res[1], 4)[:80]}", e.where)


def parts(x):
    """The pieces a text value is put together from."""
    if x.op == "fstr":
        return [p for a in x.args if isinstance(a, T) for p in parts(a)]
    if x.op == "bin" and x[0] == "+":
        return parts(x[1]) + parts(x[2])
    if x.op == "phi":
        return [p for a in x.args for p in parts(a)]
    if x.op == "mcall" and x[1] in ("format", "join") and is_const(x[0]):
        return [p for a in list(x[2]) + [v for _, v in x[3]] for p in parts(a)]
    return [x]


def quoted(x):
    ps = parts(x)
    return all(is_const(p) or (p.op == "mcall" and p[1] == "as_uri") or
               (p.op == "call" and p[0] in ("urllib.parse.quote", "urllib.parse.quote_plus", "urllib.request.pathname2url", "int", "len")) for p in ps)
