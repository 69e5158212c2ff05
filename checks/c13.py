"""C13: only POST requests change the model; each request closes its index (effects of the reachable calls, per handler)."""
from sa.lab import *
from sa.web import Web, Cli, index_calls, is_req_index, seq, REQ, IDX, peel

R_POST = "editing-pages-accept-only-post"
R_LOOK = "pages-look-up-the-index-in-the-path"
R_404 = "unknown-index-is-404"
R_PATH = "the-named-index-is-opened"
R_CLOSE = "index-closed-at-the-end-of-the-request"

SAFE = ("GET", "HEAD", "OPTIONS", "TRACE")


def run(c, lab):
    c.rule(R_POST, "a page from which an operation that writes the model can be reached accepts POST (PUT, PATCH, DELETE) only")
    c.rule(R_LOOK, "every page that uses the request's index has the tool that looks it up by the index id of the path")
    c.rule(R_404, "an index id that is not known (or not a number) is answered with 404 before anything is opened")
    c.rule(R_PATH, "what is looked up is a fresh index object on the path the server was given for that id")
    c.rule(R_CLOSE, "the index of a request is closed by a tool that runs when the request has ended, and by nothing before")
    c.assumptions += ["cherrypy: tools of a class apply to everything below it; on_end_request hooks run once the response was sent, whatever its outcome",
                      "the operations that write are those whose own SQL writes a persistent table (derived per method)"]
    w = Web(lab)
    eff = lab.effects()
    editing = {n for n, ws in eff.items() if ws}
    c.require(editing, "no editing operation of Index was found")
    c.count("editing_operations", len(editing))
    tools = w.tools()
    look, close = find_tools(c, lab, w, tools)
    hs = w.handlers()
    c.count("handlers", len(hs))
    used_post = 0
    for h in hs:
        used_post += bool(c.guard(R_POST, h.qual, lambda: handler(c, lab, w, h, eff, editing, look, close)))
    c.require(look is not None or not any(index_calls(lab, w.run_handler(h)) for h in hs), "no tool that sets the request's index was found")
    for n in look or ():
        c.guard(R_404, n, lambda: lookup(c, lab, w, tools[n][1]))
    for n in close or ():
        c.guard(R_CLOSE, n, lambda: closing(c, lab, w, n, tools[n]))
    servers(c, lab, w)


def find_tools(c, lab, w, tools):
    """Names of the tools that set and that close the index of the request."""
    look, close = [], []
    for n, (point, f) in tools.items():
        r = lab.run_func(f)
        if any(e.kind == "setattr" and is_request(e.d["obj"]) and e.d["name"] == "index" for e in r.events):
            look.append(n)
        if any(name == "close" for _, name, _ in index_calls(lab, r)):
            close.append(n)
    return look, close


def is_request(v):
    return v is not None and v.op == "ext" and v[0] in (REQ, "cherrypy.serving.request")


def allowed(w, h):
    """Set of accepted methods, None when unrestricted, 'unknown'."""
    ts = h.tools(w.ip, "allow")
    if not ts:
        return None
    out = None
    for args, kw in ts:
        m = kw.get("methods", args[0] if args else None)
        s = seq(w.ip, m) if m is not None else None
        if s is None:
            m0 = m if m is not None else const(None)
            if is_const(m0) and isinstance(m0[0], str):
                s = [m0[0]]
            else:
                return "unknown"
        s = {x.upper() for x in s}
        if h.decs and (args, kw) in h.tools(w.ip, "allow", inherited=False):
            return s  # the innermost setting wins
        out = s if out is None else out
    return out


def guarded(e):
    """Does a condition on the request method exclude GET and HEAD here?"""
    for cond, truth in e.facts.items():
        if not isinstance(cond, T) or cond.op != "cmp":
            continue
        for a, b in ((cond[1], cond[2]), (cond[2], cond[1])):
            if not (isinstance(a, T) and a.op == "ext" and a[0] == REQ + ".method" or isinstance(a, T) and a.op == "attr" and a[1] == "method"):
                continue
            vals = [b[0]] if is_const(b) else [x[0] for x in b.args if is_const(x)] if b.op in ("tuple", "list", "set") else None
            if vals is None:
                continue
            if len(vals) == 1 and isinstance(vals[0], (tuple, list, set, frozenset)):
                vals = list(vals[0])
            if cond[0] in ("==", "in") and truth and not any(v in SAFE for v in vals):
                return True
            if cond[0] == "in" and not truth and {"GET", "HEAD"} <= set(vals):
                return True
    return False


def handler(c, lab, w, h, eff, editing, look, close):
    r = w.run_handler(h)
    calls = index_calls(lab, r)
    meth = allowed(w, h)
    edits = [(e, n) for e, n, _ in calls if n in editing]
    # a private helper or an unanalysed operation
    vague = [(e, n) for e, n, _ in calls if n in eff and eff[n] is None]
    direct = [e for e in r.of("mcall", "call") if "execute" in str(e.d.get("name", "")).split(".")[-1]]
    for e, n in edits:
        if meth is None:
            if guarded(e):
                c.ok(R_POST, h.qual, n, "the request method is tested before the call", e.where)
            else:
                c.bad(R_POST, h.qual, n, f"a GET request for {h.qual} reaches Index.{n}, which writes {', '.join(sorted(eff[n]))}", e.where)
        elif meth == "unknown":
            c.unsure(R_POST, h.qual, n, "the accepted methods are not constant", e.where)
        else:
            bad = sorted(m for m in meth if m in SAFE)
            if bad and guarded(e):
                bad = []
            c.decide(not bad, R_POST, h.qual, n, f"{h.qual} accepts {bad} and reaches Index.{n}, which writes {', '.join(sorted(eff[n]))}" if bad else
                     f"accepts {sorted(meth)}", e.where)
    for e, n in vague:
        if meth is None:
            c.unsure(R_POST, h.qual, n, f"the effects of Index.{n} are not known", e.where)
    for e in direct:
        sql = e.d["args"][0] if e.d["args"] else None
        if sql is not None and is_const(sql) and first(sql[0]) in ("select", "pragma"):
            continue
        if meth is None and not guarded(e):
            c.bad(R_POST, h.qual, "execute", f"a GET request for {h.qual} runs SQL on the index: {clean(text_of(sql))[:60] if sql is not None else ''}", e.where)
    edits += opened_here(c, lab, w, h, r, eff, editing, meth)
    if not edits and not vague and not direct:
        c.ok(R_POST, h.qual, "reads", f"reaches only {sorted({n for _, n, _ in calls}) or 'nothing'}")
    uses = calls or any(is_req_index(s) for e in r.events for v in e.d.values() if isinstance(v, T) for s in sub_terms(v))
    own = any(e.kind == "setattr" and is_request(e.d["obj"]) and e.d["name"] == "index" for e in r.events)
    if uses and not own:
        has_l = any(h.tools(w.ip, n) for n in look)
        c.decide(has_l, R_LOOK, h.qual, "lookup", "" if has_l else f"{h.qual} uses the request's index but no tool looks it up")
        has_c = any(h.tools(w.ip, n) for n in close)
        c.decide(has_c, R_CLOSE, h.qual, "tool", "" if has_c else f"the index of a request for {h.qual} is never closed")
    for e, n, _ in calls:
        if n == "close":
            c.bad(R_CLOSE, h.qual, "close", f"{h.qual} closes the request's index itself: what is rendered or streamed afterwards fails", e.where)
    for e in r.events:
        if e.kind == "setattr" and is_request(e.d["obj"]) and e.d["name"] == "index":
            c.unsure(R_PATH, h.qual, "request.index", f"{h.qual} replaces the request's index", e.where)
        if e.kind == "new" and getattr(e.d["cls"], "qual", "") == lab.index_cls.qual:
            c.bad(R_CLOSE, h.qual, "new index", f"{h.qual} opens an index of its own, which no tool closes", e.where)
    return bool(edits)


def from_server(v):
    """An index obtained from the configured server by the page itself."""
    return isinstance(v, T) and v.op == "mcall" and v[1] == "index" and has_key(v[0], "index_server")


def opened_here(c, lab, w, h, r, eff, editing, meth):
    """Indexes a page takes from the server besides the one the tool opened."""
    got = [e for e in r.of("mcall") if e.d["name"] == "index" and has_key(e.d["recv"], "index_server")]
    edits = []
    for e in r.of("mcall"):
        if from_server(e.d["recv"]) and e.d["name"] in editing:
            edits.append((e, e.d["name"]))
            if meth is None or meth != "unknown" and set(meth) & set(SAFE):
                if not guarded(e):
                    c.bad(R_POST, h.qual, e.d["name"], f"a GET request for {h.qual} reaches Index.{e.d['name']}, which writes {', '.join(sorted(eff[e.d['name']]))}", e.where)
    if not got:
        return edits
    closed = [e for e in r.of("mcall") if e.d["name"] == "close" and from_server(e.d["recv"])] + [
        e for e in r.of("call") if e.d["name"].endswith("closing") and any(from_server(x) for x in e.d["args"])]
    kept = any(e.kind == "setattr" and from_server(e.d["value"]) for e in r.events)
    if kept or closed:
        c.unsure(R_CLOSE, h.qual, "own index", "the page opens an index itself", got[0].where)
    else:
        c.bad(R_CLOSE, h.qual, "own index", f"{h.qual} takes an index from the server itself, which nothing closes", got[0].where)
    return edits


def lookup(c, lab, w, f):
    r = lab.run_func(f)
    sets = [e for e in r.of("setattr") if is_request(e.d["obj"]) and e.d["name"] == "index"]
    for e in sets:
        v = e.d["value"]
        from_id = has_key(v, "index_id")
        from_server = has_key(v, "index_server")
        c.decide(from_id, R_LOOK, f.qual, "index_id", "" if from_id else "the index opened does not depend on the index id of the request", e.where)
        c.decide(from_server or None, R_LOOK, f.qual, "index_server", "" if from_server else f"index taken from {show(v, 4)[:80]}", e.where)
    for k, v, st in r.outs:
        if k == "return":
            # every normal way out has set it
            pass
    # numbers: conversion errors become 404
    conv = any(x.op == "call" and x[0] in ("int", "float") and has_key(x, "index_id") for e in r.events for d in e.d.values() if isinstance(d, T) for x in sub_terms(d))
    if conv:
        caught = [e for e in r.of("handled") if {"ValueError", "Exception", "BaseException", None} & set(e.d["handler"])]
        answers = [e for e in r.of("raise") if not_found(e.d["exc"])]
        tested = any(x.op == "mcall" and x[1] in ("isdigit", "isdecimal", "isnumeric") for e in r.events for x in [y for k2 in e.facts for y in sub_terms(k2)])
        good = bool(caught and answers) or tested
        c.decide(good, R_404, f.qual, "not a number", "" if good else
                 "an index id that is not a number ends in an internal server error, not 404", f"{f.module.path.name}:{f.node.lineno}")


def has_key(v, key):
    return any(is_const(x, key) or x.op == "param" and x[-1] == key for x in sub_terms(v))


def not_found(x):
    for s in sub_terms(x):
        if s.op == "call" and s[0].endswith("HTTPError"):
            a = s[1][0] if s[1] else dict(s[2]).get("status")
            if a is not None and is_const(a) and str(a[0]).startswith("404"):
                return True
        if s.op == "call" and s[0].endswith("NotFound") or s.op == "ext" and s[0].endswith("NotFound"):
            return True
    return False


def closing(c, lab, w, name, tool):
    point, f = tool
    if point == "on_end_request":
        c.ok(R_CLOSE, f.qual, "hook", point)
    elif point in ("before_handler", "before_request_body", "on_start_resource"):
        c.bad(R_CLOSE, f.qual, "hook", f"the index is closed at {point}, before the page is produced")
    elif point in ("before_finalize", "before_error_response", "after_error_response"):
        c.bad(R_CLOSE, f.qual, "hook", f"closing at {point} misses requests that end differently (errors) and streamed pages")
    elif point == "on_end_resource":
        stream = any("stream" in show(d, 4) for h in w.handlers() for d in h.decs)
        c.decide(False if stream else None, R_CLOSE, f.qual, "hook",
                 "closing at on_end_resource happens before streamed pages are produced")
    else:
        c.unsure(R_CLOSE, f.qual, "hook", f"hook point {point}")
    r = lab.run_func(f)
    closes = [e for e, n, _ in index_calls(lab, r) if n == "close"]
    c.require(closes, f"{f.qual} does not close")
    # on each path where the index exists, it is closed
    for e in closes:
        odd = [k for k, v in e.facts.items() if not presence(k)]
        c.decide(not odd or None, R_CLOSE, f.qual, "condition", f"closed only when {', '.join(show(k, 3) for k in odd)[:80]}" if odd else "", e.where)
    outs = [st for k, v, st in r.outs if k == "return"]
    for st in outs:
        closed_here = any(dict(e.facts) == {k: v for k, v in st.facts.items() if k in e.facts} and len(e.facts) <= len(st.facts) for e in closes)
        absent = any(presence(k) and v is False for k, v in st.facts.items())
        if not closed_here and not absent and st.facts:
            odd = ", ".join(f"{show(k, 3)} is {v}" for k, v in st.facts.items())
            c.bad(R_CLOSE, f.qual, "path", f"the index stays open when {odd}"[:160])


def presence(k):
    """A condition that only asks whether the request has an index."""
    if any(is_const(x, "index") for x in sub_terms(k)) or any(is_req_index(x) for x in sub_terms(k)):
        return not any(x.op == "ext" and x[0].startswith(("cherrypy.response", REQ + ".method", REQ + ".stage")) for x in sub_terms(k))
    return False


def holds(cond, x, n):
    """Truth of a comparison with the id set to n, None when it is not one."""
    if cond.op == "truth" and cond[0] is x:
        return bool(n)
    if cond.op != "cmp":
        return None
    vals = []
    for a in cond.args[1:]:
        if a is x:
            vals.append(n)
        elif is_const(a):
            vals.append(a[0])
        else:
            return None
    try:
        a, b = vals
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                "in": lambda: a in b, "is": lambda: a is b}[cond[0]]()
    except (KeyError, TypeError):
        return None


def servers(c, lab, w):
    """Classes that hand out indexes by id."""
    n = 0
    for cls in w.mod.classes.values():
        f = cls.find("index")
        if f is None or peel(w.ip, w.ip.func_value(f))[1] or len(f.params) < 2 or cls.find("list_indices") is None:
            continue
        n += 1
        opaque = Cli(lab).engine() - {m.qual for m in cls.methods.values()} - {x.qual for x in w.mod.funcs.values()}
        r = lab.run_method(cls, "index", opaque=opaque)
        idp = t("param", f.qual, f.params[1])
        for kind, v, st in r.outs:
            if kind == "return":
                known = any(idp in sub_terms(k) for k in st.facts)
                for n2 in (-1, 1, 2, 999):
                    if known and all(holds(k, idp, n2) is v for k, v in st.facts.items() if idp in sub_terms(k)):
                        c.bad(R_404, f.qual, f"id {n2}", f"the unknown index id {n2} is answered with an index", f.qual)
                c.decide(known, R_404, f.qual, "known id", "" if known else "any index id is answered with an index, also one that does not exist", f.qual)
                for o in options(v):
                    fresh = o.op == "obj" and o[0] == lab.index_cls.qual
                    c.decide(True if fresh else None, R_PATH, f.qual, "fresh", "" if fresh else f"hands out {show(o, 3)[:80]}")
            elif any(idp in sub_terms(k) for k in st.facts):
                ok = not_found(v)
                c.decide(ok, R_404, f.qual, "answer", "" if ok else f"an unknown index id ends in {show(v, 3)[:60]} instead of 404", f.qual)
        for e in r.of("pcall"):
            if e.d["qual"] == lab.index_cls.qual + ".__init__":
                path = e.d["args"].get("db_path")
                ok = path is not None and any(x.op in ("param",) for x in sub_terms(path))
                c.decide(ok, R_PATH, f.qual, "path", "" if ok else f"the index is opened at {show(path, 3)}", e.where)
                ok = any(idp in sub_terms(k) for k in e.facts) or idp in sub_terms(path)
                c.decide(ok, R_404, f.qual, "opened", "" if ok else "the index is opened before the id is checked", e.where)
        if r.of("new"):
            pass
    c.require(n, "no class that hands out indexes was found")
