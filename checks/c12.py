"""C12: corpus text is never interpreted as markup (escaping of every template hole, provenance of every value marked as safe)."""
import html.parser
import re

from sa.lab import *
from sa.rel import Query, cursor_of
from sa.sql import SqlError
from sa.templ import Templates, jinja
from sa.web import Web, expand

R_ENV = "every-template-is-rendered-with-escaping"
R_HOLE = "no-template-hole-bypasses-escaping"
R_CTX = "holes-are-only-where-escaping-protects"
R_SAFE = "only-escaped-text-is-marked-as-safe"
R_PAGE = "pages-are-produced-by-templates"
R_BODY = "the-unescaped-body-is-the-body-of-the-post"

ESCAPES = {"e", "escape", "forceescape", "tojson", "urlencode", "xmlattr", "length", "count", "int", "float", "round", "wordcount", "abs"}


def run(c, lab):
    c.rule(R_ENV, "the environment or template that renders a page or document escapes by default")
    c.rule(R_HOLE, "no expression of a template is marked as safe or rendered with escaping switched off, except the body of a StackExchange post")
    c.rule(R_CTX, "expressions stand in text or in quoted attributes: not in tags, unquoted attributes, scripts, styles or event handlers")
    c.rule(R_SAFE, "a value is marked as safe markup only if it was rendered with escaping, escaped, or is constant")
    c.rule(R_PAGE, "what a page returns is rendered by a template, constant or a file; text is not put together with data by hand")
    c.rule(R_BODY, "the value rendered without escaping is the column Body of the table Post")
    c.assumptions += ["jinja2 escapes every expression of a template with autoescape unless it is marked as safe", "the body of a StackExchange post is HTML"]
    J = jinja()
    try:
        tm = Templates(lab.p)
    except AnalysisError as e:
        tm = None
        c.failed(R_HOLE, "templates", e)
    for n in sorted(tm.src) if tm else []:
        c.guard(R_HOLE, n, lambda: holes(c, J, n, tm.src[n], None))
        c.guard(R_CTX, n, lambda: contexts(c, n, tm.src[n]))
    seen = {}
    for g, r in lab.all_runs():
        c.guard(R_SAFE, r.name, lambda: python(c, lab, J, r, seen, g))
    try:
        w = Web(lab)
        for h in w.handlers():
            r = w.run_handler(h)
            c.guard(R_SAFE, h.qual, lambda: python(c, lab, J, r, seen, None))
            c.guard(R_PAGE, h.qual, lambda: page(c, r, h))
            c.guard(R_PAGE, h.qual, lambda: bodies(c, r, h.qual))
        for n, (point, f) in w.tools().items():
            c.guard(R_PAGE, f.qual, lambda: bodies(c, lab.run_func(f), f.qual))
    except AnalysisError as e:
        c.failed(R_PAGE, "server", e)
    c.count("renderers", len(seen))
    for m in lab.p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = ast.unparse(n.func).split(".")[-1]
                if nm == "Markup":
                    c.count("safe_markup_sites")
                if nm == "overlay" or nm in ("Environment", "Template", "NativeEnvironment", "SandboxedEnvironment"):
                    c.count("template_environments")
                    kw = {k.arg: k.value for k in n.keywords}
                    if "autoescape" in kw and isinstance(kw["autoescape"], ast.Constant) and not kw["autoescape"].value:
                        c.bad(R_ENV, m.name, ast.unparse(n)[:60], "escaping is switched off", f"{m.path.name}:{n.lineno}")
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == "autoescape" for x in n.targets):
                off = isinstance(n.value, ast.Constant) and not n.value.value
                c.decide(False if off else None, R_ENV, m.name, "autoescape", "escaping is switched off" if off else "escaping is changed later", f"{m.path.name}:{n.lineno}")
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == "__html__":
                c.unsure(R_SAFE, m.name, "__html__", "a class declares its own markup", f"{m.path.name}:{n.lineno}")


# ------------------------------------------------------------ templates
def holes(c, J, name, src, body):
    """Every output expression and block of one template."""
    N = J.nodes
    tree = J.Environment().parse(src)
    n = 0
    for f in tree.find_all((N.Filter, N.FilterBlock)):
        flt = f.filter if isinstance(f, N.FilterBlock) else f
        if flt.name != "safe":
            continue
        n += 1
        where = f"{name}:{f.lineno}"
        x = flt.node
        if x is not None and escaped(N, x):
            c.ok(R_HOLE, name, f"safe {text_of(N, x)}", "already escaped", where)
        elif body is not None and x is not None and body_ref(N, x):
            body.append((x, where))
        else:
            c.bad(R_HOLE, name, f"safe {text_of(N, x)}", f"`{text_of(N, x)}` is put into the page without escaping", where)
    for f in tree.find_all((N.EvalContextModifier,)):
        for k in f.options:
            if k.key == "autoescape":
                off = isinstance(k.value, N.Const) and not k.value.value
                c.decide(False if off else True if isinstance(k.value, N.Const) else None, R_HOLE, name, "autoescape block", "escaping is switched off for a part of the template" if off else "escaping stays on", f"{name}:{f.lineno}")
    for f in tree.find_all(N.Call):
        if isinstance(f.node, N.Name) and f.node.name == "Markup":
            c.bad(R_HOLE, name, "Markup", "data is marked as safe in the template", f"{name}:{f.lineno}")
    outs = sum(1 for o in tree.find_all(N.Output) for x in o.nodes if not isinstance(x, N.TemplateData))
    c.count("template_expressions", outs)
    c.ok(R_HOLE, name, "expressions", f"{outs} expressions are escaped by default")


def escaped(N, x):
    if isinstance(x, N.Const):
        return True
    if isinstance(x, N.Filter):
        return x.name in ESCAPES or x.name in ("safe", "trim", "default", "d") and x.node is not None and escaped(N, x.node)
    if isinstance(x, N.CondExpr):
        return escaped(N, x.expr1) and (x.expr2 is None or escaped(N, x.expr2))
    if isinstance(x, N.Concat):
        return all(escaped(N, y) for y in x.nodes)
    if isinstance(x, N.Add):
        return escaped(N, x.left) and escaped(N, x.right)
    if isinstance(x, N.Call):
        return isinstance(x.node, N.Name) and x.node.name in ("caller", "super")
    return False


def body_ref(N, x):
    while isinstance(x, N.Filter) and x.node is not None and x.name in ("default", "d", "trim"):
        x = x.node
    if isinstance(x, N.Getitem):
        return isinstance(x.arg, N.Const) and x.arg.value == "Body"
    return isinstance(x, N.Getattr) and x.attr == "Body" or isinstance(x, N.Name) and x.name == "body"


def text_of(N, x):
    if x is None:
        return "block"
    if isinstance(x, N.Name):
        return x.name
    if isinstance(x, N.Getattr):
        return f"{text_of(N, x.node)}.{x.attr}"
    if isinstance(x, N.Getitem):
        return f"{text_of(N, x.node)}[{text_of(N, x.arg)}]"
    if isinstance(x, N.Const):
        return repr(x.value)
    if isinstance(x, N.Filter):
        return f"{text_of(N, x.node)}|{x.name}"
    return type(x).__name__


HOLE = "\x01"


class Ctx(html.parser.HTMLParser):
    def __init__(self, src):
        super().__init__(convert_charrefs=True)
        self.bad, self.ids, self.raw, self.holes = [], [], None, 0
        self.feed(src)
        self.close()

    def handle_starttag(self, tag, attrs):
        raw = self.get_starttag_text()
        ln = self.getpos()[0]
        if HOLE in tag:
            self.bad.append((ln, "the name of a tag"))
        for m in re.finditer(r"""=\s*("[^"]*"|'[^']*'|[^\s>"']+)""", raw):
            if HOLE in m.group(1) and m.group(1)[0] not in "\"'":
                self.bad.append((ln, "an attribute without quotes"))
            elif "\x02" in m.group(1) and m.group(1)[0] not in "\"'":
                self.ids.append((ln, "an attribute without quotes"))
        for k, v in attrs:
            if v and HOLE in v:
                self.holes += 1
                if k.startswith("on") or k in ("style", "srcdoc"):
                    self.bad.append((ln, f"the attribute {k}"))
        if tag in ("script", "style"):
            self.raw = tag

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if tag == self.raw:
            self.raw = None

    def handle_data(self, data):
        n = data.count(HOLE)
        self.holes += n
        if n and self.raw:
            self.bad.append((self.getpos()[0], f"a {self.raw} element"))

    def handle_comment(self, data):
        pass


def contexts(c, name, src):
    keep = lambda m: "\n" * m.group(0).count("\n")
    s = re.sub(r"\{#.*?#\}", keep, src, flags=re.S)
    s = re.sub(r"\{%.*?%\}", keep, s, flags=re.S)
    s = re.sub(r"\{\{(.*?)\}\}", lambda m: ("0" if re.search(r"\|\s*(tojson|int|length|count)\s*-?$", m.group(1)) else "\x02" if re.search(r"(^|_|\.)id\s*-?$|\.index0?\s*-?$", m.group(1)) else HOLE) + "\n" * m.group(0).count("\n"), s, flags=re.S)
    p = Ctx(s)
    for ln, what in p.bad:
        c.bad(R_CTX, name, what, f"an expression stands in {what}, where escaping does not protect", f"{name}:{ln}")
    for ln, what in p.ids:
        c.unsure(R_CTX, name, what, f"an identifier stands in {what}", f"{name}:{ln}")
    c.ok(R_CTX, name, "places", f"{p.holes} expressions stand in text or quoted attributes")


# ------------------------------------------------------------ python
def root_template(x):
    """The environment or template construction a renderer comes from, and the name of the template."""
    name = None
    while x.op == "mcall" and x[1] in ("get_template", "from_string", "select_template", "overlay", "get_or_select_template"):
        if x[1] == "get_template" and x[2] and is_const(x[2][0]):
            name = x[2][0][0]
        if x[1] == "overlay" and "autoescape" in dict(x[3]):
            return x, name
        x = x[0]
    return x, name


def escapes(x, name, ip):
    """Does this environment escape the template? (verdict, why)"""
    kw = dict(x[3]) if x.op == "mcall" else dict(x[2])
    a = kw.get("autoescape")
    if a is None:
        return False, "templates are not escaped by default"
    if is_const(a):
        return bool(a[0]), "escaping is on" if a[0] else "escaping is off"
    if a.op == "call" and a[0].endswith("select_autoescape"):
        k = dict(a[2])
        ext = k.get("enabled_extensions", a[1][0] if a[1] else None)
        if name is None:
            d = k.get("default_for_string")
            if d is None or is_const(d):
                on = d is None or bool(d[0])
                return on, "templates from text are escaped" if on else "templates from text are not escaped"
            return None, ""
        exts = ["html", "htm", "xml"]
        if ext is not None:
            ext = ip.shape(ext, None)
            if is_const(ext) and isinstance(ext[0], (tuple, list)):
                exts = list(ext[0])
            elif ext.op in ("tuple", "list") and all(is_const(y) for y in ext.args):
                exts = [y[0] for y in ext.args]
            else:
                return None, "extensions not understood"
        on = any(name.lower().endswith("." + e.lstrip(".").lower()) for e in exts)
        if not on:
            d = k.get("default")
            if d is not None and is_const(d) and d[0]:
                on = True
        return on, f"{name} is " + ("" if on else "not ") + "escaped by its extension"
    return None, f"autoescape={show(a, 3)[:40]}"


RENDER = {"render", "generate", "stream", "render_async", "module"}


def is_template(x):
    root, name = root_template(x)
    return root.op == "call" and str(root[0]).startswith("jinja2.") or root.op == "mcall" and root[1] == "overlay"


def python(c, lab, J, r, seen, group):
    for e in r.of("mcall"):
        if e.d["name"] in RENDER:
            for x in options(e.d["recv"]):
                if not is_template(x):
                    continue
                root, name = root_template(x)
                where = e.where.split(" in ")[0]
                k = (r.name, name or "text", show(root, 5))
                ok, why = escapes(root, name, r.ip)
                c.decide(ok, R_ENV, r.name, name or "document template", why, e.where)
                if k in seen:
                    continue
                seen[k] = True
                if name is None and x.op == "call" and x[1] and is_const(x[1][0]):
                    body = []
                    tn = f"{r.name} template"
                    holes(c, J, tn, x[1][0][0], body)
                    contexts(c, tn, x[1][0][0])
                    for node, w in body:
                        c.guard(R_BODY, r.name, lambda: the_body(c, lab, J, r, e, node, w, group))
                elif name is None and x.op == "mcall" and x[1] == "from_string" and x[2] and is_const(x[2][0]):
                    holes(c, J, f"{r.name} template", x[2][0][0], [])
                elif name is None:
                    c.unsure(R_HOLE, r.name, "template", "the template text is not constant", where)
    for e in r.of("call", "new"):
        if str(e.d.get("name", "")).split(".")[-1] == "Markup" and e.d.get("args"):
            v, why = safe(r, e.d["args"][0], e.heap)
            c.decide(v, R_SAFE, r.name, show(e.d["args"][0], 2)[:60], why, e.where)


def safe(r, x, heap, depth=8):
    """Is this text already safe as markup? (verdict, why)"""
    x = r.ip.shape(x, heap) if x.op == "cell" else x
    if depth <= 0:
        return None, "not understood"
    if is_const(x):
        return True, "constant text"
    if x.op == "phi":
        vs = [safe(r, y, heap, depth - 1) for y in x.args]
        return worst(vs)
    if x.op == "mcall":
        if x[1] in RENDER and is_template(x[0]):
            return True, "rendered by a template"
        if x[1] in ("escape",):
            return True, "escaped"
        if x[1] in ("format", "join", "__mod__", "strip", "replace") and x[0].op == "call" and str(x[0][0]).endswith("Markup"):
            return True, "put together by Markup, which escapes"
        if x[1] == "join" and x[2]:
            return safe_all(r, x[2][0], heap, depth)
        if x[1] in ("strip", "lstrip", "rstrip"):
            return safe(r, x[0], heap, depth - 1)
        if x[1] == "format":
            return worst([safe(r, y, heap, depth - 1) for y in list(x[2]) + [v for k, v in x[3]]])
        if x[1] in ("isoformat", "strftime", "bit_length"):
            return True, "a date"
        if x[1] == "__html__":
            return True, "markup"
    if x.op == "call":
        f = str(x[0]).split(".")[-1]
        if f in ("escape", "Markup", "len", "int", "float", "quote", "urlencode", "quote_plus"):
            return True, "escaped"
        if f in ("str", "sorted", "list", "tuple", "next") and x[1]:
            return safe(r, x[1][0], heap, depth - 1)
    if x.op == "fstr":
        return worst([safe(r, y, heap, depth - 1) for y in x.args if isinstance(y, T)])
    if x.op == "bin":
        if x[0] in ("+", "%"):
            if x[1].op == "call" and str(x[1][0]).endswith("Markup"):
                return True, "put together by Markup, which escapes"
            return worst([safe(r, x[1], heap, depth - 1), safe(r, x[2], heap, depth - 1)])
        if x[0] in ("-", "//", "/"):
            return True, "a number"
    if x.op in ("list", "tuple", "comp"):
        return safe_all(r, x, heap, depth)
    if x.op in ("col", "row", "param", "elem", "item", "attr", "idx") or x.op == "ext" and x[0].startswith("cherrypy.request"):
        src = [y for y in sub_terms(x) if y.op in ("cursor", "param")]
        if x.op == "attr" and not src or x.op == "idx":
            return None, "not understood"
        return False, f"text that may contain markup is marked as safe: {show(x, 3)[:80]}"
    return None, f"not understood: {show(x, 3)[:60]}"


def safe_all(r, x, heap, depth):
    x = r.ip.shape(x, heap) if x.op == "cell" else x
    if x.op == "comp":
        return safe(r, x[1], heap, depth - 1)
    if x.op in ("list", "tuple", "set"):
        return worst([safe(r, y[0] if y.op == "star" else y, heap, depth - 1) for y in x.args])
    return safe(r, x, heap, depth - 1)


def worst(vs):
    bad = [v for v in vs if v[0] is False]
    if bad:
        return bad[0]
    und = [v for v in vs if v[0] is None]
    return und[0] if und else (vs[0] if vs else (True, "constant text"))


def the_body(c, lab, J, r, e, node, where, group):
    """The unescaped value must be the column Body of a post."""
    N = J.nodes
    while isinstance(node, N.Filter):
        node = node.node
    cls = next((k for k in lab.corpus_classes() if k.qual == group), None)
    cat = lab.corpus_cat(cls) if cls is not None else None
    var = node
    while isinstance(var, (N.Getitem, N.Getattr)):
        var = var.node
    v = dict(e.d["kw"]).get(var.name) if isinstance(var, N.Name) else None
    if v is None or cat is None:
        c.unsure(R_BODY, r.name, "body", "the value is not understood", where)
        return
    for o in options(v):
        o = r.ip.shape(o, e.heap)
        q = None
        col = None
        if o.op == "row" and cursor_of(o[0]):
            try:
                q = Query(cat, cursor_of(o[0])[0])
            except SqlError:
                q = None
            key = node.arg.value if isinstance(node, N.Getitem) else node.attr if isinstance(node, N.Getattr) else None
            col = key.lower() if key else None
        if q is None or col is None:
            c.unsure(R_BODY, r.name, "body", "the value is not understood", where)
            continue
        i = [k for k, (x, a) in enumerate(zip(q.cols, q.aliases)) if (a or (x[1] if x.op == "c" else "")).lower() == col]
        n = q.column(i[0]) if i else None
        c.decide(None if not n else ("post", "body") in n, R_BODY, r.name, "body", f"the value rendered without escaping is {sorted(n or [])}", where)


def bodies(c, r, name):
    """Answers written directly, without a template."""
    for e in r.of("setattr"):
        if e.d["name"] != "body" or not any(x.op == "ext" and x[0].startswith("cherrypy.") and x[0].endswith("response") for x in sub_terms(e.d["obj"])):
            continue
        v = expand(r.ip, e.d["value"], e.heap)
        for part in (v.args if v.op in ("list", "tuple") else (v,)):
            while part.op == "mcall" and part[1] == "encode":
                part = part[0]
            s, why = safe(r, part, e.heap)
            req = [x for x in sub_terms(part) if x.op == "param" or x.op == "ext" and x[0].startswith("cherrypy.request") or x.op == "call" and str(x[0]).startswith("cherrypy.request")]
            c.decide(True if s else False if s is False or req else None, R_PAGE, name, "body", "" if s else "an answer is put together from data without escaping", e.where)


def page(c, r, h):
    text = False
    for e in r.of("mutate"):
        if e.d["op"] == "setitem" and e.d["args"] and is_const(e.d["args"][0], "Content-Type") and is_const(e.d["args"][1]) and "html" not in e.d["args"][1][0]:
            text = True
    for e in r.events:
        if "Content-Type" in str(e.d.get("key", "")) or e.kind == "augitem":
            pass
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        for o in options(v):
            o = r.ip.shape(o, st.heap)
            if o.op == "const" or o.op == "call" and o[0].startswith("cherrypy."):
                c.ok(R_PAGE, h.qual, "result", "constant or a file")
            elif o.op == "mcall" and o[1] in RENDER and is_template(o[0]):
                c.ok(R_PAGE, h.qual, "result", "rendered by a template")
            elif text:
                c.ok(R_PAGE, h.qual, "result", "not a page")
            elif o.op in ("fstr", "bin") or o.op == "mcall" and o[1] in ("format", "join"):
                s, why = safe(r, o, st.heap)
                req = [x for x in sub_terms(expand(r.ip, o, st.heap)) if x.op == "param" or x.op == "call" and x[0].startswith("cherrypy.request")]
                c.decide(True if s else False if s is False or req else None, R_PAGE, h.qual, "result", why if not s and not req else "a page is put together from data without escaping" if not s else why)
            else:
                c.unsure(R_PAGE, h.qual, "result", f"returns {show(o, 3)[:60]}")
