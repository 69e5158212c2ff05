"""The page templates: their syntax trees, and the forms and links of their markup."""
import glob
import html.parser
import re
import sys

from .model import AnalysisError


def jinja():
    try:
        import jinja2
    except ImportError:
        for d in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")):
            sys.path.append(d)
        try:
            import jinja2
        except ImportError:
            raise AnalysisError("jinja2 is not available to parse the templates") from None
    import jinja2.nodes
    return jinja2


class Form:
    def __init__(self, template, line, action, method, fid):
        self.template, self.line, self.action, self.method, self.id = template, line, action, method, fid
        self.fields = {}     # name -> list of value texts (None: typed by the user)
        self.buttons = []    # (action, method) of submit buttons that override

    def targets(self):
        out = [(self.action, self.method)] if not self.buttons or self.plain else []
        return out + self.buttons

    plain = False


class Page(html.parser.HTMLParser):
    def __init__(self, name, src, exprs):
        super().__init__(convert_charrefs=True)
        self.name, self.exprs = name, exprs
        self.forms, self.links, self.loose, self.cur, self.select = [], [], [], None, None
        self.feed(src)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        ln = self.getpos()[0]
        if tag == "form":
            self.cur = Form(self.name, ln, a.get("action") or "", (a.get("method") or "get").lower(), a.get("id"))
            self.forms.append(self.cur)
        elif tag == "a" and a.get("href"):
            self.links.append((a["href"], ln))
        elif tag in ("input", "select", "textarea", "button"):
            if tag == "button" and self.cur is not None and (a.get("type") or "submit") == "submit" or tag == "input" and a.get("type") == "submit" and self.cur is not None:
                if a.get("formaction"):
                    self.cur.buttons.append((a["formaction"], (a.get("formmethod") or self.cur.method).lower()))
                else:
                    self.cur.plain = True
            if a.get("name"):
                if tag == "select":
                    self.select = a["name"]
                    self.field(a, a["name"], None)
                else:
                    v = a.get("value")
                    if tag == "input" and a.get("type") in ("hidden", "checkbox", "radio", None):
                        self.field(a, a["name"], v)
                    else:
                        self.field(a, a["name"], None)
        elif tag == "option" and self.select and a.get("value") is not None:
            self.field(a, self.select, a["value"])

    handle_startendtag = handle_starttag

    def field(self, a, name, value):
        if a.get("form"):
            self.loose.append((a["form"], name, value))
        elif self.cur is not None:
            self.cur.fields.setdefault(name, []).append(value)

    def handle_endtag(self, tag):
        if tag == "form":
            self.cur = None
        elif tag == "select":
            self.select = None


HOLE = re.compile("\x01(\\d+)\x02")


class Templates:
    def __init__(self, p):
        self.jinja = jinja()
        self.nodes = self.jinja.nodes
        if not p.templates:
            raise AnalysisError("no templates found")
        env = self.jinja.Environment()
        self.src, self.ast, self.page, self.exprs = {}, {}, {}, {}
        self.env = env
        for n, text in p.templates.items():
            self.src[n] = text
            self.ast[n] = env.parse(self.src[n])
            self.page[n] = self.parse(n)

    def parse(self, n):
        ex = []

        def hole(m):
            ex.append(m.group(1).strip().strip("-").strip())
            return f"\x01{len(ex) - 1}\x02"

        s = self.src[n]
        keep = lambda m: "\n" * m.group(0).count("\n")
        s = re.sub(r"\{#.*?#\}", keep, s, flags=re.S)
        s = re.sub(r"\{%.*?%\}", keep, s, flags=re.S)
        s = re.sub(r"\{\{(.*?)\}\}", hole, s, flags=re.S)
        self.exprs[n] = ex
        return Page(n, s, ex)

    def expr(self, n, text):
        """Syntax trees of the holes of an attribute value."""
        return [self.parse_expr(self.exprs[n][int(i)]) for i in HOLE.findall(text)]

    def parse_expr(self, src):
        return self.env.parse("{{ " + src + " }}").body[0].nodes[0]

    def variants(self, n, text):
        """The possible texts of an attribute: holes that are a choice between constants are spelled out."""
        outs = [""]
        pos = 0
        for m in HOLE.finditer(text):
            pre = text[pos:m.start()]
            alts = self.choices(self.parse_expr(self.exprs[n][int(m.group(1))]))
            outs = [o + pre + a for o in outs for a in alts]
            pos = m.end()
        return [o + text[pos:] for o in outs]

    def choices(self, e):
        N = self.nodes
        if isinstance(e, N.Const):
            return [str(e.value)]
        if isinstance(e, N.CondExpr):
            return self.choices(e.expr1) + (self.choices(e.expr2) if e.expr2 is not None else [""])
        if isinstance(e, N.Call) and isinstance(e.node, N.Getattr) and e.node.attr == "format" and isinstance(e.node.node, N.Const):
            return [re.sub(r"\{[^}]*\}", "\x00", str(e.node.node.value))]
        return ["\x00"]

    def forms(self):
        out = []
        byid = {}
        for n, p in self.page.items():
            for f in p.forms:
                out.append(f)
                f.fields = {k: [v if v is None else self.flat(n, v) for v in vs] for k, vs in f.fields.items()}
                if f.id:
                    byid[f.id] = f
        for n, p in self.page.items():
            for fid, name, v in p.loose:
                if fid in byid:
                    byid[fid].fields.setdefault(name, []).append(v if v is None else self.flat(n, v))
        return out

    def flat(self, n, v):
        """Field value with its expressions spelled out: 'text' or '{{expr}}'."""
        return HOLE.sub(lambda m: "{{" + self.exprs[n][int(m.group(1))] + "}}", v)

    def links(self):
        return [(n, href, ln) for n, p in self.page.items() for href, ln in p.links]
