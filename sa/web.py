"""The web handlers and command line commands, derived from the decorators and mount calls."""
import ast

from .entry import make_object, run_function, params_for
from .interp import Interp, State
from .lab import Run, MIGRATE
from .model import AnalysisError
from .terms import T, t, options, is_const, sub_terms, const, show

REQ = "cherrypy.request"
IDX = "cherrypy.request.index"


def peel(ip, v):
    """(function value, decorator values applied to it), through calls of external decorators."""
    decs = []
    for _ in range(20):
        if v.op == "call" and len(v[1]) == 1 and not v[2]:
            decs.append(t("ext", v[0]))
            v = v[1][0]
        elif v.op in ("fcall",) and len(v[1]) == 1:
            decs.append(v[0])
            v = v[1][0]
        elif v.op in ("func", "closure"):
            decs += ip.meta.get(v[0] if v.op == "closure" else v[0], [])
            return v, decs
        else:
            return v, decs
    return v, decs


def seq(ip, v):
    """The constant elements of a list or tuple value, or None."""
    c = ip.content(v, ip.gstate) if v.op in ("cell", "global") else v
    if c.op in ("tuple", "list") and all(is_const(x) for x in c.args):
        return [x[0] for x in c.args]
    if is_const(c) and isinstance(c[0], (tuple, list)):
        return list(c[0])
    return None


class Handler:
    def __init__(self, cls, name, fn, value, decs):
        self.cls, self.name, self.fn, self.value, self.decs = cls, name, fn, value, decs
        self.chain = []       # decorator values of the classes on the path to it

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}"

    def tools(self, ip, name, inherited=True):
        """Keyword arguments of each `cherrypy.tools.<name>` that applies."""
        out = []
        for d in self.decs + (self.chain if inherited else []):
            for o in options(d):
                if o.op == "call" and o[0] == f"cherrypy.tools.{name}":
                    out.append((o[1], dict(o[2])))
                elif o.op == "ext" and o[0] == f"cherrypy.tools.{name}":
                    out.append(((), {}))
                elif o.op == "call" and o[0] == "cherrypy.config":
                    kw = dict(o[2])
                    if is_const(kw.get(f"tools.{name}.on", const(False)), True):
                        pre = f"tools.{name}."
                        out.append(((), {k[len(pre):]: v for k, v in kw.items() if isinstance(k, str) and k.startswith(pre) and not k.endswith(".on")}))
        return out


def expose(ip, decs):
    return any(o.op == "ext" and o[0] == "cherrypy.expose" or o.op == "call" and o[0] == "cherrypy.expose" for d in decs for o in options(d))


def class_decs(ip, cls):
    """Decorator values of a class and of the classes it inherits from: what they set on a class is inherited."""
    out = []
    for k in cls.mro():
        mf = ip.mod_frame(k.module)
        for d in k.node.decorator_list:
            out.append(ip.quiet(lambda st, d=d: ip.ev(d, st, mf)))
    return out


def class_values(ip, cls):
    """Class attributes holding instances of handler classes: name -> class qual."""
    out = {}
    for c in reversed(cls.mro()):
        for n in c.node.body:
            tg = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                tg = n.targets[0].id
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                tg = n.target.id
            if tg is None:
                continue
            v = ip.geval(n.value, c.module)
            for o in options(v):
                if o.op == "obj":
                    out[tg] = o[0]
        f = c.methods.get("__init__")
        if f is not None:
            for a in ast.walk(f.node):
                if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Attribute) and isinstance(a.value, ast.Call):
                    r = ip.p.resolve_expr(c.module, a.value.func)
                    if r and r[0] == "class":
                        out[a.targets[0].attr] = r[1].qual
    return out


class Web:
    def __init__(self, lab):
        self.lab = lab
        self.p = lab.p
        if "hyperreal.server" not in self.p.mods:
            raise AnalysisError("hyperreal.server not found")
        self.mod = self.p.mods["hyperreal.server"]
        self.ip = Interp(self.p)
        self._handlers = None

    def cls_of(self, qual):
        for m in self.p.mods.values():
            for c in m.classes.values():
                if c.qual == qual:
                    return c
        return None

    def mounts(self):
        """(class, path) of every tree.mount in the server module."""
        out = []
        for f in list(self.mod.funcs.values()):
            r = self.lab.run_func(f)
            for e in r.of("call"):
                if e.d["name"].endswith("tree.mount") or e.d["name"].endswith("tree.graft") or e.d["name"] == "cherrypy.quickstart":
                    a = list(e.d["args"])
                    kw = e.d["kw"] if isinstance(e.d["kw"], dict) else dict(e.d["kw"])
                    root = a[0] if a else kw.get("root")
                    path = a[1] if len(a) > 1 else kw.get("script_name", const(""))
                    for o in options(root):
                        if o.op == "obj":
                            out.append((self.cls_of(o[0]), path[0] if is_const(path) else "?", e))
        return out

    def handlers(self):
        """Every exposed handler reachable from a mounted root."""
        if self._handlers is not None:
            return self._handlers
        out = []
        seen = set()

        def visit(cls, chain, under):
            key = (cls.qual, tuple(under))
            if key in seen or len(chain) > 30:
                return
            seen.add(key)
            decs = class_decs(self.ip, cls)
            chain = chain + decs
            for c in cls.mro():
                for n, f in c.methods.items():
                    if cls.find(n) is not f:
                        continue
                    v, d = peel(self.ip, self.ip.func_value(f))
                    if expose(self.ip, d):
                        h = Handler(cls, n, f, v, d)
                        h.chain = chain
                        h.under = under + [cls.qual]
                        out.append(h)
            for n, q in class_values(self.ip, cls).items():
                k = self.cls_of(q)
                if k is not None:
                    visit(k, chain, under + [cls.qual])
            for d in decs:
                if d.op == "call" and d[0] == "cherrypy.popargs":
                    kw = dict(d[2])
                    for o in options(kw.get("handler", const(None))):
                        if o.op == "obj" and self.cls_of(o[0]) is not None:
                            visit(self.cls_of(o[0]), chain, under + [cls.qual])
                        elif o.op == "class" and self.cls_of(o[0]) is not None:
                            visit(self.cls_of(o[0]), chain, under + [cls.qual])
        for cls, path, e in self.mounts():
            if cls is not None:
                visit(cls, [], [])
        if not out:
            raise AnalysisError("no exposed web handlers found")
        self._handlers = out
        return out

    def run_handler(self, h, faults=False, monitors=(), key=None, max_states=4, given=None, with_index=False):
        """Analyse one page; with_index: the request's index is an index object, so that its operations are analysed too."""
        k = ("handler", h.cls.qual, h.name, faults, key, with_index)
        if k in self.lab.cache and (key is not None or not monitors):
            return self.lab.cache[k]
        ip = Interp(self.p, monitors=monitors, faults=faults, max_states=max_states)
        ip.keep_heap = True
        fv, _ = peel(ip, ip.func_value(h.fn))
        obj, st = make_object(ip, h.cls, "self")
        if with_index:
            ip.ext_values[IDX], st = make_object(ip, self.lab.index_cls, "idx", st=st, opaque_init=(MIGRATE,))
        outs = run_function(ip, fv, [obj], params_for(h.fn, 1, given), st, tag=h.name)
        r = Run(h.qual, ip, outs, obj, h.fn)
        self.lab.cache[k] = r
        return r

    def tools(self):
        """Registered request tools: name -> (hook point, function)."""
        out = {}
        for n, f in self.mod.funcs.items():
            v, d = peel(self.ip, self.ip.func_value(f))
            for x in d:
                if x.op == "call" and x[0] == "cherrypy.tools.register" and x[1] and is_const(x[1][0]):
                    nm = dict(x[2]).get("name")
                    if nm is None and len(x[1]) > 1:
                        nm = x[1][1]
                    out[nm[0] if nm is not None and is_const(nm) and nm[0] else n] = (x[1][0][0], f)
        return out


def index_calls(lab, r, recv=None):
    """Calls of Index methods on the request's index: (event, method name, arguments by parameter name, keyword names given)."""
    out = []
    for e in r.of("call", "mcall", "extitem"):
        name = None
        if e.kind == "call" and e.d["name"].startswith(IDX + ".") and e.d["name"].count(".") == IDX.count(".") + 1:
            name, args, kw = e.d["name"].rsplit(".", 1)[1], e.d["args"], e.d["kw"]
        elif e.kind == "mcall" and is_req_index(e.d["recv"]):
            name, args, kw = e.d["name"], e.d["args"], e.d["kw"]
        elif e.kind == "extitem" and is_req_index(e.d["recv"]):
            name, args, kw = "__getitem__", (e.d["key"],), {}
        if name is None:
            continue
        kw = dict(kw)
        f = lab.index_cls.find(name)
        bound = {}
        if f is not None:
            ps = [x for x in f.posargs[1:]]
            for p, a in zip(ps, args):
                bound[p] = a
            bound.update(kw)
        out.append((e, name, bound))
    return out


def expand(ip, v, heap, depth=6):
    """The value with containers replaced by their contents (as of a snapshot of the heap)."""
    memo = {}

    def go(x, d):
        if isinstance(x, tuple):
            return tuple(go(y, d) for y in x)
        if not isinstance(x, T) or d <= 0 or x.op in ("const", "param", "ext", "func", "class", "mod", "closure"):
            return x
        if (x, d) in memo:
            return memo[x, d]
        c = ip.shape(x, heap)
        if c is not x:
            out = go(c, d - 1)
        else:
            args = [go(a, d) for a in x.args]
            out = x if all(a is b for a, b in zip(args, x.args)) else t(x.op, *args)
        memo[x, d] = out
        return out
    return go(v, depth)


def is_req_index(v):
    return v.op == "ext" and v[0] == IDX or v.op == "attr" and v[1] == "index" and v[0].op == "ext" and v[0][0] == REQ


# ------------------------------------------------------------ command line
class Command:
    def __init__(self, name, fn, value, decs, st):
        self.name, self.fn, self.value, self.decs, self.st = name, fn, value, decs, st

    @property
    def qual(self):
        return self.name

    def params(self):
        """Declared arguments and options: (kind, parameter name, declaration names, keyword terms)."""
        out = []
        for d in self.decs:
            if d.op == "call" and d[0] in ("click.option", "click.argument"):
                names = [x[0] for x in d[1] if is_const(x)]
                kw = dict(d[2])
                out.append((d[0].split(".")[1], param_name(d[0].split(".")[1], names), names, kw))
        return out


def param_name(kind, names):
    """The function parameter click passes this declaration to."""
    plain = [n for n in names if n.isidentifier()]
    if plain:
        return plain[0].lower() if kind == "argument" else plain[0]
    if kind == "argument":
        return names[0].replace("-", "_").lower()
    longs = sorted((x for n in names for x in n.split("/")[:1]), key=lambda n: -len(n) + len(n.lstrip("-")))
    longs = [n for n in longs if n.startswith("--")] or longs
    return longs[0].lstrip("-").replace("-", "_").lower()


class Cli:
    def __init__(self, lab):
        self.lab, self.p = lab, lab.p
        if "hyperreal.cli" not in self.p.mods:
            raise AnalysisError("hyperreal.cli not found")
        self.mod = self.p.mods["hyperreal.cli"]
        self._cmds = None

    def is_command(self, d):
        return (d.op == "mcall" and d[1] == "command") or (d.op == "call" and d[0] == "click.command") or (d.op == "ext" and d[0] == "click.command")

    def label(self, ip, d, fallback):
        """Full command name, such as `plaintext_corpus create`."""
        name = None
        group = ""
        if d.op == "mcall":
            kw = dict(d[3])
            nm = kw.get("name", d[2][0] if d[2] else None)
            if nm is not None and is_const(nm):
                name = nm[0]
            group = ip.fqual(d[0]).split(".")[-1] + " " if d[0].op in ("func", "closure") else ""
        return (group + (name or fallback)).replace("cli ", "")

    def commands(self):
        if self._cmds is not None:
            return self._cmds
        ip = Interp(self.p)
        out = []
        for n, f in self.mod.funcs.items():
            v, d = peel(ip, ip.func_value(f))
            cm = [x for x in d if self.is_command(x)]
            if cm:
                out.append(Command(self.label(ip, cm[0], n), f, v, d, None))
        for s in self.mod.tree.body:
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call):
                v = ip.geval(s.value, self.mod)
                f, d = peel(ip, v)
                cm = [x for x in d if self.is_command(x)]
                if cm and f.op in ("func", "closure"):
                    out.append(Command(self.label(ip, cm[0], ip.fname(f) if f.op == "closure" else f[0]), ip.fns[ip.fqual(f)], f, d, ip))
        if not out:
            raise AnalysisError("no command line commands found")
        self._cmds = out
        return out

    def engine(self):
        """Everything the commands call into: not analysed again from here."""
        out = set()
        for m in self.p.mods.values():
            if m is self.mod:
                continue
            out |= {f.qual for f in m.funcs.values()}
            for c in m.classes.values():
                out |= {f.qual for f in c.methods.values()}
        return out

    def run_command(self, cmd, faults=False, monitors=(), key=None, max_states=4, given=None, opaque=(), handler_probe=True):
        k = ("cmd", cmd.name, faults, key)
        opaque = opaque or self.engine()
        if k in self.lab.cache and (key is not None or not monitors):
            return self.lab.cache[k]
        if cmd.st is None:
            ip = Interp(self.p, monitors=monitors, faults=faults, max_states=max_states, opaque=opaque, handler_probe=handler_probe)
            fv, _ = peel(ip, ip.func_value(cmd.fn))
        else:
            ip = Interp(self.p, monitors=monitors, faults=faults, max_states=max_states, opaque=opaque, handler_probe=handler_probe)
            ip.gstate, ip.gmemo, ip.frames, ip.meta = cmd.st.gstate, cmd.st.gmemo, cmd.st.frames, cmd.st.meta
            ip.fns.update(cmd.st.fns)
            fv = cmd.value
        ip.keep_heap = True
        outs = run_function(ip, fv, [], params_for(cmd.fn, 0, given), State(), tag="cmd")
        r = Run(cmd.name, ip, outs, None, cmd.fn)
        self.lab.cache[k] = r
        return r
