"""The program model: modules, functions, classes and names of the package under analysis."""
import ast
import hashlib
import os
import pathlib

REPO = pathlib.Path(os.environ.get("SA_REPO", "/repo"))
PKG = "hyperreal"


class AnalysisError(Exception):
    """The analysis cannot give a verdict (an anchor vanished, a file does not parse)."""


class Fn:
    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module, self.node, self.qual, self.cls, self.parent = module, node, qual, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.posargs[len(self.posargs) - len(a.defaults):], a.defaults))
        self.defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.decorators = getattr(node, "decorator_list", [])
        self.is_gen = _has_yield(node)
        self.locals, self.globals_decl, self.nonlocals = _locals(node)

    @property
    def params(self):
        return self.posargs + self.kwonly

    def __repr__(self):
        return f"<{self.qual}>"


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def separate_comprehensions(tree):
    """Comprehension variables have a scope of their own: rename those that share a name with the function around them."""
    count = [0]

    def names(n):
        out = {}
        for x in ast.walk(n):
            k = x.id if isinstance(x, ast.Name) else x.arg if isinstance(x, ast.arg) else None
            if k is not None:
                out[k] = out.get(k, 0) + 1
        return out

    def visit(n, fn):
        for ch in ast.iter_child_nodes(n):
            visit(ch, n if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn)
        if not isinstance(n, COMPS):
            return
        targets = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if not targets:
            return
        first = n.generators[0].iter
        outside = {id(x) for x in ast.walk(first)}
        inside = {}
        for x in ast.walk(n):
            if id(x) not in outside:
                k = x.id if isinstance(x, ast.Name) else x.arg if isinstance(x, ast.arg) else None
                if k is not None:
                    inside[k] = inside.get(k, 0) + 1
        around = names(fn if fn is not None else tree)
        lambdas = {a.arg for x in ast.walk(n) if isinstance(x, ast.Lambda) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        for name in targets:
            if around.get(name, 0) > inside.get(name, 0) and name not in lambdas:
                count[0] += 1
                new = f"{name}'{count[0]}"
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id == name and id(x) not in outside:
                        x.id = new

    visit(tree, None)


def _own_nodes(node):
    """Nodes of a function body, not entering nested functions/classes (their headers included)."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _has_yield(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))


def _locals(node):
    names, glob, nonl = set(), set(), set()
    for n in _own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
    a = node.args
    names.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    return names - glob - nonl, glob, nonl


class Cls:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual, self.name = module, node, qual, node.name
        self.methods = {}
        self.attrs = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = Fn(module, n, f"{qual}.{n.name}", cls=self)
            elif isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Name):
                        self.attrs[tg.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value
        self.bases = []

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(b for b in c.bases if isinstance(b, Cls))
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def base_names(self):
        out = set()
        for c in self.mro():
            out.add(c.name)
            out.update(b for b in c.bases if isinstance(b, str))
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class Mod:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.src = path.read_text(encoding="utf-8")
        try:
            self.tree = ast.parse(self.src)
            separate_comprehensions(self.tree)
        except SyntaxError as e:
            raise AnalysisError(f"{path} does not parse: {e}")
        self.names = {}
        self.funcs, self.classes = {}, {}
        self.assigns = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Fn(self, n, f"{self.name}.{n.name}")
                self.funcs[n.name] = f
                self.names[n.name] = ("func", f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(self, n, f"{self.name}.{n.name}")
                self.classes[n.name] = c
                self.names[n.name] = ("class", c)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg():
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)] if n.level > 1 else parts
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                self.assigns.append(n)
                tgs = n.targets if isinstance(n, ast.Assign) else [n.target]
                for tg in tgs:
                    if isinstance(tg, ast.Name) and n.value is not None:
                        self.names[tg.id] = ("expr", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(getattr(n, b, []))

    def is_pkg(self):
        return self.path.name == "__init__.py"


class Program:
    def __init__(self, repo=None):
        self.repo = pathlib.Path(repo or REPO)
        root = self.repo / PKG
        if not root.is_dir():
            raise AnalysisError(f"no package directory {root}")
        self.mods = {}
        for p in sorted(root.rglob("*.py")):
            rel = p.relative_to(self.repo).with_suffix("")
            name = ".".join(rel.parts)
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            self.mods[name] = Mod(p, name)
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    c.bases.append(r[1] if r and r[0] == "class" else (r[1] if r else ast.unparse(b)))
        self.templates = {}
        td = root / "templates"
        if td.is_dir():
            for p in sorted(td.rglob("*")):
                if p.is_file() and p.suffix in (".html", ".htm", ".xml", ".xhtml", ".txt", ".j2", ".jinja"):
                    self.templates[str(p.relative_to(td))] = p.read_text(encoding="utf-8")

    def digest(self):
        h = hashlib.sha256()
        for m in self.mods.values():
            h.update(m.src.encode())
        for k, v in self.templates.items():
            h.update(k.encode() + v.encode())
        return h.hexdigest()[:16]

    # -- name resolution -------------------------------------------------
    def resolve(self, mod, name):
        """('func',F) ('class',C) ('mod',dotted) ('ext',dotted) ('expr',node,mod) or None."""
        b = mod.names.get(name)
        if b is None:
            return None
        return self._follow(mod, b)

    def _follow(self, mod, b, depth=0):
        if depth > 8:
            return None
        if b[0] in ("func", "class"):
            return b
        if b[0] == "expr":
            return ("expr", b[1], mod)
        if b[0] == "mod":
            return ("mod", b[1])
        if b[0] == "from":
            full = f"{b[1]}.{b[2]}" if b[1] else b[2]
            if full in self.mods:
                return ("mod", full)
            if b[1] in self.mods:
                m = self.mods[b[1]]
                if b[2] in m.names:
                    return self._follow(m, m.names[b[2]], depth + 1)
                return ("ext", full)
            return ("ext", full)
        return None

    def member(self, dotted, name):
        """Attribute `name` of module `dotted`."""
        full = f"{dotted}.{name}"
        if dotted in self.mods:
            m = self.mods[dotted]
            if name in m.names:
                return self._follow(m, m.names[name])
        if full in self.mods:
            return ("mod", full)
        if dotted in self.mods:
            return None
        return ("ext", full)

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b and b[0] == "mod":
                return self.member(b[1], e.attr)
            if b and b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            if b and b[0] == "class":
                f = b[1].find(e.attr)
                if f:
                    return ("func", f)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(mod, e.value)
        return None

    # -- convenience -----------------------------------------------------
    def cls(self, name):
        for m in self.mods.values():
            if name in m.classes:
                return m.classes[name]
        raise AnalysisError(f"class {name} not found in {PKG}")

    def all_functions(self):
        for m in self.mods.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def loc(self, mod, node):
        return f"{mod.path.relative_to(self.repo)}:{getattr(node, 'lineno', 0)}"
