"""Expression evaluation of the abstract interpreter (mixed into interp.Interp)."""
import ast
import builtins as _bi

from .model import Fn, Cls, AnalysisError
from .terms import T, t, const, tup, phi, options, is_const, sub_terms, NONE, TRUE, FALSE, ZERO

OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
CMPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
    ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
SQLITE_ERRORS = {
    "OperationalError": {"OperationalError", "DatabaseError", "Error", "Exception"},
    "IntegrityError": {"IntegrityError", "DatabaseError", "Error", "Exception"},
    "ProgrammingError": {"ProgrammingError", "DatabaseError", "Error", "Exception"},
    "InterfaceError": {"InterfaceError", "Error", "Exception"},
    "DatabaseError": {"DatabaseError", "Error", "Exception"},
    "Error": {"Error", "Exception"},
}
CONSUMERS = {"list", "set", "tuple", "sorted", "frozenset", "dict", "sum", "min", "max", "any", "all"}
FRESH_BUILTINS = {"list", "set", "dict", "sorted"}
DB_METHODS = {"execute", "executemany", "executescript"}
QUIET_SQL = ("rollback", "release", "pragma", "detach")


def exc_name(v):
    if v.op == "excinst":
        return v[0]
    if v.op in ("class", "builtin", "ext"):
        return str(v[0]).split(".")[-1]
    if v.op == "call" and isinstance(v[0], str):
        return v[0].split(".")[-1]
    if v.op == "caught":
        return v[0][0] if v[0].op == "exc" else "Exception"
    if v.op == "exc":
        return v[0]
    if v.op == "phi":
        return exc_name(v[0])
    if v.op == "mcall" and v[1] == "with_traceback":
        return exc_name(v[0])
    return "Exception"


def sort_const(x):
    if is_const(x):
        return x[0]
    if x.op == "tuple" and x.args and is_const(x[0]):
        # a tie on the first element would need the rest, which is not constant
        return tuple(sort_const(a) for a in x.args) if all(is_const(a) for a in x.args) else (x[0][0],)
    raise TypeError


def first_word(sql):
    if is_const(sql) and isinstance(sql[0], str):
        import re
        s = re.sub(r"--[^\n]*|/\*.*?\*/", " ", sql[0], flags=re.S).split()
        return s[0].lower().rstrip(";") if s else ""
    if sql.op == "fstr" and sql.args and is_const(sql[0]) and isinstance(sql[0][0], str):
        s = sql[0][0].split()
        return s[0].lower() if s else ""
    if sql.op == "bin" and sql[0] in ("+", "%"):
        return first_word(sql[1])
    if sql.op == "mcall" and sql[1] in ("format", "strip"):
        return first_word(sql[0])
    return ""


def about_element(fact):
    """Is this fact about what an iteration yields?"""
    return any(y.op in ("elem", "row", "idx") for y in sub_terms(fact))


def unify(a, b, depth=0):
    """A term of the shape both have, with a choice of values where they differ; None when the shapes differ."""
    if a is b:
        return a
    if not isinstance(a, T) or not isinstance(b, T):
        return None
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("cell", "param", "elem", "row", "idx", "mu", "const", "phi", "obj"):
        got = [x if x is y or x == y and not isinstance(x, T) else unify(x, y, depth + 1) if isinstance(x, T) else None for x, y in zip(a.args, b.args)]
        if all(g is not None or x is None for g, x in zip(got, a.args)):
            return t(a.op, *got)
    return phi([a, b]) if depth > 1 else None


class EvalMixin:
    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(t("opaque", self.site(fr, e)), st)]
        return m(e, st, fr)

    def ev_list(self, es, st, fr):
        """Evaluate expressions left to right: [(values, state)]; Starred gives star() terms or expands."""
        res = [([], st)]
        for e in es:
            nxt = []
            for vs, y in res:
                if isinstance(e, ast.Starred):
                    for v, z in self.ev(e.value, y, fr):
                        if v.op in ("gen", "genexp"):
                            for c, w in self.consume(v, z, fr, e):
                                nxt.append((vs + [t("star", self.alloc("list", c, w, fr, e))], w))
                            continue
                        k = self.known_elems(v, z)
                        nxt.append((vs + k, z) if k is not None else (vs + [t("star", v)], z))
                else:
                    for v, z in self.ev(e, y, fr):
                        nxt.append((vs + [v], z))
            res = nxt
        return res

    def e_Constant(self, e, st, fr):
        return [(const(e.value), st)]

    def e_Name(self, e, st, fr):
        v = self.lookup(e.id, st, fr)
        if v.op == "unbound":
            self.sink[-1].append((t("exc", "UnboundLocalError"), st))
            return []
        if v.op == "phi" and any(o.op == "unbound" for o in v.args):
            v = phi([o for o in v.args if o.op != "unbound"])
        return [(v, st)]

    def lookup(self, name, st, fr):
        f = fr
        first = True
        while f is not None:
            if f.fn is not None:
                key = (f.fid, name)
                if key in st.env:
                    return st.env[key]
                if key in self.gstate.env:
                    return self.gstate.env[key]
                if first and name in f.fn.locals and not (f.parent is not None and name not in f.fn.locals):
                    return t("unbound", name)
            elif (f.fid, name) in st.env:
                return st.env[(f.fid, name)]
            f = f.parent
            first = False
        return self.global_value(fr.mod, name)

    def global_value(self, mod, name):
        b = self.p.resolve(mod, name)
        if b is not None:
            return self.binding(b, name)
        if hasattr(_bi, name):
            return t("builtin", name)
        return t("unbound", name)

    def binding(self, b, name=None):
        if b[0] == "func":
            return self.func_value(b[1])
        if b[0] == "class":
            return t("class", b[1].qual)
        if b[0] == "mod":
            return t("mod", b[1])
        if b[0] == "ext":
            return t("ext", b[1])
        if b[0] == "expr":
            return self.geval(b[1], b[2])
        return t("opaque", str(b))

    def mod_frame(self, mod):
        from .interp import Frame
        return Frame(("m", mod.name), None, mod, None, None, (("mod", mod.name),))

    def geval(self, node, mod):
        """Value of a module or class level expression."""
        k = (mod.name, node.lineno, node.col_offset, type(node).__name__)
        if k in self.gmemo:
            return self.gmemo[k]
        self.gmemo[k] = t("global", mod.name, getattr(node, "lineno", 0))
        v = self.quiet(lambda st: self.ev(node, st, self.mod_frame(mod)))
        self.gmemo[k] = v
        return v

    def quiet(self, run):
        saved = self.faults, self.monitors, self.events, self.reports, self.sink, self.loops, self.stack, self.hook
        self.faults, self.monitors, self.events, self.reports, self.sink, self.loops, self.stack, self.hook = False, [], [], [], [[]], [], [], None
        try:
            outs = run(self.gstate)
        finally:
            self.faults, self.monitors, self.events, self.reports, self.sink, self.loops, self.stack, self.hook = saved
        if not outs:
            return t("opaque", "noreturn")
        v = phi([o[0] for o in outs])
        g = outs[0][1] if len(outs) == 1 else self.join([o[1] for o in outs])
        self.gstate.env.update(g.env)
        self.gstate.heap.update(g.heap)
        return v

    def func_value(self, fn):
        """The value of a (possibly decorated) module function or method."""
        if fn.qual in self.gmemo:
            return self.gmemo[fn.qual]
        v = t("func", fn.qual)
        self.gmemo[fn.qual] = v
        if fn.decorators:
            mf = self.mod_frame(fn.module)
            if fn.cls is not None:
                mf.cls = fn.cls
            v = self.quiet(lambda st: self.decorate(v, fn.decorators, st, mf, fn))
            self.gmemo[fn.qual] = v
        return v

    def decorate(self, v, decorators, st, fr, fn=None):
        res = [(v, st)]
        for d in reversed(decorators):
            nxt = []
            for cur, y in res:
                for dv, z in self.ev(d, y, fr):
                    nxt.extend(self.apply_decorator(dv, cur, z, fr, d, fn))
            res = nxt
        return res

    def apply_decorator(self, dv, cur, st, fr, node, fn=None):
        if dv.op == "builtin" and dv[0] in ("property", "classmethod", "staticmethod"):
            return [(t(dv[0], cur), st)]
        if dv.op == "call" and dv[0] == "functools.wraps" and cur.op == "closure":
            return [(t("closure", cur[0], cur[1], self.fname(dv[1][0])), st)]
        if dv.op == "ext":
            if dv[0] in ("contextlib.contextmanager",):
                return [(t("cmfn", cur), st)]
            if dv[0] in ("functools.lru_cache", "functools.cache"):
                return [(t("cachedfn", cur), st)]
            if dv[0] == "functools.cached_property":
                return [(t("property", t("cachedfn", cur)), st)]
        if dv.op == "call" and isinstance(dv[0], str) and dv[0] == "functools.lru_cache":
            return [(t("cachedfn", cur), st)]
        if dv.op in ("func", "closure", "bound", "phi", "class"):
            return self.call(dv, [cur], {}, st, fr, node)
        self.meta.setdefault(self.fqual(cur), []).append(dv)
        return [(cur, st)]

    def fname(self, f):
        if f.op == "closure":
            return f[2]
        if f.op in ("func", "class"):
            return f[0].split(".")[-1]
        if f.op in ("cachedfn", "cmfn", "property", "classmethod", "staticmethod"):
            return self.fname(f[0])
        if f.op == "bound":
            return self.fname(f[0])
        return "?"

    def fqual(self, f):
        """Qualified name of the undecorated function behind a function value."""
        seen = 0
        while seen < 10:
            seen += 1
            if f.op in ("cachedfn", "cmfn", "property", "classmethod", "staticmethod"):
                f = f[0]
            elif f.op == "bound":
                f = f[0]
            elif f.op == "func":
                return f[0]
            elif f.op == "closure":
                inner = self.gstate.env.get((f[1], "func"))
                if inner is not None and f[2] == self.fname(inner):
                    f = inner
                    continue
                for (fid, nm), v in list(self.gstate.env.items()) if False else []:
                    pass
                fr = self.frames.get(f[1])
                nxt = None
                if fr is not None:
                    for nm in (fr.fn.params if fr.fn else []):
                        v = self.gstate.env.get((f[1], nm))
                        if v is not None and v.op in ("func", "closure", "cachedfn") and self.fname(v) == f[2]:
                            nxt = v
                if nxt is None:
                    return f[0]
                f = nxt
            else:
                return f[0] if f.args and isinstance(f[0], str) else f.op
        return "?"

    def e_JoinedStr(self, e, st, fr):
        res = [([], st)]
        for p in e.values:
            nxt = []
            for vs, y in res:
                if isinstance(p, ast.Constant):
                    nxt.append((vs + [const(p.value)], y))
                else:
                    for v, z in self.ev(p.value, y, fr):
                        if is_const(v) and p.format_spec is None:
                            try:
                                v = const(repr(v[0]) if p.conversion == 114 else str(v[0]))
                            except Exception:
                                pass
                        elif v.op == "fstr" and p.format_spec is None and p.conversion == -1:
                            nxt.append((vs + list(v.args), z))
                            continue
                        nxt.append((vs + [v], z))
            res = nxt
        out = []
        for vs, y in res:
            parts = []
            for v in vs:
                if is_const(v) and isinstance(v[0], str) and parts and is_const(parts[-1]) and isinstance(parts[-1][0], str):
                    parts[-1] = const(parts[-1][0] + v[0])
                else:
                    parts.append(v)
            if not parts:
                out.append((const(""), y))
            elif len(parts) == 1 and is_const(parts[0]) and isinstance(parts[0][0], str):
                out.append((parts[0], y))
            else:
                out.append((t("fstr", *parts), y))
        return out

    def e_Attribute(self, e, st, fr):
        return [r for b, y in self.ev(e.value, st, fr) for r in self.get_attr(b, e.attr, y, fr, e)]

    def e_Subscript(self, e, st, fr):
        out = []
        for b, y in self.ev(e.value, st, fr):
            for i, z in self.ev(e.slice, y, fr):
                out.extend(self.subscript(b, i, z, fr, e))
        return out

    def subscript(self, b, i, st, fr, node):
        if b.op == "phi":
            return [r for o in b.args for r in self.subscript(o, i, st.clone(), fr, node)]
        c = self.class_of(b, st)
        if c is not None and c.find("__getitem__"):
            return self.call_method(b, "__getitem__", [i], {}, st, fr, node)
        if b.op == "ext":
            self.emit("extitem", st, fr, node, recv=b, key=i)
        v = self.get_item(b, i, st, fr, node)
        if v.op == "item" and v[0] is b and self.has_default(b, st):
            # reading a missing key of a defaultdict creates it
            old = self.content(b, st)
            x = old
            n = 0
            while x.op == "upd" and x[0] == "dflt" and x[2][0] is not i and n < 30:
                x, n = x[1], n + 1
            if not (x.op == "upd" and x[0] == "dflt" and x[2][0] is i):
                st = st.clone()
                st.heap[b] = t("upd", "dflt", old, (i,))
        return [(v, st)]

    def has_default(self, b, st):
        x = b
        for _ in range(6):
            if ("@", x, "default_factory") in st.env:
                return True
            if x.op == "mu":
                d = self.mus.get(x)
                if d is None or d["init"] is None or d["init"] is x:
                    return False
                x = d["init"]
                continue
            return False
        return False

    def get_item(self, b, i, st, fr, node):
        if b.op == "phi":
            return phi([self.get_item(o, i, st, fr, node) for o in b.args])
        if b.op in ("row",) and is_const(i) and not isinstance(i[0], slice):
            return t("col", b, i[0])
        if b.op == "tuple" and is_const(i) and isinstance(i[0], int) and not any(a.op == "star" for a in b.args):
            if -len(b.args) <= i[0] < len(b.args):
                return b.args[i[0]]
        if b.op == "tuple" and i.op == "slice" and all(is_const(a) for a in i.args) and not any(a.op == "star" for a in b.args):
            return tup(*b.args[slice(*[a[0] for a in i.args])])
        if is_const(b) and is_const(i):
            try:
                return const(b[0][i[0]])
            except Exception:
                pass
        if b.op == "class" or (b.op == "ext" and b[0].split(".")[0] in ("typing", "collections", "concurrent", "types", "os")):
            return b
        c = self.content(b, st)
        n = 0
        while c.op == "upd" and c[0] in ("setitem", "delitem", "dflt") and n < 40:
            n += 1
            k = c[2][0]
            if c[0] == "dflt" and k is not i:
                c = c[1]
                continue
            if c[0] == "setitem" and k is i:
                return c[2][1]
            if is_const(k) and is_const(i) and k is not i:
                c = c[1]
                continue
            break
        if c.op == "kwdict":
            for k, v in c[0]:
                if (k if isinstance(k, T) else const(k)) is i:
                    return v
        if c.op in ("list", "set") and c is not b and is_const(i) and isinstance(i[0], int) and not any(a.op == "star" for a in c.args):
            if -len(c.args) <= i[0] < len(c.args):
                return c.args[i[0]]
        if c.op == "rows" and is_const(i, 0):
            return t("row", c[0], ("@first",))
        if c.op == "dictcomp":
            ev = self.fresh_comp(c, ("@get", i))
            if ev[0] is i:
                return ev[1]
            el = c[1]
            if el.op in ("elem", "row", "col", "tupitem") and c[2] is not None:
                # {k: f(k) for k in ks}[i] == f(i) (if i is one of ks)
                from .terms import rewrite
                return rewrite(c[2], lambda x: i if x is el else x)
        return t("item", b, i)

    def e_Slice(self, e, st, fr):
        res = [([], st)]
        for p in (e.lower, e.upper, e.step):
            if p is None:
                res = [(vs + [NONE], y) for vs, y in res]
            else:
                res = [(vs + [v], z) for vs, y in res for v, z in self.ev(p, y, fr)]
        return [(t("slice", *vs), y) for vs, y in res]

    def e_Tuple(self, e, st, fr):
        return [(tup(*vs), y) for vs, y in self.ev_list(e.elts, st, fr)]

    def alloc(self, kind, content, st, fr, node, extra=None):
        c = t("cell", kind, ("@",) + self.site(fr, node, extra))
        st.heap[c] = content
        self.bear(c, content)
        return c

    def bear(self, c, content):
        self.born.setdefault(c, content)
        if self.born[c] is not content:
            self.born[c] = phi([self.born[c], content])

    def e_List(self, e, st, fr):
        out = []
        for vs, y in self.ev_list(e.elts, st, fr):
            y = y.clone()
            out.append((self.alloc("list", t("list", *vs), y, fr, e), y))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for vs, y in self.ev_list(e.elts, st, fr):
            y = y.clone()
            out.append((self.alloc("set", t("set", *vs), y, fr, e), y))
        return out

    def e_Dict(self, e, st, fr):
        res = [([], st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for ps, y in res:
                if k is None:
                    for w, z in self.ev(v, y, fr):
                        c = self.content(w, z)
                        nxt.append((ps + list(c[0]) if c.op == "kwdict" else ps + [("**", w)], z))
                else:
                    for kk, z in self.ev(k, y, fr):
                        for w, u in self.ev(v, z, fr):
                            nxt.append((ps + [(kk, w)], u))
            res = nxt
        out = []
        for ps, y in res:
            y = y.clone()
            out.append((self.alloc("dict", t("kwdict", tuple(ps)), y, fr, e), y))
        return out

    def e_BinOp(self, e, st, fr):
        op = OPS[type(e.op)]
        out = []
        for a, y in self.ev(e.left, st, fr):
            for b, z in self.ev(e.right, y, fr):
                for x, w in ((x, w) for x in options(a) for w in options(b)) if len(options(a)) * len(options(b)) <= 4 else ((a, b),):
                    ca, cb = self.content(x, z), self.content(w, z)
                    if op == "+" and ca.op == "list" and cb.op == "list":
                        z2 = z.clone()
                        out.append((self.alloc("list", t("list", *ca.args, *cb.args), z2, fr, e), z2))
                        continue
                    if op in ("/", "//", "%") and not is_const(cb) and not self.is_str(ca):
                        self.emit("divide", z, fr, e, a=ca, b=cb)
                    v = self.binop(op, ca, cb)
                    if ca is not x or cb is not w:
                        z2 = z.clone()
                        out.append((self.alloc("binop", v, z2, fr, e) if v.op == "bin" else v, z2))
                    else:
                        out.append((v, z))
        return out

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                x, y = a[0], b[0]
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "/": lambda: x / y,
                     "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 100 else 1 / 0, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
                return const(r)
            except Exception:
                pass
        if op == "+" and (self.is_str(a) or self.is_str(b)):
            pa = list(a.args) if a.op == "fstr" else [a]
            pb = list(b.args) if b.op == "fstr" else [b]
            if pa and pb and is_const(pa[-1]) and is_const(pb[0]) and isinstance(pa[-1][0], str) and isinstance(pb[0][0], str):
                pa[-1:] = [const(pa[-1][0] + pb[0][0])]
                pb = pb[1:]
            return t("fstr", *pa, *pb)
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return tup(*a.args, *b.args)
        if op in ("+", "-") and is_const(b, 0):
            return a
        if op == "+" and is_const(a, 0):
            return b
        return t("bin", op, a, b)

    def is_str(self, x):
        return (is_const(x) and isinstance(x[0], str)) or x.op == "fstr"

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(const(b), y) for b, y in self.cond(e, st, fr)]
        out = []
        for v, y in self.ev(e.operand, st, fr):
            if is_const(v) and isinstance(v[0], (int, float)):
                out.append((const({ast.USub: lambda: -v[0], ast.UAdd: lambda: +v[0], ast.Invert: lambda: ~v[0]}[type(e.op)]()), y))
            else:
                out.append((t("neg" if isinstance(e.op, ast.USub) else "unary", v), y))
        return out

    def e_BoolOp(self, e, st, fr):
        isor = isinstance(e.op, ast.Or)
        out = []
        cur = [st]
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for y in cur:
                if isinstance(v, (ast.Compare,)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                    for b, z in self.cond(v, y, fr):
                        if last or b == isor:
                            out.append((const(b), z))
                        else:
                            nxt.append(z)
                    continue
                for w, z in self.ev(v, y, fr):
                    if last:
                        out.append((w, z))
                        continue
                    for b, u in self.branch(self.truth(w, z), z):
                        if b == isor:
                            out.append((self.narrow(w, b), u))
                        else:
                            nxt.append(u)
            cur = nxt
        return out

    def narrow(self, v, truth):
        if v.op != "phi":
            return v
        opts = [o for o in v.args if not (is_const(o) and bool(o[0]) != truth)]
        return phi(opts) if opts else v

    def e_Compare(self, e, st, fr):
        return [(const(b), y) for b, y in self.cond(e, st, fr)]

    def e_IfExp(self, e, st, fr):
        return [r for b, y in self.cond(e.test, st, fr) for r in self.ev(e.body if b else e.orelse, y, fr)]

    def e_NamedExpr(self, e, st, fr):
        return [(v, z) for v, y in self.ev(e.value, st, fr) for z in self.assign(e.target, v, y, fr)]

    def e_Starred(self, e, st, fr):
        return [(t("star", v), y) for v, y in self.ev(e.value, st, fr)]

    def e_Lambda(self, e, st, fr):
        q = f"{fr.fn.qual if fr.fn else fr.mod.name}.<lambda>@{e.lineno}:{e.col_offset}"
        if q not in self.fns:
            self.fns[q] = Fn(fr.mod, e, q, cls=fr.cls, parent=fr.fn)
        self.frames[fr.fid] = fr
        return [(t("closure", q, fr.fid, "<lambda>"), st)]

    def e_Yield(self, e, st, fr):
        vals = [(NONE, st)] if e.value is None else self.ev(e.value, st, fr)
        out = []
        for v, y in vals:
            y = y.clone()
            self.emit("yield", y, fr, e, value=v)
            oy = fr.on_yield
            f = fr
            if oy is None:
                out.append((NONE, y))
            else:
                out.extend((NONE, z) for z in self.merge(oy(v, y)))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for it, y in self.ev(e.value, st, fr):
            def body(v, z):
                z = z.clone()
                self.emit("yield", z, fr, e, value=v)
                if fr.on_yield is None:
                    return [("next", None, z)]
                return [("next", None, w) for w in fr.on_yield(v, z)]
            for k, v, z in self.iterate(it, y, body, fr, e):
                if k in ("exhausted", "next"):
                    out.append((NONE, z))
        return out

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        gid = self.site(fr, e)
        self.genexps[gid] = e
        self.frames[fr.fid] = fr
        return [(t("genexp", gid, fr.fid, v), y) for v, y in self.ev(e.generators[0].iter, st, fr)]

    def comp(self, e, kind, elts, st, fr):
        out = []
        for first, y in self.ev(e.generators[0].iter, st, fr):
            for c, z in self.run_comp(e, kind, elts, first, y, fr):
                z = z.clone()
                out.append((self.alloc("dict" if kind == "dictcomp" else kind, c, z, fr, e), z))
        return out

    def run_comp(self, e, kind, elts, first, st, fr):
        """Content terms of a comprehension: [(content, state)]."""
        got = []  # (values, conds, loops, state)
        base = len(self.loops)

        def go(i, z, conds):
            if i == len(e.generators):
                r = []
                for vs, w in self.ev_list(elts, z, fr):
                    got.append((tuple(vs), conds, tuple(self.loops[base:])))
                    r.append(("next", None, w))
                return r
            g = e.generators[i]
            res = []
            for itv, w in [(first, z)] if i == 0 else self.ev(g.iter, z, fr):
                lazy = self.is_lazy(itv)

                def inner(el, y, w=w, lazy=lazy):
                    r = []
                    # what a nested lazy iterable has left out is left out here as well
                    held = tuple((k, v) for k, v in y.facts.items() if k not in w.facts and about_element(k)) if lazy else ()
                    for x in self.assign(g.target, el, y, fr):
                        states = [(True, x, conds + held)]
                        for c in g.ifs:
                            nx = []
                            for b, y1, cs in states:
                                if not b:
                                    nx.append((b, y1, cs))
                                    continue
                                for b2, y2 in self.cond(c, y1, fr):
                                    new = tuple((k, v) for k, v in y2.facts.items() if k not in y1.facts)
                                    nx.append((b2, y2, cs + new if b2 else cs))
                            states = nx
                        for b, y1, cs in states:
                            if b:
                                r.extend(go(i + 1, y1, cs))
                            else:
                                r.append(("continue", None, y1))
                    return r
                for k, v, y in self.iterate(itv, w, inner, fr, g.iter):
                    res.append(("next", None, y) if k in ("exhausted", "next") else (k, v, y))
            return res

        states = self.merge([y for k, v, y in go(0, st, ()) if k == "next"])
        return [(self.comp_term(kind, got), y) for y in states]

    def comp_term(self, kind, got):
        uniq = []
        for g in got:
            if g not in uniq:
                uniq.append(g)
        n = 2 if kind == "dictcomp" else 1
        if not uniq:
            return t("kwdict", ()) if n == 2 else t("list")
        if all(not loops and not conds for _, conds, loops in uniq):
            if n == 2:
                return t("kwdict", tuple((vs[0], vs[1]) for vs, _, _ in uniq))
            return t("set" if kind == "set" else "list", *[vs[0] for vs, _, _ in uniq])
        # the last fixpoint pass decides: keep entries of the same loops only
        vals = [phi([vs[i] for vs, _, _ in uniq]) for i in range(n)]
        cs = uniq[-1][1]
        for _, c2, _ in uniq:
            if len(cs) == len(c2):
                # the same conditions about values that differ between the paths
                both = [one if one == two else (unify(one[0], two[0]), one[1]) if one[1] is two[1] else None for one, two in zip(cs, c2)]
                if all(b is not None and b[0] is not None for b in both):
                    cs = tuple(both)
                    continue
            cs = tuple(x for x in cs if x in c2)
        loops = tuple(l for _, _, ls in uniq[-1:] for l in ls)
        alll = []
        for _, _, ls in uniq:
            for l in ls:
                if l not in alll:
                    alll.append(l)
        return t("dictcomp" if n == 2 else "comp", kind, *vals, cs, tuple(alll))

    def e_ListComp(self, e, st, fr):
        return self.comp(e, "list", [e.elt], st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, "set", [e.elt], st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp(e, "dictcomp", [e.key, e.value], st, fr)

    def consume(self, it, st, fr, node, kind="list"):
        """Run a lazy iterable to its end: [(content term, state)]."""
        if it.op == "phi":
            return [r for o in it.args for r in self.consume(o, st.clone(), fr, node, kind)]
        if it.op == "genexp":
            e = self.genexps[it[0]]
            return self.run_comp(e, kind, [e.elt], it[2], st, self.frames[it[1]])
        got = []
        base = len(self.loops)
        f0 = st.facts

        def body(v, z):
            got.append(((v,), tuple((k, b) for k, b in z.facts.items() if k not in f0), tuple(self.loops[base:])))
            return [("next", None, z)]

        outs = self.iterate(it, st, body, fr, node)
        return [(self.comp_term(kind, got), y) for y in self.merge([y for k, v, y in outs if k in ("exhausted", "next")])]

    def is_logger(self, b, name, args):
        return (b.op == "call" and str(b[0]).startswith("logging.")) or (b.op == "attr" and str(b[1]).endswith("logger")) or \
            (b.op == "ext" and "log" in str(b[0])) or (name == "exception" and bool(args) and self.is_str(args[0]))

    def is_lazy(self, v):
        if v.op in ("gen", "genexp", "poolmap"):
            return True
        if v.op == "call" and v[0] in ("map", "zip", "enumerate", "iter", "itertools.chain", "itertools.chain.from_iterable", "itertools.islice", "reversed", "filter"):
            return any(self.is_lazy(a) for a in v[1])
        return False

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            isor = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for v in e.values:
                nxt = []
                for y in cur:
                    for b, z in self.cond(v, y, fr):
                        if b == isor:
                            out.append((isor, z))
                        else:
                            nxt.append(z)
                cur = nxt
            return out + [(not isor, z) for z in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, y) for b, y in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Compare):
            res = [([], y0) for y0 in [st]]
            out = []
            for left, y in self.ev(e.left, st, fr):
                cur = [(left, y)]
                for op, cexp in zip(e.ops, e.comparators):
                    nxt = []
                    for lv, z in cur:
                        for rv, w in self.ev(cexp, z, fr):
                            for b, u in self.compare(CMPS[type(op)], lv, rv, w):
                                if b:
                                    nxt.append((rv, u))
                                else:
                                    out.append((False, u))
                    cur = nxt
                out.extend((True, z) for _, z in cur)
            return out
        out = []
        for v, y in self.ev(e, st, fr):
            if v.op == "phi" and len(v.args) <= 4:
                for b, z in self.branch_phi(v, y):
                    out.append((b, z))
            else:
                out.extend(self.branch(self.truth(v, y), y))
        return out

    def branch_phi(self, v, st):
        """Truth of a joined value: split by option, narrowing the variables that hold it."""
        sides = {True: [], False: []}
        for o in v.args:
            if is_const(o):
                sides[bool(o[0])].append(o)
            elif o.op in ("tuple",):
                sides[bool(o.args)].append(o)
            elif o.op in ("obj", "func", "closure", "class", "conn", "cursor"):
                sides[True].append(o)
            else:
                sides[True].append(o)
                sides[False].append(o)
        known = st.facts.get(t("truth", v))
        out = []
        for b in (True, False):
            if not sides[b] or (known is not None and known != b):
                continue
            y = st.clone()
            y.facts[t("truth", v)] = b
            nv = phi(sides[b])
            if nv is not v:
                for k, x in y.env.items():
                    if x is v:
                        y.env[k] = nv
            if len(sides[b]) == 1 and not is_const(nv):
                y.facts[t("truth", self.content(nv, y))] = b
            out.append((b, y))
        return out

    def compare(self, op, a, b, st):
        if op in ("is", "is not", "==", "!=") and a.op == "phi" and is_const(b) and len(a.args) <= 6:
            want = op in ("is", "==")
            yes = [o for o in a.args if not (is_const(o) and not self.same_const(o, b)) and not self.never(o, b)]
            no = [o for o in a.args if o is not b]
            key, flip = self.norm_cmp(op if want else {"is not": "is", "!=": "=="}[op], a, b)
            out = []
            for truth, opts in ((True, yes), (False, no)):
                if not opts:
                    continue
                y = st.clone()
                nv = b if truth and is_const(b) else phi(opts)
                for k, x in y.env.items():
                    if x is a:
                        y.env[k] = nv
                if not is_const(key):
                    known = st.facts.get(key)
                    if known is not None and known != (truth != flip):
                        continue
                    y.facts[key] = truth != flip
                out.append((truth == want, y))
            return out
        if op in ("in", "not in"):
            k = self.known_elems(b, st)
            if k is not None and is_const(a) and all(is_const(x) for x in k):
                r = any(self.same_const(a, x) for x in k)
                return [(r == (op == "in"), st)]
            b = self.content(b, st) if self.content(b, st).op in ("list", "set", "const", "kwdict") else b
        if op in ("==", "!=", "<", "<=", ">", ">="):
            a, b = self.content(a, st), self.content(b, st)
        key, flip = self.norm_cmp(op, a, b)
        return [(x != flip, y) for x, y in self.branch(key, st)]

    def same_const(self, a, b):
        return type(a[0]) is type(b[0]) and a[0] == b[0] or (isinstance(a[0], (int, float)) and isinstance(b[0], (int, float)) and a[0] == b[0])

    def never(self, o, b):
        """o can never be the constant b."""
        if is_const(b, None):
            if o.op == "ext" and o[0].startswith("cherrypy.request."):
                return False  # data of the request
            if o.op == "row" and o[1] == ("@one",):
                return False  # fetchone: there may be no row
            return o.op in ("cell", "tuple", "obj", "func", "closure", "class", "conn", "cursor", "fstr", "rng", "future",
                            "tempdir", "gen", "genexp", "bin", "file", "bound", "row", "mod", "ext", "builtin", "neg", "list", "set",
                            "comp", "dictcomp", "kwdict", "rows", "upd", "partial") or (
                o.op == "call" and o[0] in ("len", "sorted", "list", "set", "int", "str", "range", "enumerate", "zip", "dict"))
        return False

    def norm_cmp(self, op, a, b):
        """(canonical condition term, flipped?)"""
        flip = False
        if op in ("!=", "is not", "not in"):
            op, flip = {"!=": "==", "is not": "is", "not in": "in"}[op], True
        if op == ">":
            op, a, b = "<", b, a
        elif op == ">=":
            op, flip = "<", not flip
        elif op == "<=":
            op, a, b, flip = "<", b, a, not flip
        if is_const(a) and is_const(b):
            try:
                x, y = a[0], b[0]
                r = {"==": lambda: x == y, "<": lambda: x < y, "is": lambda: x is y or (type(x) is type(y) and x == y),
                     "in": lambda: x in y}[op]()
                return const(bool(r)), flip
            except Exception:
                pass
        if op in ("is", "==") and a is b and a.op not in ("opaque", "any") and op == "is":
            return TRUE, flip
        if op in ("is", "==") and is_const(b, None) and self.never(a, b):
            return FALSE, flip
        if op == "is" and is_const(a) and not is_const(b):
            a, b = b, a
        # emptiness tests
        ln = lambda x: x.op == "call" and x[0] == "len"
        if op == "<" and is_const(a, 0) and ln(b):
            return t("truth", b[1][0]), flip
        if op == "<" and ln(a) and is_const(b, 1):
            return t("truth", a[1][0]), not flip
        if op == "==" and ln(a) and is_const(b, 0):
            return t("truth", a[1][0]), not flip
        if op == "==" and ln(b) and is_const(a, 0):
            return t("truth", b[1][0]), not flip
        if op == "==" and not is_const(b) and (is_const(a) or a.n > b.n):
            a, b = b, a
        if op == "is" and isinstance(b, T) and is_const(b, True, False) is False and False:
            pass
        return t("cmp", op, a, b), flip

    def truth(self, v, st):
        c = self.content(v, st)
        if is_const(v):
            return const(bool(v[0]))
        if v.op == "tuple" and not any(a.op == "star" for a in v.args):
            return const(bool(v.args))
        if v.op in ("func", "closure", "class", "conn", "cursor", "future", "mod", "bound", "gen", "genexp", "rng"):
            return TRUE
        if v.op == "obj":
            cl = self.clss.get(v[0])
            if cl is not None and not cl.find("__len__") and not cl.find("__bool__"):
                return TRUE
        if v.op == "truth":
            return v
        if v.op == "call" and v[0] in ("bool", "len") and len(v[1]) == 1:
            return self.truth(v[1][0], st)
        if v.op in ("isinstance", "cmp", "match"):
            return v
        if c is not v:
            if c.op in ("list", "set") and (not c.args or not any(a.op == "star" for a in c.args)):
                return const(bool(c.args))
            if c.op == "kwdict":
                return const(bool(c[0])) if not any(k == "**" for k, _ in c[0]) else t("truth", c)
            if c.op == "call" and c[0] in ("list", "set", "sorted", "dict") and len(c[1]) >= 1 and not self.is_lazy(c[1][0]):
                return self.truth(c[1][0], st)
            if c.op == "upd" and c[0] in ("add", "setitem"):
                return TRUE
            return t("truth", c)
        return t("truth", v)

    def branch(self, c, st):
        """Fork on a canonical condition: [(bool, state)]."""
        if is_const(c):
            return [(bool(c[0]), st)]
        f = False
        while c.op == "not":
            c, f = c[0], not f
        known = st.facts.get(c)
        if known is None:
            known = self.implied(c, st)
        if known is not None:
            return [(known != f, st)]
        a, b = st.clone(), st.clone()
        a.facts[c], b.facts[c] = True, False
        self.refine(c, True, a)
        self.refine(c, False, b)
        return [(not f, a), (f, b)]

    def refine(self, c, val, st):
        if c.op == "cmp" and c[0] in ("is", "==") and val and is_const(c[2]) and not is_const(c[1]) and c[0] == "is":
            st.facts.setdefault(t("truth", c[1]), bool(c[2][0]))
        if c.op == "truth" and val:
            st.facts.setdefault(t("cmp", "is", c[0], NONE), False)
            st.facts.setdefault(t("cmp", "==", c[0], NONE), False)

    def implied(self, c, st):
        if c.op == "cmp" and c[0] in ("is", "==") and is_const(c[2]) and c[0] == "==":
            # equal to another constant already?
            for k, v in st.facts.items():
                if v and k.op == "cmp" and k[0] == "==" and k[1] is c[1] and is_const(k[2]) and k[2] is not c[2]:
                    return False
        return None

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, st, fr):
        """-> states"""
        if isinstance(tg, ast.Name):
            st = st.clone()
            f = fr
            if fr.fn is not None and tg.id in fr.fn.nonlocals:
                f = fr.parent
                while f is not None and f.fn is not None and tg.id not in f.fn.locals:
                    f = f.parent
                f = f or fr
            elif fr.fn is not None and tg.id in fr.fn.globals_decl:
                self.emit("setglobal", st, fr, tg, name=tg.id, value=v)
                st.env[(("m", fr.mod.name), tg.id)] = v
                return [st]
            st.env[(f.fid, tg.id)] = v
            return [st]
        if isinstance(tg, ast.Attribute):
            out = []
            for b, y in self.ev(tg.value, st, fr):
                y = y.clone()
                self.set_attr(b, tg.attr, v, y, fr, tg)
                out.append(y)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for b, y in self.ev(tg.value, st, fr):
                for i, z in self.ev(tg.slice, y, fr):
                    z = z.clone()
                    self.mutate(b, "setitem", (i, v), z, fr, tg)
                    out.append(z)
            return out
        if isinstance(tg, (ast.Tuple, ast.List)):
            if v.op == "phi":
                out = []
                for o in v.args:
                    out.extend(self.assign(tg, o, st.clone(), fr))
                return self.merge(out)
            if self.is_lazy(v):
                states = []
                for c, y in self.consume(v, st, fr, tg):
                    y = y.clone()
                    cell = self.alloc("list", c, y, fr, tg)
                    states.extend(self.assign_seq(tg, cell, y, fr))
                return states
            return self.assign_seq(tg, v, st, fr)
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, st, fr)
        return [st]

    def assign_seq(self, tg, v, st, fr):
        n = len(tg.elts)
        star = next((i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)), None)
        vals = None
        k = self.known_elems(v, st) if v.op in ("tuple", "cell", "const") else None
        st = st.clone()
        self.emit("unpack", st, fr, tg, value=v, n=n, star=star is not None)
        if k is not None and (len(k) == n if star is None else len(k) >= n - 1):
            if star is None:
                vals = k
            else:
                tail = n - 1 - star
                mid = k[star:len(k) - tail]
                cell = self.alloc("list", t("list", *mid), st, fr, tg)
                vals = k[:star] + [cell] + (k[len(k) - tail:] if tail else [])
        if vals is None:
            vals = []
            for i in range(n):
                if star is not None and i >= star:
                    vals.append(t("rest", v, i))
                elif v.op == "row":
                    vals.append(t("col", v, i))
                else:
                    vals.append(self.tupitem(v, i, st))
        states = [st]
        for e, x in zip(tg.elts, vals):
            states = [z for y in states for z in self.assign(e, x, y, fr)]
        return states

    def tupitem(self, v, i, st):
        r = self.get_item(v, const(i), st, None, None)
        return r

    # ------------------------------------------------------------ attributes
    def get_attr(self, b, name, st, fr, node):
        if b.op == "phi":
            out = []
            for o in b.args:
                if is_const(o, None) or o.op == "unbound":
                    continue
                out.extend(self.get_attr(o, name, st.clone(), fr, node))
            if not out:
                return [(t("attr", b, name), st)]
            vals = {v for v, _ in out}
            return out
        k = ("@", b, name)
        if k in st.env:
            v = st.env[k]
            if v.op == "phi" and any(o.op == "unbound" for o in v.args):
                v = phi([o for o in v.args if o.op != "unbound"])
            return [(v, st)]
        if b.op == "conn" and name == "in_transaction":
            for m in self.monitors:
                v = m.open_txn(b, st)
                if v is not None:
                    return [(const(v), st)]
            return [(t("call", "in_transaction", (b,), (), ("@",) + self.site(fr, node)), st)]
        if b.op == "mod":
            r = self.p.member(b[0], name)
            if r is None:
                return [(t("attr", b, name), st)]
            key = (("m", b[0]), name)
            if key in st.env:
                return [(st.env[key], st)]
            return [(self.binding(r, name), st)]
        if b.op == "ext":
            x = f"{b[0]}.{name}"
            return [(self.ext_values.get(x) or t("ext", x), st)]
        if b.op in ("func", "closure", "cachedfn", "cmfn", "bound"):
            if name in ("__name__", "__qualname__"):
                return [(const(self.fname(b)), st)]
            if name == "__wrapped__":
                return [(b, st)]
            return [(t("attr", b, name), st)]
        if b.op == "class":
            c = self.clss.get(b[0])
            if c is not None:
                if name == "__name__":
                    return [(const(c.name), st)]
                f = c.find(name)
                if f is not None:
                    v = self.func_value(f)
                    if v.op == "classmethod":
                        return [(t("bound", v[0], b), st)]
                    if v.op == "staticmethod":
                        return [(v[0], st)]
                    return [(v, st)]
                a = c.find_attr(name)
                if a is not None:
                    return [(self.geval(a[1], a[0].module), st)]
            return [(t("attr", b, name), st)]
        if b.op == "super":
            c0, obj = self.clss.get(b[0]), b[1]
            dyn = self.class_of(obj, st) or c0
            mro = dyn.mro()
            after = mro[mro.index(c0) + 1:] if c0 in mro else (c0.mro()[1:] if c0 else [])
            for c in after:
                if name in c.methods:
                    v = self.func_value(c.methods[name])
                    if v.op == "property":
                        return self.call(v[0], [obj], {}, st, fr, node)
                    return [(t("bound", v, obj), st)]
            return [(t("attr", b, name), st)]
        c = self.class_of(b, st)
        if c is not None:
            f = c.find(name)
            if f is not None:
                v = self.func_value(f)
                if v.op == "property":
                    if f.qual in self.opaque:
                        return [(t("attr", b, name), st)]
                    return self.call(v[0], [b], {}, st, fr, node)
                if v.op == "staticmethod":
                    return [(v[0], st)]
                if v.op == "classmethod":
                    return [(t("bound", v[0], t("class", c.qual)), st)]
                return [(t("bound", v, b), st)]
            a = c.find_attr(name)
            if a is not None:
                return [(self.geval(a[1], a[0].module), st)]
            if name == "__class__":
                return [(t("class", c.qual), st)]
        if b.op == "tempdir" and name == "name":
            return [(t("attr", b, "name"), st)]
        return [(t("attr", b, name), st)]

    def set_attr(self, b, name, v, st, fr, node):
        for o in options(b):
            self.emit("setattr", st, fr, node, obj=o, name=name, value=v)
            if len(options(b)) == 1:
                st.env[("@", o, name)] = v
            else:
                st.env[("@", o, name)] = phi([v, st.env.get(("@", o, name), t("attr", o, name))])

    def class_of(self, x, st):
        if x.op == "obj":
            return self.clss.get(x[0])
        if self.typer is not None:
            c = self.typer(x)
            if c is not None:
                return c
        return None

    # ------------------------------------------------------------ mutation
    def mutate(self, ref, op, args, st, fr, node, aug=False):
        for o in options(ref):
            old = self.content(o, st)
            self.emit("mutate", st, fr, node, ref=o, op=op, args=args, old=old, aug=aug)
            if old.op == "upd" and old[0] == op and old[2] == tuple(args) and op == "add":
                continue
            new = t("upd", op, old, tuple(args))
            if op == "clear":
                new = t("kwdict", ()) if o.op == "cell" and o[0] == "dict" else t("list")
            elif op == "add" and old.op == "list" and len(old.args) < 40 and not any(a.op == "star" for a in old.args) and not self.loops:
                new = t("list", *old.args, *args)
            st.heap[o] = new if len(options(ref)) == 1 else phi([old, new])
            self.changed.add(o)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and fr.cls is not None:
            f = fr
            while f is not None and f.self_term is None:
                f = f.parent
            return [(t("super", fr.cls.qual, f.self_term if f else NONE), st)]
        if isinstance(e.func, ast.Attribute):
            heads = []
            for b, y in self.ev(e.func.value, st, fr):
                for o in options(b):
                    if len(options(b)) > 1 and (is_const(o, None) or o.op == "unbound"):
                        continue
                    heads.append((o, y if len(options(b)) == 1 else y.clone()))
            for b, y in heads:
                for args, kw, z in self.ev_args(e, y, fr):
                    out.extend(self.call_method(b, e.func.attr, args, kw, z, fr, e))
            return self.merge_vals(out)
        for f, y in self.ev(e.func, st, fr):
            for args, kw, z in self.ev_args(e, y, fr):
                out.extend(self.call(f, args, kw, z, fr, e))
        return self.merge_vals(out)

    def merge_vals(self, out):
        if len(out) <= 4:
            return out
        groups = {}
        for v, y in out:
            groups.setdefault(v, []).append(y)
        res = [(v, z) for v, ys in groups.items() for z in self.merge(ys)]
        if len(res) <= 24:
            return res
        byk = {}
        for v, y in res:
            byk.setdefault(self.key(y), []).append((v, y))
        return [(phi([v for v, _ in g]), self.join([y for _, y in g])) for g in byk.values()]

    def ev_args(self, e, st, fr):
        out = []
        for vs, y in self.ev_list(e.args, st, fr):
            res = [({}, y)]
            for k in e.keywords:
                nxt = []
                for d, z in res:
                    for v, w in self.ev(k.value, z, fr):
                        d2 = dict(d)
                        if k.arg is not None:
                            d2[k.arg] = v
                        else:
                            c = self.content(v, w)
                            if c.op == "kwdict" and all(not isinstance(a, T) or (is_const(a) and isinstance(a[0], str)) for a, _ in c[0]):
                                for a, x in c[0]:
                                    d2[a[0] if isinstance(a, T) else a] = x
                            else:
                                d2["**"] = v
                        nxt.append((d2, w))
                res = nxt
            out.extend((vs, d, z) for d, z in res)
        return out

    def call(self, f, args, kw, st, fr, node):
        op = f.op
        if op == "phi":
            return [r for o in f.args for r in self.call(o, args, kw, st.clone(), fr, node)]
        if op == "func":
            return self.call_fn(f, self.fns[f[0]], None, args, kw, st, fr, node)
        if op == "closure":
            return self.call_fn(f, self.fns[f[0]], self.frames.get(f[1]), args, kw, st, fr, node)
        if op == "bound":
            return self.call(f[0], [f[1]] + list(args), kw, st, fr, node)
        if op == "cmfn":
            out = []
            for g, y in self.call(f[0], args, kw, st, fr, node):
                out.append((t("cmgen", *g.args) if g.op == "gen" else g, y))
            return out
        if op == "cachedfn":
            st = st.clone()
            self.emit("cachedcall", st, fr, node, fn=self.fqual(f), args=tuple(args))
            return [(t("cached", self.fqual(f), tuple(args), v), y) for v, y in self.call(f[0], args, kw, st, fr, node)]
        if op == "partial":
            return self.call(f[0], list(f[1]) + list(args), {**dict(f[2]), **kw}, st, fr, node)
        if op == "class":
            return self.instantiate(f, args, kw, st, fr, node)
        if op == "builtin":
            return self.call_builtin(f[0], args, kw, st, fr, node)
        if op == "ext":
            return self.call_ext(f[0], args, kw, st, fr, node)
        if op == "attr":
            return self.call_method(f[0], f[1], args, kw, st, fr, node, resolved=True)
        st = st.clone()
        self.emit("call", st, fr, node, name=None, f=f, args=tuple(args), kw=kw)
        self.may_raise(st, ("Exception", "BaseException"), self.site(fr, node))
        out = []
        for a2, y in self.consume_args(args, st, fr, node):
            out.append((t("fcall", f, tuple(a2), tuple(sorted(kw.items()))), y))
        return out

    def consume_args(self, args, st, fr, node):
        return [(list(args), st)]

    def bind(self, fn, args, kw, st, fr, node, site):
        """Bind arguments to parameters: list of (name, value), or None when they do not fit."""
        vals, extra, starred = {}, [], None
        pos = list(fn.posargs)
        ok = True
        for i, a in enumerate(args):
            if a.op == "star":
                starred = a[0]
                for n in pos:
                    if n not in kw and n not in fn.defaults:
                        vals[n] = t("unstar", a[0], n)
                pos = []
                if fn.vararg:
                    extra.append(a)
                continue
            if pos:
                vals[pos.pop(0)] = a
            elif fn.vararg or starred is not None:
                extra.append(a)
            else:
                ok = False
        kwextra = []
        for k, v in kw.items():
            if k == "**":
                kwextra.append(("**", v))
                for n in fn.posargs + fn.kwonly:
                    if n not in vals and n not in kw:
                        vals[n] = t("unstar", v, n) if n not in fn.defaults else t("kwget", v, n)
            elif k in fn.posargs or k in fn.kwonly:
                if k in vals and starred is None:
                    ok = False
                vals[k] = v
            elif fn.kwarg:
                kwextra.append((k, v))
            else:
                ok = False
        mf = None
        for n in fn.posargs + fn.kwonly:
            if n not in vals:
                if n in fn.defaults:
                    d = fn.defaults[n]
                    if fn.parent is None:
                        vals[n] = self.geval(d, fn.module)
                    else:
                        r = self.ev(d, st, fr)
                        vals[n] = r[0][0] if r else t("opaque", n)
                else:
                    ok = False
                    vals[n] = t("missing", n)
        if fn.vararg:
            vals[fn.vararg] = tup(*extra)
        if fn.kwarg:
            c = t("cell", "dict", ("@kw",) + site)
            st.heap[c] = t("kwdict", tuple(kwextra))
            vals[fn.kwarg] = c
        return vals, ok

    def call_fn(self, fterm, fn, parent, args, kw, st, fr, node):
        from .interp import Frame
        site = self.site(fr, node, fn.qual)
        st = st.clone()
        vals, ok = self.bind(fn, args, kw, st, fr, node, site)
        ev = self.emit("pcall", st, fr, node, qual=fn.qual, args=vals, ok=ok, fn=fn)
        if not ok:
            self.emit("badcall", st, fr, node, qual=fn.qual, args=tuple(args), kw=tuple(sorted(kw)))
        if self.hook is not None:
            r = self.hook(self, fn, vals, st, fr, node)
            if r is not None:
                return r
        if fn.qual in self.opaque:
            self.may_raise(st, ("Exception", "BaseException"), site)
            return [(t("pcall", fn.qual, tuple(sorted((k, v) for k, v in vals.items() if isinstance(v, T)))), st)]
        if fn.is_gen:
            return [(t("gen", fn.qual, parent.fid if parent else None, tuple(vals.items()), site), st)]
        again = self.stack.count(fn.qual)
        if again >= 2 and parent is not None and again < 6:
            again = self.closures.count((fn.qual, parent.fid))
        if again >= 2 or len(self.stack) > 40:
            return [(t("pcall", fn.qual, tuple(sorted((k, v) for k, v in vals.items() if isinstance(v, T)))), st)]
        fid = ("f", len(self.stack)) + (hash(site) & 0xFFFFFFFFFFFF,) + (fn.qual,)
        f2 = Frame(fid, fn, fn.module, fn.cls, parent, site)
        if fn.cls is not None and fn.posargs and fn.parent is None:
            f2.self_term = vals.get(fn.posargs[0])
        for n, v in vals.items():
            st.env[(fid, n)] = v
        keep = fn.qual in self.keepers or self.has_nested(fn)
        self.frames[fid] = f2
        self.stack.append(fn.qual)
        self.closures.append((fn.qual, parent.fid if parent is not None else None))
        self.live.append(fid)
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [("return", v, y) for v, y in self.ev(fn.node.body, st, f2)]
            else:
                outs = self.block(fn.node.body, st, f2)
        finally:
            self.closures.pop()
            self.stack.pop()
            self.live.pop()
        res = []
        for k, v, y in outs:
            v = NONE if k == "next" else v
            if k in ("next", "return"):
                if not keep:
                    y = y.clone()
                    for kk in [kk for kk in y.env if kk[0] == fid]:
                        del y.env[kk]
                res.append((v, y))
        groups = {}
        for v, y in res:
            groups.setdefault(v, []).append(y)
        return self.merge_vals([(v, z) for v, ys in groups.items() for z in self.merge(ys)])

    keepers = ()

    def has_nested(self, fn):
        r = self.nested_memo.get(fn.qual)
        if r is None:
            from .model import _own_nodes
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for n in _own_nodes(fn.node))
            self.nested_memo[fn.qual] = r
        return r

    def instantiate(self, cterm, args, kw, st, fr, node):
        c = self.clss[cterm[0]]
        bn = {b.split(".")[-1] for b in c.base_names()}
        if any(isinstance(getattr(_bi, b, None), type) and issubclass(getattr(_bi, b), BaseException) for b in bn):
            st = st.clone()
            return [(t("excinst", c.name, tuple(args)), st)]
        obj = t("obj", c.qual, ("@",) + self.site(fr, node))
        st = st.clone()
        self.emit("new", st, fr, node, cls=c, args=tuple(args), kw=kw, obj=obj)
        if c.qual in self.opaque:
            self.may_raise(st, ("Exception", "BaseException"), self.site(fr, node))
            return [(t("newobj", c.qual, tuple(args), tuple(sorted(kw.items()))), st)]
        init = c.find("__init__")
        if init is None:
            return [(obj, st)]
        return [(obj, y) for _, y in self.call(self.func_value(init), [obj] + list(args), kw, st, fr, node)]

    def call_builtin(self, name, args, kw, st, fr, node):
        if name == "super" and len(args) == 2 and args[0].op == "class":
            return [(t("super", args[0][0], args[1]), st)]
        b = getattr(_bi, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [(t("excinst", name, tuple(args)), st)]
        if name in CONSUMERS or name in ("str", "len"):
            lazy = [i for i, a in enumerate(args) if self.is_lazy(a)]
            if lazy:
                out = []
                for a2, y in self.consume_lazy(args, st, fr, node, name):
                    out.extend(self.call_builtin(name, a2, kw, y, fr, node))
                return out
        if name in FRESH_BUILTINS:
            st = st.clone()
            if name == "dict" and not args:
                return [(self.alloc("dict", t("kwdict", tuple(kw.items())), st, fr, node), st)]
            if not args:
                return [(self.alloc(name, t("list") if name != "set" else t("set"), st, fr, node), st)]
            a = args[0]
            kind = "list" if name == "sorted" else name
            ca = self.content(a, st)
            if a.op == "cursor" and name != "dict":
                self.emit("fetch", st, fr, node, cursor=a)
                self.may_raise(st, ("OperationalError", "BaseException"), self.site(fr, node))
                return [(self.alloc(kind, t("rows", a) if name == "list" else t("call", name, (a,), tuple(sorted(kw.items()))), st, fr, node), st)]
            for z in [st]:
                self.touch_lazy(a, z, fr, node)
            if name == "list" and ca is not a and ca.op in ("list", "comp"):
                return [(self.alloc(kind, ca, st, fr, node), st)]
            if name == "list" and a.op == "tuple" and not any(x.op == "star" for x in a.args):
                return [(self.alloc(kind, t("list", *a.args), st, fr, node), st)]
            if name == "dict" and ca.op in ("kwdict", "dictcomp") and not kw:
                return [(self.alloc(kind, ca, st, fr, node), st)]
            if name == "sorted" and "key" in kw:
                self.probe_call(kw["key"], [t("elem", a, ("@key",) + self.site(fr, node))], st, fr, node)
            return [(self.alloc(kind, t("call", name, tuple(args), tuple(sorted(kw.items()))), st, fr, node), st)]
        if name == "tuple":
            if not args:
                return [(tup(), st)]
            k = self.known_elems(args[0], st)
            if k is not None:
                return [(tup(*k), st)]
            return [(t("call", "tuple", (args[0],), ()), st)]
        if name == "len":
            k = self.known_elems(args[0], st) if args and args[0].op != "const" else None
            c = self.content(args[0], st)
            if args[0].op == "tuple" and k is not None:
                return [(const(len(k)), st)]
            if c.op in ("list",) and k is not None:
                return [(const(len(k)), st)]
            if is_const(c):
                try:
                    return [(const(len(c[0])), st)]
                except TypeError:
                    pass
            return [(t("call", "len", (c,), ()), st)]
        if name in ("max", "min", "abs", "int", "float", "str", "bool", "round", "sum", "range", "ord", "chr") and args and all(is_const(a) for a in args) and not kw:
            try:
                if name == "range":
                    return [(t("call", "range", tuple(args), ()), st)]
                return [(const(b(*[a[0] for a in args])), st)]
            except Exception:
                self.sink[-1].append((t("exc", "ValueError"), st))
                return []
        if name == "isinstance" and len(args) == 2:
            return [(self.isinstance_term(args[0], args[1], st), st)]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.get_attr(args[0], args[1][0], st, fr, node)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            st = st.clone()
            self.set_attr(args[0], args[1][0], args[2], st, fr, node)
            return [(NONE, st)]
        if name == "hasattr" and len(args) == 2:
            return [(t("cmp", "hasattr", args[0], args[1]), st)]
        if name == "next" and args:
            st = st.clone()
            it = args[0]
            if it.op == "genexp" or it.op == "gen":
                got = []

                def body(v, z):
                    got.append((v, z))
                    return [("break", None, z)]

                outs = self.iterate(it, st, body, fr, node)
                res = [(v, z) for v, z in got][-1:] if got else []
                if len(args) > 1:
                    res.append((args[1], st))
                return res or [(t("next", it, ("@",) + self.site(fr, node)), st)]
            if it.op == "cursor":
                self.emit("fetch", st, fr, node, cursor=it)
                return [(t("row", it, ("@first",)), st)] + ([(args[1], st)] if len(args) > 1 else [])
            self.may_raise(st, self.iter_faults(it), self.site(fr, node))
            return [(t("next", it, ("@",) + self.site(fr, node)), st)]
        if name == "open":
            st = st.clone()
            f = t("file", tuple(args), tuple(sorted(kw.items())), ("@",) + self.site(fr, node))
            self.emit("call", st, fr, node, name="open", args=tuple(args), kw=kw, result=f)
            self.may_raise(st, ("Exception", "BaseException"), self.site(fr, node))
            self.emit("acquire", st, fr, node, res=f)
            return [(f, st)]
        if name == "vars" or name == "locals":
            return [(t("opaque", self.site(fr, node)), st)]
        if name == "print":
            return [(NONE, st)]
        if name == "type" and len(args) == 1:
            c = self.class_of(args[0], st)
            if c is not None:
                return [(t("class", c.qual), st)]
        if name == "iter" and len(args) == 1:
            c = self.class_of(args[0], st)
            if args[0].op in ("gen", "genexp", "cursor"):
                return [(args[0], st)]
            return [(t("call", "iter", (args[0],), (), ("@",) + self.site(fr, node)), st)]
        if name in ("max", "min") and "key" in kw and args:
            self.probe_call(kw["key"], [t("elem", args[0], ("@key",) + self.site(fr, node))], st, fr, node)
        st = st.clone()
        for a in args:
            self.touch_lazy(a, st, fr, node, only=name not in ("zip", "enumerate", "map", "filter", "reversed", "iter", "id", "repr"))
        if name in ("map", "filter", "zip", "enumerate", "reversed", "range"):
            return [(t("call", name, tuple(args), tuple(sorted(kw.items()))), st)]
        margs = tuple(self.content(a, st) for a in args)
        return [(t("call", name, margs, tuple(sorted(kw.items()))), st)]

    def probe_call(self, f, args, st, fr, node):
        try:
            self.call(f, args, {}, st.clone(), fr, node)
        except RecursionError:
            raise

    def touch_lazy(self, a, st, fr, node, only=True):
        """Consuming an external lazy iterable may fail."""
        if only and a.op in ("mcall", "call", "fcall", "param", "cursor", "poolmap"):
            k = self.iter_faults(a) if a.op != "call" or a[0] not in CONSUMERS else ()
            if k and a.op in ("cursor", "poolmap"):
                self.may_raise(st, k, self.site(fr, node))

    def consume_lazy(self, args, st, fr, node, kind):
        res = [([], st)]
        for a in args:
            nxt = []
            for vs, y in res:
                if self.is_lazy(a):
                    for c, z in self.consume(a, y, fr, node):
                        z = z.clone()
                        nxt.append((vs + [self.alloc("list", c, z, fr, node, "lazy")], z))
                else:
                    nxt.append((vs + [a], y))
            res = nxt
        return res

    def isinstance_term(self, x, cls, st):
        c = self.class_of(x, st)
        k = self.known_elems(cls, st)
        names = []
        for y in k if k is not None and cls.op == "tuple" else [cls]:
            names.append(y)
        if x.op in ("const",) or x.op in ("tuple", "cell"):
            res = []
            for y in names:
                nm = str(y[0]).split(".")[-1] if y.args and isinstance(y[0], str) else None
                if x.op == "const" and y.op == "builtin" and isinstance(getattr(_bi, nm, None), type):
                    res.append(isinstance(x[0], getattr(_bi, nm)))
                elif x.op == "tuple" and y.op == "builtin":
                    res.append(nm == "tuple")
                elif x.op == "cell" and y.op == "builtin" and x[0] in ("list", "set", "dict"):
                    res.append(nm == x[0])
                else:
                    res.append(None)
            if any(r is True for r in res):
                return TRUE
            if all(r is False for r in res):
                return FALSE
        if c is not None and all(y.op == "class" for y in names):
            mro = [m.qual for m in c.mro()]
            if any(y[0] in mro for y in names):
                return TRUE
        if is_const(x, None):
            return FALSE
        return t("isinstance", x, tup(*names))

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kw, st, fr, node):
        from .interp import FRESH_EXT, PURE_EXT_PREFIX, NO_RAISE_EXT_PREFIX
        st = st.clone()
        site = ("@",) + self.site(fr, node)
        kwt = tuple(sorted(kw.items()))
        last = name.split(".")[-1]
        if name == "sqlite3.connect":
            c = t("conn", tuple(args), kwt, site)
            self.emit("connect", st, fr, node, conn=c, args=tuple(args), kw=kw)
            self.may_raise(st, ("OperationalError", "BaseException"), site)
            self.emit("acquire", st, fr, node, res=c)
            return [(c, st)]
        if name in FRESH_EXT or (last in ("BitMap", "FrozenBitMap", "BitMap64") and name.startswith("pyroaring")):
            kind = FRESH_EXT.get(name, "bitmap")
            outs = []
            for a2, y in self.consume_lazy(args, st, fr, node, "list"):
                y = y.clone()
                self.emit("call", y, fr, node, name=name, args=tuple(a2), kw=kw)
                if name == "collections.defaultdict":
                    cont = t("kwdict", ()) if len(a2) < 2 else t("call", "dict", tuple(a2[1:]), ())
                    c = t("cell", "dict", site)
                    y.heap[c] = cont
                    if a2:
                        y.env[("@", c, "default_factory")] = a2[0]
                elif not a2 or name == "collections.deque" and is_const(a2[0], None):
                    c = t("cell", kind, site)
                    y.heap[c] = t("kwdict", ()) if kind == "dict" else t("list")
                else:
                    c = t("cell", kind, site)
                    ca = self.content(a2[0], y)
                    y.heap[c] = t("call", name, tuple(a2), kwt)
                outs.append((c, y))
            return outs
        if name in ("functools.partial",) and args:
            return [(t("partial", args[0], tuple(args[1:]), kwt), st)]
        if name == "functools.wraps":
            return [(t("call", name, tuple(args), kwt), st)]
        if name in ("random.Random", "random.SystemRandom"):
            r = t("rng", name, tuple(args), kwt, site)
            self.emit("call", st, fr, node, name=name, args=tuple(args), kw=kw, result=r)
            return [(r, st)]
        if name in ("copy.copy", "copy.deepcopy") and args:
            c = t("cell", "copy", site)
            st.heap[c] = self.content(args[0], st)
            self.bear(c, st.heap[c])
            return [(c, st)]
        if name in ("tempfile.TemporaryDirectory", "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.mkstemp"):
            r = t("tempdir", name, tuple(args), kwt, site)
            self.emit("call", st, fr, node, name=name, args=tuple(args), kw=kw, result=r)
            self.may_raise(st, ("Exception", "BaseException"), site)
            self.emit("acquire", st, fr, node, res=r)
            return [(r, st)]
        if name in ("multiprocessing.Manager", "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor",
                    "multiprocessing.Pool") or last in ("ProcessPoolExecutor", "ThreadPoolExecutor", "SyncManager"):
            r = t("res", name, tuple(args), kwt, site)
            self.emit("call", st, fr, node, name=name, args=tuple(args), kw=kw, result=r)
            self.may_raise(st, ("Exception", "BaseException"), site)
            self.emit("acquire", st, fr, node, res=r)
            return [(r, st)]
        if last == "wait" and name.startswith("concurrent.futures"):
            self.emit("wait", st, fr, node, futures=args[0] if args else NONE, content=self.content(args[0], st) if args else NONE, kw=kw, args=tuple(args))
            self.may_raise(st, ("BaseException",), site)
            src = self.content(args[0], st) if args else NONE
            mode = kw.get("return_when", args[2] if len(args) > 2 else const("ALL_COMPLETED"))
            return [(tup(t("waitdone", src, mode, site), t("waitrest", src, mode, site)), st)]
        if last == "as_completed" and name.startswith("concurrent.futures"):
            src = self.content(args[0], st) if args else NONE
            outs = []
            if args and self.is_lazy(args[0]):
                for a2, y in self.consume_lazy(args[:1], st, fr, node, "list"):
                    self.emit("as_completed", y, fr, node, futures=a2[0], content=self.content(a2[0], y))
                    outs.append((t("completed", self.content(a2[0], y), site), y))
                return outs
            self.emit("as_completed", st, fr, node, futures=args[0], content=src)
            return [(t("completed", src, site), st)]
        if name.startswith(("heapq.heappush", "heapq.heapify", "heapq.heappop", "heapq.heapreplace", "bisect.insort", "random.shuffle")) and args:
            if name == "random.shuffle":
                self.emit("call", st, fr, node, name=name, args=tuple(args), kw=kw)
            self.mutate(args[0], {"heapq.heappop": "pop"}.get(name, "sort" if last in ("shuffle", "heapify") else "heap"), tuple(args[1:]), st, fr, node)
            if last in ("heappop", "heappushpop", "heapreplace"):
                return [(t("heapitem", args[0], site), st)]
            return [(NONE, st)]
        outs = []
        for a2, y in self.consume_lazy(args, st, fr, node, "list") if not name.startswith(("itertools.", "logging.")) and any(self.is_lazy(a) for a in args) and last not in ("partial",) else [(list(args), st)]:
            y = y.clone()
            pure = name.startswith(PURE_EXT_PREFIX)
            term = t("call", name, tuple(a2), kwt) if pure else t("call", name, tuple(a2), kwt, site)
            for cb in list(a2) + list(kw.values()):
                if cb.op in ("closure", "func", "bound") and name.startswith(("itertools.", "heapq.", "functools.reduce", "map", "filter")):
                    self.probe_call(cb, [t("elem", a2[0], ("@cb",) + site)] * self.arity(cb), y, fr, node)
            self.emit("call", y, fr, node, name=name, args=tuple(a2), kw=kw, result=term)
            if not pure and not name.startswith(NO_RAISE_EXT_PREFIX):
                self.may_raise(y, ("Exception", "BaseException"), site)
            outs.append((term, y))
        return outs

    def arity(self, f):
        q = self.fqual(f) if f.op != "closure" else f[0]
        fn = self.fns.get(q)
        if fn is None:
            return 1
        return max(0, len([p for p in fn.posargs if p not in fn.defaults]) - (1 if f.op == "bound" else 0))

    def call_method(self, b, name, args, kw, st, fr, node, resolved=False):
        from .interp import MUTATORS, PURE_METHODS, REPRESENTATIONAL
        if b.op == "phi":
            return [r for o in b.args if not is_const(o, None) for r in self.call_method(o, name, args, kw, st.clone(), fr, node)]
        if not resolved and (b.op in ("mod", "ext", "class", "super", "obj") or ("@", b, name) in st.env or self.class_of(b, st) is not None):
            out = []
            for f, y in self.get_attr(b, name, st, fr, node):
                if f.op == "attr" and f[0] is b:
                    out.extend(self.call_method(b, name, args, kw, y, fr, node, resolved=True))
                else:
                    out.extend(self.call(f, args, kw, y, fr, node))
            return out
        if b.op == "ext":
            return self.call_ext(f"{b[0]}.{name}", args, kw, st, fr, node)
        site = ("@",) + self.site(fr, node)
        kwt = tuple(sorted(kw.items()))
        st = st.clone()
        # databases
        if name in DB_METHODS and (b.op in ("conn", "cursor") or (b.op not in ("res", "cell") and args and (b.op in ("attr", "param", "mcall")))):
            return self.sql_call(b, name, args, kw, st, fr, node)
        if b.op == "conn":
            if name == "cursor":
                return [(b, st)]
            self.emit("conn_" + name, st, fr, node, conn=b, args=tuple(args))
            if name == "commit":
                self.may_raise(st, ("OperationalError", "BaseException"), site)
            if name == "close":
                self.emit("release", st, fr, node, res=b, how="close")
            return [(NONE, st)]
        if b.op == "cursor":
            if name == "fetchone":
                self.emit("fetch", st, fr, node, cursor=b)
                self.may_raise(st, ("OperationalError", "BaseException"), site)
                return [(t("row", b, ("@one",)), st)]
            if name in ("fetchall", "fetchmany"):
                self.emit("fetch", st, fr, node, cursor=b)
                self.may_raise(st, ("OperationalError", "BaseException"), site)
                return [(self.alloc("list", t("rows", b), st, fr, node), st)]
            if name == "close":
                return [(NONE, st)]
        if b.op == "cell" and name in ("fetchone", "fetchall") and not args:
            k = self.known_elems(b, st)
            if k is not None:
                return [(b if name == "fetchall" else k[0] if k else NONE, st)]
        # background work
        if name in ("submit", "apply_async") and args:
            a2 = list(args[1:])
            fut = t("future", args[0], tuple(a2), kwt, site)
            self.emit("submit", st, fr, node, pool=b, f=args[0], args=tuple(a2), kw=kw, future=fut, many=False,
                      contents=tuple(self.content(a, st) for a in a2))
            self.may_raise(st, ("Exception", "BaseException"), site)
            self.emit("submitted", st, fr, node, future=fut)
            return [(fut, st)]
        if name in ("map", "imap", "imap_unordered", "starmap") and args and b.op != "cell":
            out = []
            if len(args) < 2:
                return [(t("mcall", b, name, tuple(args), kwt), st)]
            its = list(args[1:])
            for cs, y in self.consume_lazy(its, st, fr, node, "list"):
                y = y.clone()
                fut = t("poolmap", args[0], tuple(cs), site)
                self.emit("submit", y, fr, node, pool=b, f=args[0], args=tuple(cs), kw=kw, future=fut, many=True,
                          contents=tuple(self.content(c, y) for c in cs))
                self.may_raise(y, ("Exception", "BaseException"), site)
                self.emit("submitted", y, fr, node, future=fut)
                out.append((fut, y))
            return out
        if name in ("result", "exception") and not (b.op == "cell") and not self.is_logger(b, name, args):
            self.emit("result", st, fr, node, future=b, how=name)
            self.may_raise(st, ("Exception", "BaseException"), site)
            return [(t("result", b), st)]
        if name in ("cancel", "add_done_callback") and b.op in ("future", "elem"):
            self.emit("futop", st, fr, node, future=b, op=name)
            return [(NONE, st)]
        # random generators
        if b.op == "rng" or name in ("shuffle", "sample", "choice", "choices", "randrange", "randint", "random", "uniform", "getrandbits", "seed"):
            self.emit("random", st, fr, node, rng=b, op=name, args=tuple(args))
            if name == "shuffle" and args:
                self.mutate(args[0], "sort", (), st, fr, node)
                return [(NONE, st)]
            return [(t("rand", b, name, tuple(args), site), st)]
        # resources
        if name in ("cleanup", "shutdown", "close", "terminate", "__exit__") and b.op in ("tempdir", "res", "file", "gen"):
            self.emit("release", st, fr, node, res=b, how=name)
            return [(NONE, st)]
        if b.op == "call" and b[0] in ("logging.getLogger", "logging.LoggerAdapter") or name in ("debug", "info", "warning", "exception", "critical") \
                or (b.op == "attr" and b[1] == "logger"):
            self.emit("log", st, fr, node, op=name, args=tuple(args))
            return [(NONE, st)]
        # lazily consumed arguments
        if any(self.is_lazy(a) for a in args):
            out = []
            for a2, y in self.consume_lazy(args, st, fr, node, "list"):
                out.extend(self.call_method(b, name, a2, kw, y, fr, node, resolved=True))
            return out
        if is_const(b) and isinstance(b[0], (str, bytes, int, float)) and all(is_const(a) for a in args) and not kw:
            try:
                r = getattr(b[0], name)(*[a[0] for a in args])
                if isinstance(r, list):
                    return [(self.alloc("list", t("list", *[const(x) for x in r]), st, fr, node), st)]
                if isinstance(r, (str, int, float, bool, bytes, type(None))):
                    return [(const(r), st)]
            except Exception:
                pass
        if name == "join" and self.is_str(b) and args:
            k = self.known_elems(args[0], st)
            if k is not None and k and is_const(b):
                parts = []
                for i, x in enumerate(k):
                    if i and b[0]:
                        parts.append(b)
                    parts.append(x)
                v = parts[0]
                for x in parts[1:]:
                    v = self.binop("+", v, x) if self.is_str(v) or self.is_str(x) else t("fstr", v, x)
                return [(v, st)]
        if name == "format" and self.is_str(b):
            return [(t("mcall", b, "format", tuple(args), kwt), st)]
        kind = self.ref_kind(b, st)
        if name in MUTATORS and kind != "value" and not self.is_str(b):
            op = MUTATORS[name]
            if op is None:
                pass
            elif op == "setdefault":
                cur = self.get_item(b, args[0], st, fr, node)
                dv = args[1] if len(args) > 1 else NONE
                self.mutate(b, "setdefault", tuple(args), st, fr, node)
                return [(phi([cur, dv]) if not is_const(dv) else cur, st)]
            elif op == "pop":
                v = t("popped", b, tuple(args), site)
                if args and self.content(b, st).op in ("kwdict", "dictcomp"):
                    v = self.get_item(b, args[0], st, fr, node)
                self.mutate(b, "pop", tuple(args), st, fr, node)
                return [(v, st)]
            else:
                if op == "extend" and len(args) > 1:
                    for a in args:
                        self.mutate(b, op, (a,), st, fr, node)
                else:
                    self.mutate(b, op, tuple(args) + ((t("kw", kwt),) if kw else ()), st, fr, node)
                return [(NONE, st)]
        if name == "copy" and not args:
            c = t("cell", "copy", site)
            st.heap[c] = self.content(b, st)
            self.bear(c, st.heap[c])
            self.emit("call", st, fr, node, name="." + name, args=(b,), kw=kw)
            return [(c, st)]
        if name == "get" and args:
            c = self.content(b, st)
            if c.op == "kwdict":
                v = self.get_item(b, args[0], st, fr, node)
                if v.op != "item":
                    return [(v, st)]
                if is_const(args[0]) and all(is_const(k) if isinstance(k, T) else isinstance(k, str) and k != "**" for k, _ in c[0]):
                    return [(args[1] if len(args) > 1 else NONE, st)]
            return [(t("mcall", b, "get", tuple(args), kwt), st)]
        self.emit("mcall", st, fr, node, recv=b, name=name, args=tuple(args), kw=kw)
        if name in REPRESENTATIONAL:
            return [(t("mcall", b, name, (), ()), st)]
        if (name in PURE_METHODS and not (name == "index" and b.op in ("param", "attr", "obj", "item"))) or name.startswith("__"):
            margs = tuple(args)
            recv = b
            if name in ("items", "keys", "values"):
                return [(t("mcall", b, name, margs, kwt), st)]
            cb = self.content(b, st)
            return [(t("mcall", cb, name, tuple(self.content(a, st) for a in margs), kwt), st)]
        self.may_raise(st, ("Exception", "BaseException"), site)
        for a in list(args) + list(kw.values()):
            if a.op in ("closure",):
                self.emit("callback", st, fr, node, f=a)
        return [(t("mcall", b, name, tuple(args), kwt, site), st)]

    # ------------------------------------------------------------ SQL
    def sql_call(self, conn, how, args, kw, st, fr, node):
        site = ("@",) + self.site(fr, node)
        sql = args[0] if args else kw.get("sql", const(""))
        params = args[1] if len(args) > 1 else kw.get("parameters")
        if conn.op == "cursor":
            conn = conn[0]
        if how == "execute" and params is not None and self.is_lazy(params):
            return [r for c, y in self.consume_lazy([params], st, fr, node, "list")
                    for r in self.sql_call(conn, how, [sql] + c, {}, y, fr, node)]
        word = first_word(sql)
        pc = self.content(params, st) if params is not None else None
        out = []
        if how == "executemany" and params is not None:
            # the rows are drawn one by one while the statement runs
            rows = [(params, st)]
            if self.is_lazy(params):
                rows = self.consume_lazy([params], st, fr, node, "list")
                rows = [(c[0], y) for c, y in rows]
            for r, y in rows:
                y = y.clone()
                rc = self.content(r, y)
                k = self.known_elems(r, y)
                if k is not None:
                    one = phi(k) if k else None
                else:
                    one = self.element(r, site, y)
                one_c = None
                if one is not None:
                    if k is not None and len(k) > 1:
                        one_c = None
                    one_c = self.content(one, y) if one.op != "phi" else one
                self.emit("sql", y, fr, node, conn=conn, how=how, sql=sql, word=word, params=r, rows=rc, row=one_c)
                self.may_raise(y, ("OperationalError", "BaseException"), site)
                self.emit("sqldone", y, fr, node, conn=conn, how=how, sql=sql, word=word)
                out.append((t("cursor", conn, sql, rc, site), y))
            return out
        self.emit("sql", st, fr, node, conn=conn, how=how, sql=sql, word=word, params=params, rows=None, row=pc)
        if word not in QUIET_SQL or self.sql_kinds:
            kinds = self.sql_kinds or (("OperationalError",) if word in ("begin", "savepoint") else ("OperationalError", "BaseException"))
            self.may_raise(st, kinds, site)
        self.emit("sqldone", st, fr, node, conn=conn, how=how, sql=sql, word=word)
        if self.sqlrows is not None:
            rows = self.sqlrows(conn, sql, pc)
            if rows is not None:  # the analysis fixes the answer of this query
                return [(self.alloc("list", t("list", *rows), st, fr, node, "rows"), st)]
        return [(t("cursor", conn, sql, pc if pc is not None else NONE, site), st)]
