"""Abstract interpreter: a context-sensitive dataflow analysis over the syntax trees.

Values are provenance terms (sa.terms).  Calls to functions of the package are
followed (through decorators, context managers and generators), loops are
brought to a fixpoint (variables that change become ``mu`` terms with their
initial value and back-edge values recorded), joins keep states apart by the
monitors' typestate.  Nothing of the analysed program is executed.
"""
import ast
import builtins as _bi
import os
import time

from .model import Fn, Cls, AnalysisError
from .eval import EvalMixin, exc_name, SQLITE_ERRORS, OPS as _OPS, sort_const as _sort_const
from .terms import T, t, const, tup, phi, options, is_const, rewrite, sub_terms, NONE, TRUE, FALSE, show

RUN_SECONDS = 60

PURE_BUILTINS = set(
    "len max min sum sorted reversed enumerate zip range abs isinstance issubclass hasattr iter map filter any all "
    "bool int str float bytes repr format hash id callable type round divmod pow chr ord frozenset slice".split()
)
CONTAINER_CTORS = {"list": "list", "set": "set", "dict": "dict", "tuple": "tuple"}
# external constructors of fresh mutable containers
FRESH_EXT = {
    "pyroaring.BitMap": "bitmap",
    "pyroaring.FrozenBitMap": "fbitmap",
    "collections.defaultdict": "dict",
    "collections.OrderedDict": "dict",
    "collections.Counter": "dict",
    "collections.deque": "list",
    "array.array": "array",
}
MUTATORS = {
    "append": "add", "add": "add", "appendleft": "add", "insert": "insert", "extend": "extend", "update": "extend",
    "discard": "remove", "remove": "remove", "pop": "pop", "popitem": "pop", "popleft": "pop", "clear": "clear",
    "sort": "sort", "reverse": "sort", "setdefault": "setdefault", "add_range": "add_range",
    "remove_range": "remove_range", "difference_update": "minus", "intersection_update": "inter",
    "symmetric_difference_update": "xor", "add_checked": "add", "remove_checked": "remove", "update_": "extend",
    "flip_inplace": "xor", "__setitem__": "setitem", "__delitem__": "delitem", "move_to_end": "sort",
    "overwrite": "overwrite", "writerow": None,
}
REPRESENTATIONAL = {"run_optimize", "shrink_to_fit", "copy_on_write"}
PURE_METHODS = set(
    "keys items values get copy intersection union difference symmetric_difference intersection_cardinality "
    "union_cardinality jaccard_index rank select range_cardinality split rsplit splitlines strip lstrip rstrip lower upper "
    "title format join startswith endswith replace translate encode decode index count find rfind partition "
    "intersect issubset issuperset isdisjoint min max next_set_bit serialize hex isoformat "
    "contains_range difference_cardinality casefold isdigit isalpha zfill absolute as_uri resolve to_array flip "
    "total_seconds getparent itertext xpath get_statistics describe __getitem__ __contains__ __len__ fromkeys".split()
)
NO_RAISE_EXT_PREFIX = ("logging.", "logger.", "warnings.", "time.", "atexit.", "functools.", "typing.", "sys.")
PURE_EXT_PREFIX = (
    "math.", "itertools.", "operator.", "functools.", "collections.", "os.path.", "string.", "heapq.nlargest",
    "heapq.nsmallest", "heapq.merge", "html.", "re.compile", "regex.compile", "urllib.parse.", "pathlib.",
    "json.dumps", "json.loads", "copy.", "datetime.", "array.", "markupsafe.", "dateutil.", "jinja2.", "io.StringIO",
    "pyroaring.",
)


class State:
    __slots__ = ("env", "heap", "facts", "mon", "fault")

    def __init__(self):
        self.env, self.heap, self.facts, self.mon, self.fault = {}, {}, {}, {}, None

    def clone(self):
        s = State.__new__(State)
        s.env, s.heap, s.facts, s.mon, s.fault = dict(self.env), dict(self.heap), dict(self.facts), dict(self.mon), self.fault
        return s


class Frame:
    __slots__ = ("fid", "fn", "mod", "cls", "parent", "path", "on_yield", "handling", "self_term")

    def __init__(self, fid, fn, mod, cls, parent, path, on_yield=None):
        self.fid, self.fn, self.mod, self.cls, self.parent, self.path, self.on_yield = fid, fn, mod, cls, parent, path, on_yield
        self.handling = []
        self.self_term = None


class Event:
    __slots__ = ("kind", "site", "node", "mod", "fn", "d", "loops", "facts", "mon", "fault", "stack", "seq", "handlers", "heap", "defaults")

    def __repr__(self):
        return f"<{self.kind} {self.fn}:{getattr(self.node, 'lineno', 0)} {self.d}>"

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return f"{self.mod.path.name}:{self.line} in {self.fn}"


class Report:
    def __init__(self, rule, fn, construct, msg, where, path=()):
        self.rule, self.fn, self.construct, self.msg, self.where, self.path = rule, fn, construct, msg, where, tuple(path)

    @property
    def key(self):
        return f"{self.rule}|{self.fn}|{self.construct}"

    def __repr__(self):
        return f"[{self.rule}] {self.where}: {self.msg}"


class Monitor:
    """Typestate monitor: `name`, init() -> hashable, event(ev, state, interp) may set state.mon[name]."""

    name = "?"

    def init(self):
        return ()

    def event(self, ev, st, ip):
        pass

    def open_txn(self, conn, st):
        """Is a transaction open on this connection (None: not followed)?"""
        return None


class Budget(AnalysisError):
    pass


def has_loop(x, lid):
    """Does a term vary with loop lid?"""
    for y in sub_terms(x):
        if y.op in ("elem", "row", "idx", "mu"):
            for z in y.args:
                if z == lid or (isinstance(z, tuple) and z and z[0] == "@in" and lid in z):
                    return True
    return False


# the thorough tier keeps more states apart before merging them
SCALE = int(os.environ.get("SA_SCALE") or (2 if os.environ.get("VERIF_TIER") == "thorough" else 1))


class Interp(EvalMixin):
    def __init__(self, prog, monitors=(), faults=False, opaque=(), typer=None, max_states=8, hook=None, max_steps=400000,
                 handler_probe=True):
        self.p = prog
        self.monitors = list(monitors)
        self.faults = faults
        self.opaque = set(opaque)
        self.typer = typer
        self.max_states = max_states * SCALE
        self.hook = hook
        self.sqlrows = None
        self.ext_values = {}    # objects standing for what the environment provides
        self.keep_heap = False  # snapshots of the heap with every call
        self.sql_kinds = None   # error classes of a failing statement, when they matter
        self.born = {}      # contents of containers when they were made
        self.changed = set()
        self.deadline = time.time() + RUN_SECONDS
        self.events = []
        self.reports = []
        self.sink = [[]]
        self.loops = []
        self.mus = {}
        self.comps = {}
        self.loopinfo = {}
        self.fns = {}
        self.clss = {}
        self.frames = {}
        self.pending = []
        self.gstate = State()
        self.gmemo = {}
        self.steps = 0
        self.max_steps = max_steps
        self.stack = []
        self.closures = []
        self.handler_probe = handler_probe
        self.handler_stack = []
        self.visited = set()
        self.genexps = {}
        self.live = []
        self.meta = {}
        self.nested_memo = {}
        self.visited_loops = set()
        for m in prog.mods.values():
            for c in m.classes.values():
                self.clss[c.qual] = c
                for f in c.methods.values():
                    self.fns[f.qual] = f
            for f in m.funcs.values():
                self.fns[f.qual] = f

    # ------------------------------------------------------------ utilities
    def site(self, fr, node, extra=None):
        s = (fr.mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), getattr(node, "end_col_offset", 0),
             type(node).__name__)
        if extra is not None:
            s += (extra,)
        return fr.path + (s,)

    def emit(self, kind, st, fr, node, **d):
        ev = Event()
        ev.kind, ev.node, ev.mod, ev.fn, ev.d = kind, node, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name), d
        ev.site = self.site(fr, node)
        ev.loops = tuple(self.loops)
        ev.facts = st.facts
        ev.mon = None
        ev.heap = dict(st.heap) if kind in ("sql", "submit", "yield") or self.keep_heap and kind in ("call", "mcall", "pcall", "new", "extitem", "mutate") else None
        ev.defaults = kind == "sql" and d.get("params") is not None and self.has_default(d["params"], st)
        ev.fault = st.fault
        ev.stack = tuple(self.stack)
        ev.handlers = tuple(self.handler_stack)
        for m in self.monitors:
            m.event(ev, st, self)
        ev.mon = dict(st.mon)
        ev.facts = dict(st.facts)
        ev.seq = len(self.events)
        self.events.append(ev)
        return ev

    def report(self, rule, fn, construct, msg, where, path=()):
        r = Report(rule, fn, construct, msg, where, path)
        self.reports.append(r)
        return r

    def may_raise(self, st, kinds, site):
        """Fork: an exception surfaces here (first-fault model)."""
        if not self.faults or st.fault is not None:
            return
        for k in kinds:
            s = st.clone()
            s.fault = (k, site)
            self.sink[-1].append((t("exc", k), s))

    def content(self, x, st):
        c = st.heap.get(x)
        if c is None:
            c = self.gstate.heap.get(x)
            if c is None and x.op == "cell" and x not in self.changed:
                c = self.born.get(x)  # made in an iteration that is over
        return x if c is None else c

    def shape(self, x, heap):
        """Content of a container as of a snapshot of the heap; containers of an earlier iteration as they were made."""
        c = heap.get(x) if heap is not None else None
        if c is None:
            c = self.gstate.heap.get(x)
        if c is None and x.op == "cell" and x not in self.changed:
            c = self.born.get(x)
        return x if c is None else c

    def key(self, st):
        parts = []
        for k, v in st.env.items():
            if k[0] == "@" and is_const(v) and isinstance(v[0], (bool, int)):
                parts.append((k[1].n, k[2], v.n))
        parts.sort()
        return (tuple(st.mon.items()), st.fault and (st.fault[0],) + tuple(st.fault[2:]), tuple(parts))

    def merge(self, states, limit=None):
        limit = self.max_states if limit is None else limit
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for g in groups.values():
            uniq = []
            for s in g:
                if not any(s.env == u.env and s.heap == u.heap and s.facts == u.facts for u in uniq):
                    uniq.append(s)
            if len(uniq) > limit:
                uniq = [self.join(uniq)]
            out.extend(uniq)
        return out

    def join(self, states):
        if len(states) == 1:
            return states[0]
        r = states[0].clone()
        keys = {}
        for s in states:
            for k in s.env:
                keys[k] = 1
        for k in keys:
            vals = [s.env.get(k, t("attr", k[1], k[2]) if k[0] == "@" else t("unbound", str(k[-1]))) for s in states]
            r.env[k] = vals[0] if all(v is vals[0] for v in vals) else phi(vals)
        hk = {}
        for s in states:
            for k in s.heap:
                hk[k] = 1
        for k in hk:
            vals = [s.heap.get(k, k) for s in states]
            r.heap[k] = vals[0] if all(v is vals[0] for v in vals) else phi(vals)
        f = dict(states[0].facts)
        for s in states[1:]:
            f = {k: v for k, v in f.items() if s.facts.get(k) is v}
        r.facts = f
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        states, out = [st], []
        for s in stmts:
            nxt = []
            for x in states:
                for k, v, y in self.stmt(s, x, fr):
                    if k == "next":
                        nxt.append(y)
                    else:
                        out.append((k, v, y))
            states = self.merge(nxt)
            if not states:
                break
        out.extend(("next", None, x) for x in states)
        return out

    def stmt(self, s, st, fr):
        self.steps += 1
        self.visited.add((fr.mod.name, getattr(s, "lineno", 0)))
        if self.steps > self.max_steps or (self.steps % 64 == 0 and time.time() > self.deadline):
            raise Budget(f"analysis budget exceeded in {fr.fn.qual if fr.fn else fr.mod.name}")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [("next", None, st)]
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [("next", None, st)]

    s_Global = s_Nonlocal = s_Import = s_Pass

    def s_ImportFrom(self, s, st, fr):
        return [("next", None, st)]

    def s_Import(self, s, st, fr):
        for a in s.names:
            st = st.clone()
            if a.asname:
                st.env[(fr.fid, a.asname)] = t("mod", a.name)
            else:
                st.env[(fr.fid, a.name.split(".")[0])] = t("mod", a.name.split(".")[0])
        return [("next", None, st)]

    def s_ImportFrom(self, s, st, fr):
        st = st.clone()
        base = s.module or ""
        if s.level:
            parts = fr.mod.name.split(".")
            if not fr.mod.is_pkg():
                parts = parts[:-1]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            b = self.p.member(base, a.name) or ("ext", f"{base}.{a.name}")
            st.env[(fr.fid, a.asname or a.name)] = self.binding(b)
        return [("next", None, st)]

    def s_Expr(self, s, st, fr):
        return [("next", None, y) for _, y in self.ev(s.value, st, fr)]

    def s_Assign(self, s, st, fr):
        out = []
        for v, y in self.ev(s.value, st, fr):
            ys = [y]
            for tg in s.targets:
                ys = [z for w in ys for z in self.assign(tg, v, w, fr)]
            out.extend(("next", None, z) for z in ys)
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [("next", None, st)]
        return [("next", None, z) for v, y in self.ev(s.value, st, fr) for z in self.assign(s.target, v, y, fr)]

    def s_AugAssign(self, s, st, fr):
        op = _OPS[type(s.op)]
        out = []
        for base, idx, cur, y in self.ev_place(s.target, st, fr):
            for v, z in self.ev(s.value, y, fr):
                out.extend(("next", None, w) for w in self.augassign(s, op, base, idx, cur, v, z, fr))
        return out

    def ev_place(self, tg, st, fr):
        """(base, index, current value, state) of an assignment target."""
        if isinstance(tg, ast.Name):
            return [(None, tg.id, v, y) for v, y in self.ev(ast.copy_location(ast.Name(tg.id, ast.Load()), tg), st, fr)]
        if isinstance(tg, ast.Attribute):
            out = []
            for b, y in self.ev(tg.value, st, fr):
                for v, z in self.get_attr(b, tg.attr, y, fr, tg):
                    out.append((b, ("attr", tg.attr), v, z))
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for b, y in self.ev(tg.value, st, fr):
                for i, z in self.ev(tg.slice, y, fr):
                    out.append((b, ("item", i), self.get_item(b, i, z, fr, tg), z))
            return out
        return []

    def augassign(self, s, op, base, idx, cur, v, st, fr):
        inplace = {"|": "extend", "-": "minus", "&": "inter", "^": "xor", "+": "extend"}.get(op)
        out = []
        for c in options(cur):
            y = st if len(options(cur)) == 1 else st.clone()
            kind = self.ref_kind(c, y)
            if inplace and kind == "mutable":
                y = y.clone()
                self.mutate(c, inplace, (v,), y, fr, s, aug=True)
                newv = c
            elif inplace and kind == "unknown" and op in "|-&^":
                # may be in-place (bitmaps, sets): value afterwards is c op v, and c may have been modified
                y = y.clone()
                self.mutate(c, inplace, (v,), y, fr, s, aug=True)
                newv = c
            else:
                if inplace and kind == "unknown":
                    # `+=`: in place for lists, a new value for numbers, strings and tuples
                    self.emit("augunknown", y, fr, s, ref=c, op=inplace, args=(v,))
                newv = self.binop(op, c, v)
                y = y.clone()
            if base is None:
                out.extend(self.assign(ast.copy_location(ast.Name(idx, ast.Store()), s), newv, y, fr))
            elif idx[0] == "attr":
                self.set_attr(base, idx[1], newv, y, fr, s)
                out.append(y)
            else:
                if newv is c:
                    self.emit("augitem", y, fr, s, base=base, index=idx[1], op=inplace, value=v, cur=c)
                    out.append(y)
                else:
                    self.mutate(base, "setitem", (idx[1], newv), y, fr, s)
                    out.append(y)
        return out

    def ref_kind(self, c, st):
        """'mutable' (a container object), 'value' (immutable), 'unknown'."""
        if c.op in ("cell",):
            return "mutable"
        if c.op in ("const", "tuple", "bin", "cmp", "not", "fstr", "len"):
            return "value"
        if c.op == "mu":
            d = self.mus.get(c)
            if d is not None and d["init"] is not None and d["init"] is not c:
                return self.ref_kind(d["init"], st)
            return "unknown"
        if c.op == "call" and isinstance(c[0], str) and c[0] in ("len", "max", "min", "int", "str", "sum", "float"):
            return "value"
        cc = self.content(c, st)
        if cc is not c:
            return "mutable"
        return "unknown"

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [("return", NONE, st)]
        return [("return", v, y) for v, y in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [("break", None, st)]

    def s_Continue(self, s, st, fr):
        return [("continue", None, st)]

    def s_Delete(self, s, st, fr):
        states = [st]
        for tg in s.targets:
            nxt = []
            for y in states:
                if isinstance(tg, ast.Name):
                    z = y.clone()
                    z.env[(fr.fid, tg.id)] = t("unbound", tg.id)
                    nxt.append(z)
                elif isinstance(tg, ast.Subscript):
                    for b, w in self.ev(tg.value, y, fr):
                        for i, z in self.ev(tg.slice, w, fr):
                            z = z.clone()
                            self.mutate(b, "delitem", (i,), z, fr, s)
                            nxt.append(z)
                else:
                    nxt.append(y)
            states = nxt
        return [("next", None, y) for y in states]

    def s_Assert(self, s, st, fr):
        out = []
        for b, y in self.cond(s.test, st, fr):
            if b:
                out.append(("next", None, y))
            else:
                self.sink[-1].append((t("exc", "AssertionError"), y))
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            exc = fr.handling[-1] if fr.handling else t("exc", "Exception")
            self.sink[-1].append((exc, st))
            return []
        for v, y in self.ev(s.exc, st, fr):
            name = exc_name(v)
            self.emit("raise", y, fr, s, exc=v, name=name)
            z = y.clone()
            self.sink[-1].append((t("exc", name, v), z))
        return []

    def s_FunctionDef(self, s, st, fr):
        q = f"{fr.fn.qual if fr.fn else fr.mod.name}.<locals>.{s.name}"
        if q in self.fns and self.fns[q].node is not s:
            q += f"@{s.lineno}"
        if q not in self.fns:
            self.fns[q] = Fn(fr.mod, s, q, cls=fr.cls, parent=fr.fn)
        self.frames[fr.fid] = fr
        v = t("closure", q, fr.fid, s.name)
        return [("next", None, z) for w, y in self.decorate(v, s.decorator_list, st, fr)
                for z in self.assign(ast.copy_location(ast.Name(s.name, ast.Store()), s), w, y, fr)]

    def s_ClassDef(self, s, st, fr):
        return [("next", None, st)]

    def s_If(self, s, st, fr):
        out = []
        for b, y in self.cond(s.test, st, fr):
            out.extend(self.block(s.body if b else s.orelse, y, fr))
        return self.merge_outs(out)

    def merge_outs(self, outs, limit=None):
        groups = {}
        rest = []
        for k, v, y in outs:
            if k in ("next", "break", "continue"):
                groups.setdefault(k, []).append(y)
            else:
                rest.append((k, v, y))
        return [(k, None, y) for k, ys in groups.items() for y in self.merge(ys, limit)] + rest

    def s_For(self, s, st, fr):
        out = []
        for it, y in self.ev(s.iter, st, fr):
            def body(elem, z):
                r = []
                for w in self.assign(s.target, elem, z, fr):
                    r.extend(self.block(s.body, w, fr))
                return r
            for k, v, z in self.iterate(it, y, body, fr, s):
                if k == "exhausted":
                    out.extend(self.block(s.orelse, z, fr))
                else:
                    out.append((k, v, z))
        return self.merge_outs(out)

    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        lid = self.site(fr, s)

        def step(z):
            r = []
            for b, w in self.cond(s.test, z, fr):
                if b:
                    r.extend(self.block(s.body, w, fr))
                else:
                    r.append(("exit", None, w))
            return r

        out = []
        for k, v, z in self.loop(lid, st, step, fr, s, exhaust=False):
            if k == "exit":
                out.extend(self.block(s.orelse, z, fr))
            else:
                out.append((k, v, z))
        return self.merge_outs(out)

    def s_With(self, s, st, fr):
        return self.with_items(list(s.items), s, st, fr)

    s_AsyncWith = s_With

    def with_items(self, items, s, st, fr):
        if not items:
            return self.block(s.body, st, fr)
        it, rest = items[0], items[1:]
        out = []
        for cm, y in self.ev(it.context_expr, st, fr):
            out.extend(self.with_one(cm, it, y, fr, s, lambda z: self.with_items(rest, s, z, fr)))
        return self.merge_outs(out)

    def with_one(self, cm, it, st, fr, node, run):
        def bind(v, z):
            if it.optional_vars is None:
                return [z]
            return self.assign(it.optional_vars, v, z, fr)

        if cm.op == "phi":
            out = []
            for o in cm.args:
                out.extend(self.with_one(o, it, st.clone(), fr, node, run))
            return out
        if cm.op == "cmgen":  # contextlib.contextmanager generator
            def on_yield(v, z):
                r = []
                for w in bind(v, z):
                    r.extend(run(w))
                return r
            return self.run_cmgen(cm, st, on_yield, fr, node)
        if cm.op == "call" and cm[0] == "contextlib.closing" and cm[1]:
            obj = cm[1][0]
            return self.scoped(lambda z: [x for w in bind(obj, z) for x in run(w)], st,
                               lambda z, exc: self.call_method(obj, "close", [], {}, z, fr, node), fr)
        if cm.op == "call" and cm[0] == "contextlib.suppress":
            self.sink.append([])
            outs = [x for w in bind(NONE, st) for x in run(w)]
            raised = self.sink.pop()
            names = [exc_name(a) for a in cm[1]]
            for exc, z in raised:
                mt = max([self.exc_match(exc[0], n) for n in names] or [0])
                if mt >= 1:
                    self.emit("handled", z, fr, node, exc=exc, handler=names)
                    outs.append(("next", None, z))
                if mt < 2:
                    self.sink[-1].append((exc, z))
            return outs
        if cm.op == "call" and cm[0] in ("contextlib.nullcontext",):
            return [x for w in bind(cm[1][0] if cm[1] else NONE, st) for x in run(w)]
        c = self.class_of(cm, st)
        if c is not None and c.find("__enter__"):
            out = []
            for v, y in self.call_method(cm, "__enter__", [], {}, st, fr, node):
                def fin(z, exc):
                    a = [t("class", "exc"), exc, t("ext", "traceback")] if exc is not None else [NONE, NONE, NONE]
                    return self.call_method(cm, "__exit__", a, {}, z, fr, node)
                out.extend(self.scoped(lambda z: [x for w in bind(v, z) for x in run(w)], y, fin, fr))
            return out
        # external context manager
        if cm.op not in ("file", "res", "tempdir"):  # entering these only hands back what was acquired
            self.may_raise(st, ("Exception",), self.site(fr, node))
        st = st.clone()
        self.emit("enter", st, fr, node, cm=cm)
        v = cm
        if cm.op == "tempdir":
            v = t("attr", cm, "name")

        def fin(z, exc):
            z = z.clone()
            self.emit("exit", z, fr, node, cm=cm)
            return [(NONE, z)]

        return self.scoped(lambda z: [x for w in bind(v, z) for x in run(w)], st, fin, fr)

    def scoped(self, run, st, fin, fr):
        """run, then fin on every way out (a with statement)."""
        self.sink.append([])
        outs = run(st)
        raised = self.sink.pop()
        res = []
        for k, v, y in self.merge_outs(outs):
            for _, z in fin(y, None):
                res.append((k, v, z))
        for exc, y in self.merge_raises(raised):
            for rv, z in fin(y, exc):
                if is_const(rv) and rv[0] is True:
                    res.append(("next", None, z))
                else:
                    self.sink[-1].append((exc, z))
        return res

    def merge_raises(self, raised):
        groups = {}
        for exc, y in raised:
            groups.setdefault((exc, self.key(y)), []).append(y)
        out = []
        for (exc, _), ys in groups.items():
            out.append((exc, self.join(ys) if len(ys) > 1 else ys[0]))
        return out

    def exc_match(self, raised, handler):
        """0 no, 1 maybe, 2 surely: does `except handler` catch a raised class?"""
        if handler in ("BaseException", None):
            return 2
        if raised == handler:
            return 2
        if raised == "GeneratorExit":
            return 0
        if handler in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"):
            return 1 if raised == "BaseException" and handler == "KeyboardInterrupt" else 0
        if raised == "BaseException":  # stands for an interrupt
            return 0
        if handler == "Exception":
            return 0 if raised in ("KeyboardInterrupt", "SystemExit") else 2
        if raised in ("KeyboardInterrupt", "SystemExit"):
            return 0
        if raised == "Exception":
            return 1
        if handler.endswith("?"):
            return 1
        sup = self.supers(raised)
        if handler in sup:
            return 2
        if raised in self.supers(handler):
            return 1
        return 0

    def supers(self, name):
        for c in self.clss.values():
            if c.name == name:
                out = set()
                for b in c.base_names():
                    out.add(b.split(".")[-1])
                    out |= self.supers(b.split(".")[-1]) if b.split(".")[-1] != name else set()
                return out
        b = getattr(_bi, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return {x.__name__ for x in b.__mro__}
        if name in SQLITE_ERRORS:
            return SQLITE_ERRORS[name]
        if name in ("HTTPError", "HTTPRedirect"):
            return {name, "CherryPyException", "Exception"}
        return {name, "Exception"}

    def s_Try(self, s, st, fr):
        self.sink.append([])
        n_handlers = len(s.handlers)
        if n_handlers:
            self.handler_stack.append((fr.fn.qual if fr.fn else "", s.lineno, tuple(
                n for h in s.handlers for n in self.handler_names(h, st, fr))))
        outs = self.block(s.body, st, fr)
        if n_handlers:
            self.handler_stack.pop()
        raised = self.merge_raises(self.sink.pop())
        self.sink.append([])
        res = []
        for k, v, y in self.merge_outs(outs):
            if k == "next" and s.orelse:
                res.extend(self.block(s.orelse, y, fr))
            else:
                res.append((k, v, y))
        # Without fault injection, still look at what each handler does.
        if self.handler_probe and not self.faults and n_handlers:
            have = {exc[0] for exc, _ in raised}
            probe = [y for k, v, y in outs][:1]
            base = self.join([st] + [y for k, _, y in outs if k == "next"][:4]) if outs else st
            if probe and self.key(base) != self.key(probe[0]) and not any(k == "next" for k, _, _ in outs):
                base = st
            for h in s.handlers:
                names = self.handler_names(h, st, fr)
                if not any(self.exc_match(r, n) for r in have for n in names):
                    raised.append((t("exc", names[0] or "Exception"), base.clone()))
        for exc, y in raised:
            rest = True
            if exc.op == "genexit":
                pass
            for h in s.handlers:
                names = self.handler_names(h, y, fr)
                en = "GeneratorExit" if exc.op == "genexit" else exc[0]
                mt = max(self.exc_match(en, n) for n in names)
                if mt == 0:
                    continue
                z = y.clone()
                if h.name:
                    z.env[(fr.fid, h.name)] = t("caught", exc)
                if mt == 1 and z.fault is not None:
                    z.fault = (z.fault[0], z.fault[1], "maybe")
                self.emit("handled", z, fr, h, exc=exc, handler=names, body=h.body, match=mt)
                fr.handling.append(exc)
                hs = self.block(h.body, z, fr)
                fr.handling.pop()
                res.extend(hs)
                if mt == 2:
                    rest = False
                    break
            if rest:
                self.sink[-1].append((exc, y))
        raised2 = self.merge_raises(self.sink.pop())
        if not s.finalbody:
            self.sink[-1].extend(raised2)
            return self.merge_outs(res)
        out = []
        for k, v, y in self.merge_outs(res):
            for k2, v2, z in self.block(s.finalbody, y, fr):
                out.append((k, v, z) if k2 == "next" else (k2, v2, z))
        for exc, y in raised2:
            for k2, v2, z in self.block(s.finalbody, y, fr):
                if k2 == "next":
                    self.sink[-1].append((exc, z))
                else:
                    self.emit("swallowed", z, fr, s, exc=exc)
                    out.append((k2, v2, z))
        return self.merge_outs(out)

    s_TryStar = s_Try

    def handler_names(self, h, st, fr):
        if h.type is None:
            return [None]
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in es:
            d = ast.unparse(e).split(".")[-1]
            r = self.p.resolve_expr(fr.mod, e)
            if r and r[0] == "expr":
                d = "?"
                if isinstance(r[1], ast.Tuple):
                    out.extend(ast.unparse(x).split(".")[-1] for x in r[1].elts)
                    continue
            out.append(d)
        return out

    def s_Match(self, s, st, fr):
        out = []
        for v, y in self.ev(s.subject, st, fr):
            cur = [y]
            for c in s.cases:
                nxt = []
                for z in cur:
                    for b, w in self.match_case(c.pattern, v, z, fr):
                        if not b:
                            nxt.append(w)
                            continue
                        if c.guard is not None:
                            for g, u in self.cond(c.guard, w, fr):
                                if g:
                                    out.extend(self.block(c.body, u, fr))
                                else:
                                    nxt.append(u)
                        else:
                            out.extend(self.block(c.body, w, fr))
                cur = nxt
            out.extend(("next", None, z) for z in cur)
        return self.merge_outs(out)

    def match_case(self, pat, v, st, fr):
        if isinstance(pat, ast.MatchValue):
            return [r for w, y in self.ev(pat.value, st, fr) for r in self.branch(t("cmp", "==", v, w), y)]
        if isinstance(pat, ast.MatchSingleton):
            return self.branch(t("cmp", "is", v, const(pat.value)), st)
        if isinstance(pat, ast.MatchOr):
            out, cur = [], [st]
            for q in pat.patterns:
                nxt = []
                for z in cur:
                    for b, w in self.match_case(q, v, z, fr):
                        (out if b else nxt).append((b, w) if b else w)
                cur = nxt
            return out + [(False, z) for z in cur]
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                z = st.clone()
                if pat.name:
                    z.env[(fr.fid, pat.name)] = v
                return [(True, z)]
            out = []
            for b, w in self.match_case(pat.pattern, v, st, fr):
                if b and pat.name:
                    w = w.clone()
                    w.env[(fr.fid, pat.name)] = v
                out.append((b, w))
            return out
        if isinstance(pat, ast.MatchClass):
            return self.branch(t("isinstance", v, t("name", ast.unparse(pat.cls).split(".")[-1])), st)
        return self.branch(t("match", v, ast.dump(pat)), st)

    # ------------------------------------------------------------ loops
    def iterate(self, it, st, body, fr, node):
        """Outcomes of running body(elem, state) over it: 'exhausted' plus break/return."""
        if it.op == "phi":
            out = []
            for o in it.args:
                out.extend(self.iterate(o, st.clone(), body, fr, node))
            return out
        lid = self.site(fr, node, "loop")
        self.visited_loops.add(lid)
        known = self.known_elems(it, st)
        if known is not None and len(known) <= 48:
            states, out = [st], []
            for e in known:
                nxt = []
                for z in states:
                    for k, v, w in body(e, z):
                        if k in ("next", "continue"):
                            nxt.append(w)
                        elif k == "break":
                            out.append(("next_break", None, w))
                        else:
                            out.append((k, v, w))
                states = self.merge(nxt)
            res = [("exhausted", None, z) for z in states]
            for k, v, w in out:
                res.append(("next", None, w) if k == "next_break" else (k, v, w))
            return res
        src = it
        if it.op == "gen":
            return self.drive_gen(it, st, body, fr, node)
        if it.op == "genexp":
            return self.drive_genexp(it, st, body, fr, node)
        if it.op == "call" and it[0] == "enumerate" and it[1]:
            inner, start = it[1][0], (it[1][1] if len(it[1]) > 1 else dict(it[2]).get("start", const(0)))
            k2 = self.known_elems(inner, st)
            cnt = t("idx", lid)
            if not is_const(start, 0):
                cnt = self.binop("+", cnt, start)
            return self.iterate(inner, st, lambda e, z: body(tup(cnt, e), z), fr, node)
        if it.op == "call" and it[0] in ("iter", "list", "tuple") and len(it[1]) == 1 and it[1][0].op in ("gen", "genexp"):
            return self.iterate(it[1][0], st, body, fr, node)
        if it.op == "call" and it[0] == "map" and len(it[1]) == 2:
            f = it[1][0]
            def mbody(e, z):
                r = []
                for v, w in self.call(f, [e], {}, z, fr, node):
                    r.extend(body(v, w))
                return r
            return self.iterate(it[1][1], st, mbody, fr, node)
        if it.op == "call" and it[0] == "zip" and len(it[1]) >= 2:
            gens = [i for i, a in enumerate(it[1]) if a.op in ("gen", "genexp")]
            if len(gens) == 1:
                g = gens[0]
                return self.iterate(it[1][g], st, lambda e, z: body(
                    tup(*[e if i == g else self.element(a, lid, z) for i, a in enumerate(it[1])]), z), fr, node)
        if it.op == "call" and it[0] == "itertools.chain" and it[1]:
            outs, states = [], [st]
            for a in it[1]:
                nxt = []
                for z in states:
                    for k, v, w in self.iterate(a, z, body, fr, node):
                        if k == "exhausted":
                            nxt.append(w)
                        else:
                            outs.append((k, v, w))
                states = self.merge(nxt)
            return outs + [("exhausted", None, z) for z in states]
        if it.op == "call" and it[0] == "itertools.islice" and it[1] and it[1][0].op in ("gen", "genexp"):
            return self.iterate(it[1][0], st, body, fr, node)
        c = self.class_of(it, st)
        if c is not None and c.find("__iter__"):
            out = []
            for v, y in self.call_method(it, "__iter__", [], {}, st, fr, node):
                if v is not it:
                    out.extend(self.iterate(v, y, body, fr, node))
            return out

        def step(z):
            z2 = z.clone()
            e = self.element(it, lid, z2)
            self.emit("iter", z2, fr, node, iter=it, loop=lid, elem=e)
            self.may_raise(z2, self.iter_faults(it), lid)
            out = body(e, z2)
            for k, _, y in out:
                if k in ("next", "continue"):
                    self.emit("enditer", y, fr, node, iter=it, loop=lid, elem=e)
            return out

        self.loopinfo[lid] = it
        res = []
        for k, v, z in self.loop(lid, st, step, fr, node, exhaust=True):
            if k == "exit":
                z = z.clone()
                self.emit("endloop", z, fr, node, iter=it, loop=lid)
                res.append(("exhausted", None, z))
            elif k == "break_out":
                res.append(("next", None, z))
            else:
                res.append((k, v, z))
        return res

    def iter_faults(self, it):
        """Iterating something lazy (a cursor, an external iterator) may fail at each step."""
        x = it
        while x.op == "call" and x[0] in ("enumerate", "zip", "sorted", "reversed", "iter") and x[1]:
            x = x[1][0]
        if x.op == "cursor":
            return ("OperationalError", "BaseException")
        if x.op in ("call", "mcall", "fcall", "param", "attr", "poolmap", "completed"):
            return ("Exception", "BaseException")
        return ()

    def known_elems(self, it, st):
        if it.op == "tuple":
            if any(a.op == "star" for a in it.args):
                return None
            return list(it.args)
        if it.op == "call" and it[0] == "sorted" and len(it[1]) == 1 and not it[2]:
            k = self.known_elems(it[1][0], st)
            try:
                if k is not None and len(k) > 1:
                    return sorted(k, key=_sort_const)
            except TypeError:
                return None
            return k
        if it.op == "call" and it[0] in ("list", "tuple", "iter") and len(it[1]) == 1:
            return self.known_elems(it[1][0], st)
        if it.op == "call" and it[0] == "reversed" and len(it[1]) == 1:
            k = self.known_elems(it[1][0], st)
            return None if k is None else list(reversed(k))
        if it.op == "call" and it[0] == "enumerate" and len(it[1]) == 1 and not it[2]:
            k = self.known_elems(it[1][0], st)
            return None if k is None else [tup(const(i), x) for i, x in enumerate(k)]
        if it.op == "call" and it[0] == "zip" and it[1]:
            ks = [self.known_elems(a, st) for a in it[1]]
            if any(k is None for k in ks):
                return None
            return [tup(*xs) for xs in zip(*ks)]
        if it.op == "call" and it[0] == "range" and all(is_const(a) for a in it[1]):
            try:
                r = range(*[a[0] for a in it[1]])
            except (TypeError, ValueError):
                return None
            return [const(i) for i in r] if len(r) <= 48 else None
        if it.op == "mcall" and it[1] in ("items", "keys", "values") and not it[2]:
            c = self.content(it[0], st)
            if c.op == "kwdict" and not any(isinstance(k, str) and k == "**" for k, _ in c[0]):
                if it[1] == "items":
                    return [tup(k if isinstance(k, T) else const(k), v) for k, v in c[0]]
                if it[1] == "keys":
                    return [k if isinstance(k, T) else const(k) for k, v in c[0]]
                return [v for k, v in c[0]]
        if it.op == "item" and it[1].op == "slice" and all(is_const(a) for a in it[1].args):
            k = self.known_elems(it[0], st)
            return None if k is None else k[slice(*[a[0] for a in it[1].args])]
        if is_const(it) and isinstance(it[0], str) and len(it[0]) <= 48:
            return [const(x) for x in it[0]]
        c = self.content(it, st)
        if c is not it and c.op == "call" and it.op == "cell":
            return self.known_elems(c, st)
        if c is not it and c.op in ("list", "set"):
            if any(a.op == "star" for a in c.args):
                return None
            return list(c.args)
        if c.op == "kwdict" and not any(isinstance(k, str) and k == "**" for k, _ in c[0]):
            return [k if isinstance(k, T) else const(k) for k, v in c[0]]
        if c.op == "upd" and c[0] == "add":
            k = self.known_elems(c[1], st) if c[1] is not it else None
            return None if k is None else k + [c[2][0]]
        if is_const(c) and isinstance(c[0], (tuple, list)):
            return [const(x) for x in c[0]]
        return None

    def element(self, it, lid, st):
        """The value of one element of an iterable in loop lid."""
        if it.op == "call":
            f = it[0]
            if f == "zip" and it[1]:
                return tup(*[self.element(a, lid, st) for a in it[1]])
            if f == "enumerate" and it[1]:
                return tup(t("idx", lid), self.element(it[1][0], lid, st))
            if f in ("list", "tuple", "iter") and len(it[1]) == 1:
                return self.element(it[1][0], lid, st)
            if f in ("sorted", "reversed", "set", "frozenset") and it[1]:
                e = self.element(it[1][0], lid, st)
                if e.op == "elem":
                    return t("elem", it, lid)
                return e
        if it.op == "cursor":
            return t("row", it, lid)
        if it.op == "mcall" and it[1] == "items" and not it[2]:
            k = t("elem", it[0], lid)
            c = self.content(it[0], st)
            if c.op == "dictcomp":
                k, v = self.fresh_comp(c, lid)
                return tup(k, v)
            return tup(k, t("item", it[0], k))
        if it.op == "mcall" and it[1] == "keys" and not it[2]:
            return self.element(it[0], lid, st)
        if it.op == "mcall" and it[1] == "values" and not it[2]:
            c = self.content(it[0], st)
            if c.op == "dictcomp":
                return self.fresh_comp(c, lid)[1]
            return t("item", it[0], t("elem", it[0], lid))
        c = self.content(it, st)
        if c.op == "phi" and len(c.args) <= 4:
            es = []
            for o in c.args:
                e = t("row", o[0], lid) if o.op == "rows" else self.fresh_comp(o, lid)[0] if o.op in ("comp", "dictcomp") else None
                if e is None:
                    break
                es.append(e)
            else:
                return phi(es)
        if c.op == "comp":
            return self.fresh_comp(c, lid)[0]
        if c.op == "dictcomp":
            return self.fresh_comp(c, lid)[0]
        if c.op == "call" and c is not it and c[0] in ("list", "tuple", "sorted", "set", "reversed", "iter", "frozenset"):
            e = self.element(c, lid, st)
            if not (e.op == "elem" and e[0] is c):
                return e
        if c.op == "rows":
            return t("row", c[0], lid)
        return t("elem", it, lid)

    def fresh_comp(self, c, lid):
        """Elements of a comprehension, with its loop renamed to this iteration."""
        old = c[-1]
        def ren(x):
            if x.op in ("elem", "row", "idx") and x.args[-1] in old:
                return t(x.op, *x.args[:-1], ("@in", x.args[-1], lid))
            return x
        memo = {}
        return [rewrite(a, ren, memo) for a in c.args[1:-2]]

    def loop(self, lid, st0, step, fr, node, exhaust):
        """Fixpoint of a loop. Kinds: exit, break_out, return."""
        mus = {}
        for attempt in range(14):
            ev_n, rep_n, sk_n = len(self.events), len(self.reports), len(self.sink[-1])
            head0 = st0.clone()
            for k in mus:
                self.set_mu(head0, k, lid, st0)
            heads = {self.key(head0): head0}
            done, outs, changed = set(), [], False
            backs = []
            self.loops.append(lid)
            try:
                while True:
                    todo = [k for k in heads if k not in done]
                    if not todo:
                        break
                    hk = todo[0]
                    done.add(hk)
                    head = heads[hk]
                    for k, v, y in step(head.clone()):
                        if k in ("next", "continue"):
                            backs.append(y)
                            new = self.diff(head, y, lid, mus)
                            if new:
                                changed = True
                                mus.update(new)
                            bk = self.key(y)
                            if bk not in heads:
                                h = head.clone()
                                h.mon, h.fault = dict(y.mon), y.fault
                                for kk in y.env:
                                    if kk[0] == "@" and kk in head.env:
                                        v1 = y.env[kk]
                                        if is_const(v1) and isinstance(v1[0], (bool, int)) and kk not in mus:
                                            h.env[kk] = v1
                                if self.key(h) not in heads:
                                    heads[self.key(h)] = h
                        else:
                            outs.append((k, v, y))
            finally:
                self.loops.pop()
            if not changed or attempt == 13:
                break
            del self.events[ev_n:]
            del self.reports[rep_n:]
            del self.sink[-1][sk_n:]
        for k in mus:
            m = self.mu_term(lid, k)
            init = self.read_key(st0, k)
            ds = []
            for b in backs:
                v = self.read_key(b, k)
                ds.append((v, self.content(v, b) if isinstance(v, T) else v, b.facts, dict(b.mon)))
            one = (init, self.content(init, st0) if init is not None else None)
            inits = [x for x in self.mus.get(m, {}).get("inits", ()) if x != one] + [one]
            # the same loop may be run from several states: what it did in earlier runs is kept beside the last
            before = self.mus.get(m, {})
            older = (list(before.get("older", ())) + [b for b in before.get("backs", ()) if all(b[1] is not x[1] for x in ds)])[-16:]
            self.mus[m] = {"init": one[0], "init_content": one[1], "inits": inits, "backs": ds, "older": older, "loop": lid}
        res = []
        if exhaust:
            res.extend(("exit", None, h) for h in heads.values())
        for k, v, y in outs:
            if k == "break":
                res.append(("break_out" if exhaust else "next", None, y))
            elif k == "exit":
                res.append(("exit", None, y))
            else:
                res.append((k, v, y))
        return res

    def mu_term(self, lid, k):
        if k[0] == "h":
            return t("mu", lid, "content", k[1])
        name = k[1][-1]
        return t("mu", lid, str(name), t("place", *[x if isinstance(x, (T, str)) else str(x) for x in k[1]]))

    def read_key(self, st, k):
        if k[0] == "h":
            return st.heap.get(k[1], k[1])
        return st.env.get(k[1], t("unbound", str(k[1][-1])))

    def set_mu(self, st, k, lid, st0):
        m = self.mu_term(lid, k)
        if k[0] == "h":
            st.heap[k[1]] = m
        else:
            st.env[k[1]] = m
            st.heap.pop(m, None)
        # while the loop is analysed, references to its value
        self.mus.setdefault(m, {"init": self.read_key(st0, k), "init_content": self.content(self.read_key(st0, k), st0),
                                "backs": [], "loop": lid})

    def diff(self, head, back, lid, mus):
        new = {}
        for k, v in back.env.items():
            h = head.env.get(k)
            if h is None:
                if k[0] == "@":
                    if k[1].op in ("obj", "cell") or has_loop(k[1], lid):
                        continue
                    h = t("attr", k[1], k[2])
                elif k[0] not in self.live:
                    continue
                else:
                    h = t("unbound", str(k[-1]))
            if h is not v and ("e", k) not in mus:
                new[("e", k)] = 1
        for k, v in back.heap.items():
            if k in head.heap:
                if head.heap[k] is not v and ("h", k) not in mus:
                    new[("h", k)] = 1
            elif k.op == "cell" or (k.op == "mu" and k[0] == lid):
                continue
            elif ("h", k) not in mus and v is not k:
                if has_loop(k, lid):
                    continue
                new[("h", k)] = 1
        return new

    # ------------------------------------------------------------ generators
    def drive_gen(self, g, st, body, fr, node):
        def on_yield(v, z):
            return body(v, z)
        res = []
        for k, v, z in self.run_gen(g, st, on_yield, fr, node):
            if k == "genreturn":
                res.append(("exhausted", None, z))
            elif k == "break":
                res.append(("next", None, z))
            else:
                res.append((k, v, z))
        return res

    def run_gen(self, g, st, on_yield, fr, node):
        """Run generator g, its yields calling on_yield; abandoned when the consumer leaves."""
        qual, parent, bound, path = g[0], g[1], g[2], g[3]
        fn = self.fns[qual]
        fid = ("f",) + tuple(path) + (len(self.stack),)
        f2 = Frame(fid, fn, fn.module, fn.cls, self.frames.get(parent), tuple(path) + (("gen", len(fr.path)),))
        mark = len(self.pending)

        def oy(v, z):
            """-> states in which the generator resumes."""
            resume = []
            for k, w, y in self.merge_outs(on_yield(v, z)):
                if k in ("next", "continue"):
                    resume.append(y)
                else:
                    self.pending.append((k, w))
                    self.sink[-1].append((t("genexit", len(self.pending) - 1), y))
            return resume

        # exceptions raised by the consumer's body abandon the generator too
        def oy2(v, z):
            self.sink.append([])
            r = oy(v, z)
            got = self.sink.pop()
            for exc, y in got:
                if exc.op != "genexit":
                    self.pending.append(("raise", exc))
                    exc = t("genexit", len(self.pending) - 1)
                self.sink[-1].append((exc, y))
            return r

        f2.on_yield = oy2
        st = st.clone()
        for name, v in bound:
            st.env[(fid, name)] = v
        if self.stack.count(qual) > 1 or len(self.stack) > 30:
            return [("genreturn", None, st)]
        self.stack.append(qual)
        self.live.append(fid)
        self.sink.append([])
        self.frames[fid] = f2
        if fn.cls is not None and fn.parent is None and bound:
            f2.self_term = dict(bound).get(fn.posargs[0]) if fn.posargs else None
        outs = self.block(fn.node.body, st, f2)
        raised = self.sink.pop()
        self.stack.pop()
        self.live.pop()
        res = []
        for k, v, z in outs:
            res.append(("genreturn", v if v is not None else NONE, z))
        for exc, z in self.merge_raises(raised):
            if exc.op == "genexit":
                k, w = self.pending[exc[0]]
                if k == "raise":
                    self.sink[-1].append((w, z))
                else:
                    res.append((k, w, z))
            else:
                self.sink[-1].append((exc, z))
        return res

    def run_cmgen(self, g, st, on_yield, fr, node):
        """A contextlib.contextmanager generator: exceptions of the body are raised at the yield."""
        qual, parent, bound, path = g[0], g[1], g[2], g[3]
        fn = self.fns[qual]
        fid = ("f",) + tuple(path) + (len(self.stack),)
        f2 = Frame(fid, fn, fn.module, fn.cls, self.frames.get(parent), tuple(path) + (("cm", len(fr.path)),))
        later = []

        def oy(v, z):
            resume = []
            self.sink.append([])
            outs = self.merge_outs(on_yield(v, z))
            got = self.sink.pop()
            for k, w, y in outs:
                if k == "next":
                    resume.append(y)
                else:
                    # leaves the with block by return/break: the generator is resumed normally
                    y = y.clone()
                    later.append((k, w))
                    y.env[(fid, "%leave")] = const(len(later))
                    resume.append(y)
            self.sink[-1].extend(got)
            return resume

        f2.on_yield = oy
        st = st.clone()
        for name, v in bound:
            st.env[(fid, name)] = v
        self.stack.append(qual)
        self.live.append(fid)
        self.frames[fid] = f2
        if fn.cls is not None and fn.parent is None and bound:
            f2.self_term = dict(bound).get(fn.posargs[0]) if fn.posargs else None
        outs = self.block(fn.node.body, st, f2)
        self.stack.pop()
        self.live.pop()
        res = []
        for k, v, z in outs:
            lv = z.env.pop((fid, "%leave"), None)
            if lv is not None and is_const(lv):
                kk, w = later[lv[0] - 1]
                res.append((kk, w, z))
            elif lv is not None and lv.op == "phi":
                for o in lv.args:
                    if is_const(o):
                        kk, w = later[o[0] - 1]
                        res.append((kk, w, z.clone()))
                    else:
                        res.append(("next", None, z.clone()))
            else:
                res.append(("next", None, z))
        return res

    def drive_genexp(self, g, st, body, fr, node):
        gnode, fid, first = self.genexps[g[0]], g[1], g[2]
        f2 = self.frames[fid]
        self.sink.append([])
        out = []

        def go(i, z):
            if i == len(gnode.generators):
                r = []
                for v, w in self.ev(gnode.elt, z, f2):
                    r.extend(body(v, w))
                return r
            gen = gnode.generators[i]
            res = []
            its = [(first, z)] if i == 0 else self.ev(gen.iter, z, f2)
            for itv, w in its:
                def inner(e, y):
                    r = []
                    for x in self.assign(gen.target, e, y, f2):
                        states = [(True, x)]
                        for c in gen.ifs:
                            states = [(b2, y2) for b, y1 in states if b for b2, y2 in self.cond(c, y1, f2)] + \
                                     [(b, y1) for b, y1 in states if not b]
                        for b, y1 in states:
                            if b:
                                r.extend(go(i + 1, y1))
                            else:
                                r.append(("continue", None, y1))
                    return r
                for k, v, y in self.iterate(itv, w, inner, f2, gen.iter):
                    if k == "exhausted":
                        res.append(("next", None, y))
                    elif k == "next":  # consumer broke out
                        res.append(("broke", None, y))
                    else:
                        res.append((k, v, y))
            return res

        for k, v, y in go(0, st):
            if k == "next":
                out.append(("exhausted", None, y))
            elif k in ("broke", "break"):
                out.append(("next", None, y))
            else:
                out.append((k, v, y))
        self.sink[-2].extend(self.sink[-1])
        self.sink.pop()
        return out

