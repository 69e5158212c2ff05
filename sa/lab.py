"""Runs of the abstract interpreter over the entry points of the package, shared by the checks."""
import ast
import os
import re
import sqlite3
import traceback

from .entry import make_object, run_function, params_for
from .interp import Interp, State
from .model import AnalysisError, Program
from .sql import split_script
from .sqlfx import Catalogue
from .txn import clean, text_of, stmt_label, target_of, DML, DDL, TEMP
from .terms import T, t, const, tup, options, sub_terms, is_const, rewrite, show



def first(sql):
    s = clean(sql).lower()
    return s.split(" ")[0] if s else ""


MIGRATE = "hyperreal._index_schema.migrate"


class Run:
    def __init__(self, name, ip, outs, obj, fn):
        self.name, self.ip, self.outs, self.obj, self.fn = name, ip, outs, obj, fn

    @property
    def events(self):
        return self.ip.events

    def of(self, *kinds):
        return [e for e in self.ip.events if e.kind in kinds]


class Lab:
    def __init__(self):
        self.p = Program()
        self.cache = {}

    # ------------------------------------------------------------ entries
    @property
    def index_cls(self):
        c = self.p.mods.get("hyperreal.index")
        if c is None or "Index" not in c.classes:
            raise AnalysisError("hyperreal.index.Index not found")
        return c.classes["Index"]

    def p_fn(self, qual):
        """The function of a qualified name (methods are looked up through the bases)."""
        if "fns" not in self.cache:
            self.cache["fns"] = {**{f.qual: f for m in self.p.mods.values() for f in m.funcs.values()},
                                 **{f.qual: f for m in self.p.mods.values() for k in m.classes.values() for f in k.methods.values()}}
        return self.cache["fns"].get(qual)

    def public(self, cls):
        """Public methods (and the operators) of a class, with properties."""
        return [n for n in cls.methods if not n.startswith("_") or n in ("__getitem__",)]

    def methods(self, cls):
        return list(cls.methods)

    def interp(self, **kw):
        return Interp(self.p, **kw)

    def unwrap(self, ip, f, cls=None):
        """(callable value, first argument is the class?)"""
        v = ip.func_value(f)
        while v.op in ("property", "classmethod", "staticmethod"):
            if v.op == "classmethod":
                return v[0], "class"
            if v.op == "staticmethod":
                return v[0], "static"
            v = v[0]
        return v, "self"

    def run_method(self, cls, name, faults=False, monitors=(), max_states=4, opaque=(), given=None, prep=None, key=None,
                   opaque_init=(MIGRATE,), max_steps=400000, typer=None, hook=None):
        """Analyse one public call of a method on a fresh object."""
        k = (cls.qual, name, faults, max_states, tuple(sorted(opaque)), key, tuple(opaque_init))
        if key is not None or not (monitors or given or prep or typer or hook):
            if k in self.cache:
                return self.cache[k]
        f = cls.find(name)
        if f is None:
            raise AnalysisError(f"{cls.qual}.{name} not found")
        ip = Interp(self.p, monitors=monitors, faults=faults, opaque=opaque, max_states=max_states, max_steps=max_steps, typer=typer, hook=hook)
        obj, st = make_object(ip, cls, "self", opaque_init=opaque_init) if name != "__init__" else (t("obj", cls.qual, ("@", "entry", "self")), State())
        fv, how = self.unwrap(ip, f)
        skip = 0 if how == "static" else 1
        first = [] if how == "static" else [t("class", cls.qual) if how == "class" else obj]
        if prep is not None:
            st = prep(ip, obj, st) or st
        outs = run_function(ip, fv, first, params_for(f, skip, given), st, tag=name)
        r = Run(f"{cls.name}.{name}", ip, outs, obj, f)
        self.cache[k] = r
        return r

    def run_func(self, fn, given=None, faults=False, monitors=(), max_states=4, opaque=(), key=None, typer=None, prep=None,
                 max_steps=400000, hook=None):
        """Analyse one call of a module level function."""
        k = ("func", fn.qual, faults, max_states, tuple(sorted(opaque)), key)
        if key is not None or not (monitors or given or typer or prep or hook):
            if k in self.cache:
                return self.cache[k]
        ip = Interp(self.p, monitors=monitors, faults=faults, opaque=opaque, max_states=max_states, typer=typer, max_steps=max_steps, hook=hook)
        st = State()
        if prep is not None:
            st, given = prep(ip, st, given)
        outs = run_function(ip, ip.func_value(fn), [], params_for(fn, 0, given), st, tag=fn.name)
        r = Run(fn.name, ip, outs, None, fn)
        self.cache[k] = r
        return r

    # ------------------------------------------------------------ background work
    def workers(self):
        """Functions handed to background processes by the Index: qual -> list of (Run, submit event)."""
        if "workers" in self.cache:
            return self.cache["workers"]
        out = {}
        self.worker_errors = []
        for name in self.public(self.index_cls) + ["_update_changed_clusters"]:
            if self.index_cls.find(name) is None:
                continue
            try:
                r = self.run_method(self.index_cls, name, max_states=2)
            except (AnalysisError, RecursionError) as e:
                self.worker_errors.append((name, e))
                continue
            for e in r.of("submit"):
                for f in options(e.d["f"]):
                    q = r.ip.fqual(f)
                    if q in r.ip.fns:
                        out.setdefault(q, []).append((r, e))
        self.cache["workers"] = out
        return out

    def worker_args(self, q):
        """Symbolic arguments of a worker, shaped like what is actually passed: the index is an Index object."""
        uses = self.workers()[q]
        r, e = uses[0]
        fn = r.ip.fns[q]

        def shape(v, name, idx, src):
            if isinstance(v, T) and v.op == "obj" and v[0] == self.index_cls.qual:
                return idx
            if isinstance(v, T) and v.op == "tuple":
                return tup(*[shape(x, f"{name}.{i}", idx, src) for i, x in enumerate(v.args)])
            return t("param", q, name)

        def build(idx):
            if e.d["many"]:
                vals = []
                for c in e.d["contents"]:
                    if c.op == "comp":
                        vals.append(c[1])
                    elif c.op in ("list",) and c.args:
                        vals.append(c[0])
                    else:
                        vals.append(c)
                names = fn.posargs
            else:
                vals, names = list(e.d["args"]), fn.posargs
            given = {n: shape(v, n, idx, e) for n, v in zip(names, vals)}
            for k, v in e.d["kw"].items():
                if not e.d["many"] and k in fn.params:
                    given[k] = shape(v, k, idx, e)
            return given

        return fn, build

    def run_worker(self, q, faults=False, monitors=(), max_states=4, key=None, opaque=(), hook=None):
        k = ("worker", q, faults, max_states, key, tuple(sorted(opaque)))
        if key is not None or not (monitors or hook):
            if k in self.cache:
                return self.cache[k]
        fn, build = self.worker_args(q)
        ip = Interp(self.p, monitors=monitors, faults=faults, max_states=max_states, opaque=opaque, hook=hook)
        idx, st = make_object(ip, self.index_cls, "idx", opaque_init=(MIGRATE,))
        given = build(idx)
        outs = run_function(ip, ip.func_value(fn), [], params_for(fn, 0, {n: v for n, v in given.items()}), st, tag=fn.name)
        r = Run(fn.name, ip, outs, idx, fn)
        self.cache[k] = r
        return r

    # ------------------------------------------------------------ opening an index
    def open_index(self, version, n_tables=0, faults=False, monitors=(), key=None, max_states=4, opaque=(), ddl=None):
        """Index(db_path) on a database whose version number (and tables) are fixed.

        Queries about the version and the catalogue are constants of the program: they are answered by evaluating them
        against an empty database with that version and those tables."""
        k = ("open", version, n_tables, faults, key, max_states, tuple(ddl or ()))
        if k in self.cache and (key is not None or not monitors):
            return self.cache[k]
        cls = self.index_cls
        f = cls.find("__init__")
        ip = Interp(self.p, monitors=monitors, faults=faults, max_states=max_states, opaque=opaque)
        db = sqlite3.connect(":memory:")
        for i in range(n_tables):
            db.execute(f"create table t{i}(x)")
        for s in ddl or ():
            db.execute(s)
        db.execute(f"pragma user_version = {version}")

        def rows(conn, sql, params):
            if not is_const(sql) or not isinstance(sql[0], str):
                return None
            s = clean(sql[0]).lower()
            if re.match(r"pragma (main\.)?(user_version|application_id|schema_version|table_list)$", s) or \
                    (s.startswith("select") and re.search(r"\b(sqlite_master|sqlite_schema|pragma_\w+)\b", s)):
                vals = ()
                if params is not None and params.op in ("tuple", "list") and all(is_const(x) for x in params.args):
                    vals = tuple(x[0] for x in params.args)
                try:
                    return [tup(*[const(v) for v in row]) for row in db.execute(sql[0], vals)]
                except sqlite3.Error:
                    return None
            return None

        ip.sqlrows = rows
        obj = t("obj", cls.qual, ("@", "entry", "self"))
        outs = run_function(ip, ip.func_value(f), [obj], params_for(f, 1), State(), tag="open")
        r = Run(f"Index(version {version})", ip, outs, obj, f)
        self.cache[k] = r
        return r

    def main_conns(self, r):
        """Connections held in attributes of the analysed object."""
        out = set()
        for _, _, st in r.outs:
            for k, v in st.env.items():
                if k[0] == "@" and k[1] is r.obj:
                    out |= {o for o in options(v) if o.op == "conn"}
        for e in r.events:
            if e.kind == "setattr" and e.d.get("obj") is r.obj:
                out |= {o for o in options(e.d["value"]) if o.op == "conn"}
        return out

    def aggregates(self):
        """SQL functions the package registers on its connections."""
        if "aggr" in self.cache:
            return self.cache["aggr"]
        ag, fu = set(), set()
        for v in (0,):
            r = self.open_index(v)
            for e in r.of("conn_create_aggregate", "conn_create_function"):
                a = e.d["args"]
                if len(a) >= 2 and is_const(a[0]) and is_const(a[1]):
                    (ag if e.kind.endswith("aggregate") else fu).add((a[0][0], a[1][0]))
        self.cache["aggr"] = (sorted(ag), sorted(fu))
        return self.cache["aggr"]

    def const_sql(self, r, conns=None, kinds=("sql",)):
        """Constant statements sent to the given connections, in order of analysis (scripts split)."""
        out = []
        for e in r.of(*kinds):
            if conns is not None and e.d["conn"] not in conns:
                continue
            s = e.d["sql"]
            if is_const(s) and isinstance(s[0], str):
                if e.d["how"] == "executescript":
                    out.extend((e, x) for x in split_script(s[0]))
                else:
                    out.append((e, s[0]))
        return out

    def index_ddl(self):
        if "ddl" not in self.cache:
            r = self.open_index(0)
            conns = self.main_conns(r)
            ddl = [s for e, s in self.const_sql(r, conns) if first(s) in ("create", "drop", "alter")]
            if not any(re.search(r"\btable\b.*\binverted_index\b", s, re.S | re.I) for s in ddl):
                raise AnalysisError("the schema of a new index could not be derived from Index.__init__")
            self.cache["ddl"] = ddl
        return self.cache["ddl"]

    def segment_ddl(self):
        """Schema of the temporary segment database, from the worker that creates it."""
        if "segddl" not in self.cache:
            out, owner = [], None
            for q in self.workers():
                r = self.run_worker(q)
                own = self.main_conns(r)
                ddl = [s for e, s in self.const_sql(r) if e.d["conn"] not in own and first(s) == "create"]
                if ddl:
                    out, owner = out + [s for s in ddl if s not in out], q
            self.cache["segddl"] = (out, owner)
        return self.cache["segddl"]

    def catalogue(self, kind="index"):
        k = ("cat", kind)
        if k not in self.cache:
            ag, fu = self.aggregates()
            if kind == "index":
                c = Catalogue(self.index_ddl(), ag, fu)
                own = list(self.all_index_sql())
                for q in self.workers():
                    r = self.run_worker(q)
                    conns = self.main_conns(r)
                    own += [s for e, s in self.const_sql(r, conns) if s not in own]
                temps = [s for s in own if re.match(r"\s*create\s+temp", s, re.I)]
                for s in temps:
                    c.apply(s)
                seg, _ = self.segment_ddl()
                for nm in self.attached_names():
                    c.attach(nm, seg)
            elif kind == "segment":
                c = Catalogue(self.segment_ddl()[0], ag, fu)
            else:
                c = Catalogue(kind, ag, fu)
            self.cache[k] = c
        return self.cache[k]

    def corpus_cat(self, cls):
        """Schema of a corpus class's database, from the definitions its operations execute (None: it has none)."""
        k = ("corpuscat", cls.qual)
        if k not in self.cache:
            ddl = []
            for g, r in self.all_runs():
                if g == cls.qual:
                    for e, s in self.const_sql(r, self.main_conns(r)):
                        if first(s) == "create" and s not in ddl:
                            ddl.append(s)
            ag, fu = self.aggregates()
            self.cache[k] = Catalogue(ddl, ag, fu) if ddl else None
        return self.cache[k]

    def empty_catalogue(self):
        if "empty" not in self.cache:
            ag, fu = self.aggregates()
            self.cache["empty"] = Catalogue([], ag, fu)
        return self.cache["empty"]

    def attached_names(self):
        out = []
        for s in self.all_index_sql():
            m = re.match(r"\s*attach\s+(?:database\s+)?\S+\s+as\s+(\w+)", s, re.I)
            if m and m.group(1) not in out:
                out.append(m.group(1))
        return out

    def all_index_sql(self):
        if "allsql" not in self.cache:
            out = []
            for n in self.public(self.index_cls):
                try:
                    r = self.run_method(self.index_cls, n, max_states=2)
                except (AnalysisError, RecursionError):
                    continue
                conns = self.main_conns(r)
                for e, s in self.const_sql(r, conns):
                    if s not in out:
                        out.append(s)
            self.cache["allsql"] = out
        return self.cache["allsql"]

    # ------------------------------------------------------------ effects of the public operations
    def effects(self):
        """Index method -> persistent tables it (or what it calls) writes; None when it could not be analysed."""
        if "effects" not in self.cache:
            out = {}
            for n in self.all_methods(self.index_cls):
                if n in ("__init__", "__setstate__", "__getstate__"):
                    continue
                try:
                    r = self.run_method(self.index_cls, n, max_states=2)
                except (AnalysisError, RecursionError):
                    out[n] = None
                    continue
                main = self.main_conns(r)
                ws = set()
                for e in r.of("sql"):
                    s = text_of(e.d["sql"])
                    w = first(s)
                    if e.d["conn"] in main and (w in DML or w in DDL) and not TEMP.match(s):
                        ws.add(target_of(clean(s)) or "?")
                temp = {m.group(1).lower() for e in r.of("sql") for m in [re.match(r"\s*create\s+temp\w*\s+table\s+(?:if\s+not\s+exists\s+)?(\w+)",
                                                                                    text_of(e.d["sql"]), re.I)] if m}
                out[n] = ws - temp
            self.cache["effects"] = out
        return self.cache["effects"]

    # ------------------------------------------------------------ every SQL call of the package
    def corpus_classes(self):
        """Concrete classes of the corpus module that keep a connection."""
        m = self.p.mods.get("hyperreal.corpus")
        if m is None:
            raise AnalysisError("hyperreal.corpus not found")
        out = []
        for c in m.classes.values():
            if any(isinstance(b, str) and b.split(".")[-1] == "Protocol" for b in c.bases):
                continue
            if any(f.cls is not None and f.cls.name not in ("BaseCorpus",) for f in [c.find("docs")] if f is not None) and \
                    c.find("keys") is not None and not is_abstract(c):
                out.append(c)
        return out

    def all_runs(self):
        """(group, Run) pairs covering the code that talks to databases: one fault-free analysis per entry point."""
        if "allruns" in self.cache:
            return self.cache["allruns"]
        out, errors = [], []

        def add(group, what, run):
            try:
                out.append((group, run()))
            except Exception as e:  # AnalysisError, RecursionError, or a construct the analysis does not understand
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc()
                errors.append((group, what, e))

        cls = self.index_cls
        add("index", "__init__", lambda: self.open_index(0))
        for n in cls.methods:
            if n in ("__init__", "__setstate__", "__getstate__"):
                continue
            add("index", n, lambda: self.run_method(cls, n, max_states=2))
        for q in self.workers():
            add("index", q, lambda: self.run_worker(q))
        for c in self.corpus_classes():
            for n in self.all_methods(c):
                if n in ("__setstate__", "__getstate__"):
                    continue
                add(c.qual, n, lambda: self.run_method(c, n, max_states=2))
        self.cache["allruns"] = out
        self.cache["allruns_errors"] = errors
        return out

    def all_methods(self, cls):
        out = []
        for c in cls.mro() if hasattr(cls, "mro") else [cls]:
            for n in c.methods:
                if n not in out:
                    out.append(n)
        return out

    def conn_group(self, r, group, conn):
        """'index', 'segment', a corpus class, or None for a connection of unknown purpose."""
        if conn in self.main_conns(r):
            return group
        if r.obj is None or group == "index":
            for e in r.of("connect"):
                if e.d["conn"] is conn and self.segment_ddl()[1] and r.fn.qual == self.segment_ddl()[1]:
                    return "segment"
        return None


def is_abstract(cls):
    for c in cls.mro():
        for n, f in c.methods.items():
            if any("abstractmethod" in ast.unparse(d) for d in f.decorators) and cls.find(n) is f:
                return True
    return False
