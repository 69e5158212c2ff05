"""C21: objects sent to background processes arrive equivalent (symbolic round trip of the pickled state, and what is sent)."""
import ast

from sa.entry import make_object, run_function, params_for
from sa.interp import Interp, Monitor
from sa.lab import *
from sa.terms import has

R_STATE = "state-restores-what-the-constructor-was-given"
R_OPEN = "restoring-succeeds"
R_SAVE = "saved-state-can-be-transferred"
R_BUILD = "sent-during-construction-only-when-complete"
R_SEND = "what-is-dispatched-can-be-transferred"
R_BACK = "results-can-be-transferred-back"

HANDLES = {"conn": "a database connection", "cursor": "a database cursor", "gen": "a generator", "genexp": "a generator", "future": "a future",
           "closure": "a function defined inside another function", "poolmap": "an iterator of results", "pool": "a pool of processes",
           "file": "an open file"}
UNPICKLABLE = ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Event", "_thread.allocate_lock", "open", "sqlite3.connect",
               "weakref.ref", "threading.local", "multiprocessing.Lock", "multiprocessing.Queue")


def why_not(ip, x, st, p, depth=0, seen=None):
    """Something inside a value that pickle refuses: (text, term) or None.  Objects of the package are handled on their own."""
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, T) or y.n in seen:
            continue
        seen.add(y.n)
        if y.op in HANDLES:
            return HANDLES[y.op], y
        if y.op == "res" and "Executor" in str(y[0]):
            return "a pool of processes", y
        if y.op == "call" and y[0] in UNPICKLABLE:
            return f"the result of {y[0]}", y
        if y.op == "func":
            q = y[0] if isinstance(y[0], str) else str(y[0])
            if "<lambda>" in q or "<locals>" in q:
                return "a function defined inside another function", y
            continue
        if y.op in ("cell", "mu"):
            f = st.env.get(("@", y, "default_factory")) if st is not None else None
            if f is not None:
                stack.append(f)
            c = ip.content(y, st) if st is not None else ip.shape(y, None)
            if c is not y:
                stack.append(c)
            if y.op == "mu" and y in ip.mus:
                d = ip.mus[y]
                stack.append(d["init_content"])
                for b in d["backs"]:
                    stack.append(b[1])
            continue
        if y.op == "upd":
            stack.extend((y[1], y[2]))
            continue
        if y.op in ("list", "set", "tuple", "kwdict", "phi", "star", "dict"):
            stack.extend(y.args)
            continue
        if y.op == "comp":
            if y[0] == "gen" or y[0] == "genexp":
                return "a generator", y
            stack.append(y[1])
            continue
        if y.op == "dictcomp":
            stack.extend(y.args[1:3] if len(y.args) > 2 else ())
            continue
        if y.op == "bound":
            stack.append(y[0])
            continue
        if y.op == "mcall" and y[1] in ("keys", "values", "items") and not y[2]:
            b = ip.content(y[0], st) if st is not None else y[0]
            if b.op in ("kwdict", "dictcomp", "upd") or y[0].op == "cell":
                return f"a view of a dictionary (.{y[1]}())", y
    return None


class AtSubmit(Monitor):
    """Attributes of the object under construction at each submission of work that carries it."""
    name = "atsub"

    def __init__(self, obj_of):
        self.seen = []
        self.obj_of = obj_of

    def event(self, ev, st, ip):
        if ev.kind != "submit":
            return
        obj = self.obj_of()
        vals = list(ev.d["args"]) + list(dict(ev.d["kw"]).values()) + list(ev.d["contents"] or ()) if ev.d.get("contents") is not None else \
            list(ev.d["args"]) + list(dict(ev.d["kw"]).values())
        if any(y is obj for v in vals for y in reach(ip, v, st)):
            self.seen.append((ev, {k[2]: v for k, v in st.env.items() if k[0] == "@" and k[1] is obj}))


def reach(ip, v, st):
    out = list(sub_terms(v))
    for y in list(out):
        if y.op in ("cell", "mu"):
            c = ip.content(y, st)
            if c is not y:
                out.extend(sub_terms(c))
    return out


def run(c, lab):
    c.rule(R_STATE, "attributes holding what the constructor was given have the same value after saving and restoring the state")
    c.rule(R_OPEN, "restoring a saved state can complete")
    c.rule(R_SAVE, "the saved state contains no connection, cursor, pool, generator or local function")
    c.rule(R_BUILD, "when work carrying the object is handed out by its constructor, every attribute its saved state reads has its final value")
    c.rule(R_SEND, "functions handed to a pool are importable by name, and their arguments contain nothing that cannot be pickled")
    c.rule(R_BACK, "background functions return nothing that cannot be pickled")
    c.assumptions += ["pickle transfers importable functions and classes by name and values by content; values of the caller (corpus, tokeniser, "
                      "queries) are themselves transferable",
                      "the random generator, pool and logger of an index are not part of what has to arrive"]
    classes = [lab.index_cls] + lab.corpus_classes()
    for cls in classes:
        c.guard(R_STATE, cls.qual, lambda: roundtrip(c, lab, cls, worker_reads(lab) if cls is lab.index_cls else None))
    c.guard(R_BUILD, lab.index_cls.qual, lambda: building(c, lab))
    n = 0
    for name in lab.methods(lab.index_cls):
        if name in ("__init__", "__setstate__", "__getstate__"):
            continue
        n += c.guard(R_SEND, f"Index.{name}", lambda: sending(c, lab, name)) or 0
    c.count("submissions", n)
    c.require(n >= 1, "no operation was found that hands work to a pool")
    for q in lab.workers():
        c.guard(R_BACK, q, lambda: returning(c, lab, q))


# ---------------------------------------------------------------- round trip
def norm(x):
    def f(y):
        args = [a for a in y.args if not (isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] == "@")]
        return t(y.op, *args) if len(args) != len(y.args) else y
    return rewrite(x, f)


def attrs(st, obj):
    return {k[2]: v for k, v in st.env.items() if k[0] == "@" and k[1] is obj}


def whole(node):
    """Does this hand on the dictionary of attributes without picking any?"""
    body = node.body[1:] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else node.body
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, (ast.Constant, ast.Compare, ast.If, ast.IfExp, ast.Delete)) or isinstance(x, ast.Attribute) and x.attr not in ("__dict__", "copy") or \
                    isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id not in ("dict", "vars"):
                return False
    return True


def roundtrip(c, lab, cls, reads):
    gs, ss = cls.find("__getstate__"), cls.find("__setstate__")
    red = cls.find("__reduce__") or cls.find("__reduce_ex__") or cls.find("__getnewargs__") or cls.find("__getnewargs_ex__")
    name = cls.qual
    if red is not None:
        c.unsure(R_STATE, name, "", f"{cls.name} defines {red.name}")
        return
    ip = Interp(lab.p, opaque=(MIGRATE,))
    obj, st = make_object(ip, cls, "self", opaque_init=(MIGRATE,))
    A = attrs(st, obj)
    for f in (gs, ss):
        if f is not None and any((isinstance(x, ast.Attribute) and x.attr == "__dict__") or (isinstance(x, ast.Name) and x.id in ("vars", "setattr"))
                                 for x in ast.walk(f.node)):
            if f is gs and whole(f.node):
                held = [(a, why_not(ip, v, st, lab.p)) for a, v in A.items()]
                held = [(a, w[0]) for a, w in held if w] or list(held_anywhere(lab, cls))
                if held:
                    c.bad(R_SAVE, gs.qual, "", f"the saved state of {cls.name} is the dictionary of all attributes, with {held[0][1]} in {held[0][0]}: it cannot be transferred")
                    return
            c.unsure(R_STATE, name, "", f"{f.qual} works on the dictionary of attributes as a whole")
            return
    syms = {}
    sub = {}
    for a, v in A.items():
        if v.op == "param":
            syms[a] = t("param", name, "self." + a)
            sub[v] = syms[a]
    if gs is None:
        bad = None
        for a, v in A.items():
            w = why_not(ip, v, st, lab.p)
            if w:
                bad = (a, w[0])
        if bad is None:
            for k, v in held_anywhere(lab, cls):
                bad = (k, v)
                break
        if bad:
            c.bad(R_SAVE, name, "default", f"{cls.name} has no saved state of its own and keeps {bad[1]} in {bad[0]}: it cannot be sent to a background process")
        else:
            c.ok(R_SAVE, name, "default")
            c.ok(R_STATE, name, "default", "all attributes are transferred")
        return
    for a, s in syms.items():
        st.env[("@", obj, a)] = s
    fv, how = lab.unwrap(ip, gs)
    st0 = st.clone()
    outs = [o for o in run_function(ip, fv, [obj], {}, st0, tag="getstate")]
    rets = [o for o in outs if o[0] == "return"]
    if not rets:
        c.bad(R_SAVE, gs.qual, "", f"saving the state of {cls.name} always fails")
        return
    n_ok = 0
    for _, v, y in rets:
        w = why_not(ip, v, y, lab.p)
        if w:
            c.bad(R_SAVE, gs.qual, "", f"the saved state of {cls.name} contains {w[0]}, which cannot be transferred")
            return
        c.ok(R_SAVE, gs.qual, "")
        new = t("obj", cls.qual, ("@", "entry", "copy"))
        if is_const(v, None):
            c.bad(R_STATE, name, "none", f"{cls.name} saves no state: nothing is restored in the background process")
            return
        z = y.clone()
        z.facts = dict(z.facts)
        if ss is None:
            cont = ip.content(v, z)
            if cont.op == "kwdict":
                B = [{(k[0] if isinstance(k, T) else k): x for k, x in cont[0]}]
            elif cont.op in ("attr", "mcall", "upd") or "__dict__" in show(cont, 4):
                c.unsure(R_STATE, name, "", "the state is a modified copy of the attributes")
                return
            else:
                c.bad(R_OPEN, name, "no __setstate__", f"{cls.name} saves a state that is not a dictionary and cannot restore it")
                return
        else:
            fv2, _ = lab.unwrap(ip, ss)
            ev0 = len(ip.events)
            outs2 = run_function(ip, fv2, [new, v], {}, z, tag="setstate")
            B = [attrs(q, new) for k, _, q in outs2 if k == "return"]
            wrong = [e for e in ip.events[ev0:] if e.kind == "badcall"]
            if not B:
                c.bad(R_OPEN, ss.qual, "", f"restoring a saved {cls.name} always fails")
                return
            if wrong:
                c.bad(R_OPEN, ss.qual, "call", f"restoring a saved {cls.name} calls {wrong[0].d['qual']} with arguments it does not accept", wrong[0].where)
        c.ok(R_OPEN, name, "")
        own = used(cls)
        for a in A:
            if reads is not None and a not in reads and a.startswith("_"):
                continue
            if reads is None and a not in own and a.startswith("_"):
                continue
            compare(c, name, cls, a, A[a], syms, sub, B)
            n_ok += 1
    c.count("attributes_compared", n_ok)


def compare(c, name, cls, a, va, syms, sub, Bs):
    if va.op in ("rng",) or has(va, lambda y: y.op == "rng") or has(va, lambda y: y.op == "call" and "logging" in str(y[0])):
        return
    want = syms.get(a) or rewrite(va, lambda y: sub.get(y, y))
    src = {y for y in sub_terms(want) if y in set(syms.values())}
    if not src and want is va and not has(va, lambda y: y.op == "param"):
        return
    for B in Bs:
        if a not in B:
            c.bad(R_STATE, name, a, f"{cls.name}.{a} does not exist after the object was transferred")
            return
        vb = B[a]
        if vb is want or norm(vb) is norm(want):
            continue
        if a.startswith("_") and has(va, lambda y: y.op in HANDLES or y.op == "res"):
            c.unsure(R_STATE, name, a, f"{a} holds {show(va, 2)}, which the object opens for itself")
            return
        got = {y for y in sub_terms(vb) if y in set(syms.values())}
        if src and not (got & src):
            c.bad(R_STATE, name, a, f"{cls.name}.{a} is {show(vb, 3)} after the object was transferred, whatever it was before")
            return
        if a in syms and got and not has(vb, lambda y: y is syms[a]):
            c.bad(R_STATE, name, a, f"{cls.name}.{a} holds the value of another attribute after the object was transferred")
            return
        if a in syms and got == {syms[a]} and lossy(vb, syms[a]):
            c.bad(R_STATE, name, a, f"{cls.name}.{a} is looked up by its name after the object was transferred: {show(vb, 3)}")
            return
        if not src:
            ps = [y for y in sub_terms(va) if y.op == "param"]
            if ps and not has(vb, lambda y: y in ps):
                c.unsure(R_STATE, name, a, f"{a} is computed from a constructor argument that is not saved")
                return
        c.unsure(R_STATE, name, a, f"after the transfer: {show(vb, 3)}")
        return
    c.ok(R_STATE, name, a)


def lossy(x, sym):
    """Does only the name, type or size of a value survive (not enough to find the value again)?"""
    if x is sym or not has(x, lambda y: y is sym):
        return False
    if has(x, lambda y: y.op == "attr" and y[-1] in ("__module__", "__self__", "__wrapped__", "__dict__")):
        return False
    if x.op == "attr" and x[0] is sym:
        return x[-1] in ("__name__", "__qualname__", "__doc__", "__class__")
    if x.op == "call" and sym in [a for a in x[1] if isinstance(a, T)]:
        return x[0] in ("type", "len", "bool", "callable", "isinstance")
    parts = [a for b in x.args for a in (b if isinstance(b, tuple) else (b,))]
    flat = []
    for a in parts:
        flat += [b for b in a if isinstance(b, T)] if isinstance(a, tuple) else [a] if isinstance(a, T) else []
    hit = [a for a in flat if a is sym or has(a, lambda y: y is sym)]
    return bool(hit) and all(lossy(a, sym) for a in hit)


def used(cls):
    """Attributes of self the methods of a class read."""
    out = set()
    for k in cls.mro():
        for n, f in k.methods.items():
            if n in ("__init__", "__getstate__", "__setstate__"):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    out.add(x.attr)
    return out


def worker_reads(lab):
    """Names of attributes read by the functions that run in background processes."""
    out = set()
    for q in lab.workers():
        try:
            r = lab.run_worker(q, max_states=2)
        except (AnalysisError, RecursionError):
            return None
        quals = {q} | {e.d["qual"] for e in r.of("pcall")} | {e.fn for e in r.events}
        for k in quals:
            f = lab.p_fn(k)
            if f is not None:
                out |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
    return out


def held_anywhere(lab, cls):
    """Handles some method stores in an attribute."""
    for n in lab.all_methods(cls):
        if n in ("__setstate__",):
            continue
        try:
            r = lab.run_method(cls, n, max_states=2)
        except (AnalysisError, RecursionError):
            continue
        for e in r.of("setattr"):
            if e.d.get("obj") is r.obj:
                for o in options(e.d["value"]):
                    if o.op in HANDLES or o.op == "res":
                        yield e.d["name"], HANDLES.get(o.op, "a resource")


# ---------------------------------------------------------------- during construction
def building(c, lab):
    cls = lab.index_cls
    from checks.c09 import version_of
    cur = version_of(lab)
    gs = cls.find("__getstate__")
    needs = set()
    if gs is not None:
        needs = {x.attr for x in ast.walk(gs.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == gs.params[0]}
    n = 0
    for v in range(max(1, cur - 6), cur):
        obj = t("obj", cls.qual, ("@", "entry", "self"))
        mon = AtSubmit(lambda: obj)
        try:
            r = lab.open_index(v, 1, monitors=[mon], key=("c21",), max_states=2)
        except (AnalysisError, RecursionError) as e:
            c.unsure(R_BUILD, cls.qual, str(v), f"{e}")
            continue
        ends = [attrs(st, obj) for k, _, st in r.outs if k == "return"]
        for ev, now in mon.seen:
            n += 1
            for a in sorted(needs):
                if cls.find(a) is not None:
                    continue
                if a not in now:
                    c.bad(R_BUILD, ev.fn, a, f"opening an index of version {v} hands out work with the index before its attribute {a} is set: it cannot be sent", ev.where)
                elif ends and all(a in e and e[a] is not now[a] for e in ends):
                    c.bad(R_BUILD, ev.fn, a, f"opening an index of version {v} hands out work with the index while {a} is {show(now[a], 3)}, not its final value", ev.where)
                else:
                    c.ok(R_BUILD, ev.fn, a, f"version {v}", ev.where)
    c.count("submissions_during_construction", n)
    if not n:
        c.ok(R_BUILD, cls.qual, "", "no work is handed out by the constructor")


# ---------------------------------------------------------------- dispatched work
def sending(c, lab, name):
    r = lab.run_method(lab.index_cls, name, max_states=2)
    n = 0
    for e in r.of("submit"):
        n += 1
        st = FakeState(e)
        for f in options(e.d["f"]):
            q = r.ip.fqual(f)
            w = None
            if f.op in ("closure", "genexp") or "<locals>" in str(q) or "<lambda>" in str(q):
                w = "a function defined inside another function"
            elif f.op == "call" and str(f[0]).endswith("partial"):
                x = why_not(r.ip, f[1], st, lab.p)
                w = x and x[0]
            if w:
                c.bad(R_SEND, e.fn, "function", f"Index.{name} hands {w} to a background process, which cannot be transferred", e.where)
            else:
                c.ok(R_SEND, e.fn, str(q).split(".")[-1], "", e.where)
        if e.d["many"]:
            vals = []
            for v in e.d["contents"] or ():
                if v.op in ("comp",):
                    vals.append(v[1])
                elif v.op in ("list", "set", "tuple"):
                    vals.extend(v.args)
        else:
            vals = list(e.d["args"]) + list(dict(e.d["kw"]).values())
        for v in vals:
            x = why_not(r.ip, v, st, lab.p)
            if x:
                c.bad(R_SEND, e.fn, x[0], f"Index.{name} passes {x[0]} to a background process, which cannot be transferred", e.where)
        c.ok(R_SEND, e.fn, "arguments", "", e.where)
    return n


class FakeState:
    """What is known about containers at an event."""

    def __init__(self, e):
        self.heap = e.heap
        self.env = getattr(e, "env", None) or {}


def returning(c, lab, q):
    r = lab.run_worker(q, max_states=2)
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        x = why_not(r.ip, v, st, lab.p)
        if x:
            c.bad(R_BACK, q, x[0], f"the background function {q.split('.')[-1]} returns {x[0]}, which cannot be transferred back")
            return
    c.ok(R_BACK, q, "")
