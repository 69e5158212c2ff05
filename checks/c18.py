"""C18: the same seed gives the same model and samples (where random choices come from, and what their order depends on)."""
import re

from sa.interp import Interp, Monitor
from sa.lab import *
from sa.rel import Query, schema_of
from sa.sql import SqlError
from sa.sqlfx import Catalogue
from sa.terms import has
from sa.web import Web, Cli

R_RNG = "choices-come-from-the-seeded-generator"
R_SEED = "the-generator-is-seeded-as-requested"
R_WORK = "background-tasks-make-no-random-choices"
R_ORDER = "choices-do-not-depend-on-an-arbitrary-order"
R_DRAW = "draws-are-made-in-a-fixed-order"
R_KEEP = "ties-are-not-settled-by-arrival-order"
R_SQL = "sql-makes-no-random-choices"

STDRANDOM = ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices", "normalvariate",
             "gauss", "betavariate", "expovariate", "getrandbits", "randbytes", "paretovariate", "setstate")
ENTROPY = ("os.urandom", "uuid.uuid1", "uuid.uuid4", "time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "id", "os.getpid",
           "secrets.", "random.SystemRandom", "datetime.datetime.now", "time.process_time")
SEQ = ("list", "tuple", "iter", "reversed", "enumerate", "itertools.chain", "itertools.islice", "zip", "filter", "map", "dict", "collections.deque",
       "itertools.cycle", "itertools.repeat", "itertools.chain.from_iterable", "collections.OrderedDict", "set", "frozenset", "next",
       "itertools.zip_longest", "itertools.accumulate", "itertools.batched", "collections.Counter", "collections.defaultdict")
ORDERED_SETS = ("pyroaring.BitMap", "BitMap", "FrozenBitMap", "pyroaring.FrozenBitMap")


class Keep(Monitor):
    name = "keep"

    def event(self, ev, st, ip):
        if ev.kind in ("random", "iter", "mutate", "call"):
            ev.heap = dict(st.heap)
            if ev.kind == "mutate":
                ev.d["dd"] = {k for k in st.env if k[0] == "@" and k[2] == "default_factory"}


class Sql:
    """Is the order of the rows of a query fixed by the query itself?"""

    def __init__(self, lab):
        ag, fu = lab.aggregates()
        self.cat = Catalogue(lab.index_ddl(), ag, fu)
        for s in lab.all_index_sql():
            if re.match(r"\s*create\s+temp(orary)?\s", s, re.I):
                self.cat.apply(re.sub(r"^(\s*create\s+)temp(orary)?\s", r"\1", s, flags=re.I))
        self.memo = {}

    def fixed(self, text):
        if text not in self.memo:
            try:
                self.memo[text] = self.decide(text)
            except (SqlError, KeyError, AttributeError, IndexError, TypeError):
                self.memo[text] = None
        return self.memo[text]

    def decide(self, text):
        q = Query(self.cat, text)
        if q.compound:
            return None
        aggs = any(x.op == "fn" and str(x[0]).lower() in ("count", "sum", "max", "min", "avg", "total", "group_concat") or
                   x.op == "fn" and str(x[0]) in dict(self.cat.aggregates) for e in q.cols for x in sub_terms(e))
        if aggs and not q.group:
            return True
        if any(i.op != "inst" or not isinstance(i[0], str) for _, i, _, _ in q.frm):
            return None
        have = set()
        insts = [i for _, i, _, _ in q.frm]

        def add(e):
            have.add(q.find(e).n)

        for o in q.order:
            e = o[0] if isinstance(o, tuple) else o
            add(e)
        for c in q.where:
            if c.op == "cmp" and c[0] in ("=", "is"):
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a.op == "c" and not has(b, lambda y: y.op == "c" or y.op == "select"):
                        add(a)
        cols = {i: [c[0].lower() for c in self.cat.columns(i[0])] for i in insts}
        if any(not v for v in cols.values()):
            return None
        changed = True
        whole = set()
        while changed:
            changed = False
            for i in insts:
                if i in whole:
                    continue
                for k in list(self.cat.unique_keys(i[0])) + [("rowid",)]:
                    if all(q.find(t("c", i, col)).n in have for col in k):
                        whole.add(i)
                        for col in cols[i]:
                            add(t("c", i, col))
                        changed = True
                        break

        def fixed(e):
            if q.find(e).n in have:
                return True
            cs = [x for x in sub_terms(e) if x.op == "c"]
            if any(x.op in ("select", "exists", "subquery", "scalar") for x in sub_terms(e)):
                return None
            return all(q.find(x).n in have for x in cs)

        want = q.group if q.group else q.cols
        out = [fixed(e) for e in want]
        if False in out:
            return False
        return None if None in out else True


class Order:
    """Why the iteration order of a value is not a function of the index, the arguments and the seed."""

    def __init__(self, lab, r, sql):
        self.ip, self.sql = r.ip, sql
        self.iters = {}
        for e in r.of("iter"):
            self.iters.setdefault(e.d["loop"], {})[e.d["iter"].n] = e
        self.memo = {}
        self.owner = {}
        self.made = {}      # dictionary -> loops in which missing entries are made on first use
        for e in r.of("mutate"):
            b = e.d["ref"]
            if b.op == "item":
                while b.op == "item":
                    b = b[0]
                if ("@", b, "default_factory") in e.d.get("dd", ()):
                    self.made.setdefault(b, set()).update(e.loops)

    def loop(self, lid, seen, depth):
        for e in (self.iters.get(lid) or {}).values():
            w = self.why(e.d["iter"], e.heap, seen, depth + 1)
            if w:
                return w
        return None

    def why(self, x, heap, seen=frozenset(), depth=0):
        if depth > 40 or not isinstance(x, T) or x.n in seen:
            return None
        k = (x.n, id(heap))
        if k in self.memo and not seen:
            return self.memo[k]
        out = self.look(x, heap, seen | {x.n}, depth)
        if not seen:
            self.memo[k] = out
        return out

    def look(self, x, heap, seen, depth):
        def go(y):
            return self.why(y, heap, seen, depth + 1)

        if x.op == "phi":
            for o in options(x):
                w = go(o)
                if w:
                    return w
            return None
        if x.op in ("completed", "waitdone", "waitrest"):
            return "the order in which background tasks finish"
        if x.op == "cell" and x[0] == "set" and any(y.op == "future" for y in self.flat(self.ip.shape(x, heap))):
            return "the order of a set of futures"
        if x.op in ("cursor", "rows"):
            cur = x if x.op == "cursor" else x[0]
            if cur.op != "cursor" or not is_const(cur[1]) or not isinstance(cur[1][0], str):
                return None
            s = cur[1][0]
            if re.search(r"\brandom\s*\(", s, re.I):
                return "an order SQLite picks at random"
            if self.sql.fixed(s) is False:
                return f"the unspecified row order of `{' '.join(s.split())[:90]}`"
            return None
        if x.op in ("cell", "mu"):
            if x.op == "mu" and x in self.ip.mus:
                d = self.ip.mus[x]
                grows = any(self.grows(b[1]) or self.grows(b[0]) for b in d["backs"])
                if grows or d["loop"] in self.made.get(self.owner.get(x), ()):
                    w = self.loop(d["loop"], seen, depth)
                    if w:
                        return w
                for y in [d["init"], d["init_content"]] + [z for p in d.get("inits", ()) for z in p]:
                    w = go(y) if isinstance(y, T) else None
                    if w:
                        return w
                for b in d["backs"]:
                    for y in b[:2]:
                        w = go(y) if isinstance(y, T) else None
                        if w:
                            return w
                return None
            c = self.ip.shape(x, heap)
            if c is x:
                return None
            if c.op == "mu":
                self.owner[c] = x
            return go(c)
        if x.op == "upd":
            if x[0] in ("sort",):
                return None
            w = go(x[1])
            if w:
                return w
            if x[0] in ("extend", "update", "|=", "+=", "ior", "iadd", "extendleft"):
                for a in x[2] if isinstance(x[2], tuple) else (x[2],):
                    w = go(a) if isinstance(a, T) else None
                    if w:
                        return w
            return None
        if x.op in ("comp", "dictcomp", "genexp", "setcomp"):
            if x.op == "comp" and x[0] == "set" and has(x[1], lambda y: y.op == "future"):
                return "the order of a set of futures"
            for a in x.args:
                for lid in self.lids(a):
                    w = self.loop(lid, seen, depth)
                    if w:
                        return w
            return None
        if x.op in ("list", "tuple"):
            for a in x.args:
                if isinstance(a, T) and a.op == "star":
                    w = go(a[0])
                    if w:
                        return w
            return None
        if x.op == "call":
            name, args, kw = x[0], x[1], dict(x[2])
            last = str(name).split(".")[-1]
            if name == "sorted":
                key = kw.get("key")
                if key is None or is_const(key, None):
                    return None
                w = go(args[0]) if args else None
                return w and w + " (where the sort key is equal)"
            if str(name) in ORDERED_SETS or last in ("BitMap", "FrozenBitMap", "BitMap64"):
                return None
            if name in ("set", "frozenset") and args and any(y.op == "future" for y in self.flat(self.ip.shape(args[0], heap))):
                return "the order of a set of futures"
            if name in SEQ:
                for a in args:
                    w = go(a)
                    if w:
                        return w
            if name in ("heapq.nlargest", "heapq.nsmallest"):
                return None
            if name in ("os.listdir", "os.scandir", "glob.glob"):
                return "the order of a directory listing"
            return None
        if x.op == "mcall":
            if x[1] in ("keys", "values", "items", "copy", "union", "difference", "intersection", "symmetric_difference"):
                if isinstance(x[0], T) and x[0].op == "ext":
                    return None
                return go(x[0])
            return None
        if x.op == "bin":
            if x[0] in ("-", "&", "|", "^", "+"):
                for a in x.args[1:]:
                    w = go(a)
                    if w:
                        return w
                    if x[0] in ("-", "&"):
                        break
            return None
        if x.op == "slice" or x.op == "idx" and False:
            return go(x[0])
        if x.op == "item" and len(x.args) > 1 and isinstance(x[1], T) and x[1].op == "slice":
            return go(x[0])
        return None

    def flat(self, c):
        return sub_terms(c) if isinstance(c, T) else ()

    def grows(self, y):
        """Adds to the end of something (the order of additions is the order of iteration)."""
        return isinstance(y, T) and any(z.op == "upd" and z[0] not in ("sort", "discard", "remove", "pop", "clear", "del", "delitem") for z in sub_terms(y))

    def lids(self, a):
        """Loop identifiers mentioned in a comprehension term."""
        out = []
        stack = [a]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                if y in self.iters:
                    out.append(y)
                    continue
                stack.extend(y)
        return out


def run(c, lab):
    c.rule(R_RNG, "every random choice is drawn from the generator the index object seeds when it is constructed")
    c.rule(R_SEED, "the generator is constructed with the seed that was given, whatever its value")
    c.rule(R_WORK, "functions run in background processes draw nothing random, unless from a generator seeded by their arguments")
    c.rule(R_ORDER, "the sequences that are shuffled, sampled or chosen from have an order fixed by the index and the arguments")
    c.rule(R_DRAW, "draws made once per element are made over elements in a fixed order")
    c.rule(R_KEEP, "results of background tasks that compete for a place are not kept by order of arrival")
    c.rule(R_SQL, "no statement of the index uses SQLite's own random functions")
    c.assumptions += ["the same index file read with the same SQLite version gives rows in the same order only where the query fixes the order",
                      "sets of numbers built in the same order iterate in the same order"]
    sql = Sql(lab)
    c.guard(R_SEED, lab.index_cls.qual, lambda: seeding(c, lab))
    n = 0
    for name in lab.public(lab.index_cls):
        if name.startswith("__") and name != "__init__":
            continue
        n += c.guard(R_ORDER, f"Index.{name}", lambda: entry(c, lab, f"Index.{name}", lab.run_method(lab.index_cls, name, max_states=2,
                                                             monitors=[Keep()], key="c18"), sql)) or 0
    c.count("random_choices", n)
    if not n:
        c.unsure(R_RNG, lab.index_cls.qual, "", "no random choice was found in the index")
    for q in lab.workers():
        c.guard(R_WORK, q, lambda: worker(c, lab, q))
    web = Web(lab)
    for h in web.handlers():
        c.guard(R_ORDER, h.qual, lambda: entry(c, lab, h.qual, web.run_handler(h, monitors=[Keep()], key="c18", max_states=2, with_index=True), sql))


def at(e):
    return e.where


def entry(c, lab, what, r, sql):
    evs = r.of("random")
    calls = [e for e in r.of("call") if suspicious(e)]
    order = None
    n = 0
    for e in calls:
        c.bad(R_RNG, e.fn, e.d["name"], f"{what} draws from {e.d['name']}, which the seed of the index does not control", at(e))
    if what.startswith("Index."):
        for e, s in lab.const_sql(r):
            if re.search(r"\b(random|randomblob)\s*\(", s, re.I):
                c.bad(R_SQL, e.fn, "random()", f"{what} uses SQLite's random(), which no seed controls", at(e))
                n += 1
    for e in evs:
        n += 1
        own(c, lab, what, e, r)
        order = order or Order(lab, r, sql)
        for a in e.d["args"]:
            w = order.why(a, e.heap)
            if w:
                c.bad(R_ORDER, e.fn, e.d["op"], f"{what}: what is drawn from by {e.d['op']}() is in {w}", at(e))
            else:
                c.ok(R_ORDER, e.fn, e.d["op"], "", at(e))
        for lid in e.loops:
            w = order.loop(lid, frozenset(), 0)
            if w:
                c.bad(R_DRAW, e.fn, e.d["op"], f"{what}: {e.d['op']}() is drawn once per element in {w}", at(e))
            else:
                c.ok(R_DRAW, e.fn, e.d["op"], "", at(e))
    if evs or what.split(".")[-1] in ("initialise_clusters", "refine_clusters"):
        ties(c, what, r, order or Order(lab, r, sql))
    return n


def suspicious(e):
    n = str(e.d["name"])
    if n.startswith("random.") and n.split(".")[-1] in STDRANDOM and n.count(".") == 1:
        return True
    if n.startswith(("numpy.random.", "np.random.")):
        if n.split(".")[-1] in ("default_rng", "RandomState", "SeedSequence", "Generator", "PCG64"):
            a = e.d["args"]
            return not a or is_const(a[0], None)
        return True
    return n.startswith("secrets.") and n.split(".")[-1] in ("choice", "randbelow", "randbits")


def own(c, lab, what, e, r):
    where = {x[3][-1:] for x in constructor_generators(lab)}
    for g in options(e.d["rng"]):
        if g.op != "rng":
            if g.op in ("param", "obj") or not (g.op == "mod" or g.op == "ext" and str(g[0]).startswith("random")):
                c.unsure(R_RNG, e.fn, e.d["op"], f"the generator is {show(g, 3)}", at(e))
            else:
                c.bad(R_RNG, e.fn, e.d["op"], f"{what} draws from {show(g, 2)}, which the seed of the index does not control", at(e))
            continue
        if g[0] == "random.SystemRandom":
            c.bad(R_RNG, e.fn, e.d["op"], f"{what} draws from the operating system's random source, which cannot be seeded", at(e))
            continue
        seed = seed_of(g)
        if seed is None and g[3][-1:] in where:
            continue    # decided where the index is constructed
        if seed is None:
            c.bad(R_RNG, e.fn, e.d["op"], f"{what} draws from a generator that is not seeded with the seed of the index", at(e))
        elif has(seed, entropy):
            c.bad(R_RNG, e.fn, e.d["op"], f"{what} draws from a generator seeded with {show(seed, 3)}", at(e))
        elif any(y.op in ("param", "rand") for y in sub_terms(seed)):
            c.ok(R_RNG, e.fn, e.d["op"], "", at(e))
        else:
            c.unsure(R_RNG, e.fn, e.d["op"], f"the generator is seeded with {show(seed, 3)}", at(e))
    if e.d["op"] == "seed":
        a = e.d["args"]
        if not a or is_const(a[0], None) or has(a[0], entropy):
            c.bad(R_SEED, e.fn, "seed", f"{what} seeds the generator of the index anew", at(e))


def constructor_generators(lab):
    if "c18gens" not in lab.cache:
        r = lab.open_index(version(lab), 1)
        lab.cache["c18gens"] = {y for _, _, st in r.outs for k, x in st.env.items() if k[0] == "@" and k[1] is r.obj for y in options(x) if y.op == "rng"}
    return lab.cache["c18gens"]


def entropy(y):
    return y.op == "call" and any(str(y[0]) == k or k.endswith(".") and str(y[0]).startswith(k) for k in ENTROPY)


def seed_of(g):
    """The seed a generator is constructed with (None: it is not seeded)."""
    kw = dict(g[2])
    s = g[1][0] if g[1] else kw.get("x", kw.get("a"))
    return None if s is None or is_const(s, None) else s


def seeding(c, lab):
    cls = lab.index_cls
    f = cls.find("__init__")
    if "random_seed" not in f.params:
        c.require(False, "Index no longer accepts random_seed")
    r = lab.open_index(version(lab), 1)
    p = None
    seen = 0
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        gens = [(k[2], x) for k, x in st.env.items() if k[0] == "@" and k[1] is r.obj and any(o.op == "rng" for o in options(x))]
        for a, x in gens:
            for g in options(x):
                if g.op != "rng":
                    continue
                seen += 1
                s = seed_of(g)
                if s is None:
                    known = [(k, b) for k, b in st.facts.items() if isinstance(k, T) and has(k, lambda y: y.op == "param" and y[1] == "random_seed")]
                    if any(k.op == "cmp" and k[0] in ("is", "==") and b is True and any(is_const(z, None) for z in k.args[1:]) for k, b in known):
                        c.ok(R_SEED, f.qual, a)
                    elif any(k.op in ("truth", "param") and b is False for k, b in known):
                        c.bad(R_SEED, f.qual, a, "a seed of 0 is ignored: the generator is not seeded")
                    elif known:
                        c.unsure(R_SEED, f.qual, a, "the generator is not seeded under " + ", ".join(show(k, 3) for k, b in known))
                    else:
                        c.bad(R_SEED, f.qual, a, "the generator of the index is not seeded with the given seed")
                    continue
                if has(s, entropy):
                    c.bad(R_SEED, f.qual, a, f"the generator is seeded with {show(s, 3)}")
                elif not has(s, lambda y: y.op == "param" and y[1] == "random_seed"):
                    c.bad(R_SEED, f.qual, a, f"the generator is seeded with {show(s, 3)}, not the given seed")
                elif s.op == "call" and s[0] == "hash":
                    c.bad(R_SEED, f.qual, a, "the generator is seeded with a hash, which differs between processes for text")
                elif s.op in ("or", "boolop", "bool") and has(s, lambda y: is_const(y, None)):
                    c.bad(R_SEED, f.qual, a, "a seed of 0 is ignored: the generator is not seeded")
                else:
                    c.ok(R_SEED, f.qual, a)
    if not seen:
        c.unsure(R_SEED, f.qual, "", "no generator is constructed with the index")


def version(lab):
    from checks.c09 import version_of
    return version_of(lab)


# ---------------------------------------------------------------- background work
def worker(c, lab, q):
    r = lab.run_worker(q, max_states=2)
    f = r.fn
    for e in r.of("call"):
        if suspicious(e):
            c.bad(R_WORK, e.fn, e.d["name"], f"the background function {f.name} draws from {e.d['name']}, which the seed of the index does not control", at(e))
    for e in r.of("random"):
        for g in options(e.d["rng"]):
            if g.op != "rng":
                if g.op == "mod" or g.op == "ext" and str(g[0]).startswith("random"):
                    c.bad(R_WORK, e.fn, e.d["op"], f"the background function {f.name} draws from {show(g, 2)}", at(e))
                continue
            s = seed_of(g)
            if s is None or has(s, entropy):
                c.bad(R_WORK, e.fn, e.d["op"], f"the background function {f.name} draws from an unseeded generator", at(e))
            elif has(s, lambda y: y.op == "param" and y[0] != f.qual and y[1] == "random_seed"):
                if not transferred(lab):
                    c.bad(R_WORK, e.fn, e.d["op"], f"the background function {f.name} draws from its copy of the index, whose generator is seeded anew "
                          "in every process", at(e))
                else:
                    c.unsure(R_WORK, e.fn, e.d["op"], "the seed is transferred with the index", at(e))
            else:
                c.ok(R_WORK, e.fn, e.d["op"], "", at(e))
    for e, s in lab.const_sql(r):
        if re.search(r"\b(random|randomblob)\s*\(", s, re.I):
            c.bad(R_SQL, e.fn, "random()", f"{f.name} uses SQLite's random(), which no seed controls", at(e))
    c.ok(R_WORK, q, "")


def transferred(lab):
    """Does the saved state of an index mention its seed or generator?"""
    import ast
    cls = lab.index_cls
    gs = cls.find("__getstate__")
    if gs is None:
        return True
    names = {x.attr for x in ast.walk(gs.node) if isinstance(x, ast.Attribute)}
    return any("seed" in n or "random" in n or "__dict__" in n for n in names)


# ---------------------------------------------------------------- arrival order
def ties(c, what, r, order):
    """In a loop over results in completion order: keeping one of several competing results by comparing only part of it."""
    for e in r.of("mutate"):
        if e.d["op"] not in ("setitem", "setdefault") or not e.loops:
            continue
        why = None
        for lid in e.loops:
            for it in (order.iters.get(lid) or {}).values():
                if it.d["iter"].op in ("completed", "waitdone") or order.why(it.d["iter"], it.heap) and "futures" in order.why(it.d["iter"], it.heap):
                    why = it
        if why is None:
            continue
        ref = e.d["ref"]
        args = e.d["args"]
        if len(args) < 2:
            continue
        key, val = args[0], args[1]
        for k, b in e.facts.items():
            if not ordering(k) or not has(k, lambda y: y.op == "item" and base_of(y) is ref or y is ref):
                continue
            used = {y.n for y in sub_terms(k)}
            if any(v.n not in used and not is_const(v) and arrives(v) for v in parts(order.ip, val, e.heap)):
                c.bad(R_KEEP, e.fn, "entry", f"{what}: of results that compare equal, the one whose task finishes first is kept", at(e))
    for m, d in r.ip.mus.items():
        if not any(it.d["iter"].op == "completed" for it in (order.iters.get(d["loop"]) or {}).values()):
            continue
        for b in d["backs"]:
            v = b[0]
            if not isinstance(v, T) or v is m or has(v, lambda y: y is m) or not arrives(v):
                continue
            for k in b[2] or ():
                if not ordering(k) or not has(k, lambda y: y.op == "mu" and (r.ip.mus.get(y) or {}).get("loop") == d["loop"]):
                    continue
                used = {y.n for y in sub_terms(k)}
                if any(x.n not in used and not is_const(x) and arrives(x) for x in parts(r.ip, v, None)):
                    c.bad(R_KEEP, what, "variable", f"{what}: of results that compare equal, the one whose task finishes first is kept")
    c.ok(R_KEEP, what, "")


def ordering(k):
    return isinstance(k, T) and k.op in ("cmp", "bin") and str(k[0]) in ("<", ">", "<=", ">=")


def base_of(y):
    while y.op == "item":
        y = y[0]
    return y


def arrives(v):
    """Part of the result of a task."""
    return has(v, lambda y: y.op == "result")


def parts(ip, v, heap):
    """The values a stored value is made of."""
    c = ip.shape(v, heap) if v.op == "cell" else v
    if c.op in ("list", "tuple", "set"):
        return [z for a in c.args if isinstance(a, T) for z in parts(ip, a, heap)]
    return [c]
