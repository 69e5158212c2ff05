"""C28: results are attributed to what they were computed for (alignment of parallel results, provenance of measures, ownership of containers)."""
from sa.lab import *
from sa.hyp import UNKNOWN, Unknown, value
from sa.interp import Monitor
from sa.rel import Query, argument, cursor_of
from sa.sql import SqlError
from sa.web import expand
from checks.c27 import col_of, flat, happens

R_ALIGN = "parallel-lists-have-one-entry-per-value"
R_OWN = "measured-on-its-own-documents"
R_ASKED = "what-was-asked-for-is-what-is-analysed"
R_SUM = "partial-results-are-added-up"
R_SHARED = "each-entry-has-its-own-container"
R_LOST = "no-requested-feature-is-forgotten"

MEASURES = {"jaccard_index", "intersection_cardinality", "union_cardinality", "difference_cardinality", "symmetric_difference_cardinality"}


def run(c, lab):
    c.rule(R_ALIGN, "on every path through an iteration each of the parallel results gets exactly one entry, about the value of that iteration")
    c.rule(R_OWN, "a similarity or count stored or returned next to an id is computed with the documents of that id")
    c.rule(R_ASKED, "exactly the requested clusters (by default all) are analysed, each once, whatever the number of background tasks")
    c.rule(R_SUM, "what background tasks found about the same feature is added up, not replaced by the last answer")
    c.rule(R_SHARED, "a container filled in a loop and stored per iteration is made in that iteration")
    c.rule(R_LOST, "features of the same field are collected, not replaced")
    c.assumptions += ["each() of a loop stands for any of its elements", "set measures of pyroaring do what their names say"]
    cls = lab.index_cls
    for n, f in (("intersect_queries_with_field", intersect), ("structured_doc_sample", sampled), ("pivot_clusters_by_query", pivot),
                 ("count_collocations", collocations), ("extract_matching_feature_windows", windows)):
        c.require(cls.find(n) is not None, f"Index.{n} not found")
        c.guard(R_OWN, f"Index.{n}", lambda: f(c, lab, f"Index.{n}", lab.run_method(cls, n)))
    c.guard(R_SUM, "tallies", lambda: tallies(c, lab, "Index.count_collocations", lab.run_method(cls, "count_collocations")))
    for q in lab.workers():
        c.guard(R_OWN, q, lambda: measures(c, lab, q.split(".")[-1], lab.run_worker(q)))
    for n in lab.public(cls):
        c.guard(R_OWN, f"Index.{n}", lambda: measures(c, lab, f"Index.{n}", lab.run_method(cls, n)))
        c.guard(R_SHARED, f"Index.{n}", lambda: shared(c, lab, f"Index.{n}", n))


def docs_key(lab, x, r, heap):
    """(table, key) of a set of documents read by one key."""
    g = col_of(x)
    if g is None or cursor_of(g[0]) is None:
        return None
    s, ps = cursor_of(g[0])[:2]
    try:
        q = Query(lab.catalogue("index"), s)
    except SqlError:
        return None
    for tb, key in (("cluster", "cluster_id"), ("inverted_index", "feature_id")):
        if (tb, "doc_ids") in (q.column(g[2]) or ()):
            f, problems, unknown = q.rows_of(tb)
            y = argument(ps, f[key][0], r.ip, heap) if key in f and len(f) == 1 else None
            return tb, y
    return None


def own(lab, x, r, heap):
    """Keys of the sets of documents a value is computed with."""
    out = []
    for y in sub_terms(x):
        k = docs_key(lab, y, r, heap)
        if k is not None and k[1] is not None:
            out.append((k[0], expand(r.ip, k[1], heap, 6), y))
    return out


# ---------------------------------------------------------------- intersections with a field
class Tally(Monitor):
    """How often each result gets an entry in an iteration."""

    name = "tally"

    def __init__(self, label):
        self.label = label
        self.seen = {}

    def init(self):
        return ()

    def event(self, ev, st, ip):
        s = dict(st.mon[self.name])
        if ev.kind == "iter":
            s = {k: v for k, v in s.items() if k[0] != ev.d["loop"]}
        elif ev.kind == "enditer":
            lid = ev.d["loop"]
            got = tuple(sorted((k[1], v) for k, v in s.items() if k[0] == lid))
            self.seen.setdefault(lid, {}).setdefault(got, ev)
            s = {k: v for k, v in s.items() if k[0] != lid}
        elif ev.kind == "mutate" and ev.loops:
            lb = self.label(ev)
            if lb is not None:
                k = (ev.loops[-1], lb)
                s[k] = min(s.get(k, 0) + 1, 3)
        st.mon[self.name] = tuple(sorted(s.items(), key=str))


def root(x):
    while x.op in ("item", "attr"):
        x = x[0]
    return x


def intersect(c, lab, fn, r):
    outs = [(v, st) for k, v, st in r.outs if k == "return"]
    tup_ = [o for v, st in outs for o in flat(v)]
    if not tup_ or any(x.op != "tuple" or len(x.args) != 3 for x in tup_):
        return c.unsure(R_ALIGN, fn, "results", "the results are not three values")
    cells = [{x[i] for x in tup_} for i in range(3)]
    names = ("values", "totals", "intersections")
    adds = {i: [] for i in range(3)}
    for e in r.of("mutate"):
        for i in range(3):
            if e.d["op"] in ("add", "append") and root(e.d["ref"]) in cells[i] and (i == 2 or e.d["ref"] in cells[i]):
                adds[i].append(e)
    if not adds[0] or not adds[1] or not adds[2]:
        return c.unsure(R_ALIGN, fn, "results", "how the results are collected is not followed")

    def label(ev):
        if ev.d["op"] not in ("add", "append"):
            return None
        return next((i for i in range(3) if root(ev.d["ref"]) in cells[i]), None)
    m = Tally(label)
    lab.run_method(lab.index_cls, fn.split(".")[1], monitors=[m], key="c28t")
    rows = {e.loops[-1] for e in adds[0] + adds[1] if e.loops}
    inner = {e.loops[-1] for e in adds[2] if e.loops}
    c.count("loops", len(rows | inner))
    bad = False
    for lid in rows:
        for got, ev in m.seen.get(lid, {}).items():
            d = dict(got)
            if d.get(0, 0) != d.get(1, 0) and len(rows) == 1:
                bad = True
                c.bad(R_ALIGN, fn, "totals", f"an iteration can add {d.get(0, 0)} values and {d.get(1, 0)} totals", ev.where)
            elif d.get(0, 0) != 1:
                bad = True
                conds = [(expand(r.ip, k, ev.heap, 6), v) for k, v in ev.facts.items()]
                lost = d.get(0, 0) == 0 and happens(Rows(lab), [(k, v) for k, v in conds if any(y.op == "row" for y in sub_terms(k))])
                (c.bad if lost else c.unsure)(R_ALIGN, fn, "values", f"an iteration can add {d.get(0, 0)} entries for a value", ev.where)
    for lid in inner:
        if lid in rows:
            continue
        for got, ev in m.seen.get(lid, {}).items():
            n = dict(got).get(2, 0)
            if n != 1:
                bad = True
                c.bad(R_ALIGN, fn, "intersections", f"a query can get {n} entries for a value", ev.where)
    if not bad:
        c.ok(R_ALIGN, fn, "entries", "one entry in each result")
    # what the entries are
    val = {}
    for i, col in ((0, "value"), (1, "docs_count")):
        for e in adds[i]:
            x = expand(r.ip, e.d["args"][0], e.heap, 6)
            g = col_of(x)
            q = query(lab, g)
            if q is None or g is None:
                c.unsure(R_OWN, fn, names[i], "not read from a row", e.where)
                continue
            have = {b for a, b in q.column(g[2]) or ()}
            val[i] = g[1]
            c.decide(col in have if have else None, R_OWN, fn, names[i], f"{names[i]} are {'/'.join(sorted(have))}", e.where)
    if len(val) == 2:
        c.decide(val[0] is val[1], R_OWN, fn, "row", "a value and its total come from one row" if val[0] is val[1] else "a value and its total come from different rows")
    for e in adds[2]:
        x = expand(r.ip, e.d["args"][0], e.heap, 6)
        ref = e.d["ref"]
        name = ref[1] if ref.op == "item" else None
        dc = [y for y in sub_terms(x) if col_of(y) and (q := query(lab, col_of(y))) and ("inverted_index", "doc_ids") in (q.column(col_of(y)[2]) or ())]
        qs = [y for y in sub_terms(x) if y.op == "item" and root(y).op == "param" and root(y) is not None and y[1] is not None and y[0] is root(y)]
        if name is None or not dc or not qs:
            c.unsure(R_OWN, fn, "intersections", "how an entry is computed is not followed", e.where)
            continue
        c.decide(all(y[1] is name for y in qs), R_OWN, fn, "query", "an entry is about the query of its name", e.where)
        if 0 in val:
            same = all(col_of(y)[1] is val[0] for y in dc)
            c.decide(True if same else None, R_OWN, fn, "documents", "an entry is about the documents of the value", e.where)


class Rows:
    def __init__(self, lab):
        self.lab = lab

    def query(self, cur):
        q = query(self.lab, (cur,))
        return (q, None) if q is not None else None


def query(lab, g):
    s = cursor_of(g[0]) if g else None
    if s is None:
        return None
    try:
        return Query(lab.catalogue("index"), s[0])
    except SqlError:
        return None


# ---------------------------------------------------------------- measures next to ids
def records(r):
    """(terms that are kept together, heap, where)."""
    for e in r.events:
        if e.kind == "mutate" and e.d["op"] in ("add", "append", "setitem"):
            args = list(e.d["args"])
            if len(args) == 1 and args[0].op in ("tuple", "list"):
                yield list(args[0].args), e
            elif len(args) == 2 and not is_const(args[0]):
                yield args[:1] + (list(args[1].args) if args[1].op in ("tuple", "list") else args[1:]), e
        elif e.kind == "call" and str(e.d["name"]).startswith("heapq.heap"):
            for a in e.d["args"]:
                if isinstance(a, T) and a.op == "tuple":
                    yield list(a.args), e
        elif e.kind == "yield":
            for a in flat(e.d["value"]):
                if a.op == "tuple":
                    yield list(a.args), e


def measures(c, lab, fn, r):
    seen = set()

    class Out:
        where, heap = "", None
    outs = []
    for k, v, st in r.outs:
        if k == "return":
            for o in flat(v):
                if o.op == "tuple":
                    x = Out()
                    x.heap = st.heap
                    outs.append((list(o.args), x))
    for rec, e in list(records(r)) + outs:
        rec = [expand(r.ip, x, e.heap, 6) for x in rec]
        for i, x in enumerate(rec):
            if not (x.op == "mcall" and x[1] in MEASURES):
                continue
            ks = own(lab, x, r, e.heap)
            if len({k for _, k, _ in ks}) != 1:
                continue
            tb, key, _ = ks[0]
            rest = [y for j, y in enumerate(rec) if j != i]
            if (key, i) in seen:
                continue
            if any(y is key for y in rest):
                seen.add((key, i))
                c.ok(R_OWN, fn, f"{x[1]}", f"kept with the id {show(key, 2)} it was computed for", e.where)
                continue
            want = "feature_id" if tb == "inverted_index" else "cluster_id"
            other = [y for y in rest if col_of(y) and (q := query(lab, col_of(y))) and want in {b for a, b in q.column(col_of(y)[2]) or ()}]
            if other:
                c.bad(R_OWN, fn, x[1], f"{fn} keeps {x[1]} with the documents of {show(key, 2)} under {show(other[0], 2)}", e.where)


# ---------------------------------------------------------------- samples
def mentions(x, p):
    return any(y.op == "param" and y[-1] == p for y in sub_terms(x))


def deep(r, x, heap, depth=6, seen=None):
    """All terms a value is made of, through containers built in loops."""
    seen = set() if seen is None else seen
    for y in sub_terms(expand(r.ip, x, heap, 6)):
        if y in seen:
            continue
        seen.add(y)
        if depth > 0:
            if y.op == "cell":
                z = r.ip.shape(y, heap)
                if z is not y:
                    deep(r, z, heap, depth - 1, seen)
            if y.op == "mu":
                d = r.ip.mus.get(y)
                if d:
                    for z in [d["init"], d["init_content"]] + [w for b in d["backs"] for w in b[:2]]:
                        if isinstance(z, T):
                            deep(r, z, heap, depth - 1, seen)
    return seen


def sampled(c, lab, fn, r):
    params = [x for x in r.fn.posargs if x != "self"]
    outs = [o for k, v, st in r.outs if k == "return" for o in flat(v)]
    if not outs or any(x.op != "tuple" or len(x.args) != 2 for x in outs) or len(params) < 2:
        return c.unsure(R_ASKED, fn, "results", "the results are not two mappings")
    first, second = ({x[i] for x in outs} for i in range(2))
    asked = params[1]
    sets = [e for e in r.of("mutate") if e.d["op"] == "setitem" and e.d["ref"] in first]
    if not sets:
        c.unsure(R_ASKED, fn, "clusters", "how samples are stored is not followed")
    for e in sets:
        key = e.d["args"][0]
        ok = None
        given = any(k.op in ("truth", "cmp") and v is False and mentions(k, asked) and k.op == "truth" for k, v in e.facts.items())
        if any(mentions(y, asked) for y in deep(r, key, e.heap)):
            ok = True
        for k, v in e.facts.items():
            if k.op == "cmp" and k[0] in ("in", "not in") and k[1] is key:
                d = deep(r, k[2], e.heap)
                v = v if k[0] == "in" else not v
                if not v:
                    ok = False
                elif any(y.op == "param" and y[-1] == asked for y in d) or given:
                    ok = True
        if ok is None and not given and not any(mentions(k, asked) or any(mentions(y, asked) for y in deep(r, k, e.heap)) for k in e.facts):
            ok = False
        c.decide(ok, R_ASKED, fn, "clusters", "only requested clusters are sampled" if ok else "clusters are sampled that were not asked for", e.where)
        ks = own(lab, expand(r.ip, e.d["args"][1], e.heap, 10), r, e.heap)
        if ks:
            c.decide(True if any(k is key for _, k, _ in ks) else None, R_OWN, fn, "sample", "taken from the documents of its cluster", e.where)
    # the clusters of the sampled documents
    vals = []
    for k, v, st in r.outs:
        if k == "return":
            for o in flat(v):
                x = expand(r.ip, o[1], st.heap, 6)
                for y in flat(x):
                    if y.op == "dictcomp":
                        vals.append((y[1], y[2] if isinstance(y[2], T) else None, st.heap, ""))
    for e in r.of("mutate"):
        if e.d["op"] == "setitem" and e.d["ref"] in second:
            vals.append((e.d["args"][0], e.d["args"][1], e.heap, e.where))
    if not vals:
        c.unsure(R_ASKED, fn, "sampled documents", "how the clusters of the sample are collected is not followed")
    for key, v, heap, where in vals:
        if v is None:
            continue
        got = deep(r, v, heap, 8)
        ks = [k for y in got for k in [docs_key(lab, y, r, heap)] if k and k[1] is not None]
        keys = {expand(r.ip, k[1], heap, 6) for k in ks}
        direct = own(lab, expand(r.ip, v, heap, 10), r, heap)
        grown = [y for y in got if y.op == "mu" or y.op in ("rand",) or y in first]
        if direct:
            if not grown:
                c.bad(R_ASKED, fn, "sampled documents", "the documents listed for a cluster are not limited to the sampled ones", where)
            else:
                c.ok(R_ASKED, fn, "sampled documents", "limited to the sampled documents", where)
            if len(direct) == 1:
                same = direct[0][1] is key
                gk, gd = col_of(key), col_of(direct[0][1])
                c.decide(True if same else False if gk and gd and (gk[0], gk[2]) != (gd[0], gd[2]) else None, R_OWN, fn, "cluster of a sample",
                         "documents are listed under their own cluster", where)
        else:
            c.unsure(R_ASKED, fn, "sampled documents", "not followed", where)


# ---------------------------------------------------------------- pivots
def parts_of(r, x, heap):
    """item(X, slice(i, None, n)) with i over range(m): (X, n, m)."""
    if x.op == "item" and x[1].op == "slice":
        lo, hi, step = (list(x[1].args) + [None] * 3)[:3]
        if isinstance(lo, T) and lo.op == "elem" and isinstance(lo[0], T) and lo[0].op == "call" and lo[0][0] == "range":
            return x[0], lo[0][1], hi, step
    return None


def divided(r, x):
    """Evaluates the parts item(X, slice(...)) of a loop for lists and numbers of tasks of several sizes.

    (True, "") when they make up X every time, (False, example) when not, None when they cannot be evaluated."""
    if x.op != "item" or x[1].op != "slice":
        return None
    els = {y for y in sub_terms(x[1]) if y.op == "elem"}
    if len(els) != 1:
        return None
    el = els.pop()
    X = x[0]
    res = None
    for n in (0, 1, 7, 40, 200, 1001):
        for w in (1, 2, 8):
            def leaf(y, cur=UNKNOWN):
                if y is X:
                    return list(range(n))
                if y.op == "attr" and y[-1] == "_max_workers" or y.op == "call" and y[0] in ("os.cpu_count", "multiprocessing.cpu_count"):
                    return w
                return cur if y is el else UNKNOWN
            try:
                got = []
                for i in value(el[0], leaf):
                    got += value(x, lambda y: leaf(y, i))
            except (Unknown, TypeError):
                continue
            if sorted(got) != list(range(n)):
                lost = sorted(set(range(n)) - set(got))
                return False, f"of {n} clusters and {w} workers {len(lost)} are left out" if lost else f"of {n} clusters some are analysed {len(got) - n} times too often"
            res = True, ""
    return res


def x_lo(x):
    return x[1][0]


def pivot(c, lab, fn, r):
    params = [x for x in r.fn.posargs if x != "self"]
    subs = r.of("submit")
    if not subs:
        return c.unsure(R_ASKED, fn, "tasks", "no background task is started")
    qp = params[0] if params else None
    workers = {}
    for e in subs:
        f = e.d["f"]
        workers.setdefault(show(f, 2), []).append(e)
        for a in e.d["args"]:
            d = divided(r, a) if isinstance(a, T) else None
            if d is not None:
                c.decide(d[0], R_ASKED, fn, "parts", "the clusters are divided among the tasks without remainder" if d[0] else
                         f"the parts given to the tasks do not make up all clusters: {d[1]}", e.where)
                continue
            p = parts_of(r, a, e.heap)
            if p is None:
                continue
            X, rng, hi, step = p
            n = rng[-1] if len(rng) == 1 else None
            none = hi is None or is_const(hi, None)
            ok = None
            if n is not None and none and step is not None and len(rng) == 1:
                ok = True if step is n or show(step, 9) == show(n, 9) else False if not (step.op == "phi" or n.op == "phi") or not (set(flat(step)) & set(flat(n))) else None
                if is_const(step) and is_const(n):
                    ok = step[0] == n[0]
            elif n is not None and not none:
                if len(rng) == 1 and (step is None or is_const(step, None)) and hi.op == "bin" and hi[0] == "+" and x_lo(a) in hi.args and \
                        not any(y.op == "call" and y[0] == "len" for y in sub_terms(n)):
                    c.bad(R_ASKED, fn, "parts", "the parts given to the tasks do not make up all clusters", e.where)
                    continue
                ok = None if step is not None and show(hi, 9) == f"call(len, ({show(X, 9)}), ())" else False if step is not None and not is_const(step, None) and hi is n else None
            elif len(rng) == 2 and is_const(rng[0]) and rng[0][0] != 0:
                ok = False
            c.decide(ok, R_ASKED, fn, "parts", "the clusters are divided among the tasks without remainder" if ok else
                     "the parts given to the tasks do not make up all clusters", e.where)
        if qp is not None and not any(mentions(a, qp) for a in e.d["args"] if isinstance(a, T)):
            c.bad(R_ASKED, fn, "query", f"{show(f, 2)} is not given the query", e.where)
    if len(params) > 1:
        used = [e for e in subs if any(mentions(k, params[1]) for k in e.facts) or
                any(any(y.op == "param" and y[-1] == params[1] for y in deep(r, a, e.heap)) for a in e.d["args"] if isinstance(a, T))]
        if used:
            c.ok(R_ASKED, fn, "clusters", "the clusters asked for are analysed", used[0].where)
        else:
            c.bad(R_ASKED, fn, "clusters", "the clusters asked for play no part in what is analysed", subs[0].where)
    # what the last tasks return
    last = max(subs, key=lambda e: e.seq)
    w = [q for q in lab.workers() if q.split(".")[-1] == show(last.d["f"], 2).split(".")[-1]]
    if not w:
        return c.unsure(R_OWN, fn, "task", "the task whose results are returned is not found")
    rr = lab.run_worker(w[0])
    wn = w[0].split(".")[-1]
    for k, v, st in rr.outs:
        if k != "return":
            continue
        for o in flat(v):
            o = expand(rr.ip, o, st.heap, 4)
            if o.op != "tuple" or len(o.args) != 3:
                c.unsure(R_OWN, wn, "result", "a result is not three values")
                continue
            cid, sim = o[0], o[1]
            # the id is the one the task was given
            ids = [a for a in last.d["args"]]
            c.decide(True if cid.op == "param" else None, R_OWN, wn, "id", f"a result is about {show(cid, 2)}")
            ds = own(lab, sim, rr, st.heap)
            if not ds:
                got = deep(rr, sim, st.heap)
                if not any(docs_key(lab, y, rr, st.heap) for y in got):
                    c.bad(R_OWN, wn, "similarity", "the similarity of a cluster is computed without its documents")
                else:
                    c.unsure(R_OWN, wn, "similarity", "not followed")
                continue
            tb, key, _ = ds[0]
            if tb != "cluster":
                c.bad(R_OWN, wn, "similarity", f"the similarity of a cluster is computed with the documents of feature {show(key, 2)}")
            else:
                c.decide(True if key is cid else False if key.op == "param" and cid.op == "param" else None, R_OWN, wn, "similarity",
                         "computed with the documents of the cluster")
                if qp is not None and not any(y.op == "param" and y is not key for y in sub_terms(sim)):
                    c.bad(R_OWN, wn, "similarity", "the similarity of a cluster does not involve the query")


# ---------------------------------------------------------------- totals
def collocations(c, lab, fn, r):
    outs = [(o, st) for k, v, st in r.outs if k == "return" for o in flat(v)]
    if not outs or any(o.op != "tuple" or len(o.args) < 2 for o, st in outs):
        return c.unsure(R_SUM, fn, "results", "the results are not followed")
    cells = {x for o, st in outs for x in o.args if x.op == "cell"}
    from_task = lambda x: any(y.op == "result" for y in sub_terms(x))
    n = 0
    for e in r.of("mutate"):
        ref = e.d["ref"]
        if root(ref) not in cells or not e.loops:
            continue
        args = e.d["args"]
        if e.d["op"] == "setitem" and len(args) == 2:
            key, v = args
            if not from_task(v):
                continue
            n += 1
            mine = t("item", ref, key)
            if any(y is mine for y in sub_terms(v)) or e.d.get("aug"):
                c.ok(R_SUM, fn, show(key, 2), "added to what was found before", e.where)
            elif any(y is ref or y.op == "mcall" and y[1] in ("get", "setdefault", "pop") and root(y[0]) in cells for y in sub_terms(v)):
                c.unsure(R_SUM, fn, show(key, 2), "combined with earlier answers in a way that is not followed", e.where)
            else:
                guarded = any(k.op == "cmp" and k[0] == "in" and root(k[2]) in cells for k in e.facts)
                (c.unsure if guarded else c.bad)(R_SUM, fn, show(key, 2) if is_const(key) else "counts", "the counts of one task replace those of the others", e.where)
        elif e.d["op"] in ("add", "append", "extend", "update"):
            n += 1
            if e.d["op"] == "update" and from_task(args[0] if args else ref) and not any(
                    y.op == "call" and "Counter" in str(y[0]) for y in [root(ref)] + list(sub_terms(r.ip.shape(root(ref), None) if root(ref).op == "cell" else ref))):
                c.unsure(R_SUM, fn, "counts", "updated in a way that is not followed", e.where)
            else:
                c.ok(R_SUM, fn, "counts", "", e.where)
    if not n:
        c.unsure(R_SUM, fn, "counts", "how the counts are collected is not followed")
    for o, st in outs:
        for i, x in enumerate(o.args):
            for y in flat(x):
                if y.op == "cell" or is_const(y):
                    continue
                if y.op == "mu":
                    d = r.ip.mus.get(y)
                    new = [z for b in d["backs"] for z in flat(b[0]) if z is not y]
                    lost = [z for z in new if from_task(z) and not any(w is y for w in sub_terms(z))]
                    if lost:
                        c.bad(R_SUM, fn, f"total {i}", "the total of one task replaces that of the others")
                    else:
                        c.ok(R_SUM, fn, f"total {i}", "added up")
                elif y.op == "item" and from_task(y):
                    c.bad(R_SUM, fn, f"total {i}", "the total is that of one task only")
                else:
                    c.unsure(R_SUM, fn, f"total {i}", "not followed")


def tallies(c, lab, fn, r):
    """What a task of count_collocations counts: other features only, and totals of matches and of their windows in that order."""
    for q, uses in lab.workers().items():
        if not any(rr.name.split(".")[-1] == fn.split(".")[-1] for rr, e in uses):
            continue
        w = lab.run_worker(q)
        wn = q.split(".")[-1]
        wide = {x for e in w.of("mutate") if e.d["op"] == "add_range" for x in (e.d["ref"], e.d.get("old")) if isinstance(x, T)}
        for e in w.of("mutate"):
            a = e.d["args"][-1] if e.d["args"] else None
            if e.d["op"] not in ("add", "append") or not isinstance(a, T) or a.op != "tuple":
                continue
            for k, v in e.facts.items():
                if k.op == "cmp" and k[0] in ("in", "not in") and k[1] is a[0] and any(y.op == "param" for y in deep(w, k[2], e.heap)):
                    inside = v if k[0] == "in" else not v
                    c.decide(not inside, R_ASKED, wn, "features", "the other features are counted" if not inside else "only the given features are counted, none of the others", e.where)
        kinds = {}
        for k, v, st in w.outs:
            for o in flat(v) if k == "return" else ():
                if o.op == "tuple":
                    for i, x in enumerate(o.args):
                        for y in flat(x):
                            if y.op == "call" and y[0] == "len" and y[1] and isinstance(y[1][0], T):
                                z = y[1][0]
                                kinds.setdefault(i, set()).add("window" if z in wide else "match" if z.op in ("mu", "cell") else "?")
        for k, v, st in r.outs:
            for o in flat(v) if k == "return" else ():
                if o.op != "tuple" or len(o.args) != 3:
                    continue
                got = [set(), set()]
                for n in (1, 2):
                    for y in flat(o[n]):
                        d = r.ip.mus.get(y) if y.op == "mu" else None
                        for b in (d["backs"] if d else ()):
                            for z in sub_terms(b[0]):
                                if z.op == "item" and z[0].op == "result" and isinstance(z[1], T) and is_const(z[1]):
                                    got[n - 1] |= kinds.get(z[1][0], {"?"})
                if got[0] and got[1]:
                    swapped = got[0] == {"window"} and got[1] == {"match"}
                    c.decide(False if swapped else True if got == [{"match"}, {"window"}] else None, R_SUM, fn, "which total",
                             "positions of the given features first, those of the windows second" if not swapped else "the totals of matches and of windows are exchanged")


def windows(c, lab, fn, r):
    """Features are grouped by field without losing any."""
    params = [x for x in r.fn.posargs if x != "self"]
    n = 0
    for e in r.of("mutate"):
        if not e.loops or e.d["op"] not in ("setitem", "add"):
            continue
        args = e.d["args"]
        if e.d["op"] == "add":
            if len(params) > 1 and e.d["ref"].op == "item" and mentions(e.d["ref"][1], params[1]) and mentions(args[0], params[1]):
                n += 1
                c.ok(R_LOST, fn, "features", "collected", e.where)
            continue
        if len(args) != 2 or len(params) < 2 or e.d["ref"].op != "cell":
            continue
        key, v = args
        x = expand(r.ip, v, e.heap, 4)
        if v.op != "cell" or not mentions(x, params[1]) or not mentions(key, params[1]) or key.op == "elem":
            continue
        n += 1
        if not any(y.op == "item" and y[0] is e.d["ref"] or y is e.d["ref"] for y in sub_terms(x)) and \
                not any(k.op == "cmp" and k[0] == "in" and k[1] is key for k in e.facts):
            c.bad(R_LOST, fn, "features", "a feature replaces those of the same field before it", e.where)
    if not n:
        c.unsure(R_LOST, fn, "features", "how features are grouped is not followed")


# ---------------------------------------------------------------- shared containers
class Stores(Monitor):
    """Containers that existed before a loop, are changed in it and stored or handed out in each of its iterations."""

    name = "stores"

    def __init__(self):
        self.before = {}      # loop -> cells present at every start of an iteration
        self.stores = []
        self.changed = {}     # cell -> loops in which it is changed after it was stored or handed out

    def init(self):
        return ()

    def keep(self, cell, st):
        s = st.mon[self.name]
        if cell not in s:
            st.mon[self.name] = tuple(sorted(s + (cell,), key=lambda x: x.n))

    def event(self, ev, st, ip):
        if ev.kind == "iter":
            have = {x for x in st.heap if x.op == "cell"}
            lid = ev.d["loop"]
            self.before[lid] = have if lid not in self.before else self.before[lid] & have
        elif ev.kind == "mutate":
            c, old = root(ev.d["ref"]), ev.d.get("old")
            if c in st.mon[self.name] and c is ev.d["ref"] and isinstance(old, T) and old.op in ("list", "set", "kwdict", "tuple") and not any(old.args):
                st.mon[self.name] = tuple(x for x in st.mon[self.name] if x is not c)  # made anew
            elif c in st.mon[self.name]:
                for l in ev.loops:
                    self.changed.setdefault(root(ev.d["ref"]), set()).add(l)
            args = ev.d["args"]
            if ev.loops and args and ev.d["op"] in ("setitem", "add", "append"):
                v = args[-1]
                for o in [v] + (list(v.args) if isinstance(v, T) and v.op in ("tuple", "list") else []):
                    if isinstance(o, T) and o.op == "cell":
                        self.stores.append((o, ev, args[0] if ev.d["op"] == "setitem" else None))
                        self.keep(o, st)
        elif ev.kind == "yield" and ev.loops:
            v = ev.d["value"]
            for o in [v] + (list(v.args) if isinstance(v, T) and v.op == "tuple" else []):
                if isinstance(o, T) and o.op == "cell":
                    self.stores.append((o, ev, None))
                    self.keep(o, st)


def shared(c, lab, fn, name):
    m = Stores()
    r = lab.run_method(lab.index_cls, name, monitors=[m], key="c28s")
    done = set()
    for cell, ev, key in m.stores:
        lid = ev.loops[-1]
        if (cell, ev.where) in done or ev.d.get("ref") is cell:
            continue
        done.add((cell, ev.where))
        if is_const(key) if key is not None else False:
            continue
        if cell in m.before.get(lid, ()) and lid in m.changed.get(cell, ()):
            c.bad(R_SHARED, fn, "container", "one container, " + ("handed out" if ev.kind == "yield" else "stored") + " in one iteration, is changed in the next", ev.where)
        else:
            c.ok(R_SHARED, fn, "container", "made in the iteration", ev.where)
