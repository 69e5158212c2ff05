"""C17: refinement only redistributes the features of the clusters it was given."""
import re

from checks.c16 import changes, of_map, setting
from checks.refine import COPIES, Refined
from sa.lab import *
from sa.rel import cursor_of
from sa.terms import has

R_WRITE = "only-the-cluster-of-a-feature-is-written"
R_PAIR = "features-are-stored-under-their-own-cluster"
R_SEL = "only-features-of-selected-clusters-are-loaded"
R_OWN = "features-are-loaded-under-the-cluster-they-are-in"
R_MOVE = "a-moved-feature-leaves-its-old-cluster"
R_CUR = "the-current-cluster-of-a-moved-feature-is-updated"
R_NEW = "new-clusters-get-ids-nobody-uses"
R_GONE = "removed-clusters-are-empty"


def run(c, lab):
    c.rule(R_WRITE, "refinement writes feature_cluster only by updating the cluster of features that are there already")
    c.rule(R_PAIR, "what is written is the cluster id of an entry with a feature of the same entry")
    c.rule(R_SEL, "features are loaded for refinement only if their cluster is among the selected ones")
    c.rule(R_OWN, "a loaded feature is entered under the cluster of its own row")
    c.rule(R_MOVE, "whatever is put into another cluster is taken out of the one it was in, under the same conditions")
    c.rule(R_CUR, "the mapping the current cluster of a feature is looked up in is updated with every move")
    c.rule(R_NEW, "clusters made by refinement are stored under distinct ids above all the ids in the database, and none is dropped while renumbering")
    c.rule(R_GONE, "a cluster is removed only if it is pinned, empty, or put back under another id")
    c.assumptions += ["feature_cluster has one row per feature (primary key), so a feature is in exactly one cluster as long as rows are neither added nor removed",
                      "the choice of the move target is free: any cluster of the clustering is a valid one"]
    m = Refined(lab)
    what = "Index.refine_clusters"
    if not m.writes:
        c.unsure(R_WRITE, what, "writes", "how the refined clustering is written is not understood")
        return
    c.guard(R_WRITE, what, lambda: written(c, m))
    if not m.maps:
        c.unsure(R_PAIR, what, "clustering", "the clustering that is written is not understood")
        return
    m.all = changes(m)
    c.count("clusterings", len(m.maps))
    c.count("changes of the clustering", len(m.all))
    c.guard(R_SEL, what, lambda: loads(c, m))
    c.guard(R_MOVE, what, lambda: moves(c, m))
    c.guard(R_NEW, what, lambda: renumbering(c, m))
    c.guard(R_GONE, what, lambda: removed(c, m))


# ------------------------------------------------------------ the write back
def written(c, m):
    seen = set()
    kinds = {first(s) for _, s in m.writes}
    for e, s in m.writes:
        if (e.where, s) in seen:
            continue
        seen.add((e.where, s))
        kind = first(s)
        if kind != "update":
            if kind == "delete" and not kinds & {"insert", "replace"}:
                c.bad(R_WRITE, e.fn, "delete", "refinement removes features from the model", e.where)
            elif kind in ("insert",) and not kinds & {"delete"} and not re.match(r"\s*insert\s+or\s+replace|.*on\s+conflict", s, re.I | re.S):
                c.bad(R_WRITE, e.fn, "insert", "refinement adds features to the model", e.where)
            else:
                c.unsure(R_WRITE, e.fn, kind, "the clustering is not written by updates alone", e.where)
            continue
        v = m.values(e, s)
        if v is None:
            ok = None if re.search(r"\bwhere\b", s, re.I) else False
            c.decide(ok, R_WRITE, e.fn, "update", "every feature of the model is put into a cluster" if ok is False else "which features are updated is not understood", e.where)
            continue
        sets = re.search(r"\bset\b(.*?)\bwhere\b", s, re.I | re.S)
        c.decide(bool(sets and "," not in sets[1]) or None, R_WRITE, e.fn, "update", "only the cluster of single features is updated", e.where)
        got = [roles(m, a, b, getattr(e, "heap", {}) or {}) for p in v for a in (options(p[0]) if p[0] is not None else [None])
               for b in (options(p[1]) if p[1] is not None else [None])]
        ok = False if False in got else None if None in got or not got else True
        c.decide(ok, R_PAIR, e.fn, "roles", "each feature is stored under the id of the entry it is in" if ok else "features are not stored under the cluster they ended up in", e.where)


def parts(x):
    """(mapping, 'key' | 'value') for what an iteration over a mapping gives."""
    if x.op == "item" and is_const(x[1]) and x[0].op == "elem" and x[0][0].op == "mcall" and x[0][0][1] == "items":
        return x[0][0][0], "key" if x[1][0] == 0 else "value", x[0]
    if x.op == "elem":
        b = x[0]
        if b.op == "mcall" and b[1] == "keys":
            b = b[0]
        return b, "key", x
    if x.op == "item":
        return x[0], "entry", x[1]
    return None


def roles(m, cl, ft, heap):
    if cl is None or ft is None:
        return None
    if ft.op != "elem":
        # swapped?
        return False if cl.op == "elem" and holder(m, cl[0]) and holder(m, cl[0])[0] == ft else None
    h = holder(m, ft[0])
    if h is None:
        if cl.op == "elem" and holder(m, cl[0]) and holder(m, cl[0])[0] is ft:
            return False
        return None
    return True if h[0] is cl else None


def holder(m, x):
    """(key, mapping) of the entry x is."""
    for _ in range(4):
        if x.op == "call" and str(x[0]) in COPIES and x[1]:
            x = x[1][0]
        elif x.op == "cell":
            s = m.flow.ip.shape(x, m.heap)
            if s is x or s.op not in ("call", "item", "mcall"):
                return None
            x = s
        elif x.op == "mcall" and x[1] == "copy":
            x = x[0]
        else:
            break
    if x.op == "item" and is_const(x[1]) and x[0].op == "elem" and x[0][0].op == "mcall" and x[0][0][1] == "items" and x[1][0] == 1:
        return t("item", x[0], const(0)), x[0][0][0]
    if x.op == "item":
        return x[1], x[0]
    if x.op == "mcall" and x[1] == "get" and x[2]:
        return x[2][0], x[0]
    return None


# ------------------------------------------------------------ loading
def loads(c, m):
    f = m.flow
    sites = {}
    for e, kind, mp, key, x in m.all:
        if kind == "load":
            sites.setdefault((e.fn, e.where), []).append((e, key, x))
    what = "Index.refine_clusters"
    if not sites:
        c.unsure(R_SEL, what, "load", "how the clustering is loaded is not understood")
        return
    later = None
    for d, conds, key in m.maps:
        if isinstance(key, T):
            for g, v in conds:
                if g.op == "cmp" and g[0] in ("in", "not in") and g[1] is key and v is (g[0] == "in"):
                    later = later or selection(m, g[2], m.heap)
    for (fn, where), got in sites.items():
        sel, own = [], []
        for e, key, x in got:
            r = later
            for g, v in e.facts.items():
                if isinstance(g, T) and g.op == "cmp" and g[0] in ("in", "not in") and g[1] is key and v is (g[0] == "in"):
                    r = r or selection(m, g[2], e.heap)
            if r is None or r is False:
                cur = cursor_of(x[0][0]) if x[0].op == "row" else None
                text = cur[0] if cur else ""
                if r is False:
                    pass
                elif re.search(r"\bwhere\b[^;]*\b(cluster_id)\b", text, re.I):
                    r = "maybe"
                elif any(isinstance(g, T) and g.op == "cmp" and g[0] in ("in", "not in") and g[1] is key and v is not (g[0] == "in") and selection(m, g[2], e.heap) is True
                         for g, v in e.facts.items()):
                    r = False
                elif any(isinstance(g, T) and has(g, lambda y: y is key) for g in e.facts if isinstance(g, T) and g.op in ("cmp", "truth") and not is_const(g[-1], None)):
                    r = "maybe"
                else:
                    r = False
            sel.append(r)
            kn = f.names(key)
            if key.op in ("col", "item") and x.op in ("col", "item") and key[0] is x[0] and {n[1] for n in kn} == {"cluster_id"}:
                own.append(True)
            elif key.op in ("col", "item") and kn and "cluster_id" not in {n[1] for n in kn}:
                own.append(False)
            else:
                own.append(None)
        ok = False if False in sel else None if "maybe" in sel else True
        c.decide(ok, R_SEL, fn, "selection", "features of clusters that were not selected are not loaded" if ok else "features are loaded whether or not their cluster was selected", where)
        ok = False if False in own else None if None in own else True
        c.decide(ok, R_OWN, fn, "cluster", "features are entered under the cluster of their row" if ok else "features are not entered under their cluster", where)


def selection(m, s, heap, depth=0):
    """Is this the set of selected clusters? True / 'maybe' / False."""
    f = m.flow
    terms = [s]
    seen = set()
    hit = False
    while terms and len(seen) < 60:
        x = terms.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "param" or has(x, lambda y: y.op == "param" and "cluster" in str(y[1])):
            hit = True
            continue
        if x.op == "cell":
            y = f.ip.shape(x, heap)
            if y is not x:
                terms.append(y)
            b = f.ip.born.get(x)
            if b is not None and b is not y:
                terms.append(b)
        for y in sub_terms(x):
            if y is not x and y.op in ("cell", "phi", "param"):
                terms.append(y)
    if hit:
        return True
    k = f.key_from(t("elem", s, ("sel",)), heap)
    return "maybe" if True or k else "maybe"


# ------------------------------------------------------------ moves
def plain(facts):
    return {(g, v) for g, v in facts.items() if isinstance(g, T) and not (g.op == "cmp" and is_const(g[2], None) and v is False)}


def together(a, b):
    """Does b happen whenever a does (in the same turn of the same loops)? True / None / False; 'apart' if on other paths."""
    if a.fn == b.fn and a.loops != b.loops:
        return None
    fa, fb = plain(a.facts), plain(b.facts)
    if any(g in b.facts and b.facts[g] is not v for g, v in a.facts.items()):
        return "apart"
    if fb <= fa:
        return True
    return False if fa < fb else None


def same(m, a, b, heap):
    if a is b:
        return True
    f = m.flow
    x, y = (f.ip.shape(z, heap) if z.op == "cell" else z for z in (a, b))
    return x is y


def moves(c, m):
    f = m.flow
    puts, takes = [], []
    for e, kind, mp, key, x in m.all:
        if kind in ("add", "merge", "set"):
            if kind == "set" and not f.ctag(x, e.heap, "feature") and f.ip.shape(x, e.heap).op in ("set", "call", "list"):
                continue
            puts.append((e, kind, mp, key, x))
    for e in m.r.of("mutate"):
        if not isinstance(e.d["ref"], T):
            continue
        w = of_map(m, e.d["ref"])
        if w is None:
            continue
        if w[0] == "entry" and e.d["op"] in ("remove", "minus", "xor"):
            takes.append((e, e.d["op"], w[1], w[2], e.d["args"][0] if e.d["args"] else None))
        elif w[0] == "entry" and e.d["op"] in ("pop",):
            takes.append((e, "pop", w[1], w[2], None))
        elif w[0] == "map" and e.d["op"] == "setitem":
            # the old entry replaced by what is left of it
            s = f.ip.shape(e.d["args"][1], e.heap)
            if s.op == "bin" and s[0] == "-":
                takes.append((e, "minus", w[1], e.d["args"][0], s[2]))
            elif s.op == "mcall" and s[1] == "difference" and s[2]:
                takes.append((e, "minus", w[1], e.d["args"][0], s[2][0]))
        elif w[0] == "map" and e.d["op"] in ("delitem", "pop"):
            takes.append((e, "drop", w[1], e.d["args"][0] if e.d["args"] else None, None))
    if not puts:
        c.unsure(R_MOVE, "Index.refine_clusters", "moves", "no moves were found")
        return
    sites = {}
    for p in puts:
        sites.setdefault((p[0].fn, p[0].where, p[1]), []).append(p)
    for (fn, where, kind), ps in sites.items():
        got = [left(m, p, takes) for p in ps]
        ok = False if all(g is False for g in got) else None if None in got or False in got else True
        c.decide(ok, R_MOVE, fn, kind, "moved features are removed from the cluster they were in" if ok else "features put into a cluster stay in the one they were in as well", where)
        got = [noted(m, p, takes) for p in ps]
        got = [g for g in got if g != "none"]
        ok = False if got and all(g is False for g in got) else None if None in got or False in got else True
        c.decide(ok, R_CUR, fn, kind, "the current cluster of moved features is updated" if ok else
                 "the cluster a moved feature is looked up in is not updated: its next move takes it out of the wrong cluster", where)
    for e, op, mp, key, x in takes:
        if op != "remove" or x is None:
            continue
        got = [together(e, p[0]) for p in puts if p[1] == "add" and p[4] is x]
        got = [g for g in got if g != "apart"]
        got += [None for p in puts if p[1] in ("set", "merge") and collects(m, p[4], x, p[0].heap)]
        ok = True if True in got else None if None in got else False
        c.decide(ok, R_MOVE, e.fn, "removal", "removed features are put into another cluster" if ok else "a feature is removed from its cluster without being put into another", e.where)


def left(m, p, takes):
    e, kind, mp, key, x = p
    best = False
    for q, op, mp2, key2, y in takes:
        if kind == "add" and op == "remove" and y is x:
            if key2 is key:
                continue  # out of the cluster it was just put into
            r = together(e, q)
            if r == "apart":
                continue
            best = True if r is True else best if r is False or best is True else None
        elif op in ("minus", "xor") and y is not None:
            if kind in ("set", "merge") and (same(m, x, y, e.heap) or made_of(m, x, y, e.heap)):
                return True
            if kind == "add" and x.op == "elem" and x[0] is y:
                return True
            if kind == "set":
                best = best or None
        elif op == "drop" and kind in ("merge", "set") and q.fn == e.fn and (q.loops[:len(e.loops)] == e.loops or e.loops[:len(q.loops)] == q.loops):
            best = best or None
        elif op == "remove" and kind in ("set", "merge") and y is not None:
            if y.op == "elem" and (same(m, y[0], x, e.heap) or made_of(m, x, y[0], e.heap)) or collects(m, x, y, e.heap):
                best = True
        elif op == "pop":
            best = best or (True if x.op in ("popped",) or kind == "add" and has(x, lambda z: z.op == "popped") else None)
    return best


def collects(m, x, y, heap):
    """Is y put into the collection x?"""
    s = m.flow.ip.shape(x, heap)
    return s.op == "comp" and s[1] is y or any(e.d["args"] and e.d["args"][-1] is y for e in m.flow.adds.get(x, ()))


def made_of(m, x, y, heap):
    s = m.flow.ip.shape(x, heap)
    if s.op == "call" and str(s[0]) in COPIES and s[1]:
        return s[1][0] is y or same(m, s[1][0], y, heap)
    s = m.flow.ip.shape(y, heap)
    if s.op == "call" and str(s[0]) in COPIES and s[1]:
        return s[1][0] is x or same(m, s[1][0], x, heap)
    return False


def noted(m, p, takes):
    """Is the feature -> cluster mapping that removals are looked up in updated? 'none' if there is no such mapping."""
    f = m.flow
    e, kind, mp, key, x = p
    maps = []
    for q, op, mp2, key2, y in takes:
        if op == "remove" and isinstance(key2, T):
            for o in options(key2):
                if o.op == "item" and o[0].op in ("cell", "phi", "mu"):
                    maps += [d for d in options(o[0]) if d not in maps]
    if not maps:
        return "none"
    if any(d.op != "cell" for d in maps) or len(maps) > 1:
        return None
    d = maps[0]
    sets = [q for q in m.r.of("mutate") if q.d["ref"] is d]
    if any(q.d["op"] not in ("setitem",) for q in sets):
        return None
    best = False
    for q in sets:
        k, v = q.d["args"]
        if kind == "add":
            if k is not x:
                continue
            if v is not key and not set(options(key)) & set(options(v)):
                continue
            r = together(e, q)
            if r == "apart":
                continue
            best = True if r is True else best if r is False or best is True else None
        elif kind in ("set", "merge"):
            s = f.ip.shape(x, e.heap)
            if s.op == "comp" and k.op == "elem" and s[1].op == "elem" and s[1][0] is k[0] and (v is key or key in options(v)):
                over = [i.d["iter"] for i in m.r.of("iter") if q.loops and i.d["loop"] == q.loops[-1]]
                if any(same(m, o, x, q.heap) or made_of(m, o, x, q.heap) for o in over):
                    return True
                best = best or False
                continue
            if k.op == "elem" and (v is key or key in options(v)):
                b = k[0]
                if same(m, b, x, q.heap) or made_of(m, b, x, q.heap) or is_entry(m, b, mp, key):
                    return True
                best = None
            elif v is key:
                best = best or None
    return best


def is_entry(m, b, mp, key):
    w = of_map(m, b)
    if w is not None and w[0] == "entry" and w[2] is key:
        return True
    return bool(b.op == "elem" and has(b, lambda y: y.op == "call" and y[0] in ("max", "min")))


# ------------------------------------------------------------ ids
def fresh(m, x, heap, loops, depth=0):
    """Is this id above every id in the database? 'once' the next id itself, 'many' a counter from it; False: made up otherwise; None."""
    f = m.flow
    if depth > 12 or not isinstance(x, T):
        return None
    if x.op == "phi":
        got = {fresh(m, o, heap, loops, depth + 1) for o in x.args}
        return False if False in got else None if None in got else got.pop() if len(got) == 1 else None
    if x.op in ("col", "item") and x[0].op == "row" or x.op == "item" and x[0].op in ("row",):
        return top_id(m, x)
    if x.op == "mu":
        d = f.ip.mus.get(x)
        if d is None:
            return None
        start = fresh(m, d["init"], heap, loops, depth + 1)
        if not start:
            return start
        steps = []
        for b in d["backs"]:
            y = b[0]
            if y.op == "bin" and y[0] == "+" and y[1] is x and is_const(y[2]) and isinstance(y[2][0], int):
                steps.append(y[2][0] >= 1)
            elif y is x:
                steps.append(False)
            elif start == "once" and fresh(m, y, heap, loops, depth + 1) == "once" and y.op in ("col", "item") and not stores_inside(m, d["loop"]):
                steps.append(False)     # asked for again, but nothing was stored in between
            else:
                steps.append(None)
        return "same" if steps and all(s is False for s in steps) else start if start == "top" and steps and None not in steps else "many" if steps and all(s is True for s in steps) else None
    if x.op == "bin" and x[0] == "+":
        a, b = x[1], x[2]
        for a, b in ((a, b), (b, a)):
            g = fresh(m, a, heap, loops, depth + 1)
            if g in ("once", "many") and (b.op == "idx" or index_of(b)):
                return "many"
            if g in ("once", "many", "same") and is_const(b) and isinstance(b[0], int) and b[0] >= 0:
                return g
            if g == "top" and is_const(b) and isinstance(b[0], int) and b[0] >= 1:
                return "many" if a.op == "mu" else "once"
        if all(local(m, y) or is_const(y) for y in (x[1], x[2])):
            return False
        return None
    if x.op == "item" and is_const(x[1]) and x[0].op == "elem" and x[0][0].op == "call":
        z, i = x[0][0], x[1][0]
        if z[0] == "enumerate" and i == 0:
            start = dict(z[2]).get("start") if z[2] else None
            start = start if start is not None else z[1][1] if len(z[1]) > 1 else None
            g = fresh(m, start, heap, loops, depth + 1) if start is not None else False
            return "many" if g in ("once", "many") else g
        if z[0] == "zip" and i < len(z[1]):
            return series(m, z[1][i], heap, loops, depth + 1)
        return None
    if x.op == "elem":
        return series(m, x[0], heap, loops, depth + 1)
    if x.op == "call" and x[0] == "next" and x[1]:
        return series(m, x[1][0], heap, loops, depth + 1)
    if x.op == "idx" or is_const(x) or local(m, x):
        return False
    return None


def index_of(b):
    return b.op == "item" and is_const(b[1], 0) and b[0].op == "elem" and b[0][0].op == "call" and b[0][0][0] == "enumerate"


def local(m, x):
    """max / len of the clustering being refined."""
    return x.op == "call" and x[0] in ("max", "len") and x[1] and has(x, lambda y: any(y is l[0] for l in m.maps) or y.op == "cell")


def series(m, c, heap, loops, depth):
    f = m.flow
    for _ in range(4):
        if c.op == "cell":
            s = f.ip.shape(c, heap)
            if s is c:
                return None
            c = s
        elif c.op == "call" and str(c[0]) in ("list", "iter", "tuple", "sorted", "set"):
            if not c[1]:
                return None
            c = c[1][0]
    if c.op == "call" and c[0] in ("range", "itertools.count") and c[1]:
        start = c[1][0] if c[0] != "range" or len(c[1]) > 1 else const(0)
        g = fresh(m, start, heap, loops, depth)
        return "many" if g in ("once", "many") else g
    return None


def top_id(m, x):
    """'once' for max(cluster_id) + 1 over all clusters, 'top' for the maximum itself."""
    cur = cursor_of(x[0][0])
    if cur is None:
        return None
    s = re.sub(r"\s+", " ", cur[0].strip().lower())
    g = re.match(r"select (.*?) from (\w+)\s*(.*?);?$", s)
    if not g:
        return None
    expr, tab, rest = g[1], g[2], g[3]
    if tab not in ("cluster", "feature_cluster"):
        return None
    if rest:
        return False if rest.startswith("where") and re.search(r"pinned", rest) else None
    if re.search(r"\b(min|count)\s*\(", expr):
        return False
    if not re.search(r"max\s*\(\s*(\w+\.)?cluster_id\s*\)", expr):
        return None
    if re.search(r"\+\s*[1-9]\d*\s*\)?\s*(as \w+)?$", expr):
        return "once"
    return "top" if "+" not in expr else None


def renumbering(c, m):
    f = m.flow
    what = "Index.refine_clusters"
    made, named, gone = [], [], []
    for i, e in enumerate(m.r.events):
        if e.kind != "mutate" or not isinstance(e.d["ref"], T):
            continue
        w = of_map(m, e.d["ref"])
        if w is None or w[0] != "map":
            continue
        op, args = e.d["op"], e.d["args"]
        if op == "setitem":
            k = f.key_from(args[0], e.heap)
            g = fresh(m, args[0], e.heap, e.loops)
            if g in ("once", "many", "same", "top"):
                named.append((i, e, args[0], g, w[1], args[1]))
            elif g is False:
                made.append((i, e, args[0], w[1]))
            elif k & {"db", "key"} and not k - {"db", "key", "value"} or setting(m, e, args[0], args[1]) == "keep":
                pass
            else:
                named.append((i, e, args[0], None, w[1], args[1]))
        elif op == "extend" and args:
            for a, g in numbered(m, args[0], e):
                named.append((i, e, a, g, w[1], None))
        elif op in ("delitem", "pop") and args:
            k = f.key_from(args[0], e.heap)
            if not k - {"new"} and k:
                gone.append((i, e, args[0], w[1]))
    if not made and not named:
        c.unsure(R_NEW, what, "new clusters", "how new clusters are made is not understood")
        return
    # ids made up from the clustering alone have to be replaced
    for i, e, key, mp in unique(made):
        ok = any(n[3] for n in named) or None if named else False
        if ok and not gone and not rebuilt(m, named):
            ok = None
        c.decide(ok, R_NEW, e.fn, "made", "new clusters are renumbered before they are stored" if ok else "the id of a new cluster comes from the clusters being refined only: "
                 "another cluster may have it", e.where)
    seen = set()
    for i, e, key, g, mp, v in named:
        if (e.where, g) in seen:
            continue
        seen.add((e.where, g))
        if g == "once":
            ok = False if in_turn(m, e, key) else None
            c.decide(ok, R_NEW, e.fn, "distinct", "several new clusters are stored under the same id", e.where)
        elif g == "same":
            c.bad(R_NEW, e.fn, "distinct", "several new clusters are stored under the same id", e.where)
        elif g == "top":
            c.bad(R_NEW, e.fn, "distinct", "a new cluster is stored under the highest id there is, not above it", e.where)
        else:
            c.decide(True if g else None, R_NEW, e.fn, "distinct", "new clusters are numbered from the next unused id", e.where)
        # nothing stored under a fresh id is removed again by a removal of the made-up ids
        late = [d for d in gone if d[3] is mp and (d[1].loops == e.loops and d[1].fn == e.fn or d[0] > i and d[1].fn == e.fn and same_path(d[1], e))]
        pops = [d for d in late if d[1].loops != e.loops or True]
        if g and made:
            later = [d for d in pops if d[1].loops == e.loops or min(x[0] for x in gone if x[1].where == d[1].where) > min(n[0] for n in named if n[1].where == e.where)]
            c.decide(not later, R_NEW, e.fn, "kept", "the made-up ids are removed before any fresh id is stored" if not later else
                     f"removing the made-up ids ({later[0][1].where}) can remove a cluster already stored under its new id", e.where)


def numbered(m, x, e, depth=0):
    """The keys of what is merged into the clustering: [(key, how fresh)]."""
    f = m.flow
    s = f.ip.shape(x, e.heap) if x.op == "cell" else x
    if s.op == "call" and s[0] in ("dict", "list", "iter") and s[1] and depth < 4:
        return numbered(m, s[1][0], e, depth + 1)
    if s.op == "mcall" and s[1] == "items" and depth < 4:
        return numbered(m, s[0], e, depth + 1)
    if s.op == "call" and s[0] == "enumerate":
        return [(s, fresh(m, t("item", t("elem", s, ("n",)), const(0)), e.heap, e.loops))]
    if s.op == "call" and s[0] == "zip" and s[1]:
        return [(s, series(m, s[1][0], e.heap, e.loops, 0))]
    if s.op == "dictcomp":
        return [(s[1], fresh(m, s[1], e.heap, e.loops))]
    if s.op == "comp" and s[1].op == "tuple" and s[1].args:
        return [(s[1][0], fresh(m, s[1][0], e.heap, e.loops))]
    sets = [q for q in f.adds.get(x, ()) if q.d["op"] == "setitem"]
    if sets:
        return [(q.d["args"][0], fresh(m, q.d["args"][0], q.heap, q.loops)) for q in sets]
    return [(x, None)]


def stores_inside(m, loop):
    """Is anything stored in the database while this loop runs?"""
    return any(loop in e.loops and not (is_const(e.d["sql"]) and first(text_of(e.d["sql"])) in ("select", "savepoint", "release", "rollback", "begin", "commit", "pragma"))
               for e in m.r.of("sql"))


def in_turn(m, e, key):
    """Is the key the same in every turn of the loop it is used in?"""
    return bool(e.loops) and key.op in ("col", "item") and key[0].op == "row" and not stores_inside(m, e.loops[-1])


def same_path(a, b):
    return True


def rebuilt(m, named):
    return any(m.flow.ip.born.get(n[4]) is not None for n in named)


def unique(xs):
    out, seen = [], set()
    for x in xs:
        if x[1].where not in seen:
            seen.add(x[1].where)
            out.append(x)
    return out


# ------------------------------------------------------------ removal of clusters
def removed(c, m):
    f = m.flow
    sites = {}
    for e in m.r.of("mutate"):
        if not isinstance(e.d["ref"], T) or e.d["op"] not in ("delitem", "pop", "clear"):
            continue
        w = of_map(m, e.d["ref"])
        if w is None or w[0] != "map":
            continue
        if e.d["op"] == "clear":
            sites.setdefault((e.fn, e.where), []).append(None)
            continue
        k = e.d["args"][0]
        if f.tag(k, [], e.heap, "cluster") == {"pinned"}:
            r = True
        elif not f.key_from(k, e.heap) - {"new"}:
            r = stored_again(m, k)
        else:
            r = emptied(m, w[1], k, e)
        sites.setdefault((e.fn, e.where), []).append(r)
    for (fn, where), got in sites.items():
        ok = False if all(g is False for g in got) else None if None in got or False in got else True
        c.decide(ok, R_GONE, fn, "removed", "the features of a removed cluster are accounted for" if ok else "a cluster is removed from the clustering with whatever features it has", where)


def stored_again(m, k):
    for e in m.r.of("mutate"):
        if not isinstance(e.d["ref"], T) or e.d["op"] not in ("setitem", "extend"):
            continue
        w = of_map(m, e.d["ref"])
        if w is not None and w[0] == "map":
            for g in e.d["args"][-1:]:
                for o in options(g):
                    if o.op in ("item", "mcall") or o.op == "cell":
                        return True
    return None


def emptied(m, mp, k, e):
    for g, v in e.facts.items():
        if not isinstance(g, T):
            continue
        x = None
        if g.op == "truth" and v is False:
            x = g[0]
        elif g.op == "cmp" and v is True and g[0] == "==" and is_const(g[2], 0):
            x = g[1]
        elif g.op == "cmp" and v is False and g[0] in ("!=", ">") and is_const(g[2], 0):
            x = g[1]
        if x is None:
            continue
        if x.op == "call" and x[0] == "len":
            x = x[1][0]
        if x.op == "popped" and x[0] is mp and x[1] and x[1][0] is k:
            return True
        w = of_map(m, x)
        if w is not None and w[0] == "entry" and w[2] is k:
            return True
    # popped and then checked
    if e.d["op"] == "pop":
        for y in m.r.of("raise"):
            if y.fn == e.fn and any(isinstance(g, T) and v is True and has(g, lambda z: z.op == "popped" and z[1] and z[1][0] is k) for g, v in y.facts.items()):
                return True
        if any(isinstance(x, T) and has(x, lambda z: z.op == "popped" and z[1] and z[1][0] is k) for y in m.r.events for x in list(y.facts) + list(y.d.values())):
            return None
    return False
