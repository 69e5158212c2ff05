"""C16: refinement never moves pinned features and never touches pinned clusters."""
from checks.refine import Refined, settle
from sa.lab import *
from sa.web import expand
from sa.terms import has

R_MOVE = "moved-features-are-not-pinned"
R_CLUSTER = "pinned-clusters-take-no-part"
R_EMPTY = "clusters-with-pinned-features-are-not-dissolved"
R_DONE = "refinement-completes-when-everything-is-pinned"


def run(c, lab):
    c.rule(R_MOVE, "every feature put into a cluster during refinement comes from a collection that excludes all pinned features")
    c.rule(R_CLUSTER, "the clustering that is refined and written back has no entry for a pinned cluster")
    c.rule(R_EMPTY, "a cluster that has to be emptied is none of those that hold pinned features")
    c.rule(R_DONE, "nothing is divided by, or picked from, a collection that is empty when everything is pinned")
    c.assumptions += ["a feature that is not written back keeps its row, and so its cluster"]
    m = Refined(lab)
    if not m.writes or not m.maps:
        c.unsure(R_MOVE, "Index.refine_clusters", "clustering", "how the refined clustering is written is not understood")
        return
    c.count("clusterings", len(m.maps))
    c.guard(R_MOVE, "Index.refine_clusters", lambda: moves(c, m))
    c.guard(R_CLUSTER, "Index.refine_clusters", lambda: clusters(c, m))
    c.guard(R_EMPTY, "Index.refine_clusters", lambda: emptied(c, m))
    c.guard(R_DONE, "Index.refine_clusters", lambda: done(c, m))


def of_map(m, ref):
    """('entry', map, key) for the features of one cluster, ('map', map, None) for the clustering itself."""
    cells = [l[0] for l in m.maps]
    if ref in cells:
        return "map", ref, None
    if ref.op == "item" and ref[0] in cells:
        return "entry", ref[0], ref[1]
    if ref.op == "mcall" and ref[1] in ("get", "setdefault") and ref[2] and ref[0] in cells:
        return "entry", ref[0], ref[2][0]
    if ref.op == "phi":
        for o in ref.args:
            x = of_map(m, o)
            if x is not None:
                return x
    return None


def from_db(m, x):
    return bool(x.op in ("col", "item") and m.flow.names(x))


def source(m, x, heap, depth=0):
    """The keys of the clusters that x is the whole content of ('any' where not known); None if it is no entry of the clustering."""
    f = m.flow
    if depth > 10 or not isinstance(x, T):
        return None
    go = lambda y: source(m, y, heap, depth + 1)  # noqa: E731
    if x.op == "phi":
        got = [go(o) for o in x.args]
        return None if None in got else set().union(*got)
    w = of_map(m, x)
    if w is not None and w[0] == "entry":
        return {w[2]}
    if x.op == "mcall" and x[1] == "pop" and x[2]:
        return {x[2][0]} if of_map(m, x[0]) and of_map(m, x[0])[0] == "map" else None
    if x.op == "popped":
        if of_map(m, x[0]) and of_map(m, x[0])[0] == "map":
            return {x[1][0]} if isinstance(x[1], tuple) and x[1] else {"any"}
        return members_of(m, x[0], heap, depth + 1)
    if x.op == "elem":
        return members_of(m, x[0], heap, depth + 1)
    if x.op == "item" and is_const(x[1]) and isinstance(x[1][0], int):
        i, b = x[1][0], x[0]
        if b.op == "elem" and b[0].op == "mcall" and b[0][1] == "items" and i == 1:
            if of_map(m, b[0][0]) and of_map(m, b[0][0])[0] == "map":
                return {t("item", b, const(0))}
            return held(m, b[0][0], heap, depth + 1)
        if b.op == "elem" and b[0].op == "call" and b[0][0] in ("zip", "enumerate"):
            if b[0][0] == "enumerate":
                return members_of(m, b[0][1][0], heap, depth + 1) if i == 1 else None
            return members_of(m, b[0][1][i], heap, depth + 1) if i < len(b[0][1]) else None
        if b.op == "call" and b[0] in ("max", "min") and b[1]:
            c = f.ip.shape(b[1][0], heap) if b[1][0].op == "cell" else b[1][0]
            if c.op == "comp" and c[1].op == "tuple" and i < len(c[1].args):
                ks = go(c[1][i])
                if ks is None:
                    return None
                return {next((t("item", b, const(j)) for j, y in enumerate(c[1].args) if y is k), "any") for k in ks}
            return None
    if x.op == "item":
        return held(m, x[0], heap, depth + 1)
    if x.op == "mcall" and x[1] == "copy":
        return go(x[0])
    if x.op == "cell":
        s = f.ip.shape(x, heap)
        if s is not x and (s.op in ("mcall", "item", "popped") or s.op == "call" and str(s[0]) in ("set", "copy.copy") and s[1]):
            return go(s if s.op != "call" else s[1][0])
    if x.op == "call" and str(x[0]) in ("set", "copy.copy", "frozenset") and x[1]:
        return go(x[1][0])
    return None


def members_of(m, c, heap, depth):
    """Sources of the members of a collection."""
    f = m.flow
    for _ in range(4):
        if c.op == "cell":
            s = f.ip.shape(c, heap)
            if s is c:
                break
            c = s
        elif c.op == "call" and str(c[0]) in ("list", "tuple", "iter", "reversed") and c[1]:
            c = c[1][0]
        else:
            break
    if c.op == "comp":
        return source(m, c[1], heap, depth)
    if c.op in ("list", "tuple") and c.args:
        got = [source(m, o, heap, depth) for o in c.args]
        return None if None in got else set().union(*got)
    if c.op == "mcall" and c[1] == "values":
        return {"any"} if of_map(m, c[0]) and of_map(m, c[0])[0] == "map" else held(m, c[0], heap, depth)
    adds = [e for e in f.adds.get(c, ()) if e.d["op"] in ("add", "insert")]
    if adds:
        got = [source(m, e.d["args"][-1], e.heap, depth) for e in adds]
        return None if None in got else set().union(*got)
    if c.op == "upd" and c[0] in ("add", "insert"):
        return source(m, c[2][-1], heap, depth)
    if c.op == "mu":
        d = f.ip.mus.get(c)
        got = [members_of(m, b[1] if isinstance(b[1], T) else b[0], heap, depth + 1) for b in d["backs"]] if d and depth < 10 else [None]
        return None if None in got or not got else set().union(*got)
    return None


def held(m, d, heap, depth):
    """Sources of the values of a mapping other than the clustering."""
    f = m.flow
    if depth > 10:
        return None
    if d.op == "phi":
        got = [held(m, o, heap, depth + 1) for o in d.args]
        return None if None in got else set().union(*got)
    if d.op == "dictcomp":
        return source(m, d[2], heap, depth)
    if d.op == "cell":
        if of_map(m, d):
            return None
        b = f.ip.born.get(d)
        s = b if b is not None else f.ip.shape(d, heap)
        got = [source(m, s[2], heap, depth)] if s.op == "dictcomp" else []
        got += [source(m, e.d["args"][1], e.heap, depth) for e in f.adds.get(d, ()) if e.d["op"] == "setitem"]
        return None if None in got or not got else set().union(*got)
    return None


def setting(m, e, key, v):
    """What storing v as the entry of key is: 'keep', 'rename', or 'set' with features of elsewhere."""
    s = m.flow.ip.shape(v, e.heap) if v.op == "cell" else v
    base = s[1] if s.op == "bin" and s[0] == "-" else s[0] if s.op == "mcall" and s[1] == "difference" else v
    src = source(m, base, e.heap)
    if src is None:
        return "set"
    if all(k is key for k in src):
        return "keep"
    if base is v and all(k != "any" and not m.flow.key_from(k, e.heap) - {"new"} for k in src):
        return "rename"
    return "set"


def changes(m):
    """(event, kind of change, map, key, features) for everything put into a cluster; features loaded from the database apart."""
    out = []
    for e in m.r.of("mutate"):
        if not isinstance(e.d["ref"], T):
            continue
        w = of_map(m, e.d["ref"])
        if w is None:
            continue
        kind, mp, key = w
        op, args = e.d["op"], e.d["args"]
        if kind == "entry" and op in ("add", "insert"):
            out.append((e, "load" if from_db(m, args[-1]) else "add", mp, key, args[-1]))
        elif kind == "entry" and op in ("extend", "xor"):
            out.append((e, "merge", mp, key, args[0]))
        elif kind == "map" and op == "setitem":
            out.append((e, setting(m, e, args[0], args[1]), mp, args[0], args[1]))
    return out


def moves(c, m):
    f = m.flow
    sites = {}
    for e, kind, mp, key, x in changes(m):
        if kind in ("load", "rename", "keep"):
            continue
        tags = f.tag(x, f.facts(e), e.heap, "feature") if kind == "add" else f.ctag(x, e.heap, "feature")
        if kind == "set" and not tags:
            continue  # an empty cluster
        sites.setdefault((e.fn, e.where, kind), [set(), x])[0].update(tags)
    for (fn, where, kind), (tags, x) in sites.items():
        tags = settle(tags)
        ok = False if tags & {"any", "pinned"} else None if "unknown" in tags else True
        c.decide(ok, R_MOVE, fn, kind, "features put into another cluster exclude the pinned ones" if ok else "pinned features can be moved here: nothing excludes them", where)
    if not sites:
        c.unsure(R_MOVE, "Index.refine_clusters", "moves", "no moves were found")


def clusters(c, m):
    f = m.flow
    loads = [(e, mp, key) for e, kind, mp, key, x in changes(m) if kind == "load"]
    what = "Index.refine_clusters"
    if not loads:
        c.unsure(R_CLUSTER, what, "load", "how the clustering is loaded is not understood")
        return
    # conditions put on the keys on the way from the loaded clustering to the stored one
    for d, conds, key in m.maps:
        if conds and isinstance(key, T):
            ex = f.excluded(key, conds, m.heap, "cluster", frozenset())
            if ex is True:
                c.ok(R_CLUSTER, what, "excluded", "pinned clusters are filtered out")
                return
            if ex is None:
                c.unsure(R_CLUSTER, what, "excluded", "a filter on the clusters is not understood")
                return
    verdicts = []
    for e, mp, key in loads:
        tags = f.tag(key, f.facts(e), e.heap, "cluster")
        if settle(tags) == {"free"}:
            verdicts.append(True)
            continue
        gone = None
        always = None
        for w, _ in m.writes:
            always = set(w.facts.items()) if always is None else always & set(w.facts.items())
        partial = []
        for x in m.r.of("mutate"):
            if x.d["ref"] is not mp:
                continue
            if x.d["op"] in ("delitem", "pop") and x.d["args"]:
                k = x.d["args"][0]
                kt = f.tag(k, [], x.heap, "cluster")
                if kt == {"pinned"}:
                    extra = [g for g in x.facts if has(g, lambda y: y is k) and not (g.op == "cmp" and g[0] in ("in", "not in") and g[1] is k and same_map(m, g[2], mp))
                             and not (g.op == "truth" and of_map(m, popped(g[0])) or g.op == "cmp" and (is_const(g[2], None)))]
                    asked = [g for g, v in x.facts.items() if (g, v) not in always and isinstance(g, T) and of_options(m, g)]
                    if asked and not extra:
                        partial.append((x, asked[0]))
                        continue
                    gone = True if not extra else gone or "partly"
                    spared_by = [g for g in extra if g.op == "cmp" and g[0] in ("in", "not in") and g[1] is k and (g[0] == "not in") == bool(x.facts.get(g, True))
                                 and named(m, g[2], x.heap)]
                    if spared_by and not [y for y in m.r.of("mutate") if y.d["ref"] is mp and y.where != x.where and y.d["op"] in ("delitem", "pop") and y.d["args"]
                                          and f.tag(y.d["args"][0], [], y.heap, "cluster") & {"pinned"}]:
                        c.bad(R_CLUSTER, x.fn, "removal", "pinned clusters that the caller names are not removed from refinement", x.where)
                    elif extra:
                        c.unsure(R_CLUSTER, what, "removal", f"pinned clusters are removed only where {show(extra[0], 3)[:60]}", x.where)
                elif "pinned" in kt or "unknown" in kt and not f.key_from(k, x.heap) & {"new", "key"}:
                    gone = gone or "partly"
        if gone is not True and partial:
            if len({x.where for x, _ in partial}) == 1:
                x, g = partial[0]
                c.bad(R_CLUSTER, x.fn, "removal", f"pinned clusters are removed only where the options say so ({show(g, 3)[:60]}): otherwise they are refined", x.where)
            gone = "partly"
        if gone is True:
            verdicts.append(True)
        elif gone == "partly" or "unknown" in tags:
            verdicts.append(None)
        else:
            verdicts.append(False)
    ok = None if None in verdicts else all(verdicts)
    c.decide(ok, R_CLUSTER, what, "excluded", "pinned clusters are left out of refinement" if ok else "pinned clusters are refined with the others: their features are moved, "
             "and others are moved to them", loads[0][0].where)
    # nothing is put back under a pinned id
    for e, kind, mp, key, x in changes(m):
        if kind in ("set", "merge", "add") and f.tag(key, f.facts(e), e.heap, "cluster") == {"pinned"}:
            c.bad(R_CLUSTER, e.fn, "back", "features are put into a pinned cluster", e.where)


def named(m, x, heap):
    """Is this a collection of what the caller named?"""
    x = expand(m.flow.ip, x, heap, 4)
    return has(x, lambda y: y.op == "param" and y[1] != "self" and y[-1] != "self") and not has(x, lambda y: y.op in ("bin", "cursor") and (y.op == "cursor" or y[0] == "-"))


def of_options(m, g, depth=0):
    """Is this about what the caller asked for, and not about what the index holds?"""
    if depth > 3 or has(g, lambda y: y.op in ("cell", "elem", "col", "row", "cursor")):
        return False
    if has(g, lambda y: y.op == "param" and y[1] != "self"):
        return True
    for mu in [y for y in sub_terms(g) if y.op == "mu"]:
        d = m.flow.ip.mus.get(mu)
        if d and isinstance(d["init"], T) and any(of_options(m, o, depth + 1) for o in options(d["init"])):
            return True
    return False


def popped(x):
    return t("item", x[0], x[2][0]) if x.op == "mcall" and x[1] == "pop" and x[2] else x


def same_map(m, x, mp):
    return x is mp or x.op == "mcall" and x[1] == "keys" and x[0] is mp or any(x is l[0] for l in m.maps)


def with_pins(m, b, heap, depth=0):
    """Is this (a superset of) the clusters that hold pinned features? True / False / None."""
    f = m.flow
    if depth > 8:
        return None
    if b.op == "cell":
        s = f.ip.shape(b, heap)
        if s is b:
            return None
        return with_pins(m, s, heap, depth + 1)
    if b.op == "phi":
        got = [with_pins(m, o, heap, depth + 1) for o in b.args if not f.empty(o, heap)]
        return True if got and all(x is True for x in got) else None if None in got else False
    if b.op == "call" and str(b[0]) in ("set", "list", "frozenset", "tuple", "sorted") and b[1]:
        return with_pins(m, b[1][0], heap, depth + 1)
    if b.op == "bin" and b[0] == "|":
        got = [with_pins(m, b[1], heap, depth + 1), with_pins(m, b[2], heap, depth + 1)]
        return True if True in got else None if None in got else False
    if b.op == "comp":
        conds = own_conditions(b[2])
        hits = [touches_pins(m, g, v, heap) for g, v in conds if isinstance(g, T)]
        if len(hits) == 1 and hits[0] is True:
            return True
        x = b[1]
        # the cluster of each pinned feature
        if not conds and x.op == "item" and x[1].op == "elem":
            k = f.klass(x[1][0], heap, "feature")
            return True if k == "pins" else None
        return None if None in hits else False
    if b.op == "mu":
        return None
    return None if b.op not in ("set", "list") else False


def own_conditions(conds):
    """Without what follows from another of them (a true value is not None)."""
    truths = {g[0] for g, v in conds if isinstance(g, T) and g.op == "truth" and v is True}
    return [(g, v) for g, v in conds if not (isinstance(g, T) and g.op == "cmp" and g[1] in truths and is_const(g[2], None) and v is False)]


def touches_pins(m, g, v, heap):
    """Does the condition say that features of a cluster are pinned?"""
    f = m.flow
    if g.op == "truth" and g[0].op == "bin" and g[0][0] == "&":
        ks = [f.klass(y, heap, "feature") for y in (g[0][1], g[0][2])]
        return v is True if "pins" in ks else True if ks and "empty" in ks else None
    if g.op == "truth" and g[0].op == "mcall" and g[0][1] == "intersection":
        ks = [f.klass(y, heap, "feature") for y in (g[0][0],) + tuple(g[0][2])]
        return v is True if "pins" in ks or "empty" in ks else None
    if g.op == "truth" and g[0].op == "mcall" and g[0][1] == "isdisjoint":
        ks = [f.klass(y, heap, "feature") for y in (g[0][0],) + tuple(g[0][2])]
        return v is False if "pins" in ks or "empty" in ks else None
    return None


def emptied(c, m):
    f = m.flow
    sites = {}
    for e in m.r.of("mutate"):
        if not isinstance(e.d["ref"], T) or e.d["op"] not in ("delitem", "pop") or not e.d["args"]:
            continue
        w = of_map(m, e.d["ref"])
        if w is None or w[0] != "map":
            continue
        k = e.d["args"][0]
        if f.tag(k, [], e.heap, "cluster") == {"pinned"} or not f.key_from(k, e.heap) - {"new"}:
            continue
        sites.setdefault((e.fn, e.where), []).append(spared(m, k, e.facts.items(), e.heap))
    for (fn, where), got in sites.items():
        got = [g for g in got if g != "none"]
        ok = True if got and all(g is True for g in got) else None if None in got or not got else False
        c.decide(ok, R_EMPTY, fn, "removed", "clusters that are removed are chosen from those without pinned features" if ok else "a cluster that holds pinned features can be "
                 "chosen to be removed: it is never emptied", where)


def spared(m, k, facts, heap, depth=0):
    """Is the key chosen from clusters without pinned features? True / False / None, 'none' for no key at all."""
    f = m.flow
    for g, v in facts:
        if isinstance(g, T) and g.op == "cmp" and g[0] in ("in", "not in") and g[1] is k:
            w = with_pins(m, g[2], heap)
            if w and v is (g[0] == "not in"):
                return True
    if depth > 14:
        return None
    if k.op == "phi":
        got = [spared(m, o, facts, heap, depth + 1) for o in k.args]
        return join(got)
    if k.op not in ("elem", "popped"):
        return None
    return chosen(m, k[0], heap, depth + 1)


def join(got):
    got = [g for g in got if g != "none"]
    return "none" if not got else None if None in got else all(got)


def chosen(m, x, heap, depth):
    f = m.flow
    if depth > 20:
        return None
    if f.empty(x, heap):
        return "none"
    if x.op == "phi":
        return join([chosen(m, o, heap, depth + 1) for o in x.args])
    if x.op == "mu":
        d = f.ip.mus.get(x)
        return join([chosen(m, y, heap, depth + 1) for y in [d["init"]] + [b[0] for b in d["backs"]] if isinstance(y, T) and y is not x]) if d else None
    if x.op == "cell":
        if any(x is l[0] for l in m.maps):
            return False
        s = f.ip.shape(x, heap)
        return chosen(m, s, heap, depth + 1) if s is not x else None
    if x.op == "upd" and x[0] in ("sort", "reverse", "remove", "pop"):
        return chosen(m, x[1], heap, depth + 1)
    if x.op == "upd" and x[0] == "minus":
        w = with_pins(m, x[2][0], heap)
        return True if w else chosen(m, x[1], heap, depth + 1) if w is False else None
    if x.op == "call" and str(x[0]) in ("set", "list", "tuple", "sorted", "frozenset", "reversed", "iter", "heapq.nsmallest", "heapq.nlargest") and x[1]:
        return chosen(m, x[1][-1] if "heapq" in str(x[0]) else x[1][0], heap, depth + 1)
    if x.op == "mcall" and x[1] in ("keys", "copy"):
        return chosen(m, x[0], heap, depth + 1)
    if x.op == "mcall" and x[1] == "difference":
        ws = [with_pins(m, a, heap) for a in x[2]]
        return True if True in ws else None if None in ws else chosen(m, x[0], heap, depth + 1)
    if x.op == "bin" and x[0] == "-":
        w = with_pins(m, x[2], heap)
        return True if w else chosen(m, x[1], heap, depth + 1) if w is False else None
    if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice" or x.op == "slice":
        return chosen(m, x[0], heap, depth + 1)
    if x.op == "comp":
        if any(touches_pins(m, g, not v, heap) is True for g, v in own_conditions(x[2]) if isinstance(g, T)):
            return True
        r = spared(m, x[1], [(g, v) for g, v in x[2] if isinstance(g, T)], heap, depth + 1)
        if r is True:
            return True
        if any(isinstance(g, T) and has(g, lambda y: y is x[1]) for g, _ in own_conditions(x[2])):
            return None
        return r
    return None


def done(c, m):
    f = m.flow
    seen, n = set(), 0
    sites = {}
    for e in m.r.of("divide"):
        n += 1
        d, verdict = e.d["b"], True
        if d.op == "call" and d[0] == "len" and settle(f.ctag(d[1][0], e.heap, "feature")) == {"free"}:
            x = d[1][0]
            known = [k for k, v in e.facts.items() if isinstance(k, T) and has(k, lambda z: z is x)]
            verdict = bool(known)
        sites.setdefault((e.fn, e.where), []).append((verdict, e))
    for (fn, where), got in sites.items():
        bad = [e for v, e in got if not v]
        c.decide(not bad, R_DONE, fn, "divisor", "a divisor is not the number of features that may move" if not bad else
                 f"{show(bad[0].d['a'], 2)[:40]} / {show(bad[0].d['b'], 2)[:40]} divides by the number of features that are not pinned, which can be none", where)
    for e in m.r.events:
        terms = [v for v in e.d.values() if isinstance(v, T)] + [y for v in e.d.values() if isinstance(v, tuple) for y in v if isinstance(y, T)] + [g for g in e.facts if isinstance(g, T)]
        heap = getattr(e, "heap", None)
        if heap is None:
            continue
        for x in terms:
            if (x, e.fn) in seen:
                continue
            seen.add((x, e.fn))
            for y in sub_terms(x):
                if y.op == "call" and y[0] in ("max", "min") and len(y[1]) == 1 and not any(kv[0] == "default" for kv in y[2] if isinstance(kv, tuple)):
                    base = y[1][0]
                    over = any(has(base, lambda z: z is l[0]) or isinstance(base, T) and base.op == "cell" and has(f.ip.shape(base, heap), lambda z: z is l[0]) for l in m.maps)
                    if over and ("maxof", e.fn) not in seen:
                        seen.add(("maxof", e.fn))
                        n += 1
                        cells = [l[0] for l in m.maps]
                        known = [k for k in e.facts if isinstance(k, T) and has(k, lambda z: any(z is q for q in cells))]
                        c.decide(bool(known), R_DONE, e.fn, "largest", "the clustering is known not to be empty" if known else
                                 f"{y[0]}() of the clusters to refine fails when all of them are pinned", e.where)
    if not n:
        c.unsure(R_DONE, "Index.refine_clusters", "divisors", "nothing found")
