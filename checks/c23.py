"""C23: exports contain the whole model under the right headings (provenance of every exported value, coverage of every loop)."""
from sa.lab import *
from sa.interp import Monitor
from sa.hyp import consistent, UNKNOWN
from sa.rel import Query, Coverage, cursor_of, argument
from sa.sql import SqlError
from sa.terms import has
from sa.web import Web, Cli, expand, MIGRATE

R_HEAD = "each-exported-value-is-under-its-own-heading"
R_ALL = "every-feature-of-every-cluster-is-written"
R_LIMIT = "only-a-requested-limit-applies"
R_FILE = "the-export-reaches-the-reader-from-its-start"
R_NODE = "one-graph-node-per-cluster"
R_PAIR = "every-pair-of-clusters-is-considered-once"
R_EDGE = "every-weight-found-becomes-an-edge-of-its-pair"
R_SAMPLE = "documents-are-sampled-without-replacement"
R_DOCS = "every-sampled-document-is-written-once"

BIG = 2 ** 31
ALL_OPAQUE = {MIGRATE, "hyperreal.index.Index.is_index_db"}


def run(c, lab):
    c.rule(R_HEAD, "the column a value comes from has the name of the heading it is written under")
    c.rule(R_ALL, "each iteration over the clusters and over their features writes its row, and these cover all rows of the cluster and feature_cluster tables")
    c.rule(R_LIMIT, "the limit given to the query is the requested number of features where one is requested, and no limit otherwise")
    c.rule(R_FILE, "a spreadsheet written to memory is returned from its first byte")
    c.rule(R_NODE, "a node is added in every iteration over all clusters, identified by the cluster id")
    c.rule(R_PAIR, "each cluster is compared with exactly the clusters after it in the same list")
    c.rule(R_EDGE, "each result of each comparison adds the edge between its two clusters, weighted by their similarity")
    c.rule(R_SAMPLE, "what is sampled from a cluster excludes what was sampled before, and is added to it")
    c.rule(R_DOCS, "each document of each cluster's sample is written once, with the key, cluster and memberships of that document")
    c.assumptions += ["csv.writer.writerow writes exactly one record", "the attributes of csv.DictWriter are written under the heading equal to their key"]
    cat = lab.catalogue("index")
    found = 0
    cli = None
    try:
        cli = Cli(lab)
        for cmd in cli.commands():
            if cmd.name == "export clusters":
                found += 1
                mk = lambda mon, key, cmd=cmd: cli.run_command(cmd, opaque=ALL_OPAQUE, monitors=mon, key=key, max_states=6)
                c.guard(R_ALL, cmd.name, lambda: table_export(c, lab, cat, cmd.name, mk, "hyperreal.cli"))
    except AnalysisError as e:
        c.failed(R_ALL, "command line", e)
    try:
        w = Web(lab)
        for h in w.handlers():
            if h.name == "export_clusters":
                found += 1
                mk = lambda mon, key, h=h: w.run_handler(h, with_index=True, monitors=mon, key=key, max_states=6)
                c.guard(R_ALL, h.qual, lambda: table_export(c, lab, cat, h.qual, mk, "hyperreal.server"))
    except AnalysisError as e:
        c.failed(R_ALL, "server", e)
    c.count("cluster_exports", found)
    c.guard(R_NODE, "Index.create_cluster_cooccurrence_graph", lambda: graph(c, lab, cat))
    c.guard(R_SAMPLE, "Index.structured_doc_sample", lambda: sample(c, lab))
    c.guard(R_DOCS, "Index.export_document_sample", lambda: doc_export(c, lab))
    if cli is not None:
        for cmd in cli.commands():
            c.guard(R_DOCS, cmd.name, lambda: sample_command(c, cli, cmd))


# ------------------------------------------------------------ where values come from
def full(r, v, heap):
    return expand(r.ip, v, heap, depth=8)


def sources(r, v, heap):
    """(cursor, column number) for a value that is a column of a query result, else None."""
    x = v
    if x.op == "call" and x[0] in ("str", "int") and len(x[1]) == 1:
        x = x[1][0]
    if x.op == "col" and x[0].op == "row" and isinstance(x[1], int):
        return x[0][0], x[1]
    if x.op == "item" and x[0].op == "row" and is_const(x[1]):
        return x[0][0], x[1][0]
    return None


class Sources:
    def __init__(self, r, cat):
        self.r, self.cat, self.memo = r, cat, {}

    def query(self, cur):
        k = cursor_of(cur)
        if k is None:
            return None
        if k[0] not in self.memo:
            try:
                self.memo[k[0]] = Query(self.cat, k[0])
            except SqlError:
                self.memo[k[0]] = None
        return self.memo[k[0]]

    def names(self, v, heap):
        """Table columns a value equals, or None."""
        s = sources(self.r, v, heap)
        if s is None:
            return None
        q = self.query(s[0])
        if q is None:
            return None
        if isinstance(s[1], str):
            i = [k for k, a in enumerate(q.aliases) if a == s[1]] or [k for k, e in enumerate(q.cols) if e.op == "c" and e[1] == s[1]]
            return q.column(i[0]) if i else None
        return q.column(s[1])

    def row_values(self, v, heap):
        """The values of one written record: a list of table column sets (None: unknown), or None."""
        out = []
        v = self.r.ip.shape(v, heap)
        if v.op == "phi":
            rs = [self.row_values(o, heap) for o in v.args]
            return rs[0] if all(x is not None and [y[0] for y in x] == [y[0] for y in rs[0] or ()] for x in rs) else None
        if v.op in ("list", "tuple"):
            for a in v.args:
                if a.op == "star":
                    s = self.r.ip.shape(a[0], heap)
                    k = self.row_values(s, heap)
                    if k is None:
                        return None
                    out += k
                else:
                    out.append((self.names(a, heap), a))
            return out
        if v.op == "row":
            q = self.query(v[0])
            if q is None:
                return None
            return [(q.column(i), t("col", v, i)) for i in range(len(q.cols))]
        if v.op == "bin" and v[0] == "+":
            a, b = self.row_values(v[1], heap), self.row_values(v[2], heap)
            return None if a is None or b is None else a + b
        if v.op == "call" and v[0] in ("list", "tuple") and len(v[1]) == 1:
            return self.row_values(v[1][0], heap)
        if v.op == "rows" or v.op == "elem":
            return None
        return None


def is_writer(recv, *kinds):
    return any(x.op == "call" and x[0] in kinds for x in options(recv))


def writes(r):
    return [e for e in r.of("mcall") if e.d["name"] in ("writerow", "writerows") and is_writer(e.d["recv"], "csv.writer")]


# ------------------------------------------------------------ cluster tables
def table_export(c, lab, cat, name, mk, home):
    r = mk((), "c23")
    ws = writes(r)
    if not ws:
        c.unsure(R_ALL, name, "writer", "no csv.writer found")
        return
    src = Sources(r, cat)
    heads = [e for e in ws if e.d["name"] == "writerow" and (h := full(r, e.d["args"][0], e.heap)).op in ("tuple", "list") and
             h.args and all(is_const(x) for x in h.args)]
    data = [e for e in ws if e not in heads]
    if not heads:
        c.unsure(R_HEAD, name, "heading", "no constant record of headings found")
    if not data:
        c.bad(R_ALL, name, "rows", "no record of the model is ever written", ws[0].where)
        return
    header = [x[0] for x in full(r, heads[0].d["args"][0], heads[0].heap).args] if heads else None
    loops = set()
    for e in data:
        v = e.d["args"][0]
        bulk = e.d["name"] == "writerows"
        shape = r.ip.shape(v, e.heap)
        if bulk:
            if shape.op == "comp":
                if shape[-2]:
                    c.bad(R_ALL, name, "rows", "some records are filtered out of the export", e.where)
                v = shape[1]
            elif shape.op == "rows":
                v = t("row", shape[0], ("@first",))
            elif shape.op in ("cursor",):
                v = t("row", shape, ("@first",))
            else:
                c.unsure(R_ALL, name, "rows", f"the records given to writerows are not understood: {show(shape, 3)[:80]}", e.where)
                continue
        loops |= set(e.loops)
        vals = src.row_values(v, e.heap)
        if vals is None:
            c.unsure(R_HEAD, name, "row", f"the record is not understood: {show(full(r, v, e.heap), 3)[:80]}", e.where)
            part_of(c, r, name, e, v)
            continue
        if header is not None:
            headings(c, name, header, vals, e)
        complete(c, r, src, name, vals, e, home)
        part_of(c, r, name, e, v)
    starts_empty(c, R_ALL, name, r)
    if loops:
        m = Coverage(loops, lambda ev: ev.kind == "mcall" and ev.d["name"] in ("writerow", "writerows") and is_writer(ev.d["recv"], "csv.writer"),
                     nothing_in(r, loops))
        cov = mk((m,), "c23cov")
        coverage(c, R_ALL, name, cov, "a record")
    delivered(c, name, r, ws)


def headings(c, name, header, vals, e):
    if len(header) != len(vals):
        c.bad(R_HEAD, name, "record", f"{len(header)} headings but {len(vals)} values in each record", e.where)
        return
    known = {"cluster_id", "feature_id", "field", "value", "docs_count"}
    for h, (cols, v) in zip(header, vals):
        if not isinstance(h, str) or h not in known or not cols:
            c.unsure(R_HEAD, name, str(h), "the value under this heading is not a plain column", e.where)
            continue
        if h == "docs_count":
            ok = any(x == ("feature_cluster", h) or x == ("inverted_index", h) for x in cols)
        else:
            ok = any(x[1] == h for x in cols)
        c.decide(ok, R_HEAD, name, h, f"`{h}` is filled from {', '.join(sorted('.'.join(x) for x in cols))}", e.where)


def complete(c, r, src, name, vals, e, home):
    """The records stem from all rows of feature_cluster (per cluster, of all clusters)."""
    curs = []
    for cols, v in vals:
        s = sources(r, v, e.heap)
        if s is not None and s[0] not in curs:
            curs.append(s[0])
    per_cluster = False
    for cur in curs:
        q = src.query(cur)
        if q is None or not q.inst("feature_cluster"):
            continue
        f, problems, unknown = q.rows_of("feature_cluster")
        if problems:
            c.bad(R_ALL, name, "features", f"the query for the features leaves rows out: {show(problems[0], 4)}", e.where)
        elif unknown or set(f) - {"cluster_id"}:
            c.unsure(R_ALL, name, "features", "; ".join(unknown) or "filtered by " + ", ".join(f), e.where)
        else:
            c.ok(R_ALL, name, "features", "all rows of feature_cluster" + (" of the cluster" if f else ""), e.where)
        if "cluster_id" in f:
            per_cluster = True
            a = argument(cur[2], f["cluster_id"][0], r.ip, e.heap)
            n = src.names(a, e.heap) if a is not None else None
            if n is None:
                c.unsure(R_ALL, name, "cluster", "the cluster whose features are listed is not understood", e.where)
            else:
                c.decide(any(x[1] == "cluster_id" for x in n), R_ALL, name, "cluster", f"the features listed are those of the cluster given by {sorted(n)}", e.where)
                ccur = sources(r, a, e.heap)[0]
                clusters(c, src, name, ccur, e)
                # the cluster column is that of the same cluster
                for cols, v in vals:
                    s = sources(r, v, e.heap)
                    if cols and any(x[1] == "cluster_id" for x in cols) and s[0] is not cur and cursor_of(s[0]) != cursor_of(ccur):
                        c.bad(R_HEAD, name, "cluster_id", "the cluster id is not that of the cluster the features belong to", e.where)
        for q2, a, ev in limited(r, src, cursor_of(cur)[0]):
            limits(c, q2, a, name, ev, home)


def limited(r, src, text):
    """Every execution of a query, with the value its limit is given there."""
    for ev in r.of("sql"):
        if not is_const(ev.d["sql"], text):
            continue
        q = src.memo[text]
        a = None
        if q.limit is not None:
            ps = ev.d.get("row")
            if ps is None:
                ps = ev.d.get("params")
            a = (argument(ps, q.limit[0], r.ip, ev.heap) if ps is not None else None) if q.limit.op == "param" else const(q.limit[0]) if q.limit.op == "lit" else None
        yield q, a, ev


def clusters(c, src, name, cur, e):
    q = src.query(cur)
    if q is None:
        c.unsure(R_ALL, name, "clusters", "the list of clusters is not understood", e.where)
        return
    tb = "cluster" if q.inst("cluster") else "feature_cluster"
    f, problems, unknown = q.rows_of(tb)
    if tb == "feature_cluster":
        c.unsure(R_ALL, name, "clusters", "the clusters are derived from their features", e.where)
    elif problems:
        c.bad(R_ALL, name, "clusters", f"the query for the clusters leaves clusters out: {show(problems[0], 4)}", e.where)
    elif q.limit is not None and not unlimited(q.limit):
        c.bad(R_ALL, name, "clusters", "the number of clusters is limited", e.where)
    elif unknown or f:
        c.unsure(R_ALL, name, "clusters", "; ".join(unknown) or "filtered", e.where)
    else:
        c.ok(R_ALL, name, "clusters", "all rows of cluster", e.where)


def unlimited(x):
    if x is None or x.op == "none":
        return True
    v = x[0] if x.op in ("const", "lit") else None
    if x.op in ("const", "lit") and v is None:
        return None
    return isinstance(v, int) and (v < 0 or v >= BIG) if x.op in ("const", "lit") else None


def limits(c, q, a, name, e, home):
    if q.limit is None:
        c.ok(R_LIMIT, name, "limit", "the query has no limit", e.where)
        return
    if a is None:
        c.unsure(R_LIMIT, name, "limit", "the limit of the query is not understood", e.where)
        return
    for x in options(a):
        if is_const(x):
            u = unlimited(x)
            asked = any(k.op == "truth" and k[0].op == "param" and k[0][0].startswith(home) and v for k, v in e.facts.items() if isinstance(k, T))
            if u:
                c.ok(R_LIMIT, name, f"limit {x[0]}", "no limit", e.where)
                for k, v in e.facts.items():
                    if isinstance(k, T) and k.op == "truth" and k[0].op == "param" and "top" in k[0][1] and v:
                        c.bad(R_LIMIT, name, "limit", f"`{k[0][1]}` is given but no limit is applied", e.where)
            elif u is None:
                c.unsure(R_LIMIT, name, "limit", "limit None", e.where)
            else:
                c.bad(R_LIMIT, name, "limit", f"at most {x[0]} features of each cluster are exported, whatever was requested", e.where)
        elif x.op == "param":
            on = True if consistent(e.facts, lambda z: 0 if z is x else UNKNOWN) is False else None
            if on is None:
                c.bad(R_LIMIT, name, "limit", f"`{x[1]}` is used as the limit even when it is 0, which exports nothing", e.where)
            else:
                c.decide(on, R_LIMIT, name, f"limit {x[1]}", f"`{x[1]}` limits the features where it is not 0", e.where)
        elif x.op == "phi" or not x.args:
            c.unsure(R_LIMIT, name, "limit", "not understood", e.where)
        else:
            c.unsure(R_LIMIT, name, "limit", f"limit {show(x, 3)[:60]}", e.where)


def starts_empty(c, rule, name, r):
    """The file written holds this export only."""
    for e in r.of("call"):
        kw = dict(e.d["kw"])
        if e.d["name"] in ("open", "io.open", "codecs.open"):
            m = kw.get("mode", e.d["args"][1] if len(e.d["args"]) > 1 else const("r"))
            if is_const(m) and isinstance(m[0], str) and ("a" in m[0] or "r+" in m[0].replace("b", "")):
                c.bad(rule, name, "file", f"the export is written over or after what the file already holds (mode {m[0]!r})", e.where)
            elif is_const(m) and isinstance(m[0], str) and any(x in m[0] for x in "wx"):
                c.ok(rule, name, "file", "the file holds this export only", e.where)


def nothing_in(r, loops):
    """On an iteration where a list that is looped over further inside is empty, there is nothing to do."""
    its = {e.d["iter"] for e in r.of("iter") if e.d["loop"] in loops}

    def skippable(facts, look):
        for it in its:
            same = {it, look(it)}
            about = {k: v for k, v in facts.items() if isinstance(k, T) and any(x in same for x in sub_terms(k))}
            if about and all(consistent(about, lambda x: [1] * n if x in same else UNKNOWN) is False for n in (1, 2, 3, 50)):
                return True
        return False
    return skippable


def part_of(c, r, name, e, v):
    """Loops over a part of a list only."""
    for x in sub_terms(full(r, v, e.heap)):
        if x.op == "elem" and partial(x[0]):
            c.bad(R_ALL, name, "part", f"only a part is exported: {show(x[0], 3)[:100]}", e.where)


def partial(it):
    while it.op == "call" and it[0] in ("list", "tuple", "sorted", "reversed", "iter", "enumerate") and it[1]:
        it = it[1][0]
    if it.op == "item" and it[1].op == "slice" and any(not is_const(a, None) for a in it[1].args[:2]):
        return True
    return it.op == "call" and str(it[0]).endswith("islice")


def coverage(c, rule, name, cov, what):
    loops = {}
    for e in cov.of("iter"):
        loops.setdefault(e.d["loop"], e)
    bad = False
    n = 0
    for o in cov.outs:
        if o[0] != "return":
            continue
        n += 1
        d = dict(o[2].mon.get("coverage", ()))
        for k, v in d.items():
            if k == "!":
                c.bad(rule, name, "coverage", f"an iteration can end without writing {what}", v[0])
                bad = True
            elif v == "pending":
                c.bad(rule, name, "coverage", f"the loop can be left in an iteration that did not write {what}", loops[k].where if k in loops else "")
                bad = True
            elif k in loops:
                c.bad(rule, name, "coverage", "the loop can end before all elements were visited", loops[k].where)
                bad = True
    if not bad:
        c.decide(True if n else None, rule, name, "coverage", f"every iteration writes {what}")


def delivered(c, name, r, ws):
    bufs = {x for e in ws for w in options(e.d["recv"]) if w.op == "call" for x in w[1] if x.op == "call" and x[0] == "io.StringIO"}
    for b in bufs:
        last = max(e.seq for e in ws)
        rewound = [e for e in r.of("mcall") if e.d["recv"] is b and e.d["name"] == "seek" and e.seq > last and
                   e.d["args"] and is_const(e.d["args"][0], 0)]
        for o in r.outs:
            if o[0] != "return":
                continue
            v = full(r, o[1], o[2].heap)
            raw = [x for x in sub_terms(v) if x.op == "mcall" and x[0] is b and x[1] == "getvalue"]
            if raw:
                c.ok(R_FILE, name, "content", "the whole content is returned")
            elif any(x is b for x in sub_terms(v)):
                c.decide(bool(rewound), R_FILE, name, "content", "the buffer is returned rewound to its start" if rewound else "the buffer is returned at its end: nothing is sent")
            else:
                c.unsure(R_FILE, name, "content", f"returned: {show(v, 3)[:60]}")


# ------------------------------------------------------------ graph
def graph(c, lab, cat):
    name = "Index.create_cluster_cooccurrence_graph"
    meth = name.split(".")[1]
    r = lab.run_method(lab.index_cls, meth, max_states=6)
    src = Sources(r, cat)
    nodes = [e for e in r.of("mcall") if e.d["name"] in ("add_node", "add_nodes_from")]
    edges = [e for e in r.of("mcall") if e.d["name"] in ("add_edge", "add_weighted_edges_from", "add_edges_from")]
    if not any(e.d["name"] == "add_node" for e in nodes):
        c.decide(None if nodes else False, R_NODE, name, "nodes", "nodes are not added one at a time" if nodes else "no node is ever added")
    loops = set()
    for e in nodes:
        if e.d["name"] != "add_node" or not e.d["args"]:
            continue
        s = sources(r, e.d["args"][0], e.heap)
        n = src.names(e.d["args"][0], e.heap)
        part_of(c, r, name, e, e.d["args"][0])
        if s is None or n is None:
            c.unsure(R_NODE, name, "id", "the identity of a node is not understood", e.where)
        else:
            c.decide(("cluster", "cluster_id") in n, R_NODE, name, "id", f"nodes are identified by {sorted(n)}", e.where)
            clusters_node(c, src, name, s[0], e)
        kw = dict(e.d["kw"])
        if "document_count" in kw:
            n = src.names(kw["document_count"], e.heap)
            c.decide(None if n is None else ("cluster", "docs_count") in n, R_NODE, name, "document_count", f"document_count is {sorted(n or [])}", e.where)
        if "label" in kw:
            label(c, r, src, name, kw["label"], e)
        loops |= set(e.loops)
    if loops:
        m = Coverage(loops, lambda ev: ev.kind == "mcall" and ev.d["name"] == "add_node")
        coverage(c, R_NODE, name, lab.run_method(lab.index_cls, meth, monitors=[m], max_states=6, key="c23n"), "a node")
    pairs(c, lab, r, src, name)
    loops = set()
    for e in edges:
        loops |= set(e.loops)
        cut = {x[0] for v in e.d["args"] if isinstance(v, T) for x in sub_terms(full(r, v, e.heap))
               if x.op == "elem" and partial(x[0]) and (has(x[0], lambda y: y.op == "result") or x[0].op == "item" and not is_const(x[0][1].args[1], None))}
        for x in cut:
            c.bad(R_EDGE, name, "part", f"only a part of the weights found becomes edges: {show(x, 3)[:80]}", e.where)
    if not edges:
        c.bad(R_EDGE, name, "edges", "no edge is ever added")
    if loops:
        m = Coverage(loops, lambda ev: ev.kind == "mcall" and ev.d["name"].startswith("add_") and "edge" in ev.d["name"], nothing_in(r, loops))
        coverage(c, R_EDGE, name, lab.run_method(lab.index_cls, meth, monitors=[m], max_states=6, key="c23e"), "an edge")
    for q in {r.ip.fqual(f) for e in r.of("submit") for f in options(e.d["f"])}:
        if q in lab.workers():
            c.guard(R_EDGE, q, lambda: worker(c, lab, q, edges))


def clusters_node(c, src, name, cur, e):
    q = src.query(cur)
    f, problems, unknown = q.rows_of("cluster")
    if problems or q.limit is not None and unlimited(q.limit) is False:
        c.bad(R_NODE, name, "clusters", f"some clusters have no node: {show(problems[0], 4) if problems else 'limited'}", e.where)
    elif unknown or f or q.limit is not None:
        c.unsure(R_NODE, name, "clusters", "; ".join(unknown) or "filtered", e.where)
    else:
        c.ok(R_NODE, name, "clusters", "one node for every row of cluster", e.where)


def label(c, r, src, name, v, e):
    """The label is made of the values (and fields when asked for) of the features."""
    seen = set()
    for x in sub_terms(full(r, v, e.heap)):
        if x.op in ("col", "item") and x[0].op == "row":
            n = src.names(x, e.heap)
            if n:
                seen |= {y[1] for y in n}
    for x in sub_terms(full(r, v, e.heap)):
        if x.op == "mcall" and x[1] == "join" and x[2] and x[2][0].op == "comp" and x[2][0][1].op in ("col", "item"):
            n = src.names(x[2][0][1], e.heap) or ()
            c.decide(False if ("inverted_index", "value") in n else None, R_NODE, name, "label text",
                     "a label is joined from values as they are stored: values that are not text fail", e.where)
    want = None
    for k, val in e.facts.items():
        if isinstance(k, T) and k.op == "truth" and k[0].op == "param" and k[0][1] == "include_field_in_label":
            want = val
    if not seen:
        c.unsure(R_NODE, name, "label", "the label is not understood", e.where)
        return
    if "value" not in seen:
        c.bad(R_NODE, name, "label", f"the label shows {sorted(seen)} instead of the values of the features", e.where)
    elif want is None:
        c.ok(R_NODE, name, "label", "labels show the values", e.where)
    else:
        c.decide(("field" in seen) == want, R_NODE, name, f"label {want}", "fields are shown in labels " + ("although not asked for" if not want and "field" in seen else "only where asked for"), e.where)


def pairs(c, lab, r, src, name):
    for e in r.of("submit"):
        if e.d.get("many"):
            c.unsure(R_PAIR, name, "pairs", "comparisons are submitted with map", e.where)
            continue
        args = [full(r, a, e.heap) for a in e.d["args"]] + [full(r, a, e.heap) for a in dict(e.d["kw"]).values()]
        slices = {x for a in args for x in sub_terms(a) if x.op == "elem" and x[0].op == "item" and x[0][1].op == "slice"}
        if not slices:
            whole = [a for a in args if a.op == "comp"]
            c.unsure(R_PAIR, name, "pairs", "which clusters each one is compared with is not understood", e.where)
            continue
        for x in slices:
            lo, hi, step = (list(x[0][1].args) + [const(None)] * 3)[:3]
            if not is_const(hi, None) or not is_const(step, None, 1):
                c.bad(R_PAIR, name, "pairs", f"a cluster is compared with a part of the clusters after it only: {show(x[0][1], 4)}", e.where)
                continue
            ok = None
            if lo.op == "idx":
                ok, why = False, "a cluster is compared with itself"
            elif lo.op == "bin" and lo[0] == "+" and any(a.op == "idx" for a in lo.args[1:]):
                k = [a for a in lo.args[1:] if is_const(a)]
                if k:
                    ok = k[0][0] == 1
                    why = "each cluster is compared with the clusters after it" if ok else f"the comparison starts {k[0][0]} after the cluster"
            elif is_const(lo):
                ok, why = False, f"every cluster is compared with the clusters from {lo[0]} on: pairs are counted more than once"
            if ok is None:
                c.unsure(R_PAIR, name, "pairs", f"start {show(lo, 3)}", e.where)
            else:
                c.decide(ok, R_PAIR, name, "pairs", why, e.where)


def worker(c, lab, q, edges):
    """Each cluster given is compared; what is returned says which pair and how similar."""
    r = lab.run_worker(q, max_states=4)
    fn = q.split(".")[-1]
    sims = [e for e in r.of("mcall") if e.d["name"] in ("jaccard_index",)]
    for e in edges:
        w = dict(e.d["kw"]).get("weight")
        if w is None:
            c.unsure(R_EDGE, fn, "weight", "edges carry no weight", e.where)
            continue
        if len(e.d["args"]) == 2:
            a, b = e.d["args"]
            c.decide(False if a is b else True, R_EDGE, fn, "ends", "an edge joins two clusters" if a is not b else "an edge joins a cluster to itself", e.where)
        i = w[1][0] if w.op == "item" and is_const(w[1]) else None
        adds = [m for m in r.of("mutate") if m.d["op"] == "add" and m.d["args"] and m.d["args"][0].op == "tuple"]
        j = None
        if len(e.d["args"]) == 2 and e.d["args"][1].op == "item" and is_const(e.d["args"][1][1]):
            j = e.d["args"][1][1][0]
        for m in adds:
            tp = m.d["args"][0]
            if isinstance(i, int) and i < len(tp.args):
                v = tp[i]
                if v.op == "mcall" and v[1] == "jaccard_index":
                    c.ok(R_EDGE, fn, "weight", "the weight is the similarity of the pair", m.where)
                elif v.op == "mcall":
                    c.bad(R_EDGE, fn, "weight", f"edges are weighted by {v[1]}, not by the jaccard similarity", m.where)
                else:
                    c.unsure(R_EDGE, fn, "weight", f"weight {show(v, 3)[:60]}", m.where)
            if isinstance(j, int) and j < len(tp.args):
                v = tp[j]
                ok = v.op == "elem" and v[0].op == "param"
                c.decide(True if ok else None, R_EDGE, fn, "other", "each weight names the cluster it was computed for", m.where)
                used = [x for s in sims for x in sub_terms(s.d["args"][0]) if x is v]
                if ok and sims:
                    c.decide(bool(used), R_EDGE, fn, "same", "the similarity is computed for the cluster it is returned for", m.where)
    its = [e for e in r.of("iter") if e.d["iter"].op in ("param", "item", "call") and not e.loops[1:]]
    for e in its:
        if partial(e.d["iter"]):
            c.bad(R_EDGE, fn, "clusters", f"only a part of the clusters is compared: {show(e.d['iter'], 3)}", e.where)
    # the only comparisons left out are those with no document in common
    for m in r.of("mutate"):
        if m.d["op"] != "add" or not m.loops:
            continue
        for k, v in m.facts.items():
            if not isinstance(k, T) or not any(x.op == "elem" for x in sub_terms(k)):
                continue
            inter = [x for x in sub_terms(k) if x.op == "mcall" and x[1] in ("intersection_cardinality", "intersect", "jaccard_index")]
            if k.op == "cmp" and k[0] in ("is", "is not"):
                continue
            if inter and k.op == "cmp" and any(is_const(x) and isinstance(x[0], (int, float)) and x[0] != 0 for x in k.args[1:]):
                c.bad(R_EDGE, fn, "left out", f"pairs are left out by {show(k, 3)[:80]}", m.where)
            elif inter and (k.op == "truth" or k.op == "cmp"):
                c.ok(R_EDGE, fn, "left out", "only pairs without common documents are left out", m.where)
            else:
                c.unsure(R_EDGE, fn, "left out", f"condition {show(k, 3)[:80]}", m.where)


# ------------------------------------------------------------ samples
def docs_of(v):
    """Does the value stem from the documents of a cluster?"""
    return [x for x in sub_terms(v) if x.op == "col" and x[0].op == "row" and cursor_of(x[0][0]) and
            "doc_ids" in cursor_of(x[0][0])[0]]


def made_of(r, x, depth=6, seen=None):
    """The terms a set of documents may be made of, other than by what is taken away from it."""
    seen = set() if seen is None else seen
    for o in options(x):
        if o in seen or depth < 0:
            continue
        seen.add(o)
        y = r.ip.shape(o, None) if o.op == "cell" else o
        if y.op == "bin" and y[0] in ("-",):
            made_of(r, y[1], depth - 1, seen)
            continue
        if y is not o:
            made_of(r, y, depth, seen)
            continue
        for z in y.args:
            for w in z if isinstance(z, tuple) else (z,):
                if isinstance(w, T):
                    made_of(r, w, depth - 1, seen)
    return seen


class Sampled(Monitor):
    """A recorded sample must be added to the documents already sampled before the next one is taken."""

    name = "sampled"

    def __init__(self, cells):
        self.cells = cells

    def init(self):
        return ()

    def event(self, ev, st, ip):
        s = st.mon[self.name]
        if ev.kind == "mutate" and ev.loops and ev.d["op"] == "setitem" and len(ev.d["args"]) == 2 and \
                (not self.cells or ev.d["ref"] in self.cells) and docs_of(expand(ip, ev.d["args"][1], ev.heap, 8)):
            st.mon[self.name] = s + ((ev.d["args"][1], ev.where),) if not any(x[0] is ev.d["args"][1] for x in s) else s
        elif ev.kind == "mutate" and ev.d["op"] in ("extend", "update", "add", "ior") and ev.d["args"]:
            st.mon[self.name] = tuple(x for x in s if x[0] is not ev.d["args"][0] and x[0] not in options(ev.d["args"][0]))
        elif ev.kind in ("iter", "endloop") and len(ev.loops) <= (1 if ev.kind == "iter" else 0):
            for v, w in s:
                if not str(v).startswith("!"):
                    s = (("!", w),)
            st.mon[self.name] = s


def sample(c, lab):
    name = "Index.structured_doc_sample"
    meth = name.split(".")[1]
    r = lab.run_method(lab.index_cls, meth, max_states=4)
    taken = [e for e in r.of("mutate") if e.loops and e.d["op"] == "setitem" and len(e.d["args"]) == 2]
    # the samples are what the method hands back first: what is recorded elsewhere is not a sample
    cells = {x for o in r.outs if o[0] == "return" for y in options(o[1]) if y.op == "tuple" and y.args for x in options(y[0]) if x.op == "cell"}
    if any(e.d["ref"] in cells for e in taken):
        taken = [e for e in taken if e.d["ref"] in cells]
    else:
        cells = set()
    n = 0
    minus = set()
    for e in taken:
        for o in options(e.d["args"][1]):
            v = expand(r.ip, o, e.heap, depth=10)
            if not docs_of(v):
                continue
            n += 1
            diff = [x for x in sub_terms(v) if x.op == "bin" and x[0] == "-" and docs_of(x[1])] + \
                   [x for x in sub_terms(v) if x.op == "mcall" and x[1] == "difference"]
            if not diff:
                # is there a subtraction anywhere in the loop?
                c.bad(R_SAMPLE, name, "sample", "documents are taken from a cluster without excluding those sampled before", e.where)
            else:
                minus |= {x[2] for x in diff if x.op == "bin"}
                c.ok(R_SAMPLE, name, "sample", "a sample excludes what was sampled before", e.where)
            ids = {x for d in docs_of(v) for x in sub_terms(argument(d[0][0][2], 1, r.ip, e.heap) or const(None)) if x.op == "col"}
            if ids:
                c.decide(e.d["args"][0] in ids or None, R_SAMPLE, name, "cluster", "the sample of a cluster is taken from its own documents", e.where)
    if not n:
        c.unsure(R_SAMPLE, name, "sample", "no sample of the documents of a cluster found")
        return
    growing = {y for x in minus for y in ([x] if x.op == "mu" else [])} | {x for x in minus if x.op == "cell" and x in r.ip.changed}
    if minus and not growing and not any(x.op in ("mu", "cell", "any", "phi") for x in minus):
        c.bad(R_SAMPLE, name, "excluded", "the documents already sampled are never recorded", taken[0].where)
    for x in minus:
        d = r.ip.mus.get(x) if x.op == "mu" and x[1] != "content" else None
        for val, content, facts, mon in (d["backs"] if d else ()):
            for o in options(val):
                if o is not x and docs_of(expand(r.ip, o, None, 10)) and not any(y is x for y in made_of(r, o)):
                    c.bad(R_SAMPLE, name, "recorded", "the documents of earlier samples are forgotten when another sample is taken", taken[0].where)
                    return
    m = Sampled(cells)
    rr = lab.run_method(lab.index_cls, meth, monitors=[m], max_states=8, key="c23s")
    lost = [w for o in rr.outs if o[0] == "return" for v, w in o[2].mon.get("sampled", ()) if v == "!"]
    vals = {o for e in taken for o in options(e.d["args"][1])}
    kept = [m for m in r.of("mutate") if m.d["op"] in ("extend", "update", "ior") and m.loops and m.d["args"] and set(options(m.d["args"][0])) & vals]
    if not kept and minus and any(x.op != "list" for x in minus):
        c.unsure(R_SAMPLE, name, "recorded", "how samples are recorded as sampled is not understood")
    elif lost:
        c.bad(R_SAMPLE, name, "recorded", "a sample can be taken without being added to the documents already sampled", lost[0])
    else:
        c.ok(R_SAMPLE, name, "recorded", "each sample is added to the documents already sampled")


def doc_export(c, lab):
    name = "Index.export_document_sample"
    r = lab.run_method(lab.index_cls, name.split(".")[1], max_states=4)
    ws = [e for e in r.of("mcall") if e.d["name"] == "writerow" and is_writer(e.d["recv"], "csv.DictWriter")]
    if not ws:
        c.unsure(R_DOCS, name, "rows", "no csv.DictWriter found")
        return
    e = ws[0]
    w = [x for x in options(e.d["recv"]) if x.op == "call"][0]
    fields = w[1][1] if len(w[1]) > 1 else dict(w[2]).get("fieldnames")
    mk = [x for x in r.of("call") if x.d["name"] == "csv.DictWriter"]
    names = patterns(full(r, fields, mk[0].heap if mk else e.heap)) if fields is not None else None
    tf = [x for x in sub_terms(full(r, fields, mk[0].heap if mk else e.heap)) if x.op == "attr" and x[1] == "table_fields"] if fields is not None else []
    c.decide(True if tf else None, R_DOCS, name, "fields", "the fields of the corpus are exported", e.where)
    if not [x for x in r.of("mcall") if x.d["name"] in ("writeheader", "writerow") and x.seq < min(y.seq for y in ws)]:
        c.bad(R_DOCS, name, "header", "no heading is written", e.where)
    else:
        c.ok(R_DOCS, name, "header", "headings come first", e.where)
    doc = e.d["args"][0]
    sets = [m for m in r.of("mutate") if m.d["op"] == "setitem" and m.d["ref"] is doc]
    keys = {}
    for m in sets:
        k = m.d["args"][0]
        keys[pattern(k)] = m
        if names is not None and None not in names:
            c.decide(pattern(k) in names, R_DOCS, name, f"heading {pattern(k)}", f"`{pattern(k)}` is a heading of the file", m.where)
    if names is not None:
        for want in names:
            if want is not None and want not in keys and sets:
                c.bad(R_DOCS, name, f"filled {want}", f"nothing is ever written under the heading `{want}`", e.where)
    starts_empty(c, R_DOCS, name, r)
    loops = set()
    for x in ws:
        loops |= set(x.loops)
    m = Coverage(loops, lambda ev: ev.kind == "mcall" and ev.d["name"] == "writerow", nothing_in(r, loops))
    coverage(c, R_DOCS, name, lab.run_method(lab.index_cls, name.split(".")[1], monitors=[m], max_states=4, key="c23d"), "a record")
    for it in r.of("iter"):
        if it.d["loop"] in loops and partial(it.d["iter"]):
            c.bad(R_DOCS, name, "part", f"only a part of the sample is written: {show(it.d['iter'], 3)[:80]}", it.where)
    # the cluster of a document, and its other clusters
    k = keys.get("sampled_cluster")
    if k is not None:
        v = k.d["args"][1]
        par = [x for x in sub_terms(v) if x.op == "param"]
        if par and par[0][1] != "sample_docs":
            c.bad(R_DOCS, name, "sampled_cluster", f"the sampled cluster is taken from {par[0][1]}", k.where)
        else:
            c.decide(True if v.op == "elem" else None, R_DOCS, name, "sampled_cluster", "the sampled cluster is the one whose sample the document is in", k.where)
    for p, m in keys.items():
        if p is None or not p.startswith("cluster_"):
            continue
        own = [x for x in sub_terms(m.d["args"][0]) if x.op == "elem"]
        for f, val in m.facts.items():
            if isinstance(f, T) and f.op == "cmp" and f[0] in ("in", "not in") and own and any(x is own[0] for x in sub_terms(f[2])):
                positive = (f[0] == "in") == val
                c.decide(positive, R_DOCS, name, "membership", "a membership is marked for the documents of that cluster" if positive else "memberships are marked for documents that are not in the cluster", m.where)
                break
        else:
            c.unsure(R_DOCS, name, "membership", "not understood", m.where)


def pattern(k):
    """A key: its text, with * for each varying part."""
    if is_const(k) and isinstance(k[0], str):
        return k[0]
    if k.op == "fstr":
        return "".join(a[0] if is_const(a) and isinstance(a[0], str) else "*" for a in k.args)
    return None


def patterns(v):
    """Names in a list of headings: constants and patterns; the names the corpus provides are left out."""
    out = []
    if v.op == "bin" and v[0] == "+":
        a, b = patterns(v[1]), patterns(v[2])
        return None if a is None or b is None else a + b
    if v.op in ("list", "tuple"):
        for a in v.args:
            if a.op == "star":
                k = patterns(a[0])
                if k is None:
                    return None
                out += k
            else:
                out.append(pattern(a))
        return out
    if v.op == "comp":
        return [pattern(v[1])]
    if v.op == "attr" and v[1] == "table_fields":
        return []
    if v.op == "call" and v[0] in ("list", "tuple") and len(v[1]) == 1:
        return patterns(v[1][0])
    return None


def sample_command(c, cli, cmd):
    r = cli.run_command(cmd, key="c23c")
    for e in r.of("pcall"):
        if e.d["qual"] == "hyperreal.index.Index.export_document_sample":
            a = e.d["args"]
            for p, i in (("sample_docs", 0), ("sample_clusters", 1)):
                v = a.get(p)
                if v is not None and v.op == "item" and v[0].op == "pcall" and v[0][0].endswith(".structured_doc_sample") and is_const(v[1]):
                    c.decide(v[1][0] == i, R_DOCS, cmd.name, p, f"`{p}` is " + ("the" if v[1][0] == i else "the other") + " part of the sample", e.where)
                else:
                    c.unsure(R_DOCS, cmd.name, p, "not understood", e.where)
