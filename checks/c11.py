"""C11: documents come back paired with their own key, once each, in the requested order."""
import re

from sa.interp import Monitor
from sa.hyp import UNKNOWN, consistent
from sa.lab import *
from sa.rel import Query, argument, cursor_of
from sa.sql import SqlError
from sa.terms import has
from sa.web import expand
from checks import c23

R_KEY = "each-result-carries-its-own-key"
R_DOC = "the-document-is-the-one-with-that-key"
R_ORDER = "results-follow-the-requested-keys"
R_ONCE = "one-result-per-requested-key"
R_ALL = "without-keys-every-document-is-covered"
R_INDEX = "documents-keep-their-key-and-id"
R_MAP = "keys-and-ids-are-mapped-to-each-other"
R_FIELDS = "table-fields-are-rendered"

SAME = ("list", "tuple", "iter", "dict", "dict.fromkeys", "collections.deque", "collections.OrderedDict")
UNORDERED = ("set", "frozenset")


class Once(Monitor):
    """Counts results in each iteration of some loops."""

    name = "once"

    def __init__(self, loops, is_work):
        self.loops, self.is_work = set(loops), is_work

    def init(self):
        return ()

    def event(self, ev, st, ip):
        if ev.kind in ("iter", "enditer", "endloop") and ev.d["loop"] in self.loops:
            d = dict(st.mon[self.name])
            lid = ev.d["loop"]
            if ev.kind == "iter":
                d[lid] = 0
            elif ev.kind == "enditer":
                if d.get(lid) == 0:
                    d.setdefault("none", ev.where)
                d.pop(lid, None)
            else:
                d.pop(lid, None)
            st.mon[self.name] = tuple(sorted(d.items(), key=str))
        elif self.is_work(ev):
            inner = [x for x in ev.loops if x in self.loops]
            d = dict(st.mon[self.name])
            if inner and inner[-1] in d:
                if d[inner[-1]] >= 1:
                    d.setdefault("twice", ev.where)
                d[inner[-1]] = min(2, d[inner[-1]] + 1)
            if inner and [x for x in ev.loops if x not in self.loops and ev.loops.index(x) > ev.loops.index(inner[-1])]:
                d.setdefault("nested", ev.where)
            st.mon[self.name] = tuple(sorted(d.items(), key=str))


def run(c, lab):
    c.rule(R_KEY, "the key of a result is the requested key it was produced for")
    c.rule(R_DOC, "the document of a result is read by that key")
    c.rule(R_ORDER, "results are produced in the order of the requested keys")
    c.rule(R_ONCE, "each requested key produces exactly one result")
    c.rule(R_ALL, "the keys of a corpus are read from all rows of its documents, and used when no keys are given")
    c.rule(R_INDEX, "operations of the index return each document with its own document id and key, at their places in the result")
    c.rule(R_MAP, "the mapping of keys to ids holds, for each document of the query, its own key and id")
    c.rule(R_FIELDS, "each table field of a corpus is a value of its rendered documents")
    c.assumptions += ["the corpora behind an index return their results in the order of the keys they are given (shown for the built-in ones)",
                      "document keys are unique in a corpus, as its schema says"]
    for k in lab.corpus_classes():
        keycol = c.guard(R_ALL, f"{k.name}.keys", lambda: keys(c, lab, k))
        for m in ("docs", "render_docs_html", "render_docs_table"):
            if k.find(m) is None or m not in lab.all_methods(k):
                continue
            c.guard(R_KEY, f"{k.name}.{m}", lambda: corpus_op(c, lab, k, m, keycol))
            c.count("corpus_operations")
        c.guard(R_FIELDS, f"{k.name}.render_docs_table", lambda: fields(c, lab, k))
    c.guard(R_MAP, "Index.convert_query_to_keys", lambda: mapping(c, lab))
    index_ops(c, lab)
    for rule, text in ((c23.R_DOCS, "each document of each cluster's sample is written once, with the key, cluster and memberships of that document"),):
        c.rule(rule, text)
    c.guard(c23.R_DOCS, "Index.export_document_sample", lambda: c23.doc_export(c, lab))
    c.guard(R_INDEX, "Index.export_document_sample", lambda: sample_rows(c, lab))


def query_of(lab, k, text):
    try:
        cat = lab.corpus_cat(k)
        return Query(cat, text) if cat is not None else None
    except SqlError:
        return None


# ------------------------------------------------------------ corpora
def keys(c, lab, k):
    """The columns documents are found by."""
    what = f"{k.name}.keys"
    r = lab.run_method(k, "keys", max_states=2)
    texts = [(cursor_of(e.d["iter"]), e) for e in r.of("iter") if e.d["iter"].op == "cursor"]
    if not texts:
        texts = [((s, None), e) for e, s in lab.const_sql(r, lab.main_conns(r)) if first(s) == "select"]
    texts = [(x, e) for x, e in texts if x is not None]
    if len({x[0] for x, _ in texts}) != 1:
        c.unsure(R_ALL, what, "query", "how the keys are read is not understood")
        return None
    (text, params), e = texts[0]
    m = re.match(r"\s*select\s+(distinct\s+)?([\w.]+)(\s+as\s+\w+)?\s+from\s+(\w+)\s*(.*?)\s*;?\s*$", text, re.I | re.S)
    if not m:
        c.unsure(R_ALL, what, "query", f"not understood: {' '.join(text.split())[:80]}", e.where)
        return None
    col, table, rest = m[2].split(".")[-1].lower(), m[4].lower(), m[5].lower()
    if re.search(r"\blimit\b", rest):
        c.bad(R_ALL, what, "all", "only some of the keys are returned (limit)", e.where)
    elif re.search(r"\bwhere\b", rest):
        trivial = re.match(rf"where\s+(\w+\.)?{col}\s+is\s+not\s+null\s*(order\b.*)?$", rest) or re.match(r"where\s+(1|true)\s*(order\b.*)?$", rest)
        c.decide(bool(trivial), R_ALL, what, "all", f"keys of the documents that do not satisfy `{rest[:60]}` are left out", e.where)
    elif re.search(r"\bjoin\b|,|\bgroup\b|\bexcept\b|\bintersect\b", rest):
        c.unsure(R_ALL, what, "all", f"not understood: {rest[:60]}", e.where)
    else:
        c.ok(R_ALL, what, "all", f"every row of {table}", e.where)
    skip = [x for x in r.of("enditer") if x.d["iter"].op == "cursor"]
    conds = [v for kind, v, st in r.outs if kind == "return" and v.op == "cell" for v in [r.ip.content(v, st)] if v.op == "comp" and v[2]]
    if conds:
        c.bad(R_ALL, what, "filter", "keys are filtered while they are read", e.where)
    return col, table


def results(r, st):
    """The results of an operation: (value, filters, where, heap, event)."""
    out = []
    for kind, v, s in r.outs:
        if kind != "return":
            continue
        if v.op in ("gen",):
            ys = [e for e in r.of("yield") if e.fn == v[0]] or r.of("yield")
            for e in ys:
                out.append((e.d["value"], (), e.where, e.heap, e))
            continue
        for o in options(v):
            body = r.ip.content(o, s)
            for b in options(body):
                if b.op == "comp":
                    for x in options(b[1]):
                        out.append((x, b[2], "", dict(s.heap), None))
                elif b.op in ("upd", "mu", "list") and o.op == "cell":
                    for e in r.of("mutate"):
                        if e.d["ref"] is o and e.d["op"] == "add":
                            out.append((e.d["args"][0], (), e.where, getattr(e, "heap", None) or dict(s.heap), e))
                elif b.op == "call" and b[0] in ("list", "tuple") and b[1] and b[1][0].op in ("mcall", "call", "pcall"):
                    out.append((None, (), "", dict(s.heap), None))
                elif b.op in ("mcall",):
                    out.append((None, (), "", dict(s.heap), None))
    uniq = []
    for x in out:
        if not any(x[0] is y[0] and x[2] == y[2] for y in uniq):
            uniq.append(x)
    return uniq


def peel(r, x, heap):
    """(what is iterated, problem): wrappers that keep order and elements removed."""
    how = None
    for _ in range(12):
        if x.op == "cell":
            if id_map(r, x, heap):
                return x, how
            s = r.ip.shape(x, heap)
            if s is x:
                return x, how
            if s.op == "rows":
                x = s[0]
                continue
            x = s
            continue
        if x.op == "call" and x[0] in SAME and len(x[1]) == 1:
            x = x[1][0]
            continue
        if x.op == "mcall" and x[1] in ("keys", "copy") and not x[2]:
            x = x[0]
            continue
        if x.op == "call" and x[0] == "sorted" and x[1]:
            kw = dict(y for y in x[2] if isinstance(y, tuple)) if len(x.args) > 2 else {}
            rev = "reverse" in kw and not is_const(kw["reverse"], False)
            x, how = x[1][0], how or ("reversed" if rev else "sorted by a key" if "key" in kw else "sorted")
        elif x.op == "call" and x[0] == "reversed" and x[1]:
            x, how = x[1][0], how or "reversed"
        elif x.op == "call" and (x[0] in UNORDERED or str(x[0]).split(".")[-1] in ("BitMap", "FrozenBitMap")) and x[1]:
            x, how = x[1][0], how or "without duplicates, in an order of its own"
        elif x.op in ("item", "slice") and (x.op == "slice" or isinstance(x[1], T) and x[1].op == "slice"):
            x, how = x[0], "part"
        elif x.op == "call" and str(x[0]).endswith("islice"):
            x, how = x[1][0], "part"
        else:
            break
    return x, how


def spine(r, x, heap):
    """The row a document is built on."""
    for _ in range(30):
        if x.op == "upd":
            x = x[1]
        elif x.op == "cell":
            s = r.ip.shape(x, heap)
            if s is x:
                return x
            x = s
        elif x.op == "call" and x[0] in ("dict",) and x[1]:
            x = x[1][0]
        elif x.op == "mcall" and x[1] == "copy":
            x = x[0]
        else:
            return x
    return x


def keyvalue(params, text, col, r, heap):
    """What the key column is compared with in a statement: (known, value)."""
    m = re.search(rf"\bwhere\b(?:(?!\bwhere\b).)*?\b(?:\w+\.)?{col}\s*(?:=|==|is)\s*(\?\d*|[:@$]\w+)", text, re.I | re.S)
    if not m:
        return False, None
    before = text[:m.start(1)]
    if m[1] == "?":
        i = before.count("?") + 1
    elif m[1][0] == "?":
        i = int(m[1][1:])
    else:
        i = m[1][1:]
    return True, argument(params, i, r.ip, heap)


def corpus_op(c, lab, k, m, keycol):
    what = f"{k.name}.{m}"
    r = lab.run_method(k, m, max_states=4)
    asked = [x for x in (t("param", r.fn.qual, p) for p in r.fn.params[1:2])]
    asked = asked[0] if asked else None
    res = results(r, None)
    pairs, loops = [], {}
    for v, conds, where, heap, e in res:
        if v is None or v.op != "tuple" or len(v.args) < 2:
            c.unsure(R_KEY, what, "result", "the form of a result is not understood", where)
            continue
        for o in options(v):
            pairs.append((o[0], o[1], conds, where, heap, e))
    if not pairs:
        c.unsure(R_KEY, what, "results", "no results found")
        return
    for kk, d, conds, where, heap, e in pairs:
        source = None
        if kk.op == "elem":
            base, how = peel(r, kk[0], heap)
            if base is asked:
                source = "asked"
                loops[kk[1]] = "asked"
                if how == "part":
                    c.bad(R_ONCE, what, "part", "only some of the requested keys are used", where)
                elif how:
                    c.bad(R_ORDER, what, "order", f"the requested keys are {how}, so results do not follow their order", where)
                else:
                    c.ok(R_ORDER, what, "order", "results follow the requested keys", where)
                c.ok(R_KEY, what, "key", "the requested key is returned", where)
            else:
                c.unsure(R_KEY, what, "key", f"the key is taken from {show(base, 3)[:60]}", where)
        elif kk.op == "col" and kk[0].op == "row" and kk[0][0].op == "cursor":
            cur = cursor_of(kk[0][0])
            row = spine(r, d, heap)
            if cur is not None and keycol and re.search(rf"select\s+(distinct\s+)?([\w.]+\.)?{keycol[0]}(\s+as\s+\w+)?\s+from\s+{keycol[1]}\s*(order\b.*)?$", cur[0].strip(), re.I | re.S):
                source = "all"
                loops[kk[0][1]] = "all"
                c.ok(R_ALL, what, "keys", "without keys, all keys are used", where)
            elif cur is not None and keycol and kk[0] is row and str(kk[1]).lower() == keycol[0]:
                # the key is read back from the document: the key it was found by
                known, v = keyvalue(cur[1], cur[0], keycol[0], r, heap)
                c.decide(True if known else None, R_KEY, what, "key", "the key is that of the document read", where)
                if known and v is not None:
                    kk = v
                    source = "row"
                    if v.op == "elem":
                        loops[v[1]] = "asked"
            elif cur is not None and re.search(r"\blimit\b", cur[0], re.I):
                c.bad(R_ALL, what, "keys", "without keys, only some of the keys are used", where)
            elif cur is not None and keycol and kk[0] is row and isinstance(kk[1], str) and kk[1].lower() != keycol[0]:
                c.bad(R_KEY, what, "key", f"the key of a result is the {kk[1]} of the document, which is not its key", where)
            else:
                c.unsure(R_KEY, what, "key", "where the key comes from is not understood", where)
        elif is_const(kk) or kk.op == "idx":
            c.bad(R_KEY, what, "key", "the key of a result is not the key it was produced for", where)
        else:
            c.unsure(R_KEY, what, "key", f"the key is {show(kk, 3)[:60]}", where)
        if source:
            document(c, lab, k, what, r, kk, d, where, heap, keycol)
        if conds:
            c.bad(R_ONCE, what, "filter", f"results are left out when {show(conds[0][0] if isinstance(conds[0], tuple) else conds[0], 3)[:60]}", where)
    once(c, lab, k, m, what, r, loops, pairs)
    if asked is not None:
        for e in r.of("pcall", "sql"):
            if e.kind == "pcall" and (not e.d["qual"].endswith(".keys") or e.fn != r.fn.qual) or e.kind == "sql" and not (keycol and all_keys(e.d["sql"], keycol)):
                continue
            if any(isinstance(f, T) and has(f, lambda y: y is asked) for f in e.facts) and consistent(e.facts, lambda x: () if x is asked else UNKNOWN):
                c.bad(R_ALL, what, "empty request", "an empty list of requested keys is answered with all documents", e.where)
    if m == "docs":
        if asked is not None and not any(v == "all" for v in loops.values()):
            full = [e for e in r.of("iter") if e.d["iter"].op in ("genexp", "gen", "cursor")]
            c.unsure(R_ALL, what, "no-keys", "what happens without keys is not understood")


def all_keys(sql, keycol):
    return is_const(sql) and re.search(rf"select\s+(distinct\s+)?([\w.]+\.)?{keycol[0]}(\s+as\s+\w+)?\s+from\s+{keycol[1]}\s*(order\b.*)?$", str(sql[0]).strip(), re.I | re.S)


def once(c, lab, k, m, what, r, loops, pairs):
    if not loops:
        return
    evs = {(e.kind, e.site) for *_, e in pairs if e is not None}
    refs = {e.d["ref"] for *_, e in pairs if e is not None and e.kind == "mutate"}
    if not evs:
        return

    def work(ev):
        return (ev.kind, ev.site) in evs and (ev.kind != "mutate" or ev.d["op"] == "add")

    o = lab.run_method(k, m, max_states=6, monitors=[Once(loops, work)], key="c11" + m)
    inner = [e for *_, e in pairs if e is not None and set(e.loops) & set(loops) and e.loops[-1] not in loops]
    it = {}
    for e in o.of("iter"):
        it.setdefault(e.d["loop"], e)
    bad = False
    n = 0
    for kind, v, st in o.outs:
        if kind != "return":
            continue
        n += 1
        d = dict(st.mon.get("once", ()))
        if inner:
            bad = True
            c.unsure(R_ONCE, what, "single", "results are produced in an inner loop", inner[0].where)
            continue
        if "none" in d:
            bad = True
            c.bad(R_ONCE, what, "every", "a requested key can be passed over without a result", d["none"])
        if "twice" in d:
            bad = True
            c.bad(R_ONCE, what, "single", "a requested key can produce two results", d["twice"])
        if "nested" in d:
            bad = True
            c.unsure(R_ONCE, what, "single", "results are produced in an inner loop", d["nested"])
        for lid, x in d.items():
            if lid in loops:
                bad = True
                c.bad(R_ONCE, what, "every", "the loop can end before all requested keys were visited", it[lid].where if lid in it else "")
    if n and not bad:
        c.ok(R_ONCE, what, "every", "each iteration produces one result")
    if o.of("handled"):
        for e in o.of("handled"):
            if set(e.loops) & set(loops):
                c.unsure(R_ONCE, what, "handled", "errors are handled inside the loop", e.where)


def document(c, lab, k, what, r, key, d, where, heap, keycol):
    full = expand(r.ip, d, heap, depth=8)
    cursors = [x for x in sub_terms(full) if x.op == "cursor" and cursor_of(x) is not None]
    others = [x for x in sub_terms(full) if x.op in ("mcall", "fcall", "pcall", "call", "mu") and has(x, lambda y: y is key)]
    if not cursors:
        if not has(full, lambda y: y is key):
            opaque = any(x.op in ("mcall", "fcall", "pcall", "mu") for x in sub_terms(full))
            c.decide(None if opaque else False, R_DOC, what, "document", "the document does not depend on the key", where)
        else:
            c.ok(R_DOC, what, "document", "", where)
        return
    if keycol is None:
        c.unsure(R_DOC, what, "document", "the key column is not known", where)
        return
    base = spine(r, d, heap)
    mains = [base[0]] if base.op == "row" and base[0] in cursors else []
    if not mains:
        mains = [x for x in cursors if keyvalue(cursor_of(x)[1], cursor_of(x)[0], keycol[0], r, heap)[0]]
    verdicts = []
    for x in mains:
        text, params = cursor_of(x)
        known, v = keyvalue(params, text, keycol[0], r, heap)
        if not known:
            plain = re.search(r"\bwhere\b.*?([\w.]+)\s*=\s*(\?|:\w+)", text, re.I | re.S)
            if not re.search(r"\bwhere\b", text, re.I):
                c.bad(R_DOC, what, "document", "the document is read without selecting its key", where)
            elif plain and not re.search(rf"\b{keycol[0]}\b", text.lower().split("where")[-1]):
                c.bad(R_DOC, what, "document", f"the document is selected by {plain[1]}, not by its key {keycol[0]}", where)
            else:
                c.unsure(R_DOC, what, "document", "how the document is selected is not understood", where)
            verdicts.append(False)
        elif v is None:
            c.unsure(R_DOC, what, "document", "the value the document is selected by is not understood", where)
            verdicts.append(False)
        elif v is key:
            verdicts.append(True)
        else:
            definite = is_const(v) or v.op in ("idx", "param") or v.op == "elem" and key.op == "elem" or \
                v.op == "bin" and has(v, lambda y: y is key) or counted(v)
            c.decide(False if definite else None, R_DOC, what, "document", f"the document is selected by {show(v, 3)[:60]}, not by the key it is returned with", where)
            verdicts.append(False)
        q = query_of(lab, k, text)
        if q is not None:
            insts = [i for _, i, _, _ in q.frm if i.op == "inst" and isinstance(i[0], str) and keycol[1] == i[0]]
            if len(insts) == 1 or q.inst(keycol[1]):
                if len(q.inst(keycol[1])) == 1:
                    filters, problems, unknown = q.rows_of(keycol[1])
                    lost = [u for u in unknown if "left out" in u]
                    extra = [p for p in problems if isinstance(p, T) and p.op == "cmp"]
                    if lost:
                        c.bad(R_ONCE, what, "found", f"documents are missed: {lost[0]}", where)
                    elif extra:
                        c.bad(R_ONCE, what, "found", "documents that do not satisfy a further condition are not found", where)
                    else:
                        c.ok(R_ONCE, what, "found", "every document is found by its key", where)
                else:
                    inner = [i for jt, i, on, u in q.frm if i.op == "inst" and i[0] == keycol[1] and jt in ("inner", "cross", "from")]
                    if len(inner) > 1:
                        c.bad(R_ONCE, what, "found", f"documents without a matching second row of {keycol[1]} are not found", where)
    if mains and all(verdicts):
        c.ok(R_DOC, what, "document", "the document is selected by its key", where)
    elif not mains:
        c.unsure(R_DOC, what, "document", "no query by the key was found", where)
    # further queries must be about the same document
    for x in cursors:
        if x in mains:
            continue
        params = cursor_of(x)[1]
        if params is None or not isinstance(params, T) or is_const(params, None) or has(key, lambda y: y is x):
            continue
        e = expand(r.ip, params, heap, depth=6)
        if has(e, lambda y: y is key):
            c.ok(R_DOC, what, "parts", "", where)
        elif any(y.op in ("mu", "fcall", "pcall") for y in sub_terms(e)):
            c.unsure(R_DOC, what, "parts", "a part of the document is read by a value that is not understood", where)
        elif has(e, lambda y: y.op in ("elem", "row", "idx")) or is_const(e):
            c.bad(R_DOC, what, "parts", f"a part of the document is read by {show(e, 3)[:60]}, which is not about this document", where)
        elif e.op in ("list", "tuple") and all(is_const(y) for y in e.args):
            c.bad(R_DOC, what, "parts", "a part of the document is read by a fixed value", where)


def counted(v):
    """Is this a number made of counters and sizes only?"""
    if is_const(v) or v.op == "idx":
        return True
    if v.op == "bin":
        return all(counted(y) for y in v.args[1:] if isinstance(y, T))
    return v.op == "call" and v[0] == "len"


def fields(c, lab, k):
    what = f"{k.name}.render_docs_table"
    if k.find("render_docs_table") is None or "render_docs_table" not in lab.all_methods(k):
        return
    a = k.find_attr("table_fields")
    if a is None:
        c.unsure(R_FIELDS, what, "table_fields", "the table fields are not a fixed list")
        return
    r = lab.run_method(k, "render_docs_table", max_states=4)
    tf = r.ip.geval(a[1], a[0].module)
    tf = r.ip.content(tf, r.ip.gstate)
    want = [x[0] for x in tf.args if isinstance(x, T) and is_const(x)] if tf.op in ("list", "tuple") else None
    if want is None:
        c.unsure(R_FIELDS, what, "table_fields", "the table fields are not a fixed list")
        return
    for v, conds, where, heap, e in results(r, None):
        if v is None or v.op != "tuple" or len(v.args) < 2:
            continue
        for d in options(v[1]):
            have, whole = set(), True
            for m in r.of("mutate"):
                if m.d["op"] == "setitem" and is_const(m.d["args"][0]):
                    if spine(r, m.d["ref"], heap) is spine(r, d, heap) or m.d["ref"] is d:
                        have.add(m.d["args"][0][0])
            x = d
            while x.op == "upd":
                x = x[1]
            x = spine(r, x, heap)
            dicts = options(x)
            if all(y.op == "kwdict" for y in dicts):
                sets = [{kk if isinstance(kk, str) else kk[0] for kk, _ in y[0] if isinstance(kk, str) or is_const(kk)} for y in dicts]
                have |= set.intersection(*sets)
            elif x.op == "row":
                cur = cursor_of(x[0])
                q = query_of(lab, k, cur[0]) if cur else None
                if q is None:
                    whole = False
                else:
                    for col, al in zip(q.cols, q.aliases):
                        nm = al if isinstance(al, str) else col[1] if col.op == "c" else None
                        if nm is None:
                            whole = False
                        else:
                            have.add(nm)
            else:
                whole = False
            low = {str(h).lower() for h in have}
            for f in want:
                if f in have:
                    c.ok(R_FIELDS, what, f, "", where)
                elif not whole:
                    c.unsure(R_FIELDS, what, f, "the fields of the document are not known", where)
                elif str(f).lower() in low:
                    c.unsure(R_FIELDS, what, f, "the field differs in case", where)
                else:
                    c.bad(R_FIELDS, what, f, f"the table field `{f}` is not a value of the rendered document", where)


# ------------------------------------------------------------ the index
def mapping(c, lab):
    what = "Index.convert_query_to_keys"
    r = lab.run_method(lab.index_cls, "convert_query_to_keys", max_states=2)
    q = t("param", r.fn.qual, r.fn.params[1])
    cat = lab.catalogue("index")
    n = 0
    loops, sites = {}, set()
    for kind, v, st in r.outs:
        if kind != "return":
            continue
        pairs = []
        body = r.ip.content(v, st)
        if body.op == "dictcomp":
            pairs = [(body[1], body[2], "", body[3], None)]
        elif v.op == "cell":
            pairs = [(e.d["args"][0], e.d["args"][1], e.where, (), e) for e in r.of("mutate") if e.d["ref"] is v and e.d["op"] == "setitem"]
        for key, did, where, conds, e in pairs:
            n += 1
            if conds:
                c.bad(R_MAP, what, "filter", "documents of the query are left out of the mapping", where)
            ok = None
            if key.op == "col" and key[0].op == "row" and cursor_of(key[0][0]) is not None:
                text, params = cursor_of(key[0][0])
                try:
                    qq = Query(cat, text)
                except SqlError:
                    qq = None
                names = qq.column(key[1]) if qq is not None and isinstance(key[1], int) else None
                if names is None:
                    ok = None
                elif not any(n2[1] == "doc_key" for n2 in names):
                    ok = False
                    msg = "what is returned as the key of a document is not its key"
                elif did.op == "col" and did[0] is key[0]:
                    nd = qq.column(did[1])
                    ok = True if nd and any(x[1] == "doc_id" for x in nd) else False
                    msg = "key and id come from the same row"
                else:
                    filters, problems, unknown = qq.rows_of("doc_key")
                    b = filters.get("doc_id")
                    val = argument(params, b[0] if b is not None else None, r.ip, dict(st.heap)) if b is not None else None
                    if b is None:
                        ok, msg = (None if unknown else False), "the key is not looked up by the id of the document"
                    elif val is None:
                        ok = None
                    else:
                        ok = True if val is did else False if did.op in ("elem", "idx", "const") and val.op in ("elem", "idx", "const") else None
                        msg = "the key of each document is mapped to its id" if ok else "the key of one document is mapped to the id of another"
            if ok is None and (is_const(did) or did.op == "idx" or did.op == "call" and did[0] in ("len", "id", "hash")):
                ok, msg = False, "a key is not mapped to the id of its document"
            if ok is None and key.op == "elem" and did.op == "col":
                ok, msg = False, "ids are mapped to keys, not keys to ids"
            c.decide(ok, R_MAP, what, "pair", msg if ok is not None else "not understood", where)
            if did.op == "elem":
                base, how = peel(r, did[0], dict(st.heap))
                if base is q and how == "part":
                    c.bad(R_MAP, what, "all", "only some documents of the query are mapped", where)
                elif base is q:
                    loops[did[1]] = "asked"
                    if e is not None:
                        sites.add((e.kind, e.site))
    if not n:
        c.unsure(R_MAP, what, "pair", "how the mapping is made is not understood")
    if loops and sites:
        o = lab.run_method(lab.index_cls, "convert_query_to_keys", max_states=4, monitors=[Once(loops, lambda ev: (ev.kind, ev.site) in sites)], key="c11map")
        bad = False
        for kind, v, st in o.outs:
            if kind == "return":
                d = dict(st.mon.get("once", ()))
                if "none" in d or any(x in loops for x in d):
                    bad = True
                    c.bad(R_MAP, what, "all", "documents of the query can be left out of the mapping", d.get("none", ""))
        if not bad:
            c.ok(R_MAP, what, "all", "every document of the query is mapped")


CORPUS_OPS = ("docs", "render_docs_html", "render_docs_table")


def role(r, x, heap):
    """('id' | 'key' | 'doc', the corpus result) a value is."""
    if x.op == "item" and x[0].op == "elem" and corpus_result(r, x[0], heap) and is_const(x[1]):
        return {0: "key", 1: "doc"}.get(x[1][0]), x[0]
    if x.op == "item" and x[0].op in ("cell", "mcall", "call", "pcall", "attr"):
        k = role(r, x[1], heap) if isinstance(x[1], T) else None
        if id_map(r, x[0], heap):
            if k is not None and k[0] == "key":
                return "id", k[1]
            if k is not None:
                return "wrong", k[1]
    if x.op == "mcall" and x[1] in ("get", "__getitem__") and x[2] and id_map(r, x[0], heap):
        k = role(r, x[2][0], heap)
        if k is not None and k[0] == "key":
            return "id", k[1]
    return None


def corpus_result(r, e, heap):
    base, how = peel(r, e[0], heap)
    return base.op == "mcall" and base[1] in CORPUS_OPS or base.op in ("call",) and base[0] == "enumerate" and False


def id_map(r, x, heap):
    """Is this the mapping of keys to ids of some query?"""
    if x.op == "cell":
        s = r.ip.shape(x, heap)
        if s.op == "dictcomp":
            return keylike(s[1])
        for e in r.of("mutate"):
            if e.d["ref"] is x and e.d["op"] == "setitem":
                return keylike(e.d["args"][0])
    return x.op == "pcall" and str(x[0]).endswith("convert_query_to_keys")


def keylike(k):
    return k.op == "col" and cursor_of(k[0][0] if k[0].op == "row" else k[0]) is not None and "doc_key" in cursor_of(k[0][0])[0] if k.op == "col" and k[0].op == "row" else False


SHAPES = {"docs": ("id", "key", "doc"), "render_docs_html": ("id", "key", "doc"), "extract_matching_feature_windows": ("key", "id"),
          "concordances": ("key", "id")}


def index_ops(c, lab):
    for m, shape in SHAPES.items():
        if lab.index_cls.find(m) is None:
            c.unsure(R_INDEX, f"Index.{m}", "result", "no such operation")
            continue
        c.guard(R_INDEX, f"Index.{m}", lambda: index_op(c, lab, f"Index.{m}", lab.run_method(lab.index_cls, m, max_states=2), shape))
    for q in lab.workers():
        c.guard(R_INDEX, q, lambda: index_worker(c, lab, q))
    if lab.index_cls.find("render_docs_table") is not None:
        c.guard(R_INDEX, "Index.render_docs_table", lambda: asked_keys(c, lab, "Index.render_docs_table",
                                                                     lab.run_method(lab.index_cls, "render_docs_table", max_states=2)))


def asked_keys(c, lab, what, r):
    """What the corpus is asked for are the keys of the documents."""
    n = 0
    for e in r.of("mcall"):
        if e.d["name"] not in CORPUS_OPS or not corpus_like(e.d["recv"]):
            continue
        args = list(e.d["args"]) + [v for k, v in (e.d["kw"] or {}).items() if k == "doc_keys"]
        if not args:
            c.bad(R_INDEX, what, f"asked {e.d['name']}", "the corpus is asked for all of its documents", e.where)
            continue
        n += 1
        heap = (getattr(e, "heap", None) or {}) or last_heap(r)
        x = args[0]
        if x.op == "mcall" and x[1] == "values" and id_map(r, x[0], heap):
            c.bad(R_INDEX, what, f"asked {e.d['name']}", "the corpus is asked for document ids, not keys", e.where)
            continue
        base, how = peel(r, x, heap)
        if how == "part":
            c.bad(R_INDEX, what, f"asked {e.d['name']}", "the corpus is asked for only some of the documents", e.where)
        elif base.op == "param" and r.obj is not None:
            c.bad(R_INDEX, what, f"asked {e.d['name']}", "the corpus is asked for document ids, not keys", e.where)
        else:
            c.decide(True if id_map(r, base, heap) or not how and id_map(r, x, heap) else None, R_INDEX, what, f"asked {e.d['name']}", "the corpus is asked for the keys of the documents", e.where)
    return n


def corpus_like(x):
    return any(o.op == "param" and o[1] == "corpus" or o.op == "attr" and o[1] == "corpus" for o in options(x))


def last_heap(r):
    for kind, v, st in r.outs:
        if kind == "return":
            return dict(st.heap)
    return {}


def place(c, what, r, tup_, shape, where, heap):
    vals = []
    for a in tup_.args:
        if a.op == "star":
            if a[0].op == "elem" and corpus_result(r, a[0], heap):
                vals += [("key", a[0]), ("doc", a[0])]
            else:
                vals.append(None)
                break
        else:
            vals.append(role(r, a, heap))
    same = {v[1] for v in vals if v is not None}
    for i, a in enumerate(tup_.args):
        # an id taken from the query in step with the documents of the corpus
        if i < len(vals) and vals[i] is None and a.op == "elem" and len(same) == 1 and next(iter(same))[1] is a[1]:
            base, how = peel(r, a[0], heap)
            call = peel(r, next(iter(same))[0], heap)[0]
            asked = [x for x in call[2]] + [x for kk, x in call[3] if kk == "doc_keys"]
            if any(o.op == "param" for o in options(base)) and asked:
                keys_, how2 = peel(r, asked[0], heap)
                if (how2 or "").startswith(("sorted", "reversed", "without")) and how != how2:
                    c.bad(R_INDEX, what, f"place {i}", f"ids and documents are visited in step, but the keys of the documents are {how2}", where)
                    return
                vals[i] = ("id", next(iter(same))) if how is None and how2 is None and id_map(r, keys_, heap) else None
    for i, want in enumerate(shape):
        v = vals[i] if i < len(vals) else None
        if v is None:
            a = tup_.args[i] if i < len(tup_.args) else None
            definite = a is not None and (is_const(a) or a.op == "idx")
            c.decide(False if definite else None, R_INDEX, what, f"place {i}", f"element {i} of a result should be the {want}", where)
        elif v[0] == "wrong":
            c.bad(R_INDEX, what, f"place {i}", "the id of a document is looked up by something that is not its key", where)
        elif v[0] != want:
            c.bad(R_INDEX, what, f"place {i}", f"element {i} of a result is the {v[0]} of the document, not its {want}", where)
        elif len(same) > 1:
            c.unsure(R_INDEX, what, f"place {i}", "the parts of a result come from different documents", where)
        else:
            c.ok(R_INDEX, what, f"place {i}", want, where)


def index_op(c, lab, what, r, shape):
    asked_keys(c, lab, what, r)
    n = 0
    for v, conds, where, heap, e in results(r, None):
        if v is None or v.op != "tuple":
            c.unsure(R_INDEX, what, "result", "the form of a result is not understood", where)
            continue
        n += 1
        place(c, what, r, v, shape, where, heap)
        if conds:
            c.bad(R_INDEX, what, "filter", "documents are left out of the result", where)
    if not n:
        c.unsure(R_INDEX, what, "result", "no result found")
    covered(c, lab, what, r)


def covered(c, lab, what, r):
    """Every document the corpus returns becomes one result."""
    loops = {e.d["loop"] for e in r.of("iter") if corpus_result(r, e.d["elem"], {}) and e.d["elem"].op == "elem"} if r.of("yield") else set()
    gens = [v[0] for k, v, s in r.outs if k == "return" and v.op == "gen"]
    if not loops or not gens:
        return
    m = what.split(".")[1]
    o = lab.run_method(lab.index_cls, m, max_states=4, monitors=[Once(loops, lambda ev: ev.kind == "yield" and ev.fn == gens[0])], key="c11i" + m)
    bad = False
    for kind, v, st in o.outs:
        if kind == "return":
            d = dict(st.mon.get("once", ()))
            if "none" in d or any(x in loops for x in d):
                bad = True
                c.bad(R_INDEX, what, "every", "a document can be passed over without a result", d.get("none", ""))
            if "twice" in d:
                bad = True
                c.bad(R_INDEX, what, "single", "a document can be returned twice", d["twice"])
    if not bad:
        c.ok(R_INDEX, what, "every", "each document becomes one result")


def index_worker(c, lab, q):
    r = lab.run_worker(q)
    if not [e for e in r.of("iter") if e.d["elem"].op == "elem" and corpus_result(r, e.d["elem"], {})]:
        return
    if lab.p_fn(q) is not None and lab.p_fn(q).params and lab.p_fn(q).params[0] == "corpus":
        return  # indexing has its own property
    asked_keys(c, lab, q, r)
    for v, conds, where, heap, e in results(r, None):
        if v is None or v.op != "tuple" or len(v.args) < 3:
            c.unsure(R_INDEX, q, "result", "the form of a result is not understood", where)
            continue
        place(c, q, r, v, ("id", "key"), where, heap)
    # what is looked up for a document is looked up by its id
    for e in r.of("iter"):
        x = e.d["iter"]
        if x.op == "item" and x[0].op == "param" and isinstance(x[1], T):
            k = role(r, x[1], last_heap(r))
            if k is not None:
                c.decide(k[0] == "id", R_INDEX, q, f"looked up in {x[0][1]}", f"`{x[0][1]}` is looked up by the {k[0]} of the document", e.where)


def sample_rows(c, lab):
    what = "Index.export_document_sample"
    r = lab.run_method(lab.index_cls, "export_document_sample", max_states=4)
    heap = last_heap(r)
    rows = [e for e in r.of("mcall") if e.d["name"] == "writerow"]
    sets = [m for m in r.of("mutate") if m.d["op"] == "setitem"]
    for e in rows:
        doc = e.d["args"][0]
        rd = role(r, doc, heap)
        if rd is None or rd[0] != "doc":
            c.unsure(R_INDEX, what, "doc", "the document written is not understood", e.where)
            continue
        for m in sets:
            if m.d["ref"] is not doc:
                continue
            k, v = m.d["args"][:2]
            if is_const(k, "doc_key"):
                rk = role(r, v, heap)
                if rk is not None:
                    c.decide(rk[0] == "key" and rk[1] is rd[1], R_INDEX, what, "doc_key", f"the document is written under {'its own key' if rk[0] == 'key' else 'its ' + rk[0]}", m.where)
                elif v.op == "elem" or v.op == "idx":
                    c.bad(R_INDEX, what, "doc_key", "the document is written under something that is not its key", m.where)
                else:
                    c.unsure(R_INDEX, what, "doc_key", "not understood", m.where)
            member = [f for f in m.facts if isinstance(f, T) and f.op == "cmp" and f[0] in ("in", "not in")]
            for f, val in m.facts.items():
                if member and f not in member and f not in e.facts and isinstance(f, T) and f.op == "cmp" and not is_const(k) and \
                        all(any(z.op == "elem" for z in sub_terms(y)) and role(r, y, heap) is None for y in f.args[1:]):
                    c.bad(R_INDEX, what, "membership", "a cluster the document belongs to can be left out of its row", m.where)
            for f, val in m.facts.items():
                if isinstance(f, T) and f.op == "cmp" and f[0] in ("in", "not in"):
                    rl = role(r, f[1], heap)
                    if rl is not None and rl[0] in ("key", "doc"):
                        c.bad(R_INDEX, what, "membership", f"memberships are looked up by the {rl[0]} of the document, not its id", m.where)
                    elif f[1].op == "elem":
                        # the ids are visited in step with the documents
                        asked = [x for x in r.of("mcall") if x.d["name"] == "render_docs_table" and corpus_like(x.d["recv"])]
                        dm = [x for x in r.of("mutate") if x.d["op"] == "setitem" and asked and x.d["ref"] is peel(r, asked[0].d["args"][0], heap)[0]]
                        ids = {x.d["args"][1][0] for x in dm if x.d["args"][1].op == "elem"}
                        base, how = peel(r, f[1][0], heap)
                        keyed = peel(r, asked[0].d["args"][0], heap)[1] if asked else None
                        if how in ("reversed",) and not keyed or keyed in ("reversed", "sorted") and how in (None, "", "sorted"):
                            c.bad(R_INDEX, what, "in-step", "ids and documents are visited in different orders", m.where)
                        elif how != "sorted by a key" and ids and base in {peel(r, i, heap)[0] for i in ids} and not keyed:
                            c.ok(R_INDEX, what, "in-step", "ids are visited in step with their documents", m.where)
                        else:
                            c.unsure(R_INDEX, what, "in-step", "not understood", m.where)
                    break
