"""C05: the index records exactly the features each document has (dataflow from the corpus to the merged index)."""
from sa.interp import Monitor
from sa.lab import *
from sa.rel import argument, Coverage, schema_of
from sa.sql import parse, Resolver, SqlError
from sa.terms import has, rewrite
from sa.txn import Txn

R_KEY = "documents-are-numbered-with-their-own-key"
R_BATCH = "every-document-reaches-exactly-one-batch"
R_PAIR = "ids-stay-with-their-documents"
R_VALS = "exactly-the-reported-values-are-recorded"
R_ROW = "a-batch-stores-every-feature-with-its-own-documents"
R_SAVE = "a-batch-is-saved"
R_MERGE = "batches-are-merged-whole"
R_SUMMARY = "field-summary-describes-its-field"
R_UNION = "document-sets-are-united-and-stored-whole"

COPY = ("list", "tuple", "set", "frozenset", "sorted", "iter", "reversed", "dict.fromkeys", "collections.Counter", "collections.deque",
        "collections.OrderedDict.fromkeys", "dict", "enumerate", "itertools.chain", "itertools.chain.from_iterable", "array.array")
ORDER = ("set", "frozenset", "sorted", "reversed", "collections.Counter", "dict.fromkeys")
CHANGES = ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "replace", "split", "format", "encode", "decode")
CASTS = ("str", "repr", "hash", "int", "float", "bool", "abs", "round", "len", "id", "type")


def low(x):
    return x.lower() if isinstance(x, str) else x


class Keep(Monitor):
    name = "keep"

    def event(self, ev, st, ip):
        if ev.kind in ("mutate", "iter", "sql", "submit", "mcall", "endloop", "enditer", "raise"):
            ev.heap = dict(st.heap)


def run(c, lab):
    c.rule(R_KEY, "the row of doc_key written for a document holds its own number and the key the corpus listed at that number, for every key")
    c.rule(R_BATCH, "on every path through the numbering loop the number and the key of the document join the open batch; a batch is emptied exactly when it "
                    "was handed to a worker, numbers and keys together; the rest is handed over after the loop; a batch is not changed after it was handed over")
    c.rule(R_PAIR, "a worker takes each number together with the document whose key stands at the same place, and fetches all the keys of its batch")
    c.rule(R_VALS, "for every document, field and value of the batch (absent values aside) the number of the document is added to the set of exactly that field and value")
    c.rule(R_ROW, "every set of the batch is written to the segment table, under its own field and value and with its own size")
    c.rule(R_SAVE, "a worker commits its batch before it returns, into the file that is merged")
    c.rule(R_MERGE, "the merge groups all rows of the segment table by field and value, adds up their counts and unites their document sets")
    c.rule(R_SUMMARY, "the field summary has one row per field, each column computed from the features (or positions) of that field as its name says")
    c.rule(R_UNION, "the union aggregate adds every set it is given and returns all of it; document sets are stored and loaded unchanged")
    c.assumptions += ["a corpus yields (key, document) pairs from docs() in the order of the keys asked for (C11), and field/value mappings from index() that do "
                      "not change while they are read", "every feature value is hashable and compares equal only to itself (1 == 1.0 == True is one value in Python and SQLite)"]
    cls = lab.index_cls
    c.require(cls.find("index") is not None, "Index.index not found")
    ctx = Ctx(c, lab)
    c.guard(R_VALS, "worker", ctx.worker)
    c.guard(R_BATCH, "Index.index", ctx.batches)
    c.guard(R_MERGE, "Index.index", ctx.merge)
    c.guard(R_SUMMARY, "Index.index", ctx.summary)
    c.guard(R_UNION, "aggregate", ctx.union)


def root(x):
    while isinstance(x, T) and x.op in ("item", "elem", "slice", "attr"):
        x = x[0]
    return x


def copied(x):
    """Strip copies that keep all elements; returns (inner, order kept)."""
    keep = True
    while x.op == "call" and x[0] in COPY and x[1]:
        if x[0] in ORDER:
            keep = False
        if x[0] in ("itertools.chain",) and len(x[1]) > 1:
            break
        x = x[1][0]
    return x, keep


class Ctx:
    def __init__(self, c, lab):
        self.c, self.lab, self.cls = c, lab, lab.index_cls
        self.roles = {}           # parameter of the worker -> "ids" | "keys" | "path" | "corpus"
        self.work = None
        self.segcols = {}         # column of the merged table -> column of the segment
        self.segtable = None

    # ==================================================================== worker
    def find_worker(self):
        out = []
        for q, uses in self.lab.workers().items():
            if not any(r.name.endswith(".index") for r, e in uses):
                continue
            r = self.lab.run_worker(q, max_states=4, monitors=[Keep()], key=("c05",))
            docs = [e for e in r.of("mcall") if e.d["name"] == "docs" and e.d["recv"].op == "param"]
            idx = [e for e in r.of("mcall") if e.d["name"] == "index" and e.d["recv"].op == "param"]
            if docs and idx:
                out.append((q, r, docs, idx))
        return out

    def worker(self):
        found = self.find_worker()
        if not found:
            self.c.unsure(R_VALS, "worker", "worker", "no background task of Index.index reads documents of the corpus")
            return
        self.merge_shape()
        for q, r, docs, idx in found:
            self.work = q
            self.one_worker(q, r, docs, idx)

    def one_worker(self, q, r, docs, idx):
        c, ip = self.c, r.ip
        fn = q.rsplit(".", 1)[-1]
        keys_param = None
        for e in docs:
            a = list(e.d["args"]) + list(e.d["kw"].values())
            if not a:
                c.bad(R_PAIR, fn, "docs", "a batch reads every document of the corpus, not those with the keys of the batch", e.where)
                continue
            k = ip.shape(a[0], e.heap)
            inner, keep = copied(k)
            if inner.op == "param":
                self.roles[inner[-1]] = "keys"
                keys_param = inner
                c.decide(keep, R_PAIR, fn, "docs", "the documents are fetched in another order than the numbers of the batch" if not keep else
                         "documents of the batch, in order", e.where)
            elif inner.op == "item" and isinstance(inner[1], T) and inner[1].op == "slice" and root(inner).op == "param":
                c.bad(R_PAIR, fn, "docs", "only some of the keys of the batch are fetched", e.where)
                keys_param = root(inner)
            else:
                c.unsure(R_PAIR, fn, "docs", f"keys come from {show(inner, 3)}", e.where)
        calls = []
        for e in idx:
            if e.d["args"] and e.d["args"][0] not in [x for x, _ in calls]:
                calls.append((e.d["args"][0], e))
        X = {}
        for x, e in calls:
            m = t("mcall", e.d["recv"], "index", e.d["args"], ())
            X[x] = e
        self.occurrences(fn, r, X)
        self.rows(fn, r)
        self.saved(fn, r, q)

    def index_call(self, x):
        return x.op == "mcall" and x[1] == "index" and x[0].op == "param"

    def occurrences(self, fn, r, X):
        c, ip = self.c, r.ip
        adds = []
        seen_loops = {}
        for e in r.of("mutate"):
            ref = e.d["ref"]
            if not isinstance(ref, T):
                continue
            keys, base = [], ref
            while base.op == "item":
                k = base[1]
                keys = (list(k.args) if isinstance(k, T) and k.op == "tuple" else [k]) + keys
                base = base[0]
            if base.op != "cell" or not keys:
                continue
            keys = [self.opened(ip, k, e.heap) if isinstance(k, T) else k for k in keys]
            sym = [k for k in keys if isinstance(k, T) and not is_const(k)]
            if not any(has(k, self.index_call) for k in sym):
                continue
            args = [a for a in e.d["args"] if isinstance(a, T)]
            ids = [a for a in args if self.doc_of(a)]
            if ids and len(sym) >= 2:
                adds.append((e, base, sym, ids[0], keys))
        if not adds:
            c.unsure(R_VALS, fn, "occurrences", "where a worker records that a document has a value was not recognised")
            return
        self.occ = adds
        loops = set()
        for e, base, sym, d, keys in adds:
            F, V = sym[0], sym[1]
            self.where_add(fn, r, e, F, V, d, loops)
            if e.d["op"] not in ("add", "insert", "extend"):
                if e.d["op"] in ("remove", "minus", "inter", "xor", "clear", "pop"):
                    c.bad(R_VALS, fn, f"recorded {e.d['op']}", f"the number of the document is not added to the set: {e.d['op']}", e.where)
                else:
                    c.unsure(R_VALS, fn, f"recorded {e.d['op']}", "other operation on the set", e.where)
        self.cover(fn, loops)

    def opened(self, ip, k, heap):
        """Parts of a copy of the fields, seen as parts of the original."""
        def f(y):
            if y.op == "item" and y[0].op == "cell" and isinstance(y[1], T) and y[1].op == "slice":
                z = heap.get(y[0])
                if isinstance(z, T) and z is not y[0]:
                    return t("item", z, y[1])
            return y
        return rewrite(k, f)

    def doc_of(self, a):
        """Is this value the number of a document: an element of a parameter of the worker?"""
        a = copied(a)[0]
        if a.op in ("list", "tuple", "set") and len(a.args) == 1:
            a = a[0]
        if a.op == "elem" and self.listed(a[0]) is not None and not has(a, self.index_call):
            return True
        if a.op == "item" and a[0].op == "param" and is_const(a[1]) and isinstance(a[1][0], int):
            return True
        if a.op == "item" and copied(a[0])[0].op == "param" and isinstance(a[1], T) and (a[1].op in ("idx",) or has(a[1], lambda x: x.op == "idx")):
            return True
        return a.op == "item" and a[0].op == "call" and a[0][0] == "dict"

    def listed(self, x):
        """(parameter, order kept, whole) of a list handed to the worker."""
        x, keep = copied(x)
        whole = True
        if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice":
            whole = all(not isinstance(y, T) or is_const(y, None) for y in x[1].args[:2])
            keep = keep and (not isinstance(x[1][2], T) or is_const(x[1][2], None)) if len(x[1].args) > 2 else keep
            x, k = copied(x[0])
            keep = keep and k
        return (x, keep, whole) if x.op == "param" else None

    def where_add(self, fn, r, e, F, V, d, loops):
        c, ip = self.c, r.ip
        d = copied(d)[0]
        if d.op in ("list", "tuple", "set") and len(d.args) == 1:
            d = d[0]
        call = next((x for x in sub_terms(V) if self.index_call(x)), None) or next((x for x in sub_terms(F) if self.index_call(x)), None)
        doc = call[2][0]
        # number and document belong together
        src = [x for x in sub_terms(doc) if x.op == "elem" and has(x[0], lambda y: y.op == "mcall" and y[1] == "docs")]
        if not src:
            c.unsure(R_PAIR, fn, "pair", "document of another origin", e.where)
        else:
            s = src[0]
            docs, keep = copied(s[0])
            if docs.op == "item" and isinstance(docs[1], T) and docs[1].op == "slice":
                c.bad(R_PAIR, fn, "pair", "only some of the documents of the batch are indexed", e.where)
            L = s[1]
            loops.add(L)
            if d.op == "elem":
                inner, k2, whole = self.listed(d[0]) or (root(d[0]), True, True)
                self.roles.setdefault(inner[-1], "ids")
                if not whole:
                    c.bad(R_PAIR, fn, "pair", "the numbers are shifted against the documents of the batch", e.where)
                elif d[1] != L:
                    c.decide(False if d[1] in e.loops and L in e.loops else None, R_PAIR, fn, "pair",
                             "every document of the batch is recorded under every number of the batch", e.where)
                elif keep and k2:
                    c.ok(R_PAIR, fn, "pair", "number and document of the same place", e.where)
                else:
                    c.bad(R_PAIR, fn, "pair", "numbers and documents of the batch are not taken in the same order", e.where)
            elif d.op == "item" and d[0].op == "param":
                self.roles.setdefault(d[0][-1], "ids")
                if is_const(d[1]):
                    c.bad(R_PAIR, fn, "pair", "all documents of a batch are recorded under one number", e.where)
                elif d[1].op == "idx":
                    c.decide(True if d[1][0] == L and keep else False if d[1][0] != L and d[1][0] in e.loops else None, R_PAIR, fn, "pair",
                             "the number is not that of the document at hand", e.where)
                elif d[1].op == "bin" and d[1][1].op == "idx" and d[1][1][0] == L and is_const(d[1][2]):
                    c.bad(R_PAIR, fn, "pair", "the number is that of another document of the batch", e.where)
                else:
                    c.unsure(R_PAIR, fn, "pair", show(d, 3), e.where)
            elif d.op == "item" and d[0].op == "call" and d[0][0] == "dict" and d[0][1] and d[0][1][0].op == "call" and d[0][1][0][0] == "zip":
                z = d[0][1][0][1]
                if len(z) == 2 and z[0].op == z[1].op == "param" and d[1].op == "item" and d[1][0] is s and is_const(d[1][1], 0):
                    self.roles.setdefault(z[1][-1], "ids")
                    c.decide(self.roles.get(z[0][-1]) == "keys", R_PAIR, fn, "pair", "numbers looked up by key", e.where)
                else:
                    c.unsure(R_PAIR, fn, "pair", "lookup", e.where)
            else:
                c.unsure(R_PAIR, fn, "pair", show(d, 3), e.where)
        # the field and the value
        field = next((x for x in sub_terms(F) if x.op == "elem" and copied_map(x[0]) is call), None)
        whole_item = None
        if field is None:
            whole_item = next((x for x in sub_terms(F) if x.op == "elem" and cut_map(x[0]) is call), None)
            if whole_item is not None and F is t("item", whole_item, const(0)):
                c.bad(R_VALS, fn, "fields", "only some of the fields of a document are recorded", e.where)
                return
        if field is None:
            c.unsure(R_VALS, fn, "field", f"field is {show(F, 4)}", e.where)
        else:
            loops.add(field[1])
            self.same(fn, "field", F, field, e)
            it = self.mapping_loop(ip, field)
            if it is not None:
                self.whole(fn, "fields", it, e, call)
        vals = t("item", call, field) if field is not None else None
        base = [x for x in sub_terms(V) if x.op == "elem" and x is not field and loop_of(x[1]) in e.loops]
        base = [x for x in base if not has(x[0], lambda y: y.op == "mcall" and y[1] == "docs") or self.comes(x[0], call, e)]
        if V.op == "elem" or base:
            v = V if V.op == "elem" else base[0]
            lid = loop_of(v[1])
            loops.add(lid)
            self.same(fn, "value", V, v, e)
            it = next((x for x in r.of("iter") if x.d["loop"] == lid), None)
            heap = it.heap if it is not None else e.heap
            ok, msg = self.values(ip, it.d["iter"] if it is not None else v[0], vals, call, heap, 0)
            c.decide(ok, R_VALS, fn, "values", msg, e.where)
        else:
            c.unsure(R_VALS, fn, "values", show(V, 4), e.where)

    def comes(self, x, call, e):
        return has(x, lambda y: y is call) or x.op == "cell"

    def mapping_loop(self, ip, el):
        it = ip.loopinfo.get(el[1])
        return it

    def whole(self, fn, what, it, e, call):
        """All fields are visited."""
        x = it
        while True:
            y, _ = copied(x)
            if y.op == "mcall" and y[1] in ("items", "keys") and not y[2]:
                y = y[0]
            if y is x:
                break
            x = y
        if x is call:
            self.c.ok(R_VALS, fn, what, "every field", e.where)
        elif x.op == "item" and isinstance(x[1], T) and x[1].op == "slice" or x.op == "call" and x[0] in ("itertools.islice", "itertools.takewhile", "filter"):
            self.c.bad(R_VALS, fn, what, "only some of the fields of a document are recorded", e.where)
        elif x.op in ("comp", "dictcomp") and x[-2] if x.op in ("comp", "dictcomp") else False:
            self.conds(fn, what, [x[-2]], e)
        else:
            self.c.unsure(R_VALS, fn, what, show(x, 3), e.where)

    def conds(self, fn, what, cs, e):
        self.c.unsure(R_VALS, fn, what, "filtered", e.where)

    def same(self, fn, what, got, want, e):
        """A key of the batch is the field (value) itself."""
        if got is want:
            self.c.ok(R_VALS, fn, what, f"the {what} itself", e.where)
        elif got.op == "mcall" and got[1] in CHANGES or got.op == "call" and got[0] in CASTS or got.op in ("bin", "fstr", "slice") or \
                got.op == "item" and isinstance(got[1], T) and got[1].op == "slice":
            self.c.bad(R_VALS, fn, what, f"the {what} recorded is {show(got, 3)}, not the one the corpus reported", e.where)
        else:
            self.c.unsure(R_VALS, fn, what, f"recorded under {show(got, 3)}", e.where)

    def values(self, ip, s, vals, call, heap, depth):
        """Are the elements of s all the values of the field, absent ones aside?"""
        if depth > 12:
            return None, "values"
        if vals is not None and s is vals:
            return True, "every value of the field"
        if s.op == "call" and s[0] in COPY and s[1] and not (s[0] == "itertools.chain" and len(s[1]) > 1):
            return self.values(ip, s[1][0], vals, call, heap, depth + 1)
        if s.op == "call" and s[0] in ("filter",) and len(s[1]) == 2:
            if is_const(s[1][0], None):
                return False, "values that are false in Python (0, '') are left out"
            return None, "filtered values"
        if s.op == "call" and s[0] in ("itertools.islice", "itertools.takewhile", "itertools.dropwhile", "heapq.nlargest", "heapq.nsmallest", "random.sample"):
            return False, "only some of the values of a field are recorded"
        if s.op == "mcall" and s[1] in ("keys", "copy") and not s[2]:
            return self.values(ip, s[0], vals, call, heap, depth + 1)
        if s.op == "mcall" and s[1] in ("difference",) and len(s[2]) == 1:
            return self.values(ip, t("bin", "-", s[0], s[2][0]), vals, call, heap, depth + 1)
        if s.op == "item" and isinstance(s[1], T) and s[1].op == "slice":
            ok, m = self.values(ip, s[0], vals, call, heap, depth + 1)
            part = any(isinstance(y, T) and not is_const(y, None) for y in s[1].args[:2])
            return (False if part and ok is True else None if part else ok), "only some of the values of a field are recorded" if part else m
        if s.op == "bin" and s[0] == "-":
            ok, m = self.values(ip, s[1], vals, call, heap, depth + 1)
            n = self.only_none(ip, s[2], heap)
            if n is None or not ok:
                return (None if n is None else ok), m
            return (True, m) if n else (False, "values other than absent ones are taken out")
        if s.op == "bin" and s[0] in ("&", "^"):
            return False, "values are dropped by a set operation"
        if s.op == "upd":
            op, b, a = s[0], s[1], s[2]
            ok, m = self.values(ip, b, vals, call, heap, depth + 1)
            if not ok:
                return ok, m
            if op in ("remove", "delitem"):
                return (True, m) if all(is_const(x, None) for x in a[:1]) else (False if is_const(a[0]) else None, "a value other than the absent one is taken out")
            if op in ("pop", "clear", "inter"):
                return False, f"values are taken out ({op})"
            if op == "minus":
                n = self.only_none(ip, a[0], heap)
                return (None if n is None else n), "values other than absent ones are taken out"
            if op in ("sort", "reverse"):
                return True, m
            if op in ("add", "insert") and a and is_const(a[-1]):
                return False, f"{show(a[-1])} is recorded for every document"
            return None, f"values changed by {op}"
        if s.op == "comp":
            return self.comp(ip, s, vals, call, heap, depth)
        if s.op == "phi":
            got = [self.values(ip, o, vals, call, heap, depth + 1) for o in s.args]
            bad = [g for g in got if g[0] is False]
            return bad[0] if bad else (None, "values") if any(g[0] is None for g in got) else got[0]
        if s.op == "cell":
            x = ip.shape(s, heap)
            if x is not s:
                return self.values(ip, x, vals, call, heap, depth + 1)
        if s.op == "ite":
            return self.values(ip, t("phi", *s.args[1:]), vals, call, heap, depth + 1)
        return None, f"values from {show(s, 3)}"

    def only_none(self, ip, x, heap):
        x = ip.shape(x, heap)
        if x.op in ("set", "list", "tuple", "frozenset"):
            if all(is_const(a) for a in x.args):
                return all(is_const(a, None) for a in x.args)
        if x.op == "call" and x[0] in ("set", "frozenset") and x[1]:
            return self.only_none(ip, x[1][0], heap)
        return None

    def comp(self, ip, s, vals, call, heap, depth):
        kind, elt, cs, loops = s[0], s[1], s[2], s[3]
        el = next((x for x in sub_terms(elt) if x.op == "elem"), None)
        if el is None or len(loops) != 1:
            return None, "comprehension"
        ok, m = self.values(ip, el[0], vals, call, heap, depth + 1)
        if not ok:
            return ok, m
        if elt is not el:
            if elt.op == "mcall" and elt[1] in CHANGES or elt.op == "call" and elt[0] in CASTS or elt.op in ("bin", "fstr"):
                return False, f"the value recorded is {show(elt, 3)}, not the one the corpus reported"
            return None, "values are changed"
        for k in cs:
            v, msg = cond_of(k, el)
            if v is not True:
                return v, msg
        return True, m

    # -------------------------------------------------------------------- every iteration does it
    def cover(self, fn, loops):
        c = self.c
        notes = []
        sites = {(e.where, e.d["ref"]) for e, *_ in self.occ}

        def is_work(ev):
            return ev.kind == "mutate" and (ev.where, ev.d["ref"]) in sites

        def skippable(facts, look):
            for f, v in facts.items():
                r = harmless(f, v, self.index_call)
                if r is True:
                    return True
                if r is None:
                    notes.append(show(f, 4))
                    return True
            return False

        mon = Cover(loops, is_work, skippable)
        r = self.lab.run_worker(self.work, max_states=16, monitors=[mon], key=("c05cover", c.pid))
        flagged = []
        for k, v, st in r.outs:
            if k == "return":
                flagged += dict(st.mon["coverage"]).get("!", ())
        flagged += mon.early
        if flagged:
            c.bad(R_VALS, fn, "skipped", "a document, field or value of the batch is passed over without being recorded", flagged[0])
        elif notes:
            c.unsure(R_VALS, fn, "skipped", f"skipped when {notes[0]}")
        else:
            c.ok(R_VALS, fn, "every document, field and value", f"{len(loops)} loops")

    # ==================================================================== rows of a batch
    def rows(self, fn, r):
        c, ip = self.c, r.ip
        if self.segtable is None:
            c.unsure(R_ROW, fn, "rows", "the segment table of the merge was not recognised")
            return
        occ = getattr(self, "occ", None)
        if not occ:
            c.unsure(R_ROW, fn, "rows", "sets of the batch not recognised")
            return
        e0, B, sym, d, keys = occ[0]
        tail = [k for k in keys[::-1]]
        path = []
        for k in tail:
            if isinstance(k, T) and not is_const(k):
                break
            path.insert(0, k[0] if isinstance(k, T) else k)
        cols = [x.lower() for x in self.columns(self.segtable)]
        found = False
        loops = set()
        sites = set()
        seen = set()
        for e in r.of("sql"):
            if not is_const(e.d["sql"]) or e.d["word"] not in ("insert", "replace"):
                continue
            try:
                s, ps = parse(e.d["sql"][0])
            except SqlError:
                continue
            if s.op != "insert" or low(s[2]) != self.segtable:
                continue
            found = True
            sites.add(e.where)
            names = [low(x) for x in s[3]] if s[3] is not None else cols
            if s[0] in ("ignore",):
                c.bad(R_ROW, fn, "ignored", "rows of a batch that conflict with those of another are dropped", e.where)
            pos = self.value_positions(s, names)
            p = ip.shape(e.d["params"], e.heap) if isinstance(e.d["params"], T) else None
            if pos is None or p is None:
                c.unsure(R_ROW, fn, "rows", "values of the insert", e.where)
                continue
            if e.d["how"] == "executemany":
                opts = []
                for o in options(p):
                    if o.op in ("comp",):
                        for k in o[2]:
                            v, msg = self.row_cond(k)
                            c.decide(v, R_ROW, fn, "rows filtered", msg, e.where)
                        opts += options(o[1])
                    else:
                        c.unsure(R_ROW, fn, "rows", f"rows from {show(o, 3)}", e.where)
            else:
                opts = options(p)
            for o in opts:
                row = {n: argument(o, i, ip, e.heap) for n, i in pos.items() if i is not None}
                row = {n: v for n, v in row.items() if v is not None}
                k = (e.where, o)
                if k not in seen:
                    seen.add(k)
                    self.one_row(fn, r, e, row, B, path, loops)
        if not found:
            c.unsure(R_ROW, fn, "rows", "no insert into the segment table")
            return
        if loops:
            self.row_cover(fn, loops, sites)

    def columns(self, table):
        cat = self.lab.catalogue("segment")
        return [x[0] for x in cat.columns(table)]

    def value_positions(self, s, names):
        """column -> index of the bound value"""
        src = s[4]
        if src.op != "select" or any(jt != "values" for jt, *_ in src[1]) or len(src[0]) != len(names):
            return None
        return {nm: v[0] if isinstance(v, T) and v.op == "param" else None for nm, (v, _) in zip(names, src[0])}

    def row_cond(self, k):
        f, v = k if isinstance(k, tuple) and len(k) == 2 else (k, True)
        if isinstance(f, T):
            if f.op in ("truth",) and v:
                return True, "empty sets are not written"
            if is_size(f):
                return (True, "empty sets are not written") if size_test(f, v) else (False, "features are left out of a batch by the size of their document set")
            if f.op == "cmp" and is_const(sided(f)[2], None):
                return None, "filtered rows"
            if f.op in ("cell", "item", "call", "elem"):
                return (True, "empty sets are not written") if f.op != "elem" else (False, "features are left out of a batch by their value")
        return None, "filtered rows"

    def keys_of(self, ip, x, B, heap, depth=0):
        """Does iterating x give every key of B? True / False / None"""
        if depth > 8:
            return None
        if x is B:
            return True
        if x.op == "call" and x[0] in COPY and x[1]:
            return self.keys_of(ip, x[1][0], B, heap, depth + 1)
        if x.op == "mcall" and x[1] in ("keys", "items", "copy") and not x[2]:
            return self.keys_of(ip, x[0], B, heap, depth + 1)
        if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice":
            inner = self.keys_of(ip, x[0], B, heap, depth + 1)
            part = any(isinstance(y, T) and not is_const(y, None) for y in x[1].args[:2])
            return (False if inner else None) if part else inner
        if x.op == "call" and x[0] == "itertools.islice":
            return False
        if x.op == "comp":
            el = x[1] if x[1].op == "elem" else None
            if el is None:
                return None
            if x[2]:
                return None
            return self.keys_of(ip, el[0], B, heap, depth + 1)
        if x.op == "cell":
            y = heap.get(x)
            if y is not None and y is not x:
                return self.keys_of(ip, y, B, heap, depth + 1)
        return None

    def one_row(self, fn, r, e, row, B, path, loops):
        c, ip = self.c, r.ip
        need = {k: self.segcols.get(k) for k in ("field", "value", "docs_count", "doc_ids")}
        docs = row.get(need["doc_ids"])
        f, v, n = row.get(need["field"]), row.get(need["value"]), row.get(need["docs_count"])
        if docs is None or f is None or v is None:
            c.unsure(R_ROW, fn, "row", "columns of a row", e.where)
            return
        # documents: path into the batch
        x, tail = docs, []
        while x.op == "item" and is_const(x[1]):
            tail.insert(0, x[1][0])
            x = x[0]
        ks = []
        while x.op == "item":
            k = x[1]
            ks = (list(k.args) if isinstance(k, T) and k.op == "tuple" else [k]) + ks
            x = x[0]
        if x is not B:
            c.unsure(R_ROW, fn, "documents", f"document set {show(docs, 4)}", e.where)
            return
        if tail != path:
            c.bad(R_ROW, fn, "documents", "the document column of a batch is filled with another set than the one that holds its documents", e.where)
            return
        if len(ks) == 1 and ks[0].op == "elem" and f.op == "item" and v.op == "item" and f[0] is ks[0]:
            ks = [t("item", ks[0], const(0)), t("item", ks[0], const(1))]
        if len(ks) != 2:
            c.unsure(R_ROW, fn, "documents", "keys of the set", e.where)
            return
        if ks[0] is f and ks[1] is v:
            c.ok(R_ROW, fn, "documents", "the set of the row's own field and value", e.where)
        elif ks[0] is v and ks[1] is f:
            c.bad(R_ROW, fn, "documents", "field and value are exchanged", e.where)
        elif isinstance(f, T) and isinstance(v, T) and (f.op in ("elem", "call", "mcall", "const") or v.op in ("elem", "call", "mcall", "const")):
            c.bad(R_ROW, fn, "documents", f"the set of another feature is written with ({show(f, 3)}, {show(v, 3)})", e.where)
        else:
            c.unsure(R_ROW, fn, "documents", "keys of the set", e.where)
        if n is not None:
            if n.op == "call" and n[0] == "len" and n[1][0] is docs or n.op == "mcall" and n[1] == "__len__" and n[0] is docs:
                c.ok(R_ROW, fn, "count", "size of the set", e.where)
            elif n.op == "call" and n[0] == "len" or is_const(n) or n.op == "bin" and has(n, lambda y: y is docs):
                c.bad(R_ROW, fn, "count", f"the document count is {show(n, 4)}, not the size of the document set", e.where)
            else:
                c.unsure(R_ROW, fn, "count", show(n, 3), e.where)
        # every key
        inner = B
        for what, k in (("fields", ks[0]), ("values", ks[1])):
            if k.op == "elem":
                ok = self.keys_of(ip, k[0], inner, e.heap)
                c.decide(ok, R_ROW, fn, what, f"only some of the {what} of the batch are written" if ok is False else f"every one of the {what}", e.where)
                if k[1] in e.loops:
                    loops.add(k[1])
                inner = t("item", inner, k)
            elif k.op == "item" and k[0].op == "elem":
                if what == "fields":
                    ok = self.keys_of(ip, k[0][0], B, e.heap)
                    c.decide(ok, R_ROW, fn, "features", "only some of the features of the batch are written" if ok is False else "every feature", e.where)
                if k[0][1] in e.loops:
                    loops.add(k[0][1])

    def row_cover(self, fn, loops, sites):
        c = self.c
        notes = []

        def is_work(ev):
            return ev.kind == "sql" and ev.where in sites

        def skippable(facts, look):
            for f, v in facts.items():
                if f.op == "truth" and not v and f[0].op == "item" and f[0][0].op in ("item", "cell"):
                    return True
                if is_size(f) and size_test(f, not v):
                    return True
                if f.op == "cmp" and f[0] in ("in", "not in") and f[2].op in ("cell", "mu"):
                    notes.append(show(f, 4))
                    return True
            return False

        mon = Cover(loops, is_work, skippable)
        r = self.lab.run_worker(self.work, max_states=16, monitors=[mon], key=("c05rows",))
        flagged = list(mon.early)
        for k, v, st in r.outs:
            if k == "return":
                flagged += dict(st.mon["coverage"]).get("!", ())
        if flagged:
            c.bad(R_ROW, fn, "skipped", "a feature of the batch is passed over without being written", flagged[0])
        elif notes:
            c.unsure(R_ROW, fn, "skipped", notes[0])
        else:
            c.ok(R_ROW, fn, "every feature of the batch is written")

    def saved(self, fn, r, q):
        """No transaction is open on the segment when a worker returns, and rows were written before."""
        c = self.c
        conns = {e.d["conn"] for e in r.of("sql") if e.d["word"] in ("insert", "replace", "create")}
        if len(conns) != 1:
            c.unsure(R_SAVE, fn, "commit", "no single segment connection")
            return
        conn = next(iter(conns))
        txn = Txn(lambda x: x is conn, (), "segtxn")
        rr = self.lab.run_worker(q, max_states=8, monitors=[Saved(conn)], key=("c05save",))
        mon = next(m for m in rr.ip.monitors if isinstance(m, Saved))
        bad = mon.lost
        if bad:
            c.bad(R_SAVE, fn, "commit", "the batch is not committed before the worker closes its file: its documents are lost", bad[0])
        else:
            c.ok(R_SAVE, fn, "commit", "committed before the file is closed")
        paths = [x for x in sub_terms(conn) if x.op == "param"]
        for p in paths:
            if self.roles.get(p[-1]) is None:
                self.roles[p[-1]] = "path"

    # ==================================================================== batches
    def batches(self):
        c, lab = self.c, self.lab
        mon = Batch()
        r = lab.run_method(self.cls, "index", monitors=[Keep(), mon], max_states=24, key=("c05",), prep=lambda ip, obj, st: st)
        ip = r.ip
        self.mus = ip.mus
        fn = "Index.index"
        its = [e for e in r.of("iter") if listing(e.d["iter"])]
        loops = []
        for e in its:
            if e.d["loop"] not in loops:
                loops.append(e.d["loop"])
        if not loops:
            c.unsure(R_KEY, fn, "keys", "the loop over the keys of the corpus was not recognised")
            return
        L = loops[0]
        it = next(e for e in its if e.d["loop"] == L)
        self.key_loop(fn, it)
        row = self.key_rows(fn, r, L)
        subs = [e for e in r.of("submit") if self.work and any(ip.fqual(f) == self.work for f in options(e.d["f"]))]
        if not subs:
            c.unsure(R_BATCH, fn, "dispatch", "no dispatch of the indexing worker")
            return
        self.dispatch(fn, r, L, subs, row, mon)

    def key_loop(self, fn, it):
        x, keep = copied(it.d["iter"])
        if x.op == "mcall" and x[1] == "keys":
            self.c.ok(R_KEY, fn, "every key", "the loop runs over all keys of the corpus", it.where)
        elif x.op == "item" and isinstance(x[1], T) and x[1].op == "slice" or x.op == "call" and x[0] in ("itertools.islice", "filter", "itertools.takewhile", "random.sample"):
            self.c.bad(R_KEY, fn, "every key", "only some of the keys of the corpus are indexed", it.where)
        else:
            self.c.unsure(R_KEY, fn, "every key", show(x, 3), it.where)

    def role_of(self, x, L):
        """number / key of the document of this iteration"""
        if x.op == "idx" and x[0] == L:
            return "ids"
        if x.op == "bin" and x[0] == "+" and x[1].op == "idx" and x[1][0] == L and is_const(x[2]):
            return "ids"
        if x.op in ("elem",) and x[-1] == L and not x[0].op == "call":
            return "keys"
        if x.op == "elem" and x[-1] == L and copied(x[0])[0].op in ("mcall", "param", "attr"):
            return "keys"
        y = x[1] if x.op == "bin" and x[0] in ("+", "-") and is_const(x[2]) else x
        if y.op == "mu" and self.mus.get(y, {}).get("loop") == L:
            d = self.mus[y]
            vals = [o for b in d["backs"] for o in options(b[0])]
            if d["backs"] and is_const(d["init"]):
                if all(o.op == "bin" and o[0] == "+" and o[1] is y and is_const(o[2]) and o[2][0] for o in vals):
                    return "ids"
                if all(is_const(o) or o is y or o.op == "bin" and o[0] == "+" and o[1] is y and is_const(o[2]) for o in vals):
                    return "repeats"
        return None

    def key_rows(self, fn, r, L):
        c, ip = self.c, r.ip
        cols = [x[0].lower() for x in self.lab.catalogue("index").columns("doc_key")]
        out = {}
        for e in r.of("sql"):
            if not is_const(e.d["sql"]) or e.d["word"] not in ("insert", "replace"):
                continue
            try:
                s, ps = parse(e.d["sql"][0])
            except SqlError:
                continue
            if s.op != "insert" or low(s[2]) != "doc_key":
                continue
            names = [low(x) for x in s[3]] if s[3] is not None else cols
            pos = self.value_positions(s, names)
            o = ip.shape(e.d["params"], e.heap) if isinstance(e.d["params"], T) else None
            if o is not None and o.op == "comp":
                o = o[1]
            if pos is None or o is None:
                c.unsure(R_KEY, fn, "row", "row of doc_key", e.where)
                continue
            got = {n: argument(o, i, ip, e.heap) for n, i in pos.items() if i is not None}
            a, b = got.get("doc_id"), got.get("doc_key")
            if a is None or b is None:
                c.unsure(R_KEY, fn, "row", "row of doc_key", e.where)
                continue
            ra, rb = self.role_of(a, L), self.role_of(b, L)
            if ra == "ids" and rb == "keys":
                c.ok(R_KEY, fn, "row", "own number and key", e.where)
                out = {"ids": a, "keys": b}
            elif ra == "repeats":
                c.bad(R_KEY, fn, "row", "different documents get the same number", e.where)
            elif ra == "keys" and rb == "ids":
                c.bad(R_KEY, fn, "row", "number and key of a document are exchanged", e.where)
            elif rb == "keys" and is_const(a) or ra == "ids" and is_const(b):
                c.bad(R_KEY, fn, "row", "documents share a number or key", e.where)
            else:
                c.unsure(R_KEY, fn, "row", f"({show(a, 3)}, {show(b, 3)})", e.where)
            if s[0] == "ignore":
                c.unsure(R_KEY, fn, "ignored", "conflicting rows are ignored", e.where)
        if not out:
            c.unsure(R_KEY, fn, "row", "no recognised row of doc_key")
        return out

    def arg_names(self, r, e):
        q = self.work
        f = r.ip.fns.get(q)
        names = f.posargs if f is not None else []
        out = dict(zip(names, e.d["args"]))
        out.update(e.d["kw"] if isinstance(e.d["kw"], dict) else dict(e.d["kw"] or ()))
        return out

    def dispatch(self, fn, r, L, subs, row, mon):
        c, ip = self.c, r.ip
        roles = {v: k for k, v in self.roles.items() if v in ("ids", "keys")}
        if set(roles) != {"ids", "keys"}:
            c.unsure(R_BATCH, fn, "dispatch", "the number and key arguments of the worker were not recognised")
            return
        mus = {}
        inside = [e for e in subs if L in e.loops]
        after = [e for e in subs if L not in e.loops]
        for e in subs:
            a = self.arg_names(r, e)
            for role, p in roles.items():
                v = a.get(p)
                if v is None:
                    c.unsure(R_BATCH, fn, f"{role} argument", "not passed by name or position", e.where)
                    continue
                v = ip.content(v, _H(e.heap))
                v0, keep = copied(v)
                if not keep:
                    c.bad(R_BATCH, fn, f"{role} order", "numbers and keys of a batch are handed over in different orders", e.where)
                base = norm(v0)
                while base.op == "upd":
                    base = base[1]
                if base.op == "item" and isinstance(base[1], T) and base[1].op == "slice" and root(base).op in ("mu", "cell"):
                    c.unsure(R_BATCH, fn, f"{role} argument", "part of a list", e.where)
                    continue
                if base.op != "mu" or base not in ip.mus or ip.mus[base]["loop"] != L:
                    c.unsure(R_BATCH, fn, f"{role} argument", f"list {show(v0, 3)}", e.where)
                    continue
                mus.setdefault(role, {}).setdefault(base, []).append((e, v0))
        if set(mus) == {"ids", "keys"} and len(mus["ids"]) == 2 and set(mus["ids"]) == set(mus["keys"]):
            c.bad(R_BATCH, fn, "dispatch", "numbers and keys are exchanged between the places where batches are handed over", subs[0].where)
            return
        if any(len(m) != 1 for m in mus.values()) or set(mus) != {"ids", "keys"}:
            c.unsure(R_BATCH, fn, "dispatch", "the lists of numbers and keys were not recognised")
            return
        M = {role: next(iter(m)) for role, m in mus.items()}
        if M["ids"] is M["keys"]:
            c.bad(R_BATCH, fn, "dispatch", "numbers and keys of a batch are the same list", subs[0].where)
            return
        want = {}
        for role, m in M.items():
            d = ip.mus[m]
            ic = d["init_content"]
            if not (isinstance(ic, T) and ic.op in ("list", "tuple", "set") and not ic.args):
                c.unsure(R_BATCH, fn, f"{role} start", "does not start empty")
        # paths through the loop
        n_back = 0
        for role, m in M.items():
            d = ip.mus[m]
            for val, content, facts, mn in d["backs"]:
                n_back += 1
                b = mn.get("batch")
                hist = b[1] if b else ()
                for o in options(content):
                    self.back(fn, role, m, o, hist, L, row, inside)
        self.together(fn, M, ip)
        # changed after hand over
        for w, role in mon.late:
            c.bad(R_BATCH, fn, "changed after dispatch", "a list is changed after it was handed to a worker, which may not have read it yet", w)
        if not mon.late:
            c.ok(R_BATCH, fn, "not changed after dispatch")
        # rest
        self.rest(fn, r, L, after, inside, M, ip)
        c.count("paths through the numbering loop", n_back)
        # cut short
        if mon.cut(L):
            c.bad(R_KEY, fn, "cut short", "the loop over the keys can end before all keys were numbered", mon.cut(L))

    def back(self, fn, role, m, o, hist, L, row, inside):
        c = self.c
        what = "numbers" if role == "ids" else "keys"
        sent = [h for h in hist if h[0] == "submit"]
        adds, x, odd = [], norm(o), None
        while x.op == "upd":
            if x[0] in ("add", "insert") and x[2]:
                adds.insert(0, x[2][-1])
            elif x[0] in ("clear",):
                break
            else:
                odd = x[0]
            x = x[1]
        if odd is not None:
            c.unsure(R_BATCH, fn, f"{role} path {odd}", f"the list of {what} is changed by {odd}")
            return
        start = "same" if x is m else "fresh" if x.op in ("list", "tuple") or x.op == "upd" and x[0] == "clear" else None
        if x.op in ("list", "tuple"):
            adds = list(x.args) + adds
        if start is None:
            c.unsure(R_BATCH, fn, f"{role} path", f"list {show(x, 3)}")
            return
        adds_sent = [y for h in sent if self.sent_of(h, m) is not None for y in self.added(self.sent_of(h, m))]
        mine = [a for a in adds if self.role_of(a, L) == role]
        other = [a for a in adds + adds_sent if self.role_of(a, L) not in (role, None)]
        strange = [a for a in adds + adds_sent if self.role_of(a, L) is None]
        if other:
            c.bad(R_BATCH, fn, f"{role} swapped", f"the list of {what} receives {show(other[0], 3)}")
            return
        if strange:
            c.unsure(R_BATCH, fn, f"{role} path", f"list of {what} receives {show(strange[0], 3)}")
            return
        if row and any(a is not row[role] for a in mine):
            c.bad(R_BATCH, fn, f"{role} number", f"documents are sent to the worker with {show(mine[0], 3)} but stored with {show(row[role], 3)}")
            return
        # how often was this document handed over or kept?
        got = 0
        for h in sent:
            cont = self.sent_of(h, m)
            if cont is None:
                continue
            got += sum(1 for y in self.added(cont) if self.role_of(y, L) == role)
        if start == "same":
            if len(mine) == 1 and not sent:
                c.ok(R_BATCH, fn, f"{role} kept", "joins the open batch")
            elif not mine and not sent:
                c.bad(R_BATCH, fn, f"{role} skipped", f"on some path a document does not join any batch ({what})")
            elif sent and any(self.sent_of(h, m) is not None for h in sent):
                c.bad(R_BATCH, fn, f"{role} not reset", f"the list of {what} is not emptied after it was handed to a worker: its documents are sent again")
            elif len(mine) > 1:
                c.bad(R_BATCH, fn, f"{role} twice", "a document joins a batch twice")
            else:
                c.unsure(R_BATCH, fn, f"{role} path", "path")
        else:
            if not sent:
                c.bad(R_BATCH, fn, f"{role} dropped", f"the open batch is emptied without having been handed to a worker ({what})")
            elif len(mine) + got == 1:
                c.ok(R_BATCH, fn, f"{role} handed over", "emptied when handed over")
            elif len(mine) + got == 0:
                c.bad(R_BATCH, fn, f"{role} skipped", f"on some path a document does not join any batch ({what})")
            else:
                c.bad(R_BATCH, fn, f"{role} twice", f"a document joins two batches ({what})")

    def sent_of(self, h, m):
        """What a dispatch handed over of a list."""
        for x in h[2]:
            b = norm(copied(x)[0])
            while b.op == "upd":
                b = b[1]
            if b is m:
                return x
        return None

    def added(self, x):
        out = []
        x = norm(copied(x)[0])
        while x.op == "upd":
            if x[0] in ("add", "insert") and x[2]:
                out.append(x[2][-1])
            x = x[1]
        if x.op in ("list", "tuple"):
            out += list(x.args)
        return out

    def together(self, fn, M, ip):
        """Numbers and keys are emptied on the same paths."""
        def fresh(o, m):
            x = norm(o)
            while x.op == "upd" and x[0] != "clear":
                x = x[1]
            return x is not m
        a, b = ip.mus[M["ids"]]["backs"], ip.mus[M["keys"]]["backs"]
        if len(a) != len(b):
            self.c.unsure(R_BATCH, fn, "together", "paths")
            return
        for x, y in zip(a, b):
            if x[3] != y[3] or x[1].op == "phi" or y[1].op == "phi":
                continue
            if fresh(x[1], M["ids"]) != fresh(y[1], M["keys"]):
                self.c.bad(R_BATCH, fn, "together", "numbers and keys of a batch are not emptied together: later documents get the wrong number")
                return
        self.c.ok(R_BATCH, fn, "together", "numbers and keys are emptied on the same paths")

    def rest(self, fn, r, L, after, inside, M, ip):
        c = self.c
        if not after:
            ends = [e for e in inside]
            c.bad(R_BATCH, fn, "rest", "documents of the last batch are not handed to a worker after the loop")
            return
        endf = [dict(e.facts) for e in r.of("endloop") if e.d["loop"] == L]
        counters = self.counters(ip, L, M)
        for e in after:
            base = set()
            for f in endf:
                base |= set(f.items())
            extra = [(f, v) for f, v in e.facts.items() if (f, v) not in base]
            for f, v in extra:
                if any(e2 is not e and e2.facts.get(f) is (not v) for e2 in after):
                    continue
                if f.op in ("truth", "cmp") and (f[0] if f.op == "truth" else f[1]).op in ("mu", "res") and \
                        not has(f, lambda y: y in counters or y in M.values()) and (f.op == "truth" or is_const(f[2], None)):
                    continue
                ok = self.nonempty(f, v, M, counters)
                if ok is True or ok is None and not has(f, lambda y: y.op == "mu" and ip.mus.get(y, {}).get("loop") == L):
                    if ok is None and (f.op in ("truth", "cmp")) and has(f, lambda y: y.op == "param" and not has(f, lambda z: z.op in ("mu", "attr", "res"))):
                        c.bad(R_BATCH, fn, "rest", f"the last batch is only handed over when {show(f, 3)} is {v}", e.where)
                    continue
                c.decide(ok, R_BATCH, fn, "rest", f"the last batch is only handed over when {show(f, 4)} is {v}", e.where)
        c.ok(R_BATCH, fn, "rest is handed over", "after the loop", after[0].where)

    def counters(self, ip, L, M):
        """Loop values that are the length of the open batch."""
        out = set()
        ids = ip.mus[M["ids"]]["backs"]
        for m, d in ip.mus.items():
            if d["loop"] != L or not (isinstance(d["init"], T) and is_const(d["init"], 0)) or len(d["backs"]) != len(ids):
                continue
            good = True
            for x, y in zip(d["backs"], ids):
                for o in options(x[0]):
                    up = o.op == "bin" and o[0] == "+" and o[1] is m and is_const(o[2], 1)
                    zero = is_const(o, 0)
                    if not up and not zero:
                        good = False
            if good:
                out.add(m)
        return out

    def nonempty(self, f, v, M, counters):
        ms = set(M.values())
        size = lambda y: y in counters or y.op == "call" and y[0] == "len" and y[1] and y[1][0] in ms
        if f.op == "truth" and (f[0] in ms or size(f[0])):
            return v
        if f.op == "cmp":
            if f[0] in ("is", "==") and f[1] in ms | counters and is_const(f[2], None):
                return not v
            op, x, n = sided(f)
            if size(x) and is_const(n) and isinstance(n[0], int):
                return bool(size_test(t("cmp", op, x, n), v))
            if size(f[1]) or size(f[2]) if isinstance(f[2], T) else False:
                return False
        return None

    # ==================================================================== merge
    def resolver(self):
        sch = dict(schema_of(self.lab.catalogue("index")))
        try:
            sch = {**schema_of(self.lab.catalogue("segment")), **sch}
        except AnalysisError:
            pass
        return Resolver(sch), sch

    def merge_stmts(self):
        r = self.lab.run_method(self.cls, "index")
        res, sch = self.resolver()
        try:
            seg = set(schema_of(self.lab.catalogue("segment")))
        except AnalysisError:
            seg = set()
        main = set(schema_of(self.lab.catalogue("index")))
        out = []
        done = set()
        for e in r.of("sql"):
            if not is_const(e.d["sql"]) or not isinstance(e.d["sql"][0], str) or e.d["sql"] in done:
                continue
            done.add(e.d["sql"])
            try:
                s, ps = parse(e.d["sql"][0])
            except SqlError:
                continue
            if s.op == "insert" and s[4].op == "select":
                try:
                    q = res.select(s[4])
                except (SqlError, KeyError, TypeError, IndexError):
                    continue
                tabs = [i for jt, i, on, u in q[1] if i.op == "inst" and isinstance(i[0], str)]
                if any(low(i[0]) in seg for i in tabs):
                    out.append((e, s, q, [i for i in tabs if low(i[0]) in seg]))
        return out

    def merge_shape(self):
        for e, s, q, insts in self.merge_stmts():
            if low(s[2]) != "inverted_index" or len(insts) != 1:
                continue
            self.segtable = low(insts[0][0])
            names = [low(x) for x in s[3]] if s[3] is not None else [x[0].lower() for x in self.lab.catalogue("index").columns("inverted_index")]
            for n, (x, a) in zip(names, q[0]):
                cols = [y for y in sub_terms(x) if y.op == "c" and y[0] is insts[0]]
                if len({low(y[1]) for y in cols}) == 1 and n != "feature_id":
                    self.segcols[n] = low(cols[0][1])
        for n in ("field", "value", "docs_count", "doc_ids"):
            if self.segtable and n in [x.lower() for x in self.columns(self.segtable)]:
                self.segcols.setdefault(n, n)
                if self.segcols[n] in ("field", "value", "docs_count", "doc_ids"):
                    self.segcols[n] = n

    def merge(self):
        c = self.c
        fn = "Index.index"
        found = False
        for e, s, q, insts in self.merge_stmts():
            if low(s[2]) != "inverted_index":
                continue
            found = True
            self.one_merge(fn, e, s, q, insts)
        if not found:
            c.unsure(R_MERGE, fn, "merge", "no statement that merges the segments into the index was recognised")
        self.attached(fn)

    def one_merge(self, fn, e, s, q, insts):
        c = self.c
        w = e.where
        if len(insts) != 1:
            c.unsure(R_MERGE, fn, "source", "several segment tables", w)
            return
        iis = insts[0]
        names = [low(x) for x in s[3]] if s[3] is not None else [x[0].lower() for x in self.lab.catalogue("index").columns("inverted_index")]
        if len(names) != len(q[0]):
            c.unsure(R_MERGE, fn, "columns", "columns", w)
            return
        m = {n: x for n, (x, a) in zip(names, q[0])}
        frm, where, group, having, order, limit, distinct, compound = q[1], list(q[2]), q[3], q[4], q[5], q[6], q[7], q[8] if len(q.args) > 8 else ()
        isc = lambda x, n: x.op == "c" and x[0] is iis and low(x[1]) == n
        # rows
        others = [(jt, i) for jt, i, on, u in frm if i is not iis]
        for jt, i in others:
            if low(str(jt)) in ("inner", "join", ",", "cross", "from"):
                c.bad(R_MERGE, fn, "rows", f"only features that are also in {show(i, 2)} are merged", w) if i.op == "inst" and low(i[0]) == "inverted_index" \
                    else c.unsure(R_MERGE, fn, "rows", "joined", w)
        for x in where:
            if others and any(y.op == "c" and y[0] is not iis for y in sub_terms(x)):
                c.unsure(R_MERGE, fn, "rows", "condition over a join", w)
                continue
            v = self.row_filter(x, iis)
            c.decide(v, R_MERGE, fn, f"rows {show(x, 4)}", f"rows of a batch are left out of the merge by {show(x, 4)}", w)
        if having is not None:
            v = self.row_filter(having, iis)
            c.decide(v, R_MERGE, fn, "having", f"features are left out of the merge by {show(having, 4)}", w)
        if limit is not None:
            c.bad(R_MERGE, fn, "limit", "only a limited number of features is merged", w)
        if compound:
            c.unsure(R_MERGE, fn, "compound", "compound select", w)
        # grouping
        gs = {low(g[1]) for g in group if g.op == "c" and g[0] is iis}
        if s[5] is None or s[5].op != "do_update" or group:
            if not group:
                c.bad(R_MERGE, fn, "group", "the rows of different batches are not combined per feature", w)
            elif gs == {"field", "value"} and len(group) == 2:
                c.ok(R_MERGE, fn, "group", "by field and value", w)
            elif gs and len(gs) == len(group):
                c.bad(R_MERGE, fn, "group", f"rows are combined by {', '.join(sorted(gs))}, not by field and value", w)
            else:
                c.unsure(R_MERGE, fn, "group", "grouping", w)
        # columns
        for n in ("field", "value"):
            x = m.get(n)
            if x is None:
                c.unsure(R_MERGE, fn, n, "not given", w)
            elif isc(x, n):
                c.ok(R_MERGE, fn, n, "taken from the segment", w)
            elif x.op == "c" and x[0] is iis or x.op == "fn" or x.op == "lit":
                c.bad(R_MERGE, fn, n, f"the {n} of a merged feature is {show(x, 3)}", w)
            else:
                c.unsure(R_MERGE, fn, n, show(x, 3), w)
        x = m.get("docs_count")
        if x is None:
            c.unsure(R_MERGE, fn, "docs_count", "not given", w)
        elif x.op == "fn" and low(x[0]) in ("sum", "total") and isc(x[-1], "docs_count") and not (len(x.args) > 2 and x[1] is True):
            c.ok(R_MERGE, fn, "docs_count", "sum of the disjoint batches", w)
        elif x.op == "fn" and low(x[0]) in ("sum", "total", "count", "max", "min", "avg") or x.op in ("c", "lit"):
            c.bad(R_MERGE, fn, "docs_count", f"the document count of a merged feature is {show(x, 4)}, not the sum over its batches", w)
        else:
            c.unsure(R_MERGE, fn, "docs_count", show(x, 3), w)
        x = m.get("doc_ids")
        ag = {low(n) for n, k in self.lab.aggregates()[0]}
        if x is None:
            c.unsure(R_MERGE, fn, "doc_ids", "not given", w)
        elif x.op == "fn" and low(x[0]) in ag and isc(x[-1], "doc_ids"):
            c.ok(R_MERGE, fn, "doc_ids", "union over the batches", w)
            self.agg = low(x[0])
        elif x.op == "c" or x.op == "lit" or x.op == "fn" and low(x[0]) in ag | {"max", "min", "group_concat"}:
            c.bad(R_MERGE, fn, "doc_ids", f"the documents of a merged feature are {show(x, 4)}, not the union over its batches", w)
        else:
            c.unsure(R_MERGE, fn, "doc_ids", show(x, 3), w)
        # what happens to features that are already there
        if s[0] == "ignore" or s[5] is not None and s[5].op == "do_nothing":
            c.bad(R_MERGE, fn, "conflict", "features that are already known keep their emptied document set", w)
        elif s[5] is not None and s[5].op == "do_update":
            ups = {low(n): v for n, v in s[5][1]}
            for n in ("docs_count", "doc_ids"):
                if n not in ups:
                    c.bad(R_MERGE, fn, f"conflict {n}", f"{n} of a known feature is not updated", w)
                elif ups[n].op == "col" and low(ups[n][0]) == "excluded":
                    c.decide(low(ups[n][1]) == n, R_MERGE, fn, f"conflict {n}", f"{n} of a known feature is set to {low(ups[n][1])}", w)
                else:
                    c.unsure(R_MERGE, fn, f"conflict {n}", show(ups[n], 3), w)
            if len(s[5].args) > 2 and s[5][2] is not None:
                c.unsure(R_MERGE, fn, "conflict where", "conditional update", w)

    # ==================================================================== field summary
    def summary(self):
        """What is written to field_summary, column by column."""
        c, fn = self.c, "Index.index"
        r = self.lab.run_method(self.cls, "index")
        cat = self.lab.catalogue("index")
        if "field_summary" not in [x.lower() for x in cat.tables()]:
            return c.unsure(R_SUMMARY, fn, "table", "no table field_summary")
        res, sch = self.resolver()
        done, ins, later = set(), [], set()
        for e in r.of("sql"):
            if not is_const(e.d["sql"]) or not isinstance(e.d["sql"][0], str) or e.d["sql"] in done:
                continue
            done.add(e.d["sql"])
            try:
                s, ps = parse(e.d["sql"][0])
            except SqlError:
                continue
            if s.op == "insert" and low(s[2]) == "field_summary":
                ins.append((e, s))
            elif s.op == "update" and low(s[2]) == "field_summary":
                later |= {low(n) for n, v in s[4]}
        if len(ins) != 1 or ins[0][1][4].op != "select":
            return c.unsure(R_SUMMARY, fn, "statement", f"{len(ins)} statements fill field_summary")
        e, s = ins[0]
        try:
            q = res.select(s[4])
        except (SqlError, KeyError, TypeError, IndexError):
            return c.unsure(R_SUMMARY, fn, "statement", "the statement that fills field_summary is not understood", e.where)
        names = [low(x) for x in s[3]] if s[3] is not None else [x[0].lower() for x in cat.columns("field_summary")]
        insts = [i for jt, i, on, u in q[1]]
        w = e.where
        if len(insts) != 1 or insts[0].op != "inst" or low(insts[0][0]) != "inverted_index" or q[8] or len(names) != len(q[0]):
            return c.unsure(R_SUMMARY, fn, "source", "the field summary is not computed from the features alone", w)
        ii = insts[0]
        col = lambda x: low(x[1]) if isinstance(x, T) and x.op == "c" and x[0] is ii else None
        # rows
        gs = {col(g) for g in q[3]}
        c.decide(True if gs == {"field"} else False if None not in gs else None, R_SUMMARY, fn, "one row per field",
                 "the field summary is not grouped by field" if gs != {"field"} else "grouped by field", w)
        for x in q[2]:
            v = self.stored(x, ii, col)
            c.decide(v, R_SUMMARY, fn, f"rows {show(x, 3)}", f"features are left out of the field summary by {show(x, 4)}" if v is not True else "features with documents", w)
        c.decide(None if q[4] is not None else True, R_SUMMARY, fn, "having", "condition on groups", w)
        if q[6] is not None:
            c.bad(R_SUMMARY, fn, "limit", "only a limited number of fields is summarised", w)
        # columns
        for n, (x, a) in zip(names, q[0]):
            if n in later:
                c.unsure(R_SUMMARY, fn, n, "updated afterwards", w)
                continue
            v = {"field": self.sum_field, "distinct_values": self.sum_distinct, "min_value": lambda x, k: self.sum_end(x, k, "min"),
                 "max_value": lambda x, k: self.sum_end(x, k, "max"), "position_count": self.sum_positions}.get(n, lambda x, k: None)(x, col)
            c.decide(v, R_SUMMARY, fn, n, f"{n} of the field summary is {show(x, 4)}" if v is not True else "of the features of the field", w)

    def stored(self, x, ii, col):
        """Does a condition only leave out features without documents (True), some with documents (False)?"""
        if x.op == "cmp" and x[0] in ("<", ">", "<=", ">=", "!=", "="):
            a, b, op = x[1], x[2], x[0]
            if is_lit(a):
                a, b, op = b, a, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if is_lit(b) and col(a) is not None:
                if col(a) == "docs_count" and isinstance(b[0], (int, float)):
                    return {">": b[0] < 1, ">=": b[0] <= 1, "!=": b[0] == 0}.get(op, False)
                return False
        return None

    def sum_field(self, x, col):
        return col(x) == "field" if col(x) or is_lit(x) else None

    def sum_distinct(self, x, col):
        if x.op == "fn" and low(x[0]) == "count" and len(x.args) == 3:
            return x[2].op == "star" or is_lit(x[2]) and x[2][0] is not None and not x[1] or col(x[2]) in ("value", "feature_id") or (not x[1] and col(x[2]) is not None)
        return False if x.op == "lit" or col(x) or x.op == "fn" and low(x[0]) in ("sum", "max", "min", "total", "avg") else None

    def sum_end(self, x, col, end):
        if x.op == "fn" and low(x[0]) in ("min", "max") and len(x.args) == 3 and col(x[2]):
            return low(x[0]) == end and col(x[2]) == "value"
        return False if x.op == "lit" or col(x) or x.op == "fn" and low(x[0]) in ("sum", "count", "total", "avg") else None

    def sum_positions(self, x, col):
        if x.op == "fn" and low(x[0]) in ("coalesce", "ifnull", "max") and len(x.args) == 4:
            rest = [y for y in x.args[2:] if not (is_lit(y) and y[0] in (0, 0.0))]
            if len(rest) == 1 and any(is_lit(y) for y in x.args[2:]):
                return self.sum_positions(rest[0], col)
        if x.op == "lit" or col(x) or x.op == "fn" and all(col(y) or y.op in ("star", "lit") for y in x.args[2:]) and low(x[0]) in ("sum", "count", "total", "min", "max"):
            return False              # a feature of the index has no positions of its own
        if x.op != "sub":
            return None
        q = x[0]
        insts = {i: low(i[0]) for jt, i, on, u in q[1] if i.op == "inst" and isinstance(i[0], str)}
        if q[3] or q[4] is not None or q[8] or len(q[0]) != 1 or len(insts) != len(q[1]):
            return None
        if q[6] is not None and q[6] != t("lit", None):
            return None
        y = q[0][0][0]
        while y.op == "fn" and low(y[0]) in ("coalesce", "ifnull") and is_lit(y[-1]) and y[-1][0] in (0, 0.0):
            y = y[2]
        if y.op != "fn" or low(y[0]) not in ("sum", "total", "count", "min", "max", "avg") or len(y.args) != 3:
            return None
        if low(y[0]) not in ("sum", "total") or y[1]:
            return False
        if not (y[2].op == "c" and insts.get(y[2][0]) == "position_index"):
            return False if y[2].op in ("c", "lit") else None
        if low(y[2][1]) != "position_count":
            return False
        if any(jt not in ("inner", "from", "cross") for jt, i, on, u in q[1]):
            return None
        joined = own = False
        for z in q[2]:
            if z.op == "cmp" and z[0] in ("=", "is") and z[1].op == "c" and z[2].op in ("c", "col"):
                pass
            elif z.op == "cmp" and z[0] in ("=", "is") and z[2].op == "c" and z[1].op in ("c", "col"):
                pass
            else:
                v = any(u.op == "c" and insts.get(u[0]) == "position_index" and low(u[1]) == "position_count" for u in z.args if isinstance(u, T)) and \
                    any(is_lit(u) and u[0] == 0 for u in z.args if isinstance(u, T)) and z[0] in ("<", ">", "!=")
                if not v:
                    return None
                continue
            a = [(insts.get(u[0]) if u.op == "c" else "outer", low(u[1])) for u in (z[1], z[2])]
            kinds = {k if k is not None else "outer" for k, n in a}
            ns = {n for k, n in a}
            if kinds == {"position_index", "inverted_index"} and ns == {"feature_id"}:
                joined = True
            elif kinds == {"inverted_index", "outer"} and ns == {"field"}:
                own = True
            elif kinds == {"inverted_index"} and ns == {"field"}:
                return False          # compared with itself
            else:
                return None
        if sorted(insts.values()) == ["inverted_index", "position_index"]:
            return joined and own
        return False if sorted(insts.values()) == ["position_index"] and not q[2] else None

    def row_filter(self, x, iis):
        """Does a condition keep every row of the segment?"""
        cols = [y for y in sub_terms(x) if y.op == "c" and y[0] is iis]
        if x.op in ("notnull", "isnot") and cols:
            return True
        if x.op == "not" and isinstance(x[0], T) and x[0].op in ("isnull",):
            return True
        if x.op == "cmp" and cols and len(cols) == 1:
            a, op, b = x[1], x[0], x[2]
            if is_lit(a):
                a, b = b, a
                op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if is_lit(b):
                n = low(cols[0][1])
                v = b[0]
                if op in ("is not", "isnot") and v is None:
                    return True
                if n in ("docs_count",) and isinstance(v, (int, float)):
                    return op == ">" and v <= 0 or op == ">=" and v <= 1 or op in ("!=", "<>") and v == 0
                if isinstance(v, (int, float, str)):
                    return False
        if cols and x.op in ("in", "like", "between"):
            return False
        return None

    def attached(self, fn):
        """The file that is merged is the one the workers write."""
        c = self.c
        r = self.lab.run_method(self.cls, "index")
        ip = r.ip
        path = next((p for p, v in self.roles.items() if v == "path"), None)
        att = [e for e in r.of("sql") if e.d["word"] == "attach"]
        if path is None or not att:
            c.unsure(R_SAVE, fn, "file", "segment file")
            return
        sent = set()
        for e in r.of("submit"):
            if any(ip.fqual(f) == self.work for f in options(e.d["f"])):
                a = self.arg_names(r, e)
                if path in a:
                    sent.add(a[path])
        for e in att:
            p = argument(e.d["params"], 1, ip, getattr(e, "heap", {})) if isinstance(e.d["params"], T) else None
            if p is None or not sent:
                c.unsure(R_SAVE, fn, "file", "segment file", e.where)
                continue
            if p.op == "phi":
                continue
            same = sent == {p}
            c.decide(True if same else False if all(is_path(x) for x in sent | {p}) else None, R_SAVE, fn, "file",
                     "the file that is merged is the one the batches were written to" if same else
                     f"the file that is merged ({show(p, 3)}) is not the one the batches were written to ({', '.join(show(x, 3) for x in sent)})", e.where)

    # ==================================================================== aggregate and storage
    def union(self):
        c, lab = self.c, self.lab
        want = getattr(self, "agg", None)
        r = lab.open_index(0)
        seen = set()
        for e in r.of("conn_create_aggregate"):
            a = e.d["args"]
            if len(a) < 3 or not is_const(a[0]) or a[2] in seen:
                continue
            seen.add(a[2])
            if a[2].op != "class":
                c.unsure(R_UNION, "aggregate", str(a[0][0]), "aggregate class", e.where)
                continue
            cls = next((k for m in lab.p.mods.values() for k in m.classes.values() if k.qual == a[2][0]), None)
            if cls is None:
                c.unsure(R_UNION, "aggregate", str(a[0][0]), "aggregate class", e.where)
                continue
            c.guard(R_UNION, cls.name, lambda: self.aggregate(cls))
        if not seen:
            c.unsure(R_UNION, "aggregate", "aggregate", "no aggregate is registered")
        c.guard(R_UNION, "storage", self.storage)

    def aggregate(self, cls):
        c, lab = self.c, self.lab
        step, fin = cls.find("step"), cls.find("finalize")
        if step is None or fin is None:
            c.unsure(R_UNION, cls.name, "methods", "step / finalize")
            return
        def unknown(ip, obj, st):
            for kk, x in list(st.env.items()):
                if kk[0] == "@" and kk[1] is obj and isinstance(x, T):
                    for o in options(x):
                        if o.op == "cell":
                            st.heap[o] = t("param", "held", "held:" + str(kk[2]))
            return st

        class Taken(Monitor):
            name = "taken"

            def init(self):
                return False

            def event(self, ev, st, ip):
                if ev.kind == "mutate" and any(isinstance(a, T) and par(a) for a in ev.d["args"]) or \
                        ev.kind == "setattr" and isinstance(ev.d["value"], T) and par(ip.content(ev.d["value"], st)):
                    st.mon[self.name] = True

        given = [p for p in step.params[1:]]
        par = lambda x: has(x, lambda y: y.op == "param" and y[-1] in given)
        r = lab.run_method(cls, "step", prep=unknown, monitors=[Taken()], key=("c05",), max_states=16)
        given = [p for p in step.params[1:]]
        par = lambda x: has(x, lambda y: y.op == "param" and y[-1] in given)
        attrs = None
        for k, v, st in r.outs:
            if k != "return":
                continue
            held = {}
            for kk, x in st.env.items():
                if kk[0] == "@" and kk[1] is r.obj:
                    held[kk[2]] = r.ip.content(x, st)
            got = {n: x for n, x in held.items() if isinstance(x, T) and par(x)}
            gone = any(f.op == "cmp" and f[0] in ("is", "==") and is_const(f[2], None) and val and par(f[1]) or
                       f.op == "truth" and not val and par(f[0]) for f, val in st.facts.items())
            if not got:
                c.decide(True if gone else False, R_UNION, f"{cls.name}.step", "adds" if not gone else "absent sets", "a document set given to the aggregate is ignored",
                         lab.p.loc(step.module, step.node) if hasattr(lab.p, "loc") else "")
                continue
            attrs = set(got) | (attrs or set())
            for n, x in got.items():
                for o in options(x):
                    c.decide(self.united(o, par), R_UNION, f"{cls.name}.step", f"adds to {n}", f"the aggregate combines its sets by {show(o, 4)}, which is not their union",
                             lab.p.loc(step.module, step.node))
        r = lab.run_method(cls, "finalize", prep=unknown, key=("c05",), max_states=16)
        for k, v, st in r.outs:
            if k != "return":
                continue
            v = r.ip.content(v, st) if isinstance(v, T) else const(v)
            held = {}
            for kk, x in st.env.items():
                if kk[0] == "@" and kk[1] is r.obj:
                    held[kk[2]] = r.ip.content(x, st)
            w = lab.p.loc(fin.module, fin.node)
            if v.op == "mcall" and v[1] == "serialize":
                x = copied(v[0])[0]
                if x.op == "upd" or x.op == "item" or x.op == "bin":
                    c.decide(False if self.drops(x) else None, R_UNION, f"{cls.name}.finalize", "returns", f"the aggregate returns {show(x, 4)}, not everything it was given", w)
                elif any(x is h for h in held.values()) or x.op in ("list", "set") and not x.args:
                    c.ok(R_UNION, f"{cls.name}.finalize", "returns", "the whole set", w)
                else:
                    c.unsure(R_UNION, f"{cls.name}.finalize", "returns", show(x, 3), w)
            elif is_const(v):
                empty = any(f.op == "truth" and not val or f.op == "cmp" and f[0] == "is" and val for f, val in st.facts.items())
                c.decide(None if empty else False, R_UNION, f"{cls.name}.finalize", "returns const", f"the aggregate returns {show(v)}", w)
            else:
                c.unsure(R_UNION, f"{cls.name}.finalize", "returns", show(v, 3), w)

    def drops(self, x):
        if x.op == "upd":
            return x[0] in ("remove", "minus", "inter", "xor", "clear", "pop", "delitem") or self.drops(x[1])
        if x.op == "item":
            return isinstance(x[1], T) and x[1].op == "slice"
        if x.op == "bin":
            return x[0] in ("-", "&", "^")
        return False

    def united(self, x, par):
        """Everything that was there, and the argument."""
        if x.op == "upd" and x[0] in ("extend", "add", "insert", "update", "or"):
            return None if x[1].op == "upd" and self.drops(x[1]) else self.loaded(x[2][0], par)
        if x.op == "bin" and x[0] == "|":
            return self.loaded(x[1] if par(x[1]) else x[2], par) and not (par(x[1]) and par(x[2]))
        if x.op == "upd" and x[0] in ("inter", "minus", "xor", "remove") or x.op == "bin" and x[0] in ("&", "-", "^"):
            return False
        if x.op == "call" and (x[0].endswith("deserialize") or x[0].endswith("BitMap")):
            return False         # replaces what was there
        if x.op == "mcall" and x[1] == "union":
            return True
        return None

    def loaded(self, a, par):
        if a.op == "call" and str(a[0]).endswith("deserialize"):
            return True
        if a.op == "param":
            return None
        if a.op == "item" and isinstance(a[1], T) and a[1].op == "slice":
            return False
        return None

    def storage(self):
        """Adapters and converters of sqlite keep the set."""
        c, lab = self.c, self.lab
        import ast as A
        n = 0
        for m in lab.p.mods.values():
            for node in A.walk(m.tree):
                if not (isinstance(node, A.Call) and isinstance(node.func, (A.Attribute, A.Name))):
                    continue
                nm = node.func.attr if isinstance(node.func, A.Attribute) else node.func.id
                if nm not in ("register_adapter", "register_converter") or len(node.args) != 2:
                    continue
                if nm == "register_adapter" and "BitMap" not in A.unparse(node.args[0]) or nm == "register_converter" and "bitmap" not in A.unparse(node.args[0]).lower():
                    continue
                g = lab.p.resolve_expr(m, node.args[1])
                if isinstance(node.args[1], A.Lambda):
                    continue
                if not g or g[0] != "func":
                    if g and g[0] == "ext" and str(g[1]).endswith(("serialize", "deserialize")):
                        c.ok(R_UNION, nm, A.unparse(node.args[1]), "library function")
                        n += 1
                    continue
                f = g[1]
                r = lab.run_func(f, key=("c05",))
                n += 1
                w = lab.p.loc(f.module, f.node)
                for k, v, st in r.outs:
                    if k != "return":
                        continue
                    v = r.ip.content(v, st) if isinstance(v, T) else const(v)
                    p = t("param", f.qual, f.params[0])
                    if nm == "register_adapter":
                        ok = v.op == "mcall" and v[1] == "serialize" and copied(v[0])[0] is p
                        x = v[0] if v.op == "mcall" and v[1] == "serialize" else None
                        lost = x is not None and self.drops(x) or is_const(v) or x is not None and x.op in ("list", "set") and not x.args
                    else:
                        ok = v.op == "call" and str(v[0]).endswith("deserialize") and v[1] and v[1][0] is p
                        lost = is_const(v) or self.drops(v) or v.op in ("list", "set") and not v.args or \
                            v.op == "call" and str(v[0]).endswith("deserialize") and v[1] and v[1][0].op == "item"
                    edits = [e for e in r.of("mutate") if e.d["op"] in ("remove", "minus", "inter", "xor", "clear", "pop", "add", "extend", "delitem")]
                    if edits:
                        c.bad(R_UNION, f.name, "changed", f"a document set is changed by {edits[0].d['op']} when it is {'stored' if nm == 'register_adapter' else 'loaded'}", edits[0].where)
                    else:
                        c.decide(True if ok else False if lost else None, R_UNION, f.name, "whole", f"document sets are not {'stored' if nm == 'register_adapter' else 'loaded'} "
                                 f"whole: {show(v, 4)}" if not ok else "whole set", w)
        if not n:
            c.unsure(R_UNION, "storage", "adapters", "no adapters recognised")


def is_path(x):
    return x.op == "call" and str(x[0]).endswith("join") or x.op in ("fstr", "bin", "const")


def is_lit(x):
    return isinstance(x, T) and (x.op == "lit" or is_const(x) or x.op == "null")


FLIP = {">": "<", "<": ">", ">=": "<=", "<=": ">="}


def sided(f):
    """A comparison with the constant on the right: (operator, term, constant)."""
    if f.op == "cmp" and isinstance(f[1], T) and is_const(f[1]) and not is_const(f[2]):
        return FLIP.get(f[0], f[0]), f[2], f[1]
    return (f[0], f[1], f[2]) if f.op == "cmp" else None


def size_test(f, v):
    """Of a comparison of a size with a number: True when it only excludes empty things, False when it excludes others."""
    op, a, b = sided(f)
    n = b[0]
    if v:
        return op == ">" and n <= 0 or op == ">=" and n <= 1 or op == "!=" and n == 0
    return op in ("==", "<=") and n == 0 or op == "<" and n <= 1


def is_size(f, of=lambda x: True):
    if f.op != "cmp":
        return False
    op, a, b = sided(f)
    return isinstance(a, T) and a.op == "call" and a[0] == "len" and of(a[1][0]) and is_const(b) and isinstance(b[0], int)


def norm(x):
    """Lists written as updates of the list they start from."""
    if x.op == "bin" and x[0] == "+" and x[2].op in ("list", "tuple"):
        r = norm(x[1])
        for a in x[2].args:
            r = t("upd", "add", r, (a,))
        return r
    if x.op == "upd":
        b = norm(x[1])
        if x[0] == "extend" and x[2] and isinstance(x[2][0], T) and x[2][0].op in ("list", "tuple"):
            for a in x[2][0].args:
                b = t("upd", "add", b, (a,))
            return b
        return t("upd", x[0], b, x[2])
    if x.op == "call" and x[0] in COPY and x[0] not in ORDER and x[1]:
        return norm(x[1][0])
    return x


def loop_of(lid):
    while isinstance(lid, tuple) and lid and lid[0] == "@in":
        lid = lid[2]
    return lid


class _H:
    def __init__(self, heap):
        self.heap = heap


def copied_map(x):
    x = copied(x)[0]
    if x.op == "mcall" and x[1] in ("items", "keys") and not x[2]:
        x = x[0]
    return copied(x)[0]


def cut_map(x):
    """The mapping a part of whose items x is."""
    x = copied(x)[0]
    part = False
    while True:
        if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice":
            part = part or any(isinstance(y, T) and not is_const(y, None) for y in x[1].args[:2])
            x = copied(x[0])[0]
        elif x.op == "call" and x[0] == "itertools.islice":
            part = True
            x = copied(x[1][0])[0]
        elif x.op == "mcall" and x[1] in ("items", "keys") and not x[2]:
            x = copied(x[0])[0]
        else:
            return x if part else None


def cond_of(k, el):
    """Condition of a comprehension over values: keeps every value but absent ones?"""
    f, v = k if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], T) else (k, True)
    if not isinstance(f, T):
        return None, "condition"
    if f.op == "not" and isinstance(f[0], T):
        return cond_of((f[0], not v), el)
    if f.op == "cmp" and f[0] in ("is", "==", "is not", "!=") and f[1] is el and is_const(f[2], None):
        neg = f[0] in ("is not", "!=")
        return (True, "") if neg == v else (False, "only absent values are recorded")
    if f is el or f.op == "truth" and f[0] is el:
        return False, "values that are false in Python (0, '') are left out"
    if f.op == "call" and f[0] in ("isinstance",) and f[1][0] is el:
        return False, "values are left out by their type"
    if f.op == "call" and f[0] == "bool" and f[1][0] is el:
        return False, "values that are false in Python (0, '') are left out"
    if is_size(f, lambda y: has(y, lambda z: z is el)):
        return False, "values are left out by their length"
    if f.op == "cmp" and f[0] in ("==", "!=", "<", ">", "<=", ">=") and sided(f)[1] is el and is_const(sided(f)[2]):
        return False, f"values are left out by comparing them with {show(sided(f)[2])}"
    return None, f"values filtered by {show(f, 3)}"


def harmless(f, v, index_call):
    """Does a condition explain that there is nothing to record? True / None (cannot tell) / False"""
    if f.op == "cmp" and f[0] in ("is", "==") and is_const(f[2], None) and v and has(f[1], index_call):
        return True
    if f.op == "cmp" and f[0] in ("is", "==") and is_const(f[2], None) and v and f[1].op == "elem" and f[1][0].op == "cell":
        return True
    if f.op == "truth" and not v and f[0].op == "item" and has(f[0], index_call) and not f[0].op == "elem":
        return True
    if f.op == "truth" and not v and (f[0].op in ("cell", "call") or index_call(f[0])):
        return True
    if is_size(f):
        return size_test(f, not v)
    if f.op == "cmp" and f[0] in ("in", "not in"):
        return None if f[2].op in ("cell", "mu", "item", "upd") else False
    return False


class Saved(Monitor):
    """Rows written and not committed when the connection is closed or the worker returns."""
    name = "saved"

    def __init__(self, conn):
        self.conn = conn
        self.lost = []

    def init(self):
        return (False, False)          # (transaction open, rows pending)

    def event(self, ev, st, ip):
        if not (ev.kind == "sqldone" or ev.kind.startswith("conn_")) or ev.d.get("conn") is not self.conn:
            return
        op, pend = st.mon[self.name]
        if ev.kind == "sqldone":
            w = ev.d.get("word") or first(text_of(ev.d["sql"]))
            if w in ("begin", "savepoint"):
                op = True
            elif w in ("commit", "end", "release"):
                op = pend = False
            elif w == "rollback":
                if pend:
                    self.lost.append(ev.where)
                op = pend = False
            elif w in ("insert", "replace", "update") and op:
                pend = True
        elif ev.kind == "conn_commit":
            op = pend = False
        elif ev.kind == "conn_close":
            if pend:
                self.lost.append(ev.where)
            op = pend = False
        st.mon[self.name] = (op, pend)


class Batch(Monitor):
    """Per iteration of a loop: tasks started with which contents; lists changed after they were handed over."""
    name = "batch"

    def __init__(self):
        self.late = []
        self.ends = []

    def init(self):
        return ((), (), frozenset())           # (loop stack seen, history of the iteration, lists handed over)

    def cut(self, L):
        return next((w for x, w in self.ends if x == L), None)

    def event(self, ev, st, ip):
        loop, hist, sent = st.mon[self.name]
        if ev.kind == "iter":
            if listing(ev.d["iter"]):
                hist, loop = (), ev.d["loop"]
                sent = frozenset()
        elif ev.kind == "endloop" and ev.d["loop"] == loop:
            loop = ()
        elif ev.kind == "sql" and loop and loop not in ev.loops and ev.d["word"] in ("attach", "insert", "replace"):
            self.ends.append((loop, ev.where))
        elif ev.kind == "submit" and ev.d["f"].op == "func":
            args = [a for a in ev.d["args"] if isinstance(a, T)]
            roles = []
            for a in args:
                x = ip.content(a, st)
                b = norm(copied(x)[0])
                while b.op == "upd":
                    b = b[1]
                if b.op == "mu" and b in ip.mus or b.op in ("list",):
                    roles.append(x)
            hist = hist + (("submit", ev.where, tuple(roles)),)
            sent = sent | {a for a in args if a.op in ("mu", "cell")}
        elif ev.kind == "mutate" and isinstance(ev.d["ref"], T) and ev.d["ref"] in sent and ev.d["op"] not in ("sort",):
            self.late.append((ev.where, None))
        st.mon[self.name] = (loop, hist, sent)


def listing(x):
    """Does iterating x list the keys of the corpus?"""
    return isinstance(x, T) and has(x, lambda y: y.op == "mcall" and y[1] == "keys" and has(y[0], lambda z: z.op in ("param", "attr", "obj") and "corpus" in str(z.args[-1]).lower()))


class Cover(Coverage):
    """Coverage that also reports loops left early (seen when something outside the loop is done while it is still running)."""

    def __init__(self, *a):
        super().__init__(*a)
        self.early = []

    def event(self, ev, st, ip):
        d = dict(st.mon[self.name])
        if ev.kind in ("enditer", "sql") and d:
            inside = set(ev.loops) | ({ev.d["loop"]} if ev.kind == "enditer" else set())
            if ev.kind == "sql" and ev.d["word"] not in ("insert", "replace", "commit"):
                inside = self.loops
            for x in list(d):
                if x != "!" and x not in inside:
                    self.early.append(ev.where)
                    d.pop(x)
            st.mon[self.name] = tuple(sorted(d.items(), key=str))
        super().event(ev, st, ip)
