"""C06: positions, windows and passages stay inside their document (affine dataflow over the bookkeeping of positions)."""
from sa.hyp import UNKNOWN, Unknown, value
from sa.interp import Monitor
from sa.lab import *
from sa.rel import Query, argument, cursor_of
from sa.sql import SqlError
from sa.terms import has
from checks.c05 import Ctx, Keep, copied, low, root, is_size, size_test

R_REC = "recorded-positions-have-a-range-of-their-own"
R_MAP = "boundaries-and-documents-of-a-batch-correspond"
R_STORE = "positions-are-stored-under-their-feature-and-batch"
R_WIN = "windows-stay-inside-the-document-of-the-match"
R_WALK = "passages-stay-inside-one-document"
R_SPAN = "passages-span-first-to-last-match"
R_DROP = "no-passage-is-dropped"
R_SHOW = "rendered-slices-cover-the-passage"
R_READ = "positions-are-read-for-their-feature-field-and-batch"
R_FIELD = "collocations-involve-one-field"
R_PART = "every-partition-contributes"


def lin(x):
    """x as integer combination of atoms: (sorted ((atom, coefficient), ...), constant)."""
    co, k = {}, 0
    todo = [(x, 1)]
    while todo:
        y, s = todo.pop()
        if not isinstance(y, T):
            y = const(y)
        if is_const(y) and isinstance(y[0], (int, bool)):
            k += s * int(y[0])
        elif y.op == "bin" and y[0] == "+":
            todo += [(y[1], s), (y[2], s)]
        elif y.op == "bin" and y[0] == "-":
            todo += [(y[1], s), (y[2], -s)]
        elif y.op == "bin" and y[0] == "*" and is_const(y[1]) and isinstance(y[1][0], int):
            todo.append((y[2], s * y[1][0]))
        elif y.op == "bin" and y[0] == "*" and is_const(y[2]) and isinstance(y[2][0], int):
            todo.append((y[1], s * y[2][0]))
        elif y.op in ("neg", "un") and isinstance(y.args[-1], T) and (y.op == "neg" or y[0] == "-"):
            todo.append((y.args[-1], -s))
        elif y.op == "call" and y[0] == "int" and len(y[1]) == 1:
            todo.append((y[1][0], s))
        else:
            co[y] = co.get(y, 0) + s
    return {a: c for a, c in co.items() if c}, k


def sub(a, b):
    (x, k), (y, m) = a, b
    out = dict(x)
    for t_, c in y.items():
        out[t_] = out.get(t_, 0) - c
    return {p: c for p, c in out.items() if c}, k - m


def plus(x, n):
    return lin(t("bin", "+", x, const(n)))


def upper(facts, a, b):
    """Largest proven constant c with a - b <= c, from comparisons of the path (None: nothing known)."""
    want = sub(lin(a), lin(b))
    best = None
    if not want[0]:
        return want[1]
    for f, v in facts.items():
        if f.op != "cmp" or f[0] not in ("<", "<=", ">", ">=", "==", "!="):
            continue
        op = f[0] if v else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[f[0]]
        if op == "!=":
            continue
        d = sub(lin(f[1]), lin(f[2]))
        for sgn, ops in ((1, ("<", "<=", "==")), (-1, (">", ">=", "=="))):
            if op not in ops:
                continue
            co = {p: sgn * c for p, c in d[0].items()}
            if co != want[0]:
                continue
            c = -sgn * d[1] - (1 if op in ("<", ">") else 0) + want[1]
            best = c if best is None or c < best else best
    return best


def parts(x, fn):
    """Alternatives of nested max()/min()."""
    if x.op == "call" and x[0] == fn:
        out = []
        for a in x[1]:
            if isinstance(a, T) and a.op in ("tuple", "list"):
                for b in a.args:
                    out += parts(b, fn)
            else:
                out += parts(a, fn)
        return out
    return [x]


class Walk(Monitor):
    """Passages recorded since the walk began / in this iteration / after it."""
    name = "walk"

    def __init__(self, is_pass):
        self.is_pass = is_pass
        self.loops = {}

    def init(self):
        return ("", 0, 0)          # (loop, recorded in this iteration, state: 1 inside, 2 after, 3 recorded after)

    def event(self, ev, st, ip):
        s = st.mon[self.name]
        if ev.kind in ("mutate", "yield"):
            p = self.is_pass(ev)
            if p is None:
                return
            lid = p
            inside = lid in ev.loops
            if inside:
                st.mon[self.name] = (s[0], s[1] + 1, s[2])
            else:
                st.mon[self.name] = (s[0], s[1], 3 if s[2] == 2 else s[2])
        elif ev.kind == "iter" and ev.d["loop"] in self.loops:
            st.mon[self.name] = ("L", 0, 1)
        elif ev.kind == "endloop" and ev.d["loop"] in self.loops:
            st.mon[self.name] = ("L", 0, 2)


class Epoch(Monitor):
    """Per field of a document: positions recorded, document listed, start of the next document recorded."""
    name = "epoch"

    def __init__(self, sites, floop):
        self.sites, self.floop = sites, floop      # where+kind -> role
        self.bad = []

    def init(self):
        return (0, 0, 0)

    def event(self, ev, st, ip):
        s = st.mon[self.name]
        if ev.kind in ("iter", "enditer", "endloop") and ev.d["loop"] == self.floop:
            if ev.kind == "enditer":
                self.bad.append((s, ev, dict(ev.facts)))
            st.mon[self.name] = (0, 0, 0)
        elif ev.kind == "mutate":
            role = self.sites.get((ev.where, ev.d["ref"]))
            if role is not None:
                x = list(s)
                x[role] = min(2, x[role] + 1) if role else 1
                st.mon[self.name] = tuple(x)


def run(c, lab):
    c.rule(R_REC, "the position recorded for the i-th value of a document is i plus the recorded start of the document in its field, and the start of the "
                  "next document is that start plus the number of values")
    c.rule(R_MAP, "a document is listed for a field exactly when the start of the next document is recorded, and only if it has values there")
    c.rule(R_STORE, "rows of a batch and of the merged index hold each set of positions under its own feature and batch, with its size, and the documents "
                    "and boundaries of the same field and batch")
    c.rule(R_WIN, "a window runs from max(start of the document, match - size) to min(start of the next document, match + size + 1), with the boundaries "
                  "of the document of that very match")
    c.rule(R_WALK, "a passage is only continued by a match known to lie before the next boundary, and its document and boundaries are taken together")
    c.rule(R_SPAN, "a passage is recorded from its first to its last match, relative to the start of its document, with the matches between them counted")
    c.rule(R_DROP, "a new passage is only begun after the running one was recorded, and the last one is recorded after the walk")
    c.rule(R_SHOW, "slices of a document's values begin at max(0, start - overhang) and end after end + overhang")
    c.rule(R_READ, "positions and boundaries are selected by (feature, batch) and (field, batch), with the values of these roles")
    c.rule(R_FIELD, "the counted and the given features are restricted to the field")
    c.rule(R_PART, "every partition of the field is processed and its result is added to the others'")
    c.assumptions += ["BitMap.rank(p) counts the elements <= p, add_range(a, b) adds a..b-1, range_cardinality(a, b) counts elements in a..b-1",
                      "bitmaps iterate in ascending order; sizes of windows and overhangs are not negative"]
    c.require(lab.index_cls.find("score_passages_dnf") is not None, "Index.score_passages_dnf not found")
    ck = C06(c, lab)
    c.guard(R_REC, "worker", ck.record)
    c.guard(R_STORE, "Index.index", ck.store)
    c.guard(R_WIN, "workers", ck.windows)
    c.guard(R_WALK, "workers", ck.walks)
    c.guard(R_SHOW, "renderers", ck.slices)
    c.guard(R_READ, "queries", ck.reads)
    c.guard(R_FIELD, "count_collocations", ck.collocations)
    c.guard(R_PART, "partitions", ck.partitions)


class C06:
    def __init__(self, c, lab):
        self.c, self.lab, self.cls = c, lab, lab.index_cls
        self.ctx = Ctx(c, lab)
        self.q = {}

    # -------------------------------------------------------------------- provenance of columns
    def query(self, text, cat="index"):
        if text not in self.q:
            try:
                self.q[text] = Query(self.lab.catalogue(cat), text)
            except (SqlError, KeyError, TypeError, IndexError, ValueError):
                self.q[text] = None
        return self.q[text]

    def origin(self, x):
        """((table, column) pairs, query, parameters) of a value read from a query."""
        if x.op == "col" and x[0].op == "row" and is_const(x[1]) and isinstance(x[1][0], int):
            i = x[1][0]
        elif x.op == "col" and x[0].op == "row" and isinstance(x[1], int):
            i = x[1]
        else:
            return None
        cur = cursor_of(x[0][0])
        if cur is None:
            return None
        q = self.query(cur[0])
        if q is None:
            return None
        return q.column(i) or set(), q, cur[1]

    def named(self, x, table, column):
        o = self.origin(x)
        if o is None:
            return None
        return (table, column) in o[0]

    def runs(self, *names):
        """Analyses of workers (and methods) reached by public operations."""
        out = []
        for q, uses in self.lab.workers().items():
            if not names or any(r.name.split(".")[-1] in names for r, e in uses):
                out.append((q, uses))
        return out

    # ==================================================================== recording
    def record(self):
        c = self.c
        found = self.ctx.find_worker()
        if not found:
            c.unsure(R_REC, "worker", "positions", "no background task of Index.index reads documents")
            return
        for q, r, docs, idx in found:
            self.worker = q
            self.one_record(q, r)

    def keyed(self, ref):
        keys, base = [], ref
        while base.op == "item":
            k = base[1]
            keys = (list(k.args) if isinstance(k, T) and k.op == "tuple" else [k]) + keys
            base = base[0]
        return base, keys

    def one_record(self, q, r):
        c, ip, ctx = self.c, r.ip, self.ctx
        fn = q.rsplit(".", 1)[-1]
        adds = []
        for e in r.of("mutate"):
            ref = e.d["ref"]
            if not isinstance(ref, T) or not e.d["args"]:
                continue
            base, keys = self.keyed(ref)
            sym = [k for k in keys if isinstance(k, T) and not is_const(k)]
            if base.op != "cell" or len(sym) < 2 or not any(has(k, ctx.index_call) for k in sym):
                continue
            a = e.d["args"][0]
            if not isinstance(a, T):
                continue
            l = lin(a)
            ix = [x for x in l[0] if x.op == "idx"]
            if ix and not ctx.doc_of(a):
                adds.append((e, base, sym, keys, a, l, ix[0]))
            elif not ctx.doc_of(a) and e.d["op"] == "add" and l[0] and not ix and any(x.op == "mu" for x in l[0]):
                c.unsure(R_REC, fn, "position", f"position {show(a, 4)}", e.where)
        if not adds:
            c.unsure(R_REC, fn, "positions", "where positions are recorded was not recognised")
            return
        self.posadds = adds
        self.batch = adds[0][1]
        for e, base, sym, keys, a, l, ix in adds:
            F, V = sym[0], sym[1]
            call = next((x for x in sub_terms(V) if ctx.index_call(x)), None) or next((x for x in sub_terms(F) if ctx.index_call(x)), None)
            vals = t("item", call, F) if call is not None else None
            L = ix[0]
            it = ip.loopinfo.get(L)
            # order of the values
            src = it
            if isinstance(src, T) and src.op == "call" and src[0] == "enumerate":
                src = src[1][0]
            ie = next((x for x in r.of("iter") if x.d["loop"] == L), None)
            for _ in range(3):
                if isinstance(src, T) and src.op == "cell" and ie is not None:
                    src = ip.shape(src, ie.heap)
            keep = True
            part = False
            while isinstance(src, T):
                inner, k2 = copied(src)
                keep = keep and k2
                if inner.op == "item" and isinstance(inner[1], T) and inner[1].op == "slice":
                    part = part or any(isinstance(y, T) and not is_const(y, None) for y in inner[1].args)
                    inner = inner[0]
                if inner is src:
                    break
                src = inner
            if isinstance(src, T) and vals is not None and src is vals:
                if not keep:
                    c.bad(R_REC, fn, "order", "positions are numbered in another order than that of the values of the document", e.where)
                elif part:
                    c.bad(R_REC, fn, "order", "positions are numbered over a part of the values of the document", e.where)
                else:
                    c.ok(R_REC, fn, "order", "positions follow the values of the document", e.where)
            else:
                c.unsure(R_REC, fn, "order", f"values {show(src, 3) if isinstance(src, T) else src}", e.where)
            el = [x for x in sub_terms(V) if x.op == "elem"]
            if V.op == "elem" and V[1] == L:
                c.ok(R_REC, fn, "value", "under the value at the position", e.where)
            elif V.op == "elem" and V[1] != L and vals is not None and V[0] is vals:
                c.bad(R_REC, fn, "value", "every position is recorded under every value of the document", e.where)
            else:
                c.unsure(R_REC, fn, "value", show(V, 3), e.where)
            rest = {x: k for x, k in l[0].items() if x is not ix}
            if l[0][ix] != 1:
                c.bad(R_REC, fn, "position", f"the position is {show(a, 4)}: positions of neighbouring values are not adjacent", e.where)
                continue
            S = next(iter(rest)) if len(rest) == 1 and list(rest.values()) == [1] else None
            if not rest:
                c.bad(R_REC, fn, "position", "positions do not start after those of the documents before: documents share positions", e.where)
                continue
            if S is None:
                c.unsure(R_REC, fn, "position", show(a, 4), e.where)
                continue
            sref = self.start_ref(S)
            if sref is None:
                low = self.below(S)
                if low is not None:
                    c.bad(R_REC, fn, "position", f"a document starts at position {low[1]} although those before it reach {low[0]}: documents share positions", e.where)
                else:
                    c.unsure(R_REC, fn, "position", f"start of the document {show(S, 4)}", e.where)
                continue
            if l[1]:
                c.bad(R_REC, fn, "position", f"positions are shifted by {l[1]} from the start of their document", e.where)
            else:
                c.ok(R_REC, fn, "position", "start of the document plus place of the value", e.where)
            sb, sk = self.keyed(sref)
            skeys = [k for k in sk if isinstance(k, T) and not is_const(k)]
            if skeys and skeys[0] is F:
                c.ok(R_REC, fn, "start", "starts of the document's field", e.where)
            else:
                c.unsure(R_REC, fn, "start", "the starts are not kept by field", e.where)
            self.starts(q, fn, r, sref, S, L, F, vals, e)

    def start_ref(self, S):
        """The collection whose greatest element is the start of the document."""
        if S.op == "item" and is_const(S[1], -1):
            return S[0]
        if S.op == "call" and S[0] == "max" and len(S[1]) == 1:
            return S[1][0]
        if S.op == "mcall" and S[1] == "max":
            return S[0]
        return None

    def below(self, S):
        """(greatest start so far, start of the document) where the latter is smaller."""
        refs = {self.start_ref(y) for y in sub_terms(S)} - {None}
        if len(refs) != 1:
            return None
        for m in (0, 1, 7, 255, 256, 1000, 65535, 65536, 2 ** 20 + 3, 2 ** 24 + 5, 2 ** 31, 2 ** 32 - 1):
            try:
                v = value(S, lambda y: m if self.start_ref(y) is not None else UNKNOWN)
            except Unknown:
                return None
            if isinstance(v, (int, float)) and v < m:
                return m, v
        return None

    def starts(self, q, fn, r, sref, S, L, F, vals, pe):
        c, ip = self.c, r.ip
        sites = {(e.where, e.d["ref"]): 0 for e, *_ in self.posadds}
        found = False
        floop = F[1] if F.op == "elem" else None
        for e in r.of("mutate"):
            if e.d["ref"] is sref and e.d["args"]:
                found = True
                sites[(e.where, e.d["ref"])] = 2
                if e.d["op"] not in ("add", "append", "insert"):
                    c.unsure(R_REC, fn, "next start", e.d["op"], e.where)
                    continue
                a = e.d["args"][0]
                l = lin(a)
                ok, msg = self.next_start(ip, l, S, L, vals)
                c.decide(ok, R_REC, fn, "next start", msg, e.where)
        if not found:
            c.unsure(R_REC, fn, "next start", "where the start of the next document is recorded was not recognised", pe.where)
            return
        # the list of documents
        sb, sk = self.keyed(sref)
        docs = []
        for e in r.of("mutate"):
            ref = e.d["ref"]
            if not isinstance(ref, T) or ref is sref or not e.d["args"] or not isinstance(e.d["args"][0], T):
                continue
            b, ks = self.keyed(ref)
            sym = [k for k in ks if isinstance(k, T) and not is_const(k)]
            if b.op == "cell" and len(sym) == 1 and sym[0] is F and self.ctx.doc_of(e.d["args"][0]):
                docs.append(e)
                sites[(e.where, ref)] = 1
        self.docref = docs[0].d["ref"] if docs else None
        self.sref = sref
        if not docs or floop is None:
            c.unsure(R_MAP, fn, "documents", "where the documents of a field are listed was not recognised", pe.where)
            return
        for e in docs:
            self.nonempty(fn, e, vals)
        mon = Epoch(sites, floop)
        self.lab.run_worker(q, max_states=16, monitors=[mon], key=("c06epoch", c.pid))
        if not mon.bad:
            c.unsure(R_MAP, fn, "together", "the loop over the fields was not recognised")
            return
        worst = True
        for (p, d, s), ev, facts in mon.bad:
            if d != s:
                c.bad(R_MAP, fn, "together", "a document is listed for a field without recording where the next one starts" if d else
                      "the start of a next document is recorded without listing the document for the field", ev.where)
                return
            if d > 1:
                c.bad(R_MAP, fn, "together", "a document is listed more than once", ev.where)
                return
            if p and not d and not self.said_empty(facts, vals):
                c.bad(R_MAP, fn, "together", "positions of a document are recorded, but neither the document nor the start of the next one", ev.where)
                return
        c.ok(R_MAP, fn, "together", f"{len(mon.bad)} paths through a field")

    def said_empty(self, facts, vals):
        for f, v in facts.items():
            if f.op == "truth" and not v:
                return True
            if is_size(f) and size_test(f, not v):
                return True
        return False

    def nonempty(self, fn, e, vals):
        c = self.c
        for f, v in e.facts.items():
            if f.op == "truth" and v and (f[0] is vals or f[0].op in ("mu", "cell", "call")):
                c.ok(R_MAP, fn, "empty", "documents without values are not listed", e.where)
                return
            if is_size(f) and size_test(f, v):
                c.ok(R_MAP, fn, "empty", "documents without values are not listed", e.where)
                return
        if any(has(f, lambda y: y is vals) and not (f.op == "call" and f[0] == "isinstance") and not (f.op == "truth" and f[0].op == "call") for f in e.facts):
            c.unsure(R_MAP, fn, "empty", "condition on the values", e.where)
        else:
            c.bad(R_MAP, fn, "empty", "a document without values in the field is listed there: it has no range of its own, so all later documents of the "
                                      "batch are given the range of their neighbour", e.where)

    def next_start(self, ip, l, S, L, vals):
        co = dict(l[0])
        s = co.pop(S, 0)
        if len(co) != 1:
            return (None, "start of the next document") if co else (False, "the start of the next document does not depend on the number of values")
        x, k = next(iter(co.items()))
        if k != 1:
            return None, "start of the next document"
        n = None
        if x.op == "call" and x[0] == "len" and isinstance(x[1][0], T):
            y = copied(x[1][0])[0]
            if y is vals and (x[1][0] is vals or not (x[1][0].op == "call" and x[1][0][0] in ("set", "frozenset", "dict", "dict.fromkeys"))):
                n = l[1]
            elif y is vals:
                return False, "the start of the next document is taken from the number of distinct values"
            elif y.op in ("mu", "cell"):
                return None, "start of the next document"
        elif x.op == "mu" and ip.mus.get(x, {}).get("loop") == L:
            vs = [lin(o) for b in ip.mus[x]["backs"] for o in options(b[0])]
            if vs and all(len(v[0]) == 1 and next(iter(v[0])).op == "idx" and next(iter(v[0]))[0] == L and list(v[0].values()) == [1] for v in vs):
                ks = {v[1] for v in vs}
                if len(ks) == 1:
                    n = l[1] + ks.pop() - 1
            elif vs and is_const(ip.mus[x]["init"]) and isinstance(ip.mus[x]["init"][0], int):
                ks = {(tuple(v[0].items()), v[1]) for v in vs}
                if ks == {(((x, 1),), 1)}:
                    n = l[1] + ip.mus[x]["init"][0]
            elif vs and all(S in v[0] for v in vs) and all({p.op for p in v[0] if p is not S} == {"idx"} for v in vs) and not s:
                ks = {v[1] for v in vs}
                if len(ks) == 1:
                    s, n = 1, l[1] + ks.pop() - 1
        elif x.op == "idx" and x[0] == L:
            n = l[1] - 1
        if n is None:
            return None, f"start of the next document {show(x, 4)}"
        if s != 1:
            return False, "the start of the next document is not counted from the start of this one: documents share positions"
        if n < 0:
            return False, "the next document starts at the last position of this one"
        if n > 0:
            return False, f"the next document starts {n} behind the last position of this one: the boundaries do not follow the positions"
        return True, "start of the document plus number of its values"

    # ==================================================================== stored rows
    def store(self):
        c, ctx = self.c, self.ctx
        if not getattr(self, "posadds", None):
            c.unsure(R_STORE, "worker", "rows", "recorded positions not recognised")
        else:
            r = self.lab.run_worker(self.worker, max_states=4, monitors=[Keep()], key=("c05",))
            self.segment_rows(self.worker.rsplit(".", 1)[-1], r)
        self.merged()

    def seg_roles(self):
        """Columns of the segment tables by what the merge makes of them: {table: {role: column}}"""
        out = {}
        for e, s, q, insts in self.ctx.merge_stmts():
            target = low(s[2])
            if target not in ("position_index", "position_doc_map") or len(insts) != 1:
                continue
            names = [low(x) for x in s[3]] if s[3] is not None else [x[0].lower() for x in self.lab.catalogue("index").columns(target)]
            if len(names) != len(q[0]):
                continue
            tab = low(insts[0][0])
            m = out.setdefault(tab, {})
            for n, (x, a) in zip(names, q[0]):
                if x.op == "c" and x[0] is insts[0]:
                    m[n] = low(x[1])
        return out

    def segment_rows(self, fn, r):
        c, ip, ctx = self.c, r.ip, self.ctx
        from sa.sql import parse
        pe = self.posadds[0]
        ppath = []
        for k in self.keyed(pe[0].d["ref"])[1][::-1]:
            if isinstance(k, T) and not is_const(k):
                break
            ppath.insert(0, k[0] if isinstance(k, T) else k)
        firsts = {}
        seen = set()
        for e in r.of("sql"):
            if not is_const(e.d["sql"]) or e.d["word"] not in ("insert", "replace"):
                continue
            try:
                s, ps = parse(e.d["sql"][0])
            except SqlError:
                continue
            if s.op != "insert":
                continue
            table = low(s[2])
            cols = [x.lower() for x in ctx.columns(table)]
            names = [low(x) for x in s[3]] if s[3] is not None else cols
            pos = ctx.value_positions(s, names)
            p = ip.shape(e.d["params"], e.heap) if isinstance(e.d["params"], T) else None
            if pos is None or p is None:
                c.unsure(R_STORE, fn, f"rows of {table}", "values of the insert", e.where)
                continue
            opts = []
            for o in options(p):
                opts += options(o[1]) if o.op == "comp" else [o]
            for o in opts:
                if (e.where, o) in seen:
                    continue
                seen.add((e.where, o))
                row = {n: argument(o, i, ip, e.heap) for n, i in pos.items() if i is not None}
                row = {n: v for n, v in row.items() if v is not None}
                self.one_row(fn, ip, e, table, row, ppath, firsts)
        ks = {x for x in firsts.values()}
        if len(firsts) < 2:
            c.unsure(R_STORE, fn, "batch", "the rows of a batch were not recognised")
        elif len(ks) == 1:
            c.ok(R_STORE, fn, "batch", "features and boundaries of a batch carry the same number")
        else:
            c.bad(R_STORE, fn, "batch", "the positions and the boundaries of a batch are stored under different numbers: "
                  + ", ".join(f"{k}: {show(v, 3)}" for k, v in sorted(firsts.items())))

    def one_row(self, fn, ip, e, table, row, ppath, firsts):
        c = self.c
        roles = self.seg_roles().get(table, {})
        if not roles:
            return
        inv = {v: k for k, v in roles.items()}
        get = lambda role: row.get(roles.get(role, role))
        fd = get("first_doc_id")
        if fd is not None:
            firsts[table] = fd
        if "doc_boundaries" in roles or "doc_boundaries" in inv:
            f, d, b, n = get("field"), get("doc_ids"), get("doc_boundaries"), get("docs_count")
            if getattr(self, "docref", None) is None or d is None or b is None:
                c.unsure(R_STORE, fn, "boundaries", "row of the boundaries", e.where)
                return
            dp, sp = self.shape_of(self.docref), self.shape_of(self.sref)
            gd, gb = self.shape_of(d), self.shape_of(b)
            if gd == dp and gb == sp:
                c.ok(R_STORE, fn, "boundaries", "documents and starts in their columns", e.where)
            elif gd == sp and gb == dp:
                c.bad(R_STORE, fn, "boundaries", "documents and starts of a field are stored in each other's column", e.where)
            else:
                c.unsure(R_STORE, fn, "boundaries", f"documents {show(d, 3)}, starts {show(b, 3)}", e.where)
            kd = [k for k in self.keyed(d)[1] if isinstance(k, T) and not is_const(k)]
            kb = [k for k in self.keyed(b)[1] if isinstance(k, T) and not is_const(k)]
            if f is not None and kd and kb:
                good = kd[0] is f and kb[0] is f
                c.decide(True if good else None, R_STORE, fn, "boundaries field", "of the row's own field", e.where)
            return
        v, f, p, n = row.get(self.inv_col("value")), row.get(self.inv_col("field")), get("positions"), get("position_count")
        if p is None:
            c.unsure(R_STORE, fn, "positions", "no positions in the row", e.where)
            return
        x = p
        while x.op == "ite" or x.op == "bool" or x.op == "or":
            y = next((z for z in x.args if isinstance(z, T) and z.op == "item"), None)
            if y is None:
                break
            x = y
        if x.op == "phi":
            x = next((z for z in x.args if z.op == "item"), x)
        if is_const(x, None):
            return
        base, ks = self.keyed(x)
        tail = []
        for k in ks[::-1]:
            if isinstance(k, T) and not is_const(k):
                break
            tail.insert(0, k[0] if isinstance(k, T) else k)
        if base is not self.batch:
            c.unsure(R_STORE, fn, "positions", show(p, 4), e.where)
            return
        if tail != ppath:
            c.bad(R_STORE, fn, "positions", "the column of the positions is filled with another set of the feature", e.where)
            return
        sym = [k for k in ks if isinstance(k, T) and not is_const(k)]
        if f is not None and v is not None and len(sym) == 2:
            if sym[0] is f and sym[1] is v:
                c.ok(R_STORE, fn, "positions", "positions of the row's own feature", e.where)
            elif f.op in ("elem", "const") and v.op in ("elem", "const"):
                c.bad(R_STORE, fn, "positions", "the positions of another feature are stored in the row", e.where)
        if n is not None:
            if n.op == "call" and n[0] == "len" and n[1][0] is x:
                c.ok(R_STORE, fn, "position count", "number of positions", e.where)
            elif n.op == "call" and n[0] == "len" or is_const(n):
                c.bad(R_STORE, fn, "position count", f"the position count is {show(n, 4)}", e.where)
            else:
                c.unsure(R_STORE, fn, "position count", show(n, 3), e.where)

    def inv_col(self, name):
        return name

    def shape_of(self, x):
        b, ks = self.keyed(x)
        return b, tuple("?" if isinstance(k, T) and not is_const(k) else (k[0] if isinstance(k, T) else k) for k in ks)

    def merged(self):
        c = self.c
        fn = "Index.index"
        got = set()
        for e, s, q, insts in self.ctx.merge_stmts():
            target = low(s[2])
            if target not in ("position_index", "position_doc_map"):
                continue
            got.add(target)
            w = e.where
            if len(insts) != 1:
                c.unsure(R_STORE, fn, f"merge {target}", "several sources", w)
                continue
            i = insts[0]
            names = [low(x) for x in s[3]] if s[3] is not None else [x[0].lower() for x in self.lab.catalogue("index").columns(target)]
            if len(names) != len(q[0]):
                c.unsure(R_STORE, fn, f"merge {target}", "columns", w)
                continue
            if s[0] in ("ignore",):
                c.bad(R_STORE, fn, f"merge {target}", "rows that conflict are dropped", w)
            m = {n: x for n, (x, a) in zip(names, q[0])}
            for n, x in m.items():
                if n == "feature_id":
                    self.feature_column(fn, x, i, w)
                elif x.op == "c" and x[0] is i:
                    want = {"doc_boundaries": ("doc_boundaries", "doc_position_starts")}.get(n)
                    others = {"doc_ids", "positions", "doc_boundaries", "doc_position_starts", "first_doc_id", "last_doc_id", "position_count", "docs_count",
                              "field", "value"} - {n} - set(want or ())
                    if low(x[1]) == n or want and low(x[1]) in want:
                        c.ok(R_STORE, fn, f"merge {target}.{n}", "column of the same name", w)
                    elif low(x[1]) in others:
                        c.bad(R_STORE, fn, f"merge {target}.{n}", f"{n} is filled with {x[1]}", w)
                    else:
                        c.unsure(R_STORE, fn, f"merge {target}.{n}", show(x, 3), w)
                else:
                    c.unsure(R_STORE, fn, f"merge {target}.{n}", show(x, 3), w)
            if q[6] is not None:
                c.bad(R_STORE, fn, f"merge {target} rows", "only a limited number of rows is merged", w)
            if q[3]:
                gs = {low(g[1]) for g in q[3] if g.op == "c"}
                if "first_doc_id" not in gs:
                    c.bad(R_STORE, fn, f"merge {target} rows", "rows of different batches are combined: only one of them is kept", w)
            for x in q[2]:
                v = self.ctx.row_filter(x, i) if target == "position_doc_map" else self.position_filter(x, i)
                c.decide(v, R_STORE, fn, f"merge {target} rows {show(x, 3)}", f"rows are left out of the merge by {show(x, 4)}", w)
        for tb in ("position_index", "position_doc_map"):
            if tb not in got:
                c.unsure(R_STORE, fn, f"merge {tb}", f"no statement that fills {tb} from the segments was recognised")

    def position_filter(self, x, i):
        cs = [y for y in sub_terms(x) if y.op == "c"]
        if x.op == "cmp" and len(cs) == 1 and low(cs[0][1]) == "position_count":
            a, b = x[1], x[2]
            op = x[0]
            if b is cs[0]:
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            k = next((z for z in b.args if isinstance(z, int)), None) if isinstance(b, T) else None
            if k is None and is_const(b):
                k = b[0]
            if k is None:
                return None
            if op == ">" and k <= 0 or op == ">=" and k <= 1 or op in ("<>", "!=") and k == 0:
                return True
            return False
        if cs and all(low(y[1]) == "positions" for y in cs) and x.op in ("isnull", "notnull", "cmp"):
            return None
        if cs and all(low(y[1]) in ("field", "value", "first_doc_id") for y in cs):
            return False if x.op in ("cmp", "like", "in", "between") and not any(y.op == "param" for y in sub_terms(x)) and \
                not all(y[0] is not i for y in cs) and len(cs) == 1 else None
        return None

    def feature_column(self, fn, x, i, w):
        """The feature of a row: looked up by field and value."""
        c = self.c
        eqs = set()
        for y in sub_terms(x):
            if y.op == "cmp" and y[0] in ("=", "is"):
                for a, b in ((y[1], y[2]), (y[2], y[1])):
                    if a.op == "c" and b.op == "c" and b[0] is i and a[0] is not i:
                        eqs.add((low(a[1]), low(b[1])))
                    if a.op in ("tuple", "row") and b.op == a.op:
                        for p, r in zip(a.args, b.args):
                            if isinstance(p, T) and isinstance(r, T) and p.op == "c" and r.op == "c" and r[0] is i:
                                eqs.add((low(p[1]), low(r[1])))
        if {("field", "field"), ("value", "value")} <= eqs:
            c.ok(R_STORE, fn, "merge feature", "feature of the row's field and value", w)
        elif eqs and eqs <= {("field", "field"), ("value", "value")}:
            c.bad(R_STORE, fn, "merge feature", f"positions are given to a feature found only by its {sorted(eqs)[0][0]}", w)
        elif ("field", "value") in eqs or ("value", "field") in eqs:
            c.bad(R_STORE, fn, "merge feature", "field and value are exchanged", w)
        else:
            c.unsure(R_STORE, fn, "merge feature", show(x, 4), w)

    # ==================================================================== windows
    def boundary(self, x, P, e, ip):
        """('start'|'end'|'shift', offset, collection, argument) of boundaries[rank(P) + offset]."""
        if x.op != "item" or not isinstance(x[1], T):
            return None
        l = lin(x[1])
        if len(l[0]) != 1 or list(l[0].values()) != [1]:
            return None
        r = next(iter(l[0]))
        if r.op != "mcall" or r[1] != "rank" or len(r[2]) != 1:
            return None
        return l[1], x[0], r[0], r[2][0]

    def windows(self):
        c = self.c
        seen = set()
        n = 0
        for q, uses in self.runs():
            r = self.lab.run_worker(q, max_states=8, monitors=[Keep()], key=("c06win",))
            for e in r.of("mutate"):
                a = e.d["args"]
                lo = hi = None
                if e.d["op"] == "add_range" and len(a) == 2:
                    lo, hi = a
                elif e.d["op"] in ("extend", "update") and len(a) == 1 and isinstance(a[0], T):
                    y = copied(a[0])[0]
                    while y.op == "call" and y[0].endswith("BitMap") and len(y[1]) == 1:
                        y = y[1][0]
                    if y.op == "cell":
                        y = copied(r.ip.shape(y, e.heap))[0]
                    if y.op == "call" and y[0] == "range" and len(y[1]) == 2:
                        lo, hi = y[1]
                if lo is None or not e.loops:
                    continue
                k = (e.where, lo, hi, tuple(sorted((show(f, 3), v) for f, v in e.facts.items() if f.op == "cmp")))
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                self.one_window(q.rsplit(".", 1)[-1], r, e, lo, hi)
        c.count("windows", n)
        if not n:
            c.unsure(R_WIN, "workers", "windows", "where windows are widened was not recognised")

    def one_window(self, fn, r, e, lo, hi):
        c, ip = self.c, r.ip
        fn = e.where.split(" in ")[-1] if " in " in e.where else fn
        ls, hs = parts(lo, "max"), parts(hi, "min")
        elems = [x for x in sub_terms(lo) if x.op == "elem" and x[1] in e.loops]
        P = None
        for x in ls:
            l = lin(x)
            for y, k in l[0].items():
                if k == 1 and y.op == "elem" and y[1] in e.loops:
                    P = y
        for what, x, wrong in (("start", lo, "min"), ("end", hi, "max")):
            if x.op == "call" and x[0] == wrong:
                near = [y for y in parts(x, wrong) if any(z.op == "elem" and z[1] in e.loops for z in lin(y)[0])]
                if near and len(near) < len(parts(x, wrong)):
                    c.bad(R_WIN, fn, what, f"the {what} of the window is the {'smaller' if wrong == 'min' else 'larger'} of the document's and the match's: "
                                           "the window is not cut off there", e.where)
                    return
        if P is None:
            c.unsure(R_WIN, fn, "window", f"window from {show(lo, 4)}", e.where)
            return
        inner, keep = copied(P[0])
        if P[0].op == "call" and P[0][0] == "reversed":
            c.unsure(R_WIN, fn, "window", "walked backwards", e.where)
            return
        lb = [x for x in ls if P not in lin(x)[0]]
        hb = [x for x in hs if P not in lin(x)[0]]
        lp = [x for x in ls if P in lin(x)[0]]
        hp = [x for x in hs if P in lin(x)[0]]
        # size of the window
        if len(hp) == 1 and len(lp) == 1:
            a, b = sub(lin(P), lin(lp[0])), sub(lin(hp[0]), lin(P))
            d = sub(b, a)
            if d[0]:
                c.unsure(R_WIN, fn, "size", f"{show(lp[0], 4)} to {show(hp[0], 4)}", e.where)
            elif d[1] == 1 and a[1] == 0:
                c.ok(R_WIN, fn, "size", "the window reaches equally far to both sides", e.where)
            else:
                c.bad(R_WIN, fn, "size", f"the window covers match - {self.off(a)} to match + {self.off((b[0], b[1] - 1))}, not the size asked for on both sides", e.where)
        else:
            c.unsure(R_WIN, fn, "size", "ends of the window", e.where)
        sides = {}
        for what, bs, off in (("start", lb, -1), ("end", hb, 0)):
            if not [x for x in bs if not is_const(x)]:
                p = (lp if what == "start" else hp)
                # limited by a comparison of the path
                if any(f.op == "cmp" and any(has(f, lambda y: y is z) for z in p) for f in e.facts) or len(p) != 1:
                    c.unsure(R_WIN, fn, what, "limited by a condition", e.where)
                else:
                    c.bad(R_WIN, fn, what, f"the window is not cut off at the {what} of the document of the match", e.where)
                continue
            got = None
            for x in bs:
                if is_const(x):
                    continue
                got = self.one_bound(fn, ip, e, what, x, P, off)
                if got is not None:
                    break
            sides[what] = got
        if sides.get("start") in ("fresh", "kept") and sides.get("end") in ("fresh", "kept"):
            if sides["start"] != sides["end"]:
                c.bad(R_WIN, fn, "boundaries", "start and end of the document are not renewed together: a window is cut at the boundaries of two documents", e.where)
            elif sides["start"] == "kept":
                end = next(x for x in hb if not is_const(x))
                up = upper(e.facts, P, end)
                if up is not None and up <= -1:
                    c.ok(R_WIN, fn, "boundaries", "kept only while the match lies before the end", e.where)
                elif up is not None:
                    c.bad(R_WIN, fn, "boundaries", "the boundaries are kept for a match at the first position of the next document", e.where)
                elif any(f.op == "cmp" and has(f, lambda y: y is P) for f in e.facts):
                    c.unsure(R_WIN, fn, "boundaries", "kept under another condition", e.where)
                else:
                    c.bad(R_WIN, fn, "boundaries", "the boundaries are kept without comparing the match with them", e.where)
            else:
                c.ok(R_WIN, fn, "boundaries", "boundaries of the match itself", e.where)

    def off(self, a):
        s = " + ".join(show(x, 2) if k == 1 else f"{k}*{show(x, 2)}" for x, k in a[0].items())
        return s + (f" {'+' if a[1] > 0 else '-'} {abs(a[1])}" if a[1] else "") or "0"

    def one_bound(self, fn, ip, e, what, x, P, off):
        c = self.c
        l = lin(x)
        if len(l[0]) == 1 and l[1] and (next(iter(l[0])).op in ("mu",) or self.boundary(next(iter(l[0])), P, e, ip)):
            c.bad(R_WIN, fn, what, f"the {what} of the document is taken as {self.off(l)}", e.where)
            return "bad"
        if x.op == "mu":
            m = ip.mus.get(x)
            if m is None:
                return None
            ok = False
            for v, ct, facts, mon in m["backs"]:
                for o in options(v):
                    if o is x:
                        continue
                    b = self.boundary(o, P, e, ip)
                    if b is None:
                        c.unsure(R_WIN, fn, what, f"boundary {show(o, 4)}", e.where)
                        return None
                    if not self.fit(fn, e, what, b, P, off):
                        return "bad"
                    ok = True
            if not ok:
                return None
            return "kept"
        b = self.boundary(x, P, e, ip)
        if b is None:
            c.unsure(R_WIN, fn, what, f"boundary {show(x, 4)}", e.where)
            return None
        return "fresh" if self.fit(fn, e, what, b, P, off) else "bad"

    def fit(self, fn, e, what, b, P, off, rule=R_WIN):
        c = self.c
        k, coll, ranked, arg = b
        if coll is not ranked:
            c.unsure(rule, fn, what, "ranked in another collection", e.where)
            return True
        for x in (coll,):
            o = self.origin(x)
            if o is not None and o[0] and ("position_doc_map", "doc_boundaries") not in o[0]:
                c.bad(rule, fn, what, f"{sorted(o[0])[0][1]} is used as the boundaries of the documents", e.where)
                return False
        if arg is not P:
            d = sub(lin(arg), lin(P))
            if not d[0]:
                c.bad(rule, fn, what, f"the document of position {d[1]:+d} from the match is used", e.where)
                return False
            if not has(arg, lambda y: y.op == "mu" or y is P):
                c.bad(rule, fn, what, "the boundaries are those of another match", e.where)
                return False
            c.unsure(rule, fn, what, f"boundaries of {show(arg, 3)}", e.where)
            return True
        if k != off:
            c.bad(rule, fn, what, f"boundary number rank{k:+d} is used as the {what} of the document (rank{off:+d} is right)", e.where)
            return False
        c.ok(rule, fn, what, "boundary of the document of the match", e.where)
        return True

    # ==================================================================== walking the matches
    def passage(self, e):
        """(field, first, last, count or None) terms of a recorded passage."""
        a = None
        if e.kind == "mutate" and e.d["op"] in ("add", "append") and e.d["args"]:
            a = e.d["args"][-1]
        if not isinstance(a, T) or a.op not in ("tuple", "list") or len(a.args) < 3:
            return None
        if not (isinstance(a[1], T) and isinstance(a[2], T)):
            return None
        l1, l2 = lin(a[1]), lin(a[2])
        neg1 = [x for x, k in l1[0].items() if k < 0]
        neg2 = [x for x, k in l2[0].items() if k < 0]
        if not neg1 and not neg2:
            mus = lambda l: len(l[0]) == 1 and next(iter(l[0])).op == "mu"
            if not (len(a.args) == 4 and mus(l1) and mus(l2) and isinstance(a[3], T) and a[3].op == "mcall" and a[3][1] == "range_cardinality"):
                return None
        return a

    def walks(self):
        c = self.c
        n = 0
        for q, uses in self.runs("score_passages_dnf"):
            fn = q.rsplit(".", 1)[-1]
            r = self.lab.run_worker(q, max_states=8, monitors=[Keep()], key=("c06win",))
            ps = [(e, self.passage(e)) for e in r.of("mutate")]
            ps = [(e, a) for e, a in ps if a is not None]
            if not ps:
                continue
            n += 1
            L = None
            loops = lambda v: {r.ip.mus[x]["loop"] for x, k in lin(v)[0].items() if k == 1 and x.op == "mu" and r.ip.mus.get(x, {}).get("loop")}
            for e, a in ps:
                both = loops(a[1]) & loops(a[2])
                if both:
                    L = sorted(both)[-1]
                    break
            for e, a in ps if L is None else ():
                for x in sub_terms(tup(*a.args)):
                    if x.op == "mu" and r.ip.mus.get(x, {}).get("loop"):
                        L = r.ip.mus[x]["loop"]
            if L is None:
                c.unsure(R_WALK, fn, "walk", "the walk over the matches was not recognised")
                continue
            mon = Walk(lambda ev: L if self.passage(ev) is not None else None)
            mon.loops = {L}
            r = self.lab.run_worker(q, max_states=24, monitors=[Keep(), mon], key=("c06walk", c.pid))
            self.one_walk(fn, r, L)
        c.count("walks", n)
        if not n:
            c.unsure(R_WALK, "workers", "walk", "no worker of score_passages_dnf records passages")

    def one_walk(self, fn, r, L):
        c, ip = self.c, r.ip
        M = {m: d for m, d in ip.mus.items() if d["loop"] == L}
        it = ip.loopinfo.get(L)
        P = None
        for e in r.of("iter"):
            if e.d["loop"] == L:
                P = e.d["elem"]
        if P is None or P.op != "elem":
            c.unsure(R_WALK, fn, "walk", "element of the walk")
            return
        self.walk_range(fn, it, M, P)
        seen = set()
        roles = {}
        for e in r.of("mutate"):
            a = self.passage(e)
            if a is None:
                continue
            if (e.where, a, e.d["ref"]) in seen:
                continue
            seen.add((e.where, a, e.d["ref"]))
            self.one_passage(fn, r, e, a, M, P, L, roles)
        if not all(k in roles for k in ("first", "last")):
            c.unsure(R_WALK, fn, "walk", "first and last match of the running passage were not recognised")
            return
        self.transitions(fn, r, L, M, P, roles)
        self.last_one(fn, r, L, roles)

    def walk_range(self, fn, it, M, P):
        c = self.c
        x = it
        skip = 0
        inner, keep = copied(x)
        if not keep:
            c.unsure(R_DROP, fn, "walk", "order of the matches")
            return
        if inner.op == "item" and isinstance(inner[1], T) and inner[1].op == "slice":
            a, b, s = (list(inner[1].args) + [None, None, None])[:3]
            if isinstance(b, T) and not is_const(b, None) or isinstance(s, T) and not is_const(s, None, 1):
                c.bad(R_DROP, fn, "walk", "only some of the matches are walked", "")
                return
            skip = a[0] if is_const(a) and isinstance(a[0], int) else 0 if not isinstance(a, T) or is_const(a, None) else None
            inner = inner[0]
        elif inner.op == "call" and inner[0] == "itertools.islice":
            ar = inner[1]
            if len(ar) >= 3 and is_const(ar[1]) and is_const(ar[2], None):
                skip, inner = ar[1][0] or 0, ar[0]
            else:
                c.bad(R_DROP, fn, "walk", "only some of the matches are walked") if len(ar) == 2 else c.unsure(R_DROP, fn, "walk", "islice")
                return
        self.walked = inner
        if skip is None:
            c.unsure(R_DROP, fn, "walk", "start of the walk")
        elif skip > 1:
            c.bad(R_DROP, fn, "walk", f"the walk begins at match number {skip + 1}: the ones before are left out of their passage")
        elif skip < 0:
            c.bad(R_DROP, fn, "walk", "only the last matches are walked")
        else:
            c.ok(R_DROP, fn, "walk", "all matches are walked")

    def one_passage(self, fn, r, e, a, M, P, L, roles):
        c, ip = self.c, r.ip
        l1, l2 = lin(a[1]), lin(a[2])
        n1 = [x for x, k in l1[0].items() if k == -1]
        n2 = [x for x, k in l2[0].items() if k == -1]
        p1 = [x for x, k in l1[0].items() if k == 1]
        p2 = [x for x, k in l2[0].items() if k == 1]
        w = e.where
        if len(p1) != 1 or len(p2) != 1 or len(n1) > 1 or len(n2) > 1 or len(l1[0]) > 2 or len(l2[0]) > 2:
            c.unsure(R_SPAN, fn, "passage", show(a, 4), w)
            return
        x, y = p1[0], p2[0]
        if not n1 or not n2:
            c.bad(R_SPAN, fn, "passage", "the passage is not recorded relative to the start of its document", w)
        elif n1[0] is not n2[0]:
            c.bad(R_SPAN, fn, "passage", "first and last match of a passage are taken relative to different starts", w)
        elif l1[1] or l2[1]:
            c.bad(R_SPAN, fn, "passage", f"the passage is shifted from its matches: first {l1[1]:+d}, last {l2[1]:+d}", w)
        else:
            c.ok(R_SPAN, fn, "passage", "first and last match relative to the start of the document", w)
        if x.op == "mu" and y.op == "mu" and x is not y:
            # the first match is the one that some path keeps while the other moves on
            roles.setdefault("first", x)
            roles.setdefault("last", y)
            if roles["first"] is not x or roles["last"] is not y:
                c.bad(R_SPAN, fn, "order", "passages are recorded with first and last match exchanged", w)
        elif x.op == "mu" and y is P or y.op == "mu" and x is P:
            if y is P:
                c.bad(R_SPAN, fn, "passage end", "a passage is recorded up to the match that begins the next one", w)
            else:
                c.bad(R_SPAN, fn, "passage end", "a passage is recorded from the match that begins the next one", w)
        elif x is y:
            c.bad(R_SPAN, fn, "passage end", "a passage is recorded with its first match as its last", w)
        if n1:
            roles.setdefault("ds", set()).add(n1[0])
        # matches counted
        if len(a.args) > 3 and isinstance(a[3], T):
            k = a[3]
            if k.op == "mcall" and k[1] == "range_cardinality" and len(k[2]) == 2:
                lo, hi = sub(lin(k[2][0]), lin(x)), sub(lin(k[2][1]), lin(y))
                if lo[0] or hi[0]:
                    c.unsure(R_SPAN, fn, "count", show(k, 4), w)
                elif lo[1] == 0 and hi[1] == 1:
                    c.ok(R_SPAN, fn, "count", "matches from first to last", w)
                else:
                    c.bad(R_SPAN, fn, "count", f"matches are counted from first{lo[1]:+d} to last{hi[1] - 1:+d}", w)
            else:
                c.unsure(R_SPAN, fn, "count", show(k, 4), w)
        # the document it is recorded for
        ref = e.d["ref"]
        D = ref[1] if isinstance(ref, T) and ref.op == "item" else None
        if isinstance(D, T):
            roles.setdefault("doc", set()).add(D)
            fresh = lambda z: isinstance(z, T) and z.op == "item"
            if L in e.loops and x.op == "mu":
                if fresh(D):
                    c.bad(R_WALK, fn, "document", "a passage is recorded for the document of the next match", w)
                elif n1 and fresh(n1[0]):
                    c.bad(R_WALK, fn, "document", "a passage is recorded relative to the start of the next document", w)
                else:
                    c.ok(R_WALK, fn, "document", "document and start of the running passage", w)
        else:
            c.unsure(R_WALK, fn, "document", "document of the passage", w)

    def ranked(self, v, P, coll=None):
        """offset when v is X[rank(P) + offset]"""
        b = self.boundary(v, P, None, None)
        if b is None:
            return None
        return b

    def transitions(self, fn, r, L, M, P, roles):
        c, ip = self.c, r.ip
        F, Z = roles["first"], roles["last"]
        ds = next((x for x in roles.get("ds", ()) if x.op == "mu" and x in M), None)
        doc = next((x for x in roles.get("doc", ()) if x.op == "mu" and x in M), None)
        if F not in M or Z not in M:
            c.unsure(R_WALK, fn, "walk", "state of the walk")
            return
        n = len(M[F]["backs"])
        # the end of the document: a loop variable renewed from the boundaries
        end = None
        for m in M:
            if m in (F, Z, ds, doc):
                continue
            for v, ct, facts, mon in M[m]["backs"]:
                b = self.boundary(v, P, None, None) if isinstance(v, T) else None
                if b is not None and self.bounds(b[1]) is not False and (ds is None or not any(self.boundary(o, P, None, None) and
                                                                         self.boundary(o, P, None, None)[1] is not b[1] for q in M[ds]["backs"] for o in options(q[0]) if o is not ds)):
                    end = end or m
        moves = F in M and Z in M and any(v is P for v, *_ in M[F]["backs"])
        if moves:
            f0 = M[F]["init"]
            still = lambda x: isinstance(x, T) and x.op == "item" and self.boundary(x, f0, None, None) is not None
            for what, xs in (("start", roles.get("ds", ())), ("document", roles.get("doc", ()))):
                if xs and all(still(x) for x in xs):
                    c.bad(R_WALK, fn, what, f"the {what} of the first document is used for all passages")
                    return
            if end is None:
                for v, ct, facts, mon in M[F]["backs"]:
                    if any(f.op == "cmp" and has(f, lambda y: y is P) and any(isinstance(y, T) and still(y) for y in f.args) for f in facts):
                        c.bad(R_WALK, fn, "end", "matches are compared with the end of the first document only")
                        return
        if ds is None or any(len(M[m]["backs"]) != n for m in (F, Z, ds)):
            c.unsure(R_WALK, fn, "walk", "state of the walk")
            return
        self.starts_walk(fn, M, P, F, Z, ds, doc, end)
        for i in range(n):
            f1, facts, mon = M[F]["backs"][i][0], M[F]["backs"][i][2], M[F]["backs"][i][3]
            z1, s1 = M[Z]["backs"][i][0], M[ds]["backs"][i][0]
            d1 = M[doc]["backs"][i][0] if doc is not None else None
            e1 = M[end]["backs"][i][0] if end is not None else None
            flushed = mon.get("walk", ("", 0, 0))[1]
            if any(v is not None and (not isinstance(v, T) or v.op == "phi") for v in (f1, z1, s1, d1, e1)):
                c.unsure(R_WALK, fn, "walk", "paths of the walk were merged")
                continue
            tell = "" if not facts else " when " + " and ".join(("" if v else "not ") + show(f, 4) for f, v in facts.items() if has(f, lambda y: y is P))[:160]
            # the running passage
            if z1 is not P:
                c.decide(False if z1 is Z or z1 is F else None, R_SPAN, fn, "last match", f"a match does not become the last match of its passage{tell}")
            if flushed and f1 is F:
                c.bad(R_SPAN, fn, "first match", f"a recorded passage is continued: the next passage begins with its first match{tell}")
            elif not flushed and f1 is P:
                c.decide(False if not self.tested(facts, F) else None, R_DROP, fn, "new passage", f"a new passage is begun without recording the running one{tell}")
            elif flushed > 1:
                c.unsure(R_SPAN, fn, "twice", "a passage is recorded twice")
            elif f1 not in (F, P):
                c.unsure(R_SPAN, fn, "first match", show(f1, 4))
            else:
                c.ok(R_DROP, fn, "new passage", "begun after recording the running one")
                c.ok(R_SPAN, fn, "first match", "kept until the passage is recorded")
            # the document
            new = [("start", s1, ds, -1), ("document", d1, doc, -1), ("end", e1, end, 0)]
            fresh = {}
            wrong = False
            for what, v, m, off in new:
                if m is None:
                    continue
                if v is m:
                    fresh[what] = False
                    continue
                b = self.boundary(v, P, None, None)
                if b is None:
                    fresh[what] = None
                    c.unsure(R_WALK, fn, what, show(v, 4))
                    continue
                fresh[what] = True
                if b[3] is not P:
                    d = sub(lin(b[3]), lin(P))
                    c.decide(False if not d[0] or b[3] in (F, Z) else None, R_WALK, fn, what, f"the {what} of another match's document is taken{tell}")
                    wrong = True
                elif b[0] != off:
                    c.bad(R_WALK, fn, what, f"the {what} is taken at rank{b[0]:+d}; rank{off:+d} is the document of the match")
                    wrong = True
                else:
                    c.ok(R_WALK, fn, what, "of the document of the match")
                want = "doc_ids" if what == "document" else "doc_boundaries"
                o = self.origin(b[1])
                if o is not None and o[0] and ("position_doc_map", want) not in o[0]:
                    c.bad(R_WALK, fn, what, f"the {what} is read from {sorted(o[0])[0][1]}")
            vals = set(fresh.values())
            if None in vals or wrong:
                continue
            if vals == {True, False}:
                stale = ", ".join(k for k, v in fresh.items() if v is False)
                c.bad(R_WALK, fn, "together", f"the {stale} of the next document is not taken with the rest{tell}")
            elif vals == {True}:
                if not flushed:
                    up = upper(facts, P, end) if end is not None else None
                    c.decide(True if up is not None and up <= -1 else None if self.tested(facts, F) else False, R_WALK, fn, "next document",
                             f"a passage is continued into the next document{tell}")
                else:
                    c.ok(R_WALK, fn, "next document", "recorded before moving on to the next document")
            else:
                if end is None:
                    c.bad(R_WALK, fn, "same document", f"matches are added to a passage without comparing them with the end of the document{tell}") \
                        if all(fresh[k] is False for k in fresh) and not any(self.boundary(v, P, None, None) for m in M for v, *_ in M[m]["backs"] if isinstance(v, T)) \
                        else c.unsure(R_WALK, fn, "same document", "end of the document")
                    continue
                up = upper(facts, P, end)
                if up is not None and up <= -1:
                    c.ok(R_WALK, fn, "same document", "only for matches before the end of the document")
                elif up is not None:
                    c.bad(R_WALK, fn, "same document", f"the first position of the next document counts as part of this one{tell}")
                elif any(has(f, lambda y: y is end) for f in facts):
                    c.unsure(R_WALK, fn, "same document", f"other comparison{tell}")
                else:
                    c.bad(R_WALK, fn, "same document", f"a match is taken into the running document without comparing it with the end{tell}")

    def bounds(self, x):
        o = self.origin(x)
        if o is None or not o[0]:
            return None
        return ("position_doc_map", "doc_boundaries") in o[0]

    def tested(self, facts, m):
        """A condition on whether a passage is running at all."""
        return any((f.op == "truth" and has(f, lambda y: y is m)) or f.op == "cmp" and f[0] in ("is", "is not", "==", "!=") and has(f, lambda y: y is m)
                   and (is_const(f[1]) or is_const(f[2])) for f in facts)

    def starts_walk(self, fn, M, P, F, Z, ds, doc, end):
        """Before the first iteration: both matches are the first one, in its own document."""
        c = self.c
        f0, z0 = M[F]["init"], M[Z]["init"]
        w = getattr(self, "walked", None)
        if not isinstance(f0, T) or not isinstance(z0, T):
            return
        if f0 is not z0:
            c.decide(False if f0.op == z0.op == "item" else None, R_SPAN, fn, "walk start", "first and last match of the first passage are different positions")
            return
        if f0.op == "item" and is_const(f0[1]) and isinstance(f0[1][0], int):
            if f0[1][0] == 0:
                c.ok(R_DROP, fn, "walk start", "begins with the first match")
            else:
                c.bad(R_DROP, fn, "walk start", f"the first passage begins with match number {f0[1][0]}")
        else:
            c.unsure(R_DROP, fn, "walk start", show(f0, 3))
            return
        for what, m, off in (("start", ds, -1), ("document", doc, -1), ("end", end, 0)):
            if m is None:
                continue
            v = M[m]["init"]
            b = self.boundary(v, f0, None, None) if isinstance(v, T) else None
            if b is None:
                fixed = isinstance(v, T) and (what == "start" and is_const(v, 0) or v.op == "item" and is_const(v[1]) and isinstance(v[1][0], int)
                                              and v[1][0] >= 0 and self.origin(v[0]) is not None)
                c.decide(False if fixed else None, R_WALK, fn, f"first {what}", f"the first match need not be in the first document: {what} is "
                         + (show(v, 4) if isinstance(v, T) else str(v)))
            elif b[3] is not f0:
                c.unsure(R_WALK, fn, f"first {what}", show(b[3], 3))
            elif b[0] != off:
                c.bad(R_WALK, fn, f"first {what}", f"the {what} of the first document is taken at rank{b[0]:+d}, not rank{off:+d}")
            else:
                c.ok(R_WALK, fn, f"first {what}", "of the document of the first match")

    def last_one(self, fn, r, L, roles):
        c = self.c
        n = 0
        for k, v, st in r.outs:
            if k != "return":
                continue
            s = st.mon.get("walk", ("", 0, 0))
            if s[0] != "L":
                why = self.said_empty(st.facts, None)
                if why:
                    c.ok(R_DROP, fn, "early", "returns early only when nothing matches")
                elif any(is_size(f) and not size_test(f, not v2) for f, v2 in st.facts.items()):
                    c.bad(R_DROP, fn, "early", "returns without passages although there are matches")
                else:
                    c.unsure(R_DROP, fn, "early", "early return")
                continue
            n += 1
            if s[2] == 3:
                c.ok(R_DROP, fn, "last passage", "recorded after the walk")
            elif self.tested(st.facts, roles["first"]) or self.tested(st.facts, roles["last"]):
                c.unsure(R_DROP, fn, "last passage", "recorded under a condition")
            else:
                c.bad(R_DROP, fn, "last passage", "the passage running at the end of the walk is not recorded"
                      + "".join(" when " + ("" if v2 else "not ") + show(f, 4) for f, v2 in st.facts.items()
                                if has(f, lambda y: y is roles["first"] or y is roles["last"]))[:200])
        if not n:
            c.unsure(R_DROP, fn, "last passage", "no path through the walk")

    # ==================================================================== slices of documents
    def slices(self):
        c = self.c
        n = 0
        runs = [(q.rsplit(".", 1)[-1], self.lab.run_worker(q, max_states=4)) for q, uses in self.runs()]
        for m in self.lab.all_methods(self.cls):
            if m in ("__init__", "__setstate__", "__getstate__", "index"):
                continue
            f = self.cls.find(m)
            if f is None or m.startswith("_"):
                continue
            try:
                runs.append((f"Index.{m}", self.lab.run_method(self.cls, m, max_states=2)))
            except (AnalysisError, RecursionError):
                continue
        seen = set()
        for fn, r in runs:
            for e in r.events:
                for v in e.d.values():
                    for x in ([v] if isinstance(v, T) else [y for y in v if isinstance(y, T)] if isinstance(v, tuple) else []):
                        for y in sub_terms(x):
                            if y.op == "item" and isinstance(y[1], T) and y[1].op == "slice" and has(y[0], lambda z: z.op == "mcall" and z[1] == "index") and \
                                    any(isinstance(z, T) and not is_const(z) for z in y[1].args[:2]):
                                k = (e.where.split(" in ")[-1], y)
                                if k in seen:
                                    continue
                                seen.add(k)
                                n += 1
                                self.one_slice(fn, r, e, y)
        c.count("slices", n)
        if not n:
            c.unsure(R_SHOW, "renderers", "slices", "where passages are cut out of documents was not recognised")

    def one_slice(self, fn, r, e, x):
        c = self.c
        a, b = x[1][0], x[1][1]
        w = e.where
        if isinstance(x[1].args[2], T) and not is_const(x[1].args[2], None, 1):
            c.bad(R_SHOW, fn, "step", "values of the passage are skipped", w)
            return
        if isinstance(a, T) and a.op in ("ite", "phi") or isinstance(b, T) and b.op in ("ite", "phi"):
            c.unsure(R_SHOW, fn, "slice", show(x[1], 4), w)
            return
        pa = parts(a, "max") if isinstance(a, T) else [const(None)]
        pb = parts(b, "min") if isinstance(b, T) else [const(None)]
        zero = [y for y in pa if is_const(y) and isinstance(y[0], int)]
        la = [y for y in pa if not (is_const(y))]
        lb = [y for y in pb if not is_const(y) and not (y.op == "call" and y[0] == "len")]
        if len(la) != 1 or len(lb) != 1:
            if (not la and self.cut(e, pb)) or (la and not lb and self.cut(e, pa)):
                c.unsure(R_SHOW, fn, "slice", "an end is cut off under a condition")
            elif not lb and not [y for y in pb if not is_const(y)] or not la:
                c.bad(R_SHOW, fn, "slice", "the values shown do not begin and end around the match", w)
            else:
                c.unsure(R_SHOW, fn, "slice", show(x[1], 4), w)
            return
        A, B = lin(la[0]), lin(lb[0])
        if a in B[0] and zero:
            c.bad(R_SHOW, fn, "ends", "the end of the slice is counted from the start after it was cut off: near the beginning of a document it reaches further "
                                      "than the size asked for", w)
            return
        # may the start be negative?
        if any(k < 0 for k in A[0].values()) or A[1] < 0:
            if not zero:
                known = any(f.op == "cmp" and has(f, lambda y: y in A[0]) for f in e.facts)
                c.decide(None if known else False, R_SHOW, fn, "start", "the start of the slice can be negative: values are counted from the end of the document", w)
            elif zero[0][0] != 0:
                c.bad(R_SHOW, fn, "start", f"the slice never begins before position {zero[0][0]}", w)
            else:
                c.ok(R_SHOW, fn, "start", "cut off at the first value", w)
        pa_, pb_ = [y for y, k in A[0].items() if k == 1], [y for y, k in B[0].items() if k == 1]
        na = [y for y, k in A[0].items() if k == -1]
        if len(pa_) != 1 or len(na) > 1 or any(abs(k) != 1 for k in list(A[0].values()) + list(B[0].values())):
            c.unsure(R_SHOW, fn, "ends", show(x[1], 4), w)
            return
        s = pa_[0]
        ov = na[0] if na else None
        ends = [y for y in pb_ if y is not ov]
        if any(k == -1 for k in B[0].values()) or len(ends) != 1:
            c.unsure(R_SHOW, fn, "ends", show(x[1], 4), w)
            return
        z = ends[0]
        if (ov is None) != (ov not in pb_) if ov is not None else False:
            pass
        if ov is not None and ov not in B[0]:
            c.bad(R_SHOW, fn, "ends", "the overhang is only shown before the passage", w)
            return
        if ov is None and len(pb_) > 1:
            c.bad(R_SHOW, fn, "ends", "the overhang is only shown after the passage", w)
            return
        if z is s and s.op in ("idx", "mu"):
            pass
        elif z is s:
            k = s[1][0] if s.op == "item" and is_const(s[1]) else None
            c.decide(False if k in (1, 2) else None, R_SHOW, fn, "ends", "the passage is shown around its first match only" if k == 1 else
                     "the passage is shown around its last match only", w)
            return
        elif s.op == "item" and z.op == "item" and s[0] is z[0] and is_const(s[1]) and is_const(z[1]):
            if (s[1][0], z[1][0]) != (1, 2):
                c.bad(R_SHOW, fn, "ends", f"the passage is shown from its item {s[1][0]} to its item {z[1][0]}", w)
                return
            f = x[0][1] if x[0].op == "item" else None
            if isinstance(f, T) and f.op == "item" and f[0] is s[0] and not is_const(f[1], 0):
                c.bad(R_SHOW, fn, "field", "the passage is cut out of another field", w)
            elif isinstance(f, T) and f.op == "item" and f[0] is not s[0]:
                c.unsure(R_SHOW, fn, "field", show(f, 3), w)
            else:
                c.ok(R_SHOW, fn, "field", "values of the passage's field", w)
        else:
            c.unsure(R_SHOW, fn, "ends", show(x[1], 4), w)
            return
        if A[1] == 0 and B[1] == 1:
            c.ok(R_SHOW, fn, "ends", "from first to last match with the overhang", w)
        elif B[1] < 1 or A[1] > 0:
            c.bad(R_SHOW, fn, "ends", f"the slice leaves out {'the last' if B[1] < 1 else 'the first'} value: it runs from start{A[1]:+d} to end{B[1] - 1:+d}", w)
        else:
            c.bad(R_SHOW, fn, "ends", f"the slice runs from start{A[1]:+d} to end{B[1] - 1:+d}", w)

    def cut(self, e, known):
        """Does the path compare the matches (or what the other end is made of) with something?"""
        atoms = {x for y in known if isinstance(y, T) and not is_const(y) for x in lin(y)[0]}
        atoms |= {x[0] for x in atoms if x.op == "item" and isinstance(x[0], T)}
        return any(f.op == "cmp" and has(f, lambda y: y in atoms) for f in e.facts)

    # ==================================================================== readers
    def reads(self):
        c = self.c
        seen = set()
        n = 0
        self.partition_params()
        for q, uses in self.runs():
            fn = q.rsplit(".", 1)[-1]
            r = self.lab.run_worker(q, max_states=4)
            for e in r.of("sql"):
                if not is_const(e.d["sql"]) or e.d["word"] not in ("select", "with"):
                    continue
                Q = self.query(e.d["sql"][0])
                if Q is None:
                    continue
                for tb, keys in (("position_index", ("feature_id", "first_doc_id")), ("position_doc_map", ("field", "first_doc_id"))):
                    if not Q.inst(tb):
                        continue
                    k = (fn, e.d["sql"], e.d["params"])
                    if k in seen:
                        continue
                    seen.add(k)
                    n += 1
                    self.one_read(fn, q, r, e, Q, tb, keys)
        c.count("position queries", n)
        if not n:
            c.unsure(R_READ, "workers", "queries", "no query of positions was recognised")

    def partition_params(self):
        """worker -> {parameter name: role} from what is submitted."""
        self.parts_ = {}
        for q, uses in self.lab.workers().items():
            for r, e in uses:
                if e.d.get("many"):
                    continue
                names = r.ip.fns[q].posargs
                given = dict(zip(names, e.d["args"]))
                given.update(e.d["kw"])
                for n, v in given.items():
                    if not isinstance(v, T):
                        continue
                    for o in options(v):
                        cut = False
                        if o.op == "elem" and o[0].op in ("list", "comp", "cell", "call", "item"):
                            y = o[0]
                            heap = getattr(e, "heap", None) or r.ip.gstate.heap
                            for _ in range(8):
                                if y.op == "call" and y[0] in ("list", "set", "sorted", "tuple", "iter", "itertools.islice") and y[1]:
                                    cut = cut or y[0] == "itertools.islice"
                                    y = y[1][0]
                                elif y.op == "item" and isinstance(y[1], T) and y[1].op == "slice":
                                    cut = cut or any(isinstance(z, T) and not is_const(z, None) for z in y[1].args)
                                    y = y[0]
                                elif y.op == "cell":
                                    z = r.ip.shape(y, heap)
                                    if z is y:
                                        break
                                    y = z
                                else:
                                    break
                            o = y[1] if y.op == "comp" and isinstance(y[1], T) else o
                        og = self.origin(o)
                        if og is not None and ("position_doc_map", "first_doc_id") in og[0]:
                            self.parts_.setdefault(q, {})[n] = ("part", og, v, r, e, given)
                            if cut:
                                self.c.bad(R_PART, r.name, "all partitions", "only some of the partitions are processed", e.where)

    def role(self, q, v):
        if not isinstance(v, T):
            return None
        if v.op == "param":
            n = v[-1]
            if n in self.parts_.get(q, {}):
                return "part"
            for m, (k, og, pv, r, e, given) in self.parts_.get(q, {}).items():
                # the value the partition was selected by: the field
                for col, p in self.wheres(og[1]).items():
                    a = argument(og[2], p, r.ip, getattr(e, "heap", {}) or r.ip.gstate.heap) if p is not None else None
                    if col == "field" and a is not None and a is given.get(n):
                        return "field"
            return None
        return None

    def wheres(self, Q):
        out = {}
        for c_ in Q.where:
            if c_.op == "cmp" and c_[0] in ("=", "is"):
                for a, b in ((c_[1], c_[2]), (c_[2], c_[1])):
                    if a.op == "c" and b.op == "param":
                        out[low(a[1])] = b[0]
        return out

    def one_read(self, fn, q, r, e, Q, tb, keys):
        c = self.c
        W = {}
        for x in Q.where:
            if x.op == "cmp" and x[0] in ("=", "is"):
                for a, b in ((x[1], x[2]), (x[2], x[1])):
                    if a.op == "c" and b.op == "param":
                        for t_, cn in Q.names(a) | {(a[0][0] if a[0].op == "inst" else None, low(a[1]))}:
                            if t_ == tb or cn == "field":
                                W[cn] = b[0]
        w = e.where
        joined = {i[0] for jt, i, on, u in Q.frm if i.op == "inst"}
        heap = getattr(e, "heap", None) or r.ip.gstate.heap
        if tb == "position_index" and "inverted_index" in joined:
            need = ("field", "first_doc_id")
        else:
            need = keys
        if Q.limit is not None and need[0] == "field" and tb == "position_index":
            c.bad(R_READ, fn, "limit", "only some of the features of the field are counted", w)
        for k in need:
            if k not in W:
                mentioned = any(y.op == "c" and low(y[1]) == k for x in Q.where for y in sub_terms(x)) or \
                    any(on is not None and any(y.op == "param" for y in sub_terms(on)) for jt, i, on, u in Q.frm)
                if mentioned:
                    c.unsure(R_READ, fn, f"{tb} {k}", "selected by another condition", w)
                else:
                    c.bad(R_READ, fn, f"{tb} {k}", f"{tb} is read for every {'batch' if k == 'first_doc_id' else k.replace('_id', '')}, not for the one asked for", w)
                continue
            v = argument(e.d["params"], W[k], r.ip, heap) if isinstance(e.d["params"], T) else None
            role = self.role(q, v)
            if v is None:
                c.unsure(R_READ, fn, f"{tb} {k}", "parameter", w)
            elif k == "first_doc_id":
                if role == "part":
                    c.ok(R_READ, fn, f"{tb} {k}", "the batch of the task", w)
                elif role == "field" or v.op == "elem" or is_const(v):
                    c.bad(R_READ, fn, f"{tb} {k}", f"the batch is selected by {show(v, 3)}", w)
                else:
                    c.unsure(R_READ, fn, f"{tb} {k}", show(v, 3), w)
            elif role == "part":
                c.bad(R_READ, fn, f"{tb} {k}", f"the number of the batch is used as {k}", w)
            elif k == "field":
                if role == "field":
                    c.ok(R_READ, fn, f"{tb} {k}", "the field of the task", w)
                else:
                    c.unsure(R_READ, fn, f"{tb} {k}", show(v, 3), w)
            else:
                c.ok(R_READ, fn, f"{tb} {k}", f"feature {show(v, 2)}", w)

    # ==================================================================== collocations
    def collocations(self):
        c = self.c
        for q, uses in self.runs("count_collocations"):
            fn = q.rsplit(".", 1)[-1]
            r = self.lab.run_worker(q, max_states=4, monitors=[Keep()], key=("c06win",))
            self.counted(fn, q, r)
            self.given(fn, q, uses, r)

    def counted(self, fn, q, r):
        c = self.c
        n = 0
        for e in r.of("mutate"):
            a = e.d["args"][-1] if e.d["args"] else None
            if e.d["op"] not in ("add", "append") or not isinstance(a, T) or a.op != "tuple" or len(a.args) < 2:
                continue
            feat = a[0]
            for x in a.args[1:]:
                for y in sub_terms(x) if isinstance(x, T) else ():
                    o = self.origin(y)
                    if o is None or ("position_index", "positions") not in o[0]:
                        continue
                    k = self.wheres(o[1]).get("feature_id")
                    v = argument(o[2], k, r.ip, e.heap) if k is not None else None
                    if v is None:
                        continue
                    if has(y, lambda z: z.op == "mcall"):
                        continue
                    n += 1
                    if v is feat:
                        c.ok(R_FIELD, fn, "counted", "positions of the feature they are counted for", e.where)
                    elif isinstance(v, T) and v.op == "elem" and isinstance(feat, T):
                        pass
                    else:
                        c.unsure(R_FIELD, fn, "counted", show(v, 3), e.where)
            fo = self.origin(feat) if isinstance(feat, T) else None
            if fo is not None:
                W = self.wheres(fo[1])
                fields = [self.role(q, argument(fo[2], p, r.ip, e.heap)) for k, p in W.items() if k == "field"]
                if "field" in fields:
                    c.ok(R_FIELD, fn, "features", "features of the field", e.where)
                elif not fields and not any(y.op == "c" and low(y[1]) == "field" for x in fo[1].where for y in sub_terms(x)) and \
                        not any(f.op == "cmp" and has(f, lambda y: y.op == "param") for f in e.facts):
                    c.bad(R_FIELD, fn, "features", "features of every field are counted", e.where)
                elif fields and fields[0] == "part":
                    c.bad(R_FIELD, fn, "features", "the field is compared with the number of the batch", e.where)
                else:
                    c.unsure(R_FIELD, fn, "features", "selected by another condition", e.where)
        if not n:
            c.unsure(R_FIELD, fn, "counted", "where collocations are counted was not recognised")

    def given(self, fn, q, uses, r):
        """The given features are checked against the field."""
        c = self.c
        for run_, e in uses:
            hit = False
            for ev in run_.of("raise", "sql", "submit"):
                for f in ev.facts:
                    if f.op == "cmp" and any(self.is_field(y) for y in f.args if isinstance(y, T)):
                        hit = True
            for ev in list(run_.of("sql")) + list(r.of("sql")):
                if is_const(ev.d["sql"]):
                    Q = self.query(ev.d["sql"][0])
                    if Q is not None and Q.inst("inverted_index"):
                        W = self.wheres(Q)
                        if "field" in W and "feature_id" in W:
                            hit = True
            name = run_.name
            if hit:
                c.ok(R_FIELD, name, "given features", "the field of the given features is looked at")
            elif any(ev.kind in ("sql",) and is_const(ev.d["sql"]) and "field" in ev.d["sql"][0] and "feature_id" in ev.d["sql"][0].split("from")[-1]
                     for ev in list(run_.of("sql")) + list(r.of("sql")) if not (self.query(ev.d["sql"][0]) and self.query(ev.d["sql"][0]).inst("position_index"))):
                c.unsure(R_FIELD, name, "given features", "fields of features are looked up")
            elif any(not is_const(ev.d["sql"]) for ev in list(run_.of("sql")) + list(r.of("sql"))):
                c.unsure(R_FIELD, name, "given features", "what some statements look up is not known")
            else:
                c.bad(R_FIELD, name, "given features", "positions of given features of other fields are compared with the boundaries of this field", e.where)

    def is_field(self, y):
        o = self.origin(y)
        return o is not None and ("inverted_index", "field") in o[0]

    # ==================================================================== partitions
    def partitions(self):
        c = self.c
        n = 0
        for q, ps in self.parts_.items():
            for name, (k, og, v, r, e, given) in ps.items():
                n += 1
                fn = r.name
                Q = og[1]
                filters, problems, unknown = Q.rows_of("position_doc_map")
                if Q.limit is not None:
                    c.bad(R_PART, fn, "partitions", "only a limited number of partitions is processed", e.where)
                elif problems:
                    c.bad(R_PART, fn, "partitions", f"partitions are left out by {show(problems[0], 3)}", e.where)
                elif unknown:
                    c.unsure(R_PART, fn, "partitions", unknown[0], e.where)
                elif set(filters) == {"field"}:
                    c.ok(R_PART, fn, "partitions", "every partition of the field", e.where)
                elif not filters:
                    c.unsure(R_PART, fn, "partitions", "partitions of every field", e.where)
                else:
                    c.bad(R_PART, fn, "partitions", f"partitions are left out by {', '.join(sorted(set(filters) - {'field'}))}", e.where)
                self.whole_partitions(fn, v, e)
                self.merge_results(fn, r)
        if not n:
            c.unsure(R_PART, "partitions", "partitions", "tasks per partition were not recognised")

    def whole_partitions(self, fn, v, e):
        for o in options(v):
            x = o
            while isinstance(x, T) and x.op in ("elem", "item", "col", "row"):
                if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice" and any(isinstance(y, T) and not is_const(y, None) for y in x[1].args[:2]):
                    self.c.bad(R_PART, fn, "all partitions", "only some of the partitions are processed", e.where)
                    return
                x = x[0]
        if e.loops:
            for lid in e.loops:
                pass
        else:
            self.c.bad(R_PART, fn, "all partitions", "only one partition is processed", e.where)
            return
        self.c.ok(R_PART, fn, "all partitions", "one task per partition", e.where)

    def merge_results(self, fn, r):
        """Results of tasks are added to what other tasks returned."""
        c = self.c
        n = 0
        kept = {x for k, v, st in r.outs if k == "return" and isinstance(v, T) for x in sub_terms(v) if x.op == "cell"}
        for k, v, st in r.outs:
            if k != "return" or not isinstance(v, T):
                continue
            for m in {x for x in sub_terms(v) if x.op == "mu"}:
                for b, ct, facts, mon in r.ip.mus.get(m, {}).get("backs", ()):
                    for o in options(b) if isinstance(b, T) else ():
                        if o is not m and has(o, lambda y: y.op in ("result", "future", "completed")):
                            c.decide(has(o, lambda y: y is m), R_PART, fn, "totals", "the total is that of the last task" if not has(o, lambda y: y is m) else "summed")
        for e in r.of("mutate"):
            ref, a = e.d["ref"], e.d["args"]
            if not a or not isinstance(ref, T):
                continue
            from_task = lambda x: isinstance(x, T) and has(x, lambda y: y.op in ("result", "future", "completed"))
            if not any(from_task(x) for x in a):
                continue
            base = root(ref)
            if base not in kept:
                continue
            if e.d["op"] == "setitem":
                val = a[1] if len(a) > 1 else None
                if not from_task(val):
                    continue
                n += 1
                if has(val, lambda y: y is base or y.op == "mcall" and y[0] is base) or \
                        any(f.op == "cmp" and f[0] in ("in", "not in", "is", "is not", "==", "!=") and has(f, lambda y: y is base) or
                            f.op == "truth" and has(f, lambda y: y is base) for f in e.facts):
                    c.ok(R_PART, fn, "results", "results are added", e.where)
                else:
                    c.bad(R_PART, fn, "results", "the result of a task replaces that of other tasks for the same key", e.where)
            elif e.d["op"] in ("update", "extend") and ref.op == "cell" and ref[0] == "dict" and from_task(a[0]):
                c.bad(R_PART, fn, "results", "the result of a task replaces that of other tasks for the same key", e.where)
                n += 1
            elif e.d["op"] in ("extend", "add"):
                n += 1
                c.ok(R_PART, fn, "results", "results are added", e.where)
        for e in r.of("augitem"):
            n += 1
        if not n:
            c.unsure(R_PART, fn, "results", "where the results of tasks are combined was not recognised")
