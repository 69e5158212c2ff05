"""Where the features and clusters handled by refinement come from (shared by C16 and C17)."""
import re

from sa.interp import Monitor
from sa.lab import *
from sa.rel import Query, argument, cursor_of
from sa.sql import SqlError
from sa.terms import has

COPIES = ("list", "set", "tuple", "frozenset", "sorted", "iter", "reversed", "dict.fromkeys", "array.array", "collections.deque", "pyroaring.BitMap", "dict",
          "collections.OrderedDict", "copy.copy", "copy.deepcopy")


class Keep(Monitor):
    name = "keep"

    def event(self, ev, st, ip):
        if ev.kind in ("mutate", "iter", "raise", "sql", "call", "pcall", "random", "truth", "divide"):
            ev.heap = dict(st.heap)


class Flow:
    """Provenance of features (kind 'feature') and clusters (kind 'cluster') with respect to their pins."""

    def __init__(self, lab, r):
        self.lab, self.r, self.ip = lab, r, r.ip
        self.cat = lab.catalogue("index")
        self.queries = {}
        self.adds = {}
        for e in r.of("mutate"):
            if isinstance(e.d["ref"], T):
                self.adds.setdefault(e.d["ref"], []).append(e)
        self.memo = {}

    # -------------------------------------------------------- rows
    def query(self, text):
        if text not in self.queries:
            try:
                self.queries[text] = Query(self.cat, text)
            except SqlError:
                self.queries[text] = None
        return self.queries[text]

    def column(self, x):
        """(query, names) of a column of a row."""
        if x.op in ("col", "item") and x[0].op == "row" and x[0][0].op == "cursor":
            cur = cursor_of(x[0][0])
            q = self.query(cur[0]) if cur else None
            i = x[1] if not isinstance(x[1], T) else x[1][0] if is_const(x[1]) else None
            if q is not None and isinstance(i, int) and -len(q.cols) <= i < len(q.cols):
                return q, q.column(i) or ()
            if q is not None and isinstance(i, str):
                for k, al in enumerate(q.aliases):
                    if al == i:
                        return q, q.column(k) or ()
            return q, ()
        return None, ()

    def names(self, x):
        return {(n[0], n[1]) for n in self.column(x)[1]}

    def pinned_by_query(self, text, table):
        m = re.search(r"\bwhere\b(.*)$", text, re.I | re.S)
        tabs = set(re.findall(r"\b(?:from|join)\s+(\w+)", text, re.I))
        if not m or not re.search(r"\bpinned\b", m[1], re.I):
            return None if not m or "select" not in m[1].lower() else "unknown"
        w = m[1]
        own = rf"(?:{table}\.)" + ("?" if not ({"cluster", "feature_cluster"} <= {x.lower() for x in tabs}) else "")
        if re.search(r"\b(or|case|select)\b", w, re.I):
            return "unknown"
        if re.search(rf"(\bnot\s+{own}pinned\b|{own}pinned\s*(=|==|is)\s*(0|false)\b)", w, re.I):
            return False
        if re.search(rf"{own}pinned\b", w, re.I):
            return True
        return None if tabs <= {table} else "unknown"

    def rowpin(self, x, facts, kind):
        """Is the row restricted to pinned (True) or unpinned (False) ones?"""
        table = "feature_cluster" if kind == "feature" else "cluster"
        row = x[0]
        cur = cursor_of(row[0])
        if cur is None:
            return "unknown"
        for f, v in facts:
            if f.op == "truth" and f[0].op in ("col", "item") and f[0][0] is row and (table, "pinned") in self.names(f[0]):
                return v
            if f.op == "cmp" and f[0] in ("==", "is") and f[1].op in ("col", "item") and f[1][0] is row and (table, "pinned") in self.names(f[1]) and \
                    is_const(f[2]) and v and f[2][0] is not None:
                return bool(f[2][0])
        tabs = {x.lower() for x in re.findall(r"\b(?:from|join)\s+(\w+)", cur[0], re.I)}
        if table in tabs or table == "feature_cluster":
            return self.pinned_by_query(cur[0], table)
        return None

    # -------------------------------------------------------- elements
    def facts(self, e):
        return list(e.facts.items()) if e is not None else []

    def excluded(self, x, facts, heap, kind, seen):
        """Do the conditions exclude pinned ones? True / False / None (not understood)."""
        maybe = nothing = False
        for f, v in facts:
            if f.op == "cmp" and f[0] in ("in", "not in") and f[1] is x:
                inside = v if f[0] == "in" else not v
                k = self.klass(f[2], heap, kind, seen)
                if k == "pins" and not inside:
                    return True
                if k == "empty" and not inside:
                    nothing = True
                if k is None and not inside:
                    maybe = True
                if inside and "free" == self.only(self.ctag(f[2], heap, kind, seen)):
                    return True
            elif f.op == "truth" and has(f[0], lambda y: y is x) and f[0].op in ("call", "pcall", "fcall", "mcall") and not self.clusterlike(f[0]):
                maybe = True
        return None if maybe else "empty" if nothing else False

    def clusterlike(self, x):
        return x.op == "call" and x[0] == "len"

    @staticmethod
    def only(tags):
        return next(iter(tags)) if len(tags) == 1 else None

    def klass(self, b, heap, kind, seen=frozenset()):
        """Is this the set of all pinned ones ('pins'), something else ('other'), or unknown (None)?"""
        opts = [o for o in options(b) if not self.empty(o, heap)]
        if not opts:
            return "empty"
        if len(opts) > 1:
            ks = {self.klass(o, heap, kind, seen) for o in opts} - {"empty"}
            return "pins" if ks == {"pins"} else None if None in ks else "other"
        b = opts[0]
        if b.op == "bin" and b[0] == "|":
            ks = [self.klass(b[1], heap, kind, seen), self.klass(b[2], heap, kind, seen)]
            return "pins" if "pins" in ks else None if None in ks else "other"
        tags = self.ctag(b, heap, kind, seen)
        if "unknown" in tags:
            return None
        if not tags:
            return None
        if tags == {"pinned"}:
            return "pins"
        return "other"

    def empty(self, x, heap):
        for _ in range(4):
            if x.op == "cell":
                s = self.ip.shape(x, heap)
                if s is x:
                    return False
                if x in self.adds:
                    return False
                if s.op == "phi":
                    return all(o is x or self.empty(o, heap) for o in s.args)
                x = s
                continue
            break
        return x.op in ("list", "tuple", "set") and not x.args or x.op == "call" and x[0] in ("set", "list", "frozenset", "dict") and not x[1] or is_const(x, None)

    def tag(self, x, facts, heap, kind, seen=frozenset()):
        if not isinstance(x, T):
            return {"unknown"}
        ex = self.excluded(x, facts, heap, kind, seen)
        if ex == "empty":
            return {"empty"}
        if ex:
            return {"free"}
        got = self.etag(x, facts, heap, kind, seen)
        if ex is None and got & {"any", "pinned"}:
            return got - {"any", "pinned"} | {"unknown"}
        return got

    def etag(self, x, facts, heap, kind, seen):
        if (x.n, "e") in seen:
            return set()
        seen = seen | {(x.n, "e")}
        if x.op == "phi":
            return set().union(*[self.tag(o, facts, heap, kind, seen) for o in x.args])
        if x.op == "elem":
            return self.ctag(x[0], heap, kind, seen, facts=facts)
        if x.op == "col" or x.op == "item" and x[0].op == "row":
            names = self.names(x)
            want = {"feature_id"} if kind == "feature" else {"cluster_id"}
            if names and {n[1] for n in names} <= want:
                p = self.rowpin(x, facts, kind)
                return {"unknown"} if p == "unknown" else {"pinned"} if p is True else {"free"} if p is False else {"any"}
            if names and not {n[1] for n in names} & want and {n[1] for n in names} <= {"feature_id", "cluster_id"}:
                return {"alien"}
            return {"unknown"}
        if x.op == "item" and is_const(x[1]) and isinstance(x[1][0], int) and x[0].op == "elem":
            return self.ctag(x[0][0], heap, kind, seen, part=x[1][0], facts=facts)
        if x.op == "popped" or x.op == "rand" and x[1] == "choice":
            return self.ctag(x[2][0] if x.op == "rand" else x[0], heap, kind, seen)
        if x.op == "mu":
            d = self.ip.mus.get(x)
            if d is None:
                return {"unknown"}
            out = set()
            for y in [d["init"]] + [b[0] for b in d["backs"]]:
                out |= self.etag(y, facts, heap, kind, seen) if isinstance(y, T) else set()
            return out
        return {"unknown"}

    def ctag(self, c, heap, kind, seen=frozenset(), part=None, facts=()):
        """Tags of the elements of a collection (`part`: of that place of the tuples in it)."""
        if (c.n, "c", part) in seen or len(seen) > 80:
            return set()
        seen = seen | {(c.n, "c", part)}
        go = lambda y, p=part: self.ctag(y, heap, kind, seen, p)  # noqa: E731
        if c.op == "phi":
            return set().union(*[go(o) for o in c.args])
        if c.op == "cell":
            s = self.ip.shape(c, heap)
            if s is not c:
                return self.body(c, s, heap, kind, seen, part)
            return self.by_events(c, heap, kind, seen, part)
        if c.op == "mu":
            d = self.ip.mus.get(c)
            if d is None:
                return {"unknown"}
            out = set()
            for y in [d["init"]] + [b[0] for b in d["backs"]]:
                if isinstance(y, T) and y is not c:
                    out |= go(y)
            return out
        if c.op == "cursor":
            return {"unknown"}
        if c.op == "item" and is_const(c[1]) and isinstance(c[1][0], int) and c[0].op == "call" and c[0][0] in ("max", "min", "next") and c[0][1]:
            return self.inner(c[0][1][0], c[1][0], heap, kind, seen)
        if c.op == "item" and is_const(c[1]) and isinstance(c[1][0], int) and c[0].op == "elem":
            return self.inner(c[0][0], c[1][0], heap, kind, seen)
        if c.op == "item":
            return self.entries(c[0], heap, kind, seen)
        if c.op == "elem":
            # a member of a collection of collections
            return self.members(c[0], heap, kind, seen, part)
        if c.op == "mcall" and c[1] in ("get", "pop", "setdefault") and c[2]:
            return self.entries(c[0], heap, kind, seen)
        if c.op == "popped":
            return self.entries(c[0], heap, kind, seen)
        return self.body(None, c, heap, kind, seen, part)

    def body(self, cell, s, heap, kind, seen, part=None):
        go = lambda y, p=part: self.ctag(y, heap, kind, seen, p)  # noqa: E731
        if s.op == "mu":
            d = self.ip.mus.get(s)
            if d is None:
                return {"unknown"}
            if (s.n, "m", part) in seen:
                return set()
            seen = seen | {(s.n, "m", part)}
            out = set()
            for y in [d["init_content"]] + [b[1] for b in d["backs"]]:
                if isinstance(y, T) and y is not s:
                    out |= self.body(cell, y, heap, kind, seen, part)
            return out
        if s.op == "phi":
            return set().union(*[self.body(cell, o, heap, kind, seen, part) for o in s.args])
        if s.op == "upd":
            op, base, args = s[0], s[1], s[2] if isinstance(s[2], tuple) else (s[2],)
            if op == "minus" and args and kind and self.klass(args[0], heap, kind, seen) == "pins":
                return {"free"}
            out = self.body(cell, base, heap, kind, seen, part)
            if op in ("add", "insert", "heap"):
                x = args[-1]
                if part is not None:
                    if x.op == "tuple" and part < len(x.args):
                        x = x[part]
                    else:
                        return out | {"unknown"}
                evs = [e for e in self.adds.get(cell, ()) if e.d["op"] == op and e.d["args"] and e.d["args"][-1] is args[-1]]
                for e in evs or [None]:
                    out = out | self.tag(x, self.facts(e), getattr(e, "heap", heap), kind, seen)
                return out
            if op == "setitem":
                if part in (None, 0):
                    evs = [e for e in self.adds.get(cell, ()) if e.d["op"] == op and e.d["args"] and e.d["args"][0] is args[0]]
                    for e in evs or [None]:
                        out = out | self.tag(args[0], self.facts(e), getattr(e, "heap", heap), kind, seen)
                    return out
                return out | {"unknown"}
            if op in ("extend", "xor"):
                evs = [e for e in self.adds.get(cell, ()) if e.d["op"] == op and e.d["args"] and e.d["args"][0] is args[0]]
                for e in evs or [None]:
                    out = out | self.joined(e, args[0], heap, kind, seen, part)
                return out
            if op == "inter":
                other = go(args[0])
                return other if other == {"free"} else out
            if op in ("remove", "pop", "sort", "minus", "clear", "delitem", "reverse"):
                return out
            return out | {"unknown"}
        if s.op == "comp":
            x = s[1]
            if part is not None:
                if x.op == "tuple" and part < len(x.args):
                    x = x[part]
                else:
                    return {"unknown"}
            return self.tag(x, [(f, v) for f, v in s[2] if isinstance(f, T)], heap, kind, seen)
        if s.op == "dictcomp":
            return self.tag(s[1] if part in (None, 0) else s[2], [(f, v) for f, v in s[3] if isinstance(f, T)], heap, kind, seen)
        if s.op in ("list", "tuple", "set"):
            out = set()
            for a in s.args:
                out |= go(a[0]) if a.op == "star" else self.tag(a, (), heap, kind, seen) if part is None else {"unknown"}
            return out
        if s.op == "kwdict":
            return set() if not s[0] else {"unknown"}
        if s.op == "call":
            name = str(s[0])
            if name in COPIES:
                a = [x for x in s[1]]
                if name == "array.array":
                    a = a[1:]
                return go(a[0]) if a else set()
            if name == "collections.defaultdict":
                return go(s[1][1]) if len(s[1]) > 1 else set()
            if name in ("filter",) and len(s[1]) > 1:
                return go(s[1][1])
            if name in ("itertools.chain", "itertools.chain.from_iterable"):
                return set().union(*[self.members(x, heap, kind, seen, part) if name.endswith("iterable") else go(x) for x in s[1]])
            if name in ("enumerate", "zip"):
                return go(s[1][0], None) if part == (1 if name == "enumerate" else 0) else {"unknown"}
            return {"unknown"}
        if s.op == "bin":
            if s[0] == "-":
                k = self.klass(s[2], heap, kind, seen)
                if k == "pins":
                    return {"free"}
                if k == "empty":
                    return {"empty"}
                out = go(s[1])
                return out if k is not None or out == {"free"} else out - {"any", "pinned"} | ({"unknown"} if out & {"any", "pinned"} else set())
            if s[0] in ("|", "+", "^"):
                return go(s[1]) | go(s[2])
            if s[0] == "&":
                a, b = go(s[1]), go(s[2])
                for x in (a, b):
                    if x and x <= {"free"} or x and x <= {"pinned"}:
                        return x
                return a | b
            return {"unknown"}
        if s.op == "mcall":
            recv, name, args = s[0], s[1], s[2]
            if name in ("copy", "keys", "__iter__"):
                return go(recv)
            if name == "values":
                return self.entries(recv, heap, kind, seen) if part is not None else {"unknown"}
            if name == "items":
                return go(recv, None) if part == 0 else {"unknown"}
            if name == "difference":
                if any(self.klass(a, heap, kind, seen) == "pins" for a in args):
                    return {"free"}
                return go(recv)
            if name == "union":
                out = go(recv) if not (recv.op in ("ext", "class", "func") or recv.op == "const") else set()
                for a in args:
                    out |= self.members(a[0], heap, kind, seen, None) if a.op == "star" else go(a)
                return out
            if name == "intersection":
                alls = [go(recv)] + [go(a) for a in args]
                return {"free"} if {"free"} in alls else set().union(*alls)
            return {"unknown"}
        if s.op in ("slice",):
            return go(s[0])
        if s.op == "item":
            return go(s[0]) if isinstance(s[1], T) and s[1].op == "slice" else self.entries(s[0], heap, kind, seen)
        if s.op == "rand" and s[1] in ("sample", "choices"):
            return go(s[2][0])
        if s.op == "rows":
            return {"unknown"}
        if s.op in ("cell", "elem"):
            return self.ctag(s, heap, kind, seen, part)
        return {"unknown"}

    def joined(self, e, x, heap, kind, seen, part=None):
        """Tags of elements added together; those written out have the conditions of the place."""
        heap = getattr(e, "heap", heap)
        s = self.ip.shape(x, heap) if x.op == "cell" else x
        if part is None and s.op in ("list", "tuple", "set") and not any(a.op == "star" for a in s.args):
            return set().union(*[self.tag(a, self.facts(e), heap, kind, seen) for a in s.args])
        return self.ctag(x, heap, kind, seen, part)

    def by_events(self, c, heap, kind, seen, part):
        out = set()
        b = self.ip.born.get(c)
        if b is not None:
            out |= self.body(c, b, heap, kind, seen, part)
        for e in self.adds.get(c, ()):
            op, args = e.d["op"], e.d["args"]
            if op in ("add", "insert") and part is None:
                out |= self.tag(args[-1], self.facts(e), getattr(e, "heap", heap), kind, seen)
            elif op == "setitem" and part in (None, 0):
                out |= self.tag(args[0], self.facts(e), getattr(e, "heap", heap), kind, seen)
            elif op == "extend":
                out |= self.joined(e, args[0], heap, kind, seen, part)
            elif op in ("add", "insert", "setitem", "heap"):
                out |= {"unknown"}
        return out if b is not None or out else {"unknown"}

    def inner(self, c, i, heap, kind, seen):
        """Tags of the elements of the collection at place i of the tuples in a collection."""
        for _ in range(8):
            if c.op == "cell":
                s = self.ip.shape(c, heap)
                if s is c:
                    return {"unknown"}
                c = s
            elif c.op == "call" and str(c[0]) in COPIES and c[1]:
                c = c[1][0]
            elif c.op == "upd" and c[0] in ("sort", "reverse", "pop", "remove"):
                c = c[1]
            else:
                break
        if c.op == "mcall" and c[1] == "items":
            return self.entries(c[0], heap, kind, seen) if i == 1 else {"unknown"}
        if c.op == "comp" and c[1].op == "tuple" and -len(c[1].args) <= i < len(c[1].args):
            return self.ctag(c[1][i], heap, kind, seen)
        if c.op in ("call",) and c[0] in ("enumerate",) and i == 1:
            return self.members(c[1][0], heap, kind, seen)
        return {"unknown"}

    def members(self, c, heap, kind, seen, part=None):
        """Tags of the elements of the members of a collection of collections."""
        if c.op == "mcall" and c[1] == "values":
            return self.entries(c[0], heap, kind, seen)
        if c.op == "mcall" and c[1] == "items":
            return self.entries(c[0], heap, kind, seen)
        if (c.n, "mm") in seen:
            return set()
        seen = seen | {(c.n, "mm")}
        if c.op == "cell":
            s = self.ip.shape(c, heap)
            if s is not c and s.op == "comp":
                x = s[1]
                return self.ctag(x, heap, kind, seen)
            return {"unknown"}
        if c.op == "comp":
            return self.ctag(c[1], heap, kind, seen)
        return {"unknown"}

    def entries(self, d, heap, kind, seen=frozenset()):
        """Tags of the elements of the collections held in a mapping."""
        if (d.n, "v") in seen:
            return set()
        seen = seen | {(d.n, "v")}
        out = set()
        if d.op == "phi":
            return set().union(*[self.entries(o, heap, kind, seen) for o in d.args])
        if d.op == "mu":
            m = self.ip.mus.get(d)
            for y in [m["init"]] + [b[0] for b in m["backs"]] if m else []:
                if isinstance(y, T) and y is not d:
                    out |= self.entries(y, heap, kind, seen)
            return out or {"unknown"}
        if d.op == "call" and str(d[0]) in COPIES and len(d[1]) == 1:
            return self.entries(d[1][0], heap, kind, seen)
        if d.op == "mcall" and d[1] == "copy":
            return self.entries(d[0], heap, kind, seen)
        if d.op == "dictcomp":
            return self.ctag(d[2], heap, kind, seen)
        if d.op != "cell":
            return {"unknown"}
        b = self.ip.born.get(d)
        if b is not None:
            out |= self.values_of(b, heap, kind, seen)
        elif self.ip.shape(d, heap) is not d:
            out |= self.values_of(self.ip.shape(d, heap), heap, kind, seen)
        for ref, es in self.adds.items():
            for e in es:
                op, args, h = e.d["op"], e.d["args"], getattr(e, "heap", heap)
                if ref is d and op == "setitem":
                    out |= self.ctag(args[1], h, kind, seen)
                elif ref is d and op == "extend":
                    out |= self.entries(args[0], h, kind, seen)
                elif ref.op == "item" and ref[0] is d or ref.op == "mcall" and ref[1] in ("get", "setdefault") and ref[0] is d:
                    if op in ("add", "insert"):
                        out |= self.tag(args[-1], self.facts(e), h, kind, seen)
                    elif op in ("extend", "xor"):
                        out |= self.joined(e, args[0], h, kind, seen)
        return out

    def values_of(self, s, heap, kind, seen):
        if s.op == "dictcomp":
            return self.ctag(s[2], heap, kind, seen)
        if s.op == "kwdict":
            return set().union(*[self.ctag(v, heap, kind, seen) for _, v in s[0]]) if s[0] else set()
        if s.op == "call" and s[0] in ("dict", "collections.defaultdict", "collections.OrderedDict"):
            a = s[1][1:] if s[0] == "collections.defaultdict" else s[1]
            return self.entries(a[0], heap, kind, seen) if a else set()
        if s.op == "mu" or s.op == "upd":
            return set()
        if s.op == "mcall" and s[1] == "copy":
            return self.entries(s[0], heap, kind, seen)
        return {"unknown"}

    # -------------------------------------------------------- keys
    def key_from(self, x, heap, seen=frozenset()):
        """Where a cluster id comes from: 'new' (made up), 'db', 'key' (of a mapping), 'unknown'."""
        if not isinstance(x, T) or len(seen) > 40:
            return {"unknown"}
        if (x.n, "k") in seen:
            return set()
        seen = seen | {(x.n, "k")}
        go = lambda y: self.key_from(y, heap, seen)  # noqa: E731
        if x.op == "phi":
            return set().union(*[go(o) for o in x.args])
        if x.op == "mu":
            d = self.ip.mus.get(x)
            return set().union(*[go(y) for y in [d["init"]] + [b[0] for b in d["backs"]] if isinstance(y, T)]) if d else {"unknown"}
        if x.op in ("col", "item") and x[0].op == "row":
            return {"db"} if {n[1] for n in self.names(x)} == {"cluster_id"} else {"dbmax"} if "max" in str(cursor_of(x[0][0])).lower() else {"unknown"}
        if x.op == "bin" and x[0] in ("+", "-"):
            sides = [y for y in (x[1], x[2]) if not (is_const(y) and isinstance(y[0], int))]
            return set().union(*[{"new"} if y.op == "call" and y[0] in ("max", "len") else go(y) for y in sides]) if sides else {"new"}
        if x.op == "call" and x[0] in ("max", "len", "next"):
            return {"new"} if x[0] != "max" else {"key"}
        if x.op == "pcall":
            return {"dbmax"} if "next" in str(x[0]) else {"unknown"}
        if x.op in ("idx",) or is_const(x):
            return {"new"}
        if x.op == "item" and is_const(x[1]) and x[0].op == "elem" and x[0][0].op == "mcall" and x[0][0][1] == "items":
            return {"key"} if x[1][0] == 0 else {"unknown"}
        if x.op == "item" and is_const(x[1]) and x[0].op == "elem" and x[0][0].op == "call" and x[0][0][0] in ("zip", "enumerate"):
            z, i = x[0][0], x[1][0]
            if z[0] == "enumerate":
                return {"new"} if i == 0 else self.keys_in(z[1][0], heap, seen)
            return self.keys_in(z[1][i], heap, seen) if i < len(z[1]) else {"unknown"}
        if x.op == "item" and x[0].op in ("cell", "phi"):
            return {"value"}
        if x.op in ("elem", "popped"):
            return self.keys_in(x[0], heap, seen)
        if x.op == "rand" and x[1] == "choice":
            return self.keys_in(x[2][0], heap, seen)
        return {"unknown"}

    def keys_in(self, c, heap, seen):
        if (c.n, "ki") in seen or len(seen) > 40:
            return set()
        seen = seen | {(c.n, "ki")}
        go = lambda y: self.keys_in(y, heap, seen)  # noqa: E731
        if c.op == "phi":
            return set().union(*[go(o) for o in c.args])
        if c.op == "mu":
            d = self.ip.mus.get(c)
            return set().union(*[go(y) for y in [d["init"], d["init_content"]] + [z for b in d["backs"] for z in b[:2]] if isinstance(y, T) and y is not c]) if d else {"unknown"}
        if c.op == "call":
            n = str(c[0])
            if n in ("range", "itertools.count"):
                return {"new"}
            if n in COPIES:
                return go(c[1][0]) if c[1] else set()
            return {"unknown"}
        if c.op in ("set", "list", "tuple"):
            return set().union(*[self.key_from(a, heap, seen) for a in c.args]) if c.args else set()
        if c.op == "kwdict":
            return {"key"}
        if c.op == "dictcomp":
            return {"key"}
        if c.op == "comp":
            return self.key_from(c[1], heap, seen)
        if c.op == "mcall" and c[1] in ("keys",):
            return {"key"}
        if c.op == "mcall" and c[1] in ("copy", "difference", "intersection"):
            return go(c[0])
        if c.op == "bin" and c[0] in ("-", "&"):
            return go(c[1])
        if c.op == "bin":
            return go(c[1]) | go(c[2])
        if c.op == "slice":
            return go(c[0])
        if c.op == "item" and isinstance(c[1], T) and c[1].op == "slice":
            return go(c[0])
        if c.op == "upd":
            out = go(c[1])
            if c[0] in ("add", "insert"):
                out = out | self.key_from(c[2][-1], heap, seen)
            elif c[0] == "setitem":
                return {"key"}
            elif c[0] == "extend":
                out = out | go(c[2][0])
            return out
        if c.op == "cell":
            s = self.ip.shape(c, heap)
            if c[0] in ("dict", "defaultdict"):
                return {"key"}
            return go(s) if s is not c else {"unknown"}
        return {"unknown"}

    # -------------------------------------------------------- the clustering
    def lineage(self, d, heap, out=None):
        """The mappings a mapping is made from, with the conditions put on the keys: [(cell, conds)]."""
        out = [] if out is None else out
        if any(x is d for x, _, _ in out) or len(out) > 20:
            return out
        if d.op == "phi":
            for o in d.args:
                self.lineage(o, heap, out)
            return out
        if d.op == "mu":
            m = self.ip.mus.get(d)
            for y in [m["init"]] + [b[0] for b in m["backs"]] if m else []:
                if isinstance(y, T):
                    self.lineage(y, heap, out)
            return out
        if d.op == "call" and str(d[0]) in COPIES and d[1]:
            return self.lineage(d[1][0], heap, out)
        if d.op == "mcall" and d[1] in ("copy", "items"):
            return self.lineage(d[0], heap, out)
        if d.op == "cell":
            s = self.ip.born.get(d)
            if s is None:
                s = self.ip.shape(d, heap)
            entry = [d, (), None]
            out.append(entry)
            self.bases(s, entry, heap, out)
            return out
        if d.op == "dictcomp":
            entry = [d, (), None]
            out.append(entry)
            self.bases(d, entry, heap, out)
            return out
        out.append([d, (), "unknown"])
        return out

    def bases(self, s, entry, heap, out):
        if s.op == "dictcomp":
            key = s[1]
            entry[1] = tuple((f, v) for f, v in s[3] if isinstance(f, T))
            entry[2] = key
            e = key
            if e.op == "item" and e[0].op == "elem":
                e = e[0]
            if e.op == "elem":
                base = e[0]
                if base.op == "mcall" and base[1] in ("keys", "items"):
                    base = base[0]
                self.lineage(base, heap, out)
            else:
                out.append([key, (), "unknown"])
        elif s.op == "call" and str(s[0]) in COPIES + ("collections.defaultdict",):
            a = s[1][1:] if str(s[0]) == "collections.defaultdict" else s[1]
            if a:
                self.lineage(a[0], heap, out)
        elif s.op == "mcall" and s[1] == "copy":
            self.lineage(s[0], heap, out)
        elif s.op == "upd":
            self.bases(s[1], entry, heap, out)
        elif s.op == "phi":
            for o in s.args:
                self.bases(o, entry, heap, out)
        elif s.op == "mu":
            m = self.ip.mus.get(s)
            for y in [m["init_content"]] if m else []:
                if isinstance(y, T) and y is not s:
                    self.bases(y, entry, heap, out)


def settle(tags):
    """Tags at the end: exclusion by an empty set of pins counts only beside an exclusion by the pins."""
    if "empty" in tags:
        tags = tags - {"empty"} if "free" in tags else tags - {"empty"} | {"any"}
    return tags


class Refined:
    """The run of refinement, what it writes and the clustering it is written from."""

    def __init__(self, lab):
        self.lab = lab
        self.r = lab.run_method(lab.index_cls, "refine_clusters", max_states=2, monitors=[Keep()], key="refine")
        self.flow = Flow(lab, self.r)
        self.writes = []  # (event, cluster value, feature value)
        for e in self.r.of("sql"):
            s = text_of(e.d["sql"])
            if s is None or first(s) not in ("update", "insert", "replace", "delete"):
                continue
            tab = (target_of(s) or "").lower().split(".")[-1]
            if tab == "feature_cluster":
                self.writes.append((e, s))
        self.heap = {}
        for k, v, st in self.r.outs:
            if k == "return":
                self.heap = dict(st.heap)
        self.maps = self.mappings()

    def values(self, e, s):
        """[(cluster value, feature value)] written by an update of feature_cluster; None where not understood."""
        m = re.search(r"set\s+cluster_id\s*=\s*(\?\d*|[:@$]\w+)\s+where\s+feature_id\s*=\s*(\?\d*|[:@$]\w+)\s*;?\s*$", s, re.I)
        if not m:
            return None
        keys = [k + 1 if ph == "?" else int(ph[1:]) if ph[0] == "?" else ph[1:] for k, ph in enumerate((m[1], m[2]))]
        x = e.d["row"] if e.d["how"] == "executemany" else e.d["params"]
        heap = getattr(e, "heap", {}) or {}
        if not isinstance(x, T):
            return None
        return [tuple(argument(o, k, self.r.ip, heap) for k in keys) for o in options(x)]

    def mappings(self):
        """The mapping cells the stored clustering is made from."""
        out = []
        for e, s in self.writes:
            v = self.values(e, s)
            for x in [o for a, _ in v or () if a is not None for o in options(a)]:
                if x.op == "item" and x[0].op == "elem":
                    x = x[0]
                if x.op == "elem":
                    base = x[0]
                    if base.op == "mcall" and base[1] in ("keys", "items"):
                        base = base[0]
                    for l in self.flow.lineage(base, getattr(e, "heap", {}) or {}):
                        if not any(l[0] is y[0] for y in out):
                            out.append(l)
        return out
