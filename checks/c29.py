"""C29: documents are indexed with their own attributes (provenance of every field through index(), docs() and its statements)."""
from sa.lab import *
from sa.rel import cursor_of
from sa.sql import SqlError, parse
from sa.web import expand
from sa.rel import Query
from checks.c24 import refs
from checks.c27 import flat

R_FROM = "fields-hold-the-attribute-of-their-name"
R_ALTER = "attributes-are-indexed-whole-and-unaltered"
R_SEQ = "texts-are-indexed-as-sequences"
R_PATHS = "what-repeats-another-record-is-indexed-as-a-reference"
R_OWN = "attributes-are-those-of-the-same-document"
R_TIME = "times-are-rounded-to-the-unit-of-the-field"

# field -> (columns it is made of: all of them needed / alternatives of one attribute), kind
# a column is (attribute of the document it is reached through or None for the record itself, column)
SPEC = {
    "PlainTextSqliteCorpus": {"text": ([{("doc", "text")}], "text")},
    "StackExchangeCorpus": {
        "UserPosting": ([{("post", "displayname")}], "exact"),
        "Post": ([{("post", "title")}, {("post", "body")}], "text"),
        "CodeBlock": ([{("post", "body")}], "text"),
        "Tag": ([{("posttag", "tag")}], "exact"),
        "UserCommenting": ([{("comment", "displayname")}], "exact"),
        "Comment": ([{("comment", "text")}], "text"),
        "Site": ([{("post", "site_url")}], "exact"),
        "PostType": ([{("post", "posttype")}], "exact"),
        "created_day": ([{("post", "creationdate")}], "time"),
        "created_month": ([{("post", "creationdate")}], "time"),
        "created_year": ([{("post", "creationdate")}], "time"),
    },
    "TwittersphereCorpus": {
        "text": ([{("tweet_latest", "text")}], "text"),
        "#": ([{("tweet_hashtag", "hashtag")}], "lower"),
        "@": ([{("tweet_mention", "mentioned_username")}], "lower"),
        "conversation_id": ([{("tweet_latest", "conversation_id")}], "exact"),
        "by": ([{("user_latest", "username")}], "exact"),
        "url": ([{("tweet_url", "unwound_url"), ("tweet_url", "expanded_url"), ("tweet_url", "url")}], "exact"),
        "domain": ([{("tweet_url", "unwound_url"), ("tweet_url", "expanded_url"), ("tweet_url", "url")}], "domain"),
        "quoted_tweet_id": ([{("tweet_latest", "quoted_tweet_id")}], "exact"),
        "quoted_user": ([{("quoted_tweet_id", "username")}], "exact"),
        "replied_to_tweet_id": ([{("tweet_latest", "replied_to_tweet_id")}], "exact"),
        "replied_to_user": ([{("replied_to_tweet_id", "username")}], "exact"),
        "retweeted_tweet_id": ([{("tweet_latest", "retweeted_tweet_id")}], "exact"),
        "retweeted_user": ([{("retweeted_tweet_id", "username")}], "exact"),
        "collection_label": ([{("collection_context", "label")}], "exact"),
        "created_minute": ([{("tweet_latest", "created_at")}], "time"),
        "created_hour": ([{("tweet_latest", "created_at")}], "time"),
        "created_day": ([{("tweet_latest", "created_at")}], "time"),
        "created_month": ([{("tweet_latest", "created_at")}], "time"),
        "created_year": ([{("tweet_latest", "created_at")}], "time"),
    },
}
# what a record that repeats another one is recognised by, and the fields that are indexed for it besides created_<unit>
REPEATS = {"TwittersphereCorpus": ("retweeted_tweet_id", {"by", "retweeted_tweet_id", "retweeted_user"})}
# corpus -> table -> the column its records are selected or joined by, and the columns of the document (None: its key) that it is compared with
LINKS = {
    "StackExchangeCorpus": {"posttag": ("postid", {"parentid", "id"}), "comment": ("postid", {"id"})},
    "TwittersphereCorpus": {"tweet_latest": ("tweet_id", None), "tweet_at_time": ("tweet_id", None), "tweet_hashtag": ("tweet_id", None), "tweet_mention": ("tweet_id", None),
                            "tweet_url": ("tweet_id", None), "url": ("url", None), "collection_context": ("context_id", None),
                            "user_latest": ("user_id", None), "user_at_time": ("user_id", None)},
}
UNITS = ["microsecond", "second", "minute", "hour", "day", "month", "year"]
CHANGES = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "translate"}


def run(c, lab):
    c.rule(R_FROM, "every field returned by index() is computed from the attribute of its name, which docs() reads from the column of this meaning")
    c.rule(R_ALTER, "an attribute is not filtered, cut or rewritten on its way into the index")
    c.rule(R_SEQ, "a text is indexed as the sequence of its tokens, in their order")
    c.rule(R_PATHS, "a retweet is indexed by the tweet it repeats, its author, who posted it and when, and by nothing else; every other tweet by its own content")
    c.rule(R_OWN, "the statements docs() reads attributes by select the records that belong to the document, through the keys the tables are related by")
    c.rule(R_TIME, "created_<unit> is the time of the record with everything below that unit removed")
    c.assumptions += ["tokenisers and ElementTree/lxml text extraction return the words of the text they are given, in order",
                      "the tables of a Twittersphere database have the columns their names say"]
    n = 0
    for cls in lab.corpus_classes():
        spec = SPEC.get(cls.name)
        if spec is None or cls.find("index") is None or cls.find("docs") is None:
            continue
        n += 1
        c.guard(R_FROM, cls.name, lambda: corpus(c, lab, cls, spec))
    c.require(n >= 1, "no corpus was found")
    c.count("corpora", n)


# ---------------------------------------------------------------- docs(): attribute -> columns
def value_columns(x):
    """Columns the value of an expression is made of; None when not known."""
    if not isinstance(x, T):
        return None
    if x.op == "col":
        return {str(x[1]).lower()}
    if x.op == "lit":
        return set()
    if x.op == "sub":
        cols = x[0][0]
        return value_columns(cols[0][0]) if len(cols) == 1 else None
    if x.op == "fn" or x.op == "bin":
        out = set()
        for a in x.args[2 if x.op == "fn" else 1:]:
            g = value_columns(a)
            if g is None:
                return None
            out |= g
        return out
    return None


def statement(text):
    try:
        q = parse(text)
    except (SqlError, KeyError, IndexError, TypeError, ValueError):
        return None
    q = q[0] if isinstance(q, tuple) else q
    return q if isinstance(q, T) and q.op == "select" else None


def tables(q):
    out = set()
    for f in q[1]:
        for y in f if isinstance(f, tuple) else ():
            if isinstance(y, T) and y.op == "table":
                out.add(str(y[1]).lower())
            elif isinstance(y, T) and y.op == "sub":
                out |= tables(y[0])
    return out


class Source:
    """Where an attribute comes from: the tables of a statement, the expression and the attribute it was looked up by."""

    def __init__(self, tables, column, expr, query, about):
        self.tables, self.column, self.expr, self.query, self.about = tables, column, expr, query, about

    def __repr__(self):
        return f"{'/'.join(sorted(self.about) or sorted(self.tables))}.{self.column}"

    def match(self, want):
        best = False
        if len(want) == 1 and self.about and all(tb.startswith("tweet_") or tb == "user_latest" for tb, col in want) and \
                self.about - {"user_id" if tb == "user_latest" else "tweet_id" for tb, col in want}:
            return False         # of another tweet or user
        if any(tb.endswith("_tweet_id") and any(a != tb and a.endswith("_tweet_id") for a in self.about) and len(want) == 1 for tb, col in want):
            return False         # looked up by (or also by) another tweet
        for tb, col in want:
            if col == self.column:
                if tb in self.tables or tb in self.about:
                    return True
                if tb.endswith("_tweet_id") and not self.about:
                    best = best or None
        return best


def prep(ip, obj, st):
    ip.keep_heap = True


class Docs:
    """What docs() hands out."""

    def __init__(self, lab, cls, method="docs"):
        self.r = r = lab.run_method(cls, method, max_states=6, prep=prep, key="c29")
        self.docs = {}       # document -> its keys
        for e in r.of("yield"):
            for v in flat(e.d["value"]):
                if v.op == "tuple" and len(v.args) == 2:
                    self.docs.setdefault(v[1], set()).add(v[0])
        self.sets = {}       # attribute -> [(value, event)]
        for e in r.of("mutate"):
            if e.d["op"] == "setitem" and e.d["ref"] in self.docs and is_const(e.d["args"][0]):
                self.sets.setdefault(e.d["args"][0][0], []).append((e.d["args"][1], e))
        self.changes = {}    # attribute -> methods its values are rewritten with
        self.filters = {}    # attribute -> conditions its values are selected by

    def of_row(self, row, name):
        s = cursor_of(row[0])
        q = statement(s[0]) if s and isinstance(s[0], str) else None
        if q is None:
            return None
        about = set()
        ps = s[1]
        for p in ps.args if isinstance(ps, T) and ps.op in ("list", "tuple") else ():
            for o in flat(p) if isinstance(p, T) else ():
                k = o.args[-1] if o.op in ("col", "item") else None
                k = k[0] if isinstance(k, T) and is_const(k) else k
                if isinstance(k, str):
                    about.add(k)
        tb = tables(q)
        out = []
        for cl in q[0]:
            ex, alias = cl if isinstance(cl, tuple) else (cl, None)
            if isinstance(ex, T) and ex.op == "star":
                return [Source(tb, str(name).lower(), None, q, about)]
            nm = alias or (ex[1] if isinstance(ex, T) and ex.op == "col" else None)
            if nm is not None and str(nm).lower() == str(name).lower():
                cs = value_columns(ex)
                return None if cs is None else [Source(tb, x, ex, q, about) for x in sorted(cs)]
        return None

    def value(self, v, path, heap, d=0, top=None):
        """Sources of v[path...]; None when not known."""
        again = lambda x, p: self.value(x, p, heap, d + 1, top)
        if d > 12 or not isinstance(v, T):
            return None
        if v.op == "cell":
            z = self.r.ip.shape(v, heap)
            return None if z is v else again(z, path)
        if v in self.docs and path:
            return self.attr(path, d + 1, top)
        if v.op in ("row", "rows"):
            return self.of_row(v, path[0]) if len(path) == 1 else None
        if v.op == "upd":
            x = v
            while x.op == "upd":
                if path and x[0] == "setitem" and is_const(x[2][0], path[0]):
                    return again(x[2][1], path[1:])
                x = x[1]
            if x.op == "phi" and path and path[0] in self.sets:
                return self.attr(path, d + 1, top)
            return again(x, path)
        if v.op == "phi":
            if path and path[0] in self.sets and any(y in self.docs for y in sub_terms(v)):
                return self.attr(path, d + 1, top)
            out = []
            for a in v.args:
                g = again(a, path)
                if g is None:
                    return None
                out += g
            return out
        if v.op == "comp":
            if top is not None:
                self.filters.setdefault(top, []).extend(x for x in (v[2] if isinstance(v[2], tuple) else ()))
            return again(v[1], path)
        if v.op in ("list", "set", "tuple"):
            out = []
            for a in v.args:
                g = again(a, path)
                if g is None:
                    return None
                out += g
            return out
        if v.op == "elem":
            return again(v[0], path)
        if v.op in ("col", "item"):
            k = v[1][0] if isinstance(v[1], T) and is_const(v[1]) else v[1]
            if isinstance(k, T):
                return None
            if isinstance(k, int):
                return again(v[0], path)
            return again(v[0], (k,) + tuple(path))
        if v.op == "call" and v[0] in ("set", "list", "sorted", "frozenset", "tuple", "str", "next", "iter") and v[1]:
            return again(v[1][0], path)
        if v.op == "attr":
            return again(v[0], path)
        if v.op in ("call", "fcall") and len(v[1]) == 1:
            return again(v[1][0], path)
        if v.op == "mcall":
            if v[1] in CHANGES and top is not None:
                self.changes.setdefault(top, set()).add(v[1])
            return again(v[0], path)
        return None

    def absent(self, path):
        """Is this an attribute no document ever has?"""
        k = path[0]
        if k in self.sets or not self.docs:
            return False
        if len(path) > 1 and all(doc.op == "row" for doc in self.docs):
            return True          # a column has no attributes of its own
        for doc in self.docs:
            s = cursor_of(doc[0]) if doc.op == "row" else None
            q = statement(s[0]) if s and isinstance(s[0], str) else None
            if q is None or any(isinstance(cl[0], T) and cl[0].op == "star" for cl in q[0]) or self.of_row(doc, k) is not None:
                return False
            for cl in q[0]:
                nm = cl[1] or (cl[0][1] if isinstance(cl[0], T) and cl[0].op == "col" else None)
                if nm is None or str(nm).lower() == str(k).lower():
                    return False
        return True

    def attr(self, path, d=0, top=None):
        """Sources of doc[path[0]][path[1]]...; None when not known."""
        k = path[0]
        top = k if top is None else top
        if d > 12:
            return None
        out = []
        if k in self.sets:
            for v, e in self.sets[k]:
                x = expand(self.r.ip, v, e.heap, 6) if v.op == "cell" else v
                g = self.value(x, tuple(path[1:]), e.heap, d + 1, top)
                if g is None:
                    return None
                out += g
            return out
        if len(path) != 1:
            return None
        for doc in self.docs:
            if doc.op in ("item", "elem") and isinstance(doc[0], T):
                g = self.value(doc[0], path, None, d + 1, top)
            else:
                g = self.of_row(doc, k) if doc.op == "row" else None
            if g is None:
                return None
            out += g
        return out


# ---------------------------------------------------------------- docs(): which records
def own_records(c, lab, cls, docs, method="docs", rule=None):
    fn = f"{cls.name}.{method}"
    links = LINKS.get(cls.name)
    if links is None:
        return
    if rule is not None:
        c = Renamed(c, rule)
    r = docs.r
    cat = lab.corpus_cat(cls)
    same = {}
    for e in r.of("sql"):
        s = e.d["sql"][0] if is_const(e.d["sql"]) else None
        if isinstance(s, str):
            same.setdefault(s, []).append(e)
    for s, es in same.items():
        q, e = statement(s), es[0]
        if q is None:
            continue
        selected(c, fn, docs, q, es, links)
        if rule is None and cat is not None and cat.tables():
            c.guard(R_OWN, fn, lambda: references(c, lab, r, cat, e, s, fn))


class Renamed:
    """Obligations of a shared rule under the name it has in another property."""

    def __init__(self, c, rule):
        self.c, self.rule = c, rule

    def __getattr__(self, k):
        f, g = getattr(self.c, k), self.rule
        if k == "decide":
            return lambda cond, rule, *a, **kw: f(cond, g, *a, **kw)
        return (lambda rule, *a, **kw: f(g, *a, **kw)) if k in ("ok", "bad", "unsure") else f


def references(c, lab, r, cat, e, s, fn):
    q = Query(cat, s)
    refs(Renamed(c, R_OWN), lab, r, cat, e, q, e.fn, "/".join(sorted(tables(statement(s)))))


def selects(x):
    for y in sub_terms(x):
        if y.op == "select":
            yield y


def selected(c, fn, docs, q, es, links):
    e = es[0]
    for sel in dict.fromkeys([q, *selects(q)]):
        items = [(f[0], f[1][1].lower(), f[1][2] or f[1][1], f[2], tuple(str(u).lower() for u in f[3])) for f in sel[1] if isinstance(f[1], T) and f[1].op == "table"]
        if len(items) != len(sel[1]):
            continue
        equal, other = set(), set()      # (alias or None, column) that are compared for equality / in other ways
        conds = conj(sel[2]) + [z for it in items for z in conj(it[3])]
        for z in conds:
            sides = [a for a in z.args if isinstance(a, T)]
            for a in sides:
                for y in a.args if a.op == "row" else (a,):
                    if isinstance(y, T) and y.op == "col":
                        (equal if z.op == "cmp" and z[0] in ("=", "==", "is") else other).add((str(y[0]).lower() if y[0] else None, str(y[1]).lower(), z))
            if z.op not in ("cmp",):
                other |= {(str(y[0]).lower() if y[0] else None, str(y[1]).lower(), z) for y in sub_terms(z) if y.op == "col"}
        taken = set()
        for jt, tb, alias, on, using in items:
            if tb not in links:
                continue
            key, want = links[tb]
            # an unqualified column belongs to the first table that has it
            free = key not in taken
            by = lambda xs: [z for a, k, z in xs if k == key and (a == str(alias).lower() or a is None and (free or key in using or len(items) == 1))]  # noqa: B023,E731
            taken.add(key)
            hit = by(equal)
            partners = any(key in it[4] for it in items) and (key in using or items[0][1] == tb)
            if hit or partners or "natural" in str(jt):
                c.ok(R_OWN, fn, f"{tb}.{key}", "selected by key", e.where)
                if want is not None and hit:
                    bound(c, fn, docs, es, tb, key, want, hit)
            elif by(other):
                z = by(other)[0]
                (c.bad if z.op in ("or",) or z.op == "cmp" and z[0] in ("<", "<=", ">", ">=", "!=", "<>", "is not") else c.unsure)(
                    R_OWN, fn, f"{tb}.{key}", f"{fn}: records of {tb} are not only those with the {key} of the document", e.where)
            else:
                c.bad(R_OWN, fn, f"{tb}.{key}", f"{fn}: records of {tb} are not selected by their {key}", e.where)


def bound(c, fn, docs, es, tb, key, want, conds):
    """The value the key is compared with must be made of the wanted columns of the document (on all paths together)."""
    for z in conds:
        p = [a for a in z.args if isinstance(a, T) and a.op == "param"]
        name = p[0][0] if len(p) == 1 else None
        if name is None:
            continue
        got = []
        for e in es:
            row = e.d.get("row")
            v = expand(docs.r.ip, row, e.heap, 4) if isinstance(row, T) else None
            if v is None:
                g = None
            elif isinstance(name, str):
                g = docs.value(v, (name,), e.heap)
            else:
                g = docs.value(v[name - 1], (), e.heap) if v.op in ("list", "tuple") and len(v.args) >= name else None
            got = None if g is None or got is None else got + g
        e = es[0]
        if not got:
            c.unsure(R_OWN, fn, f"{tb}.{key}", "value not followed", e.where)
            continue
        cols = {str(g.column) for g in got}
        first = [g.expr[2] for g in got if isinstance(g.expr, T) and g.expr.op == "fn" and g.expr[0] in ("coalesce", "ifnull") and len(g.expr.args) > 3]
        if cols == want and any(y.op == "col" and y[1].lower() == "id" for y in first):
            c.bad(R_OWN, fn, f"{tb}.{key}", f"{fn}: records of {tb} are selected by the id of the document whatever else is in it", e.where)
            continue
        c.decide(cols == want, R_OWN, fn, f"{tb}.{key}", f"{fn}: records of {tb} are selected by the {'/'.join(sorted(cols))} of the document, not by its {'/'.join(sorted(want))}"
                 if cols != want else "of this document", e.where)


# ---------------------------------------------------------------- index(): field -> attributes
def fields_of(x):
    """Constant keys and values of a mapping; None when it is not followed."""
    out = {}
    while x.op == "upd" and x[0] in ("setitem", "extend", "update"):
        if x[0] != "setitem":
            more = fields_of(x[2][0]) if len(x[2]) == 1 else None
            if more is None:
                return None
            for k, v in more.items():
                out.setdefault(k, v)
            x = x[1]
            continue
        k, v = x[2]
        if not is_const(k):
            return None
        out.setdefault(k[0], v)
        x = x[1]
    if x.op != "kwdict":
        return None
    for k, v in x[0]:
        out.setdefault(k[0] if isinstance(k, T) else k, v)
    return out


class Use:
    """Attributes of the document a value is made of."""

    def __init__(self, doc, ip):
        self.doc, self.ip, self.paths, self.unknown, self.seen = doc, ip, [], False, set()
        self.conds, self.slices, self.changes, self.last = [], [], [], []

    def path(self, x):
        if x is self.doc:
            return ()
        if x.op in ("item", "col") and isinstance(x[0], T):
            k = x[1][0] if isinstance(x[1], T) and is_const(x[1]) else x[1]
            p = self.path(x[0])
            return None if p is None or isinstance(k, T) else p + ((k,) if isinstance(k, str) else ())
        if x.op == "mcall" and x[1] == "get" and x[2] and is_const(x[2][0]):
            p = self.path(x[0])
            return None if p is None else p + (x[2][0][0],)
        if x.op == "elem":
            p = self.path(x[0])
            return p if p else None
        if x.op == "call" and x[0] in ("list", "tuple", "iter", "set", "frozenset") and len(x[1]) == 1:
            return self.path(x[1][0])
        return None

    def walk(self, x, depth=0):
        if not isinstance(x, T):
            for y in x if isinstance(x, tuple) else ():
                self.walk(y, depth)
            return
        p = self.path(x)
        if p is not None:
            if p:
                self.paths.append(p)
            else:
                self.unknown = True
            return
        if x.op == "comp":
            self.conds += list(x[2]) if isinstance(x[2], tuple) else []
            self.walk(x[1], depth + 1)
            return
        if x.op == "elem":
            x = x[0]
            return self.walk(x, depth + 1)
        if x.op == "item" and isinstance(x[1], T) and x[1].op == "slice":
            self.slices.append(x)
        if x.op == "mu":
            while x not in self.ip.mus and isinstance(x.args[-1], T) and x.args[-1].op == "mu":
                x = x.args[-1]
            d = self.ip.mus.get(x)
            if d is None:
                self.unknown = True
            elif x not in self.seen:
                self.seen.add(x)
                for b in d["backs"]:
                    y = b[1] if isinstance(b[1], T) else b[0]
                    if y.op in ("list", "set") and not any(z.op == "mu" for z in sub_terms(y)) and any(z.op in ("elem", "row") and z.args[-1] == d["loop"] for z in sub_terms(y)):
                        self.last.append(y)
                for y in [d.get("init_content")] + [b[1] for b in d["backs"]] + [b[1] for b in d.get("older", ())]:
                    self.walk(y, depth + 1)
            return
        if x.op == "cell":
            y = self.ip.shape(x, None)
            if y is x:
                self.unknown = True
            elif x not in self.seen:
                self.seen.add(x)
                self.walk(y, depth + 1)
            return
        if x.op == "mcall" and x[1] in CHANGES:
            self.changes.append(x)
        for a in x.args:
            self.walk(a, depth + 1)


def empties(k):
    """A condition that only tells absent or empty values from others."""
    if k.op == "truth":
        return True
    return k.op == "cmp" and k[0] in ("is", "is not", "==", "!=") and any(is_const(a) and a[0] in (None, "") for a in k.args[1:] if isinstance(a, T))


def corpus(c, lab, cls, spec):
    fn = f"{cls.name}.index"
    docs = Docs(lab, cls)
    r = lab.run_method(cls, "index", max_states=6, prep=prep, key="c29")
    params = [x for x in r.fn.posargs if x != "self"]
    found = {}
    lost = False
    doc = None
    paths = []
    for k, v, st in r.outs:
        if k != "return":
            continue
        for o in flat(v):
            fs = fields_of(expand(r.ip, o, st.heap, 8))
            if fs is None:
                lost = True
                continue
            for e in r.of("mutate"):
                if e.d["op"] == "setitem" and e.d["ref"] is o and is_const(e.d["args"][0]):
                    k, x = e.d["args"][0][0], expand(r.ip, e.d["args"][1], e.heap, 8)
                    fs.pop(k, None)
                    found.setdefault(k, []).append((x, dict(e.facts)))
            paths.append((set(fs) | set(k for e in r.of("mutate") if e.d["op"] == "setitem" and e.d["ref"] is o and is_const(e.d["args"][0]) for k in e.d["args"][0]), dict(st.facts), fs))
            same = [x for x in fs.values()]
            for f, x in fs.items():
                if spec.get(f, ("", ""))[1] == "time" and same.count(x) > 1:
                    found.setdefault(f, [])      # one container made in a loop: its last content, not that of this field
                    continue
                found.setdefault(f, []).append((x, dict(st.facts) if hasattr(st, "facts") else {}))
                for y in sub_terms(x):
                    if y.op == "param" and params and y[-1] == params[0]:
                        doc = y
    own_records(c, lab, cls, docs)
    if doc is None:
        return c.unsure(R_FROM, fn, "fields", "what is indexed is not followed")
    c.count("fields", len(found))
    if cls.name in REPEATS and not lost:
        repeats(c, fn, r, Use(doc, r.ip), paths, *REPEATS[cls.name], spec)
    for f, (wants, kind) in spec.items():
        if f not in found:
            (c.unsure if lost else c.bad)(R_FROM, fn, f, f"{fn}: nothing is indexed under {f!r}")
            continue
        seen = set()
        if not found[f]:
            c.unsure(R_FROM, fn, f, "values made in a loop")
            continue
        field(c, fn, r.ip, docs, doc, f, wants, kind, [x for x, _ in found[f] if not (x in seen or seen.add(x))])


def repeats(c, fn, r, u, paths, attribute, fields, spec):
    content = {f for f in spec if f not in fields and not f.startswith("created_")}
    elsewhere = any(u.path(y) == (attribute,) for e in r.events for k in dict(getattr(e, "facts", ()) or ()) if isinstance(k, T) for y in sub_terms(k))
    for names, facts, fs in paths:
        is_one = None
        about = False
        for k, b in facts.items():
            if not isinstance(k, T):
                continue
            ps = [u.path(y) for y in sub_terms(k)]
            if (attribute,) not in ps and not any(p and p[0].startswith(attribute.split("_")[0]) for p in ps):
                continue
            about = True
            if k.op == "truth" and u.path(k[0]) == (attribute,):
                is_one = b if is_one in (None, b) else "?"
            elif k.op == "cmp" and k[0] in ("is", "==") and any(u.path(a) == (attribute,) for a in k.args[1:] if isinstance(a, T)) and any(is_const(a, None) for a in k.args[1:] if isinstance(a, T)):
                is_one = (not b) if is_one in (None, not b) else "?"
        about = about or any(y.op in ("ite", "ifexp") for x in fs.values() for y in sub_terms(x))
        more, less = sorted(names & content), sorted(content - names)
        if is_one is True:
            c.decide(not more, R_PATHS, fn, "repeats", f"{fn}: a record with a {attribute} is indexed by its own {more[0]!r} too" if more else "by reference only")
        elif is_one is False:
            c.decide(not less, R_PATHS, fn, "others", f"{fn}: a record without a {attribute} is not indexed by its {less[0]!r}" if less else "by their content")
        elif is_one is None and not about and more and not elsewhere:
            c.bad(R_PATHS, fn, "repeats", f"{fn}: {more[0]!r} is indexed whether or not a record has a {attribute}")
        else:
            c.unsure(R_PATHS, fn, "paths", f"which records are indexed by {sorted(names)[:3]}")


def field(c, fn, ip, docs, doc, f, wants, kind, values):
    got, unknown = [], False
    for x in values:
        u = Use(doc, ip)
        u.walk(x)
        unknown = unknown or u.unknown
        for p in u.paths:
            s = docs.attr(p)
            if s is None and docs.absent(p):
                c.bad(R_FROM, fn, f, f"{fn}: {f!r} is made of doc[{p[0]!r}], which docs() never provides")
                unknown = True
            elif s is None:
                unknown = True
            else:
                got += [(p, y) for y in s]
        shape(c, fn, f, kind, x, u)
    wrong = [(p, y) for p, y in got if not any(y.match(w) is not False for w in wants)]
    unsure = [(p, y) for p, y in got if not any(y.match(w) for w in wants)]
    missing = [w for w in wants if not any(y.match(w) is not False for p, y in got)]
    if wrong:
        c.bad(R_FROM, fn, f, f"{fn}: {f!r} holds {wrong[0][1]} (doc{''.join(repr([k]) for k in wrong[0][0])})")
    elif missing and not unknown:
        c.bad(R_FROM, fn, f, f"{fn}: {f!r} does not hold {'/'.join(sorted(b for a, b in missing[0]))}")
    elif missing or unsure or unknown:
        c.unsure(R_FROM, fn, f, "not every attribute is followed")
    else:
        c.ok(R_FROM, fn, f, ", ".join(sorted({str(y) for p, y in got})))
    # what docs() does to the values
    for p, y in got:
        if y.expr is not None and kind in ("exact", "lower", "text", "time"):
            for z in sub_terms(y.expr):
                if z.op == "fn" and z[0] in ("lower", "upper", "substr", "trim", "ltrim", "rtrim", "replace") and not (kind == "lower" and z[0] == "lower"):
                    c.bad(R_ALTER, fn, f, f"docs() rewrites {y} with {z[0]}()")
        if y.query[6] is not None and len(p) > 0 and p[0] in docs.sets:
            c.bad(R_ALTER, fn, f, f"docs() reads only some of {y}")
        for z in conj(y.query[2]):
            cs = [a for a in z.args if isinstance(a, T) and a.op == "col" and a[1] == y.column]
            if z.op == "cmp" and cs and any(isinstance(a, T) and a.op == "lit" and a[0] not in (None, "") for a in z.args) and f not in ("url", "domain"):
                c.bad(R_ALTER, fn, f, f"docs() leaves out some of {y}")
    for p, y in got:
        ch = docs.changes.get(p[0], set()) - ({"lower", "casefold"} if kind == "lower" else set())
        if ch and kind in ("exact", "lower"):
            c.bad(R_ALTER, fn, f, f"docs() rewrites {y} with {sorted(ch)[0]}()")
        if kind == "domain" and p[0] in docs.sets:
            made = [w for v, e in docs.sets[p[0]] for w in sub_terms(expand(docs.r.ip, v[1] if v.op == "comp" else v, e.heap, 4) if not (v.op == "comp" and isinstance(v[1], T) and v[1].op == "col") else v[1])
                    if w.op in ("attr", "fcall") or w.op == "call"] + [w for x in values for w in sub_terms(x) if w.op in ("attr", "fcall", "comp")]
            if not made:
                c.bad(R_ALTER, fn, f, f"{f!r} holds {y} itself, not its host name")
        for k in docs.filters.get(p[0], ()):
            k = k[0] if isinstance(k, tuple) else k
            if isinstance(k, T) and not empties(k):
                (c.bad if k.op == "cmp" else c.unsure)(R_ALTER, fn, f, f"docs() leaves out some of {y}")


def conj(w):
    if not isinstance(w, T):
        return []
    if w.op == "and":
        return [z for a in w.args for z in conj(a)]
    return [w]


def shape(c, fn, f, kind, x, u):
    bad = False
    if kind == "exact" and u.changes:
        bad = True
        c.bad(R_ALTER, fn, f, f"{fn}: values of {f!r} are rewritten with {u.changes[0][1]}()")
    if any(not trivial(s) for s in u.slices):
        bad = True
        c.bad(R_ALTER, fn, f, f"{fn}: only a part of {f!r} is indexed")
    if u.last:
        bad = True
        c.bad(R_ALTER, fn, f, f"{fn}: only the last part of {f!r} is indexed")
    for k in u.conds:
        k = k[0] if isinstance(k, tuple) else k
        if not isinstance(k, T) or empties(k):
            continue
        about = any(u.path(y) for y in sub_terms(k))
        if kind == "text" and not about:
            continue
        bad = True
        (c.bad if k.op == "cmp" else c.unsure)(R_ALTER, fn, f, f"{fn}: values of {f!r} are left out when {show(k, 3)[:80]}")
    if not bad:
        c.ok(R_ALTER, fn, f, "whole")
    if kind == "text":
        y = x
        if y.op in ("set",) or y.op == "comp" and y[0] == "set" or y.op == "call" and y[0] in ("set", "frozenset", "sorted", "reversed"):
            c.bad(R_SEQ, fn, f, f"{fn}: {f!r} loses the order of its words")
        elif y.op in ("comp", "bin", "list", "fcall") or y.op == "call" and y[0] == "list":
            c.ok(R_SEQ, fn, f, "a sequence")
        else:
            c.unsure(R_SEQ, fn, f, show(x, 3)[:80])
    if kind == "time":
        unit = f.split("_")[-1]
        chain, y = {}, None
        for z in sub_terms(x):
            if z.op == "mcall" and z[1] in ("isoformat",):
                y = z[0]
        while y is not None and y.op == "mcall" and y[1] == "replace":
            for k, v in y[3]:
                chain.setdefault(k, v)
            y = y[0]
        if y is None or y.op == "mcall":
            return c.unsure(R_TIME, fn, f, show(x, 3)[:80])
        need = UNITS[:UNITS.index(unit)]
        less = [k for k in need if k not in chain]
        more = [k for k in chain if k not in need]
        off = [k for k, v in chain.items() if k in UNITS and isinstance(v, T) and is_const(v) and v[0] != (1 if k in ("day", "month") else 0)]
        c.decide(not (less or more or off), R_TIME, fn, f, f"{fn}: {f!r} keeps the {less[0]}" if less else f"{fn}: {f!r} loses the {more[0]}" if more else
                 f"{fn}: the {off[0]} of {f!r} is set to another value" if off else "rounded")


def trivial(s):
    return all(not isinstance(y, T) or is_const(y, None) or is_const(y, 0) for y in s[1].args)
