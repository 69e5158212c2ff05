"""A parser for the subset of SQLite's SQL that the package uses, and normal forms of its expressions.

Statements and expressions are interned terms (sa.terms.T), so equality is identity.

  select: select(cols, from, where, group, having, order, limit, distinct, compound)
          cols = tuple of (expr, alias|None); from = tuple of (jointype, source, on|None, using)
          source = table(schema|None, name, alias|None) | subq(select, alias|None)
"""
import re

from .terms import T, t, rewrite, sub_terms


class SqlError(Exception):
    pass


TOK = re.compile(r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<num>0x[0-9a-fA-F]+|\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+)
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])
  | (?P<par>\?\d*|[:@$][A-Za-z_][A-Za-z0-9_]*)
  | (?P<id>[A-Za-z_][A-Za-z0-9_$]*)
  | (?P<op>\|\||<=|>=|<>|!=|==|<<|>>|[-+*/%&|~<>=(),.;])
""", re.X | re.S)

KEYWORDS_END = set(
    "where group having order limit union except intersect on using inner left right cross join natural from set values "
    "returning do offset as and or not in is like between when then else end case outer full".split())


def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise SqlError(f"unexpected character {s[pos]!r} in SQL")
        pos = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        v = m.group()
        if k == "id":
            out.append(("id", v.lower(), v))
        elif k == "qid":
            out.append(("qid", v[1:-1].replace('""', '"').lower(), v))
        elif k == "str":
            out.append(("str", v[1:-1].replace("''", "'"), v))
        else:
            out.append((k, v.lower() if k == "num" else v, v))
    out.append(("end", "", ""))
    return out


def split_script(s):
    """Statements of a script (triggers kept whole)."""
    toks = tokenize(s)
    out, cur, depth, intrig = [], [], 0, False
    for k in toks:
        if k[0] == "end":
            break
        if k[1] == "trigger" and k[0] == "id" and cur and cur[0][1] == "create":
            intrig = True
        if intrig and k[0] == "id" and k[1] == "begin":
            depth += 1
        if k[0] == "id" and k[1] == "case" and depth:
            depth += 1
        if k[0] == "id" and k[1] == "end" and depth:
            depth -= 1
        if k[1] == ";" and k[0] == "op" and depth == 0:
            if cur:
                out.append(" ".join(x[2] for x in cur))
            cur, intrig = [], False
            continue
        cur.append(k)
    if cur:
        out.append(" ".join(x[2] for x in cur))
    return out


class Parser:
    def __init__(self, text):
        self.toks = tokenize(text)
        self.i = 0
        self.params = []
        self.npos = 0

    # -- helpers
    def peek(self, n=0):
        return self.toks[min(self.i + n, len(self.toks) - 1)]

    def at(self, *words):
        for n, w in enumerate(words):
            k = self.peek(n)
            if not (k[0] in ("id", "op") and k[1] == w):
                return False
        return True

    def eat(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.eat(*words):
            raise SqlError(f"expected {' '.join(words)} but found {self.peek()[2]!r}")

    def name(self):
        k = self.peek()
        if k[0] in ("id", "qid"):
            self.i += 1
            return k[1]
        if k[0] == "str":
            self.i += 1
            return k[1].lower()
        raise SqlError(f"expected a name but found {k[2]!r}")

    # -- statements
    def statement(self):
        w = self.peek()[1]
        if self.peek()[0] == "end" or (w == ";" and self.peek(1)[0] == "end"):
            return t("empty")
        if w in ("select", "values", "with"):
            return self.select()
        if w in ("insert", "replace"):
            return self.insert()
        if w == "update":
            return self.update()
        if w == "delete":
            return self.delete()
        if w == "create":
            return self.create()
        if w == "drop":
            self.i += 1
            kind = self.name()
            ie = self.eat("if", "exists")
            sch, nm = self.qname()
            return t("drop", kind, sch, nm, ie)
        if w == "alter":
            self.i += 1
            self.need("table")
            sch, nm = self.qname()
            if self.eat("add"):
                self.eat("column")
                return t("alter_add", sch, nm, self.coldef())
            return t("alter", sch, nm, " ".join(x[2] for x in self.toks[self.i:-1]))
        if w in ("begin", "commit", "end", "rollback", "savepoint", "release"):
            self.i += 1
            mode = None
            for m in ("deferred", "immediate", "exclusive"):
                if self.eat(m):
                    mode = m
            self.eat("transaction")
            if w == "rollback":
                if self.eat("to"):
                    self.eat("savepoint")
                    return t("rollback_to", self.name())
                return t("rollback")
            if w in ("savepoint",):
                return t("savepoint", self.name())
            if w == "release":
                self.eat("savepoint")
                return t("release", self.name())
            return t({"end": "commit"}.get(w, w), mode)
        if w == "pragma":
            self.i += 1
            sch, nm = self.qname()
            val = None
            if self.eat("=") or self.eat("("):
                k = self.peek()
                neg = self.eat("-")
                k = self.peek()
                val = ("-" if neg else "") + str(k[1])
                self.i += 1
            return t("pragma", nm, val)
        if w == "attach":
            self.i += 1
            self.eat("database")
            e = self.expr()
            self.need("as")
            return t("attach", e, self.name())
        if w == "detach":
            self.i += 1
            self.eat("database")
            return t("detach", self.name())
        if w in ("analyze", "vacuum", "reindex", "explain"):
            return t("other", w)
        raise SqlError(f"unknown statement {self.peek()[2]!r}")

    def qname(self):
        a = self.name()
        if self.eat("."):
            return a, self.name()
        return None, a

    def insert(self):
        verb = self.name()
        alg = "replace" if verb == "replace" else None
        if self.eat("or"):
            alg = self.name()
        self.need("into")
        sch, nm = self.qname()
        alias = self.name() if self.eat("as") else None
        cols = None
        if self.at("("):
            self.i += 1
            cols = [self.name()]
            while self.eat(","):
                cols.append(self.name())
            self.need(")")
        if self.eat("default", "values"):
            src = t("default_values")
        else:
            src = self.select()
        upsert = None
        if self.eat("on", "conflict"):
            upsert = []
            tgt = ()
            if self.eat("("):
                tg = [self.expr()]
                while self.eat(","):
                    tg.append(self.expr())
                self.need(")")
                tgt = tuple(tg)
            self.need("do")
            if self.eat("nothing"):
                upsert = t("do_nothing", tgt)
            else:
                self.need("update")
                self.need("set")
                sets = self.sets()
                wh = self.expr() if self.eat("where") else None
                upsert = t("do_update", tgt, sets, wh)
        return t("insert", alg, sch, nm, tuple(cols) if cols is not None else None, src, upsert)

    def sets(self):
        out = []
        while True:
            if self.eat("("):
                cs = [self.name()]
                while self.eat(","):
                    cs.append(self.name())
                self.need(")")
                self.need("=")
                e = self.expr()
                if e.op == "row" and len(e.args) == len(cs):
                    out.extend(zip(cs, e.args))
                elif e.op == "sub" and len(e[0][0]) == len(cs):
                    for n, c in enumerate(cs):
                        q = e[0]
                        out.append((c, t("sub", t("select", (q[0][n],), *q.args[1:]))))
                else:
                    raise SqlError(f"{len(cs)} columns assigned a value of another width")
            else:
                c = self.name()
                self.need("=")
                out.append((c, self.expr()))
            if not self.eat(","):
                return tuple(out)

    def update(self):
        self.need("update")
        alg = self.name() if self.eat("or") else None
        sch, nm = self.qname()
        alias = self.alias()
        self.need("set")
        sets = self.sets()
        frm = ()
        if self.eat("from"):
            frm = self.from_()
        wh = self.expr() if self.eat("where") else None
        return t("update", alg, sch, nm, alias, sets, frm, wh)

    def delete(self):
        self.need("delete")
        self.need("from")
        sch, nm = self.qname()
        alias = self.alias()
        wh = self.expr() if self.eat("where") else None
        return t("delete", sch, nm, alias, wh)

    def create(self):
        self.need("create")
        temp = self.eat("temp") or self.eat("temporary")
        if self.eat("table"):
            ine = self.eat("if", "not", "exists")
            sch, nm = self.qname()
            if self.eat("as"):
                return t("create_as", temp, sch, nm, self.select())
            self.need("(")
            cols, cons = [], []
            while True:
                w = self.peek()[1] if self.peek()[0] == "id" else ""
                if w in ("primary", "unique", "foreign", "check", "constraint"):
                    cons.append(self.tablecons())
                else:
                    cols.append(self.coldef())
                if not self.eat(","):
                    break
            self.need(")")
            while self.peek()[0] == "id":
                self.i += 1
                self.eat(",")
            return t("create_table", temp, sch, nm, tuple(cols), tuple(cons), ine)
        unique = self.eat("unique")
        if self.eat("index"):
            ine = self.eat("if", "not", "exists")
            sch, nm = self.qname()
            self.need("on")
            tb = self.name()
            self.need("(")
            cs = [self.expr()]
            self.eat("asc") or self.eat("desc")
            while self.eat(","):
                cs.append(self.expr())
                self.eat("asc") or self.eat("desc")
            self.need(")")
            wh = self.expr() if self.eat("where") else None
            return t("create_index", unique, sch, nm, tb, tuple(cs), wh, ine)
        if self.eat("trigger"):
            ine = self.eat("if", "not", "exists")
            sch, nm = self.qname()
            when = "before"
            if self.eat("before"):
                pass
            elif self.eat("after"):
                when = "after"
            elif self.eat("instead", "of"):
                when = "instead"
            ev = self.name()
            cols = ()
            if ev == "update" and self.eat("of"):
                cl = [self.name()]
                while self.eat(","):
                    cl.append(self.name())
                cols = tuple(cl)
            self.need("on")
            tb = self.name()
            self.eat("for", "each", "row")
            cond = self.expr() if self.eat("when") else None
            self.need("begin")
            body = []
            while not self.at("end"):
                body.append(self.statement())
                self.need(";")
            self.need("end")
            return t("create_trigger", temp, nm, when, ev, cols, tb, cond, tuple(body), ine)
        if self.eat("view"):
            self.eat("if", "not", "exists")
            sch, nm = self.qname()
            self.need("as")
            return t("create_view", nm, self.select())
        return t("other", "create")

    def coldef(self):
        nm = self.name()
        typ = []
        while self.peek()[0] in ("id", "qid") and self.peek()[1] not in (
                "primary", "unique", "not", "null", "default", "references", "check", "collate", "constraint", "generated", "as"):
            typ.append(self.name())
        if self.eat("("):
            while not self.eat(")"):
                self.i += 1
        cons = []
        while True:
            if self.eat("constraint"):
                self.name()
            elif self.eat("primary", "key"):
                self.eat("asc") or self.eat("desc")
                self.eat("autoincrement")
                cons.append(("primary",))
            elif self.eat("unique"):
                cons.append(("unique",))
            elif self.eat("not", "null"):
                cons.append(("notnull",))
            elif self.eat("null"):
                pass
            elif self.eat("default"):
                if self.eat("("):
                    e = self.expr()
                    self.need(")")
                else:
                    e = self.unary()
                cons.append(("default", e))
            elif self.eat("collate"):
                cons.append(("collate", self.name()))
            elif self.eat("check"):
                self.need("(")
                cons.append(("check", self.expr()))
                self.need(")")
            elif self.at("references"):
                cons.append(self.references(None))
            elif self.at("on"):
                self.need("on")
                self.need("conflict")
                cons.append(("onconflict", self.name()))
            else:
                break
        return t("coldef", nm, " ".join(typ), tuple(cons))

    def references(self, cols):
        self.need("references")
        tb = self.name()
        rc = ()
        if self.eat("("):
            cl = [self.name()]
            while self.eat(","):
                cl.append(self.name())
            self.need(")")
            rc = tuple(cl)
        acts = []
        while self.at("on"):
            self.i += 1
            ev = self.name()
            if self.eat("set"):
                acts.append((ev, "set " + self.name()))
            elif self.eat("no", "action"):
                acts.append((ev, "no action"))
            else:
                acts.append((ev, self.name()))
        self.eat("not")
        if self.eat("deferrable"):
            self.eat("initially", "deferred") or self.eat("initially", "immediate")
        return ("references", tb, rc, tuple(acts), cols)

    def tablecons(self):
        if self.eat("constraint"):
            self.name()
        kind = self.name()
        if kind == "primary":
            self.need("key")
        if kind == "foreign":
            self.need("key")
        self.need("(")
        if kind == "check":
            e = self.expr()
            self.need(")")
            return ("check", e)
        cols = [self.name()]
        self.eat("asc") or self.eat("desc")
        while self.eat(","):
            cols.append(self.name())
            self.eat("asc") or self.eat("desc")
        self.need(")")
        if kind == "foreign":
            return self.references(tuple(cols))
        if self.eat("on", "conflict"):
            return (kind, tuple(cols), self.name())
        return (kind, tuple(cols))

    # -- select
    def select(self):
        ctes = []
        if self.eat("with"):
            rec = self.eat("recursive")
            while True:
                nm = self.name()
                cols = ()
                if self.eat("("):
                    cl = [self.name()]
                    while self.eat(","):
                        cl.append(self.name())
                    self.need(")")
                    cols = tuple(cl)
                self.need("as")
                self.eat("not")
                self.eat("materialized")
                self.need("(")
                q = self.select()
                self.need(")")
                ctes.append((nm, cols, q))
                if not self.eat(","):
                    break
        if self.peek()[1] in ("insert", "replace", "update", "delete") and ctes:
            raise SqlError("with ... dml not supported")
        core = self.core()
        comp = []
        while self.peek()[0] == "id" and self.peek()[1] in ("union", "intersect", "except"):
            op = self.name()
            if op == "union" and self.eat("all"):
                op = "union all"
            comp.append((op, self.core()))
        order, limit = (), None
        if self.eat("order", "by"):
            order = [self.orderterm()]
            while self.eat(","):
                order.append(self.orderterm())
            order = tuple(order)
        if self.eat("limit"):
            limit = self.expr()
            if self.eat("offset") or self.eat(","):
                limit = t("limoff", limit, self.expr())
        cols, frm, wh, group, having, distinct = core
        return t("select", cols, frm, wh, group, having, order, limit, distinct,
                 tuple((op, t("select", *c[:5], (), None, c[5], (), ())) for op, c in comp), tuple(ctes))

    def orderterm(self):
        e = self.expr()
        d = "asc"
        if self.eat("desc"):
            d = "desc"
        else:
            self.eat("asc")
        if self.eat("nulls"):
            self.name()
        return (e, d)

    def core(self):
        if self.eat("values"):
            rows = []
            while True:
                self.need("(")
                r = [self.expr()]
                while self.eat(","):
                    r.append(self.expr())
                self.need(")")
                rows.append(tuple(r))
                if not self.eat(","):
                    break
            return (tuple((e, None) for e in rows[0]), (("values", t("values", tuple(rows)), None, ()),), None, (), None, False)
        self.need("select")
        distinct = self.eat("distinct")
        if not distinct:
            self.eat("all")
        cols = [self.resultcol()]
        while self.eat(","):
            cols.append(self.resultcol())
        frm = self.from_() if self.eat("from") else ()
        wh = self.expr() if self.eat("where") else None
        group, having = (), None
        if self.eat("group", "by"):
            g = [self.expr()]
            while self.eat(","):
                g.append(self.expr())
            group = tuple(g)
            if self.eat("having"):
                having = self.expr()
        return (tuple(cols), frm, wh, group, having, distinct)

    def resultcol(self):
        if self.eat("*"):
            return (t("star", None), None)
        if self.peek()[0] in ("id", "qid") and self.peek(1)[1] == "." and self.peek(2)[1] == "*":
            a = self.name()
            self.i += 2
            return (t("star", a), None)
        e = self.expr()
        if self.eat("as"):
            return (e, self.name())
        k = self.peek()
        if k[0] == "qid" or (k[0] == "id" and k[1] not in KEYWORDS_END):
            return (e, self.name())
        return (e, None)

    def alias(self):
        if self.eat("as"):
            return self.name()
        k = self.peek()
        if k[0] == "qid" or (k[0] == "id" and k[1] not in KEYWORDS_END):
            return self.name()
        return None

    def source(self):
        if self.eat("("):
            if self.at("select") or self.at("values") or self.at("with"):
                q = self.select()
                self.need(")")
                return t("subq", q, self.alias())
            fr = self.from_()
            self.need(")")
            return t("joined", fr, self.alias())
        sch, nm = self.qname()
        if self.eat("("):
            args = []
            if not self.eat(")"):
                args.append(self.expr())
                while self.eat(","):
                    args.append(self.expr())
                self.need(")")
            return t("tfun", nm, tuple(args), self.alias())
        al = self.alias()
        if self.eat("indexed", "by"):
            self.name()
        elif self.eat("not", "indexed"):
            pass
        return t("table", sch, nm, al)

    def from_(self):
        out = [("from", self.source(), None, ())]
        while True:
            if self.eat(","):
                out.append(("cross", self.source(), None, ()))
                continue
            jt = None
            nat = self.eat("natural")
            if self.eat("inner", "join") or self.eat("join"):
                jt = "inner"
            elif self.eat("cross", "join"):
                jt = "cross"
            elif self.at("left") or self.at("right") or self.at("full"):
                jt = self.name()
                self.eat("outer")
                self.need("join")
            if jt is None:
                return tuple(out)
            if nat:
                jt = "natural " + jt
            src = self.source()
            on, using = None, ()
            if self.eat("on"):
                on = self.expr()
            elif self.eat("using"):
                self.need("(")
                u = [self.name()]
                while self.eat(","):
                    u.append(self.name())
                self.need(")")
                using = tuple(u)
            out.append((jt, src, on, using))

    # -- expressions
    def expr(self):
        return self.or_()

    def or_(self):
        a = [self.and_()]
        while self.eat("or"):
            a.append(self.and_())
        return a[0] if len(a) == 1 else t("or", *a)

    def and_(self):
        a = [self.not_()]
        while self.eat("and"):
            a.append(self.not_())
        if len(a) == 1:
            return a[0]
        flat = []
        for x in a:
            flat.extend(x.args if x.op == "and" else [x])
        return t("and", *flat)

    def not_(self):
        if self.at("not") and not self.at("not", "exists"):
            self.i += 1
            return t("not", self.not_())
        return self.eq()

    def eq(self):
        a = self.rel()
        while True:
            k = self.peek()
            if k[0] == "op" and k[1] in ("=", "==", "!=", "<>"):
                self.i += 1
                b = self.rel()
                op = {"==": "=", "<>": "!="}.get(k[1], k[1])
                if a.op == "row" and b.op == "row" and op == "=":
                    if len(a.args) != len(b.args):
                        raise SqlError("row value misused")
                    a = t("and", *[t("cmp", "=", x, y) for x, y in zip(a.args, b.args)])
                else:
                    a = t("cmp", op, a, b)
            elif self.at("is"):
                self.i += 1
                neg = self.eat("not")
                if self.eat("distinct", "from"):
                    neg = not neg
                b = self.rel()
                a = t("cmp", "is not" if neg else "is", a, b)
            elif self.at("isnull"):
                self.i += 1
                a = t("cmp", "is", a, t("lit", None))
            elif self.at("notnull") or self.at("not", "null"):
                self.i += 1 if self.at("notnull") else 2
                a = t("cmp", "is not", a, t("lit", None))
            elif self.at("in") or self.at("not", "in"):
                neg = self.eat("not")
                self.need("in")
                if self.eat("("):
                    if self.at("select") or self.at("values") or self.at("with"):
                        q = self.select()
                        self.need(")")
                        b = t("sub", q)
                    else:
                        vs = []
                        if not self.eat(")"):
                            vs.append(self.expr())
                            while self.eat(","):
                                vs.append(self.expr())
                            self.need(")")
                        b = t("list", *vs)
                else:
                    sch, nm = self.qname()
                    b = t("sub", t("select", ((t("star", None), None),), (("from", t("table", sch, nm, None), None, ()),),
                                   None, (), None, (), None, False, (), ()))
                a = t("in", a, b)
                if neg:
                    a = t("not", a)
            elif self.peek()[0] == "id" and (self.peek()[1] in ("like", "glob", "match", "regexp") or (
                    self.at("not") and self.peek(1)[1] in ("like", "glob", "match", "regexp"))):
                neg = self.eat("not")
                op = self.name()
                b = self.rel()
                if self.eat("escape"):
                    self.rel()
                a = t(op, a, b)
                if neg:
                    a = t("not", a)
            elif self.at("between") or self.at("not", "between"):
                neg = self.eat("not")
                self.need("between")
                lo = self.rel()
                self.need("and")
                hi = self.rel()
                a = t("and", t("cmp", "<=", lo, a), t("cmp", "<=", a, hi))
                if neg:
                    a = t("not", a)
            else:
                return a

    def binl(self, sub, ops):
        a = sub()
        while self.peek()[0] == "op" and self.peek()[1] in ops:
            op = self.peek()[1]
            self.i += 1
            a = t("bin", op, a, sub())
        return a

    def rel(self):
        a = self.bits()
        while self.peek()[0] == "op" and self.peek()[1] in ("<", "<=", ">", ">="):
            op = self.peek()[1]
            self.i += 1
            b = self.bits()
            if op in (">", ">="):
                op, a, b = {">": "<", ">=": "<="}[op], b, a
            a = t("cmp", op, a, b)
        return a

    def bits(self):
        return self.binl(self.add, ("&", "|", "<<", ">>"))

    def add(self):
        return self.binl(self.mul, ("+", "-"))

    def mul(self):
        return self.binl(self.cat, ("*", "/", "%"))

    def cat(self):
        return self.binl(self.unary, ("||",))

    def unary(self):
        if self.eat("-"):
            e = self.unary()
            if e.op == "lit" and isinstance(e[0], (int, float)):
                return t("lit", -e[0])
            return t("neg", e)
        if self.eat("+"):
            return self.unary()
        if self.eat("~"):
            return t("bitnot", self.unary())
        e = self.primary()
        while self.eat("collate"):
            e = t("collate", e, self.name())
        return e

    def primary(self):
        k = self.peek()
        if k[0] == "num":
            self.i += 1
            v = k[1]
            return t("lit", int(v, 0) if re.fullmatch(r"0x[0-9a-f]+|\d+", v) else float(v))
        if k[0] == "str":
            self.i += 1
            return t("lit", k[1])
        if k[0] == "par":
            self.i += 1
            if k[1] == "?":
                self.npos += 1
                key = self.npos
            elif k[1][0] == "?":
                key = int(k[1][1:])
                self.npos = max(self.npos, key)
            else:
                key = k[1][1:]
            self.params.append(key)
            return t("param", key)
        if self.eat("("):
            if self.at("select") or self.at("values") or self.at("with"):
                q = self.select()
                self.need(")")
                return t("sub", q)
            e = [self.expr()]
            while self.eat(","):
                e.append(self.expr())
            self.need(")")
            return e[0] if len(e) == 1 else t("row", *e)
        if k[0] == "id":
            if k[1] == "exists" or (k[1] == "not" and self.at("not", "exists")):
                neg = self.eat("not")
                self.need("exists")
                self.need("(")
                q = self.select()
                self.need(")")
                e = t("exists", q)
                return t("not", e) if neg else e
            if k[1] == "case":
                self.i += 1
                base = None if self.at("when") else self.expr()
                whens = []
                while self.eat("when"):
                    c = self.expr()
                    self.need("then")
                    whens.append((c, self.expr()))
                els = self.expr() if self.eat("else") else t("lit", None)
                self.need("end")
                return t("case", base, tuple(whens), els)
            if k[1] == "cast":
                self.i += 1
                self.need("(")
                e = self.expr()
                self.need("as")
                ty = self.name()
                if self.eat("("):
                    while not self.eat(")"):
                        self.i += 1
                self.need(")")
                return t("cast", e, ty)
            if k[1] in ("null", "true", "false") and self.peek(1)[1] != ".":
                self.i += 1
                return t("lit", {"null": None, "true": 1, "false": 0}[k[1]])
        if k[0] in ("id", "qid"):
            nm = self.name()
            if self.at("(") and k[0] == "id":
                self.i += 1
                if self.eat("*"):
                    self.need(")")
                    return self.over(t("fn", nm, False, t("star", None)))
                dist = self.eat("distinct")
                args = []
                if not self.eat(")"):
                    args.append(self.expr())
                    while self.eat(","):
                        args.append(self.expr())
                    self.need(")")
                return self.over(t("fn", nm, dist, *args))
            if self.eat("."):
                b = self.name()
                if self.eat("."):
                    return t("col", b, self.name())
                return t("col", nm, b)
            return t("col", None, nm)
        raise SqlError(f"unexpected {k[2]!r} in expression")

    def over(self, f):
        if self.eat("filter"):
            self.need("(")
            self.need("where")
            f = t("filter", f, self.expr())
            self.need(")")
        if self.at("over"):
            raise SqlError("window functions not supported")
        return f


_cache = {}


def parse(text):
    """(statement term, [parameter keys in order])"""
    r = _cache.get(text)
    if r is None:
        try:
            p = Parser(text)
            s = p.statement()
            p.eat(";")
            if p.peek()[0] != "end":
                raise SqlError(f"unexpected {p.peek()[2]!r} after the statement")
            r = (s, list(p.params), None)
        except SqlError as e:
            r = (None, [], str(e))
        _cache[text] = r
    if r[2]:
        raise SqlError(r[2])
    return r[0], r[1]


def tables_of(stmt):
    return {(x[0], x[1]) for x in sub_terms(stmt) if x.op == "table"}


# ------------------------------------------------------------------ name resolution and normal form
class Scope:
    def __init__(self, parent=None):
        self.parent, self.srcs = parent, []  # (name, instance term, columns|None)


class Resolver:
    """Rewrites expressions so that columns are ("c", instance, column); instances are ("inst", table, n)."""

    def __init__(self, schema):
        self.schema = schema  # {table: [columns]}
        self.n = 0

    def inst(self, table):
        self.n += 1
        return t("inst", table, self.n)

    def add_source(self, sc, src):
        if src.op == "table":
            i = self.inst(src[1])
            sc.srcs.append((src[2] or src[1], i, self.schema.get(src[1])))
            return i
        if src.op == "subq":
            q = self.select(src[0], sc.parent)
            i = t("inst", q, self.n)
            self.n += 1
            cols = [a or (e[1] if e.op == "c" else (e[1] if e.op == "col" else None)) for e, a in q[0]]
            sc.srcs.append((src[1], i, cols))
            return i
        i = t("inst", src.op, self.n)
        self.n += 1
        sc.srcs.append((src.args[-1] if isinstance(src.args[-1], str) else None, i, None))
        return i

    def col(self, sc, tb, nm):
        s = sc
        while s is not None:
            cand = []
            for name, inst, cols in s.srcs:
                if tb is not None:
                    if name == tb:
                        return t("c", inst, nm)
                elif cols is not None and nm in cols:
                    cand.append(inst)
            if cand:
                return t("c", cand[0], nm)
            if tb is None and len(s.srcs) == 1 and s.srcs[0][2] is None:
                return t("c", s.srcs[0][1], nm)
            s = s.parent
        return t("col", tb, nm)

    def expr(self, e, sc):
        if isinstance(e, tuple):
            return tuple(self.expr(x, sc) for x in e)
        if not isinstance(e, T):
            return e
        if e.op == "col":
            return self.col(sc, e[0], e[1])
        if e.op == "sub":
            return t("sub", self.select(e[0], sc))
        if e.op == "exists":
            return t("exists", self.select(e[0], sc))
        if e.op == "in" and e[1].op == "sub":
            return t("in", self.expr(e[0], sc), t("sub", self.select(e[1][0], sc)))
        if e.op == "lit" or e.op == "param":
            return e
        return t(e.op, *[self.expr(a, sc) for a in e.args])

    def select(self, q, parent=None):
        """-> select term with resolved columns; joins folded into the where conjunction when inner."""
        sc = Scope(parent)
        conj = []
        frm = []
        for jt, src, on, using in q[1]:
            if src.op == "values":
                frm.append((jt, t("values", tuple(tuple(self.expr(e, sc) for e in r) for r in src[0])), None, ()))
                continue
            i = self.add_source(sc, src)
            cond = []
            for u in using:
                prev = None
                for name, inst, cols in sc.srcs[:-1]:
                    if cols is None or u in cols:
                        prev = inst
                        break
                if prev is not None:
                    cond.append(t("cmp", "=", t("c", prev, u), t("c", i, u)))
            if on is not None:
                cond.append(self.expr(on, sc))
            cond = [y for x in cond for y in conjuncts(x)]
            if jt in ("from", "inner", "cross"):
                conj.extend(cond)
                frm.append(("inner", i, None, ()))
            else:
                frm.append((jt, i, t("and", *cond), ()))
        if q[2] is not None:
            conj.extend(conjuncts(self.expr(q[2], sc)))
        cols = []
        for e, a in q[0]:
            if e.op == "star":
                for name, inst, cs in sc.srcs:
                    if e[0] is None or e[0] == name:
                        if cs is None:
                            cols.append((t("star", inst), None))
                        else:
                            for c in cs:
                                cols.append((t("c", inst, c), c))
            else:
                cols.append((self.expr(e, sc), a))
        # group by / order by may name a result column
        aliases = {a: e for e, a in cols if a}

        def named(e):
            if e.op == "col" and e[0] is None and e[1] in aliases and not any(c and e[1] in c for _, _, c in sc.srcs):
                return aliases[e[1]]
            if e.op == "lit" and isinstance(e[0], int) and 1 <= e[0] <= len(cols):
                return cols[e[0] - 1][0]
            return self.expr(e, sc)

        group = tuple(named(e) for e in q[3])
        having = self.expr(q[4], sc) if q[4] is not None else None
        order = tuple((named(e), d) for e, d in q[5])
        comp = tuple((op, self.select(c, parent)) for op, c in q[8])
        return t("select", tuple(cols), tuple(frm), tuple(sort_conj(conj)), group, having, order,
                 self.expr(q[6], sc) if q[6] is not None else None, q[7], comp, q[9] if len(q.args) > 9 else ())

    def update(self, s):
        """(target instance, {column: expr}, conjuncts)"""
        sc = Scope()
        i = self.inst(s[2])
        sc.srcs.append((s[3] or s[2], i, self.schema.get(s[2])))
        frm = []
        for jt, src, on, using in s[5]:
            frm.append(self.add_source(sc, src))
        conj = []
        for jt, src, on, using in s[5]:
            if on is not None:
                conj.extend(conjuncts(self.expr(on, sc)))
        if s[6] is not None:
            conj.extend(conjuncts(self.expr(s[6], sc)))
        return i, {c: self.expr(e, sc) for c, e in s[4]}, sort_conj(conj), frm

    def delete(self, s):
        sc = Scope()
        i = self.inst(s[1])
        sc.srcs.append((s[2] or s[1], i, self.schema.get(s[1])))
        return i, sort_conj(conjuncts(self.expr(s[3], sc))) if s[3] is not None else []


def conjuncts(e):
    if e is None:
        return []
    if e.op == "and":
        return [y for x in e.args for y in conjuncts(x)]
    if e.op == "cmp" and e[0] == "=" and e[1].op == "row" and e[2].op == "row":
        return [t("cmp", "=", a, b) for a, b in zip(e[1].args, e[2].args)]
    return [e]


def sort_conj(cs):
    out = []
    for c in cs:
        if c.op == "cmp" and c[0] in ("=", "is", "!=") and c[1].n > c[2].n:
            c = t("cmp", c[0], c[2], c[1])
        if c not in out:
            out.append(c)
    return sorted(out, key=lambda x: x.n)


def eq_closure(conj):
    """Union-find over column/param equalities: returns find(x)."""
    parent = {}

    def find(x):
        while parent.get(x, x) is not x:
            x = parent[x]
        return x

    for c in conj:
        if c.op == "cmp" and c[0] in ("=", "is"):
            a, b = find(c[1]), find(c[2])
            if a is not b:
                parent[a] = b
    return find
