"""Evaluation of condition terms under a hypothesis about some of their leaves."""
import math
from .terms import T, is_const


class Unknown(Exception):
    pass


UNKNOWN = object()
TEXT_METHODS = ("strip", "lstrip", "rstrip", "join", "split", "rsplit", "splitlines", "partition", "rpartition", "startswith", "endswith",
                "lower", "upper", "casefold", "isspace", "isdigit", "isalpha", "isalnum", "isnumeric", "removeprefix", "removesuffix",
                "replace", "find", "count")


def value(x, leaf):
    """Python value of a term; leaf(term) gives the value of a leaf or UNKNOWN.  Raises Unknown."""
    if isinstance(x, tuple):
        return tuple(value(a, leaf) for a in x)
    if not isinstance(x, T):
        return x
    v = leaf(x)
    if v is not UNKNOWN:
        return v
    if is_const(x):
        return x[0]
    try:
        if x.op == "truth":
            return bool(value(x[0], leaf))
        if x.op == "not":
            return not value(x[0], leaf)
        if x.op == "slice":
            return slice(*[value(a, leaf) for a in x.args])
        if x.op == "neg":
            return -value(x[0], leaf)
        if x.op in ("tuple", "list"):
            return tuple(value(a, leaf) for a in x.args)
        if x.op == "set":
            return set(value(a, leaf) for a in x.args)
        if x.op == "phi":
            vs = [value(a, leaf) for a in x.args]
            if all(v == vs[0] and type(v) is type(vs[0]) for v in vs):
                return vs[0]
            raise Unknown
        if x.op == "cmp" and len(x.args) == 3:
            a, b = value(x[1], leaf), value(x[2], leaf)
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                    "in": lambda: a in b, "is": lambda: a is b or (type(a) is type(b) and a == b), "is not": lambda: a is not b}[x[0]]()
        if x.op == "bin":
            a, b = value(x[1], leaf), value(x[2], leaf)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b, "/": lambda: a / b,
                    "**": lambda: a ** b if abs(b) < 100 else UNKNOWN, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[x[0]]()
        if x.op == "call" and x[0] in ("len", "bool", "int", "str", "list", "tuple", "set", "sorted", "any", "all", "min", "max", "sum", "abs", "float", "frozenset", "round",
                                             "range", "enumerate", "zip", "reversed", "iter", "divmod") and not x[2]:
            import builtins
            if x[0] in ("range", "enumerate", "zip", "reversed", "iter"):
                out = getattr(builtins, x[0])(*[value(a, leaf) for a in x[1]])
                if x[0] == "range" and len(out) > 100000:
                    raise Unknown
                return list(out)
            return getattr(builtins, x[0])(*[value(a, leaf) for a in x[1]])
        if x.op == "call" and x[0] in ("math.ceil", "math.floor", "math.trunc", "operator.index") and not x[2] and len(x[1]) == 1:
            return int(getattr(math, x[0].split(".")[1])(value(x[1][0], leaf))) if x[0][0] == "m" else value(x[1][0], leaf)
        if x.op == "call" and x[0] in ("max", "min") and [k for k, _ in x[2]] == ["default"]:
            v = [value(a, leaf) for a in x[1]]
            return (max if x[0] == "max" else min)(*v, default=value(dict(x[2])["default"], leaf))
        if x.op == "kwdict":
            return {value(k, leaf): value(v, leaf) for k, v in x[0]}
        if x.op == "mcall" and x[1] == "get" and not x[3]:
            d = value(x[0], leaf)
            if isinstance(d, dict):
                return d.get(*[value(a, leaf) for a in x[2]])
        if x.op == "rest" and isinstance(x[1], int):
            return tuple(value(x[0], leaf))[x[1]:]
        if x.op == "item":
            return value(x[0], leaf)[value(x[1], leaf)]
        if x.op == "mcall" and x[1] in TEXT_METHODS and not x[3]:
            s = value(x[0], leaf)
            if isinstance(s, str):
                args = [value(a, leaf) for a in x[2]]
                if sum(len(str(a)) for a in args) + len(s) < 100000:
                    return getattr(s, x[1])(*args)
    except Unknown:
        raise
    except Exception:
        raise Unknown from None
    raise Unknown


def consistent(facts, leaf):
    """False when some fact is false under the hypothesis; True when all are decided and hold; None otherwise."""
    res = True
    for k, v in facts.items():
        try:
            if bool(value(k, leaf)) != bool(v):
                return False
        except Unknown:
            res = None
    return res


def unrolled(ip, leaf, limit=200):
    """A leaf function that also knows variables and containers built up in loops over lists of known length.

    The loop is replayed over the values of what it iterates: at every element the one way through the body that agrees with the
    conditions is taken."""
    busy = set()

    def look(x):
        v = leaf(x)
        if v is not UNKNOWN or x.op != "mu" or x in busy:
            return v
        d = ip.mus.get(x)
        if not d or not d["backs"] or len(d.get("inits", ())) > 1:
            return UNKNOWN
        busy.add(x)
        try:
            return replay(x, d)
        except Unknown:
            return UNKNOWN
        finally:
            busy.discard(x)

    def replay(x, d):
        lid = d["loop"]
        it = ip.loopinfo.get(lid)
        if it is None:
            raise Unknown
        items = list(value(it, look))
        if len(items) > limit:
            raise Unknown
        init = d["init_content"] if d.get("init_content") is not None and d["init"].op == "cell" else d["init"]
        try:
            cur = value(init, look)
        except Unknown:
            if not items:
                raise
            cur = UNKNOWN
        if isinstance(cur, tuple):
            cur = list(cur)
        for i, val in enumerate(items):
            def here(y, i=i, val=val, cur=cur):
                if y is x:
                    return cur
                if y.op == "elem" and y.args[-1] == lid:
                    return val
                if y.op == "idx" and y.args[-1] == lid:
                    return i
                return leaf(y)
            inner = unrolled(ip, here, limit)
            live = [b for b in d["backs"] if consistent(b[2], inner) is not False]
            if not live:
                raise Unknown
            got = [step(b[0], x, cur, inner) for b in live]
            if any(g is UNKNOWN or g != got[0] for g in got):
                if len(live) > 1 or got[0] is UNKNOWN:
                    raise Unknown
            cur = got[0]
        return cur

    def step(b, x, cur, inner):
        if b is x:
            return cur
        if b.op == "upd" and b[1] is not x:
            cur = step(b[1], x, cur, inner)
        if b.op == "upd" and cur is not UNKNOWN:
            args = [value(a, inner) for a in b[2]]
            if isinstance(cur, list):
                if b[0] == "add" and len(args) == 1:
                    return cur + [args[0]]
                if b[0] == "extend" and len(args) == 1:
                    return cur + list(args[0])
            if isinstance(cur, (set, frozenset)) and len(args) == 1 and b[0] in ("add", "extend"):
                return set(cur) | ({args[0]} if b[0] == "add" else set(args[0]))
            if isinstance(cur, dict) and b[0] == "setitem" and len(args) == 2:
                return {**cur, args[0]: args[1]}
            raise Unknown
        return value(b, inner)

    return look
