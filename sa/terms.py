"""Interned provenance terms (value numbers) used by the abstract interpreter."""

_table = {}


class T:
    """An immutable, interned term: op plus arguments (terms or plain values)."""

    __slots__ = ("op", "args", "n", "__weakref__")

    def __repr__(self):
        return show(self)

    def __iter__(self):
        return iter(self.args)

    def __getitem__(self, i):
        return self.args[i]


def _key(a):
    if isinstance(a, T):
        return a.n
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def t(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    r = _table.get(k)
    if r is None:
        r = T.__new__(T)
        r.op, r.args, r.n = op, args, len(_table)
        _table[k] = r
    return r


def const(v):
    return t("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(x, *vals):
    if not (isinstance(x, T) and x.op == "const"):
        return False
    return not vals or any(x[0] is v or (type(x[0]) is type(v) and x[0] == v) for v in vals)


def tup(*xs):
    return t("tuple", *xs)


def phi(options):
    """The join of several values."""
    flat = []
    for o in options:
        for x in o.args if o.op == "phi" else (o,):
            if x not in flat:
                flat.append(x)
    if len(flat) == 1:
        return flat[0]
    if any(x.op == "any" for x in flat) or len(flat) > 10:
        return t("any")
    flat.sort(key=lambda x: x.n)
    return t("phi", *flat)


def options(x):
    return list(x.args) if x.op == "phi" else [x]


def sub_terms(x, seen=None):
    """All terms inside x, x included (each once)."""
    out = []
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            if y.n in seen:
                continue
            seen.add(y.n)
            out.append(y)
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return out


def has(x, pred):
    return any(pred(y) for y in sub_terms(x))


def rewrite(x, f, memo=None):
    """Bottom-up rewriting; f gets a term with rewritten arguments."""
    memo = {} if memo is None else memo

    def go(y):
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        if not isinstance(y, T):
            return y
        if y.n in memo:
            return memo[y.n]
        memo[y.n] = y
        r = f(t(y.op, *[go(a) for a in y.args]))
        memo[y.n] = r
        return r

    return go(x)


def show(x, depth=6):
    if isinstance(x, tuple):
        return "(" + ",".join(show(a, depth) for a in x) + ")"
    if not isinstance(x, T):
        s = str(x)
        return s if len(s) < 60 else s[:57] + "..."
    if depth <= 0:
        return "…"
    if x.op == "const":
        s = repr(x[0])
        return s if len(s) < 60 else s[:57] + "..."
    if x.op in ("param", "ext", "mod", "builtin", "class"):
        return str(x[-1])
    if x.op == "attr":
        return f"{show(x[0], depth)}.{x[1]}"
    if x.op == "item":
        return f"{show(x[0], depth - 1)}[{show(x[1], depth - 1)}]"
    if x.op == "bin":
        return f"({show(x[1], depth - 1)} {x[0]} {show(x[2], depth - 1)})"
    if x.op == "cmp":
        return f"({show(x[1], depth - 1)} {x[0]} {show(x[2], depth - 1)})"
    if x.op == "elem":
        return f"each({show(x[0], depth - 1)})"
    if x.op == "mu":
        return f"loop:{x[1][-1] if isinstance(x[1], tuple) else x[1]}"
    if x.op == "func":
        return f"{x[0].split('.')[-1] if isinstance(x[0], str) else x[0]}"
    return f"{x.op}(" + ", ".join(show(a, depth - 1) for a in x.args if not _is_site(a)) + ")"


def _is_site(a):
    return isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] == "@"
