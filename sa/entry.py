"""Entry points: abstract states in which the public operations are analysed."""
import ast
import sys

from .interp import Interp, State, Frame
from .model import AnalysisError, Program
from .terms import t, const, tup, NONE

sys.setrecursionlimit(30000)


def entry_frame(prog, name="entry"):
    mod = next(iter(prog.mods.values()))
    return Frame(("entry", name), None, mod, None, None, (("entry", name),))


ENTRY_NODE = ast.parse("entry()").body[0].value
ENTRY_NODE.lineno, ENTRY_NODE.col_offset, ENTRY_NODE.end_col_offset = 0, 0, 0


def params_for(fn, skip=0, given=None):
    """Symbolic arguments for a function."""
    given = given or {}
    kw = {}
    for p in fn.params[skip:]:
        kw[p] = given.get(p, t("param", fn.qual, p))
    return kw


def make_object(ip, cls, tag, st=None, init=True, opaque_init=()):
    """An instance of a project class, built by abstractly running its __init__."""
    st = st or State()
    obj = t("obj", cls.qual, ("@", "entry", tag))
    fr = entry_frame(ip.p, tag)
    f = cls.find("__init__")
    if not init or f is None:
        return obj, st
    saved = ip.faults, ip.monitors, ip.events, ip.opaque, ip.sink, ip.reports, ip.hook
    ip.faults, ip.monitors, ip.events, ip.sink, ip.reports, ip.hook = False, [], [], [[]], [], None
    ip.opaque = set(ip.opaque) | set(opaque_init)
    try:
        given = {p: t("param", f"{cls.qual}()", p) for p in f.params[1:]}
        outs = ip.call(ip.func_value(f), [obj], given, st, fr, ENTRY_NODE)
    finally:
        ip.faults, ip.monitors, ip.events, ip.opaque, ip.sink, ip.reports, ip.hook = saved
    if not outs:
        raise AnalysisError(f"{cls.qual}.__init__ never returns normally")
    s = ip.join([y for _, y in outs])
    s.facts = {}
    s.mon = {}
    return obj, s


def run_function(ip, fterm, args, kw, st, tag="entry"):
    """Analyse one call: ('return'|'raise', value, state) outcomes."""
    fr = entry_frame(ip.p, tag)
    for m in ip.monitors:
        st.mon.setdefault(m.name, m.init())
    ip.sink.append([])
    outs = ip.call(fterm, args, kw, st, fr, ENTRY_NODE)
    raised = ip.merge_raises(ip.sink.pop())
    res = []
    for v, y in outs:
        if v.op in ("gen", "genexp"):
            # a lazily evaluated result: analyse its complete consumption
            ip.sink.append([])
            for k, w, z in ip.iterate(v, y, lambda e, s: [("next", None, s)], fr, ENTRY_NODE):
                res.append(("return", v, z))
            raised += ip.merge_raises(ip.sink.pop())
        else:
            res.append(("return", v, y))
    res.extend(("raise", e, y) for e, y in raised)
    return res
