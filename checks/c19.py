"""C19: queries and analyses never modify the objects passed to them (which objects an in-place operation can reach)."""
import ast

from sa.interp import Monitor
from sa.lab import *
from sa.terms import has

R_ARG = "arguments-are-not-modified"
R_OUT = "results-handed-out-are-not-modified"
R_SHARED = "no-state-is-shared-through-defaults-or-class-attributes"
R_MEMO = "memoised-results-are-not-modified"

# public functions and methods whose parameters belong to the caller
FUNCS = ("hyperreal.utilities.social_media_tokens", "hyperreal.utilities.tokens", "hyperreal.utilities.bstm",
         "hyperreal.utilities.compute_bitslice", "hyperreal.utilities.weight_bitslice", "hyperreal.utilities.round_datetime",
         "hyperreal.utilities.expand_positions_window", "hyperreal.utilities.text_from_html", "hyperreal.utilities.long_distance_merge",
         "hyperreal.db_utilities.connect_sqlite", "hyperreal.db_utilities.dict_factory", "hyperreal.db_utilities.save_bitmap",
         "hyperreal.db_utilities.load_bitmap", "hyperreal.index.measure_feature_contribution_to_cluster",
         "hyperreal.index.measure_add_features_to_cluster", "hyperreal.index.requires_corpus")
METHODS = set(("__getitem__ __init__ add_site_data close cluster_docs cluster_features cluster_ids cluster_query concordances "
              "convert_query_to_keys count_collocations create_cluster_cooccurrence_graph create_cluster_from_features db "
              "delete_clusters delete_features docs export_document_sample extract_matching_feature_windows index indexed_field_summary "
              "initialise_clusters intersect_queries_with_field is_index_db iter_field_docs keys lookup_feature lookup_feature_id "
              "merge_clusters next_cluster_id pin_clusters pin_features pinned_cluster_ids pivot_clusters_by_query pool "
              "positional_fields refine_clusters render_docs_html render_docs_table render_passages_table replace_docs sample_bitmap "
              "score_passages_dnf structured_doc_sample table_fields top_cluster_features union_bitslice ").split())
CONTAINER_USES = ("iter", "len", "copy", "union", "intersection")
FRESH_CALLS = {"list", "sorted", "set", "frozenset", "tuple", "dict", "len", "int", "str", "sum", "range", "zip", "enumerate", "bool", "float"}
MERGE = {"minus", "inter", "xor", "extend"}


class Keep(Monitor):
    name = "keep19"

    def event(self, ev, st, ip):
        if ev.kind in ("mutate", "augitem", "augunknown", "call", "random"):
            ev.heap = dict(st.heap)


class Origins:
    """The caller-owned or kept objects that a value may be (the very object, not a copy of it)."""

    def __init__(self, r):
        self.ip = r.ip
        self.iters = {}
        for e in r.of("iter"):
            self.iters.setdefault(e.d["loop"], set()).add(e.d["iter"])

    def of(self, x, heap, seen=frozenset()):
        if not isinstance(x, T) or (x.n, 0) in seen or len(seen) > 60:
            return set()
        seen = seen | {(x.n, 0)}
        if x.op == "param":
            return {x}
        if x.op == "phi":
            return self.union(x.args, heap, seen)
        if x.op == "mu":
            return self.loopvar(x, heap, seen)
        if x.op in ("item", "elem", "each", "popped", "heapitem", "kwget", "unstar", "idxitem"):
            if x.op == "item" and len(x.args) > 1 and isinstance(x[1], T) and x[1].op == "slice":
                return set()
            k = x[1] if x.op == "item" and len(x.args) > 1 else None
            return self.elems(x[0], heap, seen, k)
        if x.op == "attr":
            got = self.of(x[0], heap, seen)
            return {t("part", p, str(x[1])) for p in got}
        if x.op == "cached":
            return {t("memo", x[0])} | self.of(x[2], heap, seen)
        if x.op == "cell":
            return {t("shared", x)} if x in self.ip.gstate.heap else set()
        if x.op == "mcall":
            if x[1] in ("get", "setdefault", "pop", "__getitem__", "popitem"):
                k = x[2][0] if x[1] != "popitem" and x[2] else None
                return self.elems(x[0], heap, seen, k) | self.union(x[2][1:], heap, seen)
            return set()
        if x.op == "call":
            name = str(x[0])
            if name in ("max", "min", "next", "random.choice"):
                if len(x[1]) == 1 or name == "next":
                    return self.elems(x[1][0], heap, seen)
                return self.union(x[1], heap, seen)
            if name in ("iter", "reversed", "itertools.chain", "filter", "itertools.islice", "itertools.chain.from_iterable"):
                return set()
            if name in ("typing.cast",):
                return self.of(x[1][1], heap, seen)
            if name == "functools.reduce" and len(x[1]) > 2:
                return self.of(x[1][2], heap, seen) if inplace_fn(x[1][0]) else set()
        return set()

    def union(self, xs, heap, seen):
        out = set()
        for x in xs:
            out |= self.of(x, heap, seen)
        return out

    def loopvar(self, x, heap, seen):
        d = self.ip.mus.get(x)
        if d is None:
            return set()
        out = set()
        if isinstance(d["init"], T) and d["init"] is not x:
            out |= self.of(d["init"], heap, seen)
        for b in d["backs"]:
            if isinstance(b[0], T) and b[0] is not x:
                out |= self.of(b[0], heap, seen)
        return out

    def elems(self, x, heap, seen=frozenset(), key=None):
        """Objects that are elements (or values) of a container; `key` narrows to one entry where it is known."""
        if not isinstance(x, T) or (x.n, 1) in seen or len(seen) > 60:
            return set()
        seen = seen | {(x.n, 1)}
        if x.op == "param":
            return {t("part", x, "")}
        if x.op == "phi":
            out = set()
            for y in x.args:
                out |= self.elems(y, heap, seen, key)
            return out
        if x.op == "mu":
            d = self.ip.mus.get(x)
            out = set()
            if d is not None:
                for y in [d["init"], d["init_content"]] + [z for b in d["backs"] for z in b[:2]]:
                    if isinstance(y, T) and y is not x:
                        out |= self.elems(y, heap, seen, key)
            return out
        if x.op in ("tuple", "list"):
            xs = list(x.args)
            if key is not None and is_const(key) and isinstance(key[0], int) and not isinstance(key[0], bool) and \
                    not any(isinstance(a, T) and a.op == "star" for a in xs) and -len(xs) <= key[0] < len(xs):
                return self.of(xs[key[0]], heap, seen)
            out = set()
            for a in xs:
                if isinstance(a, T):
                    out |= self.elems(a[0], heap, seen) if a.op == "star" else self.of(a, heap, seen)
            return out
        if x.op == "kwdict":
            out = set()
            for kv in x[0]:
                if isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[1], T):
                    if key is not None and is_const(key) and (kv[0] != key[0] if isinstance(kv[0], str) else
                                                             isinstance(kv[0], T) and is_const(kv[0]) and kv[0][0] != key[0]):
                        continue
                    out |= self.of(kv[1], heap, seen)
            return out
        if x.op == "upd":
            out = self.elems(x[1], heap, seen, key)
            a = x[2] if isinstance(x[2], tuple) else (x[2],)
            if x[0] in ("add",):
                out |= self.union(a, heap, seen)
            elif x[0] in ("setitem", "setdefault", "insert", "heap"):
                if x[0] == "setitem" and key is not None and len(a) == 2 and is_const(key) and is_const(a[0]) and a[0] is not key:
                    return out
                out |= self.union(a[1:], heap, seen) if x[0] != "heap" else self.union(a, heap, seen)
            elif x[0] == "extend":
                for y in a:
                    out |= self.elems(y, heap, seen)
            return out
        if x.op == "comp":
            return self.of(x[1], heap, seen)
        if x.op == "dictcomp":
            vals = [a for a in x.args if isinstance(a, T)]
            return self.of(vals[1], heap, seen) if len(vals) > 1 else set()
        if x.op == "mcall":
            if x[1] in ("values", "copy", "keys"):
                return self.elems(x[0], heap, seen, key)
            if x[1] == "items":
                return self.pairs(x, heap, seen)
            return self.part(self.of(x, heap, seen))
        if x.op == "call":
            name = str(x[0])
            if name in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset", "dict", "copy.copy", "itertools.islice", "collections.deque",
                        "filter"):
                src = x[1][1:] if name == "filter" else x[1][:1]
                out = set()
                for y in src:
                    out |= self.elems(y, heap, seen, key)
                return out
            if name in ("itertools.chain",):
                out = set()
                for y in x[1]:
                    out |= self.elems(y, heap, seen)
                return out
            if name in ("enumerate", "zip"):
                return set()
            return self.part(self.of(x, heap, seen))
        if x.op == "slice" or x.op == "item" and len(x.args) > 1 and isinstance(x[1], T) and x[1].op == "slice":
            return self.elems(x[0], heap, seen)
        if x.op in ("item", "elem", "each"):
            inner = x[0]
            if isinstance(inner, T) and inner.op == "mcall" and inner[1] == "items" or isinstance(inner, T) and inner.op == "call" and \
                    inner[0] in ("enumerate", "zip"):
                return set()
            got = self.of(x, heap, seen)
            return self.part(got)
        if x.op in ("cell", "attr", "popped"):
            c = self.ip.shape(x, heap)
            out = set() if c is x else self.elems(c, heap, seen, key)
            return out | self.part(self.of(x, heap, seen))
        return set()

    def part(self, got):
        return {t("part", p, "") if p.op != "part" else p for p in got}

    def pairs(self, x, heap, seen):
        return set()


def inplace_fn(f):
    return isinstance(f, T) and "operator.i" in show(f, 3) and any(show(f, 3).strip("'\")").endswith(n) for n in
                                                                   ("ior", "iand", "ixor", "isub", "iadd", "iconcat"))


OPS = {"add": "adds to", "insert": "adds to", "extend": "adds to", "setitem": "replaces an entry of", "setdefault": "adds to", "pop": "removes from",
       "remove": "removes from", "delitem": "removes from", "clear": "empties", "sort": "reorders", "minus": "removes from", "inter": "removes from",
       "xor": "changes", "add_range": "adds to", "remove_range": "removes from", "heap": "changes", "overwrite": "overwrites"}


def run(c, lab):
    c.rule(R_ARG, "no in-place operation of a public function or method can reach an object its caller passed in, or part of one")
    c.rule(R_OUT, "an object that was returned, yielded or kept for a later call is not modified afterwards")
    c.rule(R_SHARED, "no default argument or class level container is modified by a call")
    c.rule(R_MEMO, "the result of a memoised function is not modified")
    c.assumptions += ["objects returned by a corpus belong to the index that asked for them",
                      "parameters of private helpers are judged through the public operations that reach them"]
    known = set()
    for name in lab.public(lab.index_cls) + ["__init__"]:
        f = lab.index_cls.find(name)
        c.guard(R_ARG, f"Index.{name}", lambda: judge(c, lab, f"Index.{name}", lab.run_method(lab.index_cls, name, max_states=2, monitors=[Keep()],
                                                     key="c19"), name in METHODS, f))
    for k in lab.corpus_classes():
        for name in lab.all_methods(k):
            if name.startswith("_") and name not in ("__getitem__",):
                continue
            c.guard(R_ARG, f"{k.name}.{name}", lambda: judge(c, lab, f"{k.name}.{name}", lab.run_method(k, name, max_states=2, monitors=[Keep()],
                                                             key="c19"), name in METHODS, k.find(name)))
    for m in ("hyperreal.utilities", "hyperreal.db_utilities", "hyperreal.index", "hyperreal.corpus"):
        mod = lab.p.mods.get(m)
        for f in (mod.funcs.values() if mod else ()):
            if f.name.startswith("_") or f.parent is not None or f.cls is not None:
                continue
            c.guard(R_ARG, f.qual, lambda: judge(c, lab, f.name, lab.run_worker(f.qual, monitors=[Keep()], key="c19") if f.qual in lab.workers() else
                                                 lab.run_func(f, max_states=3, monitors=[Keep()], key="c19"), f.qual in FUNCS, f))
    kept(c, lab)


def handed(r, x):
    """Parameters and other objects behind an origin term."""
    while x.op == "part":
        x = x[0]
    return x


def numeric(x):
    if is_const(x):
        return isinstance(x[0], (int, float)) and not isinstance(x[0], bool)
    if x.op == "len":
        return True
    if x.op == "bin":
        return x[0] in ("*", "/", "//", "%", "**") or numeric(x[1]) or numeric(x[2])
    if x.op == "call":
        return x[0] in ("len", "int", "float", "sum", "abs", "round", "max", "min") or str(x[0]).startswith("math.")
    if x.op == "idx":
        return True
    return False


def container(x, heap, ip):
    if x.op in ("cell", "list", "comp", "dictcomp", "kwdict"):
        return True
    if x.op == "call":
        return x[0] in ("list", "set", "dict", "frozenset", "sorted") or str(x[0]).split(".")[-1] in ("BitMap", "FrozenBitMap", "BitMap64")
    if x.op == "mcall":
        return x[1] in ("copy", "union", "intersection", "difference", "symmetric_difference")
    if x.op == "bin":
        return x[0] in ("&", "|", "-", "^") and (container(x[1], heap, ip) or container(x[2], heap, ip))
    return False


def used_as_container(r, x):
    for e in r.of("iter", "call", "mcall"):
        if e.kind == "iter" and e.d["iter"] is x:
            return True
        if e.kind == "call" and e.d.get("name") in ("len", "sorted", "set", "list", "iter") and x in e.d.get("args", ()):
            return True
    for k in r.ip.mus.values():
        for b in k["backs"]:
            for f in b[2]:
                f = f[0] if isinstance(f, tuple) else f
                if isinstance(f, T) and f.op == "cmp" and f[0] in ("in", "not in") and f[2] is x:
                    return True
    return any(e.d.get("recv") is x and e.d.get("name") in ("copy", "intersection_cardinality", "union", "rank", "intersection", "keys", "items", "values")
               for e in r.of("mcall"))


def annotated(f, name):
    if f is None or not isinstance(getattr(f, "node", None), (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and x.annotation is not None:
            s = ast.unparse(x.annotation)
            if any(w in s for w in ("BitMap", "set", "Set", "list", "List", "Sequence", "Iterable", "dict", "Dict", "Mapping", "Collection")):
                return True
            if s in ("int", "float", "str", "bool", "bytes", "Optional[int]", "int | None", "tuple"):
                return False
    return None


def reaches(e, ref, r, f, heap):
    """Does this operation modify the object itself (rather than making a new value)?"""
    args = tuple(e.d.get("args", ()))
    rhs = args[0] if args else None
    if e.kind == "mutate" and not e.d.get("aug"):
        return True
    if e.kind == "augitem":
        rhs = e.d["value"]
    op = e.d["op"]
    if rhs is not None and (numeric(rhs) or is_const(rhs)):
        return False
    who = handed(r, ref)
    if e.kind == "augunknown":
        return True if rhs is not None and (container(rhs, heap, r.ip) or rhs.op == "cell") else None
    if op in ("inter", "xor", "extend"):
        return True
    if rhs is not None and container(rhs, heap, r.ip):
        return True
    if who is ref and who.op == "param" and annotated(f, str(who[1])) is False:
        return False
    if used_as_container(r, e.d.get("ref", ref)) or rhs is not None and used_as_container(r, rhs):
        return True
    if who is ref and who.op == "param" and annotated(f, str(who[1])):
        return True
    return None


def judge(c, lab, what, r, known, f):
    o = Origins(r)
    n = 0
    for e in r.of("mutate", "augitem", "augunknown", "call", "random"):
        heap = getattr(e, "heap", None) or {}
        if e.kind == "call":
            if str(e.d["name"]) == "functools.reduce" and e.d["args"] and inplace_fn(e.d["args"][0]):
                a = e.d["args"]
                src = o.of(a[2], heap) if len(a) > 2 else o.elems(a[1], heap)
                report(c, r, what, e, src, "combines in place into", known, f, True)
            elif inplace_fn(t("ext", str(e.d["name"]))) and e.d["args"]:
                report(c, r, what, e, o.of(e.d["args"][0], heap), "combines in place into", known, f, True)
            continue
        if e.kind == "random":
            if e.d.get("op") == "shuffle" and e.d.get("args"):
                report(c, r, what, e, o.of(e.d["args"][0], heap), "reorders", known, f, True)
            continue
        n += 1
        ref = e.d.get("ref")
        if e.kind == "augitem":
            ref = e.d["cur"]
        src = o.of(ref, heap)
        if not src:
            continue
        sure = reaches(e, ref, r, f, heap)
        if sure is False:
            continue
        report(c, r, what, e, src, OPS.get(e.d["op"], "changes"), known, f, sure)
    for e in r.of("yield"):
        again(c, r, what, e, o)
    c.count("in_place_operations", n)
    c.count("operations")
    c.ok(R_ARG, what, "analysed", f"{n} in-place operations")


def class_level(r, cell):
    """The class attribute or default argument a shared container comes from (None: a module level name)."""
    for m in r.ip.p.mods.values():
        for k in m.classes.values():
            for name, a in getattr(k, "attrs", {}).items():
                node = a[1] if isinstance(a, tuple) else a
                if isinstance(node, ast.AST) and r.ip.gmemo.get((m.name, node.lineno, node.col_offset, type(node).__name__)) is cell:
                    return f"the class attribute {k.name}.{name}"
        fns = list(m.funcs.values()) + [g for k in m.classes.values() for g in k.methods.values()]
        for g in fns:
            for p, d in g.defaults.items():
                if isinstance(d, ast.AST) and r.ip.gmemo.get((m.name, d.lineno, d.col_offset, type(d).__name__)) is cell:
                    return f"the default value of `{p}` of {g.name}"
    return None


def report(c, r, what, e, src, how, known, f, sure):
    for s in sorted(src, key=show):
        who = handed(r, s)
        if who.op == "memo":
            c.decide(False if sure else None, R_MEMO, e.fn, f"{what}:{show(who[0], 2)}:{e.d.get('op', '')}", f"`{what}` {how} the result of a memoised function, "
                     "which every later call receives again", e.where)
            continue
        if who.op == "shared":
            at = class_level(r, who[0])
            if at is None or e.d.get("op") in ("setitem", "setdefault") and who is s:
                c.unsure(R_SHARED, e.fn, f"{what}:shared", f"`{what}` changes a container shared by all calls", e.where)
            else:
                c.decide(False if sure else None, R_SHARED, e.fn, f"{what}:{at}", f"`{what}` {how} {at}, which every later call shares", e.where)
            continue
        part = "" if who is s else "an object inside "
        name = who[1] if len(who.args) > 1 else show(who, 2)
        verdict = False if sure and known else None
        c.decide(verdict, R_ARG, e.fn, f"{what}({name}):{e.d.get('op', how)}", f"`{what}` {how} {part}the `{name}` that its caller passed in", e.where)


def again(c, r, what, e, o):
    """A container that is handed out and filled again in the next round of the same loop."""
    if not e.loops:
        return
    v = e.d.get("value")
    if not isinstance(v, T):
        return
    outer = [x for x in ([v] + list(v.args if v.op == "tuple" else ())) if isinstance(x, T) and x.op == "cell"]
    for x in outer:
        for m in r.of("mutate"):
            old = m.d.get("old")
            if m.d["ref"] is x and isinstance(old, T) and any(y.op == "mu" and y in r.ip.mus and r.ip.mus[y]["loop"] in e.loops and
                                                             r.ip.mus[y]["loop"] in m.loops for y in sub_terms(old)):
                c.bad(R_OUT, e.fn, f"{what}:yield", f"`{what}` hands out a container and goes on changing the same one", e.where)
                return
    c.ok(R_OUT, e.fn, f"{what}:yield", "", e.where)


def kept(c, lab):
    """Objects kept in an attribute, handed out by one call and modified in place by another."""
    out, hit = {}, {}
    cls = lab.index_cls
    for k in [cls] + lab.corpus_classes():
        for name in lab.public(k):
            try:
                r = lab.run_method(k, name, max_states=2, monitors=[Keep()], key="c19")
            except (AnalysisError, RecursionError):
                continue
            for kind, v, st in r.outs:
                if kind == "return":
                    for a in kept_in(v, r, dict(st.heap)):
                        out.setdefault((k.qual, a), (name, k))
            for e in r.of("yield"):
                for a in kept_in(e.d.get("value"), r, e.heap):
                    out.setdefault((k.qual, a), (name, k))
            for e in r.of("mutate", "augitem"):
                ref = e.d["cur"] if e.kind == "augitem" else e.d["ref"]
                inner = e.d["op"] in MERGE or e.d["op"] in ("remove", "pop", "clear", "sort", "add_range", "remove_range", "add", "insert")
                if not inner:
                    continue
                for a in kept_in(ref, r, getattr(e, "heap", {}) or {}):
                    hit.setdefault((k.qual, a), []).append((name, e, r))
    for key, places in hit.items():
        if key not in out:
            continue
        for name, e, r in places:
            sure = reaches(e, e.d.get("ref", e.d.get("cur")), r, None, {})
            c.decide(False if sure else None, R_OUT, e.fn, f"{name}:{'.'.join(key[1])}", f"`{name}` changes in place an object kept in `{key[1][0]}`, which "
                     f"`{out[key][0]}` has handed out", e.where)


def kept_in(v, r, heap):
    """(attribute, 'entry') for values that are an entry of a container kept in an attribute; (attribute, 'whole') for the container."""
    got = set()
    if not isinstance(v, T):
        return got
    for x in options(v):
        if x.op == "attr" and isinstance(x[0], T) and x[0].op == "obj":
            got.add((str(x[1]), "whole"))
        elif x.op == "item" and isinstance(x[0], T) and x[0].op == "attr" and isinstance(x[0][0], T) and x[0][0].op == "obj":
            got.add((str(x[0][1]), "entry"))
        elif x.op == "mcall" and x[1] in ("get", "setdefault") and isinstance(x[0], T) and x[0].op == "attr":
            got.add((str(x[0][1]), "entry"))
    return got

