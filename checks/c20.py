"""C20: document operations check the corpus before using it (path conditions at every use of the corpus)."""
from sa.lab import *
from sa.web import Web, index_calls, REQ, IDX

R_USE = "corpus-used-only-after-its-capability-is-checked"
R_NONE = "missing-corpus-is-the-dedicated-error-before-anything-else"
R_KIND = "unsupported-operation-is-the-dedicated-error"
R_FREE = "other-operations-work-without-a-corpus"
R_PROTO = "each-capability-is-declared-by-a-checkable-protocol"
R_WEB = "pages-use-documents-only-with-a-corpus"

MISSING, UNSUPPORTED = "CorpusMissingError", "UnsupportedCorpusOperation"


def run(c, lab):
    c.rule(R_USE, "on every path to a use of an operation of the corpus it is known to be present and an instance of a protocol declaring that operation")
    c.rule(R_NONE, "called without a corpus, an operation that needs documents does nothing but raise the missing-corpus error")
    c.rule(R_KIND, "an operation whose capability check fails raises the unsupported-operation error")
    c.rule(R_FREE, "called without a corpus, an operation that needs no documents neither raises the missing-corpus error nor uses the corpus")
    c.rule(R_PROTO, "every operation the index uses on a corpus is declared by a runtime checkable protocol")
    c.rule(R_WEB, "a page calls an operation that needs documents only where the index is known to have a corpus (or handles the error)")
    c.assumptions += ["isinstance on a runtime checkable protocol holds exactly for objects that have all of its members",
                      "a savepoint opened and rolled back around a refused operation is not an effect"]
    cls = lab.index_cls
    prot = protocols(lab)
    c.require(prot, "no corpus protocol found in hyperreal.corpus")
    used_by_worker = {}
    for q in lab.workers():
        c.guard(R_USE, q, lambda: used_by_worker.update({q: worker_uses(lab, q)}))
    needs, attrs = {}, set()
    for n in lab.public(cls):
        c.guard(R_USE, f"Index.{n}", lambda: needs.update({n: uses(c, lab, cls, n, prot, used_by_worker, attrs)}))
    c.count("operations_needing_documents", sum(1 for v in needs.values() if v))
    for n, us in needs.items():
        c.guard(R_NONE, f"Index.{n}", lambda: without(c, lab, cls, n, us))
    for a in sorted(attrs):
        ps = [p for p in prot.values() if a in p["own"]]
        if not ps:
            c.bad(R_PROTO, a, a, f"no protocol in hyperreal.corpus declares `{a}`, which the index uses", "corpus.py")
        for p in ps:
            c.decide(p["checkable"], R_PROTO, a, p["name"], f"{p['name']} declares {a}" + ("" if p["checkable"] else " but cannot be used with isinstance"), "corpus.py")
    needing = {n for n, us in needs.items() if us}
    try:
        w = Web(lab)
        for h in w.handlers():
            c.guard(R_WEB, h.qual, lambda: page(c, lab, w, h, needing))
    except AnalysisError as e:
        c.failed(R_WEB, "server", e)


def protocols(lab):
    """Protocol classes of the corpus module: qual -> declared operations (own, inherited) and whether isinstance works."""
    m = lab.p.mods.get("hyperreal.corpus")
    out = {}
    if m is None:
        return out
    for k in m.classes.values():
        if not any(isinstance(b, str) and b.split(".")[-1] == "Protocol" or getattr(b, "name", "") == "Protocol" for b in k.bases):
            continue
        decs = [ast.unparse(d).split(".")[-1] for d in k.node.decorator_list]
        own = set(k.methods) | {s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)} | \
            {x.id for s in k.node.body if isinstance(s, ast.Assign) for x in s.targets if isinstance(x, ast.Name)}
        inherited = set(own)
        for b in k.mro():
            inherited |= set(b.methods) | {s.target.id for s in b.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
        out[k.qual] = {"name": k.name, "own": own, "all": inherited, "checkable": "runtime_checkable" in decs}
    return out


def the_corpus(lab, cls):
    return t("param", f"{cls.qual}()", "corpus")


def corpus_uses(r, co):
    """(event, name) of every operation of the corpus that is used: calls, and attributes read in anything observable."""
    out = []
    for e in r.events:
        if e.kind == "mcall" and co in options(e.d["recv"]):
            out.append((e, e.d["name"]))
        for v in e.d.values():
            for x in terms_of(v):
                if x.op == "attr" and x[0] is co:
                    out.append((e, x[1]))
    return out


def terms_of(v, depth=0):
    if isinstance(v, T):
        yield from sub_terms(v)
    elif isinstance(v, (tuple, list)) and depth < 4:
        for x in v:
            yield from terms_of(x, depth + 1)
    elif isinstance(v, dict) and depth < 4:
        for x in v.values():
            yield from terms_of(x, depth + 1)


def worker_uses(lab, q):
    """Names of corpus operations a background task uses: on the corpus of its index, or on a parameter that is given a corpus."""
    r = lab.run_worker(q, max_states=4)
    out = {n for _, n in corpus_uses(r, the_corpus(lab, lab.index_cls))}
    given = set()
    for run, e in lab.workers()[q]:
        co = the_corpus(lab, lab.index_cls)
        if e.d.get("many"):
            continue
        for p, v in list(zip(r.fn.posargs, e.d["args"])) + list(dict(e.d["kw"]).items()):
            if v is co:
                given.add(p)
    for p in given:
        out |= {n for _, n in corpus_uses(r, t("param", q, p))}
    return out


def knows(e, lab, co, name, prot):
    """None when the path conditions at this event establish the capability, else what is missing."""
    facts = e.facts
    inst = []
    for k, v in facts.items():
        if isinstance(k, T) and k.op == "isinstance" and k[0] is co and v:
            inst += [x for x in sub_terms(k[1]) if x.op == "class"]
    if not inst:
        if facts.get(t("cmp", "is", co, const(None))) is False or facts.get(t("truth", co)) is True:
            return "the capability of the corpus was not checked"
        return "the presence of the corpus was not checked"
    if not any(name in prot.get(x[0], {"all": ()})["all"] for x in inst):
        return f"the corpus was checked for {', '.join(x[0].split('.')[-1] for x in inst)} only, which does not declare `{name}`"
    return None


def uses(c, lab, cls, n, prot, by_worker, attrs):
    co = the_corpus(lab, cls)
    r = lab.run_method(cls, n, max_states=2)
    if not corpus_uses(r, co) and not any(by_worker.get(r.ip.fqual(f)) for e in r.of("submit") for f in options(e.d["f"])):
        return set()
    r = lab.run_method(cls, n, max_states=12)
    found = corpus_uses(r, co)
    for e in r.of("submit"):
        for f in options(e.d["f"]):
            for name in by_worker.get(r.ip.fqual(f), ()):
                found.append((e, name))
    names = set()
    for e, name in found:
        if name.startswith("__") and name.endswith("__"):
            continue
        names.add(name)
        miss = knows(e, lab, co, name, prot)
        label = f"corpus.{name}"
        if miss is None:
            c.ok(R_USE, f"Index.{n}", label, "present and capable", e.where)
        else:
            c.bad(R_USE, f"Index.{n}", label, f"Index.{n} uses {label} although {miss}", e.where)
    attrs |= names
    # the dedicated errors
    for k, v, st in r.outs:
        bad = [x for x, y in st.facts.items() if isinstance(x, T) and x.op == "isinstance" and x[0] is co and not y]
        none = st.facts.get(t("cmp", "is", co, const(None)))
        if k == "raise" and bad and none is False:
            nm = exc_names(lab, v)
            if nm is not None and not names and UNSUPPORTED in nm:
                pass
            elif nm is not None:
                c.decide(UNSUPPORTED in nm or "exc" in nm, R_KIND, f"Index.{n}", "unsupported", f"an unsuitable corpus is answered with {'/'.join(nm)}", r.fn.module.path.name)
        elif k == "return" and bad and none is False and names:
            c.bad(R_KIND, f"Index.{n}", "unsupported", f"Index.{n} returns normally although the corpus lacks the capability", r.fn.module.path.name)
    return names


def exc_names(lab, v):
    """Class names (with bases) of a raised value, or None when unknown."""
    if v.op == "exc" and v.args:
        v0 = v.args[-1] if isinstance(v.args[-1], T) else v
        nm = v.args[0]
        if isinstance(nm, T):
            nm = nm[0] if is_const(nm) else None
        if isinstance(nm, str):
            short = nm.split(".")[-1]
            return ["exc", short] if short in ("BaseException", "Exception") else [short]
        if v0 is not v:
            return exc_names(lab, v0)
    return None


def effect(e):
    """Something observable other than transaction control and logging."""
    if e.kind == "sql":
        w = first(text_of(e.d["sql"]))
        return f"runs `{stmt_label(text_of(e.d['sql']))}`" if w not in ("savepoint", "release", "rollback", "begin") else None
    if e.kind == "submit":
        return "submits background work"
    if e.kind == "random":
        return "draws from the random generator"
    if e.kind == "connect":
        return "opens a database"
    if e.kind == "call" and e.d["name"] in ("open", "tempfile.TemporaryDirectory", "tempfile.mkdtemp", "multiprocessing.Manager", "os.makedirs",
                                            "os.mkdir", "os.remove", "os.unlink"):
        return f"calls {e.d['name']}"
    return None


def without(c, lab, cls, n, names):
    co = the_corpus(lab, cls)

    def prep(ip, obj, st):
        st.env = {k: (const(None) if v is co else v) for k, v in st.env.items()}
        return st
    r = lab.run_method(cls, n, max_states=6, prep=prep, key="no-corpus")
    fn = f"Index.{n}"
    raised = [(exc_names(lab, v), st) for k, v, st in r.outs if k == "raise"]
    missing = [x for x in raised if x[0] and MISSING in x[0]]
    rets = [st for k, v, st in r.outs if k == "return"]
    if names:
        for e in r.events:
            what = effect(e)
            if what:
                c.bad(R_NONE, fn, "no corpus", f"without a corpus {fn} {what} before refusing", e.where)
                return
        if rets:
            some = " on some path" if missing else ""
            c.bad(R_NONE, fn, "no corpus", f"without a corpus {fn} returns normally{some} instead of raising {MISSING}", r.fn.module.path.name)
            return
        other = [x for x in raised if x[0] and MISSING not in x[0] and "exc" not in x[0]]
        if other:
            c.bad(R_NONE, fn, "no corpus", f"without a corpus {fn} raises {'/'.join(other[0][0])} instead of {MISSING}", r.fn.module.path.name)
        else:
            c.decide(True if missing else None, R_NONE, fn, "no corpus", f"raises {MISSING} at once", r.fn.module.path.name)
    else:
        if missing and not through_documents(r):
            c.bad(R_FREE, fn, "no corpus", f"{fn} needs no documents but raises {MISSING} without a corpus", r.fn.module.path.name)
        else:
            c.ok(R_FREE, fn, "no corpus", "independent of the corpus", r.fn.module.path.name)


def caught(e):
    """Is this call inside a try statement that catches the missing-corpus error?"""
    for n in ast.walk(e.mod.tree):
        if isinstance(n, ast.Try) and any(x is e.node for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ["Exception"]
                if {"Exception", "BaseException", "AttributeError", MISSING} & set(names):
                    return True
    return False


def through_documents(r):
    """Was the error raised by another operation this one calls?"""
    return any(e.kind == "raise" and MISSING in str(e.d.get("name")) and len([f for f in (e.stack or ())]) > 3 for e in r.events)


def page(c, lab, w, h, needing):
    r = w.run_handler(h, max_states=16, key="c20")
    for e, name, bound in index_calls(lab, r):
        if name not in needing:
            continue
        known = False
        for k, v in e.facts.items():
            if not isinstance(k, T):
                continue
            if k.op == "cmp" and k[0] == "is" and is_corpus(k[1]) and is_const(k[2], None) and v is False:
                known = True
            if k.op == "truth" and is_corpus(k[0]) and v is True:
                known = True
            if k.op == "isinstance" and is_corpus(k[0]) and v is True:
                known = True
        if known:
            c.ok(R_WEB, h.qual, name, "the index has a corpus here", e.where)
        elif caught(e):
            c.unsure(R_WEB, h.qual, name, "errors are handled in this page", e.where)
        else:
            c.bad(R_WEB, h.qual, name, f"{h.qual} calls {name} without knowing that the index has a corpus", e.where)


def is_corpus(v):
    return isinstance(v, T) and (v.op == "ext" and v[0] == IDX + ".corpus" or v.op == "attr" and v[1] == "corpus")
