#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a checks/<id>.py, the rest not applicable with a reason."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "typestate analysis of transactions over all paths and faults (context-sensitive abstract interpretation)",
    "C02": "typestate of stale summaries over all paths of every edit; relational analysis of triggers and refresh queries",
    "C03": "typestate of transaction, foreign keys and tasks over every path and fault of a re-index",
    "C04": "effect analysis of the statements and triggers a re-index can run; key dataflow",
    "C05": "dataflow from corpus to batches, segments and merge; loop path summaries; relational analysis of the merge",
    "C06": "affine dataflow over loop transition summaries of the position bookkeeping; path-condition bounds; query roles",
    "C07": "typestate of futures over every path and fault; escape analysis of task containers",
    "C08": "effect and typestate analysis of every function handed to a pool (write effects, snapshots, closing, lock)",
    "C09": "partial evaluation of the constructor per stored version; abstract execution of its DDL; fault typestate",
    "C10": "SQL extraction by constant propagation, compiled against the schema the package itself creates; row-shape types",
    "C11": "provenance dataflow of keys, ids and documents from request to result",
    "C12": "taint analysis of markup through renderers and template syntax trees (escaping contexts)",
    "C13": "call-graph effect analysis of every page handler; typestate of the request's index",
    "C14": "taint analysis of statement texts and database locations",
    "C15": "path-condition analysis of every command (confirmation and verification dominate effects)",
    "C16": "collection-membership dataflow (exclusion lattice) over refinement",
    "C17": "collection-membership dataflow over refinement; write-effect and id-freshness analysis",
    "C18": "source analysis of randomness and of the order of what is drawn from (determinism dataflow)",
    "C19": "may-alias/ownership analysis of every in-place operation",
    "C20": "path conditions at every use of a corpus capability; call-graph of pages",
    "C21": "symbolic round trip of pickled state; transferability of what is dispatched and returned",
    "C22": "constant tracers propagated from options and form fields to engine parameters; template form/link analysis",
    "C23": "provenance of exported values and coverage of loops and queries",
    "C24": "transaction typestate under faults; column provenance; loop coverage",
    "C25": "resource typestate over every path and fault",
    "C26": "effect analysis of SQL statements: rows and values written, against those the arguments name",
    "C27": "provenance of returned values through the queries they are read by: key, columns, order, limit and what is left out",
    "C28": "per-iteration counting of entries in parallel results, provenance of ids and measures through the queries their documents are read by, ownership of containers across iterations",
    "C29": "provenance of every indexed field through index(), the documents handed out by docs() and the columns of the statements they are read by; rounding as the set of replaced units",
}
NOTE = {
    "C01": "Every path of every public Index operation, entered on its own and inside an open transaction, with one error or interrupt at every "
           "point that can raise. Trusts the model of sqlite3 transactions and that error-path transaction control does not itself fail.",
    "C02": "All paths of all public edits, re-index and migration; abstracts which clusters exist, not how bitmaps are computed. "
           "A crash between a migration's commit and its refresh is outside (recovered by the next edit).",
    "C03": "Every path and single fault of Index.index; the SQL effects are derived from the statements. Fault exactly at the connection's own "
           "begin/pragma is exempt. Atomicity of a SQLite commit is trusted.",
    "C04": "Every statement reachable from a re-index including triggers, judged relationally against the declared schema. Trusts SQLite's "
           "conflict semantics.",
    "C05": "Worker, numbering loop, segment rows, merge and union aggregate, symbolically for any corpus and batch size. Constructs outside the "
           "understood forms (generator batches, finalize by n-ary union) are left undecided. Trusts roaring bitmaps.",
    "C06": "Affine relations between recorded positions, boundaries, windows, passages and slices on every path of a loop iteration. What counts "
           "as a match (window intersection) is not decided.",
    "C07": "Every submission site of the package and every path from it; a task is identified by site and call path.",
    "C08": "Every function handed to a pool, every path and single fault.",
    "C09": "Each supported stored version and every refused kind of file, partially evaluated through the constructor. Layouts written by old "
           "releases are a frozen reference.",
    "C10": "Every statement text that can be reconstructed from constants (a few assembled ones stay undecided and are reported so).",
    "C11": "All built-in corpora and every index operation returning documents; external corpora are assumed to keep the protocol.",
    "C12": "Every template expression and every markup value built in Python. Trusts jinja2's escaping. One unquoted integer id is undecided.",
    "C13": "Every exposed handler, every path. Trusts cherrypy's tool semantics.",
    "C14": "Every statement text and every connection location in the package.",
    "C15": "Every click command, every path. Trusts click's confirm/Path semantics.",
    "C16": "All paths of refinement with state merging; completeness of the dissolve branch relies on the guard that raises. ",
    "C17": "All paths of refinement with state merging.",
    "C18": "Every draw, shuffle, sample and seed; row order is judged from the queries. Trusts numpy/random for equal seeds.",
    "C19": "Every in-place operation reachable from a public function or method; aliasing through unknown callees is assumed not to mutate.",
    "C20": "Every index operation with and without corpus and capability, every page.",
    "C21": "Symbolic state round trip for every class sent to processes; attribute values supplied by callers are assumed picklable.",
    "C22": "Every option, argument, field, form and link. Names of engine parameters of the same meaning are a table in the check.",
    "C23": "Every export path; the correctness of the underlying similarity values is not decided.",
    "C24": "Every loader, every path and single fault; StackExchange archive parts are matched by id only.",
    "C25": "Every acquisition in the package, every path and single fault.",
    "C26": "Every path and statement of the seven edits; lists of one to four ids stand for all lists (loops treat elements alike). Rows chosen by "
           "sub-queries or texts built at run time are left undecided.",
    "C27": "Every path of the twelve methods. Values computed from rows other than by reading columns, and conditions that are not comparisons of columns with arguments or constants, are undecided; "
           "the counting of bit slices (N03) is not decided.",
    "C28": "Every path of the five methods and every similarity measured in the package. Which features the pivoting search leaves out (N02) is not decided; measures whose documents are not read by a key are undecided.",
    "C29": "Every field on every path of index() of the three built-in corpora, every attribute docs() hands out. What tokenisers and the HTML parser make of a text is assumed; fields whose mapping is built in ways that are not followed are undecided.",
}
NA = {
    "N01": "The objective is a stochastic, real-valued function of the stored document sets; no static argument in reach bounds it.",
    "N02": "Correctness of the upper-bound pruning is an arithmetic fact about set cardinalities and heap contents at run time.",
    "N03": "Correctness of bit-sliced counting is a numeric property of bitmap contents for all inputs; a dataflow rule would only restate the code.",
    "N04": "Depends on when the caller consumes a generator relative to other connections' commits: a run-time schedule outside the source.",
    "N05": "Memory use is a run-time quantity; batch sizes, document sizes and future completion order are not bounded in the source.",
    "N06": "A statement about the language of a Unicode regular expression on all texts against prose; not decidable by the source analyses used here.",
}


def main():
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if (ROOT / "checks" / f"{i.lower()}.py").exists():
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                "technique": TECH.get(i, "static analysis"),
                "level": "other",
                "level_note": NOTE.get(i, ""),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
    m = {"version": 1, "setup_cmd": "python3 -B check.py --self-test", "checks": checks, "not_applicable": na}
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
