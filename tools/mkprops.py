"""Writes properties.jsonl (one place to edit the statements)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

I, S, D, C, CLI, U, SCH = ("hyperreal/index.py", "hyperreal/server.py", "hyperreal/db_utilities.py",
    "hyperreal/corpus.py", "hyperreal/cli.py", "hyperreal/utilities.py", "hyperreal/_index_schema.py")
T = "hyperreal/templates/*.html"

p("C01", "Every model edit is all-or-nothing",
  "Every operation that edits the stored model (creating, merging, deleting, pinning, refining or recreating clusters and features) either takes full effect or, when any error or interrupt stops it at any point - including while the cluster summaries are being refreshed - leaves the stored model exactly as it was and lets the error reach the caller. After the call, successful or not, no transaction is left open on the index, so the next edit is durable on its own.",
  ["fault_sequences", "crash_points", "inputs"], "every editing operation, every statement at which an exception or KeyboardInterrupt can surface, and nested use of one operation inside another",
  "The tests never inject a failure or an interrupt inside an edit; the outcome depends on which statement fails, not on sampled arguments.",
  [I, D], [("transaction/savepoint decorator around every editing method", "index.py: atomic"), ("explicit transaction control (no implicit driver transactions)", "db_utilities.py: connect_sqlite"), ("editing methods", "index.py: Index.*")],
  [("feature_cluster, cluster", "the model", "_index_schema.py"), ("nesting level / changed flag", "when housekeeping runs", "index.py: Index")])

p("C02", "Stored cluster summaries always match the cluster's current features",
  "After every successful edit of the model, re-index or migration that changes which features a cluster holds, that cluster's stored feature count, matching document set, document count and weight are those of its current features, and a cluster left without features no longer exists. This holds for the cluster a feature left as well as for the one it joined.",
  ["inputs", "histories"], "every sequence of edits over every model, including edits that move features between existing clusters",
  "Tests compare a few counts after a few edits; staleness shows only for particular combinations of operation, cluster and nesting.",
  [I, SCH], [("triggers that record changed clusters", "_index_schema.py: CURRENT_SCHEMA"), ("housekeeping before the outermost commit", "index.py: atomic, Index._update_changed_clusters, _union_query")],
  [("changed_cluster", "clusters whose summary is out of date", "_index_schema.py"), ("cluster.feature_count/docs_count/weight/doc_ids", "materialised summary", "_index_schema.py")])

p("C03", "Re-indexing replaces the whole index at a single commit",
  "While a re-index runs, and if it fails or is interrupted at any point, the database holds the complete previous index: documents, features, positions and field summary become visible together at one commit, only after every background batch has succeeded. A failed re-index raises, leaves no transaction open and restores foreign key enforcement; an interruption between that commit and the refresh of the cluster summaries does not prevent a later re-index from succeeding.",
  ["fault_sequences", "crash_points", "schedules"], "every failure point of the main process and of every background batch, every batch size and worker count",
  "Tests only run successful indexing; no test kills, interrupts or fails a batch.",
  [I], [("single explicit transaction with rollback on failure", "index.py: Index.index"), ("temporary database for background batches", "index.py: _index_docs")],
  [("doc_key, inverted_index, position_*, field_summary", "the index content", "_index_schema.py")])

p("C04", "Re-indexing keeps feature ids, cluster membership and pins",
  "Re-indexing never changes the id of an already known (field, value) feature, never deletes a feature or a cluster assignment, and never alters pins. Features the corpus no longer contains stay, matching no documents; the per-cluster document counts of features are those of the new index.",
  ["inputs", "histories"], "every previous index and model and every new corpus content",
  "The only test re-indexes the same corpus; it never re-indexes with vanished features or an existing model.",
  [I], [("foreign key actions disabled during the merge", "index.py: Index.index"), ("feature id looked up during the replace", "index.py: Index.index merge SQL")],
  [("inverted_index.feature_id", "feature identity", "_index_schema.py")])

p("C05", "The index records exactly the features each document has",
  "After indexing, a document matches a (field, value) feature if and only if the corpus reported that value under that field for that document, for every document and whatever the batch size; no field, value, document or batch is skipped and nothing else is added (absent values aside). The key returned for a matching document is the key of that same document, and every feature's document count is the size of its document set. The field summary has one row per field, with its number of features, its smallest and greatest value and its number of recorded positions.",
  ["inputs", "configurations"], "every corpus, batch size, worker count and positional setting",
  "Tests compare totals on one corpus of short plain text lines; a skipped field, misaligned batch or partial merge can keep those totals.",
  [I], [("parallel id/key batches and their dispatch", "index.py: Index.index"), ("per batch inversion", "index.py: _index_docs"), ("merge of the segments", "index.py: Index.index merge SQL"), ("bitmap union aggregate", "db_utilities.py: RoaringUnion"), ("field summary", "index.py: Index.index")])

p("C06", "Positions, windows and passages never leave their document",
  "Positions recorded for a document occupy a range of their own within its field; a window around a match never covers a position of another document; and a reported or rendered passage spans exactly the positions from its first to its last match (plus the requested overhang) in that document, with no matching passage dropped. Collocation counts for a field only involve that field.",
  ["inputs"], "every arrangement of documents, matches, window and overhang sizes, and fields",
  "The test corpus has one sequence field and large windows, and only counts matched documents; boundary cases (first/last position, last document, adjacent documents, second field) are not sampled.",
  [I, U], [("position bookkeeping per batch", "index.py: _index_docs"), ("window expansion clamped to the document", "utilities.py: expand_positions_window"), ("passage walk", "index.py: _score_passages_dnf"), ("passage rendering", "index.py: _construct_passages"), ("collocation counting", "index.py: _count_collocations")])

p("C07", "No failure of a background task is lost",
  "An operation that hands work to background processes succeeds only if every piece of that work succeeded: each task's outcome is collected and its error reaches the caller, none is ignored, dropped or replaced by partial results.",
  ["fault_sequences", "schedules"], "every task, completion order and failing subset",
  "Background failures never occur in the tests.",
  [I], [("future results collected after submit", "index.py: Index.index, _score_proposed_moves, pivot_clusters_by_query, score_passages_dnf, count_collocations, create_cluster_cooccurrence_graph, render_passages_table, _update_changed_clusters")])

p("C08", "Background tasks only read the index, from one snapshot, and clean up",
  "Work done in background processes never writes to the index database and never starts process pools of its own; all its reads of the index come from a single read transaction, and the index or segment database connection it uses is closed however it ends. Background indexing writes only to the temporary segment database, one batch at a time under the shared lock and atomically per batch.",
  ["schedules", "fault_sequences"], "every background task, interleaving with writers, and failure point",
  "Interleavings with a writer, lock contention and failing tasks are not exercised by the tests.",
  [I], [("context manager entered by each task", "index.py: Index.__enter__/__exit__"), ("task functions", "index.py: module level functions"), ("write lock", "index.py: _index_docs")])

p("C09", "Opening a database yields the current schema or refuses untouched",
  "Opening a path as an index ends with the database at the current schema version, whatever supported older version it had, with the upgrade applied as one transaction that leaves the old version readable if it fails, and with the cluster summaries refreshed. A database that is not empty and not an index, or that has an unknown version, is refused with a clear migration error and without changing its tables; asking whether a file is an index answers no, rather than failing, for any file that is not one.",
  ["histories", "crash_points", "inputs"], "every starting version, every failure point of the upgrade, every kind of file",
  "Tests migrate only one old version without a model, and never open a foreign, newer or non-database file.",
  [SCH, I], [("migration runner and version table", "_index_schema.py: migrate, migrations, CURRENT_SCHEMA"), ("constructor sequence", "index.py: Index.__init__"), ("file probe", "index.py: Index.is_index_db")])

p("C10", "Every SQL statement is valid for the database it is sent to",
  "No operation can fail because of its own SQL: every statement the package issues refers only to tables and columns that exist in the database it is sent to, binds exactly as many values as it has placeholders, and has each result row taken apart into exactly the columns it selects. The columns written and read by position line up with the declared table layout.",
  ["programs", "inputs"], "every statement on every code path, including those no test reaches",
  "Many statements (collocations, other corpora, migrations, background tasks) are never run by the stable tests, and a statement that is valid but misaligned does not fail.",
  [I, C, SCH], [("embedded SQL", "index.py, corpus.py"), ("schema scripts", "_index_schema.py: CURRENT_SCHEMA; corpus.py: create table scripts; index.py: segment tables")])

p("C11", "Documents come back paired with their own key, once each, in order",
  "Retrieving or rendering documents for a list of keys yields exactly one result per requested key, in the requested order, each carrying its own key, for every built-in corpus; retrieving without keys covers every key. Operations on an index that return documents attach to each one its own key and document id, and a sample export writes each document under its own key, sampled cluster and cluster columns.",
  ["inputs"], "every key list (including empty and repeated requests), corpus and sample",
  "Tests check counts only; swapped, shifted, filtered or re-ordered rows are not seen.",
  [C, I], [("docs/render methods of the corpora", "corpus.py"), ("key lookup and pairing", "index.py: convert_query_to_keys, docs, render_docs_html, render_docs_table, export_document_sample")])

p("C12", "Corpus text is never interpreted as markup in the web pages",
  "Every piece of text coming from documents, their metadata, the index or the request is HTML-escaped when it is put into a page, both in the web templates and in the per-corpus document renderings. The only exception is the body of a StackExchange post, which is HTML by definition.",
  ["inputs"], "every text that a corpus, index or request can contain",
  "No test document contains markup, and StackExchange/Twitter renderings are not run by the stable tests.",
  [S, C, "hyperreal/templates/base.html", "hyperreal/templates/cluster.html", "hyperreal/templates/details.html", "hyperreal/templates/index.html", "hyperreal/templates/index_listing.html", "hyperreal/templates/macros.html"],
  [("auto-escaping template environment", "server.py: templates"), ("corpus document templates", "corpus.py: TEMPLATE"), ("values marked as safe markup", "corpus.py: render_docs_html")])

p("C13", "Only POST requests change the model; each request closes its index",
  "No GET or HEAD request to the web interface changes the stored model: every page that can reach an editing operation accepts only POST. Every request below an index path operates on the index named in that path (an unknown one is a 404), and the index opened for it is closed when the request ends, whatever its outcome.",
  ["inputs", "histories", "fault_sequences"], "every exposed page, method, and request outcome",
  "The server test only fetches a few pages with GET and never checks methods, side effects or cleanup.",
  [S], [("method restriction on exposed handlers", "server.py: tools.allow"), ("request tools", "server.py: lookup_index, cleanup_index")])

p("C14", "User supplied values are never executed as SQL",
  "Values that come from callers, requests, documents, corpora or files are always passed to the database as bound values and never become part of the text of a statement; nor do they become part of a database location in a way that changes its access mode.",
  ["inputs"], "every value reaching any database call",
  "Tests use benign values only.",
  [I, C, SCH, D], [("parameter binding at every execute call", "index.py, corpus.py, _index_schema.py")])

p("C15", "The command line never discards a model or touches a non-index silently",
  "The command line deletes an existing model only when a restart was requested and then confirmed; otherwise it creates a model only if there is none. Commands that serve or export an index first verify that the given file is an index and refuse otherwise before opening it, and re-creating a corpus or index acts only on the database named as its target, never on the input files.",
  ["inputs", "histories"], "every combination of options, existing state and files",
  "One command sequence is tested, with valid files and one confirmation.",
  [CLI], [("confirmation with abort", "cli.py: model"), ("index file checks", "cli.py: serve/export/sample commands")])

p("C16", "Pinned features and pinned clusters are never moved by refinement",
  "Automatic refinement never moves a pinned feature out of its cluster and never adds features to, or removes features from, a pinned cluster, whatever else is requested (splitting, merging down to a target, dissolving, selected clusters, probing, early termination). Refinement completes normally when everything is pinned.",
  ["inputs", "histories"], "every model, set of pins and combination of refinement options, over all random choices",
  "One test pins two features and one cluster with one random run each; a move of a pinned feature depends on the random draws.",
  [I], [("exclusion of pinned features from every move", "index.py: Index._refine_feature_groups"), ("exclusion of pinned clusters", "index.py: Index.refine_clusters")],
  [("feature_cluster.pinned, cluster.pinned", "pins", "_index_schema.py")])

p("C17", "Refinement only redistributes the features it was given",
  "Refining never adds features to or removes features from the model, leaves every feature in exactly one cluster, and touches only the selected clusters' features; clusters outside the selection keep exactly their features. Clusters created by refinement get ids that no existing cluster uses, and the clustering stored afterwards is the one refinement arrived at: a feature that is moved leaves the cluster it was in, and every new cluster is kept, under an id of its own.",
  ["inputs", "histories"], "every model, selection, target size and random choice",
  "Tests check cluster counts, not that features outside the selection stay put or that none is lost or duplicated.",
  [I], [("paired removal and insertion for each move", "index.py: Index._refine_feature_groups"), ("selection filter, fresh ids and write back", "index.py: Index.refine_clusters, _update_cluster_feature, next_cluster_id"), ("one row per feature", "_index_schema.py: feature_cluster primary key")])

p("C18", "The same random seed gives the same model and samples",
  "Given the same index and the same random seed, initialising, refining and sampling give the same result: every random choice is drawn from the generator seeded for that index object, nothing else random is consulted, and no choice depends on the order in which background tasks finish or on an unspecified row order.",
  ["schedules", "inputs"], "every schedule of background tasks, seed and model",
  "Tests repeat a run twice on one machine; order dependence shows only under particular schedules.",
  [I], [("per-object generator", "index.py: Index.__init__ random"), ("ordered collection of results", "index.py: _score_proposed_moves"), ("ordered selection before shuffling", "index.py: initialise_clusters")])

p("C19", "Queries and analyses never modify the objects passed to them",
  "Functions and methods of the library never modify the document sets, mappings, feature lists or documents their caller passes in, nor an object they have handed out or kept from an earlier call; results are new objects or are passed through unmodified.",
  ["inputs", "histories"], "every public function, argument and later use of the same argument",
  "A modified argument only shows when the caller reuses it afterwards, which the tests do not do.",
  [I, U, D, S], [("copies before in-place set operations", "utilities.py: bstm, expand_positions_window, compute_bitslice; index.py: sample_bitmap, measure_feature_contribution_to_cluster, _refine_feature_groups")])

p("C20", "Document operations check the corpus before using it",
  "Every index operation that needs documents raises the dedicated missing-corpus or unsupported-operation error, before doing anything else, when the index has no corpus or its corpus lacks the required capability; operations that do not need documents work without a corpus, in the library and in the web interface.",
  ["inputs", "configurations"], "every operation and every kind of corpus",
  "One operation is tested without a corpus, and none with a corpus lacking a capability.",
  [I, C, S], [("capability decorator", "index.py: requires_corpus"), ("corpus protocols", "corpus.py"), ("corpus checks before rendering", "server.py")])

p("C21", "Objects sent to background processes arrive equivalent",
  "An index or corpus object transferred to a background process reopens the same databases with the same corpus and the same indexing behaviour (such as a custom tokeniser), including while the index object is still being constructed; everything dispatched to background processes can be transferred.",
  ["inputs", "programs"], "every corpus and index configuration and every dispatched task",
  "Tests only transfer default-configured objects and never during construction with work to do.",
  [I, C], [("state saving and restoring", "index.py: Index.__getstate__/__setstate__; corpus.py: SqliteBackedCorpus, PlainTextSqliteCorpus"), ("constructor order", "index.py: Index.__init__"), ("dispatched functions", "index.py: pool.submit/map")])

p("C22", "Every option accepted by the command line or web pages takes effect",
  "Each option or form field that a command or web page accepts is passed, with the right type, to the parameter of the engine operation it stands for; none is dropped, swapped or replaced by another. Each result presentation the web interface accepts is produced and shown in that form.",
  ["inputs", "configurations"], "every option and combination of options",
  "Tests pass a handful of options and cannot see a dropped or swapped one; forms are never submitted.",
  [CLI, S, "hyperreal/templates/macros.html", "hyperreal/templates/details.html", "hyperreal/templates/cluster.html", "hyperreal/templates/index.html"],
  [("option plumbing", "cli.py, server.py"), ("form fields", "templates"), ("presentation dispatch", "server.py, macros.html")])

p("C23", "Exports contain the whole model under the right headings",
  "Exporting clusters (command line or web) writes one row for every feature of every cluster, limited only by an explicitly requested number of top features, with each value under its own heading; the cluster graph has one node per cluster and considers every pair of clusters once. Document samples list every sampled document once.",
  ["inputs"], "every model and export option",
  "Tests only check that the commands exit with success and the number of graph nodes.",
  [CLI, S, I], [("export loops and headers", "cli.py: export_clusters; server.py: export_clusters; index.py: export_document_sample, create_cluster_cooccurrence_graph, top_cluster_features, cluster_features")])

p("C24", "Loading documents into a corpus is atomic and keeps every field",
  "Loading documents into a corpus database either stores all of them or, on any error, leaves the previous content and raises the error to the caller; it never reports success for a load that failed. Each attribute of an imported StackExchange record is stored in, and rendered from, the field of the same meaning, and re-importing a site keeps the ids of known posts. Each line of a plain text file that is not blank becomes one document with all of its text.",
  ["inputs", "fault_sequences"], "every input, including inputs whose reading fails half way, and every record attribute",
  "Loads never fail in the tests, and the StackExchange import is not run by the stable tests.",
  [C], [("transaction around each load", "corpus.py: PlainTextSqliteCorpus.replace_docs, StackExchangeCorpus.add_site_data"), ("positional inserts", "corpus.py")])

p("C25", "Temporary resources and read transactions are released on every exit",
  "Whatever way an operation ends, it releases what it acquired: temporary directories it created (but never a directory supplied by the caller), helper processes, attached databases, output files, and the read transactions a corpus opens while documents are iterated or rendered.",
  ["fault_sequences", "inputs"], "every exit path of every operation that acquires a resource",
  "Only successful runs are tested; leaks and cleanup on failure are not observed.",
  [I, C, CLI], [("cleanup blocks", "index.py: Index.index, _index_docs"), ("read transactions in corpora", "corpus.py: docs, render_docs_html, render_docs_table"), ("lazily created pool", "index.py: Index.pool")])

p("C26", "Edits change exactly the clusters and features they name",
  "delete_clusters, delete_features, merge_clusters, create_cluster_from_features, pin_features and pin_clusters change every cluster or feature they are given and no other: deleted ones leave the model, merged clusters end up in the first one named (which is returned), a new cluster has an id above every existing one and holds all the given features, whether or not they were in the model, and the pinned state becomes the one asked for. initialise_clusters discards the old model with its pins and puts every feature of the requested fields (default: all) with at least min_docs documents into exactly one of the n clusters, with its own document count.",
  ["inputs", "histories"], "every model, every list of ids and every edit",
  "Tests apply a few edits to one small model; ids such as 0, repeated pins, features outside the model and unusual field selections are not all exercised.",
  [I], [("edits", "index.py: Index.delete_clusters, merge_clusters, delete_features, create_cluster_from_features, pin_features, pin_clusters"), ("new cluster ids", "index.py: Index.next_cluster_id"), ("initial model", "index.py: Index.initialise_clusters")])

p("C27", "Lookups and listings return what was asked for",
  "Index[(field, value)], Index[feature_id], lookup_feature, lookup_feature_id and cluster_docs return the stored data of exactly the feature or cluster they are given, each part being the column it is documented to be, and looking up an unknown feature raises KeyError. cluster_features and top_cluster_features list the top_k most frequent features of each cluster in descending order of documents (clusters likewise), iter_field_docs every value of the field with at least min_docs documents in order of the values, cluster_ids, pinned_cluster_ids and indexed_field_summary every cluster, pinned cluster and field; cluster_query and union_bitslice combine all features of the cluster or all features given, none left out.",
  ["inputs", "histories"], "every index and model, every key and limit",
  "Tests look up a handful of features in small models, where truncated, reordered or neighbouring rows often look the same.",
  [I], [("lookups", "index.py: Index.__getitem__, lookup_feature, lookup_feature_id, cluster_docs"), ("listings", "index.py: Index.cluster_features, top_cluster_features, iter_field_docs, cluster_ids, pinned_cluster_ids, indexed_field_summary"), ("combined documents", "index.py: Index.cluster_query, union_bitslice")])

p("C28", "Results are attributed to what they were computed for",
  "intersect_queries_with_field returns, for every value of the field, one entry in the values, one in the totals and one per query, all at the same position, each computed with the documents of that value. structured_doc_sample samples exactly the requested clusters (default all), each from its own documents among those allowed. pivot_clusters_by_query scores every requested cluster and feature with its own documents, whatever the number of background tasks. count_collocations counts the other features of the field near the given ones, adds up what different background tasks counted for the same collocation, and returns with them the number of positions of the given features and then the number of positions in the windows around them. extract_matching_feature_windows groups all given features by their field, forgetting none. A list, set or mapping filled for one value, cluster or field is never shared with another.",
  ["inputs", "schedules"], "every index, query, selection and number of background tasks",
  "Tests look at single values, one cluster or the best feature only; a shifted, shared or overwritten entry looks like any other number.",
  [I], [("field intersections", "index.py: Index.intersect_queries_with_field"), ("cluster sampling", "index.py: Index.structured_doc_sample"), ("similarities", "index.py: Index.pivot_clusters_by_query, _pivot_cluster_features_by_query_jaccard, _calculate_query_cluster_cooccurrence"), ("collocations", "index.py: Index.count_collocations"), ("windows", "index.py: Index.extract_matching_feature_windows")])

p("C29", "Every document is indexed with its own attributes",
  "Each field the built-in corpora index holds the attribute of its name, of the same document, whole and unaltered. A StackExchange post has its author under UserPosting, the words of its title and body under Post, of its code blocks under CodeBlock, of its comments under Comment, the commenters under UserCommenting, the tags of its question under Tag, and its site and type under Site and PostType. A tweet has its words under text, its hashtags, mentions, links and their host names under #, @, url and domain, its author under by, and the tweet it replies to, quotes or retweets, with the user who wrote that tweet, under the field of that name. A plain text document has the words of its text under text. created_<unit> is the time of the document rounded down to that unit. Texts keep the order of their words. A retweet is indexed only as a reference (the tweet it repeats and its author, who posted it and when), every other tweet by its own content.",
  ["inputs"], "every document of every built-in corpus",
  "The stable tests index only plain text; StackExchange and Twitter corpora are not covered by them at all.",
  [C, U], [("fields", "corpus.py: PlainTextSqliteCorpus.index, StackExchangeCorpus.index, TwittersphereCorpus.index"), ("attributes", "corpus.py: docs of the three corpora"), ("rounding", "utilities.py: round_datetime")])

# ---- not applicable to static analysis here
p("N01", "Refinement improves the clustering objective and converges",
  "Refining a model does not make its clustering objective worse in expectation, and refinement stops once fewer features move than the requested tolerance.",
  ["inputs", "histories"], "every model and random choice",
  "Only one run per test is sampled, and the objective value is never checked.",
  [I], [("contribution scores", "index.py: measure_feature_contribution_to_cluster"), ("move acceptance and tolerance", "index.py: Index._refine_feature_groups")])
p("N02", "Pivoting returns exactly the most similar features of each cluster",
  "For any query, the features reported for a cluster are exactly its most similar features by Jaccard similarity, in order; early termination of the search never drops a better feature.",
  ["inputs"], "every query, cluster and result size",
  "Tests check only that one feature is found first.",
  [I], [("upper bound pruning", "index.py: _pivot_cluster_features_by_query_jaccard")])
p("N03", "Ranking by number of matching features keeps the best documents",
  "Selecting the top documents from a set of features returns the documents matching the most features, for any set of features and any limit.",
  ["inputs"], "every set of bitmaps and limit",
  "A few clusters of one corpus are sampled.",
  [U], [("bit sliced counting and search", "utilities.py: compute_bitslice, bstm, weight_bitslice")])
p("N04", "Lazily consumed results reflect one consistent snapshot",
  "Results that are consumed piece by piece (field iteration, matching windows, passages, streamed pages) all come from one consistent state of the index even if it is re-indexed or edited while they are consumed.",
  ["schedules"], "every interleaving of a consumer with a writer",
  "No test writes while a result is being consumed.",
  [I, S], [("transaction decorator on generator methods", "index.py: iter_field_docs, extract_matching_feature_windows, render_passages_table")])
p("N05", "Indexing memory stays bounded by batches in flight",
  "Indexing a collection much larger than memory needs memory only for the batches in flight and their results.",
  ["inputs", "schedules"], "every collection and batch size",
  "The test corpus is tiny.",
  [I], [("bounded number of outstanding batches", "index.py: Index.index")])
p("N06", "Tokenisation splits text the way the documentation describes",
  "Tokenising any text yields its words in order, lower-cased with straight quotes, dropping only whitespace (and, for social media text, links, mentions and hashtags).",
  ["inputs"], "every Unicode text",
  "One English text is tokenised.",
  [U], [("tokeniser expressions", "utilities.py: tokens, social_media_tokens")])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
