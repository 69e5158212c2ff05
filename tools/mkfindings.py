"""Writes known_findings.txt from the fix: commits of /repo (run by hand)."""
import subprocess
MAP = {
 "raise MigrationError for a database": ("C09", "opening a non-empty foreign database failed with NameError (undefined db_path) in migrate()"),
 "set the corpus before refreshing": ("C21", "opening an old index with changed clusters failed: Index pickled for the refresh before self.corpus existed"),
 "roll back an edit that is interrupted": ("C01", "atomic(): interrupt committed partial edits; failed cluster refresh left the transaction open"),
 "report errors from replace_docs": ("C24", "PlainTextSqliteCorpus.replace_docs swallowed errors and committed partial loads on interrupts"),
 "accept a working_dir": ("C25", "Index.index(working_dir=...) failed: a path has no .name/.cleanup"),
 "allow clusters to be already marked": ("C03", "re-index/migration failed on UNIQUE changed_cluster after an interrupted refresh"),
 "roll back an interrupted index run": ("C03", "KeyboardInterrupt during Index.index left the transaction open and foreign keys off"),
 "quote the path given to is_index_db": ("C14", "a path containing ? or # changed the location/mode of the read-only connection in is_index_db"),
 "is_index_db answers False": ("C09", "is_index_db raised sqlite3.DatabaseError for a file that is not a database"),
 "keep position windows inside": ("C06", "expand_positions_window covered the first position of the next document"),
 "keep the last passage": ("C06", "_score_passages_dnf dropped a last passage of a single position"),
 "include the last match of a passage": ("C06", "_construct_passages cut off the last token of a passage"),
 "only count collocations": ("C06", "_count_collocations mixed positions of other fields"),
 "report texts that cannot be stored": ("C24", "replace_docs silently dropped texts that cannot be stored (None) and reported success"),
 "escape document text": ("C12", "StackExchange tags/names and tweets rendered as markup; unquoted src attribute"),
 "show concordances when": ("C22", "result_type=concordance was rendered as documents"),
 "refine a model where every feature is pinned": ("C16", "ZeroDivisionError refining when every feature is pinned"),
 "release the read transaction": ("C25", "render_docs_html/render_docs_table left a savepoint open on errors"),
 "refine towards a target smaller": ("C16", "IndexError when more clusters are pinned than target_clusters"),
 "roll back an interrupted load": ("C24", "an interrupted StackExchangeCorpus.add_site_data left its transaction open; the next load committed half of it"),
 "answer 404 for an index id": ("C13", "an index id that is not a number was answered with an internal server error instead of 404"),
 "label graph nodes with values that are not text": ("C23", "exporting a graph without fields in labels failed with TypeError for values that are not text"),
 "sample the same passages": ("C18", "render_passages_table sampled in the order scoring tasks finished: the same seed gave different passages"),
 "in a specified order": ("C18", "refine_clusters and structured_doc_sample drew over rows in an order the query did not fix"),
 "keep every new cluster": ("C17", "refining a selection to more clusters could drop a new cluster while renumbering it (its temporary id equal to a fresh one): fewer clusters than asked for, its features left in the old cluster"),
 "refuse features of other fields": ("C06", "count_collocations compared positions of features of other fields with the boundaries of the field (wrong counts or IndexError)"),
 "allow tweets to be indexed": ("C05", "tweets could not be indexed with positions (None in sequence fields)"),
 "store whole lines of a plain text file": ("C24", "plaintext-corpus create dropped the text after the first comma of a line, and lines starting with a comma"),
}
out = ["# Findings of the checks on SamHames/hyperreal.",
       "# known: property=<id> key=<rule>|<function>|<construct> <what fails>   (suppresses exactly that key)",
       "# fixed: property=<id> <commit> <what failed>                           (suppresses nothing)"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        ks = [k for k in MAP if k in s]
        assert len(ks) == 1, s
        out.append(f"fixed: property={MAP[ks[0]][0]} {h} {MAP[ks[0]][1]}")
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
