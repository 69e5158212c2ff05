From 8e6b355db842ee91bbe90a6c8aae94e0b9b4398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 01/28] fix: raise MigrationError for a database that is not an
 index

The message referred to an undefined name, so opening a non-empty foreign
database failed with a NameError instead.
---
 hyperreal/_index_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..ecb00cb 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -245,7 +245,7 @@ def migrate(db):
 
         if table_count > 0:
             raise MigrationError(
-                f"Database at '{db_path}' is not empty, and cannot be used as an index."
+                "The database is not empty, and cannot be used as an index."
             )
         else:
             db.execute("begin")
-- 
2.43.0


From f48a1845169f9d72b7ae795db26942f0409077c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/28] fix: set the corpus before refreshing clusters of a
 migrated index

The refresh sends the index to background processes, which needs the corpus.
---
 hyperreal/index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..7fda9cd 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -157,6 +157,7 @@ class Index:
         self.random = random.Random(random_seed)
 
         self._pool = pool
+        self.corpus = corpus
 
         for statement in """
             pragma synchronous=NORMAL;
@@ -174,8 +175,6 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        self.corpus = corpus
-
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
         }
-- 
2.43.0


From e0555b2000f4de87c38d1579f7fe4900812b2add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/28] fix: roll back an edit that is interrupted or fails to
 refresh clusters

An interrupt released the savepoint without rolling it back, committing part
of the edit, and a failure while refreshing the cluster summaries left the
transaction open.
---
 hyperreal/index.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 7fda9cd..0834875 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -104,9 +104,18 @@ def atomic(writes=False):
                 if writes:
                     self._changed = True
 
+                # We're leaving the final transaction level and are about to
+                # commit.
+                if self._transaction_level == 1 and self._changed:
+                    self.logger.info(f"Changes detected - updating clusters.")
+                    # Note that this will check for changed queries, and will
+                    # therefore be a noop if there aren't any.
+                    self._update_changed_clusters()
+                    self._changed = False
+
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
                 # Rewind to the previous savepoint, then release it
                 # This is necessary to behave nicely whether we are operating
@@ -116,16 +125,6 @@ def atomic(writes=False):
 
             finally:
                 self._transaction_level -= 1
-
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
-                    self._changed = False
-
                 self.db.execute(f'release "{func.__name__}"')
 
         return wrapper
-- 
2.43.0


From 0e433db22a88da20f06043771dd845642f09e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/28] fix: report errors from replace_docs

Errors were swallowed, and an interrupt committed a partial load.
---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..7e2fb76 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,8 +183,9 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
-- 
2.43.0


From 9ca725ec5eb8dabb78ec0dc0940aa74e14b6f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/28] fix: accept a working_dir for indexing

A path has no name or cleanup. Segments go in a temporary directory inside
it, so nothing is left behind and the directory itself is kept.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 0834875..24aab79 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -343,7 +343,7 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From b826a379e9d1257bfea3ada9eb77dfe1c4c319e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/28] fix: allow clusters to be already marked as changed

After an interruption between indexing and refreshing the clusters, every
later index (or migration) failed on the unique constraint.
---
 hyperreal/_index_schema.py | 2 +-
 hyperreal/index.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index ecb00cb..e6e9381 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -177,7 +177,7 @@ migrations = {
             "alter table cluster add column doc_ids roaring_bitmap",
         ],
         [
-            "insert into changed_cluster select cluster_id from cluster",
+            "insert or ignore into changed_cluster select cluster_id from cluster",
         ],
     ),
     5: ([], []),
diff --git a/hyperreal/index.py b/hyperreal/index.py
index 24aab79..43d9aa8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -528,7 +528,7 @@ class Index:
 
             # Update all cluster stats based on new index stats
             self.db.execute(
-                "insert into changed_cluster select cluster_id from cluster"
+                "insert or ignore into changed_cluster select cluster_id from cluster"
             )
 
             self.db.execute("commit")
-- 
2.43.0


From 6153d9c50688f8a7664bc8e23f07252c6c0d1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 07/28] fix: roll back an interrupted index run

A KeyboardInterrupt left the transaction open and foreign keys disabled.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 43d9aa8..9f51229 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -537,7 +537,7 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
             self.db.execute("rollback")
             raise
-- 
2.43.0


From e602996a21b9cb00057fb5ea51215f01e01d162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 08/28] fix: quote the path given to is_index_db

A path containing ? or # changed the location or the access mode.
---
 hyperreal/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 9f51229..e80fa97 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -17,6 +17,7 @@ import logging
 import math
 import multiprocessing as mp
 import os
+import pathlib
 import random
 import sqlite3
 import tempfile
@@ -216,7 +217,9 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
+            db = sqlite3.connect(
+                f"{pathlib.Path(db_path).absolute().as_uri()}?mode=ro", uri=True
+            )
             return (
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
-- 
2.43.0


From aeb5a883ee23552c8d180b8daf212c0768cad16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 09/28] fix: is_index_db answers False for a file that is not a
 database

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index e80fa97..830d046 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -224,7 +224,7 @@ class Index:
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
             )
-        except sqlite3.OperationalError:
+        except sqlite3.DatabaseError:
             return False
 
     def __enter__(self):
-- 
2.43.0


From 4d6ac62c8962e4d7965c8fdc8c2d72ca2f7814d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 10/28] fix: keep position windows inside their document

The window could cover the first position of the next document.
---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 2d5584bac92684fda9db67590d0fb5391a6ad1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 11/28] fix: keep the last passage when it is a single position

---
 hyperreal/index.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 830d046..7298c91 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2516,15 +2516,14 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
                 last_position = position
         else:
             # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From 508b4e5673a438a142a96d49207aec09896b03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 12/28] fix: include the last match of a passage when rendering
 it

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 7298c91..31d533d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2578,7 +2578,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From e7946a8199bb8061183b1c98f3ee0c297ac644ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 13/28] fix: only count collocations within the requested field

Positions of different fields are not comparable.
---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 31d533d..62110a9 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2549,8 +2549,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where (field, first_doc_id) = (?, ?)
+            """,
+            [field, first_doc_id],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From 569499d49773403bd452597c9fff07fe0ac36a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 14/28] fix: escape document text in the per-corpus HTML
 renderings

Tags, names and tweets were inserted as markup. The body of a StackExchange
post is HTML and stays as is.
---
 hyperreal/corpus.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 7e2fb76..13244e2 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -565,7 +565,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 </small>
             </p>
 
-            {{ base_fields["Body"] }}
+            {{ base_fields["Body"] | safe }}
 
             <details>
                 <summary>Tags:</summary>
@@ -596,7 +596,8 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 </ul>
             </details>
         </details>
-        """
+        """,
+        autoescape=True,
     )
 
     def _get_rendered_doc_fields(self, key):
@@ -961,7 +962,7 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         """
         <div>
             <span>
-            <img src={{ doc["user"]["profile_image_url"] }}>
+            <img src="{{ doc["user"]["profile_image_url"] }}">
             <a href="https://twitter.com/{{ doc["user"]["username"] }}">@{{ doc["user"]["username"] }}</a>
             {{ doc["user"]["name"] }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
                 <time datetime="{{ doc['created_at'] }}">{{ doc['created_at'] }}</time>
@@ -982,7 +983,8 @@ class TwittersphereCorpus(SqliteBackedCorpus):
             </details>
         </div
 
-        """
+        """,
+        autoescape=True,
     )
 
     def render_docs_html(self, doc_keys):
-- 
2.43.0


From 3279c9ad4b6483c29fbed16546527680124e02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 15/28] fix: show concordances when they are requested

The rendered documents replaced them, and the template looked for another name.
---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..2e1c9e9 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -134,7 +134,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -384,7 +384,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..fda1943 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type == 'concordance' %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From 323b2d53442a0529b000cc89ed04eff81097de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 16/28] fix: refine a model where every feature is pinned

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 62110a9..1150650 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1641,7 +1641,7 @@ class Index:
             )
 
             if not dissolve_cluster_ids:
-                if (possible_moves / len(movable_features)) < tolerance:
+                if (possible_moves / max(1, len(movable_features))) < tolerance:
                     self.logger.info(
                         "Terminating refinement due to small number of feature moves."
                     )
-- 
2.43.0


From c201b4483337dc6171f59acad8773fa5e37e87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/28] fix: release the read transaction when rendering
 documents fails

---
 hyperreal/corpus.py | 74 ++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 13244e2..2a9700a 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -675,22 +675,24 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
         docs = []
 
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            docs.append(
-                (
-                    key,
-                    Markup(
-                        self.TEMPLATE.render(
-                            base_fields=base_fields,
-                            tags=tags,
-                            user_comments=user_comments,
-                        )
-                    ),
+        try:
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                docs.append(
+                    (
+                        key,
+                        Markup(
+                            self.TEMPLATE.render(
+                                base_fields=base_fields,
+                                tags=tags,
+                                user_comments=user_comments,
+                            )
+                        ),
+                    )
                 )
-            )
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
@@ -700,21 +702,23 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
         docs = []
 
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            base_fields["tags"] = ", ".join(tags)
-            base_fields["comments"] = json.dumps(
-                [
-                    {
-                        key: comment[key]
-                        for key in ["DisplayName", "Text", "ContentLicense"]
-                    }
-                    for comment in user_comments
-                ]
-            )
-            docs.append((key, base_fields))
+        try:
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                base_fields["tags"] = ", ".join(tags)
+                base_fields["comments"] = json.dumps(
+                    [
+                        {
+                            key: comment[key]
+                            for key in ["DisplayName", "Text", "ContentLicense"]
+                        }
+                        for comment in user_comments
+                    ]
+                )
+                docs.append((key, base_fields))
 
-        self.db.execute("release render_docs_spreadsheet")
+        finally:
+            self.db.execute("release render_docs_spreadsheet")
 
         return docs
 
@@ -990,14 +994,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
-        docs = [
-            (key, Markup(self.TEMPLATE.render(doc=doc)))
-            for key, doc in self.docs(doc_keys=doc_keys)
-        ]
-
-        self.db.execute("release render_docs_html")
+        try:
+            return [
+                (key, Markup(self.TEMPLATE.render(doc=doc)))
+                for key, doc in self.docs(doc_keys=doc_keys)
+            ]
 
-        return docs
+        finally:
+            self.db.execute("release render_docs_html")
 
     def keys(self):
         return (
-- 
2.43.0


From 772aeec268e061fefaba9e4f056dd8872894fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 18/28] fix: refine towards a target smaller than the number of
 pinned clusters

A negative target dissolved every cluster, leaving nowhere to move features.
---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1150650..2417fcc 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1714,6 +1714,9 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # There may be more pinned clusters than the requested target.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From 79ab8baf86510efa8a10c205517a642b0feb7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 19/28] fix: allow tweets to be indexed with positions

Absent values in a sequence field are an error when recording positions, so
no tweet without a quote and a reply could be indexed.
---
 hyperreal/corpus.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 2a9700a..b8995a6 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1029,19 +1029,19 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 "by": [doc["user"]["username"]],
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
                 "by": [doc["user"]["username"]],
                 "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-- 
2.43.0


From 4f6f0f9ac6be0b7bfe0ba2bd319060b40bb06fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 20/28] fix: roll back an interrupted load of a stackexchange
 site

---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index b8995a6..1d8eb4f 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -462,7 +462,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
+        except BaseException:
             self.db.execute("rollback")
             raise
 
-- 
2.43.0


From 50a0fd3015a52bda8f1277cf55d075e409eb826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 21/28] fix: answer 404 for an index id that is not a number

---
 hyperreal/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 2e1c9e9..00f47a1 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -22,7 +22,11 @@ templates = Environment(
 @cherrypy.tools.register("before_handler")
 def lookup_index():
     """This tool looks up the provided index using the configured webserver."""
-    index_id = int(cherrypy.request.params["index_id"])
+    try:
+        index_id = int(cherrypy.request.params["index_id"])
+    except ValueError:
+        raise cherrypy.HTTPError(404)
+
     cherrypy.request.index = cherrypy.request.config["index_server"].index(index_id)
 
 
-- 
2.43.0


From 1fbd750da10747a42a26e2e72eeb64f38819cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 22/28] fix: label graph nodes with values that are not text

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 2417fcc..e21c052 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1851,7 +1851,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(str(value) for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From 856d7248c0faf615a9eb0ddfc984d22be87cc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 23/28] fix: report texts that cannot be stored instead of
 dropping them

---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 1d8eb4f..73e678a 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -180,7 +180,7 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
 
             self.db.execute("delete from doc")
             self.db.executemany(
-                "insert or ignore into doc(text) values(?)", ([t] for t in texts)
+                "insert into doc(text) values(?)", ([t] for t in texts)
             )
 
         except BaseException:
-- 
2.43.0


From 62ff15e5ccf76b0e2d9c60f125a0586056146c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 24/28] fix: sample the same passages whatever order scoring
 tasks finish in

---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index e21c052..01f8703 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -759,9 +759,11 @@ class Index:
         """
 
         if random_sample_size is not None:
+            # Note: specify the ordering to ensure reproducibility, as passages are
+            # collected in the order that the scoring tasks happen to finish.
             keep_keys = heapq.nlargest(
                 random_sample_size,
-                ((self.random.random(), doc_id) for doc_id in scored_passages.keys()),
+                ((self.random.random(), doc_id) for doc_id in sorted(scored_passages)),
             )
             scored_passages = {
                 doc_id: scored_passages[doc_id] for _, doc_id in keep_keys
-- 
2.43.0


From 20bb870ecc85c3c394f7739b464df585102fd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 25/28] fix: refine and sample clusters in a specified order

---
 hyperreal/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 01f8703..91a6661 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1126,7 +1126,7 @@ class Index:
             """
             select cluster_id, docs_count
             from cluster
-            order by docs_count desc
+            order by docs_count desc, cluster_id
             """
         )
 
@@ -1694,6 +1694,9 @@ class Index:
                 cluster_id,
                 feature_cluster.pinned
             from feature_cluster
+            -- Note: specify the ordering to ensure reproducibility, as these
+            -- features and clusters will be shuffled.
+            order by feature_id
             """
         ):
             if cluster_id in cluster_ids:
-- 
2.43.0


From 1331fd19e068e5746291654ec1e949ff21647604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 26/28] fix: keep every new cluster when renumbering refined
 clusters

The ids generated while refining a selection can overlap with the ids
assigned to the new clusters, so a later iteration could delete a cluster
that had just been stored under its final id.
---
 hyperreal/index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 91a6661..e20e7a3 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1749,6 +1749,8 @@ class Index:
 
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From e0b0c3ef54a5eee56f1dec901bd794ae8b77624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 27/28] fix: refuse features of other fields when counting
 collocations

---
 hyperreal/index.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index e20e7a3..81a38c5 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1965,7 +1965,13 @@ class Index:
         Count collocations near the given query of positions.
 
         """
-        # TODO: Validate clauses are all from the same field.
+        # Positions are only comparable within a single field.
+        features = set(features)
+
+        for feature_id in features:
+            if self.lookup_feature(feature_id)[0] != field:
+                raise ValueError(f"Feature {feature_id} is not from field '{field}'.")
+
         futures = set()
 
         for first_doc_id in self._field_partitions(field):
-- 
2.43.0


From 0b97f522bf9a4f12182eba684eca9957209e3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 28/28] fix: store whole lines of a plain text file, including
 text after a comma

---
 hyperreal/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..65bcb92 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -131,7 +131,8 @@ def plaintext_corpus_create(text_file, corpus_db):
     with open(text_file, "r", encoding="utf-8") as infile:
         f = csv.reader(infile)
         # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
+        # Documents are whole lines: unquoted commas are just part of the text.
+        docs = (doc for doc in (",".join(line) for line in f) if doc.strip())
         doc_corpus.replace_docs(docs)
 
 
-- 
2.43.0

