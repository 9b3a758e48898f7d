From f31e3ae91e3ce004308f1a7c211e46cfe389dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 01/57] fix: look up committed calls by content id (content
 hits missed calls not in the cache)

---
 mandala/storage_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..f9a6805 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -640,7 +640,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +738,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +755,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 23d01996476436b11c38c4190f4e7af36cd81e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 02/57] fix: sync_component records the versioner under the key
 it is read from

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..d2c6d77 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -987,7 +987,7 @@ class Storage:
             is_semantic_change=is_semantic_change,
             code_state=code_state,
         )
-        self.sources["versioned"] = versioner
+        self.sources["versioner"] = versioner
         return result
 
     @transaction
-- 
2.43.0


From 4769faa7271a5bac9d0b6beff70dc17bd4551ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 03/57] fix: get_versioner on an unversioned storage raises
 instead of deadlocking with its own transaction

---
 mandala/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index d2c6d77..2436a4c 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -940,7 +940,9 @@ class Storage:
     ############################################################################
     @transaction
     def get_versioner(self, conn: Optional[sqlite3.Connection] = None) -> Versioner:
-        result = self.sources["versioner"]
+        # (a versioner is always in the cache; reading through to the database here
+        # would start a transaction inside the current one)
+        result = self.sources.cache.get("versioner")
         if result is None:
             raise ValueError("This storage is not versioned.")
         return result
-- 
2.43.0


From 55ec8d140c75408256822dfe7ea194a123604b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 04/57] fix: load_ref returns the loaded elements of a list,
 not those of the cached shape

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2436a4c..5e7b4d1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -283,7 +283,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From d2e045938cdfa43a7b891004f8bc0803aac7763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 05/57] fix: write overflow files atomically

---
 mandala/storage_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index f9a6805..d44d1c2 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -152,7 +152,17 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        path = self.get_path_for_key(key)
+        # an interrupted write must not leave a partial file under the final name,
+        # because it would never be overwritten
+        tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            joblib.dump(value, tmp_path)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From e983bc6ee5414e5571682c85b0e54cc5e77a1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 06/57] fix: roll back a transaction that fails with an
 OperationalError or is interrupted

---
 mandala/storage_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index d44d1c2..27dc570 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -60,18 +60,23 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
 
         for attempt in range(max_attempts):
             conn = self.conn()
+            began = False
             try:
                 conn.execute("BEGIN IMMEDIATE")
+                began = True
                 res = method(self, *args, conn=conn, **kwargs)
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                if began:
+                    conn.rollback()
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
                 continue
-            except Exception as e:
-                conn.rollback()
+            except BaseException as e:
+                if began:
+                    conn.rollback()
                 raise e
             finally:
                 if not is_in_memory_db(conn):
-- 
2.43.0


From 4e00304d75a6be4b79cbf8ef8bd679ee13f0cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 07/57] fix: committing a call that another session already
 committed no longer fails the whole commit

---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 27dc570..4c62ba5 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -562,14 +562,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From 4a3f42a31c226a6478933f86db020c99ddaf2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 08/57] fix: accept an explicit conn=None in transactional
 methods

---
 mandala/storage_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 4c62ba5..646b4b2 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None) # an explicit `conn=None` means "open a transaction"
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
-- 
2.43.0


From 951508d8775a0d1aaa2c9fa09b8d2503f78be7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 09/57] fix: commit in one transaction and keep uncommitted
 data pending when it fails

---
 mandala/storage.py       | 22 +++++++++++++++-------
 mandala/storage_utils.py | 27 +++++++++++++++++++++------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 5e7b4d1..c2e80d5 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -208,13 +208,21 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        self._flush()
+        # only now that the transaction is durable can we forget what was pending
+        self.atoms.mark_clean()
+        self.shapes.mark_clean()
+        self.ops.mark_clean()
+        self.calls.mark_clean()
+
+    @transaction
+    def _flush(self, conn: Optional[sqlite3.Connection] = None):
+        self.atoms.flush(conn=conn)
+        self.shapes.flush(conn=conn)
+        self.ops.flush(conn=conn)
+        if self.versioned:
+            self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+        self.calls.flush(conn=conn)
 
 
     def __repr__(self):
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 646b4b2..e3e1eb7 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -305,13 +305,22 @@ class CachedDictStorage(DictStorage):
         self.cache[key] = value
         self.dirty_keys.add(key)
 
-    def commit(self, conn: Optional[sqlite3.Connection] = None) -> None:
+    def flush(self, conn: Optional[sqlite3.Connection] = None) -> None:
         """
-        Persist the values of all dirty keys and clear them
+        Write the values of all dirty keys, without marking them as clean
         """
         for key in self.dirty_keys:
             self.persistent.set(key, self.cache[key], conn=conn)
+
+    def mark_clean(self) -> None:
         self.dirty_keys.clear()
+
+    def commit(self, conn: Optional[sqlite3.Connection] = None) -> None:
+        """
+        Persist the values of all dirty keys and clear them
+        """
+        self.flush(conn=conn)
+        self.mark_clean()
     
     def clear(self, allow_uncommited: bool = False) -> None:
         if len(self.dirty_keys) > 0 and not allow_uncommited:
@@ -779,13 +788,19 @@ class CachedCallStorage:
     def get_consumer_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
 
-    def commit(self, conn: Optional[sqlite3.Connection] = None):
-        if conn is None:
-            conn = self.persistent.conn()
-        # with conn:
+    def flush(self, conn: Optional[sqlite3.Connection] = None):
+        """
+        Write all dirty calls, without marking them as clean
+        """
         for hid in self.dirty_hids:
             self.persistent.save(self.cache.get_data(hid), conn=conn)
+
+    def mark_clean(self):
         self.dirty_hids.clear()
+
+    def commit(self, conn: Optional[sqlite3.Connection] = None):
+        self.flush(conn=conn)
+        self.mark_clean()
     
     def clear(self, allow_uncommited: bool = False):
         if len(self.dirty_hids) > 0 and not allow_uncommited:
-- 
2.43.0


From 43998a6fac3186906b59a942321d84a5fceb5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 10/57] fix: the storage keeps using the call cache it clears
 (stale alias)

---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index c2e80d5..b1c91c2 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -145,6 +144,11 @@ class Storage:
             "track_globals": self._track_globals,
         }
     
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        # not an attribute, because clearing the cache replaces this object
+        return self.calls.cache
+
     def conn(self) -> sqlite3.Connection:
         return self.db.conn()
 
-- 
2.43.0


From 77635b173ece20bb40077213d3c5c9991b4351e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 11/57] fix: drop_calls forgets dropped uncommitted calls and
 finds uncommitted dependents

---
 mandala/storage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index b1c91c2..7af828e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -423,21 +423,27 @@ class Storage:
         hit a false positive.
         """
         # figure out what we're given    
+        calls_or_hids = list(calls_or_hids)
         if all(isinstance(c, Call) for c in calls_or_hids):
             hids = [c.hid for c in calls_or_hids]
         else:
             hids = list(calls_or_hids)
         hids = set(hids)
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
+            dependent_ref_hids, dependent_call_hids = self.call_storage.get_dependents(
                 ref_hids=set(), call_hids=hids, conn=conn,
             )
             hids |= dependent_call_hids
+            # calls that are not committed yet are only in the cache
+            _, dependent_call_hids = self.call_cache.get_dependents(
+                ref_hids=dependent_ref_hids, call_hids=hids,
+            )
+            hids |= dependent_call_hids
         num_dropped_cache = 0
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+                self.calls.drop(hid)
                 num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
-- 
2.43.0


From 4e5e4207389dad15d3fb2c07774839c43779d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 12/57] fix: preloading the caches keeps uncommitted data

---
 mandala/storage.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 7af828e..527bde2 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -192,17 +192,23 @@ class Storage:
 
     def preload_calls(self):
         df = self.call_storage.get_df()
+        # the cache may hold calls that are not committed yet; keep them
+        cached_df = self.call_cache.df
+        cached_hids = cached_df.index.get_level_values(0)
+        pending = cached_df[cached_hids.isin(self.calls.dirty_hids) & ~cached_hids.isin(df.index.levels[0])]
+        df = pd.concat([df, pending])
+        df.index = df.index.remove_unused_levels()
         self.call_cache.df = df
         self.call_cache.call_hids = set(df.index.levels[0].unique())
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
+        self.shapes.cache = {**self.shapes.persistent.load_all(), **self.shapes.cache}
     
     def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.ops.cache = {**self.ops.persistent.load_all(), **self.ops.cache}
 
     def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+        self.atoms.cache = {**self.atoms.persistent.load_all(), **self.atoms.cache}
     
     def preload(self, lazy: bool = True):
         self.preload_calls()
-- 
2.43.0


From 23d59476461bd9dbbdef331a8bf8a10f23661401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 13/57] fix: reading a value no longer marks it as uncommitted

---
 mandala/storage.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 527bde2..1398611 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -513,9 +513,7 @@ class Storage:
         # TODO: implement `cache = False` in `load_ref`
         assert isinstance(obj, AtomRef)
         if not obj.in_memory:
-            ref = self.load_ref(hid=obj.hid, in_memory=False)
-            if cache:
-                self.atoms[obj.cid] = serialize(ref.obj)
+            ref = self.load_ref(hid=obj.hid, in_memory=False) # this caches the atom
             return ref.obj
         else:
             return obj.obj
-- 
2.43.0


From ad18e9fc50518efa1e6e793e526a54382843408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 14/57] fix: ignore_args applies to variadic arguments and does
 not wrap an ignored value twice

---
 mandala/storage.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1398611..ed0d38e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -743,13 +743,16 @@ class Storage:
         
         storage_inputs = {}
         storage_annotations = {}
+
+        def name_ignored(name: str) -> bool:
+            return ignore_args is not None and name in ignore_args
         
         for k, v in bound_arguments.arguments.items():
             if var_positional is not None and k == var_positional.name:
                 # there are no defaults here
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
-                ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
+                ignored_mask = [True if isinstance(arg, _Ignore) or name_ignored(k) else False for arg in v]
                 names = [f'{k}_{i}' for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
@@ -759,15 +762,15 @@ class Storage:
                         storage_annotations[name] = var_positional.annotation
             elif var_keyword is not None and k == var_keyword.name:
                 # there are no defaults here either
-                new_v = {k: arg.value if isinstance(arg, _Ignore) else arg for k, arg in v.items()}
-                ignored_mask = {k: True if isinstance(arg, _Ignore) else False for k, arg in v.items()}
+                new_v = {name: arg.value if isinstance(arg, _Ignore) else arg for name, arg in v.items()}
+                ignored_mask = {name: True if isinstance(arg, _Ignore) or name_ignored(k) or name_ignored(name) else False for name, arg in v.items()}
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args:
+                if name_ignored(k) and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From a964648e93b910d83c7947266ff54ac9f0606bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 15/57] fix: outside a context, ops receive plain values
 instead of Ignore/NewArgDefault/ValuePointer wrappers

---
 mandala/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..a5c9f16 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -8,6 +8,7 @@ from .tps import *
 from .config import *
 from .utils import (
     parse_output_name,
+    boundargs_to_args_kwargs,
 )
 from .utils import serialize, deserialize, get_content_hash
 
@@ -243,6 +244,12 @@ class Op:
 
     def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
+            bound_arguments = inspect.signature(self.f).bind(*args, **kwargs)
+            bound_arguments.apply_defaults()
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
+            # the function itself never sees the special wrappers
+            args = tuple([unwrap_special_value(arg) for arg in args])
+            kwargs = {k: unwrap_special_value(v) for k, v in kwargs.items()}
             return self.f(*args, **kwargs)
         else:
             storage = Context.current_context.storage
-- 
2.43.0


From f3b4e3a836d05008fb22b9d059781ad3faf7ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 16/57] fix: Storage.cf neither modifies its argument nor loses
 the first element of an iterator

---
 mandala/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index ed0d38e..f76bfc3 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1172,7 +1172,9 @@ class Storage:
             return ComputationFrame.from_op(storage=self, f=source)
         elif isinstance(source, Ref):
             return ComputationFrame.from_refs(refs=[source], storage=self)
-        elif all(isinstance(elt, Ref) for elt in source):
+        # (do not consume or modify what the caller passed)
+        source = dict(source) if isinstance(source, dict) else list(source)
+        if all(isinstance(elt, Ref) for elt in source):
             return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
             for k in source.keys():
-- 
2.43.0


From b729568717c9427ed5d886e531866bf43ff14221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 17/57] fix: leaving or failing to enter a storage context
 restores the previous context and mode

---
 mandala/storage.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f76bfc3..6636e3b 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -125,6 +125,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # for each active `with` block, the context to go back to at its end
+        self._context_stack = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1236,12 +1238,17 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
-        Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
         if self.versioned:
-            versioner, code_state = self.sync_code()
+            try:
+                versioner, code_state = self.sync_code()
+            except BaseException:
+                self._next_mode = self.mode # the requested mode was not entered
+                raise
             self.cached_versioner = versioner
             self.code_state = code_state
+        self._context_stack.append(Context.current_context)
+        Context.current_context = Context(storage=self)
+        self._mode_stack.append(self._next_mode)
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -1269,19 +1276,17 @@ class Storage:
         except Exception as e:
             raise e
         finally:
-            if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
-                self.cached_versioner = None
-                self.code_state = None
-
-                for hook in self._exit_hooks:
-                    hook(self)
-
+            Context.current_context = self._context_stack.pop()
             _ = self._mode_stack.pop()
             if self._mode_stack:
                 self._next_mode = self._mode_stack[-1]
             else:
                 self._next_mode = 'run'
+                self.cached_versioner = None
+                self.code_state = None
+
+                for hook in self._exit_hooks:
+                    hook(self)
 
 
 
-- 
2.43.0


From 1b065055bef2b3ad870fb674336b159918c736c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 18/57] fix: a tracked function that raises leaves the tracer's
 call stack balanced

---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..1db4e92 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -143,9 +143,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From 2a8f5c646489882e460ac34e7f101343d0d87cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 19/57] fix: SysTracer accepts and honours the configuration
 the versioner passes to tracers

---
 mandala/deps/tracers/sys_impl.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mandala/deps/tracers/sys_impl.py b/mandala/deps/tracers/sys_impl.py
index c3b0d05..60682fc 100644
--- a/mandala/deps/tracers/sys_impl.py
+++ b/mandala/deps/tracers/sys_impl.py
@@ -36,14 +36,20 @@ class SysTracer(TracerABC):
         paths: List[Path],
         graph: Optional[DependencyGraph] = None,
         strict: bool = True,
+        track_globals: bool = True,
         allow_methods: bool = False,
+        skip_unhashable_globals: bool = True,
+        skip_globals_silently: bool = False,
     ):
         self.call_stack: List[Optional[CallableNode]] = []
         self.graph = DependencyGraph() if graph is None else graph
         self.paths = paths
         self.path_strs = [str(path) for path in paths]
         self.strict = strict
+        self.track_globals = track_globals
         self.allow_methods = allow_methods
+        self.skip_unhashable_globals = skip_unhashable_globals
+        self.skip_globals_silently = skip_globals_silently
 
     @staticmethod
     def leaf_signal(data):
@@ -177,14 +183,16 @@ class SysTracer(TracerABC):
 
             ### get the global variables used by the function
             globals_nodes = []
-            for name in get_global_names_candidates(code=code_obj):
+            for name in get_global_names_candidates(code=code_obj) if self.track_globals else []:
                 # names used by the function; not all of them are global variables
                 if name in frame.f_globals:
                     global_val = frame.f_globals[name]
                     if not is_global_val(global_val):
                         continue
                     node = GlobalVarNode.from_obj(
-                        obj=global_val, dep_key=(module_name, name)
+                        obj=global_val, dep_key=(module_name, name),
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
                     )
                     globals_nodes.append(node)
 
-- 
2.43.0


From 5c7b2bb45d45a0fb8e22d410abbf0bbf98d0702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 20/57] fix: guessing the code state treats unhashable globals
 like tracing does

---
 mandala/deps/versioner.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..962ab9b 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -159,7 +159,14 @@ class Versioner:
                 and dep_key not in result_graph.nodes.keys()
             ):
                 obj = node.load_obj(skip_missing=self.skip_missing_deps, skip_silently=self.skip_missing_silently)
-                fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
+                if isinstance(node, GlobalVarNode):
+                    fallback_result[dep_key] = GlobalVarNode.from_obj(
+                        obj=obj, dep_key=dep_key,
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
+                    )
+                else:
+                    fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
         nodes = {**result_graph.nodes, **fallback_result}
         # fill in the gaps with a static crawl
         static_result, objs = crawl_static(
-- 
2.43.0


From dd834ca7cef0c780cca8dad9c78a9cd38a6f63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 21/57] fix: a memoized call inside a traced op is recorded as
 its dependency and no longer ends the trace

---
 mandala/storage.py | 51 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 6636e3b..951f906 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1,12 +1,14 @@
 from .common_imports import *
 from tqdm import tqdm
 import datetime
+from contextlib import contextmanager
 from .model import *
 import sqlite3
 from .model import __make_list__, __list_getitem__, __make_dict__, __dict_getitem__, _Ignore, _NewArgDefault, ValuePointer
 from .utils import dataframe_to_prettytable, parse_returns, _conservative_equality_check, boundargs_to_args_kwargs
 from .viz import _get_colorized_diff
 from .deps.versioner import Versioner, CodeState
+from .deps.model import TerminalData
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
@@ -824,12 +826,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -1190,6 +1186,22 @@ class Storage:
         else:
             raise ValueError("Invalid input to `cf`")
 
+    @contextmanager
+    def _suspended_tracing(self):
+        """
+        Suspend the trace of the enclosing op call, if any, and resume it on exit
+        """
+        if not self.versioned:
+            yield None
+            return
+        TracerCls = self.cached_versioner.TracerCls
+        suspended_trace_obj = TracerCls.get_active_trace_obj()
+        TracerCls.set_active_trace_obj(trace_obj=None)
+        try:
+            yield suspended_trace_obj
+        finally:
+            TracerCls.set_active_trace_obj(trace_obj=suspended_trace_obj)
+
     def call(
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
@@ -1216,13 +1228,26 @@ class Storage:
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
             }
-            res, main_call, calls = self.call_internal(
-                op=op,
-                storage_inputs = storage_inputs,
-                bound_arguments = bound_arguments,
-                storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
-            )
+            with self._suspended_tracing() as suspended_trace_obj:
+                res, main_call, calls = self.call_internal(
+                    op=op,
+                    storage_inputs = storage_inputs,
+                    bound_arguments = bound_arguments,
+                    storage_tps=storage_tps,
+                    kwarg_keys=kwarg_keys,
+                )
+            if suspended_trace_obj is not None:
+                # the op being traced depends on what this call depends on
+                self.cached_versioner.TracerCls.register_leaf_event(
+                    trace_obj=suspended_trace_obj,
+                    data=TerminalData(
+                        op_internal_name=op.name,
+                        op_version=op.version,
+                        call_content_version=main_call.content_version,
+                        call_semantic_version=main_call.semantic_version,
+                        dep_key=get_dep_key_from_func(func=op.f),
+                    ),
+                )
             if config.get("save_calls", False):
                 self.save_call(main_call)
                 for call in calls:
-- 
2.43.0


From 23832e77e247793dce75adc72d293e32e6d61ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 22/57] fix: cleanup and simplify actually drop the empty nodes

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..7fa9668 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,7 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
+        hids = list(res.fs[fname])
         for hid in hids:
             res.drop_call(fname, hid)
         del res.fs[fname]
@@ -2061,7 +2061,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2074,7 +2074,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From a8ae923b612edc8da2a1ca7cb5c3d229167ff0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 23/57] fix: moving refs and merging nodes of a copy leave the
 original computation frame alone

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7fa9668..384e9a3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1969,8 +1969,8 @@ class ComputationFrame:
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
         #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -1985,7 +1985,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From c8d69ca230001dfc4af5f5d8088d21154bf64cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 24/57] fix: dropping a call removes it from its node and
 tolerates outputs and inputs that are not in the computation frame

---
 mandala/cf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 384e9a3..fa07f7e 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -401,6 +401,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -408,10 +409,11 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                if self.creator.get(output.hid) == hid:
+                    del self.creator[output.hid]
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From a1009bb4636b76a21690ab243fe640b0b24320b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 25/57] fix: dropping the last edge of a label leaves no empty
 label behind

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index fa07f7e..5ae204d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -326,7 +326,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
-- 
2.43.0


From d7fa0b5c567a8ff34290391b6cfc8f96dade2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 26/57] fix: restricting a computation frame to subsets
 restricts the inverse maps to the nodes that keep the element

---
 mandala/cf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 5ae204d..860d56b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -667,8 +667,14 @@ class ComputationFrame:
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {
+            hid: {vname for vname in res.refinv[hid] if hid in vs[vname]}
+            for hid in ref_hids_subset
+        }
+        callinv = {
+            hid: {fname for fname in res.callinv[hid] if hid in fs[fname]}
+            for hid in call_hids_subset
+        }
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From 463a847b3090c558d0694aaec1128929eb063dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 27/57] fix: adjacent elements are collected over all edges
 between two nodes

---
 mandala/cf.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 860d56b..cb88851 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -576,21 +576,13 @@ class ComputationFrame:
         """
         res = {}
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.in_edges(node):
+                elts = self.get_adj_elts_edge((src, dst, label), hids, "back")
+                res[src] = res.get(src, set()) | elts
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.out_edges(node):
+                elts = self.get_adj_elts_edge((src, dst, label), hids, "forward")
+                res[dst] = res.get(dst, set()) | elts
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
-- 
2.43.0


From 7c3094de0efc829e0f9bca25eaad257156f75ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 28/57] fix: the intersection of computation frames contains
 only elements of shared nodes

---
 mandala/cf.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index cb88851..df9df6e 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -832,6 +832,22 @@ class ComputationFrame:
         consumers = get_setdict_intersection(a.consumers, b.consumers)
         refs = get_dict_intersection_over_keys(a.refs, b.refs)
         calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        #! elements of both operands may share no node; such elements are not
+        # in the intersection
+        refinv = {hid: vnames for hid, vnames in refinv.items() if vnames}
+        callinv = {hid: fnames for hid, fnames in callinv.items() if fnames}
+        refs = {hid: ref for hid, ref in refs.items() if hid in refinv}
+        calls = {hid: call for hid, call in calls.items() if hid in callinv}
+        creator = {
+            ref_hid: call_hid
+            for ref_hid, call_hid in creator.items()
+            if ref_hid in refs and call_hid in calls
+        }
+        consumers = {
+            ref_hid: call_hids & calls.keys()
+            for ref_hid, call_hids in consumers.items()
+            if ref_hid in refs
+        }
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
-- 
2.43.0


From b5cb415e4e6b491274dcbc4abd6b99efef067cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 29/57] fix: expanding a computation frame without variables is
 a no-op

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index df9df6e..e0601e5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1130,7 +1130,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
-- 
2.43.0


From cbdc4693b9605d3cbe89da1430b3ba1772777fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 30/57] fix: filtering a computation frame tolerates function
 nodes without edges

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index e0601e5..b9b4b2f 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1935,7 +1935,7 @@ class ComputationFrame:
         for vname in res.keys():
             new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
             res = get_setdict_union(res, new)
-        return res
+        return {**{fname: set() for fname in self.fs}, **res}
 
     def __lt__(self, other: Union["ComputationFrame", Any]) -> "ComputationFrame":
         if isinstance(other, ComputationFrame):
-- 
2.43.0


From 5a523b868e7e60d2600ca7c2996aa3fc4920d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 31/57] fix: arguments passed by keyword reach ops with
 variadic and positional-only parameters

---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 951f906..b7c5568 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -805,7 +805,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -866,23 +865,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1206,7 +1190,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1234,7 +1217,6 @@ class Storage:
                     storage_inputs = storage_inputs,
                     bound_arguments = bound_arguments,
                     storage_tps=storage_tps,
-                    kwarg_keys=kwarg_keys,
                 )
             if suspended_trace_obj is not None:
                 # the op being traced depends on what this call depends on
-- 
2.43.0


From 1dc7d4d8b85592c3c7d2d30115e8bcdcf21fd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 32/57] fix: arguments with coinciding names are recorded under
 names of their own

---
 mandala/storage.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index b7c5568..ecd21f6 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -750,6 +750,18 @@ class Storage:
 
         def name_ignored(name: str) -> bool:
             return ignore_args is not None and name in ignore_args
+
+        def positional_name(name: str) -> str:
+            # must differ from the name of any other argument
+            return f'*{name}' if name in sig.parameters else name
+
+        def keyword_name(name: str) -> str:
+            # must differ from the names of parameters and of variadic positional arguments
+            if name in sig.parameters or name.startswith('*'):
+                return f'**{name}'
+            if var_positional is not None and name.startswith(f'{var_positional.name}_'):
+                return f'**{name}'
+            return name
         
         for k, v in bound_arguments.arguments.items():
             if var_positional is not None and k == var_positional.name:
@@ -757,7 +769,7 @@ class Storage:
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
                 ignored_mask = [True if isinstance(arg, _Ignore) or name_ignored(k) else False for arg in v]
-                names = [f'{k}_{i}' for i in range(len(new_v))]
+                names = [positional_name(f'{k}_{i}') for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
                 for name, val, ignored in zip(names, new_v, ignored_mask):
@@ -771,8 +783,8 @@ class Storage:
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
-                        storage_inputs[name] = val
-                        storage_annotations[name] = var_keyword.annotation
+                        storage_inputs[keyword_name(name)] = val
+                        storage_annotations[keyword_name(name)] = var_keyword.annotation
             else:
                 if name_ignored(k) and not isinstance(v, _Ignore):
                     v = Ignore(v)
-- 
2.43.0


From 7835dd6c7a322eefd55380b036e05b411b03e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 33/57] fix: variadic arguments are recorded under names no
 output can have

---
 mandala/storage.py | 16 ++++++++++------
 mandala/utils.py   |  9 +++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index ecd21f6..32817d1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -5,7 +5,7 @@ from contextlib import contextmanager
 from .model import *
 import sqlite3
 from .model import __make_list__, __list_getitem__, __make_dict__, __dict_getitem__, _Ignore, _NewArgDefault, ValuePointer
-from .utils import dataframe_to_prettytable, parse_returns, _conservative_equality_check, boundargs_to_args_kwargs
+from .utils import dataframe_to_prettytable, parse_returns, _conservative_equality_check, boundargs_to_args_kwargs, is_output_name
 from .viz import _get_colorized_diff
 from .deps.versioner import Versioner, CodeState
 from .deps.model import TerminalData
@@ -728,7 +728,8 @@ class Storage:
         }
     
     def parse_args(self, sig: inspect.Signature, args, kwargs, apply_defaults: bool, 
-                   ignore_args: Optional[Tuple[str,...]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
+                   ignore_args: Optional[Tuple[str,...]] = None,
+                   output_names: Optional[List[str]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
         """
         Given the inputs passed to an @op call (could be wrapped or unwrapped),
         figure out the inputs we should pass to storage functions, their type
@@ -752,12 +753,14 @@ class Storage:
             return ignore_args is not None and name in ignore_args
 
         def positional_name(name: str) -> str:
-            # must differ from the name of any other argument
-            return f'*{name}' if name in sig.parameters else name
+            # must differ from the name of any other argument, and of any output
+            if name in sig.parameters or is_output_name(name, output_names):
+                return f'*{name}'
+            return name
 
         def keyword_name(name: str) -> str:
-            # must differ from the names of parameters and of variadic positional arguments
-            if name in sig.parameters or name.startswith('*'):
+            # must differ from the names of parameters, variadic positional arguments and outputs
+            if name in sig.parameters or name.startswith('*') or is_output_name(name, output_names):
                 return f'**{name}'
             if var_positional is not None and name.startswith(f'{var_positional.name}_'):
                 return f'**{name}'
@@ -1208,6 +1211,7 @@ class Storage:
             kwargs=kwargs,
             apply_defaults=True,
             ignore_args=op.ignore_args,
+            output_names=op.output_names,
         )
 
         if self.mode == "noop":
diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..d1bc137 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -100,6 +100,15 @@ def parse_output_name(name: str) -> int:
     return int(name.split("_")[-1])
 
 
+def is_output_name(name: str, output_names: Optional[List[str]] = None) -> bool:
+    """
+    Whether some output of an op with the given `output_names` can have this name.
+    """
+    if output_names is not None and name in output_names:
+        return True
+    return name.startswith("output_")
+
+
 def get_setdict_union(
     a: Dict[str, Set[str]], b: Dict[str, Set[str]]
 ) -> Dict[str, Set[str]]:
-- 
2.43.0


From 9fc4b9b25d7d6a3108db8ddad79639df4a845fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 34/57] fix: a dict's value under the key 'dict' is kept in the
 record that builds it

---
 mandala/model.py   | 8 ++++++++
 mandala/storage.py | 3 +--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index a5c9f16..608e516 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -422,7 +422,15 @@ def __make_list__(**items: Any) -> MList[Any]:
         obj=elts,
     )
 
+def get_dict_input_name(key: str) -> str:
+    # the value of a key must not be recorded under the name of the output
+    return f"*{key}" if key.lstrip("*") == "dict" else key
+
+def parse_dict_input_name(name: str) -> str:
+    return name[1:] if name.startswith("*") and name.lstrip("*") == "dict" else name
+
 def __make_dict__(**kwargs: Any) -> dict:
+    kwargs = {parse_dict_input_name(k): v for k, v in kwargs.items()}
     return DictRef(
         cid=get_content_hash(sorted([(k, v.cid) for k, v in kwargs.items()])),
         hid=get_content_hash(sorted([(k, v.hid) for k, v in kwargs.items()])),
diff --git a/mandala/storage.py b/mandala/storage.py
index 32817d1..e7e6bae 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -575,8 +575,7 @@ class Storage:
         elif isinstance(tp, DictType):
             # the keys must be strings
             assert all(isinstance(k, str) for k in val.keys())
-            res = val
-            return res
+            return {get_dict_input_name(k): v for k, v in val.items()}
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 43405e0d7ec3ed9719abcde41aa27764d187670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 35/57] fix: outputs beyond the named ones are returned,
 missing ones do not fail

---
 mandala/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index 608e516..23faf69 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -7,6 +7,7 @@ from typing import Literal
 from .tps import *
 from .config import *
 from .utils import (
+    dump_output_name,
     parse_output_name,
     boundargs_to_args_kwargs,
 )
@@ -230,7 +231,7 @@ class Op:
             }
             return tuple([output_dict_by_int[i] for i in range(len(output_dict))])
         else:  # we use the order of the keys in self.output_names
-            return tuple([output_dict[k] for k in self.output_names])
+            return tuple([output_dict[dump_output_name(i, self.output_names)] for i in range(len(output_dict))])
 
     def detached(self) -> "Op":
         return Op(
-- 
2.43.0


From fe1091e0f5436d21969d3665b9c310666822cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 36/57] fix: a versioned call can be computed again after its
 record was dropped

---
 mandala/deps/versioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 962ab9b..555dae0 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -430,7 +430,12 @@ class Versioner:
             "content_version": version.content_version,
             "outputs": outputs,
         }
-        if not is_recompute:
+        # a call executed again (e.g. because it was dropped) is already on record
+        is_recorded = (
+            (self.df["pre_call_uid"] == pre_call_uid)
+            & (self.df["semantic_version"] == version.semantic_version)
+        ).any()
+        if not is_recompute and not is_recorded:
             self._check_semantic_distinguishability(
                 component=component, pre_call_uid=pre_call_uid, call_version=version
             )
-- 
2.43.0


From 15664c3f6037e0dcc13572e3e6eef1f9ec82a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 37/57] fix: ops of the same name in different modules do not
 break versioned lookups

---
 mandala/deps/versioner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 555dae0..36b33c8 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -403,7 +403,10 @@ class Versioner:
             for content_version, semantic_version in zip(
                 content_versions, semantic_versions
             ):
-                version = self.versions[component][content_version]
+                version = self.versions.get(component, {}).get(content_version)
+                if version is None:
+                    # a call to an op of the same name from another module
+                    continue
                 codebase_semantic = self.get_semantic_version(
                     semantic_hashes=codebase_semantic_hashes, support=version.support
                 )
@@ -454,6 +457,9 @@ class Versioner:
             candidates["content_version"].values.tolist(),
             candidates["semantic_version"].values.tolist(),
         ):
+            if content_version not in self.versions[component]:
+                # a call to an op of the same name from another module
+                continue
             if semantic_version not in existing_semantic_expansions.keys():
                 existing_call_version = self.versions[component][content_version]
                 existing_semantic_expansions[
-- 
2.43.0


From 1becdfdcb893787fe234ac01e86a6f2418a00439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 38/57] fix: the globals of tracked functions can be looked up
 with get and in

---
 mandala/deps/tracers/dec_impl.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 1db4e92..b3116b3 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -50,6 +50,12 @@ class TrackedDict(dict):
     def __repr__(self) -> str:
         return f"TrackedDict({self.__original__})"
 
+    def get(self, __key: str, __default: Any = None) -> Any:
+        return self.__original__.get(__key, __default)
+
+    def __contains__(self, __key: str) -> bool:
+        return __key in self.__original__
+
     def __getitem__(self, __key: str) -> Any:
         result = self.__original__.__getitem__(__key)
         if TracerState.tracer is not None:
-- 
2.43.0


From cc39ee78bc37b645df58821d250d3227eedaf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 39/57] fix: static and class methods of tracked classes are
 traced and crawled

---
 mandala/deps/crawler.py          | 2 ++
 mandala/deps/tracers/dec_impl.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..4826001 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -24,6 +24,8 @@ def crawl_obj(
     """
     Find functions and optionally methods native to the module of this object.
     """
+    if isinstance(obj, (staticmethod, classmethod)):
+        obj = obj.__func__
     if is_callable_obj(obj=obj, strict=strict):
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index b3116b3..e8eb5e3 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -136,6 +136,8 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         for k, v in obj.__dict__.items():
             if isinstance(v, (types.FunctionType, type)):
                 setattr(obj, k, track(v))
+            elif isinstance(v, (staticmethod, classmethod)):
+                setattr(obj, k, type(v)(track(v.__func__)))
         TracerState.registry[(obj.__module__, obj.__qualname__)] = obj
         return obj
     elif isinstance(obj, types.FunctionType):
-- 
2.43.0


From 6bc2a615031b780b4de6855d3c5d5b7084960631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 40/57] fix: memoized functions marked with @track can be
 called from other memoized functions

---
 mandala/deps/tracers/dec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index e8eb5e3..eb267b6 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -166,7 +166,7 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         obj.f = make_tracked_copy(f=obj.f)
         TracerState.registry[
             (obj.f.__module__, obj.f.__qualname__)
-        ] = obj.f
+        ] = unwrap_decorators(obj.f, strict=True)
         return obj
     else:
         raise TypeError("Can only track callable objects")
-- 
2.43.0


From a51444f22d14170dd7a463370099d55129ca863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 41/57] fix: globals accessed by callbacks are attributed to
 the module they are in

---
 mandala/deps/tracers/dec_impl.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index eb267b6..e1083cb 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -78,7 +78,9 @@ class TrackedDict(dict):
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
             elif is_global_val(result):
-                tracer.register_global_access(key=__key, value=result)
+                tracer.register_global_access(
+                    key=__key, value=result, module_name=self.__original__.get("__name__")
+                )
             else:
                 if (
                     DecTracerConfig.restrict_global_accesses
@@ -267,13 +269,19 @@ class DecTracer(TracerABC):
             self.graph.roots.add(node.key)
         return node
 
-    def register_global_access(self, key: str, value: Any):
+    def register_global_access(
+        self, key: str, value: Any, module_name: Optional[str] = None
+    ):
         if not self.track_globals:
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
+        if module_name is None:
+            module_name = calling_node.module_name
+        # code from another module than the calling function's (e.g. a callback)
+        # may be what accesses the global
         node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(calling_node.module_name, key), 
+            obj=value, dep_key=(module_name, key), 
             skip_unhashable=self.skip_unhashable_globals,
             skip_silently=self.skip_globals_silently
         )
-- 
2.43.0


From 23c875ffa87f4ce949e01a20df18d83a7f5b1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 42/57] fix: a global that changed since the context was
 entered is reported as such

---
 mandala/deps/versioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 36b33c8..4defcde 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -230,7 +230,7 @@ class Versioner:
                         print(f"Expected: {hypothesis.nodes[trace_dep_key].content()}")
                         print(f"Actual: {trace_node.content()}")
                         print(
-                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].content(), trace_node.content())}"
+                            f"Diff:\n{_get_colorized_diff(hypothesis.nodes[trace_dep_key].readable_content(), trace_node.readable_content())}"
                         )
                         raise ValueError(f"Content mismatch for {trace_dep_key}")
                 elif isinstance(trace_node, CallableNode):
-- 
2.43.0


From b234dd2c09de27aa181850dd9024137c66a4d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 43/57] fix: functions of a package's __init__.py are crawled
 under the package's name

---
 mandala/deps/crawler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 4826001..1249c70 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -86,6 +86,11 @@ def crawl_static(
                 )
             if package_name is not None:
                 module_name = ".".join([package_name, module_name])
+            if path.name == "__init__.py":
+                # this is the module of the package itself
+                module_name = module_name.rpartition(".")[0]
+                if module_name == "":
+                    continue
         else:
             module_name = "__main__"
         try:
-- 
2.43.0


From f7515ffcdd8ec434cba893944323fc672da6d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 44/57] fix: methods of a class that inherits its constructor
 from another module are crawled

---
 mandala/deps/crawler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 1249c70..6638acf 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -30,13 +30,12 @@ def crawl_obj(
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
         v = extract_func_obj(obj=obj, strict=strict)
-        if v is not unknown_function and v.__module__ != module_name:
+        if v is unknown_function or v.__module__ == module_name:
             # exclude non-local functions
-            return
-        dep_key = (module_name, v.__qualname__)
-        node = CallableNode.from_obj(obj=v, dep_key=dep_key)
-        result[dep_key] = node
-        objs_result[dep_key] = obj
+            dep_key = (module_name, v.__qualname__)
+            node = CallableNode.from_obj(obj=v, dep_key=dep_key)
+            result[dep_key] = node
+            objs_result[dep_key] = obj
     if isinstance(obj, type):
         if include_methods:
             if obj.__module__ != module_name:
-- 
2.43.0


From e0fdff9b36148b1d4ce38c28e795ae71f1d439f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 45/57] fix: new nodes of a computation frame get names no
 other node has

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b9b4b2f..645dcab 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2184,21 +2184,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 24e6615d5e3b967cf803b901467e876277a6a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 46/57] fix: node names given as an iterator are all selected
 or expanded

---
 mandala/cf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 645dcab..e28bcca 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -591,11 +591,11 @@ class ComputationFrame:
         connecting pairs of these nodes.
         """
         #! must copy all sets etc. to avoid modifying the original CF
-        nodes_not_in_cf = set(nodes) - self.nodes
+        nodes = set(nodes)
+        nodes_not_in_cf = nodes - self.nodes
         if len(nodes_not_in_cf) > 0:
             raise ValueError(f"Nodes {nodes_not_in_cf} not found in the CF")
         res = self.copy()
-        nodes = set(nodes)
         edges = {
             (src, dst, label)
             for src, dst, label in res.edges()
@@ -1122,6 +1122,8 @@ class ComputationFrame:
             return res if not inplace else None
         if isinstance(varnames, str):
             varnames = {varnames}
+        else:
+            varnames = set(varnames)
         
         # TODO: when expanding forward, we don't really want to start from the 
         # sink elements, because there may be non-sink elements that don't have
@@ -1754,7 +1756,8 @@ class ComputationFrame:
             return self.select_nodes([indexer])
         elif isinstance(indexer, ComputationFrame):
             raise NotImplementedError()
-        elif all([isinstance(k, str) for k in indexer]):
+        indexer = list(indexer)
+        if all([isinstance(k, str) for k in indexer]):
             return self.select_nodes(list(sorted(indexer)))
     
     def get_reachable_elts(
-- 
2.43.0


From bf6ebcaab260914fdebf909e92b9f57d636de2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 47/57] fix: a frame restricted to given elements keeps sets of
 its own

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index e28bcca..8d324d6 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -653,8 +653,8 @@ class ComputationFrame:
         assert all(elts[node] <= sets[node] for node in elts.keys())
         out = res.out
         inp = res.inp
-        vs = {node: elts[node] for node in res.vnames}
-        fs = {node: elts[node] for node in res.fnames}
+        vs = {node: set(elts[node]) for node in res.vnames}
+        fs = {node: set(elts[node]) for node in res.fnames}
         ref_hids_subset = get_nullable_union(*vs.values())
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
-- 
2.43.0


From c6d17c6e16b253ee2d5c413bc5e6c6f68b627b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 48/57] fix: renaming a variable cannot overwrite another node

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 8d324d6..bad17c3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -255,6 +255,10 @@ class ComputationFrame:
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
         res = self if inplace else self.copy()
+        if new_vname == vname:
+            return res if not inplace else None
+        if new_vname in res.nodes:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
-- 
2.43.0


From 73abc0674f11e0daeb7b54c6ea9538acb7983441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 49/57] fix: merging a node into itself keeps it

---
 mandala/cf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index bad17c3..efdc8e7 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2009,6 +2009,8 @@ class ComputationFrame:
         (redirecting all its edges to the superset node).
         """
         res = self if inplace else self.copy()
+        if node_to_merge == merge_into:
+            return res if not inplace else None
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-- 
2.43.0


From 40a5e07518b1ebfbf7df534beac694038ef01fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 50/57] fix: the table of a single node respects values and
 works for functions

---
 mandala/cf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index efdc8e7..8cf087c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1364,8 +1364,10 @@ class ComputationFrame:
         if len(nodes) == 0:
             nodes = tuple(self.nodes)
         elif len(nodes) == 1:
-            values = list(self.get_var_values(nodes[0]))
-            return pd.DataFrame(values, columns=[nodes[0]])
+            df = pd.DataFrame({nodes[0]: list(self.values[nodes[0]])})
+            if values == "objs":
+                df = self.eval_df(df, skip_cols=lazy_vars)
+            return df
         restricted_cf = self.midstream(*nodes)
         if verbose:
             graph_desc = restricted_cf.get_graph_desc()
-- 
2.43.0


From ecbb630178881498c165ff3e803c9537c3a3bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 51/57] fix: ComputationFrame.attach loads the frame's values

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 8cf087c..da281d1 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1403,7 +1403,7 @@ class ComputationFrame:
     ### evaluation
     ############################################################################
     def attach(self):
-        self.storage.attach(list(self.refs.values()))
+        self.storage.attach(list(self.refs.values()), inplace=True)
 
     def eval_df(self, 
                 df: pd.DataFrame,
-- 
2.43.0


From ca04cc2189361b5901c7d8464b6878f2b59c1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 52/57] fix: deleting the calls of a table includes its
 collections of calls

---
 mandala/cf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index da281d1..ec256dc 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2180,6 +2180,9 @@ class ComputationFrame:
         hids = set()
         for col in df.columns:
             hids |= {elt.hid for elt in df[col] if isinstance(elt, Call)}
+            for elt in df[col]:
+                if isinstance(elt, CallCollection):
+                    hids |= {call.hid for call in elt.calls}
         self.storage.drop_calls(calls_or_hids=hids, delete_dependents=True)
 
     ############################################################################
-- 
2.43.0


From b56c8cbcb13f41b91dcea3d29c7fc9b9b5556276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 53/57] fix: recursive expansion of a computation frame goes on
 while elements are added

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ec256dc..a089b54 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1107,7 +1107,7 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                current_size = len(res.nodes) + sum(len(elts) for elts in res.sets.values())
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1118,7 +1118,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = len(res.nodes) + sum(len(elts) for elts in res.sets.values())
                 if new_size == current_size:
                     break
                 if not recursive:
-- 
2.43.0


From 641bcb55f8553f6b57d3969d10fc7b3d0e57431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 54/57] fix: expanding keeps the edges of all variables with
 elements of one struct

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index a089b54..147daf1 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -956,7 +956,8 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    # elements of a struct share a label, but may be in different variables
+                    identifying_variables[label] = identifying_variables.get(label, set()) | connected_vnames
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0


From 340cace8b8360e1b8c72af14708a0f104d833ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 55/57] fix: names of lazy columns given as an iterator or a
 single name were not all skipped

---
 mandala/cf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 147daf1..6795b9b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1433,6 +1433,7 @@ class ComputationFrame:
             values = self.storage.unwrap(df.values.tolist())
             return pd.DataFrame(values, columns=df.columns)
         else:
+            skip_cols = {skip_cols} if isinstance(skip_cols, str) else set(skip_cols)
             columns_dict = {col: df[col] if col in skip_cols else self.storage.unwrap(df[col].values.tolist()) for col in df.columns}
             return pd.DataFrame(columns_dict)
 
-- 
2.43.0


From 71e01e93b74e53572761b8c931c19c70e0bfb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 56/57] fix: the table of a frame failed when the histories of
 its final variables share no nodes

---
 mandala/cf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 6795b9b..02d480e 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1697,14 +1697,22 @@ class ComputationFrame:
             )
             for vname in sorted_varnames
         ]
+        if len(history_dfs) == 0:
+            return pd.DataFrame()
         result = history_dfs[0]
         for df, varname in zip(history_dfs[1:], sorted_varnames[1:]):
             shared_cols = set(result.columns) & set(df.columns)
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
-            result = pd.merge(
-                result, df, how=how, on=list(shared_cols), suffixes=("", "")
-            )
+            if shared_cols:
+                result = pd.merge(
+                    result, df, how=how, on=list(shared_cols), suffixes=("", "")
+                )
+            elif how == "outer":
+                # nothing to match the rows on: keep the rows of both
+                result = pd.concat([result, df], ignore_index=True)
+            else:
+                result = pd.merge(result, df, how="cross")
         # go back to refs
         result = result.applymap(eval_hids)
         return self._sort_df(result)
-- 
2.43.0


From 23edbe303136156f7a8797cc6b1a0ab70bf287b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 57/57] fix: evaluating a table without calls kept the columns
 of calls that start with an empty row

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 02d480e..3faa501 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1426,7 +1426,8 @@ class ComputationFrame:
             else:
                 return "value"
 
-        col_types = {col: classify_obj(df[col].iloc[0]) for col in df.columns}
+        # rows without an element in the column say nothing of its kind
+        col_types = {col: next((t for t in map(classify_obj, df[col]) if t != "value"), "value") for col in df.columns}
         if skip_calls:
             df = df[[col for col, t in col_types.items() if t != "call"]]
         if skip_cols is None:
-- 
2.43.0

