From 9d2eb60d0e7e8dcf1a6b62450eb8bb3e84907f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/43] fix: BNode.delete could corrupt the tree and its item
 counts

Deleting a key of an inner node whose neighbours are both minimal called
delete() on a minimal node, moved subtrees did not move their counts, siblings
were tested by their (possibly unknown) length, and a failed delete could leave
a root without items.  set_bnode_minimum_degree() compared ints by identity.
---
 durus/btree.py | 60 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..230ed63 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -237,16 +241,18 @@ class BNode(PersistentObject):
                     self._count -= 1
                     self.items[p] = extreme
                 else:
-                    # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    # Case 2c: Merge the item and upper_sibling into node.
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node._p_note_change()
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
@@ -258,8 +264,10 @@ class BNode(PersistentObject):
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
-                            del lower_sibling.nodes[-1]
+                            moved = lower_sibling.nodes.pop()
+                            node.nodes.insert(0, moved)
+                            node._count += moved._count
+                            lower_sibling._count -= moved._count
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
@@ -269,10 +277,12 @@ class BNode(PersistentObject):
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
-                            del upper_sibling.nodes[0]
+                            moved = upper_sibling.nodes.pop(0)
+                            node.nodes.append(moved)
+                            node._count += moved._count
+                            upper_sibling._count -= moved._count
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
@@ -298,12 +308,20 @@ class BNode(PersistentObject):
                     node._p_note_change()
                 assert is_big(node)
                 old_count = node._count
-                node.delete(key)
-                self._count += node._count - old_count
-            if not self.items:
-                # This can happen when self is the root node.
-                self.items = self.nodes[0].items
-                self.nodes = self.nodes[0].nodes
+                try:
+                    node.delete(key)
+                    self._count += node._count - old_count
+                finally:
+                    # Even if the key is missing, a merge has to be completed.
+                    self._remove_empty_level()
+                return
+            self._remove_empty_level()
+
+    def _remove_empty_level(self):
+        if not self.items:
+            # This can happen when self is the root node.
+            self.items = self.nodes[0].items
+            self.nodes = self.nodes[0].nodes
 
     def get_count(self):
         """() -> int
@@ -585,7 +603,7 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
         of the given minimum_degree, if there is such a class.
         Return True if a change was made.
         """
-        if self.root.minimum_degree is not degree:
+        if self.root.minimum_degree != degree:
             for bnode_class in BNode.__subclasses__():
                 if bnode_class.minimum_degree == degree:
                     new_tree = BTree(node_constructor=bnode_class)
-- 
2.43.0


From 331e1c96980ab56095f245251c4b7a42cafdd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 02/43] fix: str() of a DurusKeyError raised AttributeError

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From de97be58e483a8784e674eff83d3db9a19e6c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 03/43] fix: reading an object removed by a pack raises
 ReadConflictError with every storage

---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..fc89b29 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -187,7 +186,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From a63cad977426b62eefa299ecb0b11d0c129935b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 04/43] fix: reopened SqliteStorage allocated the OID of a
 stored object

---
 durus/sqlite_storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..15af4ea 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,15 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return the first OID that is above every OID in the database, as
+        integer.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
-- 
2.43.0


From ff735a83763d96735d5f57c2571409565aa0c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 05/43] fix: SqliteStorage.gen_oid_record() without a start_oid
 always failed

---
 durus/sqlite_storage.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 15af4ea..4ac0594 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -147,13 +147,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
-        for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
+        for id, data, refs in c.fetchall():
+            oid = int8_to_str(id)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 7cda381b95e13ddf4f2f462d988e81b3d944e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 06/43] fix: SqliteStorage pack deleted objects made reachable
 by a concurrent commit

The removed OIDs also were never reported by sync().
---
 durus/sqlite_storage.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 4ac0594..e6756cb 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -230,17 +230,16 @@ class SqliteStorage(Storage):
                 n += 1
                 if n % self._PACK_INCREMENT == 0:
                     yield None # allow server to do other work
-            # identified all reachable objects, find dead ones
-            # note we cannot yield while iterating over all OIDs because
-            # new ones could get created
+            # identified all reachable objects, find and delete dead ones
+            # note we cannot yield before this is done because objects could
+            # get created or become reachable
             dead = set()
             for oid in self._list_all_oids():
                 if oid not in alive:
                     dead.add(oid)
-            self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
             self._delete(dead)
+            self.invalid.update(dead)
+            self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From 9b37f5ecbb8417939027c564d2cc32da70809d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 07/43] fix: a failed SqliteStorage commit left its records to
 the next commit

---
 durus/sqlite_storage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index e6756cb..62d6885 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -122,9 +122,13 @@ class SqliteStorage(Storage):
                     # ensure object and refs are marked alive and not removed
                     self.pack_extra.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From 60418d585a661f144d49da39b03ed7e42b98d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 08/43] fix: FileStorage2 stored the records of an abandoned
 commit with the next one

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From d409a03cb538a803aa6ed2f0d2c093302c770da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 09/43] fix: get_packer() returned something other than an
 iterator when not packing

The storage server calls next() on the result.
---
 durus/file_storage2.py  | 2 +-
 durus/sqlite_storage.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..6347bf3 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -263,7 +263,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(()) # Don't pack.
         else:
             self.pack_extra = []
             return self._packer()
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 62d6885..79c8ced 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -208,7 +208,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return iter(()) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
-- 
2.43.0


From 502dcbb5e35ebf4bf8083b9ea274f931f9afdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 10/43] fix: create_from_records() left a storage that could
 not be used before reopening

---
 durus/file_storage2.py  | 2 ++
 durus/sqlite_storage.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 6347bf3..fe0a930 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -340,3 +340,5 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        self.oid = max([str_to_int8(oid) for oid in index] or [-1])
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 79c8ced..79f0b32 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -264,3 +264,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From eea77b03b09a49990e837e1f2329da6cc2548ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/43] fix: a failed SqliteStorage commit during a pack made
 the pack fail

---
 durus/sqlite_storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 79f0b32..e5983bc 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -114,13 +114,12 @@ class SqliteStorage(Storage):
         self.pending_records.append(record)
 
     def _store_records(self, records):
+        oids = []
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
+                oids.append(oid)
         c = self._conn.cursor()
         try:
             c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
@@ -129,6 +128,9 @@ class SqliteStorage(Storage):
         except:
             self._conn.rollback()
             raise
+        if self.pack_extra is not None:
+            # ensure objects and refs are marked alive and not removed
+            self.pack_extra.extend(oids)
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From 3e59e759df9712450ea8189f069a9c62a9295a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 12/43] fix: a commit that failed without a conflict left new
 objects half stored

The new objects kept their OIDs, so a later commit could store references to
records that do not exist.
---
 durus/connection.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index fc89b29..7b32450 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -2,7 +2,7 @@
 $URL$
 $Id$
 """
-from durus.error import ConflictError, WriteConflictError, ReadConflictError
+from durus.error import WriteConflictError, ReadConflictError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -260,27 +260,32 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        # Some may remain, if this is a failure.
+                        for obj in writer.objects_found:
+                            new_objects[obj._p_oid] = obj
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
+            except:
                 for oid, obj in iteritems(new_objects):
                     obj._p_oid = None
-                    del self.cache[oid]
+                    if self.cache.get(oid) is obj:
+                        del self.cache[oid]
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
                 raise
-- 
2.43.0


From dbe57c70209b00390e21a84797471afa3cb8ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/43] fix: no conflict was raised for an object that was
 changed but not read

---
 durus/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 7b32450..de68dc6 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -303,11 +303,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From ddadd87ab8a15f52eb9e77d7b103d470f152d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/43] fix: get_crawler() could load obsolete state after a
 commit or abort

---
 durus/connection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index de68dc6..65ede43 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -59,6 +59,7 @@ class Connection (ConnectionBase):
         self.reader = ObjectReader(self)
         self.changed = {}
         self.invalid_oids = set()
+        self.sync_count = 0 # Number of times invalidations were processed.
         self.new_oid = storage.new_oid # needed by serialize
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
@@ -160,12 +161,19 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
+        sync_count = self.sync_count
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
+                if self.sync_count != sync_count:
+                    # This record may be older than the last sync.
+                    try:
+                        data = self.get_stored_pickle(oid)
+                    except KeyError:
+                        continue # removed by a pack
                 if obj is None:
                     klass = loads(data)
                     obj = self.cache.get_instance(oid, klass, self)
@@ -229,6 +237,7 @@ class Connection (ConnectionBase):
         """
         Process all invalid_oids so that all non-ghost objects are current.
         """
+        self.sync_count += 1
         invalid_oids = self.storage.sync()
         self.invalid_oids.update(invalid_oids)
         for oid in self.invalid_oids:
@@ -298,6 +307,7 @@ class Connection (ConnectionBase):
         Check if any of the oids are for objects that were accessed during
         this transaction.  If so, raise the appropriate conflict exception.
         """
+        self.sync_count += 1
         conflicts = []
         for oid in oids:
             obj = self.cache.get(oid)
-- 
2.43.0


From fb3dbe38dc3d6410ba12ea2bb65e005aa88f54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 15/43] fix: FileStorage acknowledged commits before they were
 on disk

---
 durus/file_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..65dd19d 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -79,6 +79,7 @@ class FileStorage (Storage):
 
     def end(self, handle_invalidations=None):
         self.shelf.store(iteritems(self.pending_records))
+        self.shelf.get_file().fsync()
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
-- 
2.43.0


From 9f234a69137fc7e5a1547af80cfa2c8a5c2b8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/43] fix: FileStorage pack did not report all of the oids it
 removed

Oids above the greatest oid that remained were not reported by sync(), and
oids of objects stored again during the pack were reported.
---
 durus/file_storage.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 65dd19d..1523394 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -148,13 +148,12 @@ class FileStorage (Storage):
             file.fsync()
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
-            # Invalidate oids that have been removed.
-            for hole in shelf.get_offset_map().gen_holes():
-                yield hole
-                oid = int8_to_str(hole)
-                if self.shelf.get_position(oid) is not None:
-                    assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+            # Find oids that are not in the base.
+            missing = []
+            for oid in self.shelf:
+                if oid not in shelf:
+                    missing.append(oid)
+                yield str_to_int8(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
@@ -162,6 +161,8 @@ class FileStorage (Storage):
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
             file.flush()
             file.fsync()
+            # Invalidate oids that have been removed.
+            self.invalid.update(oid for oid in missing if oid not in shelf)
             if not self.shelf.get_file().is_temporary():
                 self.shelf.get_file().rename(file_path + '.prepack')
                 self.shelf.get_file().close()
-- 
2.43.0


From 6bc9dba3d367819b4bc2bc6b104baaa9763ff846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 17/43] fix: an incomplete Shelf transaction could be read as
 complete transactions

The length placeholder of a transaction that was being written described an
empty transaction, so the following records were read as transactions.
---
 durus/shelf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..729215f 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,7 +195,9 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
+        # Write a placeholder for the length.  A transaction is not well
+        # formed until this is replaced by the actual length.
+        write_int8(self.file, 2**64 - 1)
         result = []
         index = {}
         try:
-- 
2.43.0


From 2999222915e5df0827943c23c0792ca084caeeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 18/43] fix: Shelf did not detect that the last record of a
 file is truncated

---
 durus/shelf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index 729215f..6466864 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -309,6 +309,10 @@ def read_transaction_offsets(file, repair=False):
             file.seek(position + 8 + record_length)
         if file.tell() != transaction_end:
             raise ShortRead
+        if transaction_length > 0:
+            # Make sure that the last record is all here.
+            file.seek(transaction_end - 1)
+            read(file, 1)
         return transaction_offsets
     except ShortRead:
         position = file.tell()
-- 
2.43.0


From db94e52d0095366cf7d1c763ed2e762998cc3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 19/43] fix: there was a moment during a pack with no file at
 the path of the storage

A crash at that moment looked like an empty storage when it was opened again.
---
 durus/file.py          | 21 +++++++++++++++++++--
 durus/file_storage.py  |  6 +++---
 durus/file_storage2.py |  7 +++----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..8491f1f 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -71,12 +71,29 @@ class File (object):
         assert not self.is_temporary()
         self.obtain_lock()
         self.close()
-        if exists(name):
+        if os.name == 'nt' and exists(name):
             os.unlink(name)
-        os.rename(old_name, name)
+        os.rename(old_name, name) # replaces any existing file.
         self.file = open(name, 'r+b')
         self.obtain_lock()
 
+    def backup(self, name):
+        """
+        Make this file available as name too, if hard links can be used.
+        Otherwise, rename it.
+        """
+        assert not self.is_temporary()
+        self.obtain_lock()
+        if os.name == 'nt':
+            self.rename(name)
+            return
+        if exists(name):
+            os.unlink(name)
+        try:
+            os.link(self.get_name(), name)
+        except OSError:
+            self.rename(name)
+
     def obtain_lock(self):
         """
         Make sure that we have an exclusive lock on self.file before
diff --git a/durus/file_storage.py b/durus/file_storage.py
index 1523394..990646a 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -163,10 +163,10 @@ class FileStorage (Storage):
             file.fsync()
             # Invalidate oids that have been removed.
             self.invalid.update(oid for oid in missing if oid not in shelf)
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
+            # There is a complete file at file_path at all times.
+            self.shelf.get_file().backup(file_path + '.prepack')
             shelf.get_file().rename(file_path)
+            self.shelf.get_file().close()
             self.shelf = shelf
             self.pack_extra = None
             yield "finished %s" % datetime.now()
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index fe0a930..33fd722 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -243,11 +243,10 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
+        # There is a complete file at name at all times.
+        self.fp.backup(prepack_name)
         packed.rename(name)
+        self.fp.close()
         self.fp = packed
         for oid in self.index:
             if oid not in index:
-- 
2.43.0


From ef7eac4c2fdfc12ff400719917b3ecab68d04977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 20/43] fix: ClientStorage.bulk_load() left responses unread
 after an error

They were taken for the responses to later requests.
---
 durus/client_storage.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..1df159a 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -125,7 +125,16 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        records = []
+        error = None
+        for oid in oids:
+            # Read every response, even if some of them are errors.
+            try:
+                records.append(self._get_load_response(oid))
+            except (DurusKeyError, ReadConflictError) as exc:
+                error = error or exc
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From 256f91ba20893dd4e98036d870f314652180c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 21/43] fix: a malformed commit from one client stopped the
 storage server

---
 durus/storage_server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..7b707c5 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -390,6 +390,8 @@ class StorageServer (object):
         i = 0
         oids = []
         while i < len(tdata):
+            if len(tdata) - i < 12:
+                raise ClientError("malformed commit")
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
             oid = tdata[i:i+8]
@@ -399,9 +401,13 @@ class StorageServer (object):
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
                     str_to_int8(oid), rlen, class_name)
-            self.storage.store(oid, record)
+            try:
+                self.storage.store(oid, record)
+            except ValueError:
+                raise ClientError("invalid oid: %r" % oid)
             oids.append(oid)
-        assert i == len(tdata)
+        if i != len(tdata):
+            raise ClientError("malformed commit")
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
-- 
2.43.0


From dd2811bfe0732c892c5d6107cc2d8419b2e502ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 22/43] fix: IntSet.add() failed for some numbers if the
 initial size was small

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..ccd36ef 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(max(n + 1, int(n * 1.2)))
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 704c94e59544539871efd34feeffb6fdcd4e8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 23/43] fix: other clients missed the changes of a client that
 left before the reply

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 7b707c5..7c767fa 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -422,12 +422,13 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
+            # This must be done even if the client is gone.
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From 3982ac017c7eeb77d1021fbc61832b0ac0b0bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 24/43] fix: db_renumber.py lost the class of the root and
 references to the root

---
 bin/db_renumber.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 16625cf..d9d663d 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -11,9 +11,9 @@ from tempfile import TemporaryFile
 import sys
 
 if sys.version < "3":
-    from cPickle import dump, load
+    from cPickle import Pickler, Unpickler
 else:
-    from pickle import dump, load
+    from pickle import Pickler, Unpickler
 
 def usage():
     print("%s <old-file-storage> <new-file-storage>" % sys.argv[0])
@@ -29,12 +29,22 @@ def main(old_file, new_file):
     connection = Connection(sys.argv[1])
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
-    dump(connection.get_root().__getstate__(), tmpfile, 2)
+    root = connection.get_root()
+    root_class = root.__class__
+    class RootPickler(Pickler):
+        # References to the root are replaced by references to the new root.
+        def persistent_id(self, obj):
+            if obj is root:
+                return 'root'
+    RootPickler(tmpfile, 2).dump(root.__getstate__())
     connection = None
     tmpfile.seek(0)
-    connection2 = Connection(sys.argv[2])
+    connection2 = Connection(sys.argv[2], root_class=root_class)
     print("unpickling")
-    connection2.get_root().__setstate__(load(tmpfile))
+    class RootUnpickler(Unpickler):
+        def persistent_load(self, pid):
+            return connection2.get_root()
+    connection2.get_root().__setstate__(RootUnpickler(tmpfile).load())
     connection2.get_root()._p_note_change()
     print("commit to " + new_file)
     connection2.commit()
-- 
2.43.0


From d80fd4732487f34f9a72d84429040adbdbb088e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 25/43] fix: a failed commit left records that made later packs
 do nothing

---
 durus/connection.py     | 1 +
 durus/storage_server.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index 65ede43..91eef98 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -297,6 +297,7 @@ class Connection (ConnectionBase):
                         del self.cache[oid]
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
+                self.storage.begin() # Discard the records stored so far.
                 raise
             self.changed.clear()
         self.shrink_cache()
diff --git a/durus/storage_server.py b/durus/storage_server.py
index 7c767fa..a661338 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -391,6 +391,7 @@ class StorageServer (object):
         oids = []
         while i < len(tdata):
             if len(tdata) - i < 12:
+                self.storage.begin() # Discard the records stored so far.
                 raise ClientError("malformed commit")
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
@@ -404,14 +405,17 @@ class StorageServer (object):
             try:
                 self.storage.store(oid, record)
             except ValueError:
+                self.storage.begin()
                 raise ClientError("invalid oid: %r" % oid)
             oids.append(oid)
         if i != len(tdata):
+            self.storage.begin()
             raise ClientError("malformed commit")
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
                 if oid_set.intersection(other_client.unused_oids):
+                    self.storage.begin()
                     raise ClientError("invalid oid: %r" % oid)
         try:
             self.storage.end(handle_invalidations=self._handle_invalidations)
-- 
2.43.0


From ecb16fb5b3ed5d00a03a05dedfd471b3470540e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 26/43] fix: get_crawler() could load obsolete state after a
 commit of its own connection

---
 durus/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/connection.py b/durus/connection.py
index 91eef98..860b48d 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -299,6 +299,7 @@ class Connection (ConnectionBase):
                     obj._p_connection = None
                 self.storage.begin() # Discard the records stored so far.
                 raise
+            self.sync_count += 1 # Records loaded before are out of date.
             self.changed.clear()
         self.shrink_cache()
         self.transaction_serial += 1
-- 
2.43.0


From e154dff0e304f75509cbad15e9a011a45c4ce65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 27/43] fix: a commit with malformed records could stop the
 server or damage the file

---
 durus/storage_server.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index a661338..2edd316 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -44,6 +44,15 @@ class _Client (object):
 class ClientError(Exception):
     pass
 
+def _is_record_for(oid, record):
+    """(oid:str, record:str) -> bool
+    Does the record have the structure of a record for this oid?
+    """
+    if len(record) < 12 or record[:8] != oid:
+        return False
+    refs_length = len(record) - 12 - str_to_int4(record[8:12])
+    return refs_length >= 0 and refs_length % 8 == 0
+
 
 class SocketAddress (object):
 
@@ -398,6 +407,9 @@ class StorageServer (object):
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
+            if i > len(tdata) or not _is_record_for(oid, record):
+                self.storage.begin()
+                raise ClientError("malformed commit")
             if logging_debug:
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
-- 
2.43.0


From 772b31a2fb50ad4f299a0132c99d1ad32c43286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 28/43] fix: FileStorage2 and SqliteStorage accepted commits
 with oids that were never allocated

---
 durus/file_storage2.py  | 3 +++
 durus/sqlite_storage.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 33fd722..36b279a 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -138,6 +138,9 @@ class FileStorage2(Storage):
 
     def store(self, oid, record):
         """Add a record during a commit."""
+        if oid not in self.index and str_to_int8(oid) > max(self.oid, 0):
+            self.begin()
+            raise ValueError("oid %r is a surprise" % oid)
         self.pending_records[oid] = record
 
     def _generate_pending_records(self):
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index e5983bc..6d9a3b2 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -111,6 +111,9 @@ class SqliteStorage(Storage):
 
     def store(self, oid, record):
         """(str, str)"""
+        if str_to_int8(oid) > max(self._last_oid - 1, 0):
+            self.begin()
+            raise ValueError("oid %r is a surprise" % oid)
         self.pending_records.append(record)
 
     def _store_records(self, records):
-- 
2.43.0


From 3bf711c3a4aafddee64a7c801aaf5c49801cda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 29/43] fix: a file cut off at the offset map was opened as an
 empty or unreadable Shelf

---
 durus/shelf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 6466864..856cb4d 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -85,7 +85,15 @@ class Shelf (object):
         self.file = file
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
-        self.file.seek(self.file.tell() + n)
+        offset_map_start = self.file.tell() + n
+        # Make sure that all of the offset map is here.  OffsetMap() fills in
+        # what is missing, and that would hide the loss of a part of the file.
+        self.file.seek(offset_map_start)
+        n = read_int8(self.file) # bytes in offset map
+        if n > 0:
+            self.file.seek(self.file.tell() + n - 1)
+            read(self.file, 1)
+        self.file.seek(offset_map_start)
         self.offset_map = OffsetMap(self.file)
         # Initialize the memory index.
         self.memory_index = {}
-- 
2.43.0


From c4750994b5068e21b87b04dc0ebf60f973cccb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 30/43] fix: opening a new file could clear one that another
 process had just created

---
 durus/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 8491f1f..ea35613 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -27,7 +27,9 @@ class File (object):
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                # Another process may have created it, so this must not clear.
+                open(name, 'ab').close()
+                self.file = open(name, 'r+b')
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
-- 
2.43.0


From cee06283fb0822aa8e6728b56635b80e73f7998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 31/43] fix: the lock of the packed file was released for a
 moment when it replaced the old one

---
 durus/file.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index ea35613..a88c2f4 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -18,6 +18,7 @@ class File (object):
     def __init__(self, name=None, readonly=False, **kwargs):
         if name is None:
             self.file = NamedTemporaryFile(**kwargs)
+            name = self.file.name
         else:
             if exists(name):
                 if readonly:
@@ -30,12 +31,13 @@ class File (object):
                 # Another process may have created it, so this must not clear.
                 open(name, 'ab').close()
                 self.file = open(name, 'r+b')
+        self.name = name
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
 
     def get_name(self):
-        return self.file.name
+        return self.name
 
     def is_temporary(self):
         return isinstance(self.file, _TemporaryFileWrapper)
@@ -72,12 +74,19 @@ class File (object):
             return
         assert not self.is_temporary()
         self.obtain_lock()
-        self.close()
-        if os.name == 'nt' and exists(name):
-            os.unlink(name)
-        os.rename(old_name, name) # replaces any existing file.
-        self.file = open(name, 'r+b')
-        self.obtain_lock()
+        if os.name == 'nt':
+            self.close()
+            if exists(name):
+                os.unlink(name)
+            os.rename(old_name, name)
+            self.file = open(name, 'r+b')
+            self.obtain_lock()
+        else:
+            # Keep the file open, and so the lock.
+            self.file.flush()
+            os.rename(old_name, name) # replaces any existing file.
+            self.file.seek(0)
+        self.name = name
 
     def backup(self, name):
         """
-- 
2.43.0


From e17e72f889d3e19fee02a474034ea6d6fa884a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 32/43] fix: a process could lock a file that a pack had
 replaced, and commit to it

---
 durus/file.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/durus/file.py b/durus/file.py
index a88c2f4..797c013 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -124,8 +124,21 @@ class File (object):
                     raise IOError("Unable to obtain lock")
             else:
                 fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                if not self.is_temporary() and not self.is_current():
+                    fcntl.flock(self.file, fcntl.LOCK_UN)
+                    raise IOError("%s was replaced" % self.get_name())
             self.has_lock = True
 
+    def is_current(self):
+        """
+        Is this still the file with this name?  A pack in another process may
+        replace the file after we open it and before we obtain the lock.
+        """
+        try:
+            return os.path.samestat(os.fstat(self.file.fileno()), self.stat())
+        except OSError:
+            return False
+
     def release_lock(self):
         """
         Make sure that we do not retain an exclusive lock on self.file.
-- 
2.43.0


From c8ff7fec5e776149dbabac3f4ecdd31372c5a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 33/43] fix: an attribute name with a lone surrogate crashed
 the C extension

---
 durus/_persistent.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..a9a5825 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -166,6 +166,10 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 	const char *sname = NULL;
 	if (AttributeName_Check(name)) {
 	    sname = AttributeName_AsString(name);
+	    if (sname == NULL) {
+			PyErr_Clear(); /* a lone surrogate, which is an ordinary name */
+			sname = "";
+	    }
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
@@ -185,6 +189,10 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 	const char *sname = NULL;
 	if (AttributeName_Check(name)) {
 	    sname = AttributeName_AsString(name);
+	    if (sname == NULL) {
+			PyErr_Clear(); /* a lone surrogate, which is an ordinary name */
+			sname = "";
+	    }
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
-- 
2.43.0


From 26dd7a2e2cf14cf1d05abe4db81a63a3b3e9e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 34/43] fix: PersistentSet.difference_update() failed if the
 argument was the set itself

---
 durus/persistent_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 96b7686..7bfed75 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -158,6 +158,8 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
 
     def difference_update(self, other):
         self._p_note_change()
+        if other is self:
+            other = self.s # It must not change during an iteration.
         return self.s.difference_update(other)
 
     def intersection(self, *others):
-- 
2.43.0


From c2f5a452f8bb8c44223ffe143e2aaa51e1488b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 35/43] fix: attributes in slots with private names, or in a
 single slot given as a string, were not stored

---
 durus/persistent.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..cf3450e 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,13 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                slots = klass.__dict__.get('__slots__', ())
+                for name in (slots,) if isinstance(slots, str) else slots:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # The names of private attributes are mangled.
+                        prefix = klass.__name__.lstrip('_')
+                        if prefix:
+                            name = '_%s%s' % (prefix, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From dd3ee7ef580b40d378c52a067854e90ab9acd106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 36/43] fix: a failed commit left changed objects marked as
 saved

---
 durus/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index 860b48d..3afb31c 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -297,6 +297,8 @@ class Connection (ConnectionBase):
                         del self.cache[oid]
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
+                for obj in self.changed.values():
+                    obj._p_set_status_unsaved() # Some were set to saved.
                 self.storage.begin() # Discard the records stored so far.
                 raise
             self.sync_count += 1 # Records loaded before are out of date.
-- 
2.43.0


From 62ed568a0124950a151d35c37734307a48f74065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 37/43] fix: iterating over a ByteArray or BitArray that is
 used meanwhile gave wrong items

---
 durus/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/durus/utils.py b/durus/utils.py
index ccd36ef..e361080 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -241,11 +241,9 @@ class ByteArray (object):
         return self.size
 
     def __iter__(self):
-        self.file.seek(self.start)
         for j in xrange(self.size):
-            byte = read(self.file, 1)
-            assert len(byte) == 1
-            yield byte
+            # Something else may move in the file during the iteration.
+            yield self[j]
 
 all_bytes = [pack("B", x) for x in range(256)]
 
-- 
2.43.0


From 125d939c2c76fdb94fa0ba8aa61252a50b1e392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 38/43] fix: db_to_py3k.py compared, and so loaded, the objects
 of the database

A string that follows a reference in a state was decoded after comparing the
referenced object with date and datetime.  For a PersistentList (dict, set)
this loads the object; with one that refers to itself, without end.
---
 bin/db_to_py3k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/db_to_py3k.py b/bin/db_to_py3k.py
index 4805473..87c491a 100644
--- a/bin/db_to_py3k.py
+++ b/bin/db_to_py3k.py
@@ -33,7 +33,7 @@ def decode_string(self, value):
     else:
         last = None
     # check for data that should be retained as byte strings
-    if last in [date, datetime]:
+    if last is date or last is datetime:
         return value
     if len(value) == 8 and value[:4] == b'\0\0\0\0':
         # assume oid, keep as bytes
-- 
2.43.0


From 31a086ce18ff1f9e15749001284cd750bf20eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 39/43] fix: durus -c --startup did not run the file

There is no execfile() in Python 3.
---
 durus/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/__main__.py b/durus/__main__.py
index 509b16d..0122161 100644
--- a/durus/__main__.py
+++ b/durus/__main__.py
@@ -62,7 +62,8 @@ def interactive_client(file, address, cache_size, readonly, repair,
         vars(console_module), os.path.expanduser("~/.durushistory"))
     console = InteractiveConsole(vars(console_module))
     if startup:
-        console.runsource('execfile("%s")' % os.path.expanduser(startup))
+        console.runsource(
+            'exec(open(%r).read())' % os.path.expanduser(startup))
     help = ('    connection -> the Connection\n'
             '    root       -> the root instance')
     console.interact('Durus %s\n%s' % (description, help))
-- 
2.43.0


From 7f2847600c08a6960d48d25fc4c7e3902848c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 40/43] fix: a Unix domain socket that cannot be bound leaves
 the umask changed

---
 durus/storage_server.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 2edd316..245f7f0 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -175,8 +175,16 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
         return result
 
     def bind_socket(self, s):
-        if self.umask is not None:
+        if self.umask is None:
+            self._bind_socket(s)
+        else:
             old_umask = umask(self.umask)
+            try:
+                self._bind_socket(s)
+            finally:
+                umask(old_umask)
+
+    def _bind_socket(self, s):
         try:
             s.bind(self.filename)
         except socket.error:
@@ -209,8 +217,6 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 gid = getgrnam(self.group).gr_gid
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From c91f6afbcc6078ba98b46293c9970ee1e6159bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 41/43] fix: the address of a socket owned by an unknown user
 cannot be shown

---
 durus/storage_server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 245f7f0..cde80de 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -164,8 +164,14 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
             uid = filestat.st_uid
             gid = filestat.st_gid
             rwx = ['---', '--x', '-w-', '-wx', 'r--', 'r-x', 'rw-', 'rwx']
-            owner = getpwuid(uid).pw_name
-            group = getgrgid(gid).gr_name
+            try:
+                owner = getpwuid(uid).pw_name
+            except KeyError:
+                owner = str(uid)
+            try:
+                group = getgrgid(gid).gr_name
+            except KeyError:
+                group = str(gid)
             result += ' (%s%s%s %s %s)' % (
                rwx[filestat.st_mode >> 6 & 7],
                rwx[filestat.st_mode >> 3 & 7],
-- 
2.43.0


From c2cf01ec41a0befe9556cd49d2cb970f0033783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 42/43] fix: the address of an inherited abstract socket cannot
 be shown

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index cde80de..e1091ff 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -235,9 +235,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes):
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(as_bytes('\0'), as_bytes('@'))
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From 3e98c7ead59bd8c4ea753c9f00e7f1e2dc014186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:36 +0000
Subject: [PATCH 43/43] fix: a failed open of a FileStorage or FileStorage2
 does not keep the lock

The traceback of the failure refers to the file, so that FileStorage(name,
repair=True) inside of the except block failed with BlockingIOError.
---
 durus/file_storage2.py | 10 ++++++++++
 durus/shelf.py         | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 36b279a..d442906 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -86,6 +86,16 @@ class FileStorage2(Storage):
             assert not repair
         elif not hasattr(file, 'seek'):
             file = File(file, readonly=readonly)
+            try:
+                self._open(file, repair, readonly)
+            except:
+                # Do not keep the lock for as long as the traceback exists.
+                file.close()
+                raise
+            return
+        self._open(file, repair, readonly)
+
+    def _open(self, file, repair, readonly):
         if not readonly:
             file.obtain_lock()
         self.fp = file
diff --git a/durus/shelf.py b/durus/shelf.py
index 856cb4d..5f70dc3 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -71,6 +71,16 @@ class Shelf (object):
             assert not repair
         elif not hasattr(file, 'seek'):
             file = File(file, readonly=readonly)
+            try:
+                self._open(file, items, repair, readonly)
+            except:
+                # Do not keep the lock for as long as the traceback exists.
+                file.close()
+                raise
+            return
+        self._open(file, items, repair, readonly)
+
+    def _open(self, file, items, repair, readonly):
         if not readonly:
             file.obtain_lock()
         file.seek(0, 2) # seek end
-- 
2.43.0

