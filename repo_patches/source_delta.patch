From ed94e74e34ca03e5fa45d4d5e1282de9910ad93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 01/43] fix: removexattr() must not drop a name reference it
 does not own

Removing an attribute that the inode does not have decreased the reference
count of the name (or deleted it) if the name was in use elsewhere, e.g. by
a directory entry.
---
 src/s3ql/fs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..a7ac2b5 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -363,16 +363,16 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
+        # Must not touch the name (and its refcount) unless this inode actually has the attribute.
         try:
-            name_id = self._del_name(name)
+            name_id = self.db.get_int_val(
+                'SELECT name_id FROM ext_attributes_v WHERE inode=? AND name=?', (id_, name)
+            )
         except NoSuchRowError:
             raise FUSEError(pyfuse3.ENOATTR)
 
-        changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
-        )
-        if changes == 0:
-            raise FUSEError(pyfuse3.ENOATTR)
+        self.db.execute('DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id))
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 62543dedab5fd18b8cd11213f6d43db3f1e6b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 02/43] fix: setxattr() must not leak a name reference when
 replacing a value

Every replacement of an existing extended attribute increased the reference
count of the attribute name, so that the name was never removed and fsck
reported a wrong refcount.
---
 src/s3ql/fs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index a7ac2b5..afa7f4e 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,9 +351,16 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
+            # Replacing the value must not count the name a second time.
+            try:
+                name_id = self.db.get_int_val(
+                    'SELECT name_id FROM ext_attributes_v WHERE inode=? AND name=?', (id_, name)
+                )
+            except NoSuchRowError:
+                name_id = self._add_name(name)
             self.db.execute(
                 'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+                (id_, name_id, value),
             )
             self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 49889db66a54f21fbfe3ca6c85cf2167495a38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 03/43] fix: unlink/rmdir/rename/remove_tree must not leak a
 kernel lookup reference when failing

---
 src/s3ql/fs.py | 65 ++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index afa7f4e..bc904f9 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -503,9 +503,10 @@ class Operations(pyfuse3.Operations):
             # window in which the file could be looked up again and would also impose a performance
             # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
-        await self._remove(id_p0, name0, id0, force=True)
-
-        await self.forget([(id0, 1)])
+        try:
+            await self._remove(id_p0, name0, id0, force=True)
+        finally:
+            await self.forget([(id0, 1)])
         log.debug('finished')
 
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
@@ -650,13 +651,16 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        # Drop the reference acquired by _lookup() in any case
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -664,16 +668,19 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        # Drop the reference acquired by _lookup() in any case
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -792,23 +799,23 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode_old = self._lookup(id_p_old, name_old, ctx)
+        id_old = inode_old.id
+        lookups = [(id_old, 1)]
 
+        # Drop the references acquired by _lookup() in any case
         try:
-            inode_new = self._lookup(id_p_new, name_new, ctx)
-        except FUSEError as exc:
-            if exc.errno != errno.ENOENT:
-                raise
+            try:
+                inode_new = self._lookup(id_p_new, name_new, ctx)
+            except FUSEError as exc:
+                if exc.errno != errno.ENOENT:
+                    raise
+                self._rename(id_p_old, name_old, id_p_new, name_new)
             else:
-                target_exists = False
-        else:
-            target_exists = True
-
-        if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
-        else:
-            self._rename(id_p_old, name_old, id_p_new, name_new)
-            await self.forget([(inode_old.id, 1)])
+                id_new = inode_new.id
+                lookups.append((id_new, 1))
+                await self._replace(id_p_old, name_old, id_p_new, name_new, id_old, id_new)
+        finally:
+            await self.forget(lookups)
 
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
-- 
2.43.0


From 3e9ffb5381159c47400d3b88cf4442ddf5d4d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 04/43] fix: do not leave blocks behind when removing or
 truncating very large files

---
 src/s3ql/fs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index bc904f9..e4a6a51 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -11,7 +11,6 @@ from __future__ import annotations
 import collections
 import errno
 import logging
-import math
 import os
 import stat
 import struct
@@ -689,7 +688,8 @@ class Operations(pyfuse3.Operations):
         and the inode itself from the database and inode cache.
         '''
         log.debug('purging inode %d', id_)
-        await self.cache.remove(id_, 0, int(math.ceil(size / self.max_obj_size)))
+        # Integer arithmetic, float division is inexact for sizes above 2**53
+        await self.cache.remove(id_, 0, -(-size // self.max_obj_size))
         # Since the inode is not open, it's not possible that new blocks
         # get created at this point and we can safely delete the inode
         self.db.execute(
@@ -996,7 +996,7 @@ class Operations(pyfuse3.Operations):
             # Determine blocks to delete
             last_block = len_ // self.max_obj_size
             cutoff = len_ % self.max_obj_size
-            total_blocks = int(math.ceil(inode.size / self.max_obj_size))
+            total_blocks = -(-inode.size // self.max_obj_size)
 
             # Adjust file size
             inode.size = len_
-- 
2.43.0


From dea26d69064091d92c5b7dafd29423e6c3395732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 05/43] fix: rename() must not move an entry into an unlinked
 directory

---
 src/s3ql/fs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index e4a6a51..2c760d5 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -798,6 +798,12 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning(
+                'Attempted to create entry %s with unlinked parent %d', name_new, id_p_new
+            )
+            raise FUSEError(errno.EINVAL)
+
         inode_old = self._lookup(id_p_old, name_old, ctx)
         id_old = inode_old.id
         lookups = [(id_old, 1)]
-- 
2.43.0


From accd8d9f3b7b9232beb8d1e0425127cf30b91406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 06/43] fix: fail cleanly when asked to remove the control file

---
 src/s3ql/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 2c760d5..6bc8bea 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -715,6 +715,10 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %r', id_p, name)
 
+        if name == CTRL_NAME:
+            log.warning('Attempted to remove s3ql control file')
+            raise FUSEError(errno.EACCES)
+
         now_ns = time_ns()
 
         # Check that there are no child entries
-- 
2.43.0


From 4f5da077a146e3ccc273207ee9bfbebccdd98302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 07/43] fix: report malformed literals as ValueError or
 ThawError instead of crashing

---
 src/s3ql/common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..ca36147 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -281,6 +281,10 @@ def _get_actual_type(type_spec: type | NewType) -> type:
         return t
 
 
+# Exceptions that literal_eval() may raise on malformed input
+_LITERAL_ERRORS = (ValueError, SyntaxError, TypeError, MemoryError, RecursionError)
+
+
 def parse_literal(buf: bytes, type_spec: type[T] | NewType[T]) -> T:
     '''Try to parse *buf* as *type_spec*
 
@@ -292,7 +296,7 @@ def parse_literal(buf: bytes, type_spec: type[T] | NewType[T]) -> T:
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except _LITERAL_ERRORS:
         raise ValueError('unable to parse as python literal')
 
     if type(obj) is _get_actual_type(type_spec):
@@ -314,7 +318,7 @@ def parse_literal_tuple(
         obj = literal_eval(buf.decode())
     except UnicodeDecodeError:
         raise ValueError('unable to decode as utf-8')
-    except (ValueError, SyntaxError):
+    except _LITERAL_ERRORS:
         raise ValueError('unable to parse as python literal')
 
     actual_types = [_get_actual_type(t) for t in type_spec]
@@ -341,7 +345,9 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except _LITERAL_ERRORS:
+        raise ThawError()
+    if not isinstance(d, dict):
         raise ThawError()
 
     # Decode bytes values
-- 
2.43.0


From 896210de7060f0a27d95359118d9786184b4f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 08/43] fix: lock and rmtree commands must not crash on a
 missing inode

---
 src/s3ql/fs.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 6bc8bea..e87bfa3 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -390,7 +390,11 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d', id0)
         queue = [(id0, -1)]
-        self.inodes[id0].locked = True
+        # The inode comes from setxattr, so it may have been deleted already
+        try:
+            self.inodes[id0].locked = True
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
         conn = self.db
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -437,7 +441,12 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %s', id_p0, name0)
 
-        if self.inodes[id_p0].locked:
+        # The inode comes from setxattr, so it may have been deleted already
+        try:
+            inode_p0 = self.inodes[id_p0]
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
+        if inode_p0.locked:
             raise FUSEError(errno.EPERM)
 
         conn = self.db
-- 
2.43.0


From aaec24e4b5b65a5cb56e0fbb07337c902b5df35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 09/43] fix: do not copy a tree into an immutable directory

---
 src/s3ql/fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index e87bfa3..c7d3339 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -537,6 +537,8 @@ class Operations(pyfuse3.Operations):
             target_inode = self.inodes[target_id]
         except KeyError:
             raise FUSEError(errno.ENOENT)
+        if target_inode.locked:
+            raise FUSEError(errno.EPERM)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
 
-- 
2.43.0


From 905487acbc9d20728803a29207d1371ea67a4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 10/43] fix: truncating a file whose block is lost must give
 EIO instead of crashing

---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c7d3339..d180b26 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1034,7 +1034,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From 997b130e41028d11ff41df811efe4d45ab49f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 11/43] fix: copy_tree must not miss unwritten blocks of files
 the kernel has forgotten

---
 src/s3ql/fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index d180b26..554d5a8 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -525,6 +525,10 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %d', src_id, target_id)
 
+        # Make sure that all blocks are in the database. This cannot be restricted to open inodes,
+        # because the kernel may have forgotten an inode that still has dirty blocks.
+        await self.cache.start_flush()
+
         # To avoid lookups and make code tidier
         make_inode = self.inodes.create_inode
         db = self.db
@@ -569,7 +573,7 @@ class Operations(pyfuse3.Operations):
                     for row in res:
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
-                        # Make sure that all blocks are in the database
+                        # Open inodes may have been modified in the meantime
                         if id_ in self.open_inodes:
                             await self.cache.start_flush(id_)
 
-- 
2.43.0


From 6da76a0dee92da74e64aa285fe368e437de3a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 12/43] fix: start_flush must not return before pending blocks
 are registered

---
 src/s3ql/block_cache.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..a8eaa68 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -448,19 +448,20 @@ class BlockCache:
                 return False
 
             log.debug('uploading %s..', el)
-            self._mark_in_transit(el)
-            set_in_transit = True
             el.seek(0)
             sha = await trio.to_thread.run_sync(sha256_fh, el)
             hash_ = sha.digest()
         except:
-            if set_in_transit:
-                self._unmark_in_transit(el)
             await self.block_lock.release(el.key)
             raise
 
         upload_registered = False
         try:
+            # From here to registration in the database there must be no checkpoint, so that
+            # everyone who sees the in-transit flag will also find the block in the database.
+            self._mark_in_transit(el)
+            set_in_transit = True
+
             try:
                 old_obj_id: int | None = self.db.get_int_val(
                     'SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?',
-- 
2.43.0


From 14e621b9bb6869b87bebe35a631b036b23d277f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 13/43] fix: release block locks even when the holder has been
 cancelled

---
 src/s3ql/multi_lock.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..fb985a1 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,11 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # The lock has to be released even if the calling task has been cancelled
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From b3613afe2dac22424270c79c19ce978f97d07011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 14/43] fix: thaw_basic_mapping must refuse keys and values
 that freeze_basic_mapping refuses

---
 src/s3ql/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index ca36147..0376eb5 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -352,6 +352,10 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     # Decode bytes values
     for k, v in d.items():
+        if not isinstance(k, str):
+            raise ThawError()
+        if not isinstance(v, (str, bytes, int, float, complex, bool)) and v is not None:
+            raise ThawError()
         if not isinstance(v, bytes):
             continue
         try:
-- 
2.43.0


From 8a3c0ef64abfa4cb5318912fe19081cc6cba8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 15/43] fix: checksum_basic_mapping must not confuse mappings
 with strings containing NUL

---
 src/s3ql/backends/common.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/common.py b/src/s3ql/backends/common.py
index 0923d76..d83aa2a 100644
--- a/src/s3ql/backends/common.py
+++ b/src/s3ql/backends/common.py
@@ -609,10 +609,18 @@ def checksum_basic_mapping(metadata: BasicMappingT, key: bytes | None = None) ->
         assert isinstance(mkey, str)
         if mkey == 'signature':
             continue
-        chk.update(mkey.encode('utf-8'))
+        # Strings containing NUL cannot be NUL-terminated, these are preceded by their length instead
+        kbuf = mkey.encode('utf-8')
+        if b'\0' in kbuf:
+            chk.update(b'\0K' + struct.pack('<Q', len(kbuf)))
+        chk.update(kbuf)
         val = metadata[mkey]
         if isinstance(val, str):
-            val = b'\0s' + val.encode('utf-8') + b'\0'
+            val = val.encode('utf-8')
+            if b'\0' in val:
+                val = b'\0S' + struct.pack('<Q', len(val)) + val
+            else:
+                val = b'\0s' + val + b'\0'
         elif val is None:
             val = b'\0n'
         elif isinstance(val, bool):
-- 
2.43.0


From 6add96e26380a8f387add9e4daac66a099ab0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 16/43] fix: remove a left-over write-ahead log before
 downloading metadata

After a crash, the cache directory may contain the write-ahead log of the
crashed session. When newer metadata is downloaded later, SQLite replays
that log into the new database file, silently undoing the changes made on
the other machine.
---
 src/s3ql/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..30f7432 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -928,6 +928,12 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # A write-ahead log left behind by an earlier session (e.g. after a crash) would be replayed
+        # into the downloaded database as soon as it is opened.
+        for suffix in ('-wal', '-shm'):
+            with contextlib.suppress(FileNotFoundError):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From 4474f88eb7f3f4973ad0f27fb10bdd8665a11a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 17/43] fix: notice outdated remote metadata in fsck.s3ql

The comparison of local and remote sequence numbers came after the remote
parameters had already been replaced by the local ones, so it never was
true: if the storage had fallen behind the local metadata, mount.s3ql asked
for fsck.s3ql to be run, but fsck.s3ql considered the file system clean and
(with --force) uploaded only the metadata blocks that changed since.
---
 src/s3ql/fsck.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..6e4dbe4 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1317,14 +1317,14 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        if local_param.seq_no > param.seq_no:
+            log.info('Remote metadata is outdated.')
+            local_param.needs_fsck = True
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
-            log.info('Remote metadata is outdated.')
-            param.needs_fsck = True
 
     if param.is_mounted and local_param is not param:
         print(
-- 
2.43.0


From e2106cda2ba9c9c04dcbacd09bdccacb340ca38d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 18/43] fix: local backend: list all keys for prefixes longer
 than three characters

The names of the directories below s3ql_data_ repeat the names of their parents, but
list() joined the names of all directories on the way. For any prefix that is not
resolved by the starting directory alone, this excluded matching directories, so that
e.g. listing s3ql_data_1234 did not return s3ql_data_1234567.
---
 src/s3ql/backends/local.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..38fca40 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -228,13 +228,14 @@ class AsyncBackend(AsyncBackendBase):
         for path, dirnames, filenames in os.walk(base, topdown=True):
             # Do not look in wrong directories
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                # Directory names repeat the names of their parents (except for the topmost
+                # one), and are always at least as long as the part of the (escaped) prefix
+                # that has not been used to determine *base*.
+                parent = '' if path == self.prefix else 's3ql_data_'
 
                 dirs_to_walk = list()
                 for name in dirnames:
-                    prefix_ll = unescape(prefix_l + name)
-                    if prefix_ll.startswith(prefix[: len(prefix_ll)]):
+                    if (parent + name).startswith(escape(prefix)):
                         dirs_to_walk.append(name)
                 dirnames[:] = dirs_to_walk
 
-- 
2.43.0


From 3038067562ac5e9b026e90fb260459cbd3e9f3c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 19/43] fix: local backend: do not store truncated objects when
 the disk is full

Unbuffered files may write less than they are given without raising an error (e.g. if
there is not enough space left), and the number of bytes written was ignored. If this
happened for the last block, the truncated object was renamed into place and the
operation reported as successful.
---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 38fca40..47ce97b 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -174,14 +174,14 @@ class AsyncBackend(AsyncBackendBase):
             fh.seek(0)
             with ExitStack() as es:
                 try:
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
                 except FileNotFoundError:
                     try:  # noqa: SIM105 # auto-added, needs manual check!
                         os.makedirs(os.path.dirname(path))
                     except FileExistsError:
                         # Another thread may have created the directory already
                         pass
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
 
                 dest.write(b's3ql_1\n')
                 dest.write(struct.pack('<H', len(buf)))
-- 
2.43.0


From 0ebb6bca34f1cfef15306d9195ec0167dcad2928 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 20/43] fix: local backend: raise NoSuchObject when getting the
 size of a missing object

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 47ce97b..52e13db 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -116,7 +116,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From fd420d42172f2135389d55fdfc8905b77245f297 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 21/43] fix: local backend: use different temporary files for
 concurrent stores

All tasks of a Trio event loop run in the same thread, so concurrent stores of the same
key wrote into the same temporary file.
---
 src/s3ql/backends/local.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 52e13db..63af62b 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
@@ -34,6 +35,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# Distinguishes temporary files of stores that run concurrently in the same thread
+_tmp_counter = itertools.count()
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -172,7 +176,12 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d-%d.tmp' % (
+                path,
+                os.getpid(),
+                _thread.get_ident(),
+                next(_tmp_counter),
+            )
 
             fh.seek(0)
             with ExitStack() as es:
-- 
2.43.0


From f4c5aca224d7bcd5d972f5ce79f1d3b30708724f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 22/43] fix: local backend: do not return incomplete listings

os.walk() ignores errors by default, so objects in directories that could not be read
were silently missing from the listing (and thus considered lost by e.g. fsck.s3ql).
---
 src/s3ql/backends/local.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 63af62b..0fb5fa3 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -237,7 +237,7 @@ class AsyncBackend(AsyncBackendBase):
         else:
             base = self.prefix
 
-        for path, dirnames, filenames in os.walk(base, topdown=True):
+        for path, dirnames, filenames in os.walk(base, topdown=True, onerror=_walk_error):
             # Do not look in wrong directories
             if prefix:
                 # Directory names repeat the names of their parents (except for the topmost
@@ -281,6 +281,14 @@ class AsyncBackend(AsyncBackendBase):
         return os.path.join(*path)
 
 
+def _walk_error(exc: OSError) -> None:
+    '''Do not treat directories that cannot be read as empty'''
+
+    # Directories are created on demand
+    if not isinstance(exc, FileNotFoundError):
+        raise exc
+
+
 def _read_meta(fh: BinaryInput) -> BasicMappingT:
     buf = fh.read(9)
     if not buf.startswith(b's3ql_1\n'):
-- 
2.43.0


From 050165ed285d0d7e50d1d20ea24163bef94539e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 23/43] fix: local backend: escape the keys . and ..

The path of these keys was the storage directory and its parent, so they were reported as
existing.
---
 src/s3ql/backends/local.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 0fb5fa3..b9d9890 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -302,20 +302,23 @@ def _read_meta(fh: BinaryInput) -> BasicMappingT:
 
 
 def escape(s: str) -> str:
-    '''Escape '/', '=' and '.' in s'''
+    '''Escape '/', '=' and '#' in s, as well as '.' if s is the name of a directory'''
 
     s = s.replace('=', '=3D')
     s = s.replace('/', '=2F')
     s = s.replace('#', '=23')
+    if s in ('.', '..'):
+        s = s.replace('.', '=2E')
 
     return s
 
 
 def unescape(s: str) -> str:
-    '''Un-Escape '/', '=' and '.' in s'''
+    '''Undo escape()'''
 
     s = s.replace('=2F', '/')
     s = s.replace('=23', '#')
+    s = s.replace('=2E', '.')
     s = s.replace('=3D', '=')
 
     return s
-- 
2.43.0


From 482531dd7e47659bedcaaf5deb6e61b93ce9df4c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 24/43] fix: report data after the end of bzip2 and LZMA
 streams as corruption

Data following the end of a compressed stream in a later chunk made the
decompressors raise EOFError instead of CorruptedObjectError.
---
 src/s3ql/backends/comprenc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..21d5328 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -626,6 +626,9 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
 
     try:
         return decomp.decompress(buf)
+    except EOFError:
+        # bz2 and lzma refuse any input after the end of the stream
+        raise CorruptedObjectError('Data after end of compressed stream')
     except OSError as exc:
         if exc.args[0].lower().startswith('invalid data stream'):
             raise CorruptedObjectError('Invalid compressed stream')
-- 
2.43.0


From 6a5aa5025fb4a8f870d113a6a98dc9d8acc237b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 25/43] fix: report all malformed zlib and LZMA streams as
 corruption

A zlib stream that asks for a preset dictionary, and an LZMA stream with
unsupported filter options, raised zlib.error or LZMAError.
---
 src/s3ql/backends/comprenc.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 21d5328..57ca2ba 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -634,13 +634,21 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
             raise CorruptedObjectError('Invalid compressed stream')
         raise
     except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
+        if exc.args[0].startswith(
+            (
+                'Corrupt input data',
+                'Input format not supported',
+                'Invalid or unsupported options',
+                'Unsupported integrity check',
+            )
         ):
             raise CorruptedObjectError('Invalid compressed stream')
         raise
     except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
+        # -3: invalid data, 2: the stream asks for a dictionary (which S3QL never uses)
+        if exc.args[0].lower().startswith(
+            ('error -3 while decompressing', 'error 2 while decompressing')
+        ):
             raise CorruptedObjectError('Invalid compressed stream')
         raise
 
-- 
2.43.0


From 1f99e7c6521e1d73d190fe6764a3a2e220040135 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 26/43] fix: support compression level 0 for bzip2

bzip2-0 is an accepted compression setting, but made every upload fail
with ValueError.
---
 src/s3ql/backends/comprenc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 57ca2ba..96d619f 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -466,7 +466,8 @@ class AsyncComprencBackend(AsyncBackend):
             if algorithm is CompressAlgorithm.ZLIB:
                 compr: CompressorProtocol = zlib.compressobj(level)
             elif algorithm is CompressAlgorithm.BZIP2:
-                compr = bz2.BZ2Compressor(level)
+                # bzip2 has no level 0
+                compr = bz2.BZ2Compressor(max(level, 1))
             elif algorithm is CompressAlgorithm.LZMA:
                 compr = lzma.LZMACompressor(preset=level)
             buf = io.BytesIO()
-- 
2.43.0


From a25ac66d1775a5291aacf8f3f08d9635518a9768 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 27/43] fix: report unauthenticated metadata that cannot be
 checksummed as corruption

Metadata with complex numbers or lone surrogates raised ValueError
instead of CorruptedObjectError.
---
 src/s3ql/backends/comprenc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 96d619f..4cf3b52 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -253,7 +253,11 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('signature should be bytes')
         assert self.passphrase is not None
         meta_key = sha256(self.passphrase + nonce + b'meta')
-        meta_sig = checksum_basic_mapping(metadata, meta_key)
+        try:
+            meta_sig = checksum_basic_mapping(metadata, meta_key)
+        except ValueError:
+            # complex numbers and lone surrogates
+            raise CorruptedObjectError('Invalid metadata')
         if not hmac.compare_digest(signature, meta_sig):
             raise CorruptedObjectError('HMAC mismatch')
 
-- 
2.43.0


From 259bec1a5677d65370ee9c5e6abf16678bedbc55 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 28/43] fix: write all data to the cache file when the
 operating system cuts a write short

CacheEntry writes to an unbuffered file, whose write() may store only part of
the data. The rest was silently lost, and position and size were recorded as if
it had been written.
---
 src/s3ql/block_cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index a8eaa68..48c7ccf 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -118,9 +118,12 @@ class CacheEntry:
 
     def write(self, buf: bytes) -> None:
         self.dirty = True
-        self.fh.write(buf)
-        self.pos += len(buf)
-        self.size = max(self.pos, self.size)
+        # The file is not buffered, so each call may write only part of the data.
+        while len(buf) > 0:
+            written = self.fh.write(buf)
+            self.pos += written
+            self.size = max(self.pos, self.size)
+            buf = buf[written:]
         self.last_write = time.time()
 
     def close(self) -> None:
-- 
2.43.0


From 83c0ba9bc3bf9c99dcff3d95b05f97db3e6a264b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 29/43] fix: mark object as failed when its upload cannot be
 started

When handing a block to the upload workers fails or is cancelled, the object
kept its hash. Blocks with the same contents (including the block itself) were
then linked to an object that does not exist, and fsck.s3ql considered the block
clean and removed the only copy. The reference to the previous object was not
released either.
---
 src/s3ql/block_cache.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 48c7ccf..94ae35e 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -523,11 +523,15 @@ class BlockCache:
         except:
             if set_in_transit:
                 self._unmark_in_transit(el)
-            await self.block_lock.release(el.key, noerror=True)
             if upload_registered:
-                # Not clear what we should do here.. someone might be waiting on this,
-                # but setting it would have the wrong semantics.
-                self.in_flight_uploads.pop(obj_id, None)
+                # No worker has taken over the object, so it will never be uploaded. As for a failed
+                # upload, clear its hash so that nothing (else) gets linked to it.
+                self.db.execute('UPDATE objects SET hash=NULL WHERE id=?', (obj_id,))
+                self.in_flight_uploads.pop(obj_id).set()
+            await self.block_lock.release(el.key, noerror=True)
+            if upload_registered and old_obj_id:
+                # The block already refers to the new object
+                await self._deref_obj(old_obj_id)
             raise
 
         if old_obj_id:
-- 
2.43.0


From df98780229c2da3602b96f18b709f3cdfc5c0b58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 30/43] fix: do not change the configured number of cache
 entries when dropping the cache

If dropping the cache failed or was cancelled, or if two requests dropped the
cache at the same time, the limit stayed at zero.
---
 src/s3ql/block_cache.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 94ae35e..5011888 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -747,8 +747,11 @@ class BlockCache:
 
         return el
 
-    async def evict(self) -> None:
-        """Evict cache entries until size and entry count are within limits."""
+    async def evict(self, max_entries: int | None = None) -> None:
+        """Evict cache entries until size and entry count are within limits.
+
+        If *max_entries* is not None, it is used in place of the configured limit.
+        """
 
         # Note that we have to make sure that the cache entry is written into
         # the database before we remove it from the cache!
@@ -757,7 +760,9 @@ class BlockCache:
 
         while True:
             need_size = self.cache.size - self.cache.max_size
-            need_entries = len(self.cache) - self.cache.max_entries
+            need_entries = len(self.cache) - (
+                self.cache.max_entries if max_entries is None else max_entries
+            )
             if need_size <= 0 and need_entries <= 0:
                 break
 
@@ -895,10 +900,7 @@ class BlockCache:
         """Drop cache."""
 
         log.debug('started')
-        bak = self.cache.max_entries
-        self.cache.max_entries = 0
-        await self.evict()
-        self.cache.max_entries = bak
+        await self.evict(max_entries=0)
         log.debug('finished')
 
     def get_usage(self) -> tuple[int, int, int, int, int]:
-- 
2.43.0


From 8e20007e61f81ad5066839a8bf7b1acf2bb8cc86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 31/43] fix: fsck.s3ql: do not discard cached blocks whose
 upload did not complete

When the file system crashed during an upload, the database already had the
checksum of the block. The cached block was therefore considered clean and
removed, and the block was lost because the object did not exist.
---
 src/s3ql/fsck.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 6e4dbe4..c0fe341 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,11 +281,13 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif hash_should == hash_is and phys_size == -1:
+                    log.debug('Upload of object %d did not complete, uploading again', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -295,8 +297,8 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
@@ -304,14 +306,17 @@ class Fsck:
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
+                phys_size = -1
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
+            # New object, or existing object whose upload did not complete
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
-- 
2.43.0


From 1099db2f95ca2e5dc1d218fd92291668ff36cabb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 32/43] fix: write tracking: do not report the first block
 behind the new end of a truncated file

vfstraceTruncate() kept the block with number size / blocksize in the set of
modified blocks even if size is a multiple of the block size, i.e. if the block
lies completely behind the new end of the file.
---
 src/s3ql/_sqlite3ext.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/_sqlite3ext.cpp b/src/s3ql/_sqlite3ext.cpp
index af29603..b490c08 100644
--- a/src/s3ql/_sqlite3ext.cpp
+++ b/src/s3ql/_sqlite3ext.cpp
@@ -182,10 +182,14 @@ static int vfstraceTruncate(sqlite3_file* pFile, sqlite_int64 size) {
         return rc;
     }
     auto it = p->block_map->begin();
+    // First block that lies completely beyond the new end of the file
     auto blockno = size / blocksize;
+    if (size % blocksize != 0) {
+        blockno++;
+    }
     int dropped = 0;
     while (it != p->block_map->end()) {
-        if (*it <= blockno) {
+        if (*it < blockno) {
             it++;
             continue;
         }
-- 
2.43.0


From 448f7d111f73afc804632c54c7e619ab813aa625 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 33/43] fix: fsck: do not reuse the id of a lost name

When the names row with the highest id was missing, the next name added by fsck was given its id. All entries that referred to the
lost name then silently got the new one (with a reference count of one), fsck.s3ql could fail with a constraint violation, and the
search for a free extended attribute name did not terminate.
---
 src/s3ql/fsck.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c0fe341..fa4c6ff 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1235,7 +1235,16 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # If the name with the highest id was lost, its id must not be given to a different name
+            # as long as there are entries that refer to it.
+            new_id = self.conn.get_int_val(
+                'SELECT 1 + MAX(COALESCE((SELECT MAX(id) FROM names), 0), '
+                'COALESCE((SELECT MAX(name_id) FROM contents), 0), '
+                'COALESCE((SELECT MAX(name_id) FROM ext_attributes), 0))'
+            )
+            name_id = self.conn.rowid(
+                'INSERT INTO names (id, name, refcount) VALUES(?,?,?)', (new_id, name, 1)
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From b9509bd21e586777281be85cf0e4fd8901b0d1f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 34/43] fix: fsck: recover from a missing lost+found inode

check_lof() failed with NoSuchRowError when the lost+found entry referred to an inode that does not exist.
---
 src/s3ql/fsck.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index fa4c6ff..42a8798 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -385,13 +385,20 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
-        if not stat.S_ISDIR(mode):
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = None
+        if mode is None or not stat.S_ISDIR(mode):
             self.found_errors = True
-            self.log_error(
-                '/lost+found is not a directory! Old entry will be saved as /lost+found/inode-%s*',
-                inode_l,
-            )
+            if mode is None:
+                self.log_error('Inode for /lost+found vanished, creating new directory')
+            else:
+                self.log_error(
+                    '/lost+found is not a directory! Old entry will be saved as '
+                    '/lost+found/inode-%s*',
+                    inode_l,
+                )
             # We leave the old inode unassociated, so that it will be added
             # to lost+found later on.
             inode_l = self.create_inode(
-- 
2.43.0


From 24ece7ae6a9c58d8d5cf926a9d1c1b67415e096d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 35/43] fix: fsck: store names of recovered extended attributes
 as bytes

They were stored as text, so that they could neither be listed nor be accessed by name.
---
 src/s3ql/fsck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 42a8798..dc81726 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -526,7 +526,7 @@ class Fsck:
                 )
 
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % rowid)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -1233,7 +1233,7 @@ class Fsck:
 
         return (inode_p, newname)
 
-    def _add_name(self, name: bytes | str) -> int:
+    def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
         Name is inserted in table if it does not yet exist.
-- 
2.43.0


From 7dc0dcf280912d8ffc8d597f8c2c9958b65018a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 36/43] fix: fsck: check directory trees of any depth

Directories nested more than about 1000 levels deep made check_loops() fail with a RecursionError.
---
 src/s3ql/fsck.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index dc81726..c4440fb 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -581,11 +581,17 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            # Not recursive, because directories may be nested deeper than the Python stack allows
+            todo = [inode_p]
+            while todo:
+                inode_p = todo.pop()
+                todo.extend(
+                    inode
+                    for (inode,) in self.conn.query_typed(
+                        (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
+                    )
+                )
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
 
         root: InodeT = ROOT_INODE
         while True:
-- 
2.43.0


From 8fdb7bd3a1ebe3d4e47f19036dff69ca1365b8ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 37/43] fix: fsck: remove objects whose last reference was
 removed

Mappings of blocks to vanished inodes were removed only after the reference counts of objects had been checked, so that objects without
any remaining references were left behind in the database and in the backend.
---
 src/s3ql/fsck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c4440fb..21548e8 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -154,13 +154,14 @@ class Fsck:
 
             self.check_objects_temp()
             self.check_objects_hash()
+            # Needs to come first because it may leave objects without any references
+            self.check_inode_blocks_inode()
             await self.check_objects_refcount()
             await self.check_objects_id()
             await self.check_objects_phys_size()
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 5db8df65c16d34fc755dbbf1ddd32d84028e317b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 38/43] fix: fsck: do not fail when the path of an inode cannot
 be determined

The checks that run before unreachable directories have been re-anchored raised NoSuchRowError or RuntimeError when they had to report a
problem in a directory that is not connected to the root (or nested very deeply).
---
 src/s3ql/fsck.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 21548e8..b545919 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -187,6 +187,18 @@ class Fsck:
         else:
             log.warning(msg, *args, **kwargs)
 
+    def _get_path(self, id_: InodeT, name: bytes | None = None) -> bytes:
+        '''Return path of inode *id_* (followed by *name*), as far as it can be determined
+
+        Unlike `get_path`, this also works for inodes that cannot be reached from the root.
+        '''
+
+        try:
+            return get_path(id_, self.conn, name)
+        except (NoSuchRowError, RuntimeError):
+            path = b'/[inode %d]' % id_
+            return path if name is None else path + b'/' + name
+
     def check_foreign_keys(self) -> None:
         '''Check for referential integrity
 
@@ -428,7 +440,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 newname = ('-%d' % inode).encode()
             else:
                 newname = escape(path) + ('-%d' % inode).encode()
@@ -490,7 +502,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 path = '[inode %d, parent %d]' % (inode, inode_p)
 
             self.log_error(
@@ -518,7 +530,7 @@ class Fsck:
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
-                path = get_path(id_p, self.conn, name)
+                path = self._get_path(id_p, name)
                 self.log_error(
                     'Extended attribute %d of %s refers to non-existing name %d, renaming..',
                     rowid,
@@ -670,7 +682,7 @@ class Fsck:
                     "Size of inode %d (%s) does not agree with number of blocks, "
                     "setting from %d to %d",
                     id_,
-                    to_str(get_path(cast(InodeT, id_), self.conn)),
+                    to_str(self._get_path(cast(InodeT, id_))),
                     size_old,
                     size,
                 )
@@ -727,7 +739,7 @@ class Fsck:
                     self.log_error(
                         "Inode %d (%s) has wrong reference count, setting from %d to %d",
                         id_,
-                        to_str(get_path(cast(InodeT, id_), self.conn)),
+                        to_str(self._get_path(cast(InodeT, id_))),
                         cnt_old,
                         cnt,
                     )
@@ -790,7 +802,7 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
-                path = get_path(cast(InodeT, id_p), self.conn, name)
+                path = self._get_path(cast(InodeT, id_p), name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
 
@@ -961,7 +973,7 @@ class Fsck:
                 self.log_error(
                     'Inode %d (%s): directory entry has no type, changed to %s.',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     made_to,
                 )
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (mode, inode))
@@ -972,7 +984,7 @@ class Fsck:
                     'Inode %d (%s): symlink does not have target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
@@ -981,7 +993,7 @@ class Fsck:
                     'Inode %d (%s): symlink size (%d) does not agree with target '
                     'length (%d). This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                     size,
                     len(target),
                 )
@@ -994,7 +1006,7 @@ class Fsck:
                     'Inode %d (%s) is not regular file but has non-zero size. '
                     'This is may confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if target is not None and not stat.S_ISLNK(mode):
@@ -1003,7 +1015,7 @@ class Fsck:
                     'Inode %d (%s) is not symlink but has symlink target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if rdev != 0 and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
@@ -1012,7 +1024,7 @@ class Fsck:
                     'Inode %d (%s) is not device but has device number. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if has_children and not stat.S_ISDIR(mode):
@@ -1021,7 +1033,7 @@ class Fsck:
                     'Inode %d (%s) is not a directory but has child entries. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
             if not stat.S_ISREG(mode) and self.conn.has_val(
@@ -1032,13 +1044,13 @@ class Fsck:
                     'Inode %d (%s) is not a regular file but has data blocks. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    to_str(self._get_path(inode)),
                 )
 
         for name, id_p in self.conn.query_typed(
             (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE LENGTH(name) > 255'
         ):
-            path = get_path(id_p, self.conn, name)
+            path = self._get_path(id_p, name)
             self.log_error(
                 'Entry name %s... in %s has more than 255 characters, this could cause problems',
                 to_str(name[:40]),
-- 
2.43.0


From 080d231b87f187403a6bd965eab651dba496ed9c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 39/43] fix: fsck: do not fail if there are several misplaced
 lost+found directories

check_lof() raised NoUniqueValueError when more than one directory called lost+found was its own parent.
---
 src/s3ql/fsck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b545919..9ffaf87 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -377,7 +377,8 @@ class Fsck:
                 # back to the root.
                 (inode_l, name_id) = self.conn.get_row_typed(
                     (InodeT, int),
-                    "SELECT inode, name_id FROM contents_v WHERE name=? AND parent_inode=inode",
+                    "SELECT inode, name_id FROM contents_v WHERE name=? AND parent_inode=inode "
+                    "ORDER BY inode LIMIT 1",
                     (b"lost+found",),
                 )
                 self.log_error("Moving lost+found directory to root")
-- 
2.43.0


From 861e98e8048e4d7461089d277536061bde54f492 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:10:32 +0000
Subject: [PATCH 40/43] fix: fsck: do not move lost+found into itself

---
 src/s3ql/fsck.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 9ffaf87..dbc5c1d 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -803,6 +803,9 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
+                if id_p == ROOT_INODE and name == b'lost+found':
+                    # Can't be moved into itself
+                    continue
                 path = self._get_path(cast(InodeT, id_p), name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
-- 
2.43.0


From 5956aa0ccb5415eae9df5f38b341f1760006e1c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:10:32 +0000
Subject: [PATCH 41/43] fix: fsck: re-anchor only one of several entries with
 the same name

---
 src/s3ql/fsck.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index dbc5c1d..a69339a 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -628,8 +628,11 @@ class Fsck:
                     "SELECT inode FROM loopcheck2 ORDER BY inode ASC LIMIT 1"
                 )
 
-            (name, name_id) = self.conn.get_row_typed(
-                (bytes, int), "SELECT name, name_id FROM contents_v WHERE inode=? LIMIT 1", (inode,)
+            # If there are several entries with the same name, only one of them can be moved
+            (name, name_id, old_id_p) = self.conn.get_row_typed(
+                (bytes, int, InodeT),
+                "SELECT name, name_id, parent_inode FROM contents_v WHERE inode=? LIMIT 1",
+                (inode,),
             )
             (id_p, name) = self.resolve_free(b"/lost+found", name)
 
@@ -639,8 +642,8 @@ class Fsck:
                 inode,
             )
             self.conn.execute(
-                'UPDATE contents SET parent_inode=?, name_id=? WHERE inode=? AND name_id=?',
-                (id_p, self._add_name(name), inode, name_id),
+                'UPDATE contents SET parent_inode=?, name_id=? WHERE parent_inode=? AND name_id=?',
+                (id_p, self._add_name(name), old_id_p, name_id),
             )
             self._del_name(name_id)
             self.conn.execute('UPDATE loopcheck SET parent_inode=? WHERE inode=?', (id_p, inode))
-- 
2.43.0


From 2709bfc9db26ab1d843545daa10ba837ae5ec894 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 42/43] fix: fsck: move only the lost+found entry back to the
 root

When the directory has other entries as well (under the same name or another
one), check_lof moved all of them into the root directory, which fails when
they share a name.
---
 src/s3ql/fsck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index a69339a..ff188bd 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -383,7 +383,8 @@ class Fsck:
                 )
                 self.log_error("Moving lost+found directory to root")
                 self.conn.execute(
-                    "UPDATE contents SET parent_inode = ? WHERE inode = ?", (ROOT_INODE, inode_l)
+                    "UPDATE contents SET parent_inode = ? WHERE parent_inode = ? AND name_id = ?",
+                    (ROOT_INODE, inode_l, name_id),
                 )
             except NoSuchRowError:
                 self.log_error("Recreating missing lost+found directory")
-- 
2.43.0


From 0ccc9d8287b12971604520680257152a96598a15 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:35:40 +0000
Subject: [PATCH 43/43] fix: fsck: rename the attribute that has no name, not
 another one

If the inode already has an attribute lost+found_<rowid>, the next number is
tried, but that number was used for the row to change as well.
---
 src/s3ql/fsck.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index ff188bd..bb76d99 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -540,8 +540,9 @@ class Fsck:
                     orig_name_id,
                 )
 
+            suffix = rowid
             while True:
-                new_name_id = self._add_name(b'lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % suffix)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
@@ -550,7 +551,7 @@ class Fsck:
                     )
                     break
                 self._del_name(new_name_id)
-                rowid += 1
+                suffix += 1
 
     def check_ext_attributes_inode(self) -> None:
         """Check ext_attributes.inode"""
-- 
2.43.0

