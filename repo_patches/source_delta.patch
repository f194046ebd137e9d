From ad6fb12bd7417afe20207714d583eb272f500280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 01/91] fix: Keep the file position when a seek before the
 start is rejected

---
 core/ratarmountcore/BlockParallelReaders.py | 10 +++++----
 core/ratarmountcore/StenciledFile.py        | 24 ++++++++++-----------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..1f4e9ce 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -133,16 +133,18 @@ class BlockParallelReader(io.BufferedIOBase):
 
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self._offset
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
+            newOffset = self.blockBoundaries[-1] + offset
         elif whence == io.SEEK_SET:
-            self._offset = offset
+            newOffset = offset
 
-        if self._offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
 
+        self._offset = newOffset
         return self._offset
 
     @overrides(io.BufferedIOBase)
diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..dcc6a62 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -157,18 +157,18 @@ class RawStenciledFile(FixedRawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
+            newOffset = self.cumsizes[-1] + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
 
+        self.offset = newOffset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -392,18 +392,18 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
+            newOffset = self.size + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
 
+        self.offset = newOffset
         return self.offset
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From 52a869425e3ab413b247151ff89b4bfa291eaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 02/91] fix: Read everything up to the end when no size is
 given to block-parallel readers

---
 core/ratarmountcore/BlockParallelReaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index 1f4e9ce..a663d74 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -152,6 +152,9 @@ class BlockParallelReader(io.BufferedIOBase):
         return self._offset
 
     def _read(self, size: int, decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
-- 
2.43.0


From 76beb95674fb209d410da842434c4f0f7ef68ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 03/91] fix: Keep LRUCache consistent on failed look-ups and
 bounded with setdefault

---
 core/ratarmountcore/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index ca00933..6bedd91 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -98,8 +98,9 @@ class LRUCache(Generic[KeyType, ValueType]):
         self.lastUsed.append(key)
 
     def __getitem__(self, key: KeyType):
+        value = self.data.__getitem__(key)
         self._refresh(key)
-        return self.data.__getitem__(key)
+        return value
 
     def get(self, key: KeyType, default: Optional[ValueType] = None):
         if key in self.lastUsed:
@@ -142,8 +143,10 @@ class LRUCache(Generic[KeyType, ValueType]):
         return self.data.values()
 
     def setdefault(self, key: KeyType, default: ValueType):
-        self._refresh(key)
-        return self.data.setdefault(key, default)
+        if key not in self.data:
+            self[key] = default
+            return default
+        return self[key]
 
     def __bool__(self):
         return bool(self.data)
-- 
2.43.0


From 3bcd8d214aae2c2ec7f6ddceafc6fc2fee799fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 04/91] fix: Clamp and lock reads by offset and size of TAR
 members

---
 core/ratarmountcore/mountsource/formats/tar.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..725e5cf 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1100,15 +1100,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
-        tarFileInfo = SQLiteIndex.get_index_userdata(fileInfo.userdata)
-        if tarFileInfo.issparse:
-            with self.open(fileInfo) as file:
-                file.seek(offset, os.SEEK_SET)
-                return file.read(size)
-
-        # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # The view returned by open ends at the end of the member and locks the archive file object while reading.
+        with self.open(fileInfo, buffering=0) as file:
+            file.seek(offset, os.SEEK_SET)
+            return file.read(size)
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From ab4ed52f762f79f331c0c47390d78b7bc2d8c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 05/91] fix: Open sparse TAR members without any hole

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 725e5cf..2a882b8 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1092,7 +1092,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From ab803d7ad0e8a3083abe56fe0720df18c8c5b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 06/91] fix: Seek in uncompressed ZIP members independently of
 other opened members

---
 core/ratarmountcore/mountsource/formats/zip.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..45f132a 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,5 +1,7 @@
 import contextlib
 import datetime
+import functools
+import io
 import logging
 import stat
 import sys
@@ -23,6 +25,14 @@ except (ImportError, Exception):
 logger = logging.getLogger(__name__)
 
 
+def _seek_shared_file(file, offset: int, whence: int = io.SEEK_SET) -> int:
+    # Older versions of zipfile._SharedFile.seek seek relative to the position of the underlying file object, which is
+    # shared with all other opened members and might have been moved by them. The tracked position is safe to use.
+    if whence == io.SEEK_CUR:
+        offset, whence = file.tell() + offset, io.SEEK_SET
+    return type(file).seek(file, offset, whence)
+
+
 class ZipMountSource(SQLiteIndexMountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes], Path], **options) -> None:
         if 'zipfile' not in sys.modules:
@@ -144,4 +154,7 @@ class ZipMountSource(SQLiteIndexMountSource):
         # same underlying file object concurrently by using a _SharedFile class that even includes a lock.
         # Very nice!
         # https://github.com/python/cpython/blob/a87c46eab3c306b1c5b8a072b7b30ac2c50651c0/Lib/zipfile/__init__.py#L1569
-        return self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        file = self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        if (sharedFile := getattr(file, '_fileobj', None)) is not None:
+            sharedFile.seek = functools.partial(_seek_shared_file, sharedFile)
+        return file
-- 
2.43.0


From 9cbfa279b1767f55a24e1e0cc1897973c6276ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 07/91] fix: Restore the row factory of the index connection
 when listing fails

---
 core/ratarmountcore/SQLiteIndex.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..863ba13 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -883,13 +883,16 @@ class SQLiteIndex:
 
         oldRowFactory = self.get_connection().row_factory
         self.get_connection().row_factory = row_to_file_info
-        directory: dict[str, FileInfo] = dict(
-            self.get_connection().execute(
-                'SELECT ' + ','.join(selected_columns) + ' FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
-                (self._query_normpath(path).rstrip('/'),),
+        try:
+            directory: dict[str, FileInfo] = dict(
+                self.get_connection().execute(
+                    'SELECT ' + ','.join(selected_columns) + ' FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
+                    (self._query_normpath(path).rstrip('/'),),
+                )
             )
-        )
-        self.get_connection().row_factory = oldRowFactory
+        finally:
+            # Also restore it when the query fails, e.g., for paths that cannot be encoded to UTF-8.
+            self.get_connection().row_factory = oldRowFactory
 
         gotResults = bool(directory)
         directory.pop('', None)
@@ -907,11 +910,13 @@ class SQLiteIndex:
         # The only difference here is that we do not request all columns, but only two in a tuple.
         oldRowFactory = self.get_connection().row_factory
         self.get_connection().row_factory = None
-        rows = self.get_connection().execute(
-            'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
-            (self._query_normpath(path).rstrip('/'),),
-        )
-        self.get_connection().row_factory = oldRowFactory
+        try:
+            rows = self.get_connection().execute(
+                'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
+                (self._query_normpath(path).rstrip('/'),),
+            )
+        finally:
+            self.get_connection().row_factory = oldRowFactory
 
         directory = {row[0]: row[1] for row in rows}
         gotResults = bool(directory)
-- 
2.43.0


From f5abc6ec3c1649541035cd26c4eb252904f47c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 08/91] fix: Generate parent folders also when the index has a
 block device or socket of the same path

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 863ba13..90f3c5a 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -712,7 +712,7 @@ class SQLiteIndex:
                        '',0,0,0,0,0,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
-                    FROM "files" WHERE mode & (1 << 14) != 0
+                    FROM "files" WHERE (mode & {0xF000}) == {int(stat.S_IFDIR)}
                 )
                 ORDER BY "path","name";
             DROP TABLE "parentfolders";
-- 
2.43.0


From db8878566f83680ac0b04c44435676ed9a52bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 09/91] fix: Open an explicitly given index file read-only

The unknown keyword readOnly was silently swallowed, so that the index given by the user was opened
writable and even deleted when it could not be loaded.
---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..379eec9 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -79,7 +79,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From 5e767845cf5199bbc5adabc91bfcbbff63991fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 10/91] fix: Do not use the index of a non-TAR archive that has
 grown

Only TAR archives, which have their own check, can be appended to while keeping all indexed offsets valid.
---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 90f3c5a..c1a05fe 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -538,10 +538,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From c8b303c5996c436b04f19ed5b8b1985ba32d5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 11/91] fix: Do not check the temporary copy of a rejected
 compressed index instead of the next candidate

It made the next, possibly valid, index candidate appear to be invalid and get deleted.
---
 core/ratarmountcore/SQLiteIndex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index c1a05fe..81a27fb 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1200,6 +1200,8 @@ class SQLiteIndex:
             indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
 
         temporaryFolder = os.environ.get("RATARMOUNT_INDEX_TMPDIR", None)
+        # Forget the temporary file of a previously tried index, which could not be loaded.
+        self._temporaryIndexFile = None
 
         def _undo_compression(file):
             compression = detect_compression(file)
-- 
2.43.0


From 0cbf4f1556da6da3891698412f7146628356f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 12/91] fix: Create the table marking an index as incomplete
 before the files table

Else, an index whose creation was interrupted right after creating the files table was used as an empty archive.
---
 core/ratarmountcore/create-index-tables.sql | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/create-index-tables.sql b/core/ratarmountcore/create-index-tables.sql
index e7e3091..2191463 100644
--- a/core/ratarmountcore/create-index-tables.sql
+++ b/core/ratarmountcore/create-index-tables.sql
@@ -1,5 +1,14 @@
 /* This whole file should be idempotent, i.e., executing it twice in a row should work (use IF NOT EXISTS). */
 
+/* Must exist before "files" because the existence of this table marks the index as incomplete. */
+CREATE TABLE IF NOT EXISTS "parentfolders" (
+    "path"          VARCHAR(65535) NOT NULL,
+    "name"          VARCHAR(65535) NOT NULL,
+    "offsetheader"  INTEGER,
+    "offset"        INTEGER,
+    PRIMARY KEY ("path","name")
+);
+
 CREATE TABLE IF NOT EXISTS "files" (
     "path"           VARCHAR(65535) NOT NULL,  /* path with leading and without trailing slash */
     "name"           VARCHAR(65535) NOT NULL,
@@ -68,14 +77,6 @@ END;
  **/
 CREATE TABLE IF NOT EXISTS "filestmp" AS SELECT * FROM "files" WHERE 0;
 
-CREATE TABLE IF NOT EXISTS "parentfolders" (
-    "path"          VARCHAR(65535) NOT NULL,
-    "name"          VARCHAR(65535) NOT NULL,
-    "offsetheader"  INTEGER,
-    "offset"        INTEGER,
-    PRIMARY KEY ("path","name")
-);
-
 /* Table for storing information regarding the options used for creating the index.
  * Common keys: tarstats, arguments, isGnuIncremental, backendName */
 CREATE TABLE IF NOT EXISTS "metadata" (
-- 
2.43.0


From bf481533ebc130fc34fd606df8e499943a77fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 13/91] fix: Do not let a folder in a union mount hide files of
 the same name in other mount sources

---
 core/ratarmountcore/mountsource/compositing/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..260f4c6 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,9 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder. Even if the path itself is a cached folder, it may not be a folder in all
+            # mount sources.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
-- 
2.43.0


From 9acfaaae467549e7bd261d7f74ef83ff3075a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 14/91] fix: Return the metadata of the mount source with the
 highest precedence when listing a union mount

---
 core/ratarmountcore/mountsource/compositing/union.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 260f4c6..dc39ac1 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -150,12 +150,13 @@ class UnionMountSource(MountSource):
     def _list(self, path: str, onlyMode: bool):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
-        for mountSource in reversed(self.mountSources):
+        # Begin with the lowest precedence, so that the metadata from mount sources with higher precedence replaces it.
+        for mountSource in self.mountSources:
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
             if files is None:
                 if isinstance(result, dict):
-                    files = result
+                    files = dict(result)
                 elif result is not None:
                     files = set(result)
 
-- 
2.43.0


From c2f7e9546bd5814dfa9f42ffcb76a87bbb747f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 15/91] fix: Do not fail for versions folders of files that do
 not exist

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..e92d3cb 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -76,8 +76,12 @@ class FileVersionLayer(MountSource):
                 fileVersion = 0
                 continue
 
-            # If current path does not exist, check if it is a special versions path
-            if part.endswith('.versions') and len(part) > len('.versions'):
+            # If current path does not exist, check if it is a special versions path for something that exists.
+            if (
+                part.endswith('.versions')
+                and len(part) > len('.versions')
+                and self.mountSource.lookup(tmpFilePath[: -len('.versions')])
+            ):
                 pathIsSpecialVersionsFolder = True
                 fileVersion = 0
                 filePath = tmpFilePath[: -len('.versions')]
-- 
2.43.0


From 87e0e60d8ea441763526c3af6a81204347270199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 16/91] fix: Find nested mount points when opening files in
 subvolumes and keep the file info intact

---
 .../mountsource/compositing/subvolumes.py     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..99281e8 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -170,23 +170,30 @@ class SubvolumesMountSource(MountSource):
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         return self._list(path, onlyMode=True)
 
+    def _get_mounted(self, subvolume: str) -> MountSource:
+        """Returns the mount source for a (possibly nested) mount point path as returned by _find_mount_source."""
+        mountSource = self._get_by_path(subvolume)
+        if not isinstance(mountSource, MountSource):
+            raise RatarmountError(f"Nothing is mounted at: {subvolume}")
+        return mountSource
+
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            if subvolume is None:
+                raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
+            return self._get_mounted(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            if subvolume is None:
+                raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
+            return self._get_mounted(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -194,7 +201,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else self._get_mounted(subvolume).list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -202,7 +209,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else self._get_mounted(subvolume).get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -211,9 +218,9 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        if subvolume is None:
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
+        mountSource = self._get_mounted(subvolume)
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
-- 
2.43.0


From 93a5d24a29083df8e27f54cd186a03665917dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 17/91] fix: Close and join all mount sources mounted as nested
 subvolumes

---
 .../mountsource/compositing/subvolumes.py             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 99281e8..e9bb95b 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -119,6 +119,13 @@ class SubvolumesMountSource(MountSource):
                 return ('/'.join(parts[: i + 1]), '/' + '/'.join(parts[i + 1 :]), folder)
         return (path, "", folder)
 
+    def _all_mounted(self, folder: dict[str, Any]) -> Iterable[MountSource]:
+        for mounted in folder.values():
+            if isinstance(mounted, MountSource):
+                yield mounted
+            else:
+                yield from self._all_mounted(mounted)
+
     @overrides(MountSource)
     def is_immutable(self) -> bool:
         return False  # Because we support mount and unmount!
@@ -227,10 +234,10 @@ class SubvolumesMountSource(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._all_mounted(self.mountSources):
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._all_mounted(self.mountSources):
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From c7b724f9ae3e91c9d092e868ebc578c655f3bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 18/91] fix: Do not create folders when only asking whether a
 subvolume can be mounted

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index e9bb95b..8fab0b9 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -38,10 +38,11 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        # Missing parent folders will be created by mount.
+        return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
-- 
2.43.0


From 303dde1c03dd4447595f98f56f43e773dcb05e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 19/91] fix: Forward the requested version when looking up
 through a removed prefix

---
 core/ratarmountcore/mountsource/compositing/removeprefix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..124915c 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -44,7 +44,9 @@ class RemovePrefixMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path, lambda p: self.mountSource.lookup(p, fileVersion), lambda _: self._directory_info.clone(), None
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 60db446158a989698f34f62d60403f22b2d7e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 20/91] fix: Find nothing for versions and paths that do not
 exist in mount sources without versions

---
 core/ratarmountcore/mountsource/compositing/singlefile.py | 2 ++
 core/ratarmountcore/mountsource/formats/ext4.py           | 6 ++----
 core/ratarmountcore/mountsource/formats/fat.py            | 6 ++----
 core/ratarmountcore/mountsource/formats/fsspec.py         | 6 ++----
 core/ratarmountcore/mountsource/formats/git.py            | 6 ++----
 core/ratarmountcore/mountsource/formats/sqlar.py          | 2 ++
 6 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/singlefile.py b/core/ratarmountcore/mountsource/compositing/singlefile.py
index d65ce36..85079be 100644
--- a/core/ratarmountcore/mountsource/compositing/singlefile.py
+++ b/core/ratarmountcore/mountsource/compositing/singlefile.py
@@ -138,6 +138,8 @@ class SingleFileMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         if not path or path == '/':
             return self._create_file_info(size=0, isdir=True)
         if path.strip('/') == self.path:
diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 15bb35a..d5912a7 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -104,16 +104,14 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         try:
             return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
         except FileNotFoundError:
             pass
         return None
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         inode = fileInfo.userdata[-1]
diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index f67376b..46d6881 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -109,6 +109,8 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         try:
             entry = self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
@@ -117,10 +119,6 @@ class FATMountSource(MountSource):
             raise exception
         return self._convert_fatdirectory_entry_to_file_info(entry, path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..e6ef589 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -271,6 +271,8 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         if isinstance(self.fileSystem, fsspec.implementations.http.HTTPFileSystem):
             return self._lookup_http(path)
 
@@ -305,10 +307,6 @@ class FSSpecMountSource(MountSource):
             return None
         return FSSpecMountSource._convert_to_file_info(self.fileSystem.info(path), path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 683b0ed..ef91780 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -109,13 +109,11 @@ class GitMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         obj = self._look_up_path(path)
         return None if obj is None else self._convert_to_file_info(obj, path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..b5518c6 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -321,6 +321,8 @@ class SQLARMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in (0, 1):
+            return None
         if path == "/":
             return create_root_file_info([-1])
 
-- 
2.43.0


From f6254ee973be918ef2f5a956c2d9d86345364403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 21/91] fix: Count the versions in RAR archives from 1 like
 everywhere else

---
 core/ratarmountcore/mountsource/formats/rar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2c54b45..328c650 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -196,7 +196,9 @@ class RarMountSource(MountSource):
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         infos = self._lookups(path)
-        return infos[fileVersion] if -len(infos) <= fileVersion < len(infos) else None
+        # Version 0 is the most recent, versions 1 and higher count from the oldest.
+        index = len(infos) - fileVersion if fileVersion > 0 else -fileVersion
+        return infos[index] if 0 <= index < len(infos) else None
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 9ef9dff9cc0bb3af7693d6005e0e737fb20f4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 22/91] fix: Find nothing for versions that do not exist
 instead of wrapping them around

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..22bbd3b 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -293,6 +293,8 @@ class AutoMountLayer(MountSource):
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
         fileVersions = self.versions(path)
+        if fileVersions > 1 and not -fileVersions < fileVersion <= fileVersions:
+            return None
         fileVersion = normalize_file_version(fileVersion, fileVersions)
         if fileVersion == 0 and pathInMountPoint == '/':
             return mountInfo.rootFileInfo.clone()
-- 
2.43.0


From a3113e8e37380a86b2f4a6e8c5ab7c5fc744e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 23/91] fix: List empty folders as empty instead of as
 nonexistent with recursive mounting

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 22bbd3b..0603fc4 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -312,7 +312,7 @@ class AutoMountLayer(MountSource):
         return fileInfo
 
     def _append_mount_points(self, path: str, files, onlyMode: bool):
-        if not files:
+        if files is None:
             return None
 
         if not isinstance(files, dict):
-- 
2.43.0


From 9b699255f48553c4e19b43adec34d2c6d1b6076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 24/91] fix: Keep showing TAR members which are named like TARs
 but are none as files

---
 core/ratarmountcore/mountsource/formats/tar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 2a882b8..9f0ab86 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -22,7 +22,7 @@ with contextlib.suppress(ImportError):
 
 from ratarmountcore.BlockParallelReaders import ParallelXZReader
 from ratarmountcore.compressions import COMPRESSION_BACKENDS, get_gzip_info, open_compressed_file
-from ratarmountcore.formats import FileFormatID, might_be_format
+from ratarmountcore.formats import FileFormatID, is_tar, might_be_format
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.ProgressBar import ProgressBar
@@ -894,6 +894,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             # This would also save some indirections to speed up accesses.
             tarFileObject = StenciledFile([(self.tarFileObject, globalOffset, size)])
 
+            # Reading metadata does not raise for files which are no TARs at all.
+            if not is_tar(cast(IO[bytes], tarFileObject), encoding=self.encoding):
+                continue
+            tarFileObject.seek(0)
+
             isTar = False
             try:
                 # Do not use os.path.join here because the leading / might be missing.
-- 
2.43.0


From c529b3f17cfdad541470c87c2d6f93c33194faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 25/91] fix: Return an entry from
 FileVersionLayer.get_mount_source that belongs to the returned source

---
 .../mountsource/compositing/versioning.py             | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index e92d3cb..7dc72ec 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -258,13 +258,10 @@ class FileVersionLayer(MountSource):
 
     @overrides(MountSource)
     def get_mount_source(self, fileInfo: FileInfo) -> tuple[str, MountSource, FileInfo]:
-        fileType = fileInfo.userdata.pop()
-        try:
-            if fileType == FileType.VERSIONS_FOLDER:
-                return '/', self, fileInfo
-            return self.mountSource.get_mount_source(fileInfo)
-        finally:
-            fileInfo.userdata.append(fileType)
+        sourceFileInfo = fileInfo.clone()
+        if sourceFileInfo.userdata.pop() == FileType.VERSIONS_FOLDER:
+            return '/', self, fileInfo
+        return self.mountSource.get_mount_source(sourceFileInfo)
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From 913b9c849d4d7b94e5a79c4ce94859980f9abaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 26/91] fix: Show the extended attributes of the root folder
 with recursive mounting

---
 core/ratarmountcore/mountsource/compositing/automount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 0603fc4..806d98c 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -382,7 +382,7 @@ class AutoMountLayer(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         mountPoint = fileInfo.userdata[-1]
         assert isinstance(mountPoint, str)
-        if fileInfo == self.mounted[mountPoint].rootFileInfo:
+        if mountPoint != '/' and fileInfo == self.mounted[mountPoint].rootFileInfo:
             return []
 
         _, mountSource, sourceFileInfo = self.get_mount_source(fileInfo)
@@ -392,7 +392,7 @@ class AutoMountLayer(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         mountPoint = fileInfo.userdata[-1]
         assert isinstance(mountPoint, str)
-        if fileInfo == self.mounted[mountPoint].rootFileInfo:
+        if mountPoint != '/' and fileInfo == self.mounted[mountPoint].rootFileInfo:
             return None
 
         _, mountSource, sourceFileInfo = self.get_mount_source(fileInfo)
-- 
2.43.0


From 965a114162afc5534a197aec6d1abac72e4c9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 27/91] fix: Do not lose the contents of files in the write
 overlay when truncating them

---
 ratarmount/WriteOverlay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..e93d726 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -161,6 +161,9 @@ class WritableFolderMountSource(fuse.Operations):
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
     def _ensure_file_is_modifiable(self, path):
+        if os.path.lexists(self._realpath(path)):
+            return  # Copying it onto itself would lose its contents.
+
         self._ensure_parent_exists(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-- 
2.43.0


From 3d2dd9ad2237996ce2a8c8806e335981c9e624b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 28/91] fix: Look up overlay metadata with the full path like
 it is stored

---
 ratarmount/FuseMount.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..27f006f 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -666,12 +666,10 @@ class FuseMount(fuse.Operations):
 
         # Request exact metadata from write overlay, e.g., if the actual file in the folder
         # does not support permission changes
-        result = self.mountSource.get_mount_source(fileInfo)
-        subMountPoint = result[0]
         # TODO Note that if the path contains special .version versioning, then it will most likely fail
         #      to find the path in the write overlay, which is problematic for things like foo.versions/0.
         #      Would be really helpful if the file info would contain the actual path and name, too :/
-        return self.writeOverlay.update_file_info(path[len(subMountPoint) :], fileInfo)
+        return self.writeOverlay.update_file_info(path, fileInfo)
 
     @staticmethod
     def _redirect_output(name: str, file: IO[str]):
-- 
2.43.0


From a585bab147b8e1d970c05b169a29c6d7e74ab063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 29/91] fix: Accept changing neither owner nor group

---
 ratarmount/WriteOverlay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index e93d726..8bb8193 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -311,7 +311,8 @@ class WritableFolderMountSource(fuse.Operations):
         # > Change the owner and group id of path to the numeric uid and gid. To leave one of the ids unchanged,
         # > set it to -1.
         # No reason to change the file owner in the overlay folder, which may often not even be possible.
-        self._set_file_metadata(path, lambda p: None, data)
+        if data:
+            self._set_file_metadata(path, lambda p: None, data)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From f0d0d9b7e15f04bc92ab543531e68be1f861db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 30/91] fix: Do not follow symbolic links in the overlay when
 changing metadata

---
 ratarmount/WriteOverlay.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 8bb8193..6edccc1 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -297,7 +297,8 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def chmod(self, path: str, mode: int):
-        self._set_file_metadata(path, lambda p: os.chmod(p, mode), {'mode': mode})
+        # Symbolic links must not be followed because they may lead out of the overlay.
+        self._set_file_metadata(path, lambda p: None if os.path.islink(p) else os.chmod(p, mode), {'mode': mode})
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -322,7 +323,7 @@ class WritableFolderMountSource(fuse.Operations):
         mtime = time.time() if times is None else times[1] / 1e9
         ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
-- 
2.43.0


From a15f1f64039f6ca7faa7be936d182c64aa1c30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 31/91] fix: Show links and special files created in place of
 deleted ones, and nothing when creation fails

---
 ratarmount/WriteOverlay.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 6edccc1..c10dacd 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -171,16 +171,11 @@ class WritableFolderMountSource(fuse.Operations):
         ):
             shutil.copyfileobj(sourceObject, targetObject)
 
-    def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
+    def _set_created(self, path: str, mode: Optional[int] = None):
+        """Must be called after path was successfully created in the overlay folder."""
         folder, name = self._split_path(path)
-
-        self.sqlConnection.execute(
-            'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
-        )
         self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
+            'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
 
     def _mark_as_deleted(self, path: str):
@@ -354,7 +349,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._ensure_parent_exists(target)
         os.symlink(source, self._realpath(target))
+        self._set_created(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -364,17 +361,18 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._ensure_parent_exists(target)
+        os.link(overlaySource, self._realpath(target))
+        self._set_created(target)
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._ensure_parent_exists(path)
         os.mkdir(self._realpath(path), mode)
+        self._set_created(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -403,7 +401,7 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def open(self, path: str, flags: int):
         # if flags & os.O_CREAT != 0:  # I hope that FUSE simple calls create in this case.
-        #    self._open(path)   # what would the default mode even be?
+        #    self._set_created(path)   # what would the default mode even be?
         if not os.path.exists(self._realpath(path)):
             if not self.mountSource.exists(path):
                 raise fuse.FuseOSError(errno.ENOENT)
@@ -416,11 +414,13 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._ensure_parent_exists(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        fd = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._set_created(path, mode)
+        return fd
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -446,6 +446,7 @@ class WritableFolderMountSource(fuse.Operations):
     def mknod(self, path: str, mode: int, dev: int):
         self._ensure_parent_exists(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._set_created(path, mode)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 7ab873b5b4159595f25be6901f9649b542890b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 32/91] fix: Do not hide files and folders that could not be
 deleted

---
 ratarmount/WriteOverlay.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c10dacd..ece79b6 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -387,13 +387,12 @@ class WritableFolderMountSource(fuse.Operations):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
 
         try:
-            if os.path.exists(self._realpath(path)):
+            if os.path.lexists(self._realpath(path)):
                 os.rmdir(self._realpath(path))
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     # Files
 
@@ -438,8 +437,7 @@ class WritableFolderMountSource(fuse.Operations):
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._mark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 5732cba043921f47a4c01e14a881f68fcd0ab38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 33/91] fix: Keep mode and owner of files and folders that are
 copied into the overlay and show when they are written

---
 ratarmount/WriteOverlay.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index ece79b6..dd4f720 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -158,13 +158,16 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
-            os.makedirs(self._realpath(parentPath), exist_ok=True)
+            self._ensure_parent_exists(parentPath)
+            self._keep_metadata(parentPath)
+            os.mkdir(self._realpath(parentPath))
 
     def _ensure_file_is_modifiable(self, path):
         if os.path.lexists(self._realpath(path)):
             return  # Copying it onto itself would lose its contents.
 
         self._ensure_parent_exists(path)
+        self._keep_metadata(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
             open(self._realpath(path), 'wb') as targetObject,
@@ -244,15 +247,28 @@ class WritableFolderMountSource(fuse.Operations):
             (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
         )
 
-    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+    def _has_metadata(self, path: str) -> bool:
         folder, name = self._split_path(path)
+        return bool(
+            self.sqlConnection.execute(
+                'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
+            ).fetchone()[0]
+        )
 
-        existsInMetadata = self.sqlConnection.execute(
-            'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
-        ).fetchone()[0]
-
-        if not existsInMetadata:
+    def _keep_metadata(self, path: str):
+        """Saves mode and owner of a path for which a copy will be created in the overlay folder."""
+        if not self._has_metadata(path):
             self._init_file_metadata(path)
+
+    def _reset_modification_time(self, path: str):
+        """Makes the modification time of the file in the overlay visible again, which is about to be written."""
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'UPDATE "files" SET mtime = NULL WHERE "path" == (?) and "name" == (?)', (folder, name)
+        )
+
+    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+        self._keep_metadata(path)
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
@@ -408,6 +424,8 @@ class WritableFolderMountSource(fuse.Operations):
             if flags & (os.O_WRONLY | os.O_RDWR):
                 self._ensure_file_is_modifiable(path)
 
+        if flags & (os.O_WRONLY | os.O_RDWR):
+            self._reset_modification_time(path)
         return os.open(self._realpath(path), flags)
 
     @overrides(fuse.Operations)
@@ -450,6 +468,7 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
         self._ensure_file_is_modifiable(path)
+        self._reset_modification_time(path)
         os.truncate(self._realpath(path), length)
 
     # Actual writing
-- 
2.43.0


From ec9a8e4f28a118b3755a944ae85656119cd25bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 34/91] fix: Rename overlay files, links and folders completely
 and without writing through links

---
 ratarmount/WriteOverlay.py | 63 ++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index dd4f720..5fbd3d5 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,5 +1,6 @@
 import errno
 import functools
+import inspect
 import os
 import shutil
 import sqlite3
@@ -23,6 +24,8 @@ from .fuse import fuse
 
 def check_ignored_prefixes(parameter_name: str = 'path'):
     def decorator(func):
+        parameter_index = list(inspect.signature(func).parameters).index(parameter_name) - 1  # Do not count self.
+
         @functools.wraps(func)
         def wrapper(self, *args, **kwargs):
             if not self.ignoredPrefixes:
@@ -30,9 +33,8 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
 
             if parameter_name in kwargs:
                 path = kwargs[parameter_name]
-            elif args:
-                # We assume that the first parameter is the one to be checked.
-                path = args[0]
+            elif len(args) > parameter_index:
+                path = args[parameter_index]
             else:
                 return func(self, *args, **kwargs)
 
@@ -337,28 +339,57 @@ class WritableFolderMountSource(fuse.Operations):
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
+    @check_ignored_prefixes('old')
+    @check_ignored_prefixes('new')
     def rename(self, old: str, new: str):
-        if not self.mountSource.exists(old) or self.is_deleted(old):
+        fileInfo = None if self.is_deleted(old) else self.mountSource.lookup(old)
+        if fileInfo is None:
             raise fuse.FuseOSError(errno.ENOENT)
+        if self._split_path(old) == self._split_path(new):
+            return
 
-        folder, name = self._split_path(new)
+        oldRealPath = self._realpath(old)
+        newRealPath = self._realpath(new)
+        isFolder = stat.S_ISDIR(fileInfo.mode)
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        # Folders which are not only in the overlay would have to be copied with all their contents. Tools like mv do
+        # that by themselves if told so. A folder hidden at the target path would show up inside the renamed one.
+        if isFolder and (
+            not os.path.isdir(oldRealPath) or self.mountSource.versions(old) > 1 or self.mountSource.exists(new)
+        ):
+            raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
-            os.rename(self._realpath(old), self._realpath(new))
+        if os.path.lexists(oldRealPath):
+            os.rename(oldRealPath, newRealPath)
         else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
+            self._keep_metadata(old)
+            # Never write into something existing at the target path. It might be a link.
+            if os.path.lexists(newRealPath):
+                os.unlink(newRealPath)
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, newRealPath)
+            else:
+                with self.mountSource.open(fileInfo) as sourceObject, open(newRealPath, 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
 
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+        # Move the metadata over that of the replaced target path.
+        newFolder, newName = self._split_path(new)
+        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == ? AND "name" == ?', (newFolder, newName))
+        self.sqlConnection.execute(
+            'UPDATE "files" SET "path" = ?, "name" = ? WHERE "path" == ? AND "name" == ?',
+            (newFolder, newName, *self._split_path(old)),
+        )
+        if isFolder:
+            oldPath = '/'.join(self._split_path(old))
+            self.sqlConnection.execute(
+                'UPDATE OR REPLACE "files" SET "path" = ? || substr("path", ?) '
+                'WHERE "path" == ? OR substr("path", 1, ?) == ?',
+                (f"{newFolder}/{newName}", len(oldPath) + 1, oldPath, len(oldPath) + 1, oldPath + '/'),
+            )
 
-            self._mark_as_deleted(old)
+        # The original might still exist in other mount sources even if it was renamed in the overlay.
+        self._mark_as_deleted(old)
 
     # Links
 
-- 
2.43.0


From 2e4f2ceebd73c5d3883645e216b580243fe3d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 35/91] fix: Hide the metadata database of the write overlay
 and confine all paths to the overlay folder

---
 ratarmount/WriteOverlay.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 5fbd3d5..0ccaf26 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -28,9 +28,6 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
 
         @functools.wraps(func)
         def wrapper(self, *args, **kwargs):
-            if not self.ignoredPrefixes:
-                return func(self, *args, **kwargs)
-
             if parameter_name in kwargs:
                 path = kwargs[parameter_name]
             elif len(args) > parameter_index:
@@ -38,6 +35,9 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
             else:
                 return func(self, *args, **kwargs)
 
+            if self.is_control_file(path):
+                raise fuse.FuseOSError(errno.EPERM)
+
             # Check if path starts with any ignored prefix.
             if any(path.startswith(prefix) for prefix in self.ignoredPrefixes):
                 raise FileNotFoundError(f"Accessing forbidden folder: {path}")
@@ -69,6 +69,13 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+    hiddenNames = (
+        hiddenDatabaseName,
+        hiddenDatabaseName + '-journal',
+        hiddenDatabaseName + '-shm',
+        hiddenDatabaseName + '-wal',
+    )
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -146,13 +153,13 @@ class WritableFolderMountSource(fuse.Operations):
 
     @staticmethod
     def _split_path(path: str) -> tuple[str, str]:
-        result = ('/' + os.path.normpath(path).lstrip('/')).rsplit('/', 1)
+        result = os.path.normpath('/' + path.lstrip('/')).rsplit('/', 1)
         assert len(result) == 2
         return result[0], result[1]
 
     def _realpath(self, path: str) -> str:
         """Path given relative to folder root. Leading '/' is acceptable"""
-        return os.path.join(self.root, path.lstrip(os.path.sep))
+        return os.path.join(self.root, os.path.normpath('/' + path.lstrip('/')).lstrip('/'))
 
     def _ensure_parent_exists(self, path):
         """
@@ -200,11 +207,19 @@ class WritableFolderMountSource(fuse.Operations):
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        return [x[0] for x in result] + ([] if path.strip('/') else list(self.hiddenNames))
+
+    @classmethod
+    def is_control_file(cls, path: str) -> bool:
+        """Returns true for the metadata database in the root of the overlay and its older versions."""
+        name = os.path.normpath('/' + path.lstrip('/')).split('/')[1]
+        while name.endswith('.versions'):
+            name = name[: -len('.versions')]
+        return name in cls.hiddenNames
 
     def is_deleted(self, path: str) -> bool:
+        if self.is_control_file(path):
+            return True
         folder, name = self._split_path(path)
         result = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE path == (?) AND name == (?) AND deleted == 1', (folder, name)
-- 
2.43.0


From 42ff60ca5dffed671e72e20d82974c4bc6a00daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 36/91] fix: Give hard links in the write overlay the mode and
 owner of the file they are made of

---
 ratarmount/WriteOverlay.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 0ccaf26..1154fc8 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -427,6 +427,14 @@ class WritableFolderMountSource(fuse.Operations):
         os.link(overlaySource, self._realpath(target))
         self._set_created(target)
 
+        # Both names show the same file.
+        folder, name = self._split_path(target)
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" (path,name,mtime,mode,uid,gid,deleted) '
+            'SELECT ?,?,mtime,mode,uid,gid,deleted FROM "files" WHERE "path" == ? AND "name" == ?',
+            (folder, name, *self._split_path(source)),
+        )
+
     # Folders
 
     @overrides(fuse.Operations)
-- 
2.43.0


From 82ec212305e51a039131e993921616b3d846bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 37/91] fix: Do not resolve links in the write overlay to
 something outside of it

---
 core/ratarmountcore/mountsource/formats/folder.py | 5 ++++-
 ratarmount/FuseMount.py                           | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..aecb10e 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -35,6 +35,8 @@ class FolderMountSource(MountSource):
 
     def __init__(self, path: Union[str, os.PathLike]) -> None:
         self.root = str(path)
+        # Whether to show what relative links pointing outside the folder point to instead of the links themselves.
+        self.resolveOutsideLinks = True
         self._statfs = FolderMountSource._get_statfs_for_folder(self.root)
 
     def set_folder_descriptor(self, fd: int) -> None:
@@ -119,7 +121,8 @@ class FolderMountSource(MountSource):
             # slashes and no '/./'. Calling posixpath.normpath would remedy the latter but ONLY under the
             # assumption that there are no symbolic links in the path, else it might make things worse.
             if (
-                not os.path.isabs(linkname)
+                self.resolveOutsideLinks
+                and not os.path.isabs(linkname)
                 and max_up_count(linkname) > path.strip('/').count('/')
                 and os.path.exists(realpath)
             ):
diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 27f006f..2649eab 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -22,6 +22,7 @@ from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSou
 from ratarmountcore.mountsource.compositing.union import UnionMountSource
 from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
 from ratarmountcore.mountsource.factory import open_mount_source
+from ratarmountcore.mountsource.formats.folder import FolderMountSource
 from ratarmountcore.utils import ceil_div, determine_recursion_depth, overrides, remove_duplicates_stable
 
 from ratarmount import CLIHelpers
@@ -181,7 +182,11 @@ class FuseMount(fuse.Operations):
         for path in pathToMount:
             if os.path.realpath(path) != self.mountPoint:
                 # This also will create or load the block offsets for compressed formats.
-                mountSources.append((os.path.basename(path), open_mount_source(path, **options)))
+                mountSource = open_mount_source(path, **options)
+                if path == self.overlayPath and isinstance(mountSource, FolderMountSource):
+                    # Links are created for the mount point. Do not show, or even write to, something outside of it.
+                    mountSource.resolveOutsideLinks = False
+                mountSources.append((os.path.basename(path), mountSource))
                 continue
 
             if self.mountPointFd is not None:
-- 
2.43.0


From ad1309844060b8fb588149c00e95cf867f6f54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 38/91] fix: Forget released file handles

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 2649eab..5ed47cb 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -798,7 +798,7 @@ class FuseMount(fuse.Operations):
         if fh not in self.openedFiles:
             raise fuse.FuseOSError(errno.ESTALE)
 
-        openedFile = self._resolve_file_handle(fh)
+        _flags, openedFile = self.openedFiles.pop(fh)
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
-- 
2.43.0


From 17f69e083d00d5a709764395fc2acc3cc9304aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 39/91] fix: Show the free space of the write overlay

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 5ed47cb..736c1e8 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -904,8 +904,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 75537a67dcb3d5ae53a01a93e843b0d32bbb93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 40/91] fix: Do not show contents of link targets inside of
 folders which are merged with or replace links

---
 .../mountsource/formats/folder.py             | 54 ++++++++++++++-----
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index aecb10e..c427203 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -69,6 +69,42 @@ class FolderMountSource(MountSource):
         """Path given relative to folder root. Leading '/' is acceptable"""
         return os.path.join(self.root, *path.strip('/').split('/'))
 
+    def _is_resolved_link(self, path: str, linkname: str) -> bool:
+        """
+        Resolve relative links that point outside the source folder because they will become invalid
+        if they are mounted onto a different path. This relatively simply logic only works under the
+        assumption that "path" is normalized, i.e., it does not contain links in its path and no double
+        slashes and no '/./'. Calling posixpath.normpath would remedy the latter but ONLY under the
+        assumption that there are no symbolic links in the path, else it might make things worse.
+        """
+        return (
+            self.resolveOutsideLinks
+            and not os.path.isabs(linkname)
+            and max_up_count(linkname) > path.strip('/').count('/')
+            and os.path.exists(self._realpath(path))
+        )
+
+    def _is_behind_link(self, path: str) -> bool:
+        """
+        Returns true if a parent of path is shown as a link. There is nothing behind links. Else, it would show up
+        inside folders which are merged with, or replace, the link.
+        """
+        path = path.strip('/')
+        end = path.find('/')
+        while end >= 0:
+            realpath = self._realpath(path[:end])
+            if os.path.islink(realpath):
+                return not self._is_resolved_link(path[:end], os.readlink(realpath))
+            end = path.find('/', end + 1)
+        return False
+
+    def _is_folder(self, path: str) -> bool:
+        realpath = self._realpath(path)
+        # The path to the folder itself, e.g., '.' after changing into it, may be a link.
+        if path.strip('/') and os.path.islink(realpath) and not self._is_resolved_link(path, os.readlink(realpath)):
+            return False
+        return os.path.isdir(realpath) and not self._is_behind_link(path)
+
     @staticmethod
     def _stats_to_file_info(stats: os.stat_result, path: str, linkname: str):
         # fmt: off
@@ -98,7 +134,7 @@ class FolderMountSource(MountSource):
 
     @overrides(MountSource)
     def exists(self, path: str) -> bool:
-        return os.path.lexists(self._realpath(path))
+        return os.path.lexists(self._realpath(path)) and not self._is_behind_link(path)
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
@@ -115,17 +151,7 @@ class FolderMountSource(MountSource):
         linkname = ""
         if os.path.islink(realpath):
             linkname = os.readlink(realpath)
-            # Resolve relative links that point outside the source folder because they will become invalid
-            # if they are mounted onto a different path. This relatively simply logic only works under the
-            # assumption that "path" is normalized, i.e., it does not contain links in its path and no double
-            # slashes and no '/./'. Calling posixpath.normpath would remedy the latter but ONLY under the
-            # assumption that there are no symbolic links in the path, else it might make things worse.
-            if (
-                self.resolveOutsideLinks
-                and not os.path.isabs(linkname)
-                and max_up_count(linkname) > path.strip('/').count('/')
-                and os.path.exists(realpath)
-            ):
+            if self._is_resolved_link(path, linkname):
                 realpath = os.path.realpath(realpath)
                 return self._stats_to_file_info(os.stat(realpath), realpath, "")
         return self._stats_to_file_info(os.lstat(realpath), path.lstrip('/'), linkname)
@@ -133,7 +159,7 @@ class FolderMountSource(MountSource):
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self._is_folder(path):
             return None
 
         return {
@@ -144,7 +170,7 @@ class FolderMountSource(MountSource):
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self._is_folder(path):
             return None
 
         # https://docs.python.org/3/library/os.html#os.scandir
-- 
2.43.0


From e82fa01237ec5e5d00230f3b73e8b1b3d6649324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 41/91] fix: Report deleted paths as nonexistent when modifying
 them

---
 ratarmount/WriteOverlay.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 1154fc8..948870f 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -175,6 +175,7 @@ class WritableFolderMountSource(fuse.Operations):
         if os.path.lexists(self._realpath(path)):
             return  # Copying it onto itself would lose its contents.
 
+        self._ensure_exists(path)
         self._ensure_parent_exists(path)
         self._keep_metadata(path)
         with (
@@ -226,6 +227,10 @@ class WritableFolderMountSource(fuse.Operations):
         )
         return bool(result.fetchone()[0])
 
+    def _ensure_exists(self, path: str):
+        if self.is_deleted(path) or not self.mountSource.exists(path):
+            raise fuse.FuseOSError(errno.ENOENT)
+
     def _set_metadata(self, path: str, metadata: dict[str, Any]):
         if not metadata:
             raise ValueError("Need arguments to know what to update.")
@@ -285,6 +290,7 @@ class WritableFolderMountSource(fuse.Operations):
         )
 
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+        self._ensure_exists(path)
         self._keep_metadata(path)
         self._set_metadata(path, metadata)
 
@@ -419,8 +425,9 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('target')
     def link(self, target: str, source: str):
         # Can only hardlink to files which are also in the overlay folder.
+        self._ensure_exists(source)
         overlaySource = self._realpath(source)
-        if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
+        if not os.path.lexists(overlaySource):
             raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(target)
@@ -447,8 +454,7 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def rmdir(self, path: str):
-        if not self.mountSource.exists(path) or self.is_deleted(path):
-            raise fuse.FuseOSError(errno.ENOENT)
+        self._ensure_exists(path)
 
         contents = self.mountSource.list_mode(path)
         if contents is not None:
@@ -472,8 +478,7 @@ class WritableFolderMountSource(fuse.Operations):
         # if flags & os.O_CREAT != 0:  # I hope that FUSE simple calls create in this case.
         #    self._set_created(path)   # what would the default mode even be?
         if not os.path.exists(self._realpath(path)):
-            if not self.mountSource.exists(path):
-                raise fuse.FuseOSError(errno.ENOENT)
+            self._ensure_exists(path)
 
             if flags & (os.O_WRONLY | os.O_RDWR):
                 self._ensure_file_is_modifiable(path)
-- 
2.43.0


From 6bff8f2c6151e555e5153c0a92b975b255705df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 42/91] fix: Create empty folders even in place of deleted
 files hiding a folder

---
 ratarmount/WriteOverlay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 948870f..a0fc196 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -451,6 +451,10 @@ class WritableFolderMountSource(fuse.Operations):
         os.mkdir(self._realpath(path), mode)
         self._set_created(path, mode | stat.S_IFDIR)
 
+        # The new folder has to be empty even if it replaces, e.g., a deleted file hiding a folder in another mount source.
+        for name in list(self.mountSource.list_mode(path) or []):
+            self._mark_as_deleted(f"{path.rstrip('/')}/{name}")
+
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def rmdir(self, path: str):
-- 
2.43.0


From 3fd6f4345f54d16e548a9af6175a79571cd53888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 43/91] fix: Do not show incomplete copies in the write overlay
 after errors

---
 ratarmount/WriteOverlay.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index a0fc196..88648d0 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,3 +1,4 @@
+import contextlib
 import errno
 import functools
 import inspect
@@ -176,13 +177,26 @@ class WritableFolderMountSource(fuse.Operations):
             return  # Copying it onto itself would lose its contents.
 
         self._ensure_exists(path)
+        fileInfo = self.mountSource.lookup(path)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
+
         self._ensure_parent_exists(path)
         self._keep_metadata(path)
-        with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-            open(self._realpath(path), 'wb') as targetObject,
-        ):
-            shutil.copyfileobj(sourceObject, targetObject)
+        realPath = self._realpath(path)
+        if stat.S_ISLNK(fileInfo.mode):
+            os.symlink(fileInfo.linkname, realPath)
+            return
+
+        with self.mountSource.open(fileInfo) as sourceObject:
+            try:
+                with open(realPath, 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
+            except Exception:
+                # Do not show an incomplete copy instead of the original.
+                with contextlib.suppress(OSError):
+                    os.unlink(realPath)
+                raise
 
     def _set_created(self, path: str, mode: Optional[int] = None):
         """Must be called after path was successfully created in the overlay folder."""
@@ -380,19 +394,9 @@ class WritableFolderMountSource(fuse.Operations):
         ):
             raise fuse.FuseOSError(errno.EXDEV)
 
+        self._ensure_file_is_modifiable(old)
         self._ensure_parent_exists(new)
-        if os.path.lexists(oldRealPath):
-            os.rename(oldRealPath, newRealPath)
-        else:
-            self._keep_metadata(old)
-            # Never write into something existing at the target path. It might be a link.
-            if os.path.lexists(newRealPath):
-                os.unlink(newRealPath)
-            if stat.S_ISLNK(fileInfo.mode):
-                os.symlink(fileInfo.linkname, newRealPath)
-            else:
-                with self.mountSource.open(fileInfo) as sourceObject, open(newRealPath, 'wb') as targetObject:
-                    shutil.copyfileobj(sourceObject, targetObject)
+        os.rename(oldRealPath, newRealPath)
 
         # Move the metadata over that of the replaced target path.
         newFolder, newName = self._split_path(new)
-- 
2.43.0


From c73231053a6ebc0fa19d3830fff49974457e5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 44/91] fix: Keep named pipes when renaming them and refuse to
 rename devices

---
 ratarmount/WriteOverlay.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 88648d0..aefc9ad 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -187,6 +187,11 @@ class WritableFolderMountSource(fuse.Operations):
         if stat.S_ISLNK(fileInfo.mode):
             os.symlink(fileInfo.linkname, realPath)
             return
+        if stat.S_ISFIFO(fileInfo.mode):
+            os.mkfifo(realPath)
+            return
+        if stat.S_ISCHR(fileInfo.mode) or stat.S_ISBLK(fileInfo.mode) or stat.S_ISSOCK(fileInfo.mode):
+            raise fuse.FuseOSError(errno.EPERM)
 
         with self.mountSource.open(fileInfo) as sourceObject:
             try:
-- 
2.43.0


From 71a7cc45559b161f525d9a57a24a57b36175819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 45/91] fix: Rename hard links over other ones to the same file

---
 ratarmount/WriteOverlay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index aefc9ad..dc81a25 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -401,7 +401,10 @@ class WritableFolderMountSource(fuse.Operations):
 
         self._ensure_file_is_modifiable(old)
         self._ensure_parent_exists(new)
-        os.rename(oldRealPath, newRealPath)
+        if os.path.lexists(newRealPath) and os.path.samestat(os.lstat(oldRealPath), os.lstat(newRealPath)):
+            os.unlink(oldRealPath)  # Renaming does nothing if both are hard links to the same file.
+        else:
+            os.rename(oldRealPath, newRealPath)
 
         # Move the metadata over that of the replaced target path.
         newFolder, newName = self._split_path(new)
-- 
2.43.0


From 593919c45da6578939abe0b0554ee5e9b32dcabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 46/91] fix: Show the time of writes even after setting the
 modification time of an open file

---
 ratarmount/WriteOverlay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index dc81a25..5bdef15 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -305,7 +305,7 @@ class WritableFolderMountSource(fuse.Operations):
         """Makes the modification time of the file in the overlay visible again, which is about to be written."""
         folder, name = self._split_path(path)
         self.sqlConnection.execute(
-            'UPDATE "files" SET mtime = NULL WHERE "path" == (?) and "name" == (?)', (folder, name)
+            'UPDATE "files" SET mtime = NULL WHERE "path" == (?) and "name" == (?) and mtime IS NOT NULL', (folder, name)
         )
 
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
@@ -551,6 +551,7 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
+        self._reset_modification_time(path)
         os.lseek(fh, offset, 0)
         return os.write(fh, data)
 
-- 
2.43.0


From be80ea3650a5915904d11139fa4d13ec21c728f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 47/91] fix: Keep file handles usable when copying to the write
 overlay fails

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 736c1e8..2e10f6a 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -871,8 +871,8 @@ class FuseMount(fuse.Operations):
                 return openedFile.write(data)
 
             if self.writeOverlay and not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
-                openedFile.close()
                 self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
+                openedFile.close()
 
         if self.writeOverlay and self._is_write_overlay_handle(fh):
             return self.writeOverlay.write(path, data, offset, self._resolve_file_handle(fh))
-- 
2.43.0


From bb82647d0623de5d5cedfda3e54975d7af311f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 48/91] fix: Commit links to folders inside the write overlay

---
 ratarmount/WriteOverlay.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 5bdef15..02023b9 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -625,17 +625,21 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         if not writeOverlayWithTrailingSlash.endswith('/'):
             writeOverlayWithTrailingSlash += '/'
 
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
+        for dirpath, dirnames, filenames in os.walk(writeOverlay, topdown=False):
             # dirpath should be a relative path (without leading slash) as seen from the overlay folder
             if dirpath.startswith(writeOverlayWithTrailingSlash):
                 dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
             elif dirpath == writeOverlay:
                 dirpath = ""
 
-            for name in filenames:
+            # os.walk also returns symbolic links to folders inside dirnames even though it does not descend into them.
+            for name in filenames + dirnames:
                 pathRelativeToRoot = f"{dirpath}/{name}".lstrip('/')
                 if pathRelativeToRoot in toBeIgnored:
                     continue
+                absolutePath = os.path.join(writeOverlay, pathRelativeToRoot)
+                if os.path.isdir(absolutePath) and not os.path.islink(absolutePath):
+                    continue
                 add_to_deletion_file(deletionListFile, pathRelativeToRoot)
                 appendListFile.write(f"{pathRelativeToRoot}\0")
 
-- 
2.43.0


From 6e05d2b86777c2590e4c1cc3417b93830e769cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 49/91] fix: Commit overlays with names containing pattern
 characters

---
 ratarmount/WriteOverlay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 02023b9..f8eaa5b 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -662,7 +662,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         print()
 
         if os.stat(deletionList).st_size > 0:
-            print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
+            print(f"    tar --delete --no-wildcards --null --verbatim-files-from --files-from='{deletionList}' \\")
             print(f"        --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
 
@@ -692,6 +692,8 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                     [
                         "tar",
                         "--delete",
+                        # Else, GNU tar prints a warning for names containing one of *?[\\, which is mistaken for an error.
+                        "--no-wildcards",
                         "--null",
                         f"--files-from={deletionList}",
                         "--file",
-- 
2.43.0


From 31ab842c5b1c49f1a1445a9c0557243fa85aadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 50/91] fix: Do not add the contents of folders multiple times
 when committing overlays

---
 ratarmount/WriteOverlay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index f8eaa5b..8a7835b 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -668,7 +668,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
 
         if os.stat(appendList).st_size > 0:
             print(
-                f"    tar --append -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
+                f"    tar --append --no-recursion -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
                 f"--file '{tarFile}'"
             )
         print()
@@ -719,6 +719,8 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                     [
                         "tar",
                         "--append",
+                        # The contents of folders are listed on their own and must not be added multiple times.
+                        "--no-recursion",
                         "-C",
                         writeOverlay,
                         "--null",
-- 
2.43.0


From f255856b85c4d79fe0c768862e888b2ac5a8ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 51/91] fix: Show block devices inside TARs with their file
 type

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 9f0ab86..5c23525 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From 7244c396048bc69d0c51dacc4ba246f683623453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 52/91] fix: Show TAR members with unknown types as regular
 files as specified by POSIX

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 5c23525..4e077cb 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -142,7 +142,7 @@ class _TarFileMetadataReader:
         return (
             tarInfo.mode
             | ( stat.S_IFDIR if tarInfo.isdir () else 0 )
-            | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
+            | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type not in tarfile.SUPPORTED_TYPES else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
             | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
-- 
2.43.0


From ccad511427700161b310f54e50c54b7f547b23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 53/91] fix: Ignore file type bits in the mode field of TAR
 headers

---
 core/ratarmountcore/mountsource/formats/tar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 4e077cb..2f0a681 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -140,7 +140,7 @@ class _TarFileMetadataReader:
 
         # fmt: off
         return (
-            tarInfo.mode
+            stat.S_IMODE(tarInfo.mode)
             | ( stat.S_IFDIR if tarInfo.isdir () else 0 )
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type not in tarfile.SUPPORTED_TYPES else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
@@ -273,7 +273,7 @@ class _TarFileMetadataReader:
             # bits in the offset are redundant anyway.
             dirFileInfo[2] += 1
             dirFileInfo[4] = 0  # directory entries have no size by convention
-            dirFileInfo[6] = tarInfo.mode | stat.S_IFDIR
+            dirFileInfo[6] = stat.S_IMODE(tarInfo.mode) | stat.S_IFDIR
             fileInfos.append(tuple(dirFileInfo))
 
         return fileInfos, xattrRows, False, isGnuIncremental
-- 
2.43.0


From 38876967a91a5eb402cf7c5ca3c1221ab07c473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 54/91] fix: Use the real name of sparse files inside PAX
 archives

---
 core/ratarmountcore/mountsource/formats/tar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 2f0a681..0a1c551 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -419,6 +419,11 @@ class _TarFileMetadataReader:
                 # Note that the .members trick already assumes that we are only iterating over the tar file once.
                 # The next iteration would fail because loadedTarFile._loaded would be True and .members would be
                 # yielded even though they are now empty. Therefore it is fine to do some monkey-patching here.
+                # The tarfile module applies the PAX keywords in the order they appear. But, the real name of sparse files
+                # takes precedence over the path, which may follow it, e.g., for names with non-ASCII characters.
+                if 'GNU.sparse.name' in tarInfo.pax_headers:
+                    tarInfo.name = tarInfo.pax_headers['GNU.sparse.name']
+
                 if 'size' in tarInfo.pax_headers:
                     # Patch https://github.com/python/cpython/issues/136601
                     for key in ('GNU.sparse.size', 'GNU.sparse.realsize'):
-- 
2.43.0


From f0f906a9e2aa5ac7cfc1f5dea022cfe415bf9afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 55/91] fix: files too small for rapidgzip's type detection
 raised an error instead of being no deflate stream

---
 core/ratarmountcore/formats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..95c981e 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -305,10 +305,10 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
     if not callable(determineFileType):
         return False
 
-    if determineFileType(fileobj).lower() != 'deflate':
-        return False
-
     try:
+        if determineFileType(fileobj).lower() != 'deflate':
+            return False
+
         # determineFileType only checks the header, which is almost nothing for 'deflate'.
         # Therefore try to read a bit.
         with rapidgzip.RapidgzipFile(fileobj, parallelization=1, chunk_size=128 * 1024) as file:
-- 
2.43.0


From 7d39900b16b945766bb4e1479da8aaa992ec3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 56/91] fix: links to files were searched for split parts under
 the name of their target

---
 core/ratarmountcore/compressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index bcf7c11..f3f9b41 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -319,7 +319,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # These character tests are necessary because Python's built-in isalpha, isdigit and such
     # all also return true for a lot of Unicode alternatives like for the Thai zero.
 
-    filename = os.path.split(os.path.realpath(path))[1]  # Get file extensions
+    # Do not resolve links because the candidates are the names in the folder of the link and the paths are built from it.
+    filename = os.path.split(path)[1]  # Get file extensions
     if '.' not in filename:
         return None
     basename, extension = filename.rsplit('.', maxsplit=1)
-- 
2.43.0


From b8a92073652a425901c20d5eea4ecc611f67c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 57/91] fix: a file outside of the sequence of the split files
 next to it was replaced with that sequence

---
 core/ratarmountcore/compressions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index f3f9b41..48dc91b 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -328,9 +328,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # Collect all other files in the folder that might belong to the same split.
     extensions = [name[len(basename) + 1 :] for name in candidateNames if name.startswith(basename + '.')]
     extensions = [e for e in extensions if has_matching_alphabets(e, extension)]
-    if not extensions:
+    if extension not in extensions:
         return None
-    assert extension in extensions
 
     # Note that even if something consists only of letters or only digits it still might be hexadecimal encoding!
     maxFormatSpecifier = ''
@@ -339,7 +338,7 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
         extensionSequence = check_for_sequence(
             extensions, lambda i, baseDigits=baseDigits: format_number(i, baseDigits, len(extension))  # type: ignore
         )
-        if len(extensionSequence) > len(maxExtensions):
+        if extension in extensionSequence and len(extensionSequence) > len(maxExtensions):
             maxFormatSpecifier = formatSpecifier
             maxExtensions = extensionSequence
 
-- 
2.43.0


From e19e8acd66264ac812c789b309ac937f8cf37158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 58/91] fix: the smplayer checksum was wrong for files whose
 reads return less than what was asked for

---
 core/ratarmountcore/hashing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/hashing.py b/core/ratarmountcore/hashing.py
index 22a98db..90736e4 100644
--- a/core/ratarmountcore/hashing.py
+++ b/core/ratarmountcore/hashing.py
@@ -51,6 +51,16 @@ def _smplayer_hash_accumulate(data: bytes) -> int:
     return result
 
 
+def _read_fully(fileObject: IO[bytes], size: int) -> bytes:
+    data = b''
+    while len(data) < size:
+        chunk = fileObject.read(size - len(data))
+        if not chunk:
+            break
+        data += chunk
+    return data
+
+
 def smplayer_hash(fileObject: IO[bytes]) -> str:
     """
     https://github.com/smplayer-dev/smplayer/blob/master/src/filehash.cpp
@@ -61,7 +71,7 @@ def smplayer_hash(fileObject: IO[bytes]) -> str:
     chunk_size = 64 * 1024
 
     fileObject.seek(0)
-    result = _smplayer_hash_accumulate(fileObject.read(chunk_size))
+    result = _smplayer_hash_accumulate(_read_fully(fileObject, chunk_size))
 
     fileObject.seek(0, io.SEEK_END)
     file_size = fileObject.tell()
@@ -71,7 +81,7 @@ def smplayer_hash(fileObject: IO[bytes]) -> str:
     # For files >= chunk_size and < 2 * chunk_size, this will effectively sum up all QWORDS in the file
     # without summing up the middle QWORDS twice. These edge cases are not really handled in smplayer.
     fileObject.seek(min(max(chunk_size, file_size - chunk_size), file_size))
-    result += _smplayer_hash_accumulate(fileObject.read(chunk_size))
+    result += _smplayer_hash_accumulate(_read_fully(fileObject, chunk_size))
 
     return f"{result & 0xFFFF_FFFF_FFFF_FFFF:016x}"
 
-- 
2.43.0


From 817524092cdc337673a796fbb505f1e2523ffb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 59/91] fix: all but the first long member name of GNU and LLVM
 AR archives were lost

---
 core/ratarmountcore/mountsource/formats/ar.py | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..64bcfc9 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # The members refer to the names in this table by their byte offsets.
+    long_names: Optional[bytes] = None
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -83,14 +82,10 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     def get_long_file_name(name: bytes):
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
-            if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+            if index < len(long_names):
+                # GNU and LLVM terminate names with a slash and newline, COFF archives with a null byte.
+                ends = [long_names.find(terminator, index) for terminator in (b'/\n', b'\0')]
+                return long_names[index : min((end for end in ends if end >= 0), default=len(long_names))]
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +133,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            long_names = fileObject.read(size)
+            fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From 7f38dc42990718ebfa04b0aa002b793bc1c26561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 60/91] fix: AR archives with a member name that is not valid
 in the encoding could not be opened

---
 core/ratarmountcore/mountsource/formats/ar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 64bcfc9..39b0720 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -215,10 +215,15 @@ class ARMountSource(SQLiteIndexMountSource):
             mode = 0o770 if info.isdir() else 0o660
         mode = mode | (stat.S_IFLNK if info.issym() else mode) | (stat.S_IFDIR if info.isdir() else stat.S_IFREG)
 
-        name = info.name.decode(self.index.encoding)  # type: ignore
+        # As for TAR, undecodable names are escaped when they are inserted into the index.
+        name = info.name.decode(self.index.encoding, 'surrogateescape')  # type: ignore
         path, name = SQLiteIndex.normpath(self.transform(name)).rsplit("/", 1)
 
-        linkname = info.linkname.decode(self.index.encoding) if isinstance(info.linkname, bytes) else info.linkname
+        linkname = (
+            info.linkname.decode(self.index.encoding, 'surrogateescape')
+            if isinstance(info.linkname, bytes)
+            else info.linkname
+        )
 
         # fmt: off
         fileInfo : tuple = (
-- 
2.43.0


From 4d734786199f801f59d3848abb932e1908851192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 61/91] fix: SQLAR folders whose names contain wildcard
 characters were listed wrongly

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index b5518c6..185c820 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,3 +1,4 @@
+import glob
 import posixpath
 import shutil
 import sqlite3
@@ -291,18 +292,24 @@ class SQLARMountSource(MountSource):
                 names.append(name)
         return names
 
+    @staticmethod
+    def _get_children_pattern(path: str) -> tuple[int, str]:
+        """Returns the 1-based start of the child name and the GLOB pattern for all full names below the given folder."""
+        prefix = path.strip('/') + '/' if path.strip('/') else ''
+        return len(prefix) + 1, glob.escape(prefix) + '*'
+
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        start, pathGlob = self._get_children_pattern(path)
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
                 "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (start, pathGlob, start),
             )
         }
 
@@ -311,11 +318,11 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        start, pathGlob = self._get_children_pattern(path)
         return dict(
             self.connection.execute(
                 "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (start, pathGlob, start),
             )
         )
 
-- 
2.43.0


From 2e74c5d8afb865316b69ebff8dbb96fd70ea5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 62/91] fix: SQLAR members in folders without an own entry were
 not reachable

---
 .../mountsource/formats/sqlar.py              | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 185c820..2e469c4 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -188,15 +188,23 @@ class SQLARMountSource(MountSource):
 
         self.options = options
 
-        # Check for denormal names and store a normalized list if necessary.
-        self._files: dict[str, int] = {}
+        # Check for denormal names or missing parent folders and store a normalized list if necessary.
+        # Folders without an entry are stored with None as rowid.
+        self._files: dict[str, Optional[int]] = {}
+        names = {name for name, in self.connection.execute("SELECT name FROM sqlar;")}
+        folders = names | {''}
         if any(
-            posixpath.normpath(name.lstrip('/')) != name for name, in self.connection.execute("SELECT name FROM sqlar;")
+            posixpath.normpath(name.lstrip('/')) != name or posixpath.dirname(name) not in folders
+            for name in names
         ):
             self._files = {
                 posixpath.normpath(name.lstrip('/')): rowid
                 for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;")
             }
+            self._files.pop('.', None)
+            for name in list(self._files):
+                while name := posixpath.dirname(name):
+                    self._files.setdefault(name, None)
 
     @staticmethod
     def _quick_check_file(fileObject: IO[bytes], name: str, passwords: Optional[Sequence[bytes]]) -> bytes:
@@ -334,11 +342,12 @@ class SQLARMountSource(MountSource):
             return create_root_file_info([-1])
 
         if self._files:
-            path = path.lstrip('/')
-            # We assume here that all parent folders to files appear in the table.
+            path = path.strip('/')
             if path not in self._files:
                 return None
             rowid = self._files[path]
+            if rowid is None:
+                return create_root_file_info([-1])
 
             result = self.connection.execute(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
-- 
2.43.0


From 61b7f1b522de5fee2f089470014ff13c5d62b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 63/91] fix: stored database blobs could become larger than the
 maximum blob size

---
 core/ratarmountcore/SQLiteBlobFile.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/core/ratarmountcore/SQLiteBlobFile.py b/core/ratarmountcore/SQLiteBlobFile.py
index 301fb2b..37d16dc 100644
--- a/core/ratarmountcore/SQLiteBlobFile.py
+++ b/core/ratarmountcore/SQLiteBlobFile.py
@@ -94,22 +94,17 @@ class WriteSQLiteBlobs(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def write(self, buffer) -> int:
-        freeBytesInBlob = self.blob_size - self.blob.tell()
         writtenCount = 0
-
-        if len(buffer) < freeBytesInBlob:
-            writtenCount += self.blob.write(buffer)
-        else:
-            writtenCount += self.blob.write(buffer[:freeBytesInBlob])
-            self._flush_blob()
-            writtenCount += self.blob.write(buffer[freeBytesInBlob:])
+        with memoryview(buffer) as view, view.cast('B') as byteView:
+            while writtenCount < len(byteView):
+                freeBytesInBlob = max(1, self.blob_size - self.blob.tell())
+                writtenCount += self.blob.write(byteView[writtenCount : writtenCount + freeBytesInBlob])
+                if self.blob.tell() >= self.blob_size:
+                    self._flush_blob()
 
         self._size += writtenCount
 
-        if writtenCount != len(buffer):
-            raise RuntimeError("Failed to write all of the given data out!")
-
-        return len(buffer)
+        return writtenCount
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
-- 
2.43.0


From 077afbbc28c68600c7f530f626c0ae037bcd60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 64/91] fix: reading behind the end of an uncompressed SQLAR
 member raised an error

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 2e469c4..bf18700 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -138,6 +138,8 @@ class FixedSqliteBlob(LambdaReaderFile):
         self.blob = blob
 
         def pread(offset: int, size: int) -> bytes:
+            if size <= 0:
+                return b""  # sqlite3.Blob cannot be seeked behind its end.
             self.blob.seek(offset)
             return self.blob.read(size)
 
-- 
2.43.0


From 66651cd875d2d330c67ab6a7065343a564c72a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 65/91] fix: control commands with arguments that are not valid
 UTF-8 failed and the bare command became an argument

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 2e10f6a..525a317 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -39,7 +39,7 @@ def split_command_line(command: bytes, name: bytes = b'ratarmount') -> list[str]
         raise ValueError(f"Command must start with: {name.decode()}")
 
     if command == name:
-        return [name.decode()]
+        return []
 
     delimiter = command[len(name) : len(name) + 1]
     command = command[len(name) + 1 :]
@@ -52,7 +52,7 @@ def split_command_line(command: bytes, name: bytes = b'ratarmount') -> list[str]
     if delimiter == b' ' and command and command[-1] == ord('\n'):
         command = command[:-1]
 
-    return [part.decode() for part in command.split(delimiter)]
+    return [os.fsdecode(part) for part in command.split(delimiter)]
 
 
 class CommandFile(io.RawIOBase):
-- 
2.43.0


From 5e36082076814b827604b08a17b8c7c043b4b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 66/91] fix: index locations beside the archive or below ~
 could end up inside the mount point

---
 ratarmount/FuseMount.py | 48 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 525a317..ea9141c 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -203,7 +203,7 @@ class FuseMount(fuse.Operations):
             # Here we need to ensure that indexes are not tried to being read from or written to our own
             # FUSE mount point.
             if options.get('lazyMounting', False):
-                self._filter_index_locations_in_fuse_mount(options)
+                self._filter_index_locations_in_fuse_mount(options, archivesAreInside=True)
 
         # Open log file.
         openLog: Optional[Callable[[int], IO[bytes]]] = None
@@ -429,31 +429,45 @@ class FuseMount(fuse.Operations):
                 return subpath
         return None
 
-    def _filter_index_locations_in_fuse_mount(self, options: dict) -> None:
+    def _resolve_path_outside_fuse_mount(self, path: str) -> Optional[str]:
+        """Returns the real path or None if it is inside our mount point."""
+        path = os.path.abspath(os.path.expanduser(path))
+        # Resolving links inside our mount point would call into our own FUSE mount point.
+        if self._path_provided_by_us(path) is not None:
+            return None
+        path = os.path.realpath(path)
+        return path if self._path_provided_by_us(path) is None else None
+
+    def _filter_index_locations_in_fuse_mount(self, options: dict, archivesAreInside: bool) -> None:
+        """
+        archivesAreInside: If true, then the empty index folder, i.e., the one containing the archive, is also removed.
+        """
         hasIndexPath = False
 
-        if 'indexFilePath' in options and isinstance(options['indexFilePath'], str):
-            indexFilePath = options['indexFilePath']
+        indexFilePath = options.get('indexFilePath')
+        if indexFilePath == ':memory:':
+            return
+
+        if isinstance(indexFilePath, str) and indexFilePath:
             # Strip a single file://, not any more because URL chaining is supported by fsspec.
-            if options['indexFilePath'].count('://') == 1:
-                fileURLPrefix = 'file://'
-                indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
+            if indexFilePath.count('://') == 1:
+                indexFilePath = indexFilePath.removeprefix('file://')
             if '://' not in indexFilePath:
-                indexFilePath = os.path.realpath(options['indexFilePath'])
+                indexFilePath = self._resolve_path_outside_fuse_mount(indexFilePath)
 
-            if self._path_provided_by_us(indexFilePath) is not None:
+            if indexFilePath is None:
                 del options['indexFilePath']
             else:
                 options['indexFilePath'] = indexFilePath
-                hasIndexPath = True
+                # The index file is only used for a single archive, but not for those in folders.
+                hasIndexPath = not archivesAreInside
 
         if 'indexFolders' in options and isinstance(options['indexFolders'], list):
-            indexFolders = options['indexFolders']
-            newIndexFolders = []
-            for folder in indexFolders:
-                if self._path_provided_by_us(folder) is not None:
-                    continue
-                newIndexFolders.append(os.path.realpath(folder))
+            newIndexFolders: list[str] = []
+            for folder in options['indexFolders']:
+                newFolder = self._resolve_path_outside_fuse_mount(folder) if folder else folder
+                if newFolder or (newFolder == '' and not archivesAreInside):
+                    newIndexFolders.append(newFolder)
             options['indexFolders'] = newIndexFolders
             if newIndexFolders:
                 hasIndexPath = True
@@ -515,7 +529,7 @@ class FuseMount(fuse.Operations):
         options = CLIHelpers.parsed_args_to_options(args)
         options.pop('pathToMount', None)
         options.pop('mountPoint', None)
-        self._filter_index_locations_in_fuse_mount(options)
+        self._filter_index_locations_in_fuse_mount(options, archivesAreInside=False)
 
         # We have checked at the start of this method that none of args.mount_source points into our FUSE mount!
         mountSources: list[tuple[str, MountSource]] = [
-- 
2.43.0


From 5725f075dd31a96e3f29209b3144008f6bbab04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 67/91] fix: sources with a trailing slash and . could not be
 mounted side by side

---
 ratarmount/FuseMount.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index ea9141c..695b506 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -186,7 +186,7 @@ class FuseMount(fuse.Operations):
                 if path == self.overlayPath and isinstance(mountSource, FolderMountSource):
                     # Links are created for the mount point. Do not show, or even write to, something outside of it.
                     mountSource.resolveOutsideLinks = False
-                mountSources.append((os.path.basename(path), mountSource))
+                mountSources.append((self._get_subvolume_name(path), mountSource))
                 continue
 
             if self.mountPointFd is not None:
@@ -194,7 +194,7 @@ class FuseMount(fuse.Operations):
 
             # Create either FolderMountSource or IndexedFolderMountSource.
             mountSource = open_mount_source(path, **options)
-            mountSources.append((os.path.basename(path), mountSource))
+            mountSources.append((self._get_subvolume_name(path), mountSource))
             self.selfBindMount = mountSource
             self.mountPointFd = os.open(self.mountPoint, os.O_RDONLY)
 
@@ -477,6 +477,14 @@ class FuseMount(fuse.Operations):
         if not hasIndexPath:
             options['indexFilePath'] = ':memory:'
 
+    @staticmethod
+    def _get_subvolume_name(path: str) -> str:
+        # There is no name after a trailing slash and the special names '.' and '..' cannot be used for a subfolder.
+        name = os.path.basename(os.fspath(path).rstrip('/'))
+        if name in ('', '.', '..'):
+            name = '' if '://' in path else os.path.basename(os.path.realpath(path))
+        return name or 'root'
+
     @staticmethod
     def _create_multi_mount(mountSources: list[tuple[str, MountSource]], options: dict) -> MountSource:
         if not options.get('disableUnionMount', False):
@@ -533,7 +541,7 @@ class FuseMount(fuse.Operations):
 
         # We have checked at the start of this method that none of args.mount_source points into our FUSE mount!
         mountSources: list[tuple[str, MountSource]] = [
-            (os.path.basename(path), open_mount_source(path, **options)) for path in args.mount_source
+            (self._get_subvolume_name(path), open_mount_source(path, **options)) for path in args.mount_source
         ]
         mountSource: MountSource = (
             mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
-- 
2.43.0


From 2115c5b9ea6bfc0fc50f19eaa8cbeec11f9c445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 68/91] fix: the control interface could not be used when union
 mounting is disabled

---
 ratarmount/FuseMount.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 695b506..4675cf2 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -239,8 +239,12 @@ class FuseMount(fuse.Operations):
             if not mountSources:
                 self._subvolumes = SubvolumesMountSource({})
                 mountSources.append(('/', self._subvolumes))
+            elif options.get('disableUnionMount', False):
+                self._subvolumes = cast(SubvolumesMountSource, self._create_multi_mount(mountSources, options))
+                mountSources = [('/', self._subvolumes)]
             controlLayer = RemovePrefixMountSource(self._controlLayerPrefix, UnionMountSource(controlFiles))
-            mountSources.append(('/', controlLayer))
+            # The control layer is always merged with everything else. It has no subfolder of its own.
+            mountSources = [('/', UnionMountSource([*(x[1] for x in mountSources), controlLayer], **options))]
 
         if not mountSources:
             raise ValueError("Mount point is empty! Either specify some input files or enable the control interface!")
-- 
2.43.0


From 915fdc4061ab57313eef5a2ff7fae0a2c7071375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 69/91] fix: paths with two leading slashes were not recognized
 as being inside the mount point

---
 ratarmount/FuseMount.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 4675cf2..438449c 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -425,6 +425,9 @@ class FuseMount(fuse.Operations):
 
     def _path_provided_by_us(self, path: str) -> Optional[str]:
         normpath = os.path.normpath(path)
+        # Exactly two leading slashes are kept by normpath even though they are not different from one.
+        if normpath.startswith('//'):
+            normpath = normpath[1:]
         if normpath == self.mountPoint:
             return ""
         for separator in ['/', os.path.sep]:
-- 
2.43.0


From 4ad093a28c719c8ccda8bdd7979eef33b66d0de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 70/91] fix: folders with names like archives or split files
 were mounted as such when mounting lazily

---
 core/ratarmountcore/mountsource/compositing/automount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 806d98c..c553257 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -158,7 +158,8 @@ class AutoMountLayer(MountSource):
         parentMountSource = parentMountInfo.mountSource
 
         archiveFileInfo = parentMountSource.lookup(pathInsideParentMountPoint)
-        if archiveFileInfo is None:
+        # Lazy mounting also tries parent folders, which may be named like an archive.
+        if archiveFileInfo is None or stat.S_ISDIR(archiveFileInfo.mode):
             return None
 
         # Do not mount uncompressed TARs inside SQLiteIndexedTar when they already were mounted recursively!
-- 
2.43.0


From 1eaa06c4775689c0e543547671abe4fc2844a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 71/91] fix: entries listed for a folder had the path as link
 target and could not be opened

---
 core/ratarmountcore/mountsource/formats/folder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index c427203..f9a909c 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -120,13 +120,13 @@ class FolderMountSource(MountSource):
         # fmt: on
 
     @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
+    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str):
         try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
+            linkname = os.readlink(dirEntry.path) if dirEntry.is_symlink() else ""
         except OSError:
             linkname = ""
 
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), path, linkname)
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -163,7 +163,9 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
+            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(
+                dirEntry, os.path.join(path.strip('/'), os.fsdecode(dirEntry.name))
+            )
             for dirEntry in os.scandir(realpath)
         }
 
-- 
2.43.0


From 7ba7d58fe8f9bfb850a4c181979cc05590bede10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 72/91] fix: links pointing outside of the folder were listed
 as links although they are shown as their targets

---
 .../mountsource/formats/folder.py               | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index f9a909c..641a4c5 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -119,14 +119,16 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str):
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str):
         try:
             linkname = os.readlink(dirEntry.path) if dirEntry.is_symlink() else ""
         except OSError:
             linkname = ""
 
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), path, linkname)
+        if linkname and self._is_resolved_link(path, linkname):
+            realpath = os.path.realpath(dirEntry.path)
+            return self._stats_to_file_info(os.stat(realpath), realpath, "")
+        return self._stats_to_file_info(dirEntry.stat(follow_symlinks=False), path, linkname)
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -163,7 +165,7 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(
+            os.fsdecode(dirEntry.name): self._dir_entry_to_file_info(
                 dirEntry, os.path.join(path.strip('/'), os.fsdecode(dirEntry.name))
             )
             for dirEntry in os.scandir(realpath)
@@ -182,8 +184,11 @@ class FolderMountSource(MountSource):
         # Unfortunately, I am not sure whether it would be sufficient to build the file mode from these
         # two getters. For now, I'd say that all the esoteric stuff is simply not supported.
         def make_mode(dirEntry):
-            mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
-            if dirEntry.is_symlink():
+            isLink = dirEntry.is_symlink() and not self._is_resolved_link(
+                os.path.join(path.strip('/'), os.fsdecode(dirEntry.name)), os.readlink(dirEntry.path)
+            )
+            mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=not isLink) else stat.S_IFREG
+            if isLink:
                 mode = stat.S_IFLNK
             return mode
 
-- 
2.43.0


From 514b0063daaed14f96ab55896f55ed505fd427b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 73/91] fix: links in folders behind links pointing outside of
 the folder were shown as folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 641a4c5..5efe70b 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -93,8 +93,8 @@ class FolderMountSource(MountSource):
         end = path.find('/')
         while end >= 0:
             realpath = self._realpath(path[:end])
-            if os.path.islink(realpath):
-                return not self._is_resolved_link(path[:end], os.readlink(realpath))
+            if os.path.islink(realpath) and not self._is_resolved_link(path[:end], os.readlink(realpath)):
+                return True
             end = path.find('/', end + 1)
         return False
 
-- 
2.43.0


From c03260e26b0836383d800b50e3249ee6b59d8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 74/91] fix: looking up names that are not valid UTF-8 failed,
 which also hid such files in folders next to archives

---
 core/ratarmountcore/SQLiteIndex.py | 32 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 81a27fb..de1ad15 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -890,8 +890,10 @@ class SQLiteIndex:
                     (self._query_normpath(path).rstrip('/'),),
                 )
             )
+        except UnicodeEncodeError:
+            # Names that are not valid UTF-8 are only stored escaped.
+            return None
         finally:
-            # Also restore it when the query fails, e.g., for paths that cannot be encoded to UTF-8.
             self.get_connection().row_factory = oldRowFactory
 
         gotResults = bool(directory)
@@ -915,6 +917,8 @@ class SQLiteIndex:
                 'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
                 (self._query_normpath(path).rstrip('/'),),
             )
+        except UnicodeEncodeError:
+            return None
         finally:
             self.get_connection().row_factory = oldRowFactory
 
@@ -936,9 +940,12 @@ class SQLiteIndex:
             return {'/': create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])}
 
         path, name = path.rsplit('/', 1)
-        rows = self.get_connection().execute(
-            'SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" ASC', (path, name)
-        )
+        try:
+            rows = self.get_connection().execute(
+                'SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" ASC', (path, name)
+            )
+        except UnicodeEncodeError:
+            return {}
         return {str(version + 1): self._row_to_file_info(row) for version, row in enumerate(rows)}
 
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
@@ -959,19 +966,22 @@ class SQLiteIndex:
             return create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])
 
         path, name = path.rsplit('/', 1)
-        row = (
-            self.get_connection()
-            .execute(
-                f"""
+        try:
+            row = (
+                self.get_connection()
+                .execute(
+                    f"""
             SELECT * FROM "files"
             WHERE "path" == (?) AND "name" == (?)
             ORDER BY "offsetheader" {'DESC' if fileVersion is None or fileVersion <= 0 else 'ASC'}
             LIMIT 1 OFFSET (?);
             """,
-                (path, name, 0 if fileVersion is None else fileVersion - 1 if fileVersion > 0 else -fileVersion),
+                    (path, name, 0 if fileVersion is None else fileVersion - 1 if fileVersion > 0 else -fileVersion),
+                )
+                .fetchone()
             )
-            .fetchone()
-        )
+        except UnicodeEncodeError:
+            return None
         return self._row_to_file_info(row) if row else None
 
     def setxattrs(self, rows: Sequence[tuple[int, str, bytes]]):
-- 
2.43.0


From fc750ac86d29748834b4fd9ba02f7983e2e2af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 75/91] fix: indexing failed for names that are neither valid
 UTF-8 nor representable in the encoding

---
 core/ratarmountcore/SQLiteIndex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index de1ad15..57c9dbb 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1110,7 +1110,11 @@ class SQLiteIndex:
             toEscape.encode()
             return toEscape
         except UnicodeEncodeError:
-            return toEscape.encode(encoding, 'surrogateescape').decode(encoding, 'backslashreplace')
+            try:
+                return toEscape.encode(encoding, 'surrogateescape').decode(encoding, 'backslashreplace')
+            except UnicodeEncodeError:
+                # E.g., names in PAX headers can contain characters that do not exist in the encoding.
+                return toEscape.encode('utf-8', 'backslashreplace').decode('utf-8')
 
     def set_file_info(self, row: tuple) -> None:
         connection = self.get_connection()
-- 
2.43.0


From a30f33b75b27d24a41960a6bbee815bcbc271106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 76/91] fix: indexing failed for keys of extended attributes
 that are not valid UTF-8

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 57c9dbb..bcf5ffa 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -985,6 +985,8 @@ class SQLiteIndex:
         return self._row_to_file_info(row) if row else None
 
     def setxattrs(self, rows: Sequence[tuple[int, str, bytes]]):
+        # Keys that are not valid UTF-8 cannot be stored as they are.
+        rows = [(row[0], self._escape_invalid_characters(row[1], self.encoding), row[2]) for row in rows]
         # We cannot use "OR REPLACE" here, or else it will override the TRIGGER behavior on the xattrs view!
         self.get_connection().executemany('INSERT INTO "xattrs" VALUES (?,?,?)', rows)
 
@@ -1025,6 +1027,9 @@ class SQLiteIndex:
                 .fetchone()
             )
             return row[0] if row else None
+        except UnicodeEncodeError:
+            # Keys that are not valid UTF-8 are only stored escaped.
+            pass
         except sqlite3.OperationalError:
             # May happen when loading old indexes that do not have the xattrs table.
             pass
-- 
2.43.0


From 08fa439e8e632176e856e9c3b8280b3ae07075bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 77/91] fix: folder names that are not valid UTF-8 could be
 escaped differently for the folder and its members

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index bcf5ffa..1708441 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1115,6 +1115,11 @@ class SQLiteIndex:
             toEscape.encode()
             return toEscape
         except UnicodeEncodeError:
+            if '/' in toEscape:
+                # Escape names on their own so that each one results in the same no matter in which path it appears.
+                return '/'.join(
+                    SQLiteIndex._escape_invalid_characters(name, encoding) for name in toEscape.split('/')
+                )
             try:
                 return toEscape.encode(encoding, 'surrogateescape').decode(encoding, 'backslashreplace')
             except UnicodeEncodeError:
-- 
2.43.0


From 72fc6050bfae7bc2a0b340597e4143ca29a0413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 78/91] fix: ZIP archives with members that have no valid date
 could not be mounted

---
 core/ratarmountcore/mountsource/formats/zip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 45f132a..5bc5a57 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -55,7 +55,10 @@ class ZipMountSource(SQLiteIndexMountSource):
         )
 
     def _convert_to_row(self, info: "zipfile.ZipInfo") -> tuple:
-        mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp() if info.date_time else 0
+        mtime: float = 0
+        # Some tools leave the date empty, which means that the day and month are 0.
+        with contextlib.suppress(ValueError):
+            mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp() if info.date_time else 0
 
         # According to section 4.5.7 in the .ZIP file format specification, links are supported:
         # https://pkware.cachefly.net/webdocs/casestudies/APPNOTE.TXT
-- 
2.43.0


From ad81bb295ea23a6faa39664935e3127c86354b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 79/91] fix: ZIP archives with link targets that are not valid
 UTF-8 could not be mounted

---
 core/ratarmountcore/mountsource/formats/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 5bc5a57..8ff7c57 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -76,7 +76,7 @@ class ZipMountSource(SQLiteIndexMountSource):
         if mode == 0:
             mode = 0o770 if info.is_dir() else 0o660
         if stat.S_ISLNK(info.external_attr >> 16):
-            linkname = self.fileObject.read(info).decode()
+            linkname = self.fileObject.read(info).decode(errors='surrogateescape')
             mode = mode | stat.S_IFLNK
         else:
             mode = mode | (stat.S_IFDIR if info.is_dir() else stat.S_IFREG)
-- 
2.43.0


From 6358b1babc7d47502fbc3c2f3db12921f78316f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 80/91] fix: empty files opened with the libarchive backend
 could not be read

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..df70800 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -391,6 +391,8 @@ class LibarchiveFile(io.RawIOBase):
                 break
             if self._entry.entry_index == self.entry_index:
                 self._refill_buffer()
+                if self._bufferIO is None:
+                    self._bufferIO = io.BytesIO()  # There is nothing to buffer for empty files.
                 break
 
         if self._entry is None and self._bufferIO is None:
-- 
2.43.0


From ee285f50f21da9374588557553e006aa7b23a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 81/91] fix: archives opened with libarchive could not be
 mounted if a name is not valid in the encoding

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index df70800..fe342a5 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -1,7 +1,6 @@
 # libarchive.ffi produces many false positives on my local system and there seems to be nothing else works.
 # pylint: disable=no-member
 
-import contextlib
 import ctypes
 import io
 import logging
@@ -83,8 +82,7 @@ class ArchiveEntry:
         if not path:
             path = laffi.entry_pathname(self._entry)
             if path is not None:
-                with contextlib.suppress(UnicodeError):
-                    path = path.decode(self.encoding)
+                path = path.decode(self.encoding, 'surrogateescape')
         return path
 
     def mode(self):
@@ -111,8 +109,7 @@ class ArchiveEntry:
                 path = laffi.entry_hardlink(self._entry)
 
         if isinstance(path, bytes):
-            with contextlib.suppress(UnicodeError):
-                path = path.decode(self.encoding)
+            path = path.decode(self.encoding, 'surrogateescape')
 
         return path
 
-- 
2.43.0


From 9198c6cd8eb3fb557cd3f96e34813919e32bc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 82/91] fix: hard links and special files in archives opened
 with libarchive were shown as symbolic links and regular files

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index fe342a5..e9b2526 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -127,12 +127,17 @@ class ArchiveEntry:
                 size += readSize
 
         mode = self.mode() & 0o777
-        linkname = self.linkname()
-        if linkname:
+        linkname = self.linkname() or ""
+        if self.is_symbolic_link():
             mode = mode | stat.S_IFLNK
+        elif linkname and size == 0:
+            # Hard links, whose targets are relative to the root of the archive, have no file type just like those
+            # in TARs, so that they are resolved by FileVersionLayer.
+            pass
         else:
+            # Hard links can also come with data, e.g., only the last hard link to a file does so in CPIO archives.
             linkname = ""
-            mode = mode | (stat.S_IFDIR if self.is_directory() else stat.S_IFREG)
+            mode = mode | (stat.S_IFMT(self.filetype()) or stat.S_IFREG)
 
         if not path:
             path = self.path()
-- 
2.43.0


From 455b5f199773eaf9b4e90c0f76a28d41ab17ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 83/91] fix: reading from two members of an archive given as
 file object and opened with libarchive at a time failed

---
 .../mountsource/formats/libarchive.py         | 39 +++++++++++++------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index e9b2526..3df7b78 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -7,6 +7,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -198,6 +199,7 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileLock: Optional[threading.Lock] = None,
     ):
         self.encoding = encoding
         self.bufferSize = bufferSize
@@ -206,6 +208,8 @@ class IterableArchive:
         self._buffer = None
         self._readCallback = None
         self._seekCallback = None
+        self._position = 0  # The file object is shared with other instances, which move its position.
+        self._fileLock = fileLock or threading.Lock()
         self._entry: Optional[ArchiveEntry] = None
         self._eof = False
 
@@ -273,25 +277,34 @@ class IterableArchive:
         if not hasattr(self._file, 'readinto'):
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
+        seekable = hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell')
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
-            try:
-                size = self._file.readinto(self._buffer)
-            except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
-                size = len(result)
-                self._buffer = ctypes.c_char_p(result)
+            with self._fileLock:
+                if seekable:
+                    self._file.seek(self._position)
+                try:
+                    size = self._file.readinto(self._buffer)
+                except (NotImplementedError, AttributeError):
+                    result = self._file.read(self.bufferSize)
+                    size = len(result)
+                    self._buffer = ctypes.c_char_p(result)
+                self._position += size
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        if seekable:
+            self._position = 0
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
+                with self._fileLock:
+                    if whence == io.SEEK_CUR:
+                        offset, whence = self._position + offset, io.SEEK_SET
+                    self._file.seek(offset, whence)
+                    self._position = self._file.tell()
+                    return self._position
 
-            self._file.seek(0)
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -364,6 +377,7 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileLock: Optional[threading.Lock] = None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
@@ -371,6 +385,7 @@ class LibarchiveFile(io.RawIOBase):
         self.entry_index = entry_index
         self.passwords = passwords
         self._archiveCache = archiveCache
+        self._fileLock = fileLock
         self._archive = None
         self._entry = None
         self._bufferSizeMax = 1024 * 1024
@@ -385,7 +400,7 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(self.file, passwords=self.passwords, fileLock=self._fileLock)
 
         while True:
             self._entry = self._archive.next_entry()
@@ -519,6 +534,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._fileLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -612,5 +628,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileLock=self._fileLock,
             ),
         )
-- 
2.43.0


From 91d7a030ecd6e26c881bb09d1d8f3c93bd0cc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 84/91] fix: opening members with libarchive from two threads
 could take the same cached archive twice

---
 .../mountsource/formats/libarchive.py         | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 3df7b78..14eb87a 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -354,19 +354,22 @@ class IterableArchiveCache:
     def __init__(self, cacheSize: int = 5):
         self.cacheSize = cacheSize
         self._cache: list[IterableArchive] = []
+        self._lock = threading.Lock()
 
     def insert(self, archive: IterableArchive):
-        self._cache.append(archive)
-        while len(self._cache) > self.cacheSize:
-            self._cache.pop(0)
+        with self._lock:
+            self._cache.append(archive)
+            while len(self._cache) > self.cacheSize:
+                self._cache.pop(0)
 
     def take(self, entry_index: int) -> Optional[IterableArchive]:
-        qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
-        if not qualified:
-            return None
-        # Find the archive with the closest (highest) index not larger or equal than the requested one
-        result = max(qualified, key=lambda i: self._cache[i].entry_index())
-        return self._cache.pop(result)
+        with self._lock:
+            qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
+            if not qualified:
+                return None
+            # Find the archive with the closest (highest) index not larger or equal than the requested one
+            result = max(qualified, key=lambda i: self._cache[i].entry_index())
+            return self._cache.pop(result)
 
 
 class LibarchiveFile(io.RawIOBase):
-- 
2.43.0


From cd7d5c70e600d5df0dbbf56be7bc9b0949762c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 85/91] fix: ASAR archives with links or unpacked files could
 not be mounted

---
 .../mountsource/formats/asar.py               | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..cdb7ea3 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -2,6 +2,7 @@ import contextlib
 import json
 import logging
 import os
+import posixpath
 import stat
 import threading
 from pathlib import Path
@@ -63,7 +64,8 @@ logger = logging.getLogger(__name__)
 #    }
 # }
 #
-# There are no permissions, symbolic links (but hard links are possible), or file times.
+# There are no permissions, or file times. Symbolic links have a "link" entry with a target relative to the root.
+# Unpacked files have an "unpacked" entry and are stored outside of the archive.
 class ASARMountSource(SQLiteIndexMountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes], Path], **options) -> None:
         if isinstance(fileOrPath, Path):
@@ -99,8 +101,11 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         isFile = 'offset' in entry and 'size' in entry
         isDirectory = 'files' in entry
-        assert isFile != isDirectory
-        mode = 0o777 | (stat.S_IFDIR if isDirectory else stat.S_IFREG)
+        isLink = 'link' in entry
+        assert isFile + isDirectory + isLink == 1
+        mode = 0o777 | (stat.S_IFDIR if isDirectory else stat.S_IFLNK if isLink else stat.S_IFREG)
+        # Link targets are relative to the root of the archive.
+        linkname = posixpath.relpath('/' + entry['link'], posixpath.dirname(posixpath.normpath(fullPath))) if isLink else ""
 
         offset = dataOffset + int(entry.get("offset", "0"))
         size = int(entry.get("size", "0"))
@@ -115,7 +120,7 @@ class ASARMountSource(SQLiteIndexMountSource):
             0                 ,  # 5  : modification time
             mode              ,  # 6  : file mode / permissions
             0                 ,  # 7  : TAR file type. Currently unused. Overlaps with mode
-            ""                ,  # 8  : linkname
+            linkname          ,  # 8  : linkname
             0                 ,  # 9  : user ID
             0                 ,  # 10 : group ID
             False             ,  # 11 : is TAR (unused?)
@@ -138,7 +143,12 @@ class ASARMountSource(SQLiteIndexMountSource):
         fileInfos = [self._convert_to_row("/", header, self._dataOffset)]
         while toProcess:
             prefix, entry = toProcess.pop()
-            children = [(prefix + "/" + path, nestedEntry) for path, nestedEntry in entry['files'].items()]
+            children = [
+                (prefix + "/" + path, nestedEntry)
+                for path, nestedEntry in entry['files'].items()
+                # Unpacked files are not stored inside the archive.
+                if 'files' in nestedEntry or not nestedEntry.get('unpacked', False)
+            ]
             # toProcess must only contain folder entries, which have a 'files' key mapping to a dictionary.
             fileInfos += [self._convert_to_row(path, nestedEntry, self._dataOffset) for path, nestedEntry in children]
             # Appending leads to depth-first traversal, while prepending leads to breadth-first traversal.
-- 
2.43.0


From 21f7a8130f1fd96de7f3edee64e884c8b6ad6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 86/91] fix: RAR folders were listed with the metadata of one
 of their members

---
 .../ratarmountcore/mountsource/formats/rar.py | 74 +++++++++++--------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 328c650..0c1c52d 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -135,30 +135,58 @@ class RarMountSource(MountSource):
 
         return filePath
 
-    @overrides(MountSource)
-    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
+    @staticmethod
+    def _create_folder_info() -> FileInfo:
+        # fmt: off
+        return FileInfo(
+            size     = 0,
+            mtime    = time.time(),
+            mode     = 0o777 | stat.S_IFDIR,
+            linkname = "",
+            uid      = get_userid(),
+            gid      = get_groupid(),
+            userdata = [None],
+        )
+        # fmt: on
+
+    def _list_entries(self, path: str) -> Optional[dict[str, Optional[tuple[str, "rarfile.RarInfo"]]]]:
+        """Returns the names in the given folder with their own entry or None if they only are parents of others."""
+        folder = path.strip('/')
+        if folder:
+            folder += '/'
 
+        entries: dict[str, Optional[tuple[str, rarfile.RarInfo]]] = {}
         # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
+        for normalizedPath, info in self.files.items():
+            name = self._get_name(folder, normalizedPath)
+            if not name:
+                continue
+            entries.setdefault(name, None)
+            if entries[name] is None and normalizedPath.rstrip('/') == folder + name:
+                entries[name] = (normalizedPath, info)
+
+        if not entries and not any(stat.S_ISDIR(info.mode) for info in self._lookups(path)):
+            return None
+        return entries
+
+    @overrides(MountSource)
+    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+        entries = self._list_entries(path)
+        if entries is None:
+            return None
         return {
-            self._get_name(path, normalizedPath): self._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
+            name: self._create_folder_info() if entry is None else self._convert_to_file_info(*entry)
+            for name, entry in entries.items()
         }
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
+        entries = self._list_entries(path)
+        if entries is None:
+            return None
         return {
-            self._get_name(path, normalizedPath): RarMountSource._get_mode(info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
+            name: self._create_folder_info().mode if entry is None else RarMountSource._get_mode(entry[1])
+            for name, entry in entries.items()
         }
 
     def _lookups(self, path: str) -> builtins.list[FileInfo]:
@@ -177,19 +205,7 @@ class RarMountSource(MountSource):
         if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
             normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
         ):
-            # fmt: off
-            infoList.append(
-                FileInfo(
-                    size     = 0,
-                    mtime    = time.time(),
-                    mode     = 0o777 | stat.S_IFDIR,
-                    linkname = "",
-                    uid      = get_userid(),
-                    gid      = get_groupid(),
-                    userdata = [None],
-                )
-            )
-            # fmt: on
+            infoList.append(self._create_folder_info())
 
         return infoList
 
-- 
2.43.0


From 38518474fd01796272b500479e53a216fb367c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 87/91] fix: RAR members with absolute paths were listed but
 could not be looked up

---
 core/ratarmountcore/mountsource/formats/rar.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 0c1c52d..318666e 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -53,10 +53,7 @@ class RarMountSource(MountSource):
 
     @staticmethod
     def _clean_path(path):
-        result = posixpath.normpath(path) + ('/' if path.endswith('/') else '')
-        while result.startswith('../'):
-            result = result[3:]
-        return result
+        return posixpath.normpath('/' + path).lstrip('/') + ('/' if path.endswith('/') else '')
 
     @staticmethod
     def _find_password(fileobj: "rarfile.RarFile", passwords):
@@ -117,7 +114,6 @@ class RarMountSource(MountSource):
     def is_immutable(self) -> bool:
         return True
 
-    # TODO How to behave with files in archive with absolute paths? Currently, they would never be shown.
     @staticmethod
     def _get_name(folderPath, filePath):
         if not filePath.startswith(folderPath):
@@ -198,7 +194,7 @@ class RarMountSource(MountSource):
         infoList = [
             RarMountSource._convert_to_file_info(normalizedPath, info)
             for normalizedPath, info in self.files.items()
-            if normalizedPath.rstrip('/') == path.lstrip('/')
+            if normalizedPath.rstrip('/') == path.strip('/')
         ]
 
         # Check whether some parent directories of files do not exist as separate entities in the archive.
-- 
2.43.0


From 7e607ae624ac52eff25f6d8dc5f156cbdb946bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 88/91] fix: RAR archives with members that have no valid date
 could not be listed

---
 core/ratarmountcore/mountsource/formats/rar.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 318666e..4f0e17b 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -90,12 +90,10 @@ class RarMountSource(MountSource):
 
     @staticmethod
     def _convert_to_file_info(normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
-        if info.date_time:
-            dtime = datetime.datetime(*info.date_time)
-            dtime = dtime.replace(tzinfo=datetime.timezone.utc)
-            mtime = dtime.timestamp() if info.date_time else 0
-        else:
-            mtime = 0
+        mtime: float = 0
+        # Dates in the DOS format can be empty, which means that the day and month are 0.
+        with contextlib.suppress(ValueError):
+            mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp() if info.date_time else 0
 
         # fmt: off
         return FileInfo(
-- 
2.43.0


From 633d60209db6faa219c5976a4dc7ed86269593cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 89/91] fix: symbolic links in RAR4 archives had no target and
 hard links in RAR5 archives were shown as symbolic links

---
 .../ratarmountcore/mountsource/formats/rar.py | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 4f0e17b..a0f9e1f 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -86,10 +86,18 @@ class RarMountSource(MountSource):
 
     @staticmethod
     def _get_mode(info: "rarfile.RarInfo") -> int:
-        return info.mode | (stat.S_IFLNK if info.file_redir else (stat.S_IFDIR if info.is_dir() else stat.S_IFREG))
-
-    @staticmethod
-    def _convert_to_file_info(normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
+        # Redirections can also be hard links and copies of files, which rarfile resolves when opening them.
+        fileType = stat.S_IFLNK if info.is_symlink() else (stat.S_IFDIR if info.is_dir() else stat.S_IFREG)
+        return stat.S_IMODE(info.mode) | fileType
+
+    def _get_link_name(self, info: "rarfile.RarInfo") -> str:
+        if not info.is_symlink():
+            return ""
+        # file_redir is (type, flags, target) or None. Only tested for type == RAR5_XREDIR_UNIX_SYMLINK.
+        # Before RAR5, the target is stored like the contents of a file.
+        return info.file_redir[2] if info.file_redir else self.fileObject.read(info).decode(errors='surrogateescape')
+
+    def _convert_to_file_info(self, normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
         mtime: float = 0
         # Dates in the DOS format can be empty, which means that the day and month are 0.
         with contextlib.suppress(ValueError):
@@ -100,8 +108,7 @@ class RarMountSource(MountSource):
             size     = info.file_size,
             mtime    = mtime,
             mode     = RarMountSource._get_mode(info),
-            # file_redir is (type, flags, target) or None. Only tested for type == RAR5_XREDIR_UNIX_SYMLINK.
-            linkname = info.file_redir[2] if info.file_redir else "",
+            linkname = self._get_link_name(info),
             uid      = get_userid(),
             gid      = get_groupid(),
             userdata = [(normalizedPath, info)],
@@ -190,7 +197,7 @@ class RarMountSource(MountSource):
             return [create_root_file_info(userdata=[None])]
 
         infoList = [
-            RarMountSource._convert_to_file_info(normalizedPath, info)
+            self._convert_to_file_info(normalizedPath, info)
             for normalizedPath, info in self.files.items()
             if normalizedPath.rstrip('/') == path.strip('/')
         ]
-- 
2.43.0


From bd782db74689a82a95ee446f1f36b7b0ef9460a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 90/91] fix: reading zero bytes with read1 from a member opened
 with libarchive skipped the buffered bytes

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 14eb87a..9737bdb 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -472,7 +472,7 @@ class LibarchiveFile(io.RawIOBase):
         if not self._bufferIO:
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
-        if result:
+        if result or size == 0:
             return result
         self._refill_buffer()
         return self._bufferIO.read(size)
-- 
2.43.0


From 79e276d99f6455f791ab0fc59a258c077b74feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 91/91] fix: files of CPIO archives were empty if their
 contents are stored with a later hard link

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 9737bdb..72725c2 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -572,6 +572,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
+        emptyFiles: set[tuple[str, str]] = set()
         with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
             while True:
                 entry = archive.next_entry()
@@ -593,6 +594,15 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
 
                 gotAnyEntry = True
                 fileInfos.append(entry.convert_to_row(entry.entry_index, self.transform, path=entryPath))
+                # The contents of hard links may only be stored with the last one, e.g., in CPIO archives.
+                linkname = entry.linkname()
+                if fileInfos[-1][4] == 0:
+                    emptyFiles.add(fileInfos[-1][:2])
+                elif linkname and not entry.is_symbolic_link():
+                    path, name = SQLiteIndex.normpath(self.transform(linkname)).rsplit("/", 1)
+                    if (path, name) in emptyFiles:
+                        fileInfos.append((path, name, *fileInfos[-1][2:]))
+
                 # Contains file info SQLite row tuples! 4 -> size, 6 -> mode
                 if not triedToOpen and not stat.S_ISDIR(fileInfos[-1][6]) and fileInfos[-1][4] > 0:
                     bufferSize = 1
-- 
2.43.0

