From d1e2aab302747703a42c67e1d93b983f47338132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:37 +0000
Subject: [PATCH 01/31] fix: release guards whose task is cancelled or which
 are used twice

A task cancelled while waiting for a guard stayed in the order queue, and
one cancelled while leaving never released it, so every later context on
that target waited forever. Entering a spent guard also left a user entry
behind that kept the target's state alive.
---
 aiootp/asynchs/guards/concurrency_guard.py | 34 ++++++++++++++++++----
 aiootp/asynchs/guards/manager.py           |  8 ++---
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..76be871 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -316,6 +316,20 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _withdraw(self, /) -> None:
+        """
+        Takes an instance whose wait for its turn was interrupted, such
+        as by the cancellation of its task, out of the shared deques so
+        the other instances aren't left waiting on it.
+        """
+        if self.policy.is_exclusive():
+            self.policy.notify_off(self)
+        try:
+            self.queue.remove(self)
+        except ValueError:
+            pass
+        self._use_tracker.enter_fault_state()
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -331,7 +345,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+            try:
+                await asleep(self.probe_delay)
+            except BaseException:
+                self._withdraw()
+                raise
 
         return self
 
@@ -349,7 +367,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+            try:
+                sleep(self.probe_delay)
+            except BaseException:
+                self._withdraw()
+                raise
 
         return self
 
@@ -370,9 +392,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..c2ad820 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -267,10 +267,10 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await asleep()
 
         manager, target = self._refs.manager, self._refs.target
-        await manager._ainitialize_guard(target, self)
         try:
+            await manager._ainitialize_guard(target, self)
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -285,10 +285,10 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         guard's place in the order queue.
         """
         manager, target = self._refs.manager, self._refs.target
-        manager._initialize_guard(target, self)
         try:
+            manager._initialize_guard(target, self)
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From 45b86d9ba84deab8eb4fa4ca903e16f184cbdbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:25 +0000
Subject: [PATCH 02/31] fix: wait for the salt file guard without blocking the
 event loop

Deleting a salt file from a coroutine entered the guard synchronously, so
a coroutine holding the same guard could never finish.
---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From ef3d2dfaa49871c9107f432ca127ac1a374a226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:25 +0000
Subject: [PATCH 03/31] fix: read salt files one reader at a time

Reading makes the file readable and then unreadable again, so a reader
that finished took the permissions away from one that was still opening.
---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 722411238d3c730bf72ca096c5ca0569a7a8645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:25 +0000
Subject: [PATCH 04/31] fix: create a missing salt file once when several
 openers race

Openers checked for the directory and the file before creating them, so
the later of two failed or replaced the salt the earlier had read.
---
 aiootp/_paths.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..6549b15 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -301,16 +301,17 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or await aos.mkdir(secure_path)
+    await wrap_in_executor(secure_path.mkdir)(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or await aos.mkdir(admin_path)
+        await wrap_in_executor(admin_path.mkdir)(exist_ok=True)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    async with guards.guard(salt_path):
+        salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -330,16 +331,17 @@ def SecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or secure_path.mkdir()
+    secure_path.mkdir(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or admin_path.mkdir()
+        admin_path.mkdir(exist_ok=True)
         salt_path = find_salt_file(admin_path, key=key)
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    with guards.guard(salt_path):
+        salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From 62732ff0f1ffc34a7fd61580e2410b6c2f16a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:16 +0000
Subject: [PATCH 05/31] fix: never leave a partly written salt file behind

A process that died while creating a salt file left a short one, which
every later start refused to read.
---
 aiootp/_paths.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 6549b15..04aa929 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -163,9 +163,12 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
+        temporary = path.with_name(path.name + ".tmp")
+        await wrap_in_executor(temporary.unlink)(missing_ok=True)
+        async with aiofiles.open(temporary, "wb") as salt_file:
             await salt_file.write(salt)
-        await aos.chmod(path, 0o000)
+        await aos.chmod(temporary, 0o000)
+        await wrap_in_executor(temporary.replace)(path)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -180,8 +183,11 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
-        path.chmod(0o000)
+        temporary = path.with_name(path.name + ".tmp")
+        temporary.unlink(missing_ok=True)
+        temporary.write_bytes(salt)
+        temporary.chmod(0o000)
+        temporary.replace(path)
 
 
 async def aread_salt_file(path: Path) -> bytes:
-- 
2.43.0


From 927cd04eadc9765b58037b700074ae86c327c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:10 +0000
Subject: [PATCH 06/31] fix: reject emptied database files instead of reading
 them as missing

A tag file cut down to zero bytes was returned as None even when the
caller asked for missing values to be reported.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..c7fd0ac 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..afe8276 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From def3fc1046056860b733b126cc294740bca5692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:10 +0000
Subject: [PATCH 07/31] fix: delete only a database's own files

Deleting a database also removed files called 0 and 1 from its directory,
which are the names of internal index entries and not of database files.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index c7fd0ac..9559e24 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index afe8276..fb2bd21 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From 87a0ba6d6264ef8b64e49d16292521a61d3d4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:38 +0000
Subject: [PATCH 08/31] fix: keep the saved contents of a database file until
 it is replaced

Saving truncated the file before writing it, so a crash, full disk or
write error during a save destroyed the value saved before, and for the
index file the whole database.
---
 aiootp/databases/async_database.py      | 19 ++++++++++++++++---
 aiootp/databases/database_properties.py |  9 +++++++++
 aiootp/databases/sync_database.py       | 18 +++++++++++++++---
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 9559e24..3a6641a 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -27,6 +27,7 @@ from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
 from aiootp._exceptions import DatabaseIssue, Issue, Ignore
 from aiootp._paths import adelete_salt_file
 from aiootp.asynchs import AsyncInit, asleep, gather, aos
+from aiootp.asynchs import wrap_in_executor
 from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
 from aiootp.keygens.passcrypt.config import passcrypt_spec
@@ -486,6 +487,19 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         )
         return await self._TokenCipher(key).aread_token(token, ttl=ttl)
 
+    async def _awrite_file(self, path: t.Path, data: bytes) -> None:
+        """
+        Writes `data` to the file at `path` in one step, so the previous
+        contents aren't lost if writing is interrupted.
+        """
+        temporary = self._temporary_path(path)
+        try:
+            await self.IO.awrite(path=temporary, data=data)
+            await wrap_in_executor(temporary.replace)(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
+
     async def _asave_ciphertext(
         self,
         filename: str,
@@ -495,8 +509,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Saves the encrypted value `ciphertext` in the database file
         called `filename`.
         """
-        path = self.path / filename
-        await self.IO.awrite(path=path, data=ciphertext)
+        await self._awrite_file(self.path / filename, ciphertext)
 
     async def aset_tag(
         self,
@@ -767,7 +780,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         filenames & special cryptographic values for initializing the
         database's key derivation functions.
         """
-        await self.IO.awrite(path=self._root_path, data=ciphertext)
+        await self._awrite_file(self._root_path, ciphertext)
 
     async def _aclose_manifest(self) -> None:
         """
diff --git a/aiootp/databases/database_properties.py b/aiootp/databases/database_properties.py
index 407a7d9..d19a576 100644
--- a/aiootp/databases/database_properties.py
+++ b/aiootp/databases/database_properties.py
@@ -19,6 +19,8 @@ A definition of properties shared between `AsyncDatabase` &
 __all__ = ["DatabaseProperties"]
 
 
+from secrets import token_hex
+
 from aiootp._typing import Typing as t
 from aiootp._constants import FILENAME_HASH_BYTES
 from aiootp._exceptions import InvalidSHMAC, Ignore, TimestampExpired
@@ -70,6 +72,13 @@ class DatabaseProperties:
         """
         return cls.IO.bytes_to_filename(value)
 
+    @staticmethod
+    def _temporary_path(path: t.Path) -> t.Path:
+        """
+        Returns an unused path beside `path` to prepare its new contents.
+        """
+        return path.with_name(f"{path.name}.{token_hex(8)}")
+
     @property
     def _root_filename(self) -> str:
         """
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index fb2bd21..7a1e736 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -456,13 +456,25 @@ class Database(DatabaseProperties):
         )
         return self._TokenCipher(key).read_token(token, ttl=ttl)
 
+    def _write_file(self, path: t.Path, data: bytes) -> None:
+        """
+        Writes `data` to the file at `path` in one step, so the previous
+        contents aren't lost if writing is interrupted.
+        """
+        temporary = self._temporary_path(path)
+        try:
+            self.IO.write(path=temporary, data=data)
+            temporary.replace(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
+
     def _save_ciphertext(self, filename: str, ciphertext: bytes) -> None:
         """
         Saves the encrypted value `ciphertext` in the database file
         called `filename`.
         """
-        path = self.path / filename
-        self.IO.write(path=path, data=ciphertext)
+        self._write_file(self.path / filename, ciphertext)
 
     def set_tag(
         self,
@@ -715,7 +727,7 @@ class Database(DatabaseProperties):
         filenames & special cryptographic values for initializing the
         database's key derivation functions.
         """
-        self.IO.write(path=self._root_path, data=ciphertext)
+        self._write_file(self._root_path, ciphertext)
 
     def _close_manifest(self) -> None:
         """
-- 
2.43.0


From 3b40c3b800a36801dd30c4e7b4ec81fcad0ead4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:51 +0000
Subject: [PATCH 09/31] fix: keep a tag's unsaved value when saving it fails

A failed save with drop_cache discarded the only copy of the new value,
so it could not be saved again once the disk worked.
---
 aiootp/databases/async_database.py | 5 ++---
 aiootp/databases/sync_database.py  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 3a6641a..c92c43d 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -844,9 +844,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             await self._asave_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 7a1e736..999a3a2 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -782,9 +782,8 @@ class Database(DatabaseProperties):
             self._save_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     def save_database(self) -> t.Self:
-- 
2.43.0


From 8de811e808cbe4764253844eecbe8047fb4d2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 10/31] fix: keep concurrent tasks of one async database
 consistent

Tasks sharing an AsyncDatabase could lose or resurrect values, because the
cache lookups, file reads, file writes and cache updates of different tasks
interleaved freely. Work on each database file now happens one task at a
time, and concurrent requests for a new metatag share one sub-database.
---
 aiootp/databases/async_database.py | 122 +++++++++++++++++++++--------
 1 file changed, 89 insertions(+), 33 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index c92c43d..54c0d20 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -26,7 +26,8 @@ from aiootp._constants import BYTES_FLAG, BYTES_FLAG_SIZE
 from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
 from aiootp._exceptions import DatabaseIssue, Issue, Ignore
 from aiootp._paths import adelete_salt_file
-from aiootp.asynchs import AsyncInit, asleep, gather, aos
+from aiootp.asynchs import AsyncInit, MultiConcurrencyGaurd
+from aiootp.asynchs import asleep, gather, aos
 from aiootp.asynchs import wrap_in_executor
 from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
@@ -36,6 +37,9 @@ from .profile_tokens import AsyncProfileTokens
 from .database_properties import DatabaseProperties
 
 
+guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+
+
 class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
     """
     Creates databases which enable the disk persistence of any bytes or
@@ -487,6 +491,13 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         )
         return await self._TokenCipher(key).aread_token(token, ttl=ttl)
 
+    def _guard(self, filename: str) -> t.Any:
+        """
+        Returns a context manager in which no other task of this object
+        works with the database file called `filename`.
+        """
+        return guards.guard((id(self), filename))
+
     async def _awrite_file(self, path: t.Path, data: bytes) -> None:
         """
         Writes `data` to the file at `path` in one step, so the previous
@@ -523,10 +534,15 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         into the database.
         """
         filename = await self.afilename(tag)
-        setattr(self._cache, filename, data)
-        setattr(self._manifest, filename, tag)
-        if not cache:
-            await self.asave_tag(tag, drop_cache=True)
+        if cache:
+            setattr(self._cache, filename, data)
+            setattr(self._manifest, filename, tag)
+            return self
+
+        async with self._guard(filename):
+            setattr(self._cache, filename, data)
+            setattr(self._manifest, filename, tag)
+            await self._asave_file(filename, drop_cache=True)
         return self
 
     async def _aquery_ciphertext(
@@ -546,21 +562,18 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             if not silent:
                 raise DatabaseIssue.file_not_found(filename) from error
 
-    async def aquery_tag(
+    async def _aload_file(
         self,
-        tag: str,
+        filename: str,
         *,
         ttl: int | None = DEFAULT_TTL,
         silent: bool = False,
         cache: bool = False,
     ) -> t.JSONSerializable | bytes:
         """
-        Allows users to retrieve the value stored under the name `tag`
-        from the database.
+        Returns the decrypted value stored in the database file called
+        `filename`.
         """
-        filename = await self.afilename(tag)
-        if filename in self._cache:
-            return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
         if ciphertext is None:
             return
@@ -574,10 +587,35 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             result = result[BYTES_FLAG_SIZE:]  # Remove bytes value flag
         else:
             result = json.loads(result)
-        if cache:
+        if cache and filename not in self._cache:
             setattr(self._cache, filename, result)
         return result
 
+    async def aquery_tag(
+        self,
+        tag: str,
+        *,
+        ttl: int | None = DEFAULT_TTL,
+        silent: bool = False,
+        cache: bool = False,
+    ) -> t.JSONSerializable | bytes:
+        """
+        Allows users to retrieve the value stored under the name `tag`
+        from the database.
+        """
+        filename = await self.afilename(tag)
+        if filename in self._cache:
+            return getattr(self._cache, filename)
+        async with self._guard(filename):
+            if filename in self._cache:
+                return getattr(self._cache, filename)
+            return await self._aload_file(
+                filename,
+                ttl=ttl,
+                silent=silent,
+                cache=cache,
+            )
+
     async def _adelete_file(
         self,
         filename: str,
@@ -609,13 +647,17 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
 
         failures = []
         filename = await self.afilename(tag)
-        value = await self.aquery_tag(tag, cache=False, silent=True)
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._manifest[filename]
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._cache[filename]
-        with Ignore(FileNotFoundError, if_except=track_failure):
-            await self._adelete_file(filename)
+        async with self._guard(filename):
+            value = None
+            if filename not in self._cache:
+                value = await self._aload_file(filename, silent=True)
+            value = getattr(self._cache, filename, value)
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._manifest[filename]
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._cache[filename]
+            with Ignore(FileNotFoundError, if_except=track_failure):
+                await self._adelete_file(filename)
         if (not silent) and (len(failures) == 3):
             raise DatabaseIssue.tag_file_doesnt_exist(tag)
         return value
@@ -633,11 +675,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         saved in the database.
         """
         filename = await self.afilename(tag)
-        if not (self.path / filename).is_file():
+        async with self._guard(filename):
+            if not (self.path / filename).is_file():
+                with Ignore(AttributeError):
+                    delattr(self._manifest, filename)
             with Ignore(AttributeError):
-                delattr(self._manifest, filename)
-        with Ignore(AttributeError):
-            delattr(self._cache, filename)
+                delattr(self._cache, filename)
         with Ignore(LookupError):
             cache and await self.aquery_tag(tag, cache=True)
         return self
@@ -707,7 +750,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
                 metatag=True,
                 silent=silent,
             )
-            setattr(self, tag, sub_database)
+            if not hasattr(self, tag):  # another task may have been faster
+                setattr(self, tag, sub_database)
         if tag not in self.metatags:
             self._manifest[self._METATAGS_LEDGERNAME].append(tag)
         return getattr(self, tag)
@@ -788,32 +832,41 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         contains all database filenames & other metadata used to
         organize databases.
         """
-        manifest = await self._aencrypt_manifest()
-        await self._asave_manifest(manifest)
+        async with self._guard(self._root_filename):
+            manifest = await self._aencrypt_manifest()
+            await self._asave_manifest(manifest)
 
     async def _asave_file(
         self,
         filename: str,
         *,
         admin: bool = False,
+        drop_cache: bool = False,
     ) -> None:
         """
         Writes the cached value for a user-specified `filename` to the
-        user filesystem.
+        user filesystem. Must run within the file's guard.
         """
-        value = getattr(self._cache, filename)
+        cached = value = getattr(self._cache, filename)
         if value.__class__ is bytes:
             value = BYTES_FLAG + value  # Assure not reloaded as JSON
         else:
             value = json.dumps(value).encode()
         ciphertext = await self.abytes_encrypt(value, filename=filename)
         await self._asave_ciphertext(filename, ciphertext)
+        if drop_cache and getattr(self._cache, filename, self) is cached:
+            delattr(self._cache, filename)
 
     async def _asave_tags(self) -> None:
         """
         Writes the database's user-defined tags to disk.
         """
-        save = self._asave_file
+
+        async def save(filename: str) -> None:
+            async with self._guard(filename):
+                if filename in self._cache:
+                    await self._asave_file(filename)
+
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
         await gather(*saves)
@@ -841,11 +894,14 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         filename = await self.afilename(tag)
         try:
-            await self._asave_file(filename, admin=admin)
+            async with self._guard(filename):
+                await self._asave_file(
+                    filename,
+                    admin=admin,
+                    drop_cache=drop_cache,
+                )
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        if drop_cache and hasattr(self._cache, filename):
-            delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
-- 
2.43.0


From 18027820f73867721d4cfdef1b10019c7972e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:24 +0000
Subject: [PATCH 11/31] fix: create a missing profile once when several openers
 race

Openers of a profile that didn't exist yet each generated a root salt of
their own, and values saved by all but the last one were lost. Opening or
creating the profile's database now happens one opener at a time.
---
 aiootp/databases/async_database.py | 17 +++++++++--------
 aiootp/databases/profile_tokens.py |  6 +++++-
 aiootp/databases/sync_database.py  | 13 +++++++++----
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 54c0d20..49f6011 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -33,7 +33,7 @@ from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
 from aiootp.keygens.passcrypt.config import passcrypt_spec
 
-from .profile_tokens import AsyncProfileTokens
+from .profile_tokens import AsyncProfileTokens, profile_guards
 from .database_properties import DatabaseProperties
 
 
@@ -151,13 +151,14 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             cores=cores,
             path=path,
         )
-        profile_db = await cls(
-            key=tokens.login_key,
-            path=path,
-            preload=preload,
-        )
-        if not profile_db._root_path.is_file():
-            await profile_db.asave_database()
+        async with profile_guards.guard(tokens._salt_path):
+            profile_db = await cls(
+                key=tokens.login_key,
+                path=path,
+                preload=preload,
+            )
+            if not profile_db._root_path.is_file():
+                await profile_db.asave_database()
         profile_db._profile_tokens = await tokens.acleanup()
         return profile_db
 
diff --git a/aiootp/databases/profile_tokens.py b/aiootp/databases/profile_tokens.py
index 7baea9a..ed95354 100644
--- a/aiootp/databases/profile_tokens.py
+++ b/aiootp/databases/profile_tokens.py
@@ -25,7 +25,7 @@ from aiootp._typing import Typing as t
 from aiootp._constants import MIN_KEY_BYTES
 from aiootp._paths import AsyncSecureSaltPath, SecureSaltPath
 from aiootp._paths import aread_salt_file, read_salt_file
-from aiootp.asynchs import asleep
+from aiootp.asynchs import MultiConcurrencyGaurd, asleep
 from aiootp.commons import FrozenTypedSlots
 from aiootp.generics import ahash_bytes, hash_bytes
 from aiootp.keygens import Passcrypt
@@ -33,6 +33,10 @@ from aiootp.keygens import Passcrypt
 from .dbdomains import DBDomains
 
 
+# a profile which doesn't exist yet is created by one opener at a time
+profile_guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+
+
 class AsyncProfileTokens(FrozenTypedSlots):
     """
     Efficiently stores AsyncDatabase & Database profile token values
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 999a3a2..acfe93a 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -30,7 +30,7 @@ from aiootp.commons import Namespace
 from aiootp.randoms import token_bytes
 from aiootp.keygens.passcrypt.config import passcrypt_spec
 
-from .profile_tokens import ProfileTokens
+from .profile_tokens import ProfileTokens, profile_guards
 from .database_properties import DatabaseProperties
 
 
@@ -138,9 +138,14 @@ class Database(DatabaseProperties):
             cores=cores,
             path=path,
         )
-        profile_db = cls(key=tokens.login_key, path=path, preload=preload)
-        if not profile_db._root_path.is_file():
-            profile_db.save_database()
+        with profile_guards.guard(tokens._salt_path):
+            profile_db = cls(
+                key=tokens.login_key,
+                path=path,
+                preload=preload,
+            )
+            if not profile_db._root_path.is_file():
+                profile_db.save_database()
         profile_db._profile_tokens = tokens.cleanup()
         return profile_db
 
-- 
2.43.0


From ccf3d2aad55de0e93a82d8f41878970dc14a15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:30 +0000
Subject: [PATCH 12/31] fix: a cancelled asynchronous feed of a cipher stream
 leaves no part of its data

---
 aiootp/ciphers/cipher_streams.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 74223a2..317efcd 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -258,10 +258,13 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
         async with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
+            # Being cancelled mid-way must not leave a part of the data.
+            blocks = deque([self._buffer[-1]])
+            read = io.BytesIO(data).read
+            await self._adigest_data(read, blocks, blocks.append)
+            self._buffer[-1] = blocks.popleft()
+            self._buffer.extend(blocks)
             self._byte_count += len(data)
-            data = io.BytesIO(data).read
-            _buffer, append = self._buffer_shortcuts
-            await self._adigest_data(data, _buffer, append)
         return self
 
 
-- 
2.43.0


From 0da09bd0727a4b7e539ad868e802173eccfae80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:43 +0000
Subject: [PATCH 13/31] fix: clocks read their time without losing precision to
 floats

---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From e01b0be4129b9c10c0a5b0963f46ebbab8525158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:57 +0000
Subject: [PATCH 14/31] fix: drawing from an empty stream doesn't switch off
 its lifetime limit

---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From 4e01ee1cfc11e5f3d4e6f2c1fe8bb01593d5ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:52 +0000
Subject: [PATCH 15/31] fix: identifiers requested by several threads at once
 stay unique

---
 aiootp/randoms/ids/raw_guid.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 6c261f7..1a50580 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,8 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+from threading import Lock
+
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG
 from aiootp._exceptions import Issue
@@ -49,6 +51,8 @@ class RawGUID(FrozenInstance):
 
     __slots__ = ("tick", "node_id", "config")
 
+    _lock: t.Any = Lock()
+
     _configs = ConfigMap(
         mapping={
             config_id: RawGUIDConfig(
@@ -107,12 +111,13 @@ class RawGUID(FrozenInstance):
         Creates an unblinded, raw GUID bytes value.
         """
         config = self.config
-        return (
-            config.clock.make_timestamp(size=config.TIMESTAMP_BYTES)
-            + config.prf(config.PRF_BYTES)
-            + self.node_id
-            + self._incremented_tick()
-        )
+        token = config.prf(config.PRF_BYTES)
+        with self._lock:
+            timestamp = config.clock.make_timestamp(
+                size=config.TIMESTAMP_BYTES,
+            )
+            tick = self._incremented_tick()
+        return timestamp + token + self.node_id + tick
 
     async def aread(self, guid: bytes) -> RawGUIDContainer:
         """
-- 
2.43.0


From 5d12204b15f3ec681dcd54626b215db0231b1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:46 +0000
Subject: [PATCH 16/31] fix: updating a salt file replaces it at once, so that
 a crash can't empty it

---
 aiootp/_paths.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 04aa929..86c00c8 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -241,12 +241,13 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        try:
-            await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "wb") as salt_file:
-                await salt_file.write(salt)
-        finally:
-            await aos.chmod(path, 0o000)
+        await aos.stat(path)
+        temporary = path.with_name(path.name + ".tmp")
+        await wrap_in_executor(temporary.unlink)(missing_ok=True)
+        async with aiofiles.open(temporary, "wb") as salt_file:
+            await salt_file.write(salt)
+        await aos.chmod(temporary, 0o000)
+        await wrap_in_executor(temporary.replace)(path)
 
 
 def update_salt_file(path: Path, *, salt: bytes) -> None:
@@ -259,12 +260,13 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
 
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        try:
-            path = Path(path)
-            path.chmod(0o600)
-            path.write_bytes(salt)
-        finally:
-            path.chmod(0o000)
+        path = Path(path)
+        path.stat()
+        temporary = path.with_name(path.name + ".tmp")
+        temporary.unlink(missing_ok=True)
+        temporary.write_bytes(salt)
+        temporary.chmod(0o000)
+        temporary.replace(path)
 
 
 async def adelete_salt_file(path: Path) -> None:
-- 
2.43.0


From b906f911347a2fe6a9324543bead4f0009680823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:46 +0000
Subject: [PATCH 17/31] fix: results larger than a pipe come back from new
 processes

---
 aiootp/asynchs/concurrency_interface.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..2e7fd1c 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -132,10 +132,13 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
+        while task.is_alive() and queue.empty():
+            await asleep(delay)
+        result = queue.get_nowait()
         while task.is_alive():
             await asleep(delay)
         task.join()
-        return queue.get_nowait()
+        return result
 
     @classmethod
     def new(
@@ -163,10 +166,11 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
+        result = queue.get_nowait()
         task.join()
-        return queue.get_nowait()
+        return result
 
     @staticmethod
     def _get_result(
-- 
2.43.0


From 48a17502b56d4532707c21c75a0cc5093dba5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:46 +0000
Subject: [PATCH 18/31] fix: a temporary pace of the entropy daemon always
 comes to its end

---
 aiootp/randoms/entropy_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/randoms/entropy_daemon.py b/aiootp/randoms/entropy_daemon.py
index b28ed7d..022984f 100644
--- a/aiootp/randoms/entropy_daemon.py
+++ b/aiootp/randoms/entropy_daemon.py
@@ -86,8 +86,8 @@ class EntropyDaemon:
         deadline_reached = deadline_delta <= 0
         delay_skips_deadline = self._max_delay - deadline_delta > 1
         if deadline_reached:
-            self._max_delay = self._initial_max_delay
             self._currently_mutating_frequency = False
+            self._max_delay = self._initial_max_delay
         elif delay_skips_deadline:
             self._max_delay = deadline_delta  # pragma: no cover
 
-- 
2.43.0


From e62a488840ba4afa2304711e624a8c923ed92743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:46 +0000
Subject: [PATCH 19/31] fix: several threads can run the random number
 generator at once

---
 aiootp/randoms/rng.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/randoms/rng.py b/aiootp/randoms/rng.py
index f38a600..1adae68 100644
--- a/aiootp/randoms/rng.py
+++ b/aiootp/randoms/rng.py
@@ -63,8 +63,16 @@ _entropy_daemon = EntropyDaemon(
 _entropy_daemon.set_temporary_max_delay(max_delay=0.001, duration=2)
 
 
-# avert event loop clashes
-_run = new_event_loop().run_until_complete
+def _run(coroutine: t.Awaitable[bytes]) -> bytes:
+    """
+    Averts event loop clashes by running the `coroutine` in an event
+    loop of its own.
+    """
+    loop = new_event_loop()
+    try:
+        return loop.run_until_complete(coroutine)
+    finally:
+        loop.close()
 
 
 async def acsprng(
-- 
2.43.0


From ce61e0df030399d3af5d82d83b2da350d68a844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:56 +0000
Subject: [PATCH 20/31] fix: hashes verify under configurations whose salts are
 longer than the default

---
 aiootp/keygens/passcrypt/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/keygens/passcrypt/interface.py b/aiootp/keygens/passcrypt/interface.py
index aa3aef3..120f3d3 100644
--- a/aiootp/keygens/passcrypt/interface.py
+++ b/aiootp/keygens/passcrypt/interface.py
@@ -478,6 +478,7 @@ class Passcrypt(FrozenInstance):
             cpu=parts.cpu,
             cores=parts.cores,
             tag_size=parts.tag_size,
+            salt_size=parts.salt_size,
             config=config,
         )
         untrusted_hash = await self.anew(
@@ -541,6 +542,7 @@ class Passcrypt(FrozenInstance):
             cpu=parts.cpu,
             cores=parts.cores,
             tag_size=parts.tag_size,
+            salt_size=parts.salt_size,
             config=config,
         )
         untrusted_hash = self.new(
-- 
2.43.0


From 3f83bce2e9989dd65e18679aeec12e8df49fcfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:41 +0000
Subject: [PATCH 21/31] fix: unlist sub-databases as they are deleted with
 their parent

When deleting a sub-database failed half-way, those below it that were
already gone stayed listed, and saving the databases above it failed.
---
 aiootp/databases/async_database.py | 3 +--
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 49f6011..67e1a43 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -800,8 +800,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         associated files.
         """
         for metatag in self.metatags:
-            sub_db = await self.ametatag(metatag, preload=False)
-            await sub_db.adelete_database()
+            await self.adelete_metatag(metatag)
         for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index acfe93a..af83dc6 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -708,7 +708,7 @@ class Database(DatabaseProperties):
         associated files.
         """
         for metatag in self.metatags:
-            self.metatag(metatag, preload=False).delete_database()
+            self.delete_metatag(metatag)
         for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
-- 
2.43.0


From d249496d0403f6db9744c861a8333bd437104f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:55 +0000
Subject: [PATCH 22/31] fix: keep the keys of earlier security reports

The dialogue asked only the cache of the freshly opened database for the
stored keys. The cache is empty in a new session, so the list of keys was
started anew and the keys of earlier reports were overwritten.
---
 aiootp/__engagement/issue_reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/__engagement/issue_reporting.py b/aiootp/__engagement/issue_reporting.py
index 570973a..293f7e8 100644
--- a/aiootp/__engagement/issue_reporting.py
+++ b/aiootp/__engagement/issue_reporting.py
@@ -103,7 +103,7 @@ def report_security_issue() -> None:
 
     # initialize & persist cryptographic values for the user's bug report
     with db:
-        if not db[CONVERSATION]:
+        if not db.query_tag(CONVERSATION, silent=True, cache=True):
             db[CONVERSATION] = {PERIOD_KEYS: []}
         db[CONVERSATION][PERIOD_KEYS] = list(
             deque(db[CONVERSATION][PERIOD_KEYS], maxlen=3),
-- 
2.43.0


From d5cd994a6e6dc3b6335b591cbfafa5c96f375da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:40 +0000
Subject: [PATCH 23/31] fix: processes that write a salt file at the same time
 don't take each other's temporary file

The temporary file had the same name in every process. A process could
rename or remove the one that another was still preparing, which kept the
other from starting.
---
 aiootp/_paths.py | 65 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 86c00c8..8d2d1f0 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -21,7 +21,7 @@ __all__ = []
 import aiofiles
 from pathlib import Path
 from hashlib import sha3_256, shake_128
-from secrets import token_bytes
+from secrets import token_bytes, token_hex
 
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
@@ -151,6 +151,13 @@ def find_salt_file(path: Path, *, key: bytes, size: int = 8) -> Path:
     return path.absolute() / deniable_filename(key, size=size)
 
 
+def temporary_salt_path(path: Path) -> Path:
+    """
+    Returns an unused path beside `path` to prepare its new contents.
+    """
+    return path.with_name(f"{path.name}.{token_hex(8)}.tmp")
+
+
 async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     """
     Saves a cryptographic `salt` contained within the file located at
@@ -163,12 +170,15 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        temporary = path.with_name(path.name + ".tmp")
-        await wrap_in_executor(temporary.unlink)(missing_ok=True)
-        async with aiofiles.open(temporary, "wb") as salt_file:
-            await salt_file.write(salt)
-        await aos.chmod(temporary, 0o000)
-        await wrap_in_executor(temporary.replace)(path)
+        temporary = temporary_salt_path(path)
+        try:
+            async with aiofiles.open(temporary, "wb") as salt_file:
+                await salt_file.write(salt)
+            await aos.chmod(temporary, 0o000)
+            await wrap_in_executor(temporary.replace)(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -183,11 +193,14 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        temporary = path.with_name(path.name + ".tmp")
-        temporary.unlink(missing_ok=True)
-        temporary.write_bytes(salt)
-        temporary.chmod(0o000)
-        temporary.replace(path)
+        temporary = temporary_salt_path(path)
+        try:
+            temporary.write_bytes(salt)
+            temporary.chmod(0o000)
+            temporary.replace(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
 
 
 async def aread_salt_file(path: Path) -> bytes:
@@ -242,12 +255,15 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
         await aos.stat(path)
-        temporary = path.with_name(path.name + ".tmp")
-        await wrap_in_executor(temporary.unlink)(missing_ok=True)
-        async with aiofiles.open(temporary, "wb") as salt_file:
-            await salt_file.write(salt)
-        await aos.chmod(temporary, 0o000)
-        await wrap_in_executor(temporary.replace)(path)
+        temporary = temporary_salt_path(path)
+        try:
+            async with aiofiles.open(temporary, "wb") as salt_file:
+                await salt_file.write(salt)
+            await aos.chmod(temporary, 0o000)
+            await wrap_in_executor(temporary.replace)(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
 
 
 def update_salt_file(path: Path, *, salt: bytes) -> None:
@@ -262,11 +278,14 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
     with guards.guard(target):
         path = Path(path)
         path.stat()
-        temporary = path.with_name(path.name + ".tmp")
-        temporary.unlink(missing_ok=True)
-        temporary.write_bytes(salt)
-        temporary.chmod(0o000)
-        temporary.replace(path)
+        temporary = temporary_salt_path(path)
+        try:
+            temporary.write_bytes(salt)
+            temporary.chmod(0o000)
+            temporary.replace(path)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
 
 
 async def adelete_salt_file(path: Path) -> None:
-- 
2.43.0


From 3055f297b68d70ff9d95674544f5c58533c29efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:49 +0000
Subject: [PATCH 24/31] fix: reading a salt file stands up to other processes
 reading it

A process that had read the file took its permissions back while another
was about to open it, which kept the other from starting.
---
 aiootp/_paths.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 8d2d1f0..f0ef135 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -33,6 +33,9 @@ from .generics.transform import axi_mix, xi_mix
 
 guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
 
+# other processes may withdraw a salt file's permissions before its read
+MAX_READ_ATTEMPTS: int = 128
+
 
 def RootPath() -> Path:
     """
@@ -212,13 +215,20 @@ async def aread_salt_file(path: Path) -> bytes:
     target = filename_to_index_key(str(path))
     async with guards.guard(target):
         try:
-            await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "rb") as salt_file:
-                salt = await salt_file.read()
-                if len(salt) >= 32:
-                    return salt
-                else:
-                    raise Issue.value_must("salt", "be >= 32-bytes")
+            for remaining in reversed(range(MAX_READ_ATTEMPTS)):
+                await aos.chmod(path, 0o600)
+                try:
+                    async with aiofiles.open(path, "rb") as salt_file:
+                        salt = await salt_file.read()
+                    break
+                except PermissionError:
+                    if not remaining:
+                        raise
+
+            if len(salt) >= 32:
+                return salt
+            else:
+                raise Issue.value_must("salt", "be >= 32-bytes")
         finally:
             await aos.chmod(path, 0o000)
 
@@ -232,8 +242,14 @@ def read_salt_file(path: Path) -> bytes:
     with guards.guard(target):
         try:
             path = Path(path)
-            path.chmod(0o600)
-            salt = path.read_bytes()
+            for remaining in reversed(range(MAX_READ_ATTEMPTS)):
+                path.chmod(0o600)
+                try:
+                    salt = path.read_bytes()
+                    break
+                except PermissionError:
+                    if not remaining:
+                        raise
 
             if len(salt) >= 32:
                 return salt
-- 
2.43.0


From 3a24e07e030bb05797714e13725d475fc3727636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:58 +0000
Subject: [PATCH 25/31] fix: processes that create the same salt file at the
 same time share one salt

Each of them replaced the file of the one before, which went on with a
salt that was no longer stored.
---
 aiootp/_paths.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index f0ef135..a29c1ce 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -18,7 +18,9 @@ A collection of `pathlib.Path`'s & file IO utilities.
 __all__ = []
 
 
+import os
 import aiofiles
+from contextlib import suppress
 from pathlib import Path
 from hashlib import sha3_256, shake_128
 from secrets import token_bytes, token_hex
@@ -161,6 +163,21 @@ def temporary_salt_path(path: Path) -> Path:
     return path.with_name(f"{path.name}.{token_hex(8)}.tmp")
 
 
+def place_new_file(temporary: Path, path: Path) -> None:
+    """
+    Moves the file `temporary` to `path`, unless another process already
+    made a file there, in which case a `FileExistsError` is raised.
+    """
+    try:
+        os.link(temporary, path)
+    except FileExistsError:
+        raise
+    except OSError:  # hard links aren't supported everywhere
+        temporary.replace(path)
+    else:
+        temporary.unlink()
+
+
 async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     """
     Saves a cryptographic `salt` contained within the file located at
@@ -178,7 +195,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
             async with aiofiles.open(temporary, "wb") as salt_file:
                 await salt_file.write(salt)
             await aos.chmod(temporary, 0o000)
-            await wrap_in_executor(temporary.replace)(path)
+            await wrap_in_executor(place_new_file)(temporary, path)
         except BaseException:
             temporary.unlink(missing_ok=True)
             raise
@@ -200,7 +217,7 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
         try:
             temporary.write_bytes(salt)
             temporary.chmod(0o000)
-            temporary.replace(path)
+            place_new_file(temporary, path)
         except BaseException:
             temporary.unlink(missing_ok=True)
             raise
@@ -354,7 +371,8 @@ async def AsyncSecureSaltPath(
         salt_path = await afind_salt_file(secure_path, key=key)
 
     async with guards.guard(salt_path):
-        salt_path.is_file() or await amake_salt_file(salt_path)
+        with suppress(FileExistsError):
+            salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -384,7 +402,8 @@ def SecureSaltPath(
         salt_path = find_salt_file(secure_path, key=key)
 
     with guards.guard(salt_path):
-        salt_path.is_file() or make_salt_file(salt_path)
+        with suppress(FileExistsError):
+            salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From 5a77963e802b1341bccbcd29dbc8e0626184885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:10 +0000
Subject: [PATCH 26/31] fix: threads populating one key object no longer leave
 it with unrelated keys

---
 .../keygens/curve_25519/shared_interface.py   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/aiootp/keygens/curve_25519/shared_interface.py b/aiootp/keygens/curve_25519/shared_interface.py
index bcded63..0cd8653 100644
--- a/aiootp/keygens/curve_25519/shared_interface.py
+++ b/aiootp/keygens/curve_25519/shared_interface.py
@@ -18,6 +18,8 @@ A general type defining an interface to Curve25519 operations.
 __all__ = ["Base25519"]
 
 
+from threading import Lock
+
 from cryptography.hazmat.primitives.asymmetric.x25519 import (
     X25519PublicKey,
     X25519PrivateKey,
@@ -44,6 +46,10 @@ class Base25519(FrozenInstance):
     PublicKey: type = None
     SecretKey: type = None
 
+    # Threads which populate the same instance at the same time would
+    # otherwise be able to leave it with a pair of unrelated keys.
+    _population_lock: t.Any = Lock()
+
     def __init__(self, /) -> None:
         """
         Initializes the frozen instance's attributes to `None` so that
@@ -112,11 +118,12 @@ class Base25519(FrozenInstance):
         Populates an instance from the received `secret_key` that is
         of either `bytes` or `self.SecretKey` type.
         """
-        if self.has_public_key():
-            raise Issue.cant_reassign_attribute("public_key")
-        insert = object.__setattr__
-        insert(self, "_secret_key", self._process_secret_key(secret_key))
-        insert(self, "_public_key", self._secret_key.public_key())
+        with self._population_lock:
+            if self.has_public_key():
+                raise Issue.cant_reassign_attribute("public_key")
+            insert = object.__setattr__
+            insert(self, "_secret_key", self._process_secret_key(secret_key))
+            insert(self, "_public_key", self._secret_key.public_key())
         return self
 
     async def aimport_public_key(
@@ -140,11 +147,12 @@ class Base25519(FrozenInstance):
         Populates an instance from the received `public_key` that is
         of either `bytes` or `self.PublicKey` type.
         """
-        if self.has_public_key():
-            raise Issue.cant_reassign_attribute("public_key")
-        insert = object.__setattr__
-        insert(self, "_secret_key", None)
-        insert(self, "_public_key", self._process_public_key(public_key))
+        with self._population_lock:
+            if self.has_public_key():
+                raise Issue.cant_reassign_attribute("public_key")
+            insert = object.__setattr__
+            insert(self, "_secret_key", None)
+            insert(self, "_public_key", self._process_public_key(public_key))
         return self
 
     async def agenerate(self, /) -> t.Self:
-- 
2.43.0


From e649dedd616fd6f90ee3214287f0be1f218b9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:10 +0000
Subject: [PATCH 27/31] fix: only one of several threads registers with a key
 bundle

---
 aiootp/ciphers/key_bundle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aiootp/ciphers/key_bundle.py b/aiootp/ciphers/key_bundle.py
index 0bf12a5..446613e 100644
--- a/aiootp/ciphers/key_bundle.py
+++ b/aiootp/ciphers/key_bundle.py
@@ -18,6 +18,7 @@ Types to manage bundled cipher session values.
 __all__ = ["KeyAADBundle", "KeyAADMode", "KeyAADRegisters", "SaltAADIV"]
 
 
+from threading import Lock
 from secrets import token_bytes
 
 from aiootp._typing import Typing as t
@@ -174,6 +175,7 @@ class KeyAADBundle:
         "_kdfs",
         "_session",
         "_bundle",
+        "_lock",
         "_mode",
         "_registers",
         "config",
@@ -204,6 +206,7 @@ class KeyAADBundle:
         self.config = kdfs.config
         self._kdfs = kdfs
         self._session = self._Session()
+        self._lock = Lock()
         self._mode = self._Mode()
         self._registers = self._Registers()
         self._bundle = self._SaltAADIV(
@@ -238,9 +241,10 @@ class KeyAADBundle:
         single run of the cipher. Reusing an instance for multiple
         cipher calls is NOT SAFE, & is disallowed by this registration.
         """
-        if hasattr(self._registers, "shmac"):
-            raise KeyAADIssue.shmac_already_registered()
-        self._registers.register("shmac", shmac)
+        with self._lock:
+            if hasattr(self._registers, "shmac"):
+                raise KeyAADIssue.shmac_already_registered()
+            self._registers.register("shmac", shmac)
 
     @property
     def salt(self) -> bytes:
-- 
2.43.0


From 9086efdc1017b9767eca1bf604babe7ad98521a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:10 +0000
Subject: [PATCH 28/31] fix: async databases finish all of their work before
 raising an error

---
 aiootp/databases/async_database.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 67e1a43..395721a 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -40,6 +40,17 @@ from .database_properties import DatabaseProperties
 guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
 
 
+async def gather_all(*coroutines: t.Awaitable) -> None:
+    """
+    Waits until every one of the `coroutines` has ended before the first
+    of their errors is raised, so none keeps working in the background
+    after its caller was told of a failure.
+    """
+    for result in await gather(*coroutines, return_exceptions=True):
+        if isinstance(result, BaseException):
+            raise result
+
+
 class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
     """
     Creates databases which enable the disk persistence of any bytes or
@@ -297,7 +308,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         tag_values = (
             self.aquery_tag(tag, silent=silent, cache=True) for tag in tags
         )
-        await gather(*tag_values)
+        await gather_all(*tag_values)
         return self
 
     async def aload_metatags(
@@ -321,7 +332,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             self.ametatag(metatag, preload=preload, silent=silent)
             for metatag in metatags_set
         )
-        await gather(*metatags)
+        await gather_all(*metatags)
         return self
 
     async def aload_database(
@@ -869,7 +880,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
 
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
-        await gather(*saves)
+        await gather_all(*saves)
 
     async def _asave_metatags(self) -> None:
         """
@@ -879,7 +890,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             getattr(self, metatag).asave_database()
             for metatag in self.metatags
         )
-        await gather(*saves)
+        await gather_all(*saves)
 
     async def asave_tag(
         self,
@@ -909,7 +920,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Writes the database's values to disk with transparent encryption.
         """
         await self._aclose_manifest()
-        await gather(self._asave_metatags(), self._asave_tags())
+        await gather_all(self._asave_metatags(), self._asave_tags())
         return self
 
     async def __aenter__(self) -> t.Self:
-- 
2.43.0


From d57e2fac21aa68bc368cb60007c2c502cf03ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:51 +0000
Subject: [PATCH 29/31] fix: renew class locks in forked processes

A process that forks while another of its threads creates a GUID or fills
a Curve25519 key object leaves the child with a lock that nobody will ever
release. Creating GUIDs or keys in the child then waits forever.
---
 aiootp/keygens/curve_25519/shared_interface.py | 13 +++++++++++++
 aiootp/randoms/ids/raw_guid.py                 | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/aiootp/keygens/curve_25519/shared_interface.py b/aiootp/keygens/curve_25519/shared_interface.py
index 0cd8653..4fabebb 100644
--- a/aiootp/keygens/curve_25519/shared_interface.py
+++ b/aiootp/keygens/curve_25519/shared_interface.py
@@ -18,6 +18,7 @@ A general type defining an interface to Curve25519 operations.
 __all__ = ["Base25519"]
 
 
+import os
 from threading import Lock
 
 from cryptography.hazmat.primitives.asymmetric.x25519 import (
@@ -50,6 +51,14 @@ class Base25519(FrozenInstance):
     # otherwise be able to leave it with a pair of unrelated keys.
     _population_lock: t.Any = Lock()
 
+    @classmethod
+    def _renew_population_lock(cls) -> None:
+        """
+        A forked process can't wait for the parent's threads to release
+        the lock, since they don't exist there.
+        """
+        cls._population_lock = Lock()
+
     def __init__(self, /) -> None:
         """
         Initializes the frozen instance's attributes to `None` so that
@@ -208,6 +217,10 @@ class Base25519(FrozenInstance):
         return self._public_key is not None
 
 
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=Base25519._renew_population_lock)
+
+
 module_api = dict(
     Base25519=t.add_type(Base25519),
     Ed25519PublicKey=t.add_type(Ed25519PublicKey),
diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 1a50580..06690c0 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,7 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+import os
 from threading import Lock
 
 from aiootp._typing import Typing as t
@@ -67,6 +68,14 @@ class RawGUID(FrozenInstance):
         config_type=RawGUIDConfig,
     )
 
+    @classmethod
+    def _renew_lock(cls) -> None:
+        """
+        A forked process can't wait for the parent's threads to release
+        the lock, since they don't exist there.
+        """
+        cls._lock = Lock()
+
     def _process_node_id(self, node_id: bytes) -> bytes:
         """
         Raises `ValueError` if the specified `node_id` isn't the correct
@@ -133,6 +142,10 @@ class RawGUID(FrozenInstance):
         return RawGUIDContainer(guid, config=self.config)
 
 
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=RawGUID._renew_lock)
+
+
 module_api = dict(
     RawGUID=t.add_type(RawGUID),
     __all__=__all__,
-- 
2.43.0


From ec846b583a37ce944d4a66ca7c102d56ceb580f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:51 +0000
Subject: [PATCH 30/31] fix: renew the package's file guards in forked
 processes

Guards of salt files, profiles and database files that other threads hold
at the time of a fork are never left in the child. The child then waits
forever for the same salt file or profile.
---
 aiootp/_paths.py                   |  4 +++-
 aiootp/asynchs/guards/manager.py   | 17 +++++++++++++++++
 aiootp/databases/async_database.py |  4 +++-
 aiootp/databases/profile_tokens.py |  4 +++-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index a29c1ce..30ede0c 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -33,7 +33,9 @@ from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
 
 
-guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+guards: MultiConcurrencyGaurd = (
+    MultiConcurrencyGaurd()._renew_when_forked()
+)
 
 # other processes may withdraw a salt file's permissions before its read
 MAX_READ_ATTEMPTS: int = 128
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index c2ad820..25f569c 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -24,6 +24,7 @@ __all__ = [
 ]
 
 
+import os
 from collections import defaultdict, deque
 from threading import Lock
 
@@ -418,6 +419,22 @@ class MultiConcurrencyGaurd(FrozenTypedSlots):
         self._resource_lock = self._Lock()
         self.targets = self._Targets() if targets is None else targets
 
+    def _renew(self, /) -> None:
+        """
+        Forgets all users. In a forked process, the ones which belong to
+        the parent's other threads would be waited for forever.
+        """
+        object.__setattr__(self, "_resource_lock", self._Lock())
+        object.__setattr__(self, "targets", self._Targets())
+
+    def _renew_when_forked(self, /) -> t.Self:
+        """
+        Arranges for the instance to start over in forked processes.
+        """
+        if hasattr(os, "register_at_fork"):
+            os.register_at_fork(after_in_child=self._renew)
+        return self
+
     def _ensure_valid_policy(
         self,
         /,
diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 395721a..143b44d 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -37,7 +37,9 @@ from .profile_tokens import AsyncProfileTokens, profile_guards
 from .database_properties import DatabaseProperties
 
 
-guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+guards: MultiConcurrencyGaurd = (
+    MultiConcurrencyGaurd()._renew_when_forked()
+)
 
 
 async def gather_all(*coroutines: t.Awaitable) -> None:
diff --git a/aiootp/databases/profile_tokens.py b/aiootp/databases/profile_tokens.py
index ed95354..b82907d 100644
--- a/aiootp/databases/profile_tokens.py
+++ b/aiootp/databases/profile_tokens.py
@@ -34,7 +34,9 @@ from .dbdomains import DBDomains
 
 
 # a profile which doesn't exist yet is created by one opener at a time
-profile_guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+profile_guards: MultiConcurrencyGaurd = (
+    MultiConcurrencyGaurd()._renew_when_forked()
+)
 
 
 class AsyncProfileTokens(FrozenTypedSlots):
-- 
2.43.0


From fb772eff774ec6066681a01ef3fd5ce2354425de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:51 +0000
Subject: [PATCH 31/31] fix: do not hand work to the parent's pools in forked
 processes

The workers of the thread and process pools don't exist in a forked child,
so work submitted there was never done if the parent had used the pools
before. The child now starts a pool of its own on first use.
---
 aiootp/asynchs/concurrency_interface.py | 23 +++++++++++++++++++++--
 aiootp/asynchs/processes.py             |  5 +++++
 aiootp/asynchs/threads.py               |  5 +++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 2e7fd1c..af8b3a2 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -58,6 +58,25 @@ class ConcurrencyInterface:
     get_id: t.Callable[[], int]
     pool: t.PoolExecutorType
 
+    _inherited_pool: t.PoolExecutorType | None = None
+
+    @classmethod
+    def _note_inherited_pool(cls, /) -> None:
+        """
+        Called in forked processes, where the workers of the parent's
+        pool don't exist.
+        """
+        cls._inherited_pool = cls.pool
+
+    @classmethod
+    def _get_pool(cls, /) -> t.PoolExecutorType:
+        """
+        Returns the class' pool, or a new one if it's the parent's.
+        """
+        if cls.pool is cls._inherited_pool:
+            cls.reset_pool()
+        return cls.pool
+
     @classmethod
     async def aget_id(cls, /) -> int:
         """
@@ -240,7 +259,7 @@ class ConcurrencyInterface:
             probe_delay,
             default=cls._default_probe_delay,
         )
-        future = cls.pool.submit(cls._get_result, func, *args, **kwargs)
+        future = cls._get_pool().submit(cls._get_result, func, *args, **kwargs)
         return cls._package_result_methods(future, probe_delay=delay)
 
     @classmethod
@@ -262,7 +281,7 @@ class ConcurrencyInterface:
             probe_delay,
             default=cls._default_probe_delay,
         )
-        future = cls.pool.submit(func, *args, **kwargs)
+        future = cls._get_pool().submit(func, *args, **kwargs)
         return cls._package_result_methods(future, probe_delay=delay)
 
     @classmethod
diff --git a/aiootp/asynchs/processes.py b/aiootp/asynchs/processes.py
index e5d95b9..de00723 100644
--- a/aiootp/asynchs/processes.py
+++ b/aiootp/asynchs/processes.py
@@ -18,6 +18,7 @@ A multi-processing interface.
 __all__ = ["Processes", "get_process_id"]
 
 
+import os
 import multiprocessing
 from multiprocessing.context import SpawnContext
 from os import getpid as get_process_id
@@ -65,6 +66,10 @@ class Processes(ConcurrencyInterface):
         cls.pool = cls.pool.__class__(mp_context=cls._context)
 
 
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=Processes._note_inherited_pool)
+
+
 module_api = dict(
     Processes=t.add_type(Processes),
     __all__=__all__,
diff --git a/aiootp/asynchs/threads.py b/aiootp/asynchs/threads.py
index 4f4b349..5ffd5bc 100644
--- a/aiootp/asynchs/threads.py
+++ b/aiootp/asynchs/threads.py
@@ -18,6 +18,7 @@ A multi-threading interface.
 __all__ = ["Threads", "get_thread_id"]
 
 
+import os
 import queue
 from threading import Thread
 from concurrent.futures import thread
@@ -63,6 +64,10 @@ class Threads(ConcurrencyInterface):
         cls.pool = cls.pool.__class__()
 
 
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=Threads._note_inherited_pool)
+
+
 module_api = dict(
     Threads=t.add_type(Threads),
     __all__=__all__,
-- 
2.43.0

