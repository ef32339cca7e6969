From 860f113adf31bd62bda0be915adf39518e82b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 01/49] fix: admit at most one process at a time through
 SlidingLock

A process is invisible to others between taking its slot and placing its
lock, and a process that read an outdated floor takes a slot below the ones
in use. Either way two processes could both find nobody ahead of them. Claim
an exclusively-created gate block as the last step of acquisition.
---
 dustgoggles/codex/implements.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..41cb04a 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -162,6 +162,7 @@ class SlidingLock:
         self.number = 0
         self.floor = None
         self.marker = None
+        self.gate = None
         self.acquired = False
         self.spins = 0
         self.max_spins = None
@@ -209,6 +210,22 @@ class SlidingLock:
             log(f"{here()},{self.number},taking precedence")
         return True
 
+    def _claim_gate(self):
+        """
+        precedence only decides who goes next: a process that has taken a
+        slot but not yet placed its lock, or that read an outdated floor, is
+        invisible to others. creating the gate is the atomic step that admits
+        at most one of them.
+        """
+        try:
+            self.gate = SharedMemory(f"{self.name}_gate", size=1, create=True)
+        except FileExistsError:
+            if getattr(self, "debug") is True:
+                log(f"{here()},{self.number},gate is taken")
+            self.wait()
+            return False
+        return True
+
     def acquire(self):
         try:
             self.lock = SharedMemory(
@@ -219,9 +236,8 @@ class SlidingLock:
         except FileExistsError:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},already have lock")
-            self.acquired = True
         while self.acquired is False:
-            self.acquired = self._check_acquirement()
+            self.acquired = self._check_acquirement() and self._claim_gate()
 
     def wait(self):
         self.spins += 1
@@ -237,7 +253,7 @@ class SlidingLock:
             self.count.buf[:] = self.number.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
-        for thing in ("lock", "marker"):
+        for thing in ("gate", "lock", "marker"):
             block = getattr(self, thing)
             if block is None:
                 continue
@@ -249,7 +265,7 @@ class SlidingLock:
         self.acquired = False
 
     def close(self):
-        for obj in self.lock, self.count, self.marker:
+        for obj in self.gate, self.lock, self.count, self.marker:
             try:
                 delete_block(obj.name)
             except (FileNotFoundError, TypeError, AttributeError):
-- 
2.43.0


From eb122198115b8955a2250ef643adb960de5e3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 02/49] fix: release the lock's blocks when interrupted while
 waiting

KeyboardInterrupt and SystemExit are not Exceptions, so interrupting a process
that waited for a SlidingLock left its slot behind and everybody with a later
slot waited forever.
---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 41cb04a..cb2045e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,7 +173,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From e0af603dca1025b778b6205cd95294ef909e894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 03/49] fix: survive concurrent creation and removal in
 open_block and friends

Opening a block between its creation and its sizing failed with 'cannot mmap
an empty file', and losing a race to create, replace or remove a block raised
FileExistsError or FileNotFoundError although the caller allowed overwriting.
---
 dustgoggles/codex/memutilz.py | 66 ++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..e732655 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -1,5 +1,33 @@
 from multiprocessing.shared_memory import SharedMemory
 import sys
+import time
+
+
+EMPTY_BLOCK_TIMEOUT = 5
+
+
+def _is_empty_block(error: ValueError) -> bool:
+    """did opening a block fail because its creator has not sized it yet?"""
+    return "cannot mmap an empty file" in str(error)
+
+
+def attach_block(address: str) -> SharedMemory:
+    """
+    open the existing shared memory block at address. blocks are created and
+    sized in separate steps: if another process is between them, wait for it.
+    """
+    deadline = None
+    while True:
+        try:
+            return SharedMemory(address)
+        except ValueError as error:
+            if not _is_empty_block(error):
+                raise
+            if deadline is None:
+                deadline = time.monotonic() + EMPTY_BLOCK_TIMEOUT
+            elif time.monotonic() > deadline:
+                raise
+        time.sleep(0)
 
 
 def open_block(address, size, create=True, overwrite=False):
@@ -8,22 +36,35 @@ def open_block(address, size, create=True, overwrite=False):
     `create` is True, create a new block if none exists. if `overwrite` is
     True, also unlink/overwrite any existing block at that address.
     """
-    try:
-        return SharedMemory(address, size=size, create=create)
-    except FileExistsError:
-        if overwrite is False:
-            return SharedMemory(address)
-        old_block = SharedMemory(address)
-        old_block.unlink()
-        old_block.close()
-        return SharedMemory(address, True, size)
+    if create is False:
+        return SharedMemory(address)
+    while True:
+        try:
+            return SharedMemory(address, size=size, create=True)
+        except FileExistsError:
+            pass
+        try:
+            block = attach_block(address)
+            if overwrite is False:
+                return block
+            block.unlink()
+            block.close()
+        except FileNotFoundError:
+            # another process removed it in the meantime
+            continue
 
 
 def fetch_block_bytes(address: str) -> bytes:
     """
     get the contents of the shared memory block at address as a binary blob.
     """
-    block = SharedMemory(address)
+    try:
+        block = SharedMemory(address)
+    except ValueError as error:
+        if not _is_empty_block(error):
+            raise
+        # its creator has not put anything there yet
+        raise FileNotFoundError(f"nothing stored at {address}") from error
     return block.buf.tobytes()
 
 
@@ -37,16 +78,15 @@ def exists_block(address: str) -> bool:
     except FileNotFoundError:
         return False
     except ValueError as error:
-        if "cannot mmap an empty file" in str(error):
+        if _is_empty_block(error):
             return True
         raise
 
 
-
 def delete_block(address: str, missing_ok=False):
     """delete the shared memory block at address."""
     try:
-        block = SharedMemory(address)
+        block = attach_block(address)
         block.unlink()
         block.close()
     except FileExistsError:
-- 
2.43.0


From b840932ea206e8d6a6161612fc36d80196c6fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 04/49] fix: don't wait for one's own lock when deleting from a
 MetaTagIndex

MetaTagIndex.__delitem__ took the index's lock and then called
TagIndex.__delitem__, which waits for the same lock forever. This made it
impossible to delete from, clear or close a GridPaper.
---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index cb2045e..6541a94 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -599,7 +599,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 2f1ee9e2571e6c5992fd803413e52241ce56b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 05/49] fix: let delete_block(missing_ok=True) tolerate a
 missing block

It caught FileExistsError, which deleting never raises, so removing a key
without metadata from a MetaTagIndex failed halfway through.
---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index e732655..568afd6 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -89,7 +89,7 @@ def delete_block(address: str, missing_ok=False):
         block = attach_block(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From fed2dd4cb9113f39ce3c07b01c1524b03483e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 06/49] fix: keep shared indexes consistent for readers,
 threads and failed stores

A key's slot was counted before it was written and emptied before it was
vacated, so lock-free listings crashed or reported NUL strings, duplicate keys
or other keys' values, and a store that failed halfway left a hole for good.
Write a slot completely before counting it and vacate it only after its key
has moved; undo a store that fails; look keys up by slot and name together;
and keep the length of the operation in progress off the instance, which
threads share.
---
 dustgoggles/codex/implements.py | 224 ++++++++++++++++++--------------
 1 file changed, 129 insertions(+), 95 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6541a94..a4c8ad8 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -89,8 +89,6 @@ from pathlib import Path
 from random import randint
 from typing import Any, Union, Optional, Callable
 
-from cytoolz import juxt
-
 from dustgoggles.codex.codecs import (
     generic_mnemonic_factory,
     json_codec_factory,
@@ -403,54 +401,96 @@ class TagIndex(ShareableIndex):
             if "not enough values" not in str(error):
                 raise error
             return self.update_length()
+        return self.length
 
     def update(self):
-        self.cache = []
-        for ix, key in self._enumerate_keys():
-            self.cache.append(key)
-        return self.cache
+        cache = [key for _, key in self._enumerate_keys()]
+        self.cache = cache
+        return cache
 
     def check(self, target) -> Optional[int]:
-        if exists_block(self.hash_address(target)):
-            nameblock = SharedMemory(self.hash_address(target))
-            return int.from_bytes(nameblock.buf.tobytes(), "little")
-        return None
+        """return the slot of `target`, or None if it is not in the index."""
+        position, moved_from = None, None
+        while True:
+            try:
+                blob = fetch_block_bytes(self.hash_address(target))
+                position = int.from_bytes(blob, "little")
+                key = fetch_block_bytes(self.key_address(position))
+                if (
+                    key == str(target).encode()
+                    and position < int.from_bytes(
+                        self.memory.buf.tobytes(), "little"
+                    )
+                ):
+                    return position
+            except FileNotFoundError:
+                pass
+            # either `target` is not (or not yet, or no longer) in the index,
+            # or it was moved to another slot while we looked
+            if position is None or position == moved_from:
+                return None
+            position, moved_from = None, position
 
     def _enumerate_keys(self):
-        self.update_length()
-        for ix in range(self.length):
+        seen = set()
+        for ix in range(self.update_length()):
             try:
-                keyblock = SharedMemory(self.key_address(ix))
-                key = keyblock.buf.tobytes().decode()
-            except FileNotFoundError:
+                key = fetch_block_bytes(self.key_address(ix)).decode()
+            except (FileNotFoundError, UnicodeDecodeError):
+                continue
+            # skip slots another process is writing and keys it has moved
+            if key in seen or not exists_block(self.hash_address(key)):
                 continue
+            seen.add(key)
             yield ix, key
 
-    def _add(self, key, exists_ok) -> Optional[int]:
+    def _set_value(self, index_ix, value):
+        """attach a value to a slot. see MetaTagIndex."""
+        pass
+
+    def _move_value(self, source_ix, index_ix):
+        """move the value attached to a slot, if any, to another slot."""
+        pass
+
+    def _drop_value(self, index_ix):
+        """delete the value attached to a slot, if any."""
+        pass
+
+    def _add(self, key, exists_ok, value=None) -> Optional[int]:
         found_at = self.check(key)
         if found_at is not None:
             if exists_ok is True:
                 if getattr(self, "debug") is True:
                     log(f"{here()},,{key} already in index at {found_at}")
+                self._set_value(found_at, value)
                 return found_at
             raise FileExistsError
-        self.update_length()
-        new_length_bytes = (self.length + 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
+        length = self.update_length()
         keybytes = str(key).encode()
-        keyblock = open_block(
-            self.key_address(self.length),
-            create=True,
-            size=len(keybytes),
-            overwrite=True
-        )
-        keyblock.buf[:] = keybytes
-        position_bytes = self.length.to_bytes(8, "little")
-        nameblock = open_block(self.hash_address(key), create=True, size=8)
-        nameblock.buf[:] = position_bytes
+        blocks = []
+        try:
+            keyblock = open_block(
+                self.key_address(length),
+                create=True,
+                size=len(keybytes),
+                overwrite=True
+            )
+            blocks.append(keyblock)
+            keyblock.buf[:] = keybytes
+            nameblock = open_block(self.hash_address(key), create=True, size=8)
+            blocks.append(nameblock)
+            nameblock.buf[:] = length.to_bytes(8, "little")
+            self._set_value(length, value)
+        except BaseException:
+            for block in blocks:
+                block.unlink()
+                block.close()
+            raise
+        # the key exists for other processes from here on
+        self.memory.buf[:] = (length + 1).to_bytes(8, "little")
         if getattr(self, "debug") is True:
-            log(f"{here()},,set {self.length} to {key}")
-        return self.length
+            log(f"{here()},,set {length} to {key}")
+        return length
 
     def add(self, key, value=None, exists_ok=True):
         if value is not None:
@@ -462,32 +502,31 @@ class TagIndex(ShareableIndex):
         found_at = self.check(target)
         if found_at is None:
             raise KeyError(f"{target} not found in this index.")
-        self.update_length()
-        if found_at != self.length - 1:
-            lastblock = SharedMemory(self.key_address(self.length - 1))
-            lastkey = lastblock.buf.tobytes()
+        last = self.update_length() - 1
+        if found_at != last:
+            # fill the hole with the last key. readers don't take the lock, so
+            # the last slot stays as it is until everything else is in place.
+            lastkey = fetch_block_bytes(self.key_address(last))
+            lastnameblock = SharedMemory(self.hash_address(lastkey))
+            delete_block(self.hash_address(target))
             moved_block = open_block(
                 self.key_address(found_at),
                 size=len(lastkey),
                 overwrite=True
             )
             moved_block.buf[:] = lastkey
-            nameblock = SharedMemory(self.hash_address(lastkey))
-            nameblock.buf[:] = found_at.to_bytes(8, "little")
-            lastblock.unlink()
-            lastblock.close()
+            self._move_value(last, found_at)
+            lastnameblock.buf[:] = found_at.to_bytes(8, "little")
             if getattr(self, "debug") is True:
                 log(
                     f"{here()},,overwrote block at position {found_at} "
-                    f"with block at position {self.length - 1} "
+                    f"with block at position {last} "
                 )
         else:
-            delete_block(self.key_address(found_at))
-            if getattr(self, "debug") is True:
-                log(f"{here()},,deleted block at position {found_at}")
-        delete_block(self.hash_address(target))
-        new_length_bytes = (self.length - 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
+            delete_block(self.hash_address(target))
+        self.memory.buf[:] = last.to_bytes(8, "little")
+        delete_block(self.key_address(last))
+        self._drop_value(last)
         if getattr(self, "debug") is True:
             log(
                 f"{here()},,deleted {target} at index slot {found_at} "
@@ -541,79 +580,74 @@ class MetaTagIndex(TagIndex):
         encode, decode = json_codec_factory()
         self.memorize = partial(memorize, exists_ok=True, encode=encode)
         self.remember = partial(remember, fetch=True, decode=decode)
+        self.decode = decode
         if create is True:
             self.memory = SharedMemory(self.name)
 
     def val_address(self, index_ix):
         return f"{self.name}_val_{index_ix}"
 
-    def _load_key(self, ix):
-        keyblock = SharedMemory(self.key_address(ix))
-        return keyblock.buf.tobytes().decode()
+    def _set_value(self, index_ix, value):
+        if value is not None:
+            self.memorize(value, self.val_address(index_ix))
 
-    def _load_value(self, ix):
+    def _move_value(self, source_ix, index_ix):
         try:
-            return self.remember(self.val_address(ix))
+            valbytes = fetch_block_bytes(self.val_address(source_ix))
         except FileNotFoundError:
-            return
+            return self._drop_value(index_ix)
+        block = open_block(
+            self.val_address(index_ix), size=len(valbytes), overwrite=True
+        )
+        block.buf[:] = valbytes
 
-    def _enumerate(self, get_keys=False, get_values=False):
-        loaders = [
-            loader if arg is True else zero
-            for arg, loader
-            in zip((get_keys, get_values), (self._load_key, self._load_value))
-        ]
-        load = juxt(loaders)
-        self.update_length()
-        for ix in range(self.length):
-            key, val = load(ix)
-            output = [ix]
-            if get_keys is True:
-                output.append(key)
-            if get_values is True:
-                output.append(val)
-            yield tuple(output)
+    def _drop_value(self, index_ix):
+        delete_block(self.val_address(index_ix), missing_ok=True)
+
+    def _load_value_bytes(self, key) -> Optional[bytes]:
+        """return encoded value of `key`, None if it has none"""
+        while True:
+            found_at = self.check(key)
+            if found_at is None:
+                raise KeyError(f"{key} not found in index.")
+            try:
+                valbytes = fetch_block_bytes(self.val_address(found_at))
+            except FileNotFoundError:
+                valbytes = None
+            # another process may have moved it while we looked
+            if self.check(key) == found_at:
+                return valbytes
+
+    def _enumerate(self):
+        for _, key in self._enumerate_keys():
+            try:
+                valbytes = self._load_value_bytes(key)
+            except KeyError:
+                continue
+            yield key, None if valbytes is None else self.decode(valbytes)
 
     def keys(self):
-        return [key for _, key in self._enumerate(True)]
+        return [key for _, key in self._enumerate_keys()]
 
     def values(self):
-        return [val for _, val in self._enumerate(False, True)]
+        return [val for _, val in self._enumerate()]
 
     def items(self):
-        return [(key, val) for _, key, val in self._enumerate(True, True)]
+        return list(self._enumerate())
 
     def add(self, key, value=None, exists_ok=True):
         with self.lock_class(self.name, self.debug):
-            writehead = super()._add(key, exists_ok)
-            if value is not None:
-                self.memorize(value, self.val_address(writehead))
-            return writehead
+            return self._add(key, exists_ok, value)
 
     def __getitem__(self, key):
-        found_at = self.check(key)
-        if found_at is None:
-            raise KeyError(f"{key} not found in index.")
-        valblock = SharedMemory(self.val_address(found_at))
-        return valblock.buf.tobytes()
+        valbytes = self._load_value_bytes(key)
+        if valbytes is None:
+            raise FileNotFoundError(f"no value attached to {key}.")
+        return valbytes
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super()._delitem(target)
-            if (
-                (found_at == self.length - 1)
-                or not exists_block(self.val_address(self.length - 1))
-            ):
-                delete_block(self.val_address(found_at), True)
-            elif exists_block(self.val_address(self.length - 1)):
-                valblock = SharedMemory(self.val_address(self.length - 1))
-                valbytes = valblock.buf.tobytes()
-                moved_block = open_block(
-                    self.val_address(found_at), size=len(valbytes), overwrite=True
-                )
-                moved_block.buf[:] = valbytes
-                delete_block(self.val_address(self.length - 1))
-        return found_at
+            return self._delitem(target)
 
 
 class AbstractNotepad(ABC):
-- 
2.43.0


From 911390d9e395555c8517ed3b814bc97a3a740fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 07/49] fix: treat missing notepad keys as missing and stored
 Nones as stored

Reading a missing key raised FileNotFoundError past Notepad.get's default,
while a key whose value is None was reported missing.
---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index a4c8ad8..05c55a2 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -797,10 +797,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not apparently assigned")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From 6e2161a9daf42c3572d757e331afeed55f8949ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 08/49] fix: list a notepad key only once its value can be read

The key was listed before its value was written, so iterating over a notepad
while another process stored a new key failed, and a store that failed left a
listed key without a value that exists_ok=False then refused to store again.
Write the value first; claim the key by creating its block exclusively.
---
 dustgoggles/codex/codecs.py     | 11 +++++------
 dustgoggles/codex/implements.py | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..81eb3b6 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -5,9 +5,7 @@ import pickle
 from multiprocessing.shared_memory import SharedMemory
 from typing import Any, Callable, Optional
 
-from dustgoggles.codex.memutilz import (
-    open_block, fetch_block_bytes, exists_block
-)
+from dustgoggles.codex.memutilz import open_block, fetch_block_bytes
 from dustgoggles.func import zero
 
 
@@ -86,11 +84,12 @@ def generic_mnemonic_factory():
         exists_ok is not True, will raise a FileExistsError. returns
         `address`.
         """
-        if (exists_ok is False) and exists_block(address):
-            raise FileExistsError
         encoded = encode(value)
         size = len(encoded)
-        block = open_block(address, size, True, True)
+        if exists_ok is False:
+            block = SharedMemory(address, True, size)
+        else:
+            block = open_block(address, size, True, True)
         block.buf[:] = encoded
         return address
 
diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 05c55a2..71f3947 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -811,16 +811,24 @@ class Notepad(AbstractNotepad):
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
+        address = self.address(key)
+        is_new = not exists_block(address)
         try:
-            self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
-            if self.debug is True:
-                log(f"{here()},,set key={key} to {value}")
+            self.memorize(value, address, exists_ok)
         except FileExistsError:
             raise KeyError(
                 f"{key} already exists in this object's cache. pass "
                 f"exists_ok=True to overwrite it."
             )
+        # don't list the key before its value can be read
+        try:
+            self.index.add(key, meta)
+        except BaseException:
+            if is_new:
+                delete_block(address, missing_ok=True)
+            raise
+        if self.debug is True:
+            log(f"{here()},,set key={key} to {value}")
 
     def set(self, key: str, value: Any, meta=None, exists_ok: bool = True):
         return self.__setitem__(key, value, meta, exists_ok)
-- 
2.43.0


From 4e5b7dd73cb857a93ea3fc9f5d3d25a1476c43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 09/49] fix: allow overwriting arrays by larger ones; honor
 exists_ok for arrays

memorize_array passed exists_ok on as 'create a block if there is none', so
exists_ok=False failed for new names and overwrote existing ones, and storing
an array larger than the one it replaces failed.
---
 dustgoggles/codex/codecs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 81eb3b6..d616d9d 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -130,9 +130,18 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         """
         generate an array backed by a shared memory block at `address` and
         fill it with the contents of `array`. return a dict containing
-        metadata necessary to fetch and reconstruct the array.
+        metadata necessary to fetch and reconstruct the array. If a block
+        already exists at `address` and exists_ok is False, will raise a
+        FileExistsError.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        size = array.size * array.itemsize
+        if exists_ok is False:
+            block = SharedMemory(address, True, size)
+        else:
+            # reuse an existing block, which others may have open, if it fits
+            block = open_block(address, size)
+            if block.size < size:
+                block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
@@ -141,7 +150,7 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
             "name": block.name,
             "dtype": array.dtype.str,
             "shape": array.shape,
-            "size": array.size * array.itemsize
+            "size": size
         }
         if keep_open is False:
             return metadata, None
-- 
2.43.0


From 90e7902b0ba2971551ee5a76105b16ec2975e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 10/49] fix: let GridPaper return an unopened block when asked
 for one

remember_array returns a bare block with fetch=False, which could not be
unpacked into an array and a block.
---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 71f3947..8efca70 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -907,6 +907,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch, copy)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0


From 8a80b7f5ce3444a9f533a8b434f8ebb29290a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 11/49] fix: allow sticking and reading stickies in any order

Sticking an object of another size at the same address failed, sticking one of
the same size exposed mixtures of both, and reading a sticky while it was being
stuck raised decoding errors.
---
 dustgoggles/codex/implements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 8efca70..a405d9f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -86,6 +86,7 @@ from functools import partial
 from hashlib import sha256
 from multiprocessing.shared_memory import SharedMemory
 from pathlib import Path
+from pickle import UnpicklingError
 from random import randint
 from typing import Any, Union, Optional, Callable
 
@@ -1029,11 +1030,13 @@ class Sticky:
         if (self._cached_value is not None) and (reread is False):
             return self._cached_value
         try:
-            block = SharedMemory(self.address)
+            stream = fetch_block_bytes(self.address)
+            self._cached_value = self.decode(stream)
         except FileNotFoundError:
             return None
-        stream = block.buf.tobytes()
-        self._cached_value = self.decode(stream)
+        except (UnpicklingError, EOFError, UnicodeDecodeError):
+            # somebody is still writing it
+            return None
         return self._cached_value
 
     def close(self):
@@ -1047,7 +1050,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From 156ff568509c087fc7433874f72f0ea54c2cee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 12/49] fix: don't remove a sticky again on exit

Exiting raised FileNotFoundError if a sticky with cleanup_on_exit had already
been closed, by its own process or another.
---
 dustgoggles/codex/implements.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index a405d9f..5a40b91 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1005,7 +1005,14 @@ class Sticky:
         self.encode, self.decode = pickle_codec_factory()
         self._cached_value = value
         if cleanup_on_exit is True:
-            atexit.register(self.close)
+            atexit.register(self._clean_up)
+
+    def _clean_up(self):
+        try:
+            self.close()
+        except FileNotFoundError:
+            # somebody else has already removed it
+            pass
 
     @classmethod
     def note(
@@ -1040,9 +1047,8 @@ class Sticky:
         return self._cached_value
 
     def close(self):
-        block = SharedMemory(self.address)
-        block.unlink()
-        block.close()
+        atexit.unregister(self._clean_up)
+        delete_block(self.address)
 
     def pull(self):
         return self.close()
-- 
2.43.0


From 4057afb025030f933f9ee82ffa2c1d36a30d4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 13/49] fix: never leave two stickies at the same made-up
 address

Processes forked from the same parent share its random state, so stickies
noted without an address replaced each other.
---
 dustgoggles/codex/implements.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 5a40b91..5f15da1 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1027,11 +1027,20 @@ class Sticky:
             'address': str(address),
             'cleanup_on_exit': cleanup_on_exit
         }
-        if address is None:
+        if address is not None:
+            note = Sticky(**init_kwargs)
+            note.stick(obj)
+            return note
+        # other processes may pick the same number, especially if they were
+        # forked from the same one
+        while True:
             init_kwargs['address'] = f"{randint(100000, 999999)}"
-        note = Sticky(**init_kwargs)
-        note.stick(obj)
-        return note
+            note = Sticky(**init_kwargs)
+            try:
+                note.stick(obj, exists_ok=False)
+                return note
+            except FileExistsError:
+                atexit.unregister(note._clean_up)
 
     def read(self, reread=False):
         if (self._cached_value is not None) and (reread is False):
@@ -1053,10 +1062,13 @@ class Sticky:
     def pull(self):
         return self.close()
 
-    def stick(self, obj):
+    def stick(self, obj, exists_ok=True):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size, overwrite=True)
+        if exists_ok is False:
+            block = SharedMemory(self.address, True, size)
+        else:
+            block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From 7a76875ccf1b9d6d9c552406c32dc369e2d09a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 14/49] fix: never leave a damaged or incomplete tracker log

dump() edited the log in place: a failed or interrupted dump (full disk,
unserializable metadata, killed process) left it invalid.
---
 dustgoggles/tracker.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..df7276a 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -1,7 +1,6 @@
 import datetime as dt
 import json
 from inspect import currentframe, getframeinfo
-from io import SEEK_END
 from itertools import count
 import os
 from pathlib import Path
@@ -82,15 +81,19 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
-        mode = "rb+" if self.outpath.exists() else "wb"
-        with self.outpath.open(mode) as stream:
-            if mode == "rb+":
-                stream.seek(-1, SEEK_END)
-                stream.write(b",\n")
-            else:
-                stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
-            stream.write(b"]")
+        content = json.dumps(self.log, indent=2).encode('utf-8') + b"]"
+        if self.outpath.exists():
+            content = self.outpath.read_bytes()[:-1] + b",\n" + content
+        else:
+            content = b"[" + content
+        # never leave a partially-written log: it replaces the old one whole
+        temp = self.outpath.with_name(f"{self.outpath.name}.{os.getpid()}")
+        try:
+            temp.write_bytes(content)
+            temp.replace(self.outpath)
+        except BaseException:
+            temp.unlink(missing_ok=True)
+            raise
 
     _paused = False
     paused = property(_get_paused, _set_paused)
-- 
2.43.0


From ee22cc68679d32cd5c7332e4172eea52309a8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 15/49] fix: leave nothing behind when closing, clearing or
 exiting

GridPaper.clear() always failed; closing an index left its keys' blocks in
shared memory; closing something another process had already closed, or
exiting after failing to create it, raised.
---
 dustgoggles/codex/implements.py | 49 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 5f15da1..1d8079c 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -296,8 +296,6 @@ class ShareableIndex(ABC):
             self.lock_class = FakeLock
         else:
             self.lock_class = SlidingLock
-        if cleanup_on_exit is True:
-            atexit.register(self.close)
         self.debug = debug
 
     @abstractmethod
@@ -385,6 +383,8 @@ class TagIndex(ShareableIndex):
             self.memory = SharedMemory(name=name, create=True, size=8)
         self.cache = []
         self.length = None
+        if cleanup_on_exit is True:
+            atexit.register(self.close)
 
     def hash_address(self, key):
         if not isinstance(key, bytes):
@@ -540,12 +540,16 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
-        self.memory.unlink()
-        self.memory.close()
-        if exists_block(f"{self.name}_count"):
-            block = SharedMemory(f"{self.name}_count")
-            block.unlink()
-            block.close()
+        if self.memory.buf is not None:
+            for key in self.update():
+                try:
+                    self.remove(key)
+                except KeyError:
+                    # another process has already removed it
+                    continue
+            self.memory.close()
+        delete_block(self.name, missing_ok=True)
+        delete_block(f"{self.name}_count", missing_ok=True)
         atexit.unregister(self.close)
 
 
@@ -751,6 +755,13 @@ class AbstractNotepad(ABC):
     def __delitem__(self, key):
         pass
 
+    def _discard(self, key):
+        try:
+            del self[key]
+        except KeyError:
+            # another process has already removed it
+            pass
+
     @abstractmethod
     def dump(self, key, fn):
         pass
@@ -864,7 +875,7 @@ class Notepad(AbstractNotepad):
             for key in keys:
                 if dump is True:
                     self.dump(key)
-                del self[key]
+                self._discard(key)
             self.index.close()
         except AttributeError:
             pass
@@ -872,7 +883,7 @@ class Notepad(AbstractNotepad):
 
     def clear(self):
         for key in self.update_index():
-            del self[key]
+            self._discard(key)
 
     def __str__(self):
         return f"{self.__class__.__name__} with keys {self.update_index()}"
@@ -974,16 +985,20 @@ class GridPaper(AbstractNotepad):
             raise KeyError(f"{key} not apparently assigned")
 
     def close(self, dump=False):
-        for key in self.update_index():
-            if dump is True:
-                self.dump(key)
-            del self[key]
-        self.index.close()
+        try:
+            for key in self.update_index():
+                if dump is True:
+                    self.dump(key)
+                self._discard(key)
+            self.index.close()
+        except AttributeError:
+            # already closed
+            pass
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
-            del self[key]
+        for key in self.update_index():
+            self._discard(key)
 
     def __str__(self):
         return (
-- 
2.43.0


From f6483c80363ba563c25003932010b103451eb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 16/49] fix: store and delete a key as one step

setting and deleting one key in two processes at once could leave a value
nobody lists, never cleaned up, or a listed key without a value.
---
 dustgoggles/codex/implements.py | 105 +++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 35 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 1d8079c..cf4e71b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -79,9 +79,11 @@ is somewhat more challenging to free leaked blocks on Windows.
 import atexit
 import datetime as dt
 import os
+import threading
 import time
 from abc import abstractmethod, ABC
 from collections import namedtuple
+from contextlib import contextmanager
 from functools import partial
 from hashlib import sha256
 from multiprocessing.shared_memory import SharedMemory
@@ -271,6 +273,10 @@ class SlidingLock:
                 continue
 
 
+# names of indexes whose locks are held by each thread
+_HELD_LOCKS = threading.local()
+
+
 class ShareableIndex(ABC):
     """
     abstract base class for indexes that exist in shared memory and can be
@@ -286,6 +292,7 @@ class ShareableIndex(ABC):
         debug=False,
         **_
     ):
+        self.name = name
         if (create is False) and not exists_block(name):
             raise FileNotFoundError(
                 f"Shared memory block {name} does not exist and "
@@ -298,6 +305,23 @@ class ShareableIndex(ABC):
             self.lock_class = SlidingLock
         self.debug = debug
 
+    @contextmanager
+    def locked(self):
+        """
+        hold this index's lock. may be nested: only the outermost of several
+        uses in one thread acquires and releases the lock.
+        """
+        names = _HELD_LOCKS.__dict__.setdefault("names", set())
+        if self.name in names:
+            yield
+            return
+        with self.lock_class(self.name, self.debug):
+            names.add(self.name)
+            try:
+                yield
+            finally:
+                names.discard(self.name)
+
     @abstractmethod
     def update(self):
         """
@@ -496,7 +520,7 @@ class TagIndex(ShareableIndex):
     def add(self, key, value=None, exists_ok=True):
         if value is not None:
             raise ValueError("TagIndex does not support value-setting.")
-        with self.lock_class(self.name, self.debug):
+        with self.locked():
             return self._add(key, exists_ok)
 
     def _delitem(self, target):
@@ -536,7 +560,7 @@ class TagIndex(ShareableIndex):
         return found_at
 
     def __delitem__(self, target):
-        with self.lock_class(self.name, self.debug):
+        with self.locked():
             return self._delitem(target)
 
     def close(self):
@@ -641,7 +665,7 @@ class MetaTagIndex(TagIndex):
         return list(self._enumerate())
 
     def add(self, key, value=None, exists_ok=True):
-        with self.lock_class(self.name, self.debug):
+        with self.locked():
             return self._add(key, exists_ok, value)
 
     def __getitem__(self, key):
@@ -651,7 +675,7 @@ class MetaTagIndex(TagIndex):
         return valbytes
 
     def __delitem__(self, target):
-        with self.lock_class(self.name, self.debug):
+        with self.locked():
             return self._delitem(target)
 
 
@@ -824,21 +848,22 @@ class Notepad(AbstractNotepad):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         address = self.address(key)
-        is_new = not exists_block(address)
-        try:
-            self.memorize(value, address, exists_ok)
-        except FileExistsError:
-            raise KeyError(
-                f"{key} already exists in this object's cache. pass "
-                f"exists_ok=True to overwrite it."
-            )
-        # don't list the key before its value can be read
-        try:
-            self.index.add(key, meta)
-        except BaseException:
-            if is_new:
-                delete_block(address, missing_ok=True)
-            raise
+        with self.index.locked():
+            is_new = not exists_block(address)
+            try:
+                self.memorize(value, address, exists_ok)
+            except FileExistsError:
+                raise KeyError(
+                    f"{key} already exists in this object's cache. pass "
+                    f"exists_ok=True to overwrite it."
+                )
+            # don't list the key before its value can be read
+            try:
+                self.index.add(key, meta)
+            except BaseException:
+                if is_new:
+                    delete_block(address, missing_ok=True)
+                raise
         if self.debug is True:
             log(f"{here()},,set key={key} to {value}")
 
@@ -849,8 +874,9 @@ class Notepad(AbstractNotepad):
         if key in (["index", "index_lock"]):
             raise KeyError("'index' and 'index_lock' are reserved key names")
         try:
-            delete_block(self.address(key))
-            self.index.remove(key)
+            with self.index.locked():
+                delete_block(self.address(key))
+                self.index.remove(key)
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
 
@@ -939,18 +965,26 @@ class GridPaper(AbstractNotepad):
     ):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved namespace.")
-        try:
-            metadata, block = self.memorize(
-                value, self.address(key), exists_ok, keep_open
-            )
-            if keep_open is True:
-                self._open_blocks.append(block)
-        except FileExistsError:
-            raise KeyError(
-                f"{key} already exists in this object's cache. pass "
-                f"exists_ok=True to overwrite it."
-            )
-        self.index.add(key, metadata)
+        address = self.address(key)
+        with self.index.locked():
+            is_new = not exists_block(address)
+            try:
+                metadata, block = self.memorize(
+                    value, address, exists_ok, keep_open
+                )
+            except FileExistsError:
+                raise KeyError(
+                    f"{key} already exists in this object's cache. pass "
+                    f"exists_ok=True to overwrite it."
+                )
+            try:
+                self.index.add(key, metadata)
+            except BaseException:
+                if is_new:
+                    delete_block(address, missing_ok=True)
+                raise
+        if keep_open is True:
+            self._open_blocks.append(block)
 
     def _add_index_key(self, key):
         raise TypeError
@@ -975,8 +1009,9 @@ class GridPaper(AbstractNotepad):
         if key in (["index", "index_lock"]):
             raise KeyError("'index' and 'index_lock' are reserved key names")
         try:
-            delete_block(self.address(key))
-            self.index.remove(key)
+            with self.index.locked():
+                delete_block(self.address(key))
+                self.index.remove(key)
             for block in self._open_blocks:
                 if block.name == key:
                     block.close()
-- 
2.43.0


From 7905568dc616af37370366be3aec04489d824099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 17/49] fix: don't clean up notes that were never left

---
 dustgoggles/codex/implements.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index cf4e71b..8b3f604 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1077,20 +1077,21 @@ class Sticky:
             'address': str(address),
             'cleanup_on_exit': cleanup_on_exit
         }
-        if address is not None:
-            note = Sticky(**init_kwargs)
-            note.stick(obj)
-            return note
-        # other processes may pick the same number, especially if they were
-        # forked from the same one
         while True:
-            init_kwargs['address'] = f"{randint(100000, 999999)}"
+            if address is None:
+                init_kwargs['address'] = f"{randint(100000, 999999)}"
             note = Sticky(**init_kwargs)
             try:
-                note.stick(obj, exists_ok=False)
+                note.stick(obj, exists_ok=address is not None)
                 return note
-            except FileExistsError:
+            except BaseException as ex:
+                # there is no note, so there is nothing to clean up on exit
                 atexit.unregister(note._clean_up)
+                # other processes may pick the same number, especially if
+                # they were forked from the same one
+                if address is None and isinstance(ex, FileExistsError):
+                    continue
+                raise
 
     def read(self, reread=False):
         if (self._cached_value is not None) and (reread is False):
-- 
2.43.0


From 74896a7f20ffc8943ce1ef861224be296529f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 18/49] fix: let processes that don't track shared memory use
 semaphores

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 568afd6..2c6dd07 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -124,14 +124,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From 310a3f57ba745c90ec3765c361be1f0808134952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 19/49] fix: give back empty, zero-dimensional and structured
 arrays as stored

---
 dustgoggles/codex/codecs.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index d616d9d..1cf92b4 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -124,6 +124,17 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
     """
     import numpy as np
 
+    def dtype_text(dtype: np.dtype) -> str:
+        # dtype.str omits the fields of structured dtypes
+        if dtype.fields is None:
+            return dtype.str
+        return repr(np.lib.format.dtype_to_descr(dtype))
+
+    def dtype_from_text(text: str) -> np.dtype:
+        if text.startswith("["):
+            return np.lib.format.descr_to_dtype(ast.literal_eval(text))
+        return np.dtype(text)
+
     def memorize_array(
         array: np.ndarray, address: str, exists_ok: bool, keep_open: bool
     ) -> tuple[dict, Optional[SharedMemory]]:
@@ -134,7 +145,11 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         already exists at `address` and exists_ok is False, will raise a
         FileExistsError.
         """
-        size = array.size * array.itemsize
+        if array.dtype.hasobject:
+            raise TypeError("arrays of Python objects can't be shared")
+        dtype = dtype_text(array.dtype)
+        # there are no empty blocks
+        size = max(array.size * array.itemsize, 1)
         if exists_ok is False:
             block = SharedMemory(address, True, size)
         else:
@@ -145,10 +160,10 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
-            "dtype": array.dtype.str,
+            "dtype": dtype,
             "shape": array.shape,
             "size": size
         }
@@ -164,7 +179,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         if fetch is False:
             return block
         array = np.ndarray(
-            metadata['shape'], dtype=metadata['dtype'], buffer=block.buf
+            metadata['shape'],
+            dtype=dtype_from_text(metadata['dtype']),
+            buffer=block.buf
         )
         if copy is True:
             return array.copy(), None
-- 
2.43.0


From 20aa582c38158cd659df017ad9c72c997d1656c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 20/49] fix: refuse every reserved key when storing and
 deleting

---
 dustgoggles/codex/implements.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 8b3f604..0ce151b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -731,6 +731,12 @@ class AbstractNotepad(ABC):
     def address(self, key):
         return f"{self.prefix}_{key}"
 
+    @staticmethod
+    def _refuse_reserved(key):
+        # addresses of the index's own blocks
+        if str(key).startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
+
     def update_index(self) -> Union[dict, tuple]:
         return self.index.update()
 
@@ -845,8 +851,7 @@ class Notepad(AbstractNotepad):
             return default
 
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
-        if isinstance(key, str) and key.startswith("index"):
-            raise KeyError("'index' is a reserved key prefix")
+        self._refuse_reserved(key)
         address = self.address(key)
         with self.index.locked():
             is_new = not exists_block(address)
@@ -871,8 +876,7 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        self._refuse_reserved(key)
         try:
             with self.index.locked():
                 delete_block(self.address(key))
@@ -963,8 +967,7 @@ class GridPaper(AbstractNotepad):
     def __setitem__(
         self, key, value, exists_ok: bool = True, keep_open: bool = False
     ):
-        if isinstance(key, str) and key.startswith("index"):
-            raise KeyError("'index' is a reserved namespace.")
+        self._refuse_reserved(key)
         address = self.address(key)
         with self.index.locked():
             is_new = not exists_block(address)
@@ -1006,8 +1009,7 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        self._refuse_reserved(key)
         try:
             with self.index.locked():
                 delete_block(self.address(key))
-- 
2.43.0


From 83e006cd3bd8f0f38d306576d2fc49fcb5710e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 21/49] fix: open an index while its creator is still sizing it

---
 dustgoggles/codex/implements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0ce151b..9ef8331 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -99,7 +99,7 @@ from dustgoggles.codex.codecs import (
     numpy_mnemonic_factory,
 )
 from dustgoggles.codex.memutilz import (
-    open_block, fetch_block_bytes, delete_block, exists_block
+    attach_block, open_block, fetch_block_bytes, delete_block, exists_block
 )
 from dustgoggles.func import zero
 
@@ -402,7 +402,7 @@ class TagIndex(ShareableIndex):
         self.name = name
         super().__init__(name, create, cleanup_on_exit, no_lockout, debug)
         if create is False:
-            self.memory = SharedMemory(name=name)
+            self.memory = attach_block(name)
         else:
             self.memory = SharedMemory(name=name, create=True, size=8)
         self.cache = []
-- 
2.43.0


From 60d57da7a15079c91cb1d53ec6ba55cc08af5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 22/49] fix: don't leave a new index behind when making it
 fails

---
 dustgoggles/codex/implements.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 9ef8331..b32bb30 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -610,8 +610,6 @@ class MetaTagIndex(TagIndex):
         self.memorize = partial(memorize, exists_ok=True, encode=encode)
         self.remember = partial(remember, fetch=True, decode=decode)
         self.decode = decode
-        if create is True:
-            self.memory = SharedMemory(self.name)
 
     def val_address(self, index_ix):
         return f"{self.name}_val_{index_ix}"
-- 
2.43.0


From a16d2912d5a62da5a54778f45ba43f8887ef3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 23/49] fix: let the ast codec restore strings

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 1cf92b4..efcb310 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -38,7 +38,7 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From 5104300366b2baac40bb75dfbb0b0701992bd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 24/49] fix: track a replaced step once, and as what it is

---
 dustgoggles/composition.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..c2cbcc1 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -77,10 +77,14 @@ class Composition:
     def _add_track_send(self, step_name: Hashable):
         if self.tracker is None:
             return
-        self.add_send(
-            step_name,
-            pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
-        )
+        pipe = _track_factory(self.tracker, step_name, self.steps[step_name])
+        sends = self.sends.get(step_name, ())
+        for ix, (existing, *_) in enumerate(sends):
+            if getattr(existing, "tracks_for", None) is self.tracker:
+                # the step was replaced
+                sends[ix] = (pipe, None, None)
+                return
+        self.add_send(step_name, pipe=pipe)
 
     def reindex(self):
         self.steps = reindex_mapping(self.steps)
@@ -293,4 +297,5 @@ def _track_factory(tracker, step, func):
     def track(_):
         return tracker.track(func, step=step)
 
+    track.tracks_for = tracker
     return track
-- 
2.43.0


From 489e6e853f1d4c5330fcdfa58dacfa5d0dc867a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 25/49] fix: read the whole head of a stream that delivers it
 in pieces, and close it if reading fails

---
 dustgoggles/scrape.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..cf325c6 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -76,8 +76,14 @@ def head_file(fn_or_reader, nbytes):
     head_buffer = BytesIO()
     if not hasattr(fn_or_reader, "read"):
         fn_or_reader = open(fn_or_reader, 'rb')
-    head_buffer.write(fn_or_reader.read(nbytes))
-    fn_or_reader.close()
+    try:
+        # readers of streams may return less than they were asked for
+        while (chunk := fn_or_reader.read(nbytes)):
+            head_buffer.write(chunk)
+            if nbytes is not None and nbytes > 0:
+                nbytes -= len(chunk)
+    finally:
+        fn_or_reader.close()
     head_buffer.seek(0)
     return head_buffer
 
-- 
2.43.0


From 086b3ef03d3b7f48ffa12090bb17c46a8d98cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 26/49] fix: scraping survives text that looks like a literal
 but isn't one

---
 dustgoggles/scrape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index cf325c6..64ffc52 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,9 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):  # everything literal_eval() raises for text that isn't a literal
             return result.group(1)
 
     return scrape
-- 
2.43.0


From d24474ad4dbe1f804c6f0305132475eb4898df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 27/49] fix: leave the caller's job records alone when mapping
 them into a pool

---
 dustgoggles/structures.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..5b62af4 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -372,10 +372,15 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
-        for i, rec in enumerate(argrecs):
-            rec['key'] = rec.get('key', i)
-            rec['args'] = rec.get('args', ())
-            rec['kwargs'] = rec.get('kwargs', {})
+        # (leaving the caller's own records alone)
+        argrecs = [
+            {
+                'key': rec.get('key', i),
+                'args': rec.get('args', ()),
+                'kwargs': rec.get('kwargs', {})
+            }
+            for i, rec in enumerate(argrecs)
+        ]
         if (as_chunks is False) or (self.pool is None):
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
-- 
2.43.0


From f79a44107e8613dfc7a1577694547beab33033f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 28/49] fix: keep the outcomes of jobs mapped in chunks apart

---
 dustgoggles/structures.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 5b62af4..1b8480a 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -358,11 +358,23 @@ class MaybeResult:
 
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs'])
         for rec in argrecs
     }
 
 
+class ChunkedResult:
+    """one job's share of the (possibly pending) result of a chunk of jobs"""
+    def __init__(self, chunk, key):
+        self.chunk, self.key = chunk, key
+
+    def get(self):
+        return self.chunk.get()[self.key].get()
+
+    def ready(self):
+        return self.chunk.ready()
+
+
 class MaybePool:
     def __init__(self, threads=None):
         self.threads, self.results, self.chunked = threads, {}, False
@@ -382,17 +394,20 @@ class MaybePool:
             for i, rec in enumerate(argrecs)
         ]
         if (as_chunks is False) or (self.pool is None):
+            self.chunked = False
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
             }
         else:
             self.chunked = True
-            chunks = divide(self.threads, argrecs)
-            self.results = {
-                f"chunk_{i}": self.apply(_chunkwrap, (func, chunk))
-                for i, chunk in enumerate(chunks)
-            }
+            self.results = {}
+            for chunk in map(list, divide(self.threads, argrecs)):
+                result = self.apply(_chunkwrap, (func, chunk))
+                self.results |= {
+                    rec['key']: ChunkedResult(result, rec['key'])
+                    for rec in chunk
+                }
 
     def apply(self, func, args=(), kwargs=None):
         """note: does apply_async by default"""
@@ -415,10 +430,7 @@ class MaybePool:
         output = {}
         for k, v in self.results.items():
             try:
-                if self.chunked is True:
-                    output |= v.get()
-                else:
-                    output[k] = v.get()
+                output[k] = v.get()
             except KeyboardInterrupt:
                 raise
             except Exception as ex:
-- 
2.43.0


From da6c594ad1a4cdc15d222222a73c51f99c7ef337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 29/49] fix: report exceptions that cannot be printed

---
 dustgoggles/dynamic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..65c7553 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -58,7 +58,11 @@ def exc_report(exc, stringify_exception=True):
     if exc is None:
         return {}
     tb = exc.__traceback__
-    exc = exc if stringify_exception is False else f"{type(exc)}: {exc}"
+    if stringify_exception is not False:
+        try:
+            exc = f"{type(exc)}: {exc}"
+        except Exception:  # its __str__() fails
+            exc = f"{type(exc)}: <unprintable>"
     report = {'exception': exc, 'lineno': [], 'name': [], 'filename': []}
     while tb is not None:
         fr = tb.tb_frame
-- 
2.43.0


From f92513eec0273830c2129eeb12d7241a773c8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 30/49] fix: keep a wrapped function's source and globals for
 reloading

---
 dustgoggles/dynamic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 65c7553..757c247 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -179,17 +179,21 @@ class Dynamic:
         #  fancy getattr overrides
         dynamic = super().__new__(cls)
         try:
-            dynamic.source = getsource(func)
+            source = getsource(func)
         except TypeError:  # it's some kind of weirdo callable
             # noinspection PyUnresolvedReferences
             func = func.__call__
-            dynamic.source = getsource(func)
+            source = getsource(func)
         dynamic.code = func.__code__
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
         dynamic.__init__(*init_args, **init_kwargs)
+        # set after __init__(), which would discard them; needed for reloading
+        if dynamic.source is None:
+            dynamic.source = source
+        if dynamic.globals_ is None:
+            dynamic.globals_ = func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 8a575b83aba5ba6ea42f5b4334583318aadb26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 31/49] fix: let a Dynamic that was never loaded be unloaded

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 757c247..0b88aa1 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -138,7 +138,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From dbc8fac744b4269ab8ef19b0a8bde23d6a51b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 32/49] fix: load after an interrupted load, and from several
 threads at once

---
 dustgoggles/dynamic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 0b88aa1..306cebd 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -116,7 +116,8 @@ class Dynamic:
     def load(self, reload=False):
         if (reload is False) and (self.func is not None):
             raise AlreadyLoadedError("self.func already loaded")
-        self.compile_source(reload)
+        # there may be code from an unfinished load, which is of no use
+        self.compile_source(recompile=True)
         self.define(reload)
 
     def compile_source(self, recompile=True):
@@ -143,9 +144,10 @@ class Dynamic:
         self.__name__ = self.__class__.__name__
         self.__signature__ = None
 
-    def _maybe_load_on_call(self, reload=False):
+    def _maybe_load_on_call(self, reload=True):
         if self.func is not None:
             return
+        # reload by default: another thread may be loading at the same time
         if self.load_on_call is True:
             return self.load(reload)
         raise UnreadyError("No loaded function.")
-- 
2.43.0


From cac80a1e1e0900d58afc8b6df52c65103e70aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 33/49] fix: sort every row by chunks, in the direction asked
 for

Rows with a null or NaN key, infinite or very large keys, single chunks and
row groups without statistics were dropped or made sorting fail, and the
chunks of a descending sort were written in ascending order.
---
 dustgoggles/mosaic.py | 109 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 90 insertions(+), 19 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..47b276e 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,7 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
@@ -91,18 +91,30 @@ def meta_column_df(parquet_fn, extended=False):
     return metadata.T
 
 
+def _edge(value, dtype):
+    """bound in a form that compares exactly with a column of type dtype"""
+    if pa.types.is_uint64(dtype) and isinstance(value, int) and value >= 0:
+        return pa.scalar(value, dtype)
+    return value
+
+
 # noinspection PyUnresolvedReferences
 def read_between(
     parquet_file, field, bounds, meta_records, columns=None, verbose=True
 ):
     """
     managed read-between bounds operation, more efficient in some cases
-    than parquet.read_table with specified filters
+    than parquet.read_table with specified filters. a bound of None is open.
     """
+    lower, upper = bounds
     bound_records = []
     for rec in meta_records:
-        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
-            bound_records.append(rec)
+        low, high = rec.get("min"), rec.get("max")
+        if None not in (low, upper) and low > upper:
+            continue
+        if None not in (high, lower) and high < lower:
+            continue
+        bound_records.append(rec)
     if verbose is True:
         print(len(bound_records), len(meta_records))
     if len(bound_records) == 0:
@@ -111,14 +123,59 @@ def read_between(
 
     for rec in bound_records:
         group = parquet_file.read_row_group(rec["row_group"])
-        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
-        more_than = pac.filter(
-            less_than, pac.greater_equal(less_than[field], bounds[0])
-        )
-        bound_groups.append(more_than)
+        dtype = group[field].type
+        present = pac.invert(pac.is_null(group[field], nan_is_null=True))
+        group = group.filter(present)
+        if upper is not None:
+            group = group.filter(pac.less(group[field], _edge(upper, dtype)))
+        if lower is not None:
+            group = group.filter(
+                pac.greater_equal(group[field], _edge(lower, dtype))
+            )
+        bound_groups.append(group)
     return pa.concat_tables(bound_groups)
 
 
+# noinspection PyUnresolvedReferences
+def _read_missing(parquet_file, field, meta_records):
+    """rows whose value for field is null or NaN, which no bounds include"""
+    floating = pa.types.is_floating(parquet_file.schema_arrow.field(field).type)
+    missing_groups = []
+    for rec in meta_records:
+        if rec.get("null_count") == 0 and not floating:
+            continue
+        group = parquet_file.read_row_group(rec["row_group"])
+        missing_groups.append(
+            group.filter(pac.is_null(group[field], nan_is_null=True))
+        )
+    if len(missing_groups) == 0:
+        return
+    return pa.concat_tables(missing_groups)
+
+
+def _split_range(meta_records, dtype, n_chunks):
+    """
+    consecutive windows, open at both ends, that together contain every value
+    """
+    import numpy as np
+
+    lows = [r["min"] for r in meta_records if r.get("min") is not None]
+    highs = [r["max"] for r in meta_records if r.get("max") is not None]
+    if len(lows) == 0 or len(highs) == 0 or n_chunks <= 2:
+        return [(None, None)]
+    low, high = min(lows), max(highs)
+    if low == high:
+        return [(None, None)]
+    if pa.types.is_integer(dtype):
+        steps = n_chunks - 1
+        edges = {low + (high - low) * i // steps for i in range(1, steps)}
+    else:
+        with np.errstate(all="ignore"):
+            edges = set(np.linspace(low, high, n_chunks)[1:-1])
+        edges = {edge for edge in edges if np.isfinite(float(edge))}
+    return list(windowed([None, *sorted(edges), None], 2))
+
+
 def sort_chunked(
     input_file,
     output_file,
@@ -132,8 +189,11 @@ def sort_chunked(
     verbose=True,
     version="2.6"
 ):
-    import numpy as np
-
+    """
+    write the rows of input_file to output_file, sorted by sort_column, about
+    1 / n_chunks of the column's range at a time. rows with a null or NaN in
+    sort_column come last in both directions.
+    """
     write_kwargs, open_kwargs = {}, {}
     if row_group_size is not None:
         write_kwargs["row_group_size"] = row_group_size
@@ -144,20 +204,31 @@ def sort_chunked(
     relevant_records = [
         rec for rec in meta_records if rec["path_in_schema"] == sort_column
     ]
+    dtype = sort_reader.schema_arrow.field(sort_column).type
     if schema is None:
-        schema = sort_reader.read_row_group(0).schema
+        schema = sort_reader.schema_arrow
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-    max_value = max([rec["max"] for rec in relevant_records])
-    min_value = min([rec["min"] for rec in relevant_records])
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
-    try:
+    windows = _split_range(relevant_records, dtype, n_chunks)
+    if direction == "descending":
+        windows.reverse()
+
+    def chunks():
         for window in windows:
-            window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+            yield window, read_between(
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose,
             )
+        yield "missing", _read_missing(
+            sort_reader, sort_column, relevant_records
+        )
+
+    try:
+        for window, window_table in chunks():
             if window_table is None:
                 continue
             if len(window_table) == 0:
-- 
2.43.0


From 3c4ded51a14ad9a5004dc8b054d58635c78dee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 34/49] fix: close the output of a chunked sort whatever goes
 wrong

The writer was opened before the chunks were worked out and outside the try,
so that a bad column or key type left it open.
---
 dustgoggles/mosaic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 47b276e..f545ef8 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -207,9 +207,6 @@ def sort_chunked(
     dtype = sort_reader.schema_arrow.field(sort_column).type
     if schema is None:
         schema = sort_reader.schema_arrow
-    sort_writer = parquet.ParquetWriter(
-        output_file, version=version, schema=schema, **open_kwargs
-    )
     windows = _split_range(relevant_records, dtype, n_chunks)
     if direction == "descending":
         windows.reverse()
@@ -227,6 +224,9 @@ def sort_chunked(
             sort_reader, sort_column, relevant_records
         )
 
+    sort_writer = parquet.ParquetWriter(
+        output_file, version=version, schema=schema, **open_kwargs
+    )
     try:
         for window, window_table in chunks():
             if window_table is None:
-- 
2.43.0


From d9963bfc6d2cfdde65e24dbd03652263df141019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 35/49] fix: never read a half-written block as a value

---
 dustgoggles/codex/codecs.py     |  8 +++++---
 dustgoggles/codex/implements.py | 11 ++++++++---
 dustgoggles/codex/memutilz.py   | 18 +++++++++++++++++-
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index efcb310..235a4c3 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -5,7 +5,9 @@ import pickle
 from multiprocessing.shared_memory import SharedMemory
 from typing import Any, Callable, Optional
 
-from dustgoggles.codex.memutilz import open_block, fetch_block_bytes
+from dustgoggles.codex.memutilz import (
+    fetch_block_bytes, fill_block, open_block
+)
 from dustgoggles.func import zero
 
 
@@ -24,7 +26,7 @@ def json_codec_factory() -> tuple[Callable, Callable]:
 
     def decode(blob: bytes) -> Any:
         """return json deserialization of `blob`"""
-        return json.loads(blob)
+        return json.loads(blob.decode())
     return encode, decode
 
 
@@ -90,7 +92,7 @@ def generic_mnemonic_factory():
             block = SharedMemory(address, True, size)
         else:
             block = open_block(address, size, True, True)
-        block.buf[:] = encoded
+        fill_block(block, encoded)
         return address
 
     def remember(
diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b32bb30..c881870 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -99,7 +99,12 @@ from dustgoggles.codex.codecs import (
     numpy_mnemonic_factory,
 )
 from dustgoggles.codex.memutilz import (
-    attach_block, open_block, fetch_block_bytes, delete_block, exists_block
+    attach_block,
+    delete_block,
+    exists_block,
+    fetch_block_bytes,
+    fill_block,
+    open_block,
 )
 from dustgoggles.func import zero
 
@@ -626,7 +631,7 @@ class MetaTagIndex(TagIndex):
         block = open_block(
             self.val_address(index_ix), size=len(valbytes), overwrite=True
         )
-        block.buf[:] = valbytes
+        fill_block(block, valbytes)
 
     def _drop_value(self, index_ix):
         delete_block(self.val_address(index_ix), missing_ok=True)
@@ -1120,7 +1125,7 @@ class Sticky:
             block = SharedMemory(self.address, True, size)
         else:
             block = open_block(self.address, size, overwrite=True)
-        block.buf[:] = encoded
+        fill_block(block, encoded)
         self._cached_value = obj
 
     def __str__(self):
diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 2c6dd07..d9306e6 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -54,9 +54,21 @@ def open_block(address, size, create=True, overwrite=False):
             continue
 
 
+def fill_block(block: SharedMemory, blob: bytes):
+    """
+    place a binary blob into a newly-created shared memory block. its first
+    byte comes last: until then, the block starts with the 0 that it had when
+    it was created. see fetch_block_bytes().
+    """
+    block.buf[1:] = blob[1:]
+    block.buf[:1] = blob[:1]
+
+
 def fetch_block_bytes(address: str) -> bytes:
     """
     get the contents of the shared memory block at address as a binary blob.
+    another process may be in the middle of writing them: a blob fetched from
+    a block filled with fill_block() is either complete or starts with 0.
     """
     try:
         block = SharedMemory(address)
@@ -65,7 +77,11 @@ def fetch_block_bytes(address: str) -> bytes:
             raise
         # its creator has not put anything there yet
         raise FileNotFoundError(f"nothing stored at {address}") from error
-    return block.buf.tobytes()
+    while True:
+        first = block.buf[:1].tobytes()
+        blob = block.buf.tobytes()
+        if blob[:1] == first:
+            return blob
 
 
 def exists_block(address: str) -> bool:
-- 
2.43.0


From 5522eaa0445338ac6bb30031de3e0d9e4ee9f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 36/49] fix: never give a key the value of another that used
 its slot

---
 dustgoggles/codex/implements.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c881870..af56b3b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -440,11 +440,18 @@ class TagIndex(ShareableIndex):
 
     def check(self, target) -> Optional[int]:
         """return the slot of `target`, or None if it is not in the index."""
+        return self._find(target)[0]
+
+    def _find(self, target) -> tuple[Optional[int], Optional[bytes]]:
+        """
+        return the slot of `target` and the stamp it got when it was added,
+        or (None, None) if it is not in the index.
+        """
         position, moved_from = None, None
         while True:
             try:
                 blob = fetch_block_bytes(self.hash_address(target))
-                position = int.from_bytes(blob, "little")
+                position = int.from_bytes(blob[:4], "little")
                 key = fetch_block_bytes(self.key_address(position))
                 if (
                     key == str(target).encode()
@@ -452,13 +459,13 @@ class TagIndex(ShareableIndex):
                         self.memory.buf.tobytes(), "little"
                     )
                 ):
-                    return position
+                    return position, blob[4:]
             except FileNotFoundError:
                 pass
             # either `target` is not (or not yet, or no longer) in the index,
             # or it was moved to another slot while we looked
             if position is None or position == moved_from:
-                return None
+                return None, None
             position, moved_from = None, position
 
     def _enumerate_keys(self):
@@ -509,7 +516,9 @@ class TagIndex(ShareableIndex):
             keyblock.buf[:] = keybytes
             nameblock = open_block(self.hash_address(key), create=True, size=8)
             blocks.append(nameblock)
-            nameblock.buf[:] = length.to_bytes(8, "little")
+            # slots get reused: stamp the key so that readers can tell if it
+            # was removed and added again while they looked at something else
+            nameblock.buf[:] = length.to_bytes(4, "little") + os.urandom(4)
             self._set_value(length, value)
         except BaseException:
             for block in blocks:
@@ -546,7 +555,7 @@ class TagIndex(ShareableIndex):
             )
             moved_block.buf[:] = lastkey
             self._move_value(last, found_at)
-            lastnameblock.buf[:] = found_at.to_bytes(8, "little")
+            lastnameblock.buf[:4] = found_at.to_bytes(4, "little")
             if getattr(self, "debug") is True:
                 log(
                     f"{here()},,overwrote block at position {found_at} "
@@ -639,15 +648,16 @@ class MetaTagIndex(TagIndex):
     def _load_value_bytes(self, key) -> Optional[bytes]:
         """return encoded value of `key`, None if it has none"""
         while True:
-            found_at = self.check(key)
+            found_at, stamp = self._find(key)
             if found_at is None:
                 raise KeyError(f"{key} not found in index.")
             try:
                 valbytes = fetch_block_bytes(self.val_address(found_at))
             except FileNotFoundError:
                 valbytes = None
-            # another process may have moved it while we looked
-            if self.check(key) == found_at:
+            # another process may have moved it, or may have removed it and
+            # added it again, while we looked
+            if self._find(key) == (found_at, stamp):
                 return valbytes
 
     def _enumerate(self):
-- 
2.43.0


From 4515c7906c4e258547cc16816a0be03556f3e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 37/49] fix: list every key that stays, whatever is removed
 meanwhile

---
 dustgoggles/codex/implements.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index af56b3b..e7115a5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -469,16 +469,18 @@ class TagIndex(ShareableIndex):
             position, moved_from = None, position
 
     def _enumerate_keys(self):
-        seen = set()
-        for ix in range(self.update_length()):
+        found = {}
+        # other processes move keys from the last slot to earlier ones
+        for ix in reversed(range(self.update_length())):
             try:
                 key = fetch_block_bytes(self.key_address(ix)).decode()
             except (FileNotFoundError, UnicodeDecodeError):
                 continue
             # skip slots another process is writing and keys it has moved
-            if key in seen or not exists_block(self.hash_address(key)):
+            if key in found or not exists_block(self.hash_address(key)):
                 continue
-            seen.add(key)
+            found[key] = ix
+        for key, ix in reversed(found.items()):
             yield ix, key
 
     def _set_value(self, index_ix, value):
-- 
2.43.0


From a0d554a61edad83f395df9dc4d1ca4a445ab3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 38/49] fix: a removal that fails midway can be repeated and
 damages nothing

---
 dustgoggles/codex/implements.py | 117 +++++++++++++++++++++++---------
 1 file changed, 84 insertions(+), 33 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index e7115a5..685fb97 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -543,31 +543,13 @@ class TagIndex(ShareableIndex):
         found_at = self.check(target)
         if found_at is None:
             raise KeyError(f"{target} not found in this index.")
-        last = self.update_length() - 1
-        if found_at != last:
-            # fill the hole with the last key. readers don't take the lock, so
-            # the last slot stays as it is until everything else is in place.
-            lastkey = fetch_block_bytes(self.key_address(last))
-            lastnameblock = SharedMemory(self.hash_address(lastkey))
-            delete_block(self.hash_address(target))
-            moved_block = open_block(
-                self.key_address(found_at),
-                size=len(lastkey),
-                overwrite=True
-            )
-            moved_block.buf[:] = lastkey
-            self._move_value(last, found_at)
-            lastnameblock.buf[:4] = found_at.to_bytes(4, "little")
-            if getattr(self, "debug") is True:
-                log(
-                    f"{here()},,overwrote block at position {found_at} "
-                    f"with block at position {last} "
-                )
-        else:
-            delete_block(self.hash_address(target))
-        self.memory.buf[:] = last.to_bytes(8, "little")
-        delete_block(self.key_address(last))
-        self._drop_value(last)
+        # the key does not exist for other processes from here on
+        delete_block(self.hash_address(target))
+        try:
+            self._close_gaps(found_at)
+        except OSError:
+            # there are no resources for tidying up: a later removal will
+            pass
         if getattr(self, "debug") is True:
             log(
                 f"{here()},,deleted {target} at index slot {found_at} "
@@ -575,6 +557,43 @@ class TagIndex(ShareableIndex):
             )
         return found_at
 
+    def _close_gaps(self, gap):
+        """
+        move the last key, if any, to the slot `gap` and drop all slots
+        without a key at the end of the index.
+        """
+        while (last := self.update_length() - 1) >= 0:
+            try:
+                key = fetch_block_bytes(self.key_address(last))
+            except FileNotFoundError:
+                key = None
+            if key is not None and self.check(key.decode()) == last:
+                if gap >= last:
+                    return
+                # readers don't take the lock, so the last slot stays as it
+                # is until everything else is in place.
+                nameblock = SharedMemory(self.hash_address(key))
+                moved_block = open_block(
+                    self.key_address(gap), size=len(key), overwrite=True
+                )
+                moved_block.buf[:] = key
+                self._move_value(last, gap)
+                nameblock.buf[:4] = gap.to_bytes(4, "little")
+                if getattr(self, "debug") is True:
+                    log(
+                        f"{here()},,overwrote block at position {gap} "
+                        f"with block at position {last} "
+                    )
+                gap = last
+            self._drop_value(last)
+            keyblock = None
+            if key is not None:
+                keyblock = SharedMemory(self.key_address(last))
+            self.memory.buf[:] = last.to_bytes(8, "little")
+            if keyblock is not None:
+                keyblock.unlink()
+                keyblock.close()
+
     def __delitem__(self, target):
         with self.locked():
             return self._delitem(target)
@@ -587,9 +606,11 @@ class TagIndex(ShareableIndex):
                 except KeyError:
                     # another process has already removed it
                     continue
-            self.memory.close()
-        delete_block(self.name, missing_ok=True)
+            with self.locked():
+                self._close_gaps(self.update_length())
         delete_block(f"{self.name}_count", missing_ok=True)
+        delete_block(self.name, missing_ok=True)
+        self.memory.close()
         atexit.unregister(self.close)
 
 
@@ -800,6 +821,32 @@ class AbstractNotepad(ABC):
     def __delitem__(self, key):
         pass
 
+    def _remove(self, key):
+        with self.index.locked():
+            try:
+                # opening it may fail, unlinking it will not
+                block = attach_block(self.address(key))
+            except FileNotFoundError:
+                # it may have got lost when it was replaced
+                self._unlist_lost(key)
+                raise
+            try:
+                self.index.remove(key)
+            except KeyError:
+                block.unlink()
+                raise
+            finally:
+                block.close()
+            block.unlink()
+
+    def _unlist_lost(self, key):
+        """take `key` off the index if its old value is gone"""
+        try:
+            if not exists_block(self.address(key)):
+                self.index.remove(key)
+        except (KeyError, OSError):
+            pass
+
     def _discard(self, key):
         try:
             del self[key]
@@ -877,6 +924,10 @@ class Notepad(AbstractNotepad):
                     f"{key} already exists in this object's cache. pass "
                     f"exists_ok=True to overwrite it."
                 )
+            except BaseException:
+                if not is_new:
+                    self._unlist_lost(key)
+                raise
             # don't list the key before its value can be read
             try:
                 self.index.add(key, meta)
@@ -893,9 +944,7 @@ class Notepad(AbstractNotepad):
     def __delitem__(self, key):
         self._refuse_reserved(key)
         try:
-            with self.index.locked():
-                delete_block(self.address(key))
-                self.index.remove(key)
+            self._remove(key)
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
 
@@ -995,6 +1044,10 @@ class GridPaper(AbstractNotepad):
                     f"{key} already exists in this object's cache. pass "
                     f"exists_ok=True to overwrite it."
                 )
+            except BaseException:
+                if not is_new:
+                    self._unlist_lost(key)
+                raise
             try:
                 self.index.add(key, metadata)
             except BaseException:
@@ -1026,9 +1079,7 @@ class GridPaper(AbstractNotepad):
     def __delitem__(self, key):
         self._refuse_reserved(key)
         try:
-            with self.index.locked():
-                delete_block(self.address(key))
-                self.index.remove(key)
+            self._remove(key)
             for block in self._open_blocks:
                 if block.name == key:
                     block.close()
-- 
2.43.0


From 7e9b18cea02ed361cd9bdfc40823d36bb991f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 39/49] fix: dump whole values, each into a file of its own, or
 leave the file alone

---
 dustgoggles/codex/implements.py | 39 ++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 685fb97..4da6a51 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -82,7 +82,7 @@ import os
 import threading
 import time
 from abc import abstractmethod, ABC
-from collections import namedtuple
+from collections import Counter, namedtuple
 from contextlib import contextmanager
 from functools import partial
 from hashlib import sha256
@@ -847,6 +847,20 @@ class AbstractNotepad(ABC):
         except (KeyError, OSError):
             pass
 
+    def _dump_names(self, keys) -> Callable:
+        """return a function that picks names of files to dump keys into"""
+        def short(key):
+            return f"{self.prefix}_{key}".replace(".", "_")
+
+        taken = Counter(map(short, keys or ()))
+
+        def name(key):
+            # don't dump several keys into one file
+            return short(key) if taken[short(key)] < 2 \
+                else f"{self.prefix}_{key}"
+
+        return name
+
     def _discard(self, key):
         try:
             del self[key]
@@ -958,17 +972,21 @@ class Notepad(AbstractNotepad):
 
     def dump(self, key, fn=None, mode="wb"):
         if fn is None:
-            fn = f"{self.prefix}_{key}".replace(".", "_")
+            fn = self._dump_names(self.update_index())(key)
+        # not while somebody is storing it
+        with self.index.locked():
+            raw = self.get_raw(key)
         with open(fn, mode) as file:
             # noinspection PyTypeChecker
-            file.write(self.get_raw(key))
+            file.write(raw)
 
     def close(self, dump=False):
         try:
             keys = self.update_index().copy()
+            dump_name = self._dump_names(keys)
             for key in keys:
                 if dump is True:
-                    self.dump(key)
+                    self.dump(key, dump_name(key))
                 self._discard(key)
             self.index.close()
         except AttributeError:
@@ -1073,8 +1091,11 @@ class GridPaper(AbstractNotepad):
 
     def dump(self, key, fn=None):
         if fn is None:
-            fn = f"{self.prefix}_{key}".replace(".", "_")
-        self[key].tofile(fn)
+            fn = self._dump_names(self.update_index())(key)
+        # not while somebody is storing it
+        with self.index.locked():
+            array = self[key]
+        array.tofile(fn)
 
     def __delitem__(self, key):
         self._refuse_reserved(key)
@@ -1089,9 +1110,11 @@ class GridPaper(AbstractNotepad):
 
     def close(self, dump=False):
         try:
-            for key in self.update_index():
+            keys = self.update_index()
+            dump_name = self._dump_names(keys)
+            for key in keys:
                 if dump is True:
-                    self.dump(key)
+                    self.dump(key, dump_name(key))
                 self._discard(key)
             self.index.close()
         except AttributeError:
-- 
2.43.0


From 0b7ba5da7a3141156fea19fcd9f25a8bfc7174df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 40/49] fix: summarise metadata of several row groups

With extended=True, sizes that happened to be equal in all row groups were
listed both as constants and as sums, so that the summary failed with
ValueError, or gave one group's size for the whole column's.
---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index f545ef8..4e8d8b1 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -46,6 +46,8 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
+        # sums, not values that happen to be the same in all row groups
+        constants = keyfilter(lambda k: k not in col_stats.index, constants)
         col_series.append(pd.concat([pd.Series(constants), col_stats]))
     return pd.concat(col_series, axis=1).T
 
-- 
2.43.0


From 734e6b75df9aa6ea87b4fc4760e5e9bf0c631377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 41/49] fix: read only the columns asked for

read_between ignored its columns argument.
---
 dustgoggles/mosaic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 4e8d8b1..bf620d8 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -124,7 +124,10 @@ def read_between(
     bound_groups = []
 
     for rec in bound_records:
-        group = parquet_file.read_row_group(rec["row_group"])
+        group = parquet_file.read_row_group(
+            rec["row_group"],
+            columns=None if columns is None else [*columns, field]
+        )
         dtype = group[field].type
         present = pac.invert(pac.is_null(group[field], nan_is_null=True))
         group = group.filter(present)
@@ -134,6 +137,8 @@ def read_between(
             group = group.filter(
                 pac.greater_equal(group[field], _edge(lower, dtype))
             )
+        if columns is not None:
+            group = group.select(columns)
         bound_groups.append(group)
     return pa.concat_tables(bound_groups)
 
-- 
2.43.0


From f208d75ee3323c876aa4ff343b2f8308fccfc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 42/49] fix: let several threads or processes dump to one log
 at once

---
 dustgoggles/tracker.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index df7276a..45a50b4 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -6,6 +6,10 @@ import os
 from pathlib import Path
 
 
+# distinguishes this process's temporary files
+_DUMP_COUNTER = count(1)
+
+
 class TrivialTracker:
     def dump(self):
         pass
@@ -82,12 +86,15 @@ class Tracker(TrivialTracker):
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
         content = json.dumps(self.log, indent=2).encode('utf-8') + b"]"
-        if self.outpath.exists():
+        try:
             content = self.outpath.read_bytes()[:-1] + b",\n" + content
-        else:
+        except FileNotFoundError:
             content = b"[" + content
-        # never leave a partially-written log: it replaces the old one whole
-        temp = self.outpath.with_name(f"{self.outpath.name}.{os.getpid()}")
+        # never leave a partially-written log: it replaces the old one whole.
+        # several processes or threads may be about to do so.
+        temp = self.outpath.with_name(
+            f"{self.outpath.name}.{os.getpid()}.{next(_DUMP_COUNTER)}"
+        )
         try:
             temp.write_bytes(content)
             temp.replace(self.outpath)
-- 
2.43.0


From 927d45edaf49cbb01afb45e3488bc89fe633d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 43/49] fix: give unnamed notepads and indexes names nobody
 else has

---
 dustgoggles/codex/implements.py | 59 +++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 4da6a51..23be57b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -402,14 +402,28 @@ class TagIndex(ShareableIndex):
             no_lockout: don't use a lock on this index. decreases thread
                 safety for modest gains in performance.
         """
-        if name is None:
-            name = str(randint(100000, 999999))
-        self.name = name
-        super().__init__(name, create, cleanup_on_exit, no_lockout, debug)
-        if create is False:
-            self.memory = attach_block(name)
-        else:
-            self.memory = SharedMemory(name=name, create=True, size=8)
+        while True:
+            self.name = name
+            if name is None:
+                # like that of a notepad, so as to share no address with one
+                self.name = f"{randint(100000, 999999)}_index"
+            super().__init__(
+                self.name, create, cleanup_on_exit, no_lockout, debug
+            )
+            try:
+                if create is False:
+                    self.memory = attach_block(self.name)
+                else:
+                    self.memory = SharedMemory(
+                        name=self.name, create=True, size=8
+                    )
+            except FileExistsError:
+                # other processes may pick the same number, especially if
+                # they were forked from the same one
+                if name is None:
+                    continue
+                raise
+            break
         self.cache = []
         self.length = None
         if cleanup_on_exit is True:
@@ -729,9 +743,6 @@ class AbstractNotepad(ABC):
         **index_kwargs
     ):
         self.debug = debug
-        if prefix is None:
-            prefix = randint(100000, 999999)
-        self.prefix = prefix
         if mnemonic_factory is not None:
             self.memorize, self.remember = mnemonic_factory()
         if codec_factory is not None:
@@ -743,13 +754,25 @@ class AbstractNotepad(ABC):
         if index_type is None:
             raise TypeError("must specify an index type")
         try:
-            self.index = index_type(
-                f"{prefix}_index",
-                create,
-                cleanup_on_exit,
-                debug,
-                **index_kwargs
-            )
+            while True:
+                self.prefix = prefix
+                if prefix is None:
+                    self.prefix = randint(100000, 999999)
+                try:
+                    self.index = index_type(
+                        f"{self.prefix}_index",
+                        create,
+                        cleanup_on_exit,
+                        debug,
+                        **index_kwargs
+                    )
+                except FileExistsError:
+                    # other processes may pick the same number, especially if
+                    # they were forked from the same one
+                    if prefix is None:
+                        continue
+                    raise
+                break
             if update_on_init is True:
                 self.update_index()
         except FileNotFoundError:
-- 
2.43.0


From 98197f7ef801cbafc6596220c077f79a9f2e92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 44/49] fix: deleting an array no longer destroys one whose
 address it is named like

---
 dustgoggles/codex/implements.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 23be57b..ace95bb 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1124,10 +1124,6 @@ class GridPaper(AbstractNotepad):
         self._refuse_reserved(key)
         try:
             self._remove(key)
-            for block in self._open_blocks:
-                if block.name == key:
-                    block.close()
-                    block.unlink()
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
 
-- 
2.43.0


From 07385f73dec4aa2eaf4993720c4f4c6655b69eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 45/49] fix: arrays got without a copy stay valid while used,
 and release their block afterwards

---
 dustgoggles/codex/codecs.py     |  4 ++++
 dustgoggles/codex/implements.py | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 235a4c3..f0d6bab 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -4,6 +4,7 @@ import pickle
 
 from multiprocessing.shared_memory import SharedMemory
 from typing import Any, Callable, Optional
+from weakref import finalize
 
 from dustgoggles.codex.memutilz import (
     fetch_block_bytes, fill_block, open_block
@@ -187,6 +188,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         )
         if copy is True:
             return array.copy(), None
+        # the array has no memory of its own: its block stays open for as long
+        # as it is used, and no longer
+        finalize(array, block.close).atexit = False
         return array, block
 
     return memorize_array, remember_array
diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index ace95bb..c41dd39 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1050,15 +1050,13 @@ class GridPaper(AbstractNotepad):
             debug=debug,
             **index_kwargs
         )
-        self._open_blocks = []
+        self._open_blocks = {}
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
             if fetch is False:
                 return self.remember(self.index[key], fetch, copy)
-            result, block = self.remember(self.index[key], fetch, copy)
-            if copy is False:
-                self._open_blocks.append(block)
+            result, _ = self.remember(self.index[key], fetch, copy)
         except FileNotFoundError:
             raise KeyError(f"{key} not found in this object's space.")
         return result
@@ -1096,7 +1094,7 @@ class GridPaper(AbstractNotepad):
                     delete_block(address, missing_ok=True)
                 raise
         if keep_open is True:
-            self._open_blocks.append(block)
+            self._open_blocks[address] = block
 
     def _add_index_key(self, key):
         raise TypeError
@@ -1126,6 +1124,8 @@ class GridPaper(AbstractNotepad):
             self._remove(key)
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
+        finally:
+            self._open_blocks.pop(self.address(key), None)
 
     def close(self, dump=False):
         try:
-- 
2.43.0


From a64507095c02f5af884ca9340f9640c60399bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 46/49] fix: storing a rearranged view of an array under the
 array's own name keeps its values

---
 dustgoggles/codex/codecs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index f0d6bab..bb971ed 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -163,7 +163,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[...] = array
+        # an array without data of its own may be a view of this very block,
+        # mapped elsewhere
+        shared_array[...] = array if array.flags.owndata else array.copy()
         metadata = {
             "name": block.name,
             "dtype": dtype,
-- 
2.43.0


From b2feded598baa2c45e58fcfee4087d872fb781b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 47/49] fix: limit how often a lock waits each time, not over
 its lifetime

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c41dd39..99bfe2c 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -233,6 +233,8 @@ class SlidingLock:
         return True
 
     def acquire(self):
+        # the limit is for each time, not for the lock's lifetime
+        self.spins = 0
         try:
             self.lock = SharedMemory(
                 f"{self.name}_{self.number}_lock", size=1, create=True
-- 
2.43.0


From 836fe214e181b9b85886c9f36cd80f3694d3bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 48/49] fix: a pool job whose outcome cannot be sent back fails
 alone

In chunk mode one result that could not be pickled failed every job of its
chunk, and in either mode an exception that could not be unpickled killed the
pool's result handler, so that mapping never returned.
---
 dustgoggles/structures.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 1b8480a..1ce20c6 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -4,7 +4,9 @@ from copy import copy
 from functools import reduce, partial
 from itertools import chain
 from multiprocessing import Pool
+from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError
 from operator import methodcaller, add, getitem, eq
+import pickle
 from typing import (
     Mapping,
     Collection,
@@ -355,6 +357,23 @@ class MaybeResult:
     def ready():
         return True
 
+    # values are pickled by themselves: one that can't be sent to or restored
+    # in another process must neither take others along nor break the pool
+    def __getstate__(self):
+        value = self.value
+        if getattr(value, "__traceback__", None) is not None:
+            value = ExceptionWithTraceback(value, value.__traceback__)
+        try:
+            return pickle.dumps(value)
+        except Exception as ex:
+            return pickle.dumps(MaybeEncodingError(ex, self.value))
+
+    def __setstate__(self, state):
+        try:
+            self.value = pickle.loads(state)
+        except Exception as ex:
+            self.value = ex
+
 
 def _chunkwrap(func, argrecs):
     return {
@@ -393,16 +412,16 @@ class MaybePool:
             }
             for i, rec in enumerate(argrecs)
         ]
-        if (as_chunks is False) or (self.pool is None):
-            self.chunked = False
+        self.chunked = (as_chunks is not False) and (self.pool is not None)
+        if self.pool is None:
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
             }
         else:
-            self.chunked = True
+            n_chunks = self.threads if self.chunked else len(argrecs)
             self.results = {}
-            for chunk in map(list, divide(self.threads, argrecs)):
+            for chunk in map(list, divide(max(n_chunks, 1), argrecs)):
                 result = self.apply(_chunkwrap, (func, chunk))
                 self.results |= {
                     rec['key']: ChunkedResult(result, rec['key'])
-- 
2.43.0


From d834fe41425185191bc91706e43024a10f36b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:57 +0000
Subject: [PATCH 49/49] fix: keys that are bytes are listed, and told apart
 from text, like all others

---
 dustgoggles/codex/implements.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 99bfe2c..b8350ec 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -432,9 +432,8 @@ class TagIndex(ShareableIndex):
             atexit.register(self.close)
 
     def hash_address(self, key):
-        if not isinstance(key, bytes):
-            key = str(key).encode()
-        namehash = HASHER(key).hexdigest()
+        # keys are told apart by their text, also those that are bytes
+        namehash = HASHER(str(key).encode()).hexdigest()
         return f"{self.name}_name_{namehash}"
 
     def key_address(self, index_ix):
@@ -588,7 +587,7 @@ class TagIndex(ShareableIndex):
                     return
                 # readers don't take the lock, so the last slot stays as it
                 # is until everything else is in place.
-                nameblock = SharedMemory(self.hash_address(key))
+                nameblock = SharedMemory(self.hash_address(key.decode()))
                 moved_block = open_block(
                     self.key_address(gap), size=len(key), overwrite=True
                 )
-- 
2.43.0

