From 558db1b8658a9cf1b30d52aa5b45d24fb59ffffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 001/111] fix: FileLock.acquire() raises OSError when the lock
 file cannot be opened

If open() failed there was no file handle to close in the error path and the
caller got an UnboundLocalError instead of the OSError that lsl.config,
FileCache, etc. are prepared for (e.g., to fall back on a read-only directory).
---
 lsl/misc/file_lock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..1a16ab5 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -49,6 +49,7 @@ class FileLock(object):
         
         ident = current_thread().ident
         while not self._locked:
+            fh = None
             try:
                 # Open the lock file and try to read the thread ID of who owns
                 # it
@@ -85,7 +86,8 @@ class FileLock(object):
                 self._locked = True
                 
             except IOError as e:
-                fh.close()
+                if fh is not None:
+                    fh.close()
                 if e.errno != errno.EAGAIN:
                     raise
                 if blocking:
-- 
2.43.0


From 11cb34461cfe441332e46ca39a1af482764c099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:28 +0000
Subject: [PATCH 002/111] fix: FileLock does not take a matching thread ID as
 ownership of the lock

Thread IDs are only unique within a process and forked processes share the ID
of their main thread.  A process that read the lock file while another one
with the same thread ID held the lock skipped the flock and both had the lock.
---
 lsl/misc/file_lock.py | 51 ++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 1a16ab5..0f35c99 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -51,38 +51,29 @@ class FileLock(object):
         while not self._locked:
             fh = None
             try:
-                # Open the lock file and try to read the thread ID of who owns
-                # it
+                # Open the lock file and try to claim an exclusive lock on it.
+                # The thread ID in the file is only informational.  It cannot
+                # be used to decide who owns the lock since forked processes
+                # share it.
                 fh = open(self._lockname, 'a+')
-                try:
-                    owner_ident = int(fh.read(), 10)
-                except ValueError:
-                    owner_ident = 0
-                    
-                if ident != owner_ident:
-                    ## If we don't own it, try to claim an exclusive lock on it.
-                    fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                
+                # Verify that the lock file and what we just opened are the
+                # the same file.  If not then give up.
+                fh_stat = os.fstat(fh.fileno())
+                lock_stat  = os.stat(fh.name)
+                if fh_stat.st_ino != lock_stat.st_ino:
+                    err = IOError()
+                    err.errno = errno.EAGAIN
+                    raise err
                     
-                    ## Verify that the lock file and what we just opened are the
-                    ## the same file.  If not then give up.
-                    fh_stat = os.fstat(fh.fileno())
-                    lock_stat  = os.stat(fh.name)
-                    if fh_stat.st_ino != lock_stat.st_ino:
-                        err = IOError()
-                        err.errno = errno.EAGAIN
-                        raise err
-                        
-                    ## Write our thread ID to the file and save the file handle
-                    ## to _our_lock so that we know that we need to clean things
-                    ## up when we are done.
-                    fh.truncate(0)
-                    fh.write("%i" % ident)
-                    fh.flush()
-                    self._our_lock = fh
-                else:
-                    ## If we do already own it then there is nothing else to do.
-                    fh.close()
-                    self._our_lock = None
+                # Write our thread ID to the file and save the file handle
+                # to _our_lock so that we know that we need to clean things
+                # up when we are done.
+                fh.truncate(0)
+                fh.write("%i" % ident)
+                fh.flush()
+                self._our_lock = fh
                 self._locked = True
                 
             except IOError as e:
-- 
2.43.0


From 8bd5616159dba8c636221a7a1206134fb5f6b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 003/111] fix: FileLock and MemoryLock are exclusive between
 threads and re-entrant

Threads that share a FileLock instance (e.g., through the FileCache behind
DataAccess) all saw the lock as already held and went ahead.  Nesting made it
worse since the inner release() dropped the lock of the outer block.  MemoryLock
reported itself as unlocked after an inner release() and could not be acquired
in a non-blocking way.
---
 lsl/misc/file_lock.py | 62 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 0f35c99..328ec0e 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -26,12 +26,15 @@ class FileLock(object):
     
     def __init__(self, filename):
         self._lockname = filename+'.lock'
+        self._thread_lock = RLock()
+        self._owner = None
+        self._depth = 0
         self._locked = False
         self._our_lock = None
         
     def __del__(self):
         if self._locked:
-            self.release()
+            self._release()
             
     def __enter__(self):
         self.acquire()
@@ -41,10 +44,28 @@ class FileLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        # Only the thread that holds the lock sees it as locked
+        return self._locked and self._owner == current_thread().ident
         
     def acquire(self, blocking=True, timeout=120):
         t0 = time.time()
+        
+        # flock only arbitrates between open file handles so threads that share
+        # this instance need to be kept apart here.  This is re-entrant:  the
+        # thread that holds the lock may acquire it again.
+        if not self._thread_lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        try:
+            if self._depth > 0 or self._acquire(t0, blocking, timeout):
+                self._owner = current_thread().ident
+                self._depth += 1
+                return True
+        finally:
+            if self._depth == 0:
+                self._thread_lock.release()
+        return False
+        
+    def _acquire(self, t0, blocking, timeout):
         emit_waiting_warning = 0
         
         ident = current_thread().ident
@@ -96,6 +117,20 @@ class FileLock(object):
         return self._locked
         
     def release(self):
+        # Nothing to do if the current thread does not hold the lock
+        if not self.locked():
+            return True
+            
+        self._depth -= 1
+        try:
+            if self._depth == 0:
+                self._owner = None
+                self._release()
+        finally:
+            self._thread_lock.release()
+        return True
+        
+    def _release(self):
         if self._our_lock is not None:
             # To cleanup we truncate the file and then release the lock.
             self._our_lock.truncate(0)
@@ -104,13 +139,13 @@ class FileLock(object):
             self._our_lock.close()
             self._our_lock = None
         self._locked = False
-        return True
 
 
 class MemoryLock(object):
     def __init__(self, filename):
         self._lock = RLock()
-        self._locked = False
+        self._owner = None
+        self._depth = 0
         
     def __enter__(self):
         self.acquire()
@@ -120,15 +155,20 @@ class MemoryLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        # Only the thread that holds the lock sees it as locked
+        return self._owner == current_thread().ident
         
     def acquire(self, blocking=True, timeout=120):
-        try:
-            self._locked = self._lock.acquire(blocking, timeout)
-        except TypeError:
-            self._locked = self._lock.acquire(blocking)
-        return self._locked
+        if not self._lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        self._owner = current_thread().ident
+        self._depth += 1
+        return True
         
     def release(self):
+        if not self.locked():
+            raise RuntimeError("cannot release un-acquired lock")
+        self._depth -= 1
+        if self._depth == 0:
+            self._owner = None
         self._lock.release()
-        self._locked = False
-- 
2.43.0


From 49ac9e68df6097e2322c17fd2871e6d74050b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 004/111] fix: FileCache tolerates another process creating the
 cache directory

Two processes that start at the same time both find the directory missing and
the one that loses the race failed with a FileExistsError.
---
 lsl/misc/file_cache.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..7aeb1da 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -37,16 +37,8 @@ class FileCache(object):
         self._lock = FileLock(os.path.join(self.cache_dir, 'cache_access'))
         
         # Create the cache directory as needed
-        needed = []
-        while not os.path.exists(self.cache_dir):
-            self.cache_dir, dir = self.cache_dir.rsplit(os.path.sep, 1)
-            needed.append(dir)
-        needed.reverse()
-        
-        for dir in needed:
-            self.cache_dir = os.path.join(self.cache_dir, dir)
-            os.mkdir(self.cache_dir)
-            
+        os.makedirs(self.cache_dir, exist_ok=True)
+        
         # Make sure we can write here
         with self._lock:
             if not self._lock.locked():
-- 
2.43.0


From 2bc4f16a9164d9b5c9d37a134f7193efa7f2e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 005/111] fix: release the cache lock when a cached file cannot
 be opened

Any error between taking the lock and handing out the file (a missing file, a
full disk, ...) left the cache locked and everybody else waiting for it.
---
 lsl/misc/file_cache.py | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 7aeb1da..569e1f1 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -87,21 +87,20 @@ class FileCache(object):
         self._lock.acquire()
         assert(self._lock.locked())
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            if mode.startswith('w') or mode.startswith('a'):
+                parent_dirs = os.path.dirname(filename)
+                if parent_dirs != '':
+                    parent_dirs = os.path.join(self.cache_dir, parent_dirs)
+                    if not os.path.exists(parent_dirs):
+                        os.makedirs(parent_dirs, exist_ok=True)
+                        
+            with open(os.path.join(self.cache_dir, filename), mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management()
+                    
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
@@ -421,19 +420,22 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            fh = self._cache[filename]
-        except KeyError:
-            self._cache[filename] = MemoryFile(filename)
-            fh = self._cache[filename]
-        if mode.startswith('w'):
-            fh.truncate(0)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
-        try:
-            yield fh.open(mode=mode)
+            try:
+                fh = self._cache[filename]
+            except KeyError:
+                self._cache[filename] = MemoryFile(filename)
+                fh = self._cache[filename]
+            if mode.startswith('w'):
+                fh.truncate(0)
+            if mode.startswith('w') or mode.startswith('a'):
+                self._cache_management()
+                
+            fh.open(mode=mode)
+            try:
+                yield fh
+            finally:
+                fh.close()
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 02e5c5abf09fb5753b83f7bc8af235a2f1f3bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 006/111] fix: cache size management never evicts the active
 file and always ends

Appending to the oldest file in a full cache, or two files with the same
modification time, deleted the file that was just opened.  A subdirectory or a
file that cannot be deleted sent the loop spinning forever with the cache lock
held.
---
 lsl/misc/file_cache.py | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 569e1f1..fbeb6fc 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -50,7 +50,7 @@ class FileCache(object):
     def __contains__(self, filename):
         return os.path.exists(os.path.join(self.cache_dir, filename))
         
-    def _cache_management(self):
+    def _cache_management(self, active):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -58,20 +58,22 @@ class FileCache(object):
             
         if max_size > 0:
             filenames = glob.glob(os.path.join(self.cache_dir, '*'))
-            filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock', filenames))
+            filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock' and os.path.isfile(x), filenames))
             sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
             
             # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
+            # file left (the active one).  Files that cannot be deleted are only
+            # tried once.
+            order = sorted(range(len(filenames)), key=lambda x: mtimes[x])
+            for idx in order:
+                if sum(sizes) <= max_size:
+                    break
+                if filenames[idx] == os.path.join(self.cache_dir, active):
+                    continue
                 try:
                     os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
+                    sizes[idx] = 0
                 except OSError:
                     pass
                     
@@ -97,7 +99,7 @@ class FileCache(object):
                         
             with open(os.path.join(self.cache_dir, filename), mode) as fh:
                 if mode.startswith('w') or mode.startswith('a'):
-                    self._cache_management()
+                    self._cache_management(filename)
                     
                 yield fh
         finally:
@@ -383,7 +385,7 @@ class MemoryCache(object):
     def __contains__(self, filename):
         return filename in self._cache
             
-    def _cache_management(self):
+    def _cache_management(self, active):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -395,17 +397,15 @@ class MemoryCache(object):
             mtimes = [self._cache[filename]._mtime for filename in filenames]
             
             # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
-                
-                filename = filenames[idx]
-                del self._cache[filename]
-                
-                del filenames[idx]
-                del sizes[idx]
-                del mtimes[idx]
+            # file left (the active one)
+            order = sorted(range(len(filenames)), key=lambda x: mtimes[x])
+            for idx in order:
+                if sum(sizes) <= max_size:
+                    break
+                if filenames[idx] == active:
+                    continue
+                del self._cache[filenames[idx]]
+                sizes[idx] = 0
                 
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -428,7 +428,7 @@ class MemoryCache(object):
             if mode.startswith('w'):
                 fh.truncate(0)
             if mode.startswith('w') or mode.startswith('a'):
-                self._cache_management()
+                self._cache_management(filename)
                 
             fh.open(mode=mode)
             try:
-- 
2.43.0


From 409cf7c61ab9468eab1fd882da088fd526a82d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 007/111] fix: the cache size limit counts files in
 sub-directories of the cache

---
 lsl/misc/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index fbeb6fc..8e5bfbb 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -57,7 +57,7 @@ class FileCache(object):
             max_size = self.max_size
             
         if max_size > 0:
-            filenames = glob.glob(os.path.join(self.cache_dir, '*'))
+            filenames = glob.glob(os.path.join(self.cache_dir, '**', '*'), recursive=True)
             filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock' and os.path.isfile(x), filenames))
             sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
-- 
2.43.0


From 74fd74274235aef3cf82e1dd62d2847c3f51dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 008/111] fix: MemoryCache.getmtime() returns the modification
 time

---
 lsl/misc/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 8e5bfbb..e3e3140 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -479,7 +479,7 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename].stat.st_mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 6ef53e11f5d03e2629eae56aa0040758d83664c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 009/111] fix: MemoryFile iterates over all lines and seek()
 returns the new position

---
 lsl/misc/file_cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index e3e3140..408826e 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -207,8 +207,9 @@ class MemoryFile(object):
         
     def __iter__(self):
         contents = self.readline()
-        if len(contents) > 0:
+        while len(contents) > 0:
             yield contents
+            contents = self.readline()
             
     @property
     def closed(self):
@@ -271,7 +272,7 @@ class MemoryFile(object):
         if self._closed:
             raise IOError(f"MemoryFile:{self.name} is closed")
             
-        self._buffer.seek(pos, whence)
+        return self._buffer.seek(pos, whence)
         
     def tell(self):
         """
-- 
2.43.0


From d70f10e60c11a9cb072b86ba267be72f936bcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 010/111] fix: MemoryCache.open() does not create a missing
 file that is opened for reading

---
 lsl/misc/file_cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 408826e..bb0c8dd 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -6,6 +6,7 @@ Module that provides classes for file cache management.
 
 import os
 import glob
+import errno
 import time
 import contextlib
 from threading import Lock
@@ -424,6 +425,8 @@ class MemoryCache(object):
             try:
                 fh = self._cache[filename]
             except KeyError:
+                if mode.startswith('r'):
+                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), filename)
                 self._cache[filename] = MemoryFile(filename)
                 fh = self._cache[filename]
             if mode.startswith('w'):
-- 
2.43.0


From 4f4434b3167378811fa50fb479ad79ee54a055d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 011/111] fix: MemoryFile appends at the end and keeps its
 modification time up to date

---
 lsl/misc/file_cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index bb0c8dd..302c07e 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -257,7 +257,9 @@ class MemoryFile(object):
             self._ctime = time.time()
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
-        
+        if mode.startswith('a'):
+            self._buffer.seek(0, 2)
+            
         return self
             
     def seek(self, pos, whence=0):
@@ -359,6 +361,8 @@ class MemoryFile(object):
         
         self._buffer.flush()
         self._buffer.seek(0)
+        if self.mode.startswith('w') or self.mode.startswith('a'):
+            self._mtime = time.time()
         self._closed = True
         if self._lock.locked():
             self._lock.release()
-- 
2.43.0


From 6e486c6f7ec2cc6892064ce011be0476017abaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:16 +0000
Subject: [PATCH 012/111] fix: the FileLock timeout does not depend on the wall
 clock

---
 lsl/misc/file_lock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 328ec0e..64956a1 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -48,7 +48,7 @@ class FileLock(object):
         return self._locked and self._owner == current_thread().ident
         
     def acquire(self, blocking=True, timeout=120):
-        t0 = time.time()
+        t0 = time.monotonic()
         
         # flock only arbitrates between open file handles so threads that share
         # this instance need to be kept apart here.  This is re-entrant:  the
@@ -103,7 +103,7 @@ class FileLock(object):
                 if e.errno != errno.EAGAIN:
                     raise
                 if blocking:
-                    tElapsed = time.time() - t0
+                    tElapsed = time.monotonic() - t0
                     if int(tElapsed/15) != emit_waiting_warning:
                         warnings.warn(f"Waiting {tElapsed:.0f} s to acquire lock on '{self._lockname}'")
                         emit_waiting_warning = int(tElapsed/15)
-- 
2.43.0


From 0f63af27705868fbed55f539b65ebb99544aa093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:24 +0000
Subject: [PATCH 013/111] fix: download_file() reports incomplete and malformed
 downloads as failed

---
 lsl/common/data_access.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..f001d99 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -12,6 +12,7 @@ import contextlib
 from datetime import datetime
 from urllib.request import Request, urlopen
 from urllib.error import HTTPError
+from http.client import HTTPException
 
 from lsl.common.paths import DATA as DATA_PATH
 from lsl.common.progress import DownloadBar
@@ -142,7 +143,13 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+                
+            # Make sure we have everything
+            if received != remote_size:
+                raise IOError(f"expected {remote_size} B but received {received} B")
+            if is_gzip and not decomp.eof:
+                raise IOError("incomplete gzip stream")
+    except (IOError, HTTPException, zlib.error, ValueError, TypeError) as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
         received = 0
-- 
2.43.0


From 67438993f78a496c99b5e74227d711f1dd2334f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:24 +0000
Subject: [PATCH 014/111] fix: only complete data files are placed in the data
 cache

---
 lsl/common/data_access.py | 46 ++++++++++++++++++++++++---------------
 lsl/misc/file_cache.py    | 29 ++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index f001d99..95f81ba 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -9,6 +9,7 @@ import logging
 import calendar
 import warnings
 import contextlib
+from threading import get_ident
 from datetime import datetime
 from urllib.request import Request, urlopen
 from urllib.error import HTTPError
@@ -184,6 +185,11 @@ class _DataAccess(object):
             self._data_cache = MemoryCache(max_size=0)
             warnings.warn(colorfy("{{%yellow Cannot create or write to on-disk data cache, using in-memory data cache}}"), RuntimeWarning)
             
+    @staticmethod
+    def _temp_name(filename):
+        # Unique to this thread so that nobody else can write to it
+        return f"{filename}_temp{os.getpid()}_{get_ident()}"
+        
     def _local_copy_mtime(self, relative_url, verbose=True):
         local_path = os.path.join(DATA_PATH, relative_url)
         
@@ -200,13 +206,14 @@ class _DataAccess(object):
         """
         
         metaname = filename+'_meta'
+        tempname = self._temp_name(filename)
         
         local_path = os.path.join(DATA_PATH, relative_url)
         
         received = 0
         if os.path.exists(local_path):
             with open(local_path, 'rb') as uh:
-                with self._data_cache.open(filename, 'wb') as fh:
+                with self._data_cache.open(tempname, 'wb') as fh:
                     while True:
                         data = uh.read(DOWN_CONFIG.get('block_size'))
                         if len(data) == 0:
@@ -215,20 +222,21 @@ class _DataAccess(object):
                         
                         fh.write(data)
                         
-            with self._data_cache.open(metaname, 'w') as fh:
-                fh.write(f"created: {time.time():.0f}\n")
-                fh.write(f"source: {local_path}\n")
-                fh.write(f"source size: {os.path.getsize(local_path)} B\n")
-                fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
-                
         # Did we get anything or, at least, enough of something like it looks like 
         # a real file?
         if received < 3:
             ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
+            self._data_cache.remove(tempname)
             return False
             
+        # Only a complete file gets the final name
+        self._data_cache.rename(tempname, filename)
+        with self._data_cache.open(metaname, 'w') as fh:
+            fh.write(f"created: {time.time():.0f}\n")
+            fh.write(f"source: {local_path}\n")
+            fh.write(f"source size: {os.path.getsize(local_path)} B\n")
+            fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
+            
         return True
         
     def _download_mtime(self, relative_url, use_backup=False, verbose=True):
@@ -249,6 +257,7 @@ class _DataAccess(object):
         is_interactive = sys.__stdin__.isatty()
         
         metaname = filename+'_meta'
+        tempname = self._temp_name(filename)
         
         # Attempt to download the data
         url = self._BASE_URL+'/'+relative_url
@@ -256,23 +265,24 @@ class _DataAccess(object):
             url = self._BACKUP_URL+'/'+relative_url
             
         mtime = 0
-        with self._data_cache.open(filename, 'wb') as fh:
+        with self._data_cache.open(tempname, 'wb') as fh:
             remote_size, received, mtime = download_file(url, fh, verbose=verbose)
             
-        with self._data_cache.open(metaname, 'w') as fh:
-            fh.write(f"created: {time.time():.0f}\n")
-            fh.write(f"source: {url}\n")
-            fh.write(f"source size: {remote_size} B\n")
-            fh.write(f"source last modified: {mtime:.0f}\n")
-            
         # Did we get anything or, at least, enough of something like it looks like 
         # a real file?
         if received < 3:
             ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
+            self._data_cache.remove(tempname)
             return False
             
+        # Only a complete file gets the final name
+        self._data_cache.rename(tempname, filename)
+        with self._data_cache.open(metaname, 'w') as fh:
+            fh.write(f"created: {time.time():.0f}\n")
+            fh.write(f"source: {url}\n")
+            fh.write(f"source size: {remote_size} B\n")
+            fh.write(f"source last modified: {mtime:.0f}\n")
+            
         return True
         
     def fetch_data_file(self, filename):
diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 302c07e..a4e4c65 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -121,6 +121,20 @@ class FileCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache, replacing the new filename if it exists.
+        """
+        
+        self._lock.acquire()
+        assert(self._lock.locked())
+        
+        try:
+            os.replace(os.path.join(self.cache_dir, filename),
+                       os.path.join(self.cache_dir, new_filename))
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
@@ -461,6 +475,21 @@ class MemoryCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache, replacing the new filename if it exists.
+        """
+        
+        self._lock.acquire()
+        assert(self._lock.locked())
+        
+        try:
+            self._cache[new_filename] = self._cache.pop(filename)
+        except KeyError:
+            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), filename)
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
-- 
2.43.0


From a317571ecf8581fa490adf45ea67119f1b8efb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 015/111] fix: a failed refresh of a data file keeps the
 current version

---
 lsl/common/data_access.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 95f81ba..d47f3ce 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -285,6 +285,19 @@ class _DataAccess(object):
             
         return True
         
+    def _fetch_worker(self, filename, verbose=True):
+        """
+        Copy the file from the base LSL installation or, failing that, download
+        it.  Returns whether or not that worked.
+        """
+        
+        status = self._local_copy_worker(filename, filename, verbose=verbose)
+        if not status:
+            status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
+        if not status:
+            status = self._download_worker(filename, filename, use_backup=True, verbose=verbose)
+        return status
+        
     def fetch_data_file(self, filename):
         """
         Make sure that a LSL data file exists.  If it does not copy the file
@@ -295,12 +308,7 @@ class _DataAccess(object):
         
         if filename not in self._data_cache:
             # No file, go get one.
-            status = self._local_copy_worker(filename, filename, verbose=verbose)
-            if not status:
-                status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
-            if not status:
-                status = self._download_worker(filename, filename, use_backup=True, verbose=verbose)
-            if not status:
+            if not self._fetch_worker(filename, verbose=verbose):
                 raise RuntimeError(f"Failed to download '{filename}'")
                 
         else:
@@ -316,10 +324,14 @@ class _DataAccess(object):
                     remote_mtime = self._download_mtime(filename, use_backup=True, verbose=verbose)
                     
                 if max([local_mtime, remote_mtime]) > cache_mtime:
-                    ## Found something newer.  Delete the current version and
-                    ## copy/download again.
-                    self._data_cache.remove(filename)
-                    self.fetch_data_file(filename)
+                    ## Found something newer.  Copy/download again but keep the
+                    ## current version if that does not work.
+                    try:
+                        status = self._fetch_worker(filename, verbose=verbose)
+                    except OSError:
+                        status = False
+                    if not status:
+                        warnings.warn(colorfy("{{%%yellow Failed to refresh '%s', using the current version}}" % filename), RuntimeWarning)
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
-- 
2.43.0


From b68d9b80b30d01ec989daa8b6b5e2c9e50f9e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 016/111] fix: sessions that start at the same time can both
 create the configuration directory

---
 lsl/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9a38c92..bb12563 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -18,8 +18,7 @@ _CONFIG_DIR = os.getenv('LSLCONFIGDIR',
 
 # Create the .lsl directory and set the config filename
 try:
-    if not os.path.exists(_CONFIG_DIR):
-        os.mkdir(_CONFIG_DIR)
+    os.makedirs(_CONFIG_DIR, exist_ok=True)
     with FileLock(os.path.join(_CONFIG_DIR, 'write.test')):
         with open(os.path.join(_CONFIG_DIR, 'write.test'), 'w') as fh:
             fh.write('test')
-- 
2.43.0


From 54fcb096628fc4dbb023319d4bbd47e6f51ecf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 017/111] fix: a malformed line in the configuration file does
 not prevent LSL from loading

---
 lsl/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/config.py b/lsl/config.py
index bb12563..3797b2c 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -277,6 +277,10 @@ class LSLConfigContainer(object):
                         section = line.replace('[', '').replace(']', '')
                         section = section.strip().rstrip()
                         continue
+                    elif line.find('=') == -1:
+                        # Not something we understand
+                        warnings.warn(f"\u001b[33mIgnoring malformed line '{line}' in '{self.filename}'\u001b[0m", RuntimeWarning)
+                        continue
                     else:
                         name, value = line.split('=', 1)
                         name = name.strip().rstrip()
-- 
2.43.0


From 66c81ffcd2f622416f9c0d72865a98b6a3056a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 018/111] fix: configuration views fall back to the full
 parameter name in set() and set_temp()

---
 lsl/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 3797b2c..3642a37 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -456,7 +456,7 @@ class LSLConfigSubContainer(object):
         
         try:
             self.container.set(self.section+'.'+name, value)
-        except KeyError:
+        except ValueError:
             self.container.set(name, value)
         
     def set_temp(self, name, value):
@@ -466,8 +466,9 @@ class LSLConfigSubContainer(object):
         """
         
         try:
+            self.container.get(self.section+'.'+name)
             return self.container.set_temp(self.section+'.'+name, value)
-        except KeyError:
+        except ValueError:
             return self.container.set_temp(name, value)
 
 
-- 
2.43.0


From e3174d93997359199f36b81b1a9d542b384c1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 019/111] fix: a configuration parameter that was set to None
 stays None in the next session

---
 lsl/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index 3642a37..96f71c6 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -191,7 +191,9 @@ class LSLConfigParameter(object):
             
         section, item = self.name.rsplit('.', 1)
         if self.value is None:
-            output += f"#{item} = \n"
+            # Parameters that have a default need to be explicitly empty
+            default = DEFAULTS_ALL.get(section, {}).get(item, {}).get('value', None)
+            output += f"{'#' if default is None else ''}{item} = \n"
         else:
             output += f"{item} = {self.value}\n"
         return output
-- 
2.43.0


From b3137db55c56826a46c63fc645687beb6b4fa05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 020/111] fix: the configuration file is saved atomically and
 never over changes from another session

---
 lsl/config.py | 55 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 96f71c6..b26535c 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -206,7 +206,7 @@ class LSLConfigContainer(object):
     
     def __init__(self, filename=_CONFIG_FILENAME):
         self.filename = filename
-        self._loaded = 0.0
+        self._loaded = None
         self._version_changed = False
         self._param_changed = False
         self._param_changed_list = {}
@@ -242,6 +242,18 @@ class LSLConfigContainer(object):
             output += f"{str(param)}\n"
         return output
         
+    def _get_signature(self, filename=None):
+        """
+        Return something that changes when the file on disk changes or None if
+        there is no file.
+        """
+        
+        try:
+            fstat = os.stat(self.filename if filename is None else filename)
+            return (fstat.st_mtime_ns, fstat.st_ino, fstat.st_size)
+        except FileNotFoundError:
+            return None
+            
     def _load_config(self):
         """
         Load the configuation from disk.
@@ -258,7 +270,7 @@ class LSLConfigContainer(object):
                 
         try:
             with open(self.filename, 'r') as fh:
-                self._loaded = os.path.getmtime(self.filename)
+                self._loaded = self._get_signature(fh.fileno())
                 
                 section = None
                 for line in fh:
@@ -310,6 +322,7 @@ class LSLConfigContainer(object):
                             
         except IOError:
             # File doesn't exist, will need to create it
+            self._loaded = None
             self._version_changed = True
             self._param_changed = True
             
@@ -318,26 +331,32 @@ class LSLConfigContainer(object):
         Save the configuation to disk.
         """
         
-        if not _IS_READONLY:
-            if os.path.exists(self.filename) and len(self._param_changed_list) > 0:
-                mtime = os.path.getmtime(self.filename)
-                if mtime > self._loaded:
+        if not _IS_READONLY and self._param_changed:
+            with FileLock(self.filename) as lock:
+                assert(lock.locked())
+                
+                if self._get_signature() not in (None, self._loaded):
                     # The file was modified on disk after we loaded it
                     # Abandon our parameter changes but still save if version changed
-                    warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
-                    for key,value in self._param_changed_list.items():
-                        warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
-                    self._param_changed_list.clear()
-                    # Don't reset _param_changed if version changed - we still need to update the file
-                    if not self._version_changed:
-                        self._param_changed = False
+                    if len(self._param_changed_list) > 0:
+                        warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
+                        for key,value in self._param_changed_list.items():
+                            warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
+                        self._param_changed_list.clear()
+                    self._param_changed = False
+                    if self._version_changed:
+                        # Use what is on disk now and update that
+                        self._version_changed = False
+                        self._load_config()
                         
-            if self._param_changed:
-                with FileLock(self.filename) as lock:
-                    assert(lock.locked())
-                    
-                    with open(self.filename, 'w') as fh:
+                if self._param_changed:
+                    # Write to a temporary file first so that there is always
+                    # a complete configuration on disk
+                    filename = os.path.realpath(self.filename)
+                    with open(filename+'.tmp', 'w') as fh:
                         fh.write(str(self))
+                    os.replace(filename+'.tmp', filename)
+                    self._loaded = self._get_signature()
                     self._version_changed = False
                     self._param_changed = False
                     self._param_changed_list.clear()
-- 
2.43.0


From ed58a1834d45f3fa7641ba045d3732c1122f6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 021/111] fix: a temporary configuration value is never saved

---
 lsl/config.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index b26535c..889bc37 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -210,6 +210,7 @@ class LSLConfigContainer(object):
         self._version_changed = False
         self._param_changed = False
         self._param_changed_list = {}
+        self._temporary = {}
 
         self._parameters = OrderedDict()
         self._load_config()
@@ -228,12 +229,17 @@ class LSLConfigContainer(object):
         return tw_fill(_build_repr(n,a), subsequent_indent='    ')
         
     def __str__(self):
+        return self._to_string()
+        
+    def _to_string(self, overrides={}):
         output = "# LSL Configuration File\n"
         output += f"# LSL Version: {lsl_version}\n"
         
         last = None
         for name in self._parameters:
             param = self._parameters[name]
+            if name in overrides:
+                param = LSLConfigParameter(name, overrides[name], param.help, param.is_optional)
             section, item = name.rsplit('.', 1)
             if section != last:
                 output += "\n"
@@ -354,7 +360,7 @@ class LSLConfigContainer(object):
                     # a complete configuration on disk
                     filename = os.path.realpath(self.filename)
                     with open(filename+'.tmp', 'w') as fh:
-                        fh.write(str(self))
+                        fh.write(self._to_string(self._temporary))
                     os.replace(filename+'.tmp', filename)
                     self._loaded = self._get_signature()
                     self._version_changed = False
@@ -439,11 +445,17 @@ class LSLConfigContainer(object):
                 raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
                                                                        type(value).__name__,
                                                                        name))
+            # Keep track of the value to save if the session ends before we do
+            is_outermost = (name not in self._temporary)
+            if is_outermost:
+                self._temporary[name] = old_value
             self._parameters[name].value = value
             try:
                 yield
             finally:
                 self._parameters[name].value = old_value
+                if is_outermost:
+                    del self._temporary[name]
                 
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
-- 
2.43.0


From 79f11a6d7348b6be8c2d6dc3855680f6f1044c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:38 +0000
Subject: [PATCH 022/111] fix: set_temp() does not replace a KeyError raised in
 its block

---
 lsl/config.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 889bc37..a673073 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -438,27 +438,26 @@ class LSLConfigContainer(object):
         try:
             old_value = self._parameters[name].value
             is_optional = self._parameters[name].is_optional
-            
-            # Allow type changes only for optional parameters (those with None defaults)
-            # For non-optional parameters, enforce strict type checking
-            if type(value) != type(old_value) and not is_optional:
-                raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
-                                                                       type(value).__name__,
-                                                                       name))
-            # Keep track of the value to save if the session ends before we do
-            is_outermost = (name not in self._temporary)
-            if is_outermost:
-                self._temporary[name] = old_value
-            self._parameters[name].value = value
-            try:
-                yield
-            finally:
-                self._parameters[name].value = old_value
-                if is_outermost:
-                    del self._temporary[name]
-                
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
+            
+        # Allow type changes only for optional parameters (those with None defaults)
+        # For non-optional parameters, enforce strict type checking
+        if type(value) != type(old_value) and not is_optional:
+            raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
+                                                                   type(value).__name__,
+                                                                   name))
+        # Keep track of the value to save if the session ends before we do
+        is_outermost = (name not in self._temporary)
+        if is_outermost:
+            self._temporary[name] = old_value
+        self._parameters[name].value = value
+        try:
+            yield
+        finally:
+            self._parameters[name].value = old_value
+            if is_outermost:
+                del self._temporary[name]
 
 
 class LSLConfigSubContainer(object):
-- 
2.43.0


From 83ff62227f3252617b148062ef5f1f29ccd50f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 023/111] fix: a configuration file that cannot be read is not
 replaced with the defaults

---
 lsl/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index a673073..5f9f30d 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -326,12 +326,19 @@ class LSLConfigContainer(object):
                             param = LSLConfigParameter(name, value)
                             self._parameters[name] = param
                             
-        except IOError:
+        except FileNotFoundError:
             # File doesn't exist, will need to create it
             self._loaded = None
             self._version_changed = True
             self._param_changed = True
             
+        except IOError as e:
+            # File is there but cannot be read, do not replace it
+            warnings.warn(f"\u001b[33mCannot read the configuration in '{self.filename}': {str(e)}\u001b[0m", RuntimeWarning)
+            self._loaded = None
+            self._version_changed = False
+            self._param_changed = False
+            
     def _save_config(self):
         """
         Save the configuation to disk.
-- 
2.43.0


From 5a704de75c2555f0aaaf2d8adaceb55e89835626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:44 +0000
Subject: [PATCH 024/111] fix: the version update of a changed configuration
 file keeps what is on disk

---
 lsl/config.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 5f9f30d..7e3774a 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -360,20 +360,30 @@ class LSLConfigContainer(object):
                     if self._version_changed:
                         # Use what is on disk now and update that
                         self._version_changed = False
-                        self._load_config()
-                        
+                        current = LSLConfigContainer(self.filename)
+                        if current._param_changed:
+                            current._write_config()
+                            
                 if self._param_changed:
-                    # Write to a temporary file first so that there is always
-                    # a complete configuration on disk
-                    filename = os.path.realpath(self.filename)
-                    with open(filename+'.tmp', 'w') as fh:
-                        fh.write(self._to_string(self._temporary))
-                    os.replace(filename+'.tmp', filename)
-                    self._loaded = self._get_signature()
-                    self._version_changed = False
-                    self._param_changed = False
-                    self._param_changed_list.clear()
+                    self._write_config()
                     
+    def _write_config(self):
+        """
+        Write the configuration to disk.  This should only be called with the
+        lock held.
+        """
+        
+        # Write to a temporary file first so that there is always a complete
+        # configuration on disk
+        filename = os.path.realpath(self.filename)
+        with open(filename+'.tmp', 'w') as fh:
+            fh.write(self._to_string(self._temporary))
+        os.replace(filename+'.tmp', filename)
+        self._loaded = self._get_signature()
+        self._version_changed = False
+        self._param_changed = False
+        self._param_changed_list.clear()
+        
     def view(self, section):
         """
         Return a configuration sub-container that defaults to looking up 
-- 
2.43.0


From 512f995ec8d61d6c970f1786a60290e9c014abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:32 +0000
Subject: [PATCH 025/111] fix: telemetry.ignore() stops the recording of
 telemetry data

---
 lsl/misc/telemetry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 174d27c..5cbda9d 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -221,8 +221,7 @@ class _TelemetryClient(object):
         Disable saving data to the telemetry cache in a temporary way.
         """
         
-        TELE_CONFIG.set_temp('enabled', False)
-        self.active = TELE_CONFIG.get('enabled')
+        self.active = False
 
 
 # Create an instance of the telemetry client to use.
-- 
2.43.0


From 8c232db400ef6353e12f7f127550e86813eab575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:32 +0000
Subject: [PATCH 026/111] fix: telemetry reports do not overwrite each other
 and are complete or absent

---
 lsl/misc/telemetry/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 5cbda9d..3c0f0ee 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -169,9 +169,18 @@ class _TelemetryClient(object):
                                'elapsed_time': tNow-self._session_start,
                                'calls':        call_payload}
                     
-                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i.log' % (int(tNow), os.getpid()))
-                    with open(filename, 'w') as lf:
-                        lf.write(json.dumps(payload))
+                    # Each report gets its own name and only complete reports are
+                    # named such that they will be uploaded
+                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i_%s.log' % (int(tNow), os.getpid(), uuid.uuid4().hex))
+                    tempname = filename+'.tmp'
+                    try:
+                        with open(tempname, 'w') as lf:
+                            lf.write(json.dumps(payload))
+                        os.rename(tempname, filename)
+                    except OSError:
+                        if os.path.exists(tempname):
+                            os.unlink(tempname)
+                        raise
                     self.clear()
                     success = True
                     
-- 
2.43.0


From 3deb080508102571a3403c7cce569ba108f767ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:32 +0000
Subject: [PATCH 027/111] fix: only telemetry reports that were uploaded are
 removed

---
 lsl/misc/_telemetry_send.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/_telemetry_send.py b/lsl/misc/_telemetry_send.py
index 2d27aba..17e0e42 100644
--- a/lsl/misc/_telemetry_send.py
+++ b/lsl/misc/_telemetry_send.py
@@ -40,10 +40,12 @@ def main(cache_dir, timeout):
             return
 
         payloads = []
+        sent = []
         for filename in filenames:
             try:
                 with open(filename, 'r') as lf:
                     payloads.append(json.loads(lf.read()))
+                sent.append(filename)
             except Exception:
                 pass
 
@@ -56,7 +58,7 @@ def main(cache_dir, timeout):
             status = uh.read()
 
         if status == b'':
-            for filename in filenames:
+            for filename in sent:
                 try:
                     os.unlink(filename)
                 except OSError:
-- 
2.43.0


From 823489034c39abb8981f8470b711cb98d12b890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:32 +0000
Subject: [PATCH 028/111] fix: sessions that start at the same time share one
 telemetry installation key

---
 lsl/misc/telemetry/__init__.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 3c0f0ee..8eb7574 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -20,6 +20,8 @@ from lsl.version import version as lsl_version
 
 from lsl.logger import LSL_LOGGER
 
+from lsl.misc.file_lock import FileLock
+
 from lsl.config import LSL_CONFIG
 TELE_CONFIG = LSL_CONFIG.view('telemetry')
 
@@ -33,23 +35,24 @@ __all__ = ['is_active', 'enable', 'disable', 'ignore',
 
 try:
     # Create the cache directory
-    if not os.path.exists(LSL_CONFIG.dirname):
-        os.mkdir(LSL_CONFIG.dirname)
     _CACHE_DIR = os.path.join(LSL_CONFIG.dirname, 'telemetry_cache')
-    if not os.path.exists(_CACHE_DIR):
-        os.mkdir(_CACHE_DIR)
+    os.makedirs(_CACHE_DIR, exist_ok=True)
 
     # Load the install ID key, creating it if it doesn't exist
     _INSTALL_KEY = os.path.join(_CACHE_DIR, 'install.key')
-    if not os.path.exists(_INSTALL_KEY):
-        with open(_INSTALL_KEY, 'w') as fh:
-            fh.write(str(uuid.uuid4()))
+    if not os.path.exists(_INSTALL_KEY) or os.path.getsize(_INSTALL_KEY) == 0:
+        with FileLock(_INSTALL_KEY):
+            # Another process may have created it while we waited for the lock
+            if not os.path.exists(_INSTALL_KEY) or os.path.getsize(_INSTALL_KEY) == 0:
+                with open(_INSTALL_KEY+'.tmp', 'w') as fh:
+                    fh.write(str(uuid.uuid4()))
+                os.rename(_INSTALL_KEY+'.tmp', _INSTALL_KEY)
 
     with open(_INSTALL_KEY, 'r') as fh:
         _INSTALL_KEY = fh.read().rstrip()
         
     _IS_READONLY = False
-except OSError as e:
+except (OSError, ValueError) as e:
     _INSTALL_KEY = ''
     _IS_READONLY = True
     
-- 
2.43.0


From 19b0b4420d329803efa4634db0014921fd692e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 029/111] fix: telemetry execution times do not depend on the
 wall clock

---
 lsl/misc/telemetry/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 8eb7574..f3b4aae 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -370,9 +370,9 @@ def track_function_timed(user_function):
     @wraps(user_function)
     def wrapper(*args, **kwds):
         global _telemetry_client
-        t0 = time.time()
+        t0 = time.perf_counter()
         result = user_function(*args, **kwds)
-        t1 = time.time()
+        t1 = time.perf_counter()
         
         _telemetry_client.track(name, t1-t0)
         return result
@@ -421,9 +421,9 @@ def track_method_timed(user_method):
     @wraps(user_method)
     def wrapper(*args, **kwds):
         global _telemetry_client
-        t0 = time.time()
+        t0 = time.perf_counter()
         result =  user_method(*args, **kwds)
-        t1 = time.time()
+        t1 = time.perf_counter()
         
         cls = type(args[0]).__name__
         _telemetry_client.track(name % cls, t1-t0)
-- 
2.43.0


From 58fb67ef222abf66a3e344819a0a8f03c2e0e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 030/111] fix: damaged telemetry reports are removed once the
 others are uploaded

---
 lsl/misc/_telemetry_send.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/_telemetry_send.py b/lsl/misc/_telemetry_send.py
index 17e0e42..8bd7013 100644
--- a/lsl/misc/_telemetry_send.py
+++ b/lsl/misc/_telemetry_send.py
@@ -40,12 +40,15 @@ def main(cache_dir, timeout):
             return
 
         payloads = []
-        sent = []
+        done = []
         for filename in filenames:
             try:
                 with open(filename, 'r') as lf:
                     payloads.append(json.loads(lf.read()))
-                sent.append(filename)
+                done.append(filename)
+            except ValueError:
+                # Damaged, this will never be sent
+                done.append(filename)
             except Exception:
                 pass
 
@@ -58,7 +61,7 @@ def main(cache_dir, timeout):
             status = uh.read()
 
         if status == b'':
-            for filename in sent:
+            for filename in done:
                 try:
                     os.unlink(filename)
                 except OSError:
-- 
2.43.0


From 4dc32369e22d0b02d27e2724a8d0d2983bbf1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 031/111] fix: the busy indicator does not draw over its final
 message

---
 lsl/common/busy.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/lsl/common/busy.py b/lsl/common/busy.py
index e400d0f..b037e84 100644
--- a/lsl/common/busy.py
+++ b/lsl/common/busy.py
@@ -80,6 +80,10 @@ class BusyIndicator(object):
         """
         
         if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            self.thread = None
+            
             if self.color is None:
                 out = "%s%s%s%s\n" % (self.message, 
                                       '.'*self._i, 
@@ -92,10 +96,6 @@ class BusyIndicator(object):
                                                        'Done' if success else 'Failed', 
                                                        ' '*self.dots))
             sys.stdout.write(out)
-            
-            self.alive.clear()
-            self.thread.join()
-            self.thread = None
             self._i = 0
             
     def _run(self):
@@ -187,16 +187,17 @@ class BusyIndicatorPlus(BusyIndicator):
         return out
         
     def stop(self, success=True):
-        out = getattr(self, "_render_%s" % self.style)(active=False)
-        out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
-        sys.stdout.write(out)
-        
-        self.alive.clear()
-        self.thread.join()
-        self.thread = None
-        self._i = 0
-        self._dir = 1
-        
+        if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            self.thread = None
+            
+            out = getattr(self, "_render_%s" % self.style)(active=False)
+            out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
+            sys.stdout.write(out)
+            self._i = 0
+            self._dir = 1
+            
     def _pprint(self):
         t = time.time() - self.t0
         m = int(t)//60
-- 
2.43.0


From 933483e43359fc70e9ddb88582a710890d4a1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 032/111] fix: the elapsed time of the busy indicator does not
 depend on the wall clock

---
 lsl/common/busy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/busy.py b/lsl/common/busy.py
index b037e84..0a9c73c 100644
--- a/lsl/common/busy.py
+++ b/lsl/common/busy.py
@@ -199,7 +199,7 @@ class BusyIndicatorPlus(BusyIndicator):
             self._dir = 1
             
     def _pprint(self):
-        t = time.time() - self.t0
+        t = time.monotonic() - self.t0
         m = int(t)//60
         s = t % 60
         if m == 0:
@@ -214,7 +214,7 @@ class BusyIndicatorPlus(BusyIndicator):
         Internal function used by the thread to make/change the displayed text.
         """
         
-        self.t0 = time.time()
+        self.t0 = time.monotonic()
         while self.alive.is_set():
             out = getattr(self, "_render_%s" % self.style)(active=True)
             out = "%s%s%s\r" % (self.message, out, self._pprint())
-- 
2.43.0


From f7914c4191cc1e65eb6d5367c96970c19dbd770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 033/111] fix: the current log file stays in use if a new one
 cannot be opened

---
 lsl/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/logger.py b/lsl/logger.py
index 1472c7b..c8315d5 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -202,9 +202,13 @@ def enable_file_logging(filename, level=None, mode='a'):
 
     # Remove existing file handler if present
     if _file_handler is not None:
+        # ... but only if there is something to switch to
+        open(filename, 'a').close()
+
         warnings.warn(f"Closing existing log file '{_file_handler.baseFilename}' and switching to '{filename}'", RuntimeWarning)
         LSL_LOGGER.removeHandler(_file_handler)
         _file_handler.close()
+        _file_handler = None
 
     # Create and configure new file handler
     _file_handler = logging.FileHandler(filename, mode=mode)
-- 
2.43.0


From 704b11a15bca8a48ac52ddb004b5491efe95a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 034/111] fix: a duplicated frame does not hide a missing one
 in the frame buffers

---
 lsl/reader/buffer.py | 73 +++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..0de3bd5 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,30 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
         
-        if returnCount == self.nFrames:
-            ## Everything is good (Is it really???)
+        ## Remove any duplicate frames, keeping the first one received
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = self._get_frame_id(frame)
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+                
+        missingList = self._get_missing_list(key_to_return)
+        if not missingList:
+            ## Everything is good
             self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        else:
             ## There are too few frames
             self.partial = self.partial + 1
-            self.missing = self.missing + (self.nFrames - returnCount)
-            
-            output = self.buffer[key_to_return]
+            self.missing = self.missing + len(missingList)
             
             ## Fill in the missing frames
-            output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
-        else:
-            ## There are too many frames
-            self.full = self.full + 1
+            output.extend( map(lambda x: self.create_fill(key_to_return, x), missingList) )
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -384,24 +375,30 @@ class FrameBufferBase(object):
         
         return False if len(self.buffer) else True
         
+    def _get_frame_id(self, frame):
+        """
+        Return the entry in the list of possible frames that this frame 
+        corresponds to.
+        """
+        
+        if hasattr(self, 'frameID'):
+            return self.frameID(frame)
+        elif self.mode == 'VDIF':
+            return frame.id[1]
+        elif self.mode in ('TBF', 'TBX'):
+            return frame.header.first_chan
+        elif self.mode == 'COR':
+            return frame.id+(frame.header.first_chan,)
+        else:
+            return frame.id
+            
     def _get_missing_list(self, key):
         """
         Create a list of tuples of missing frame information.
         """
         
         # Find out what frames we have
-        if hasattr(self, 'frameID'):
-            fnc = lambda x: self.frameID(x)
-        else:
-            if self.mode == 'VDIF':
-                fnc = lambda x: x.id[1]
-            elif self.mode in ('TBF', 'TBX'):
-                fnc = lambda x: x.header.first_chan
-            elif self.mode == 'COR':
-                fnc = lambda x: x.id+(x.header.first_chan,)
-            else:
-                fnc = lambda x: x.id
-        frameList = set(map(fnc, self.buffer[key]))
+        frameList = set(map(self._get_frame_id, self.buffer[key]))
         
         # Compare the existing list with the possible list stored in the 
         # FrameBufferBase object to build a list of missing frames.
-- 
2.43.0


From 6a9b2b58403ab2fa2237818ea6ab6124ad2999b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 035/111] fix: frame buffers are flushed in time order

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 0de3bd5..581b99e 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -351,7 +351,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From de725bab5fc22caef82654d959814380063999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 036/111] fix: resetting a DRX frame buffer keeps ignoring
 frames from before 1980

---
 lsl/reader/buffer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 581b99e..c56a9ae 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -148,7 +148,8 @@ class FrameBufferBase(object):
         # The buffer itself
         self.nsegments = nsegments
         self.buffer = OrderedDict()
-        self.done = deque([0,], maxlen=self.nsegments)
+        self._first_done = 0
+        self.done = deque([self._first_done,], maxlen=self.nsegments)
         
         # Buffer statistics
         self.full = 0		# Number of times a full buffer was emptied
@@ -363,7 +364,7 @@ class FrameBufferBase(object):
         
         self.buffer.clear()
         self.done.clear()
-        self.done.append(0)
+        self.done.append(self._first_done)
         
     def is_empty(self):
         """
@@ -483,7 +484,8 @@ class DRXFrameBuffer(FrameBufferBase):
         
         # Make sure that we ignore packets before 1980
         # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
+        self._first_done = 61849368000000000
+        self.done[0] = self._first_done
         
     def get_max_frames(self):
         """
@@ -587,7 +589,8 @@ class DRX8FrameBuffer(FrameBufferBase):
         
         # Make sure that we ignore packets before 1980
         # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
+        self._first_done = 61849368000000000
+        self.done[0] = self._first_done
         
     def get_max_frames(self):
         """
-- 
2.43.0


From 56ec2cfff707bd039fbea9dcf827df81bdc9c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:39 +0000
Subject: [PATCH 037/111] fix: FrameBufferBase.append() returns False when a
 late frame is dropped

---
 lsl/reader/buffer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index c56a9ae..1cb7074 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -232,7 +232,8 @@ class FrameBufferBase(object):
         Append a new frame to the buffer with the appropriate time tag.  
         True is returned if the frame was added to the buffer and False if 
         the frame was dropped because it belongs to a buffer that has 
-        already been returned.
+        already been returned.  For a list of frames False is returned if any
+        of the frames were dropped.
         """
         
         # Convert input to a deque (if needed)
@@ -245,12 +246,14 @@ class FrameBufferBase(object):
             frames = deque([frames,])
             
         # Loop over frames
+        added = True
         for frame in frames:
             # Make sure that it is not in the `done' list.  If it is,
             # disgaurd the frame and make a note of it.
             fom = self.get_figure_of_merit(frame)
             if fom <= self.done[-1]:
                 self.dropped += 1
+                added = False
                 continue
                 
             # If that time tag hasn't been done yet, add it to the 
@@ -261,14 +264,14 @@ class FrameBufferBase(object):
                 self.buffer[fom] = deque()
                 self.buffer[fom].append(frame)
                 
-        return True
+        return added
         
     def put(self, *args, **kwds):
         """
         Synonymous with 'append'.
         """
         
-        self.append(*args, **kwds)
+        return self.append(*args, **kwds)
         
     def peek(self, require_filled=True):
         """
-- 
2.43.0


From 8ce6f4a550e3c5c2a2ac310038a6113cee4c7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:55 +0000
Subject: [PATCH 038/111] fix: reordered COR frames are sorted by start channel

---
 lsl/reader/buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 1cb7074..3caf5a7 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -45,7 +45,7 @@ __all__ = ['FrameBufferBase', 'DRXFrameBuffer', 'DRX8FrameBuffer',
 def _cmp_frames(x, y):
     """
     Function to compare two frames and sort by stand/beam number (TBN, DRX)
-    or by channel number (TBF).
+    or by channel number (TBF) or both (COR).
     """
     
     # Parse if frame IDs to extract the stand/beam, tunning, and polarization
@@ -53,6 +53,9 @@ def _cmp_frames(x, y):
     try:
         idsX = x.id
         idsY = y.id
+        if hasattr(x.header, 'first_chan'):
+            idsX = (x.header.first_chan,)+idsX
+            idsY = (y.header.first_chan,)+idsY
     except AttributeError:
         idsX = x.header.first_chan
         idsY = y.header.first_chan
-- 
2.43.0


From 502b45ae8d43196cd616ffc06bbe74a1d3193f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:58 +0000
Subject: [PATCH 039/111] fix: TBX frames are read correctly when files with
 different frame sizes are interleaved

---
 lsl/reader/tbx.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..a27f912 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -47,13 +47,13 @@ static int cached_nstand = 256;
 static int cached_nchan = 16;
 
 PyObject *tbx_method = NULL;
-PyObject *tbx_size = NULL;
 
 template<int NSTAND, int NCHAN, typename T, NPY_TYPES N>
 PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
-    PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
+    PyObject *ph, *size, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data;
     int i, nstand, nchan;
+    Py_ssize_t nread;
     TBXFrame cFrame;
     
     static constexpr int frameSize = sizeof(TBXHeader)+8+NCHAN*NSTAND*2*1;
@@ -67,10 +67,9 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     if( tbx_method == NULL ) {
         tbx_method = Py_BuildValue("s", "read");
     }
-    if( tbx_size == NULL ) {
-        tbx_size = Py_BuildValue("i", frameSize);
-    }
-    buffer = PyObject_CallMethodObjArgs(ph, tbx_method, tbx_size, NULL);
+    size = Py_BuildValue("i", frameSize);
+    buffer = PyObject_CallMethodObjArgs(ph, tbx_method, size, NULL);
+    Py_XDECREF(size);
     if( buffer == NULL ) {
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
@@ -78,25 +77,35 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    }
+    
+    // NOTE: A short read is not necessarily the end of the file.  The last frame
+    //       could simply be smaller than what we asked for.
+    nread = PyBytes_GET_SIZE(buffer);
+    if( nread < (Py_ssize_t) sizeof(TBXHeader) || nread > frameSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
+    if( nread != frameSize
+        && !(validSync5C(cFrame.header.syncWord)
+             && (Py_ssize_t) sizeof(TBXHeader)+8+nchan*nstand*2 <= nread) ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
     
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
-        Py_XDECREF(tbx_size);   // Update for next time
-        tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", (int) -nread, 1);
+        Py_XDECREF(temp);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
@@ -185,7 +194,8 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     // Validate
     if( !validSync5C(cFrame.header.syncWord) ) {
-        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         Py_XDECREF(data);
         return NULL;
-- 
2.43.0


From cd4e7d15d1e7c028877e4191e1874f930cdb3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 040/111] fix: COR frames are read correctly when files with
 different channel counts are interleaved

---
 lsl/reader/cor.cpp | 156 +++++++++++++++++++++------------------------
 1 file changed, 73 insertions(+), 83 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..04263e3 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -47,44 +47,40 @@ typedef struct __attribute__((packed)) {
 } CORFrame;
 
 
-static int cached_nchan = 192;
+// Possible channel counts
+static const int cor_nchan[] = {33, 72, 112, 192};
+#define COR_MAX_NCHAN 192
+
+// Last channel count found, used only if a frame is followed by something that is
+// not a frame
+static int cached_nchan = COR_MAX_NCHAN;
 
 PyObject *cor_method = NULL;
 PyObject *cor_size   = NULL;
 
 
-template<int NCHAN>
-PyObject *read_cor_impl(PyObject *self, PyObject *args) {
+PyObject *read_cor(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
     int i, nchan;
+    Py_ssize_t nread, frameSize;
     CORFrame cFrame;
     
-    static constexpr int frameSize = sizeof(CORHeader)+8+4+2+2+NCHAN*8*4;
+    static constexpr int headSize = sizeof(CORHeader)+8+4+2+2;
+    static constexpr int maxSize = headSize+COR_MAX_NCHAN*8*4+4;
     
     if(!PyArg_ParseTuple(args, "OO", &ph, &frame)) {
         PyErr_Format(PyExc_RuntimeError, "Invalid parameters");
-        goto fail;
-    }
-    
-    // Create the output data array
-    npy_intp dims[3];
-    // 32+32-bit Data -> as COR_NCHAN channels, 2 pols @ stand 0, 2 pols @  stand 1
-    dims[0] = NCHAN;
-    dims[1] = 2;
-    dims[2] = 2;
-    data = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
-    if(data == NULL) {
-        PyErr_Format(PyExc_MemoryError, "Cannot create output array");
-        goto fail;
+        return NULL;
     }
     
     // Read from the file
+    // NOTE: The number of channels is not part of the frame so we need to read in
+    //       enough for the largest frame plus a sync word and then look for where
+    //       the next frame starts
     if( cor_method == NULL ) {
         cor_method = Py_BuildValue("s", "read");
-    }
-    if( cor_size == NULL ) {
-        cor_size = Py_BuildValue("i", frameSize);
+        cor_size = Py_BuildValue("i", maxSize);
     }
     buffer = PyObject_CallMethodObjArgs(ph, cor_method, cor_size, NULL);
     if( buffer == NULL ) {
@@ -93,48 +89,72 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         } else {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
-        Py_XDECREF(data);
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    }
+    nread = PyBytes_GET_SIZE(buffer);
+    if( nread < headSize+cor_nchan[0]*8*4 || nread > maxSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
-        Py_XDECREF(data);
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
+    // Validate
+    if( !validSync5C(cFrame.header.sync_word) ) {
+        temp = PyObject_CallMethod(ph, "seek", "ii", (int) -nread, 1);
+        Py_XDECREF(temp);
+        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        return NULL;
+    }
+    
     // Determine the number of channels in the frame
-    if( (NCHAN > 33) && validSync5C((uint32_t) cFrame.payload.raw[33*4*2]) ) {
-        nchan = 33;
-    } else if( (NCHAN > 72) && validSync5C((uint32_t) cFrame.payload.raw[72*4*2]) ) {
-        nchan = 72;
-    } else if( (NCHAN > 112) && validSync5C((uint32_t) cFrame.payload.raw[112*4*2]) ) {
-        nchan = 112;
-    } else {
-        nchan = NCHAN;
+    nchan = 0;
+    frameSize = 0;
+    for(i=0; i<(int) (sizeof(cor_nchan)/sizeof(int)); i++) {
+        frameSize = headSize + cor_nchan[i]*8*4;
+        if( nread < frameSize ) {
+            break;
+        }
+        if( nread < frameSize+4 ) {
+            // This is the last frame in the file
+            nchan = cor_nchan[i];
+            break;
+        }
+        if( validSync5C(cFrame.payload.raw[cor_nchan[i]*4*2]) ) {
+            // There is another frame after this one
+            nchan = cached_nchan = cor_nchan[i];
+            break;
+        }
+    }
+    if( nchan == 0 && nread == maxSize ) {
+        nchan = cached_nchan;
+    }
+    frameSize = headSize + nchan*8*4;
+    if( nchan == 0 ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
     }
     
-    // If nchan is not what we expect, update the cache and retry with correct size
-    if( nchan != NCHAN ) {
-        cached_nchan = nchan;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        
-        switch(nchan) {
-            case 33:
-                return read_cor_impl<33>(self,args);
-            case 72:
-                return read_cor_impl<72>(self,args);
-            case 112:
-                return read_cor_impl<112>(self,args);
-            case 192:
-                return read_cor_impl<192>(self,args);
-            default:
-                PyErr_Format(SyncError, "Mark 5C sync word differs from expected during mode change");
-                return NULL;
+    // Move to the end of this frame
+    if( nread != frameSize ) {
+        temp = PyObject_CallMethod(ph, "seek", "ii", (int) (frameSize-nread), 1);
+        if( temp == NULL ) {
+            return NULL;
         }
+        Py_XDECREF(temp);
+    }
+    
+    // Create the output data array
+    npy_intp dims[3];
+    // 32+32-bit Data -> as nchan channels, 2 pols @ stand 0, 2 pols @  stand 1
+    dims[0] = nchan;
+    dims[1] = 2;
+    dims[2] = 2;
+    data = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
+    if(data == NULL) {
+        PyErr_Format(PyExc_MemoryError, "Cannot create output array");
+        return NULL;
     }
     
     Py_BEGIN_ALLOW_THREADS
@@ -152,29 +172,19 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     // Fill the data array
     std::complex<float> *a;
     a = (std::complex<float> *) PyArray_DATA(data);
-    memcpy(a, reinterpret_cast<std::complex<float> *>(&cFrame.payload.vis), sizeof(std::complex<float>)*NCHAN*4);
+    memcpy(a, reinterpret_cast<std::complex<float> *>(&cFrame.payload.vis), sizeof(std::complex<float>)*nchan*4);
     if( cFrame.payload.stand0 == cFrame.payload.stand1 ) {
         // Deal with the edge of the triangular matrix that ADP outputs
         // so that we do not get strange values in the output.  These are
         // all auto-correlations and we can just use conjgation to get YX
         // from XY.
-        for(i=0; i<NCHAN; i++) {
+        for(i=0; i<nchan; i++) {
             a[4*i + 1*2 + 0] = std::conj(a[4*i + 0*2 + 1]);
         }
     }
     
     Py_END_ALLOW_THREADS
     
-    // Validate
-    if( !validSync5C(cFrame.header.sync_word) ) {
-        cached_nchan = 192;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
-        goto fail;
-    }
-    
     // Save the data to the frame object
     // 1.  Header
     fHeader = PyObject_GetAttrString(frame, "header");
@@ -230,26 +240,6 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     Py_XDECREF(data);
     
     return output;
-    
-fail:
-    Py_XDECREF(data);
-    
-    return NULL;
-}
-
-PyObject *read_cor(PyObject *self, PyObject *args) {
-    // Try fast path first with cached nchan
-    switch(cached_nchan) {
-        case 33:
-            return read_cor_impl<33>(self,args);
-        case 72:
-            return read_cor_impl<72>(self,args);
-        case 112:
-            return read_cor_impl<112>(self,args);
-        case 192:
-        default:
-            return read_cor_impl<192>(self,args);
-    }
 }
 
 char read_cor_doc[] = PyDoc_STR(\
-- 
2.43.0


From a76509523fc8e40aab703c1d1f2b716bc7fb4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:51 +0000
Subject: [PATCH 041/111] fix: the VDIF reader does not release objects twice
 when a frame cannot be read

---
 lsl/reader/vdif.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..43a07a4 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -177,7 +177,7 @@ static PyArrayObject * parse_vdif(uint8_t *rawData, uint32_t dataLength, uint32_
 
 template<typename T, NPY_TYPES N>
 PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
-    PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
+    PyObject *ph, *buffer=NULL, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
     uint32_t i;
     float cFreq, sRate;
@@ -210,7 +210,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -249,7 +249,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
-        Py_XDECREF(buffer);
+        Py_CLEAR(buffer);
         
     } else {
         // Legacy headers are missing this information
@@ -290,7 +290,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -356,7 +356,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         padims.len = 2;
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
-        Py_XDECREF(data);
+        Py_CLEAR(data);
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From 69299b6a14eedad307d162141a02fbbb9ce68dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:51 +0000
Subject: [PATCH 042/111] fix: read_frame_i8() of complex VDIF data does not
 read past the end of the data

---
 lsl/reader/vdif.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 43a07a4..1efb25f 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -328,10 +328,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
-- 
2.43.0


From 7aca36e4e9de9508fca309dac8df9dc046d8e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:16 +0000
Subject: [PATCH 043/111] fix: the DR spectrometer reader does not release
 objects twice when a frame cannot be read

---
 lsl/reader/drspec.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..99c8c5e 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -243,7 +243,7 @@ static void parse_stokes_full(DRSpecHeader *header, float *data, float *I0, floa
 
 
 PyObject *read_drspec(PyObject *self, PyObject *args) {
-    PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
+    PyObject *ph, *buffer=NULL, *output, *frame, *fHeader, *fPayload, *temp;
     PyObject *tuningWords, *fills, *errors, *saturations;
     PyArrayObject *dataA0=NULL, *dataB0=NULL, *dataC0=NULL, *dataD0=NULL;
     PyArrayObject *dataA1=NULL, *dataB1=NULL, *dataC1=NULL, *dataD1=NULL;
@@ -274,7 +274,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -369,7 +369,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     Py_BEGIN_ALLOW_THREADS
     
-- 
2.43.0


From f640733fc5d399192b4a62143a42de2aac310b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:16 +0000
Subject: [PATCH 044/111] fix: the DR spectrometer reader does not read past
 the end of a frame with an unknown data format

---
 lsl/reader/drspec.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 99c8c5e..d3688a9 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -69,6 +69,28 @@ inline uint8_t pol_count(uint8_t p) {
     return c;
 }
 
+// Validate the data format.  Return true if it is one that can be unpacked.
+inline bool valid_format(uint8_t p) {
+    switch(p) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case LINEAR_XX | LINEAR_YY:
+        case LINEAR_XY_RE | LINEAR_XY_IM:
+        case LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY:
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case STOKES_I | STOKES_V:
+        case STOKES_I | STOKES_Q | STOKES_U | STOKES_V:
+            return true;
+        default:
+            return false;
+    }
+}
+
 template<PolProds P>
 static void parse_linear_single(DRSpecHeader *header, float *data, float *S0, float *S1) {
     unsigned int i;
@@ -283,6 +305,13 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     
+    // Check the data format
+    if( !valid_format(header.stokes_format) ) {
+        buffer = PyObject_CallMethod(ph, "seek", "ii", -sizeof(DRSpecHeader), 1);
+        PyErr_Format(SyncError, "Unknown data format 0x%02X", header.stokes_format);
+        goto fail;
+    }
+    
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
     
-- 
2.43.0


From f295d3ce00c155ce7eaa8bb8d17d03b23d24cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:01 +0000
Subject: [PATCH 045/111] fix: the frame readers check that read() returned
 bytes

---
 lsl/reader/cor.cpp    |  5 +++++
 lsl/reader/drspec.cpp |  7 +++++++
 lsl/reader/drx.cpp    |  5 +++++
 lsl/reader/drx8.cpp   |  5 +++++
 lsl/reader/tbx.cpp    |  5 +++++
 lsl/reader/vdif.cpp   | 10 ++++++++++
 6 files changed, 37 insertions(+)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 04263e3..30a56b1 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -91,6 +91,11 @@ PyObject *read_cor(PyObject *self, PyObject *args) {
         }
         return NULL;
     }
+    if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        Py_XDECREF(buffer);
+        return NULL;
+    }
     nread = PyBytes_GET_SIZE(buffer);
     if( nread < headSize+cor_nchan[0]*8*4 || nread > maxSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index d3688a9..6a6be68 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -291,6 +291,9 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() drspec_method");
         }
         goto fail;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        goto fail;
     } else if( PyBytes_GET_SIZE(buffer) != sizeof(DRSpecHeader) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         goto fail;
@@ -392,6 +395,10 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         }
         free(data);
         goto fail;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        free(data);
+        goto fail;
     } else if( PyBytes_GET_SIZE(buffer) != nBytes ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         free(data);
diff --git a/lsl/reader/drx.cpp b/lsl/reader/drx.cpp
index 7b3cd4c..c284aff 100644
--- a/lsl/reader/drx.cpp
+++ b/lsl/reader/drx.cpp
@@ -91,6 +91,11 @@ PyObject *read_drx(PyObject *self, PyObject *args) {
         }
         Py_XDECREF(data);
         return NULL;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        Py_XDECREF(data);
+        Py_XDECREF(buffer);
+        return NULL;
     } else if( PyBytes_GET_SIZE(buffer) != sizeof(cFrame) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(data);
diff --git a/lsl/reader/drx8.cpp b/lsl/reader/drx8.cpp
index cc1d42a..d4930ba 100644
--- a/lsl/reader/drx8.cpp
+++ b/lsl/reader/drx8.cpp
@@ -91,6 +91,11 @@ PyObject *read_drx8(PyObject *self, PyObject *args) {
         }
         Py_XDECREF(data);
         return NULL;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        Py_XDECREF(data);
+        Py_XDECREF(buffer);
+        return NULL;
     } else if( PyBytes_GET_SIZE(buffer) != sizeof(cFrame) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(data);
diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index a27f912..e91b72e 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -81,6 +81,11 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     // NOTE: A short read is not necessarily the end of the file.  The last frame
     //       could simply be smaller than what we asked for.
+    if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        Py_XDECREF(buffer);
+        return NULL;
+    }
     nread = PyBytes_GET_SIZE(buffer);
     if( nread < (Py_ssize_t) sizeof(TBXHeader) || nread > frameSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 1efb25f..3368154 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -205,6 +205,9 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         goto fail;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        goto fail;
     } else if( PyBytes_GET_SIZE(buffer) != sizeof(bHeader) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         goto fail;
@@ -244,6 +247,9 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
                 PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
             }
             goto fail;
+        } else if( !PyBytes_Check(buffer) ) {
+            PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+            goto fail;
         } else if( PyBytes_GET_SIZE(buffer) != sizeof(eHeader) ) {
             PyErr_Format(EOFError, "End of file encountered during filehandle read");
             goto fail;
@@ -284,6 +290,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         free(rawData);
         goto fail;
+    } else if( !PyBytes_Check(buffer) ) {
+        PyErr_Format(PyExc_TypeError, "read() returned something other than bytes");
+        free(rawData);
+        goto fail;
     } else if( PyBytes_GET_SIZE(buffer) != dataLength ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         free(rawData);
-- 
2.43.0


From bcb08876f9b5b75c82a539a77795d45e63fb49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 046/111] fix: CORFile.read() can load the entire file

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..8101688 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2058,10 +2058,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From 7e0cbfd6ad8ae8fb1c7ce19ccd80de58af6bdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 047/111] fix: the time tag step of COR data is not truncated

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 8101688..152c9ab 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2051,7 +2051,7 @@ class CORFile(LDPFileBase):
                 raise errors.EOFError()
                 
         # Covert the sample rate to an expected timetag skip
-        timetagSkip = int(self.description['tint'] * fS)
+        timetagSkip = int(round(self.description['tint'] * fS))
         
         # Setup the counter variables:  frame count and time tag count
         if getattr(self, "_timetag", None) is None:
-- 
2.43.0


From 51a2584c7911b0c944019a4ff98a12d59eb50a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 048/111] fix: missing frames can be zero-filled once the end
 of the file is reached

---
 lsl/reader/ldp.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 152c9ab..1f221d7 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -623,10 +623,7 @@ class DRXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
@@ -1089,10 +1086,7 @@ class DRX8File(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
@@ -1758,10 +1752,7 @@ class TBXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag + 8192*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-- 
2.43.0


From dc282bd5d15161a38cb27894d34a500fae3066ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 049/111] fix: missing frames are zero-filled in DRX files
 without tuning 1, polarization X

---
 lsl/reader/ldp.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 1f221d7..1ea5fcc 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -613,16 +613,16 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lTimetag = max(self._timetag.values())
+                if lTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lTimetag+self._timetagSkip:
+                    missing = (cTimetag - lTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
@@ -1076,16 +1076,16 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lTimetag = max(self._timetag.values())
+                if lTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lTimetag+self._timetagSkip:
+                    missing = (cTimetag - lTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From 096557330030d3b8c9a2be213d6852a1ccb07a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 050/111] fix: missing frames are zero-filled in TBX files with
 a different time tag step

---
 lsl/reader/ldp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 1ea5fcc..1f70f6b 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1742,16 +1742,15 @@ class TBXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
                 if self._timetag == 0:
                     pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
+                elif cTimetag != self._timetag + timetagSkip:
+                    missing = (cTimetag - self._timetag - timetagSkip) / float(timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
+                            m = self._timetag + timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From 220260970b1fce71f3e6e2a76679a82d7a2bc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 051/111] fix: missing frames near the end of a file are
 zero-filled like the others

---
 lsl/reader/ldp.py | 140 ++++++++--------------------------------------
 1 file changed, 24 insertions(+), 116 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 1f70f6b..37c8826 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -590,10 +590,10 @@ class DRXFile(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -607,8 +607,12 @@ class DRXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            # If we've hit the end of the file then everything that is left in the
+            # buffer is ready
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -627,7 +631,7 @@ class DRXFile(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=False))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -656,39 +660,6 @@ class DRXFile(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1053,10 +1024,10 @@ class DRX8File(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -1070,8 +1041,12 @@ class DRX8File(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            # If we've hit the end of the file then everything that is left in the
+            # buffer is ready
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -1090,7 +1065,7 @@ class DRX8File(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=False))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -1119,39 +1094,6 @@ class DRX8File(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1707,10 +1649,10 @@ class TBXFile(LDPFileBase):
 
         nSkip = 0
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(framesPerObs):
                     try:
@@ -1736,8 +1678,12 @@ class TBXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            # If we've hit the end of the file then everything that is left in the
+            # buffer is ready
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -1755,7 +1701,7 @@ class TBXFile(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=False))
             
             # Continue adding frames if nothing comes out.
             if cFrames is None:
@@ -1793,44 +1739,6 @@ class TBXFile(LDPFileBase):
                 count[aStand] += 1
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                cTimetag = cFrames[0].payload.timetag
-                if self._timetag == 0:
-                    self._timetag = cTimetag - timetagSkip
-                if cTimetag != self._timetag+timetagSkip:
-                    actStep = cTimetag - self._timetag
-                    if self.ignore_timetag_errors:
-                        if not warned_timetag:
-                            LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                            warned_timetag = True
-                    else:
-                        raise RuntimeError(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                self._timetag = cFrames[0].payload.timetag
-                
-                for cFrame in cFrames:
-                    first_chan = cFrame.header.first_chan
-                    
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag
-                        else:
-                            setTime = cFrame.time
-                        
-                    subData = cFrame.payload.data
-                    subData = subData.reshape(self.description['frame_channel_count'],-1)
-                    subData = subData.T
-                    
-                    aStand = self.mapper.index(first_chan)
-                    data_view[:,aStand*self.description['frame_channel_count']:(aStand+1)*self.description['frame_channel_count'],count[aStand]] = subData.view(data_view.dtype)
-                    count[aStand] += 1
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Sanity check at the end to see if we actually read anything.  
         if nFrameSets == 0 and duration > 0:
             raise errors.EOFError()
-- 
2.43.0


From 465b8170b32ba58db91b3bc467f6c7e748b7f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 052/111] fix: reading only a partial frame at the end of a
 file raises EOFError

---
 lsl/reader/ldp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 37c8826..2c19d50 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -660,6 +660,10 @@ class DRXFile(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.  
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1094,6 +1098,10 @@ class DRX8File(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.  
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1382,6 +1390,10 @@ class DRSpecFile(LDPFileBase):
             self._timetag = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.  
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * self.description['tint']
-- 
2.43.0


From 4a655a619ab81a63d44d670089b88ab2aeea4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:40 +0000
Subject: [PATCH 053/111] fix: the check for a gap at the beginning of a DRX
 file does not prevent it from being opened

---
 lsl/reader/ldp.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 2c19d50..873eef8 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -350,10 +350,13 @@ class DRXFile(LDPFileBase):
                 toffset = 0
                 with FilePositionSaver(self.fh):
                     self.fh.seek(((checkpoint_size*1024**2-1)//drx.FRAME_SIZE+1)*drx.FRAME_SIZE, 1)
-                    newFrame = drx.read_frame(self.fh)
-                    toffset = newFrame.time - junkFrame.time
-                    if toffset > 300:
-                        foffset = self.fh.tell() - drx.FRAME_SIZE
+                    try:
+                        newFrame = drx.read_frame(self.fh)
+                        toffset = newFrame.time - junkFrame.time
+                        if toffset > 300:
+                            foffset = self.fh.tell() - drx.FRAME_SIZE
+                    except (errors.EOFError, errors.SyncError):
+                        pass
                         
                 if foffset > 0:
                     LSL_LOGGER.warning(f"Large ({toffset/3600:.1f} hr) gap at the beginning, skipping in {foffset} B")
@@ -788,10 +791,13 @@ class DRX8File(LDPFileBase):
                 toffset = 0
                 with FilePositionSaver(self.fh):
                     self.fh.seek(((checkpoint_size*1024**2-1)//drx8.FRAME_SIZE+1)*drx8.FRAME_SIZE, 1)
-                    newFrame = drx8.read_frame(self.fh)
-                    toffset = newFrame.time - junkFrame.time
-                    if toffset > 300:
-                        foffset = self.fh.tell() - drx8.FRAME_SIZE
+                    try:
+                        newFrame = drx8.read_frame(self.fh)
+                        toffset = newFrame.time - junkFrame.time
+                        if toffset > 300:
+                            foffset = self.fh.tell() - drx8.FRAME_SIZE
+                    except (errors.EOFError, errors.SyncError):
+                        pass
                         
                 if foffset > 0:
                     LSL_LOGGER.warning(f"Large ({toffset/3600:.1f} hr) gap at the beginning, skipping in {foffset} B")
-- 
2.43.0


From 6a650cb4711f7b107cf0bd0c6c38f380cbf387fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:40 +0000
Subject: [PATCH 054/111] fix: TBXFile.read() works after offset() and always
 makes progress

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 873eef8..ae5b64a 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1643,14 +1643,14 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
+        remaining_count = self.get_remaining_frame_count()
         max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.3f} s of data")
         frame_count = int(round(1.0 * duration * self.description['sample_rate']))
-        frame_count = max(frame_count, 1)
         frame_count = min(frame_count, max_frame_count)
+        frame_count = max(frame_count, 1)
         duration = frame_count / self.description['sample_rate']
         
         nFrameSets = 0
-- 
2.43.0


From b6ddc892e4fced261b592b423a63856b07b19d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:40 +0000
Subject: [PATCH 055/111] fix: reading DR spectrometer and COR files moves past
 damaged frames

---
 lsl/reader/ldp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index ae5b64a..8a03bd2 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1371,6 +1371,7 @@ class DRSpecFile(LDPFileBase):
             except errors.EOFError:
                 break
             except errors.SyncError:
+                self.fh.seek(self.description['frame_size'], 1)
                 continue
                 
             cTimetag = cFrame.time
@@ -2005,6 +2006,7 @@ class CORFile(LDPFileBase):
                     cFrames = []
                     break
                 except errors.SyncError:
+                    self.fh.seek(1, 1)
                     continue
                     
             self.buffer.append(cFrames)
-- 
2.43.0


From 205a1339979f30b0bcf9a6307a6ab75542b84d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:40 +0000
Subject: [PATCH 056/111] fix: tbx.read_frame_ci8() reports synchronization
 errors

---
 lsl/reader/tbx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..fc3962e 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From ff140964a3175496831712085b3ccb9e9a1f50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 057/111] fix: the TBX reader checks the sync word before
 anything else

---
 lsl/reader/tbx.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index e91b72e..4291123 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -95,12 +95,19 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
+    // Validate
+    if( !validSync5C(cFrame.header.syncWord) ) {
+        temp = PyObject_CallMethod(ph, "seek", "ii", (int) -nread, 1);
+        Py_XDECREF(temp);
+        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        return NULL;
+    }
+    
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     if( nread != frameSize
-        && !(validSync5C(cFrame.header.syncWord)
-             && (Py_ssize_t) sizeof(TBXHeader)+8+nchan*nstand*2 <= nread) ) {
+        && (Py_ssize_t) sizeof(TBXHeader)+8+nchan*nstand*2 > nread ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         return NULL;
     }
@@ -197,15 +204,6 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     Py_END_ALLOW_THREADS
     
-    // Validate
-    if( !validSync5C(cFrame.header.syncWord) ) {
-        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        Py_XDECREF(temp);
-        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
-        Py_XDECREF(data);
-        return NULL;
-    }
-    
     // Save the data to the frame object
     // 1.  Header
     fHeader = PyObject_GetAttrString(frame, "header");
-- 
2.43.0


From 430fae5eb233d27ec2918f3ec9669a1ae52a02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 058/111] fix: a damaged DR spectrometer frame does not shorten
 what is read

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 8a03bd2..2a7a6f5 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1364,7 +1364,7 @@ class DRSpecFile(LDPFileBase):
         nFrameSets = 0
         warned_timetag = False
         setTime = None
-        for i in range(frame_count):
+        while nFrameSets < frame_count:
             # Read in the next frame and anticipate any problems that could occur
             try:
                 cFrame = drspec.read_frame(self.fh)
-- 
2.43.0


From 91d23bb2918c95e021be9088e8059d25e055ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 059/111] fix: SplitFileWrapper.read() continues over as many
 parts as needed

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..2ddb745 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -82,7 +82,7 @@ class SplitFileWrapper(object):
             
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
             self._pos += len(new_data)
-- 
2.43.0


From 25e2dde98f762268cfb74d1e4129d0d5a5414fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 060/111] fix: SplitFileWrapper.seek() relative to the end of
 the file follows the file convention

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 2ddb745..dde2711 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -115,5 +115,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From e48fb1a6294b5b095192da932dcb3b0a2ebbb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 061/111] fix: SplitFileWrapper does not reorder the caller's
 list of files

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index dde2711..f84a658 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -34,7 +34,7 @@ class SplitFileWrapper(object):
     """
     
     def __init__(self, filenames, sort=True, buffering=-1):
-        self._filenames = filenames
+        self._filenames = list(filenames)
         if sort:
             self._filenames.sort()
             
-- 
2.43.0


From 0ecbd4978aa75dd5c3d63ee7b3a4aef99d701e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 062/111] fix: offset() returns where the file really is when
 it gives up

---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 2a7a6f5..952e007 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -487,10 +487,10 @@ class DRXFile(LDPFileBase):
             if cOffset == 0:
                 break
             try:
-                self.fh.seek(cOffset*drx.FRAME_SIZE, 1)
                 nattempt += 1
                 assert(len(set(diffs_used)) > len(diffs_used)//4)
                 assert(nattempt < 1000)
+                self.fh.seek(cOffset*drx.FRAME_SIZE, 1)
             except (IOError, AssertionError):
                 LSL_LOGGER.warning("Could not find the correct offset, giving up")
 
@@ -928,10 +928,10 @@ class DRX8File(LDPFileBase):
             if cOffset == 0:
                 break
             try:
-                self.fh.seek(cOffset*drx8.FRAME_SIZE, 1)
                 nattempt += 1
                 assert(len(set(diffs_used)) > len(diffs_used)//4)
                 assert(nattempt < 1000)
+                self.fh.seek(cOffset*drx8.FRAME_SIZE, 1)
             except (IOError, AssertionError):
                 LSL_LOGGER.warning("Could not find the correct offset, giving up")
 
@@ -1287,8 +1287,8 @@ class DRSpecFile(LDPFileBase):
             if cOffset == 0:
                 break
             try:
-                self.fh.seek(cOffset*self.description['frame_size'], 1)
                 assert(len(set(diffs_used)) > len(diffs_used)//4)
+                self.fh.seek(cOffset*self.description['frame_size'], 1)
             except (IOError, AssertionError):
                 LSL_LOGGER.warning("Could not find the correct offset, giving up")
 
-- 
2.43.0


From 1fc8fe6cae9e93605a36eea40825324f6ee49726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 063/111] fix: offset() of TBX and COR files is exact, also
 after read()

---
 lsl/reader/ldp.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 952e007..b10043f 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1548,20 +1548,19 @@ class TBXFile(LDPFileBase):
         frame_size = self.description['frame_size']
         
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
+        curr = None
+        buffered = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+            buffered = len(self.buffer.buffer)
+        if curr is None:
+            frame = tbx.read_frame(self.fh)
+            self.fh.seek(-frame_size, 1)
+            curr = frame.payload.timetag
+            
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
         frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
-        frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
+        frameOffset = (int(1.0 * frameOffset / framesPerObs) - buffered) * framesPerObs
         self.fh.seek(frameOffset*frame_size, 1)
         
         # Update the file metadata
@@ -1574,7 +1573,7 @@ class TBXFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate']
+        return (self.description['start_time_samples'] - curr) / fS
         
     def read_frame(self, return_ci8=False):
         """
@@ -1895,22 +1894,23 @@ class CORFile(LDPFileBase):
             than to the start of the file
         """
         
+        frame_size = self.description['frame_size']
+        
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
+        curr = None
+        buffered = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+            buffered = len(self.buffer.buffer)
+        if curr is None:
+            frame = cor.read_frame(self.fh)
+            self.fh.seek(-frame_size, 1)
+            curr = frame.payload.timetag
+            
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
-        frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        frameOffset = (int(1.0 * frameOffset / framesPerObs) - buffered) * framesPerObs
+        self.fh.seek(frameOffset*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
@@ -1922,7 +1922,7 @@ class CORFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs * self.description['tint']
+        return (self.description['start_time_samples'] - curr) / fS
         
     def read_frame(self):
         """
-- 
2.43.0


From 54b599f25e99ba0684eaa64e25c8d7e1836665fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 064/111] fix: a data file can be closed more than once

---
 lsl/reader/ldp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index b10043f..c16b96d 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -77,6 +77,10 @@ class _LDPFileRegistry(object):
         self._handlers.add(handler)
         
     def remove(self, handler):
+        if handler not in self._handlers:
+            # Already closed
+            return
+            
         filename = handler.filename
         self._name_mapping[filename].remove(handler)
         if not self._name_mapping[filename]:
-- 
2.43.0


From 5e214082b7915d3efff50c64e0f03eaf36c19558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 065/111] fix: a data file that cannot be used is not kept open

---
 lsl/reader/ldp.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index c16b96d..84b21fd 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -110,28 +110,38 @@ class LDPFileBase(object):
             raise RuntimeError("Must specify either a filename or open file instance")
             
         # Store a valid file handle and mark the object as ready
+        is_ours = True
         if fh is None:
             self.filename = filename
             self.fh = open(filename, 'rb', buffering)
         else:
+            is_ours = False
             self.filename = fh.name
             if not isinstance(fh, SplitFileWrapper):
                 if fh.mode.find('b') == -1:
                     fh.close()
                     fh = open(self.filename, 'rb', buffering)
+                    is_ours = True
             self.fh = fh
         _open_ldp_files.add(self)
         
         # Set whether or not reading errors are fatal
         self.ignore_timetag_errors = ignore_timetag_errors
         
-        # Ready the file
-        self._ready_file()
-        
-        # Describe the contents of the file
-        self.description = {}
-        self._describe_file()
-        
+        try:
+            # Ready the file
+            self._ready_file()
+            
+            # Describe the contents of the file
+            self.description = {}
+            self._describe_file()
+        except:
+            # Do not keep a file that cannot be used open
+            _open_ldp_files.remove(self)
+            if is_ours:
+                self.fh.close()
+            raise
+            
     def __enter__(self):
         return self
         
-- 
2.43.0


From 6f4f7944137480556a6bf43ffccc767f513a972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 066/111] fix: LWADataFile() tries all of the formats on short
 files

---
 lsl/reader/ldp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 84b21fd..b4a427b 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2168,9 +2168,7 @@ def LWADataFile(filename=None, fh=None, ignore_timetag_errors=False, buffering=-
                 for i in range(2):
                     junkFrame = mode.read_frame(fh)
                 foundMode = True
-            except errors.EOFError:
-                break
-            except errors.SyncError:
+            except (errors.EOFError, errors.SyncError):
                 ### Reset for the next mode...
                 fh.seek(0)
         else:
-- 
2.43.0


From b9c52c6f0729cf1c1995fa7475c6a3a2b484f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 067/111] fix: LWADataFile() does not mistake an I/O error for
 a different format

---
 lsl/reader/ldp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index b4a427b..c86cf27 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2141,7 +2141,12 @@ def LWADataFile(filename=None, fh=None, ignore_timetag_errors=False, buffering=-
         if mode in (drspec, tbx, cor):
             try:
                 mfs = mode.get_frame_size(fh)
-            except:
+            except errors.BaseReaderError:
+                mfs = 0
+            except IOError:
+                # This is not a problem with the format
+                raise
+            except Exception:
                 mfs = 0
         else:
             mfs = mode.FRAME_SIZE
-- 
2.43.0


From 95d5a5beac8b11904317085db3241e192d7a8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 068/111] fix: an I/O error while looking for the channels in a
 COR file is reported

---
 lsl/reader/cor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.py b/lsl/reader/cor.py
index 574b8b3..9cc177f 100644
--- a/lsl/reader/cor.py
+++ b/lsl/reader/cor.py
@@ -287,7 +287,7 @@ def get_channel_count(filehandle):
             try:
                 cFrame = read_frame(filehandle)
                 frame_channel_count = cFrame.payload.data.shape[0]
-            except:
+            except (EOFError, SyncError):
                 break
                 
             chan = cFrame.header.first_chan
@@ -329,7 +329,7 @@ def get_first_channel(filehandle, frequency=False, all_frames=False):
                 cFrame = read_frame(filehandle)
                 if not cFrame.is_cor:
                     continue
-            except:
+            except (EOFError, SyncError):
                 break
                 
             if frequency:
-- 
2.43.0


From 1d7377260b5b9ce84f758dd5801f82c860833d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 069/111] fix: a part of a split file that cannot be opened
 does not take the current one away

---
 lsl/reader/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index f84a658..14347a9 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -58,15 +58,17 @@ class SplitFileWrapper(object):
         self.close()
         
     def _open_part(self, index=None):
+        if index is None:
+            index = min([self._idx + 1, self._nfiles-1])
+            
+        # Make sure that the new part is available before giving up the old one
+        fh = open(self._filenames[index], self.mode, self.buffering)
         try:
             self._fh.close()
         except AttributeError:
             pass
-            
-        if index is None:
-            index = min([self._idx + 1, self._nfiles-1])
         self._idx = index
-        self._fh = open(self._filenames[self._idx], self.mode, self.buffering)
+        self._fh = fh
         self._pos = self._offsets[self._idx]
         
     def close(self):
-- 
2.43.0


From caf33d0235ae38b7d2d8a58b8a95db8a782954aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 070/111] fix: seeking before the start of a split file does
 not move it

---
 lsl/reader/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 14347a9..49193c3 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -5,6 +5,7 @@ Python module that contains various helpers for the lsl.reader module.
 """
 
 import os
+import errno
 from bisect import bisect
 
 __version__ = '0.1'
@@ -106,6 +107,9 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
+                
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
-- 
2.43.0


From efb21a11bd5607073400145e34b47bdb4bc988e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 071/111] fix: the position in a split file is right after a
 failed read

---
 lsl/reader/utils.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 49193c3..81e39d7 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -70,25 +70,21 @@ class SplitFileWrapper(object):
             pass
         self._idx = index
         self._fh = fh
-        self._pos = self._offsets[self._idx]
         
     def close(self):
         if not self.closed:
             self.closed = True
             self._fh.close()
             del self._fh
-            del self._pos
             
     def read(self, size):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
         data = self._fh.read(size)
-        self._pos += len(data)
         while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
-            self._pos += len(new_data)
             data += new_data
         return data
         
@@ -100,7 +96,7 @@ class SplitFileWrapper(object):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
-        return self._pos
+        return self._offsets[self._idx] + self._fh.tell()
         
     def seek(self, pos, whence=0):
         if self.closed:
@@ -112,12 +108,11 @@ class SplitFileWrapper(object):
                 
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
-            offset = pos - self._pos
+            offset = pos - self._offsets[self._idx]
             self._fh.seek(offset, 0)
-            self._pos += offset
             
         elif whence == 1:
-            offset = self._pos + pos
+            offset = self.tell() + pos
             self.seek(offset, whence=0)
             
         else:
-- 
2.43.0


From 32f1f16c26bbfbfa5fcd294a75b46e555399e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 072/111] fix: a split file can be read to its end and seek()
 returns the position

---
 lsl/reader/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 81e39d7..d04d61c 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -77,10 +77,13 @@ class SplitFileWrapper(object):
             self._fh.close()
             del self._fh
             
-    def read(self, size):
+    def read(self, size=-1):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
+        if size is None or size < 0:
+            size = max([self._total_size - self.tell(), 0])
+            
         data = self._fh.read(size)
         while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
@@ -110,11 +113,12 @@ class SplitFileWrapper(object):
             self._open_part(idx)
             offset = pos - self._offsets[self._idx]
             self._fh.seek(offset, 0)
+            return pos
             
         elif whence == 1:
             offset = self.tell() + pos
-            self.seek(offset, whence=0)
+            return self.seek(offset, whence=0)
             
         else:
             offset = self._total_size + pos
-            self.seek(offset, whence=0)
+            return self.seek(offset, whence=0)
-- 
2.43.0


From 9ec2c2ce95e11e5da937b62208227e833b6cdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:36 +0000
Subject: [PATCH 073/111] fix: a short read from a part of a split file does
 not skip the rest of it

---
 lsl/reader/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index d04d61c..9803d7c 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -85,9 +85,13 @@ class SplitFileWrapper(object):
             size = max([self._total_size - self.tell(), 0])
             
         data = self._fh.read(size)
-        while len(data) < size and self._idx < self._nfiles-1:
-            self._open_part()
+        while len(data) < size:
             new_data = self._fh.read(size-len(data))
+            if not new_data:
+                # The end of this part
+                if self._idx == self._nfiles-1:
+                    break
+                self._open_part()
             data += new_data
         return data
         
-- 
2.43.0


From 81d709c24c9a5b34e0369ff082d4634f2815b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:22 +0000
Subject: [PATCH 074/111] fix: TBX frame and channel counts do not get stuck at
 the first damaged frame

---
 lsl/reader/tbx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index fc3962e..63e51fa 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -248,15 +248,17 @@ def get_frames_per_obs(filehandle):
         # Build up the list-of-lists that store the index of the first frequency
         # channel in each frame.
         channels = []
-        for i in range(2500):
+        i = 0
+        while i < 2500:
             try:
                 cFrame = read_frame(filehandle)
+                i += 1
                 if not cFrame.is_tbx:
                     continue
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(1, 1)
                 continue
                 
             chan = cFrame.header.first_chan
@@ -304,15 +306,17 @@ def get_channel_count(filehandle):
     
     # Find out how many channels are in each frame
     with FilePositionSaver(filehandle):
-        for i in range(2500):
+        i = 0
+        while i < 2500:
             try:
                 cFrame = read_frame(filehandle)
+                i += 1
                 if not cFrame.is_tbx:
                     continue
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(1, 1)
                 continue
                 
             channel_count = cFrame.header.nchan
-- 
2.43.0


From 9ffbda4e9ae762c0748a49e310dc9a1e43b560e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 075/111] fix: MemoryCache.rename also renames the in-memory
 file

---
 lsl/misc/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index a4e4c65..bca2a82 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -485,6 +485,7 @@ class MemoryCache(object):
         
         try:
             self._cache[new_filename] = self._cache.pop(filename)
+            self._cache[new_filename].name = new_filename
         except KeyError:
             raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), filename)
         finally:
-- 
2.43.0


From 62b711082664665e4fc759a1e37f0d0d67609353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 076/111] fix: USTEC RMS maps cover all of the longitudes

---
 lsl/misc/ionosphere/_ustec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/_ustec.py b/lsl/misc/ionosphere/_ustec.py
index 8d17923..cd18b20 100644
--- a/lsl/misc/ionosphere/_ustec.py
+++ b/lsl/misc/ionosphere/_ustec.py
@@ -178,7 +178,7 @@ def _parse_ustec_individual(filename_or_fh, rmsname_or_fh=None):
         interpFunction = RectBivariateSpline(rlats, rlngs, rdata, kx=1, ky=1)
         rms = data*0.0
         for i in range(lats.shape[0]):
-            for j in range(lats.shape[0]):
+            for j in range(lats.shape[1]):
                 rms[i,j] = interpFunction(lats[i,j], lngs[i,j])[0,0]
     else:
         ## Sadness, no RMS file found...
-- 
2.43.0


From 6cb38992de3e25e132e2959db47d0f0b4779377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 077/111] fix: .Z maps can be converted when the ionosphere
 cache is in memory

---
 lsl/misc/ionosphere/_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 4a4aecc..90fe0cf 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -55,8 +55,7 @@ def _convert_to_gzip(filename):
     
     # Load in the file
     with _CACHE_DIR.open(filename, 'rb') as fh:
-        cached_filename = fh.name
-        uncompressed = subprocess.check_output(['gzip', '-d', '-c', cached_filename])
+        uncompressed = subprocess.check_output(['gzip', '-d', '-c'], input=fh.read())
         
     # Write it back out
     with _CACHE_DIR.open(filename, 'wb') as fh:
-- 
2.43.0


From cc6687d3d41fa137b318785c8df1036b13b19cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 078/111] fix: TEC maps only show up in the ionosphere cache
 once they are complete

---
 lsl/misc/ionosphere/_utils.py | 43 ++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 90fe0cf..c0ddc5a 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -10,7 +10,8 @@ import subprocess
 from io import StringIO
 from urllib.request import Request, urlopen
 from datetime import datetime, timedelta
-from ftplib import FTP_TLS, error_perm as FTP_ERROR_PERM, error_temp as FTP_ERROR_TEMP
+from threading import get_ident
+from ftplib import FTP_TLS, all_errors as FTP_ERRORS
 
 from lsl.common.data_access import download_file
 from lsl.common.mcs import mjdmpm_to_datetime, datetime_to_mjdmpm
@@ -47,6 +48,15 @@ def get_cache_dir():
     return _CACHE_DIR
 
 
+def _temp_name(filename):
+    """
+    Return a name for a temporary file in the cache that is unique to this
+    thread.
+    """
+    
+    return f"{filename}_temp{os.getpid()}_{get_ident()}"
+
+
 def _convert_to_gzip(filename):
     """
     Given a unix compressed .Z file, convert it to a gzip .gz file and update
@@ -108,8 +118,7 @@ def _download_worker_cddis(url, filename):
             _CACHE_DIR.remove(filename)
             return False
 
-    except (IOError, ssl.SSLError, socket.timeout, TimeoutError, EOFError,
-            FTP_ERROR_TEMP, FTP_ERROR_PERM) as e:
+    except (ssl.SSLError, socket.timeout, TimeoutError) + FTP_ERRORS as e:
         ## Network/transfer problem - clean up any partial file and give up
         LSL_LOGGER.warning(f"Failed to download {url}: {str(e)}")
         _CACHE_DIR.remove(filename)
@@ -163,12 +172,30 @@ def download_worker(url, filename):
     Download the URL and save it to a file.
     """
     
-    # Attempt to download the data
-    if url.find('gdc.cddis.eosdis.nasa.gov') != -1:
-        status = _download_worker_cddis(url, filename)
-    else:
-        status = _download_worker_standard(url, filename)
+    # Download to a name that is unique to this thread so that the final name
+    # only ever shows up in the cache once the file is complete
+    tempname = _temp_name(filename)
+    
+    status = False
+    try:
+        # Attempt to download the data
+        if url.find('gdc.cddis.eosdis.nasa.gov') != -1:
+            status = _download_worker_cddis(url, tempname)
+        else:
+            status = _download_worker_standard(url, tempname)
+            
+        if status:
+            _CACHE_DIR.rename(tempname, filename)
+            
+    except (OSError, subprocess.SubprocessError) as e:
+        # Problem saving or converting the file
+        LSL_LOGGER.warning(f"Failed to save {url}: {str(e)}")
+        status = False
         
+    finally:
+        if not status:
+            _CACHE_DIR.remove(tempname)
+            
     return status
 
 
-- 
2.43.0


From 2c4eb903f6e7b51ba3fd393909131c87f34a36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:22 +0000
Subject: [PATCH 079/111] fix: GloTEC maps only show up in the ionosphere cache
 once they are complete

---
 lsl/misc/ionosphere/_glotec.py | 46 ++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/lsl/misc/ionosphere/_glotec.py b/lsl/misc/ionosphere/_glotec.py
index dbe07a1..732f7a7 100644
--- a/lsl/misc/ionosphere/_glotec.py
+++ b/lsl/misc/ionosphere/_glotec.py
@@ -6,7 +6,7 @@ import numpy as np
 from datetime import datetime, timedelta, timezone
 
 from lsl.common.mcs import mjdmpm_to_datetime, datetime_to_mjdmpm
-from lsl.misc.ionosphere._utils import get_cache_dir, download_worker, load_mjd as base_load_mjd
+from lsl.misc.ionosphere._utils import get_cache_dir, download_worker, _temp_name, load_mjd as base_load_mjd
 
 from lsl.config import LSL_CONFIG
 IONO_CONFIG = LSL_CONFIG.view('ionosphere')
@@ -47,27 +47,35 @@ def _download(mjd, type='final'):
     if dateStr < "2025_02_24":
         raise ValueError("Requested MJD is before the GloTEC start date of February 24, 2025")
         
-    # Attempt to download the data
-    status = download_worker('%s/%04i/%02i/%s' % (IONO_CONFIG.get('glotec_url'), year, month, filename), filename)
+    # Attempt to download the data to a tarball that only this thread knows about
+    tarname = _temp_name(filename)
+    status = download_worker('%s/%04i/%02i/%s' % (IONO_CONFIG.get('glotec_url'), year, month, filename), tarname)
     if not status and IONO_CONFIG.get('glotec_mirror') is not None:
-        status = download_worker('%s/%04i/%02i/%s' % (IONO_CONFIG.get('glotec_mirror'), year, month, filename), filename)
+        status = download_worker('%s/%04i/%02i/%s' % (IONO_CONFIG.get('glotec_mirror'), year, month, filename), tarname)
         
     if status:
-        # Pull out the .nc file that we need
-        with _CACHE_DIR.open(filename, 'rb') as fh:
-            with tarfile.open(fileobj=fh, mode='r:*') as tf:
-                h5name = FILENAME_TEMPLATE % dateStr
-                h5name = os.path.join("glotec_%s" % dateStr, h5name)
-                ti = tf.extractfile(h5name)
-                if ti:
-                    with _CACHE_DIR.open(os.path.basename(h5name), 'wb') as hh:
-                        hh.write(ti.read())
-                else:
-                    status = False
-                    
-        # Cleanup the full tarball we've downloaded
-        _CACHE_DIR.remove(filename)
-        
+        h5name = FILENAME_TEMPLATE % dateStr
+        tempname = _temp_name(h5name)
+        try:
+            # Pull out the .nc file that we need
+            with _CACHE_DIR.open(tarname, 'rb') as fh:
+                with tarfile.open(fileobj=fh, mode='r:*') as tf:
+                    ti = tf.extractfile(os.path.join("glotec_%s" % dateStr, h5name))
+                    if ti:
+                        with _CACHE_DIR.open(tempname, 'wb') as hh:
+                            hh.write(ti.read())
+                    else:
+                        status = False
+                        
+            # Put it in place now that it is complete
+            if status:
+                _CACHE_DIR.rename(tempname, h5name)
+                
+        finally:
+            # Cleanup the full tarball we've downloaded and anything left over
+            _CACHE_DIR.remove(tarname)
+            _CACHE_DIR.remove(tempname)
+            
     return status
 
 
-- 
2.43.0


From 1c06c7f1217c6e76fdc6b296f19d4aa37be0783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:25 +0000
Subject: [PATCH 080/111] fix: metadata tarballs are not shared between threads
 or with what they replaced

---
 lsl/common/_metabundle_utils.py | 22 ++++++++++++++++------
 lsl/common/metabundle.py        |  8 ++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..9de8952 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -8,7 +8,7 @@ import shutil
 import tarfile
 import tempfile
 
-from functools import lru_cache
+from threading import local
 
 from lsl.common.mcs import MIB
 
@@ -23,12 +23,22 @@ __all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
 FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(?P<obsID>\d+)(_(?P<obsOutcome>\d+))?)?.*\..*')
 
 
-@lru_cache(maxsize=1)
+# Most recently used tarball.  This is kept per thread since a TarFile, which has
+# a single file position, cannot be shared between threads.
+_LAST_TARBALL = local()
+
+
 def _open_tarball(tarname):
-    return tarfile.open(tarname, mode='r:*')
+    # What the name refers to can change so only reuse the last tarball if it is
+    # still the same file
+    st = os.stat(tarname)
+    key = (os.path.abspath(tarname), st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns)
+    if getattr(_LAST_TARBALL, 'key', None) != key:
+        _LAST_TARBALL.tf = tarfile.open(tarname, mode='r:*')
+        _LAST_TARBALL.key = key
+    return _LAST_TARBALL.tf
 
 
-@lru_cache(maxsize=1)
 def _get_members(tarname):
     tf = _open_tarball(tarname)
     return tf.getmembers()
@@ -108,7 +118,7 @@ def get_session_metadata(tarname):
         try:
             ti = tf.getmember('%s_metadata.txt' % basename)
         except KeyError:
-            for ti in _get_members(tarname):
+            for ti in tf.getmembers():
                 if ti.name[-13:] == '_metadata.txt':
                     break
         for member in [ti,]:
@@ -205,7 +215,7 @@ def get_asp_configuration(tarname, which='beginning'):
         # Find the .pag file and extract it
         tf = _open_tarball(tarname)
         mibs = []
-        for ti in _get_members(tarname):
+        for ti in tf.getmembers():
             if ti.name.find('_ASP_%s' % which[:5]) != -1:
                 if ti.name[-4:] in ('.pag', '.gdb'):
                     mibs.append(ti)
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..c7834e6 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -317,7 +317,7 @@ def get_session_spec(tarname):
         try:
             ti = tf.getmember('%s.ses' % basename)
         except KeyError:
-            for ti in _get_members(tarname):
+            for ti in tf.getmembers():
                 if ti.name[-4:] == '.ses':
                     break
         for member in [ti,]:
@@ -348,7 +348,7 @@ def get_observation_spec(tarname, obs_id=None):
         # Find all of the .obs files and extract them
         tf = _open_tarball(tarname)
         tis = []
-        for ti in _get_members(tarname):
+        for ti in tf.getmembers():
             if ti.name[-4:] == '.obs':
                 tis.append(ti)
         for member in tis:
@@ -406,7 +406,7 @@ def get_sdf(tarname):
     with managed_mkdtemp(prefix='metadata-bundle-') as tempDir:
         # Find the right .txt file (not the metadata one) and extract it
         tf = _open_tarball(tarname)
-        for ti in _get_members(tarname):
+        for ti in tf.getmembers():
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
         for member in [ti,]:
@@ -434,7 +434,7 @@ def get_command_script(tarname):
     with managed_mkdtemp(prefix='metadata-bundle-') as tempDir:
         # Find the .cs file and extract it
         tf = _open_tarball(tarname)
-        for ti in _get_members(tarname):
+        for ti in tf.getmembers():
             if ti.name[-3:] == '.cs':
                 break
         for member in [ti,]:
-- 
2.43.0


From 342de1eefd8f624b07c8fc6f604feacf8d084b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 081/111] fix: a part that a metadata tarball lacks is not read
 from another file

---
 lsl/common/_metabundle_utils.py | 2 ++
 lsl/common/metabundle.py        | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 9de8952..6b6876c 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -121,6 +121,8 @@ def get_session_metadata(tarname):
             for ti in tf.getmembers():
                 if ti.name[-13:] == '_metadata.txt':
                     break
+            else:
+                raise RuntimeError(f"No session meta-data file found in {tarname}")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index c7834e6..c22fb00 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -320,6 +320,8 @@ def get_session_spec(tarname):
             for ti in tf.getmembers():
                 if ti.name[-4:] == '.ses':
                     break
+            else:
+                raise RuntimeError(f"No session specification file found in {tarname}")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
@@ -409,6 +411,8 @@ def get_sdf(tarname):
         for ti in tf.getmembers():
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
+        else:
+            raise RuntimeError(f"No session definition file found in {tarname}")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
@@ -437,6 +441,8 @@ def get_command_script(tarname):
         for ti in tf.getmembers():
             if ti.name[-3:] == '.cs':
                 break
+        else:
+            raise RuntimeError(f"No command script found in {tarname}")
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
-- 
2.43.0


From 0edc45eae9d75efa22f3f7b97e7f52310797a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 082/111] fix: cut off session specifications and commands are
 not filled up with zeros

---
 lsl/common/metabundle.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index c22fb00..b26d91c 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -8,6 +8,7 @@ import os
 import re
 import copy
 import glob
+import ctypes
 from functools import lru_cache
 from datetime import datetime, timedelta
 
@@ -35,7 +36,8 @@ def read_ses_file(filename):
     # Read the SES
     with open(filename, 'rb') as fh:
         bses = parse_c_struct(SSF_STRUCT, endianness='little')
-        fh.readinto(bses)
+        if fh.readinto(bses) != ctypes.sizeof(bses):
+            raise RuntimeError("Session specification file is too short")
         
         ## LWA-1 check
         #if bses.FORMAT_VERSION not in (6,):
@@ -149,8 +151,8 @@ def read_cs_file(filename):
             """, endianness='little')
             
             try:
-                fh.readinto(action)
-                
+                if fh.readinto(action) != ctypes.sizeof(action):
+                    break
                 if action.tv[0] == 0:
                     break
                     
@@ -161,7 +163,8 @@ def read_cs_file(filename):
                     char data[%i];
                     """ % action.len, endianness='little')
 
-                    fh.readinto(data)
+                    if fh.readinto(data) != ctypes.sizeof(data):
+                        break
                     data = data.data
                 else:
                     data = None
-- 
2.43.0


From 4982dccd758fc035079d14fbf2c60a6fce2ffb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:42 +0000
Subject: [PATCH 083/111] fix: metadata tarballs can be read again after an I/O
 error

---
 lsl/common/_metabundle_utils.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 6b6876c..1bcface 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -28,13 +28,34 @@ FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(
 _LAST_TARBALL = local()
 
 
+class _TarFile(tarfile.TarFile):
+    """
+    TarFile that is not reused after there has been a problem with reading it
+    since compressed streams do not recover from that.
+    """
+    
+    def next(self):
+        try:
+            return tarfile.TarFile.next(self)
+        except Exception:
+            _LAST_TARBALL.key = None
+            raise
+            
+    def extract(self, *args, **kwds):
+        try:
+            return tarfile.TarFile.extract(self, *args, **kwds)
+        except Exception:
+            _LAST_TARBALL.key = None
+            raise
+
+
 def _open_tarball(tarname):
     # What the name refers to can change so only reuse the last tarball if it is
     # still the same file
     st = os.stat(tarname)
     key = (os.path.abspath(tarname), st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns)
     if getattr(_LAST_TARBALL, 'key', None) != key:
-        _LAST_TARBALL.tf = tarfile.open(tarname, mode='r:*')
+        _LAST_TARBALL.tf = _TarFile.open(tarname, mode='r:*')
         _LAST_TARBALL.key = key
     return _LAST_TARBALL.tf
 
-- 
2.43.0


From 4ea4dcebc7cd606a143355a41c0a434e2efe2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:18 +0000
Subject: [PATCH 084/111] fix: I/O errors do not silently shorten command
 scripts

---
 lsl/common/metabundle.py | 57 +++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index b26d91c..74e2374 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -150,38 +150,35 @@ def read_cs_file(filename):
             int len;
             """, endianness='little')
             
-            try:
-                if fh.readinto(action) != ctypes.sizeof(action):
-                    break
-                if action.tv[0] == 0:
+            if fh.readinto(action) != ctypes.sizeof(action):
+                break
+            if action.tv[0] == 0:
+                break
+                
+            if action.len > 0:
+                if action.len > LWA_CMD_STRUCT_DATA_FIELD_LENGTH:
+                    raise IOError(f"Invalid command data length ({action.len} > {LWA_CMD_STRUCT_DATA_FIELD_LENGTH})")
+                data = parse_c_struct("""
+                char data[%i];
+                """ % action.len, endianness='little')
+
+                if fh.readinto(data) != ctypes.sizeof(data):
                     break
-                    
-                if action.len > 0:
-                    if action.len > LWA_CMD_STRUCT_DATA_FIELD_LENGTH:
-                        raise IOError(f"Invalid command data length ({action.len} > {LWA_CMD_STRUCT_DATA_FIELD_LENGTH})")
-                    data = parse_c_struct("""
-                    char data[%i];
-                    """ % action.len, endianness='little')
-
-                    if fh.readinto(data) != ctypes.sizeof(data):
-                        break
-                    data = data.data
-                else:
-                    data = None
+                data = data.data
+            else:
+                data = None
+            
+            actionPrime = {'time': action.tv[0] + action.tv[1]/1.0e6, 
+                           'ignore_time': True if action.bASAP else False, 
+                           'subsystem_id': SubsystemID(action.sid),
+                           'command_id': CommandID(action.cid), 
+                           'command_length': action.len, 'data': data}
+            if actionPrime['subsystem_id'] == SubsystemID.DP:
+                raise RuntimeError("Command script references DP not NDP")
+            if actionPrime['subsystem_id'] == SubsystemID.ADP:
+                raise RuntimeError("Command script references ADP not NDP")
                 
-                actionPrime = {'time': action.tv[0] + action.tv[1]/1.0e6, 
-                               'ignore_time': True if action.bASAP else False, 
-                               'subsystem_id': SubsystemID(action.sid),
-                               'command_id': CommandID(action.cid), 
-                               'command_length': action.len, 'data': data}
-                if actionPrime['subsystem_id'] == SubsystemID.DP:
-                    raise RuntimeError("Command script references DP not NDP")
-                if actionPrime['subsystem_id'] == SubsystemID.ADP:
-                    raise RuntimeError("Command script references ADP not NDP")
-                    
-                commands.append( actionPrime )
-            except IOError:
-                break
+            commands.append( actionPrime )
                 
     return commands
 
-- 
2.43.0


From 4bf81c2f928cd19ff0f5e08ab64c79348479e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 085/111] fix: writers put visibilities on the wrong baselines
 when data sets list their baselines in different orders

The sort order and the baseline numbers of the first data set were reused for
every later one with the same number of visibilities (and the antenna lists of
a measurement set for all later ones).
---
 lsl/writer/fitsidi.py        | 31 +++++++++----------------------
 lsl/writer/measurementset.py | 30 +++++++-----------------------
 lsl/writer/uvfits.py         | 31 +++++++++----------------------
 3 files changed, 25 insertions(+), 67 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..2b26cef 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1060,16 +1060,8 @@ class Idi(WriterBase):
                 break
                 
             # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
-                order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
-                try:
-                    del baselineMapped
-                except NameError:
-                    pass
-                    
+            order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
+            
             # Deal with defininig the values of the new data set
             if dataSet.pol == self.stokes[0]:
                 ## Figure out the new date/time for the observation
@@ -1112,18 +1104,13 @@ class Idi(WriterBase):
                 
                 ## Populate the metadata
                 ### Add in the new baselines
-                try:
-                    blineList.extend( baselineMapped )
-                except NameError:
-                    baselineMapped = []
-                    for o in order:
-                        antenna1, antenna2 = dataSet.baselines[o]
-                        if mapper is None:
-                            stand1, stand2 = antenna1.stand.id, antenna2.stand.id
-                        else:
-                            stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
-                        baselineMapped.append( merge_baseline(stand1, stand2, shift=self._PACKING_BIT_SHIFT) ) 
-                    blineList.extend( baselineMapped )
+                for o in order:
+                    antenna1, antenna2 = dataSet.baselines[o]
+                    if mapper is None:
+                        stand1, stand2 = antenna1.stand.id, antenna2.stand.id
+                    else:
+                        stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
+                    blineList.append( merge_baseline(stand1, stand2, shift=self._PACKING_BIT_SHIFT) )
                     
                 ### Add in the new u, v, and w coordinates
                 uList.extend( uvwCoords[order,0] )
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..1c9801e 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -798,16 +798,8 @@ try:
             _sourceTable = []
             for dataSet in self.data:
                 # Sort the data by packed baseline
-                try:
-                    if len(dataSet.visibilities) != len(order):
-                        raise NameError
-                except NameError:
-                    order = dataSet.argsort(mapper=mapper, shift=16)
-                    try:
-                        del baselineMapped
-                    except NameError:
-                        pass
-                        
+                order = dataSet.argsort(mapper=mapper, shift=16)
+                
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -849,19 +841,11 @@ try:
                     
                     ## Populate the metadata
                     ### Add in the baselines
-                    try:
-                        ant1List
-                        ant2List
-                    except NameError:
-                        a1List, a2List = [], []
-                        for o in order:
-                            antenna1, antenna2 = dataSet.baselines[o]
-                            a1 = mapper.index(antenna1.stand.id)
-                            a2 = mapper.index(antenna2.stand.id)
-                            a1List.append( a1 )
-                            a2List.append( a2 )
-                        ant1List = a1List
-                        ant2List = a2List
+                    ant1List, ant2List = [], []
+                    for o in order:
+                        antenna1, antenna2 = dataSet.baselines[o]
+                        ant1List.append( mapper.index(antenna1.stand.id) )
+                        ant2List.append( mapper.index(antenna2.stand.id) )
                         
                     ### Add in the new u, v, and w coordinates
                     uvwList = uvwCoords[order,:]
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..6cae181 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -257,16 +257,8 @@ class Uv(WriterBase):
         sourceList = []
         for dataSet in self.data:
             # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
-                order = dataSet.argsort(mapper=mapper)
-                try:
-                    del baselineMapped
-                except NameError:
-                    pass
-                    
+            order = dataSet.argsort(mapper=mapper)
+            
             # Deal with defininig the values of the new data set
             if dataSet.pol == self.stokes[0]:
                 ## Figure out the new date/time for the observation
@@ -314,18 +306,13 @@ class Uv(WriterBase):
                 
                 ## Populate the metadata
                 ### Add in the new baselines
-                try:
-                    blineList.extend( baselineMapped )
-                except NameError:
-                    baselineMapped = []
-                    for o in order:
-                        antenna1, antenna2 = dataSet.baselines[o]
-                        if mapper is None:
-                            stand1, stand2 = antenna1.stand.id, antenna2.stand.id
-                        else:
-                            stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
-                        baselineMapped.append( merge_baseline(stand1, stand2) ) 
-                    blineList.extend( baselineMapped )
+                for o in order:
+                    antenna1, antenna2 = dataSet.baselines[o]
+                    if mapper is None:
+                        stand1, stand2 = antenna1.stand.id, antenna2.stand.id
+                    else:
+                        stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
+                    blineList.append( merge_baseline(stand1, stand2) )
                     
                 ### Add in the new u, v, and w coordinates
                 uList.extend( uvwCoords[order,0] )
-- 
2.43.0


From c713eab8c6fc5a76694a2c6a53070311ce4561c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 086/111] fix: writers mix up integrations that lack the first
 or the last polarization

An integration began with the data set of the first polarization of the file
and was saved with the last one, so that one without them was dropped, merged
with the integration before it, or left the columns of the table out of step.
---
 lsl/writer/fitsidi.py        | 23 ++++++++++++++++++++---
 lsl/writer/measurementset.py |  7 ++++---
 lsl/writer/sdfits.py         |  7 ++++---
 lsl/writer/uvfits.py         |  7 ++++---
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 2b26cef..8380f1f 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -363,6 +363,22 @@ class WriterBase(object):
             
         self.data.append( self._UVData(obsTime, intTime, baselines, visibilities, weights=weights, pol=numericPol, source=source) )
         
+    def _mark_integrations(self):
+        """
+        Mark the first and the last data set of every integration, i.e., of the
+        polarizations with the same time, in the sorted list of data sets.
+        """
+        
+        pols = []
+        for i,dataSet in enumerate(self.data):
+            dataSet.first = i == 0 or dataSet.obsTime != self.data[i-1].obsTime or dataSet.pol in pols
+            if dataSet.first:
+                pols = []
+                if i > 0:
+                    self.data[i-1].last = True
+            pols.append( dataSet.pol )
+            dataSet.last = (i == len(self.data) - 1)
+            
     def write(self):
         """
         Fill in the file will all of the required supporting metadata.
@@ -507,6 +523,7 @@ class Idi(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._mark_integrations()
         
         self._write_primary_hdu()
         self._write_geometry_hdu()
@@ -879,7 +896,7 @@ class Idi(WriterBase):
         decPoList = []
         sourceID = 0
         for dataSet in self.data:
-            if dataSet.pol == self.stokes[0]:
+            if dataSet.first:
                 date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
                 
                 try:
@@ -1063,7 +1080,7 @@ class Idi(WriterBase):
             order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
             
             # Deal with defininig the values of the new data set
-            if dataSet.pol == self.stokes[0]:
+            if dataSet.first:
                 ## Figure out the new date/time for the observation
                 utc = astro.taimjd_to_utcjd(dataSet.obsTime)
                 date = AstroTime(utc, format='jd', scale='utc')
@@ -1144,7 +1161,7 @@ class Idi(WriterBase):
                 weights[:,self.stokes.index(dataSet.pol)::self.nStokes] = dataSet.weights[order,:]
                 
             # Deal with saving the data once all of the polarizations have been added to 'matrix'
-            if dataSet.pol == self.stokes[-1]:
+            if dataSet.last:
                 mList.append( matrix.view(np.float32)*1.0 )
                 fList.append( weights*1.0 )
                 
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 1c9801e..bba109a 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -210,6 +210,7 @@ try:
                 
             # Sort the data set
             self.data.sort()
+            self._mark_integrations()
             
             # Write the tables
             self._write_main_table()
@@ -477,7 +478,7 @@ try:
             posList = []
             sourceID = 0
             for dataSet in self.data:
-                if dataSet.pol == self.stokes[0]:
+                if dataSet.first:
                     date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
                     
                     try:
@@ -801,7 +802,7 @@ try:
                 order = dataSet.argsort(mapper=mapper, shift=16)
                 
                 # Deal with defininig the values of the new data set
-                if dataSet.pol == self.stokes[0]:
+                if dataSet.first:
                     ## Figure out the new date/time for the observation
                     utc = astro.taimjd_to_utcjd(dataSet.obsTime)
                     date = AstroTime(utc, format='jd', scale='utc')
@@ -871,7 +872,7 @@ try:
                 matrix[:,self.stokes.index(dataSet.pol),:] = dataSet.visibilities[order,:]
                 
                 # Deal with saving the data once all of the polarizations have been added to 'matrix'
-                if dataSet.pol == self.stokes[-1]:
+                if dataSet.last:
                     nBL = uvwList.shape[0]
                     tb.addrows(nBand*nBL)
                     
diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 0de1136..60e26b5 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -172,6 +172,7 @@ class Sd(WriterBase):
                 
         # Sort the data set
         self.data.sort(key=cmp_to_key(__sortData))
+        self._mark_integrations()
         
         self._write_primary_hdu()
         self._write_singledish_hdu()
@@ -239,7 +240,7 @@ class Sd(WriterBase):
         scanCount = 1
         warned_keymismatch = False
         for i,dataSet in enumerate(self.data):
-            if dataSet.pol == self.stokes[0]:
+            if dataSet.first:
                 tempMList = {}
                 for stokes in self.stokes:
                     tempMList[stokes] = {}
@@ -252,7 +253,7 @@ class Sd(WriterBase):
                 # Load the data into a matrix
                 tempMList[dataSet.pol][b] = specData.ravel()
                 
-                if dataSet.pol == self.stokes[0]:
+                if dataSet.first:
                     # Observation date and time
                     utc = astro.taimjd_to_utcjd(dataSet.obsTime)
                     date = astro.get_date(utc)
@@ -268,7 +269,7 @@ class Sd(WriterBase):
                     beamList.append(b.id)
                     rawList.append(b)
             
-            if dataSet.pol == self.stokes[-1]:
+            if dataSet.last:
                 for b in rawList:
                     matrix = np.zeros((self.nStokes,self.nChan), dtype=np.float32)
                     for p in range(self.nStokes):
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 6cae181..370fe64 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -193,6 +193,7 @@ class Uv(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._mark_integrations()
         
         self._write_aipssu_hdu(dummy=True)
         self._write_primary_hdu()
@@ -260,7 +261,7 @@ class Uv(WriterBase):
             order = dataSet.argsort(mapper=mapper)
             
             # Deal with defininig the values of the new data set
-            if dataSet.pol == self.stokes[0]:
+            if dataSet.first:
                 ## Figure out the new date/time for the observation
                 utc = astro.taimjd_to_utcjd(dataSet.obsTime)
                 date = AstroTime(utc, format='jd', scale='utc')
@@ -341,7 +342,7 @@ class Uv(WriterBase):
             matrix[:,0,0,:,self.stokes.index(dataSet.pol),1] = dataSet.visibilities[order,:].imag
             
             # Deal with saving the data once all of the polarizations have been added to 'matrix'
-            if dataSet.pol == self.stokes[-1]:
+            if dataSet.last:
                 mList.append( matrix*1.0 )
                 
         nBaseline = len(blineList)
@@ -670,7 +671,7 @@ class Uv(WriterBase):
         decPoList = []
         sourceID = 0
         for dataSet in self.data:
-            if dataSet.pol == self.stokes[0]:
+            if dataSet.first:
                 date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
                 
                 try:
-- 
2.43.0


From 0a82ad03cd58d5456b7dcb9d216eecad237dd05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 087/111] fix: SDFITS writer interleaves the polarizations of
 integrations closer than 26 ms

The sort key added the polarization code to the time in units of 8.64 ms.
---
 lsl/writer/sdfits.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 60e26b5..170c49d 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -17,7 +17,6 @@ import numpy as np
 from astropy.time import Time as AstroTime
 from astropy.io import fits as astrofits
 from datetime import datetime
-from functools import cmp_to_key
 
 from lsl import astro
 from lsl.misc import telemetry
@@ -154,24 +153,8 @@ class Sd(WriterBase):
         Fill in the SDFITS file will all of the tables in the correct order.
         """
         
-        def __sortData(x, y):
-            """
-            Function to sort the self.data list in order of time and then 
-            polarization code.
-            """
-            
-            xID = x.obsTime*10000000 + abs(x.pol)
-            yID = y.obsTime*10000000 + abs(y.pol)
-            
-            if xID > yID:
-                return 1
-            elif xID < yID:
-                return -1
-            else:
-                return 0
-                
         # Sort the data set
-        self.data.sort(key=cmp_to_key(__sortData))
+        self.data.sort(key=lambda x: (x.obsTime, abs(x.pol)))
         self._mark_integrations()
         
         self._write_primary_hdu()
-- 
2.43.0


From d62f0f3493f6eaf094f6e4bcbe1bcb681fd0d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 088/111] fix: a writer used as a context manager leaves its
 file open when write() fails

---
 lsl/writer/fitsidi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8380f1f..f6f8986 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -249,8 +249,10 @@ class WriterBase(object):
         return self
         
     def __exit__(self, type, value, tb):
-        self.write()
-        self.close()
+        try:
+            self.write()
+        finally:
+            self.close()
         
     def set_stokes(self, polList):
         """
-- 
2.43.0


From 5d748741ae3e175e8156f7e9fef3cb6ad561e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:24 +0000
Subject: [PATCH 089/111] fix: UVFITS dates are whatever was in memory

GroupData does not store the values of a parameter with a zero point that are
not physical values, so the DATE parameter was never filled in.
---
 lsl/writer/uvfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 370fe64..b9b7e7a 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -354,10 +354,14 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
         
+        # NOTE:  The dates are already relative to utcR.  Passing utcR in as a value
+        #        for 'parbzeros' would keep astropy from storing them.
+        primary.header.set('PZERO4', utcR, after='PTYPE4')
+        
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
         primary.header['OBJECT'] = 'BINARYTB'
-- 
2.43.0


From 7a9a3664ad39378b33c9998afd34e37d85b8cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 090/111] fix: FITS writers label polarizations wrong when
 their codes are not consecutive

---
 lsl/writer/fitsidi.py | 19 +++++++++++++++----
 lsl/writer/sdfits.py  |  5 +----
 lsl/writer/uvfits.py  |  5 +----
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index f6f8986..ca1ea90 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -275,6 +275,20 @@ class WriterBase(object):
             
         self.nStokes = len(self.stokes)
         
+    def _get_stokes_step(self):
+        """
+        Return the increment between the codes of consecutive polarizations,
+        for the formats that describe the polarization axis with a starting
+        value and an increment.
+        """
+        
+        steps = set(np.diff(self.stokes))
+        if len(steps) > 1:
+            raise RuntimeError("Polarizations are not equally spaced and cannot be described in this format")
+        if len(steps) == 0:
+            return -1.0 if self.stokes[0] < 0 else 1.0
+        return float(steps.pop())
+        
     def set_frequency(self, freq):
         """
         Given a numpy array of frequencies, set the relevant common observation
@@ -1232,10 +1246,7 @@ class Idi(WriterBase):
         
         uv.header['MAXIS2'] = (self.nStokes, 'number of pixels in STOKES axis')
         uv.header['CTYPE2'] = ('STOKES', 'axis 2 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
-            uv.header['CDELT2'] = -1.0
-        else:
-            uv.header['CDELT2'] = 1.0
+        uv.header['CDELT2'] = self._get_stokes_step()
         uv.header['CRPIX2'] = 1.0
         uv.header['CRVAL2'] = float(self.stokes[0])
         
diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 170c49d..1712245 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -448,10 +448,7 @@ class Sd(WriterBase):
         sd.header['CRVAL1'] = self.refVal
         ### Stokes
         sd.header['CTYPE2'] = ('STOKES', 'axis 2 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
-            sd.header['CDELT2'] = -1.0
-        else:
-            sd.header['CDELT2'] = 1.0
+        sd.header['CDELT2'] = self._get_stokes_step()
         sd.header['CRPIX2'] = 1.0
         sd.header['CRVAL2'] = float(self.stokes[0])
         ### RA
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index b9b7e7a..f9f1374 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -385,10 +385,7 @@ class Uv(WriterBase):
         primary.header['CRVAL2'] = 1.0
         
         primary.header['CTYPE3'] = ('STOKES', 'axis 3 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
-            primary.header['CDELT3'] = -1.0
-        else:
-            primary.header['CDELT3'] = 1.0
+        primary.header['CDELT3'] = self._get_stokes_step()
         primary.header['CRPIX3'] = 1.0
         primary.header['CRVAL3'] = float(self.stokes[0])
         
-- 
2.43.0


From 4980e1511d1266f8d8cf7c15a3f66895f5c88f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 091/111] fix: measurement sets of only a few antennas cannot
 be read

---
 lsl/imaging/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..ee7ac67 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -933,9 +933,15 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            try:
+                sLat = robust.mean(lat)
+                sLng = robust.mean(lng)
+                sElv = robust.mean(elv)
+            except ValueError:
+                ### Too few antennas for a robust estimate
+                sLat = np.mean(lat)
+                sLng = np.mean(lng)
+                sElv = np.mean(elv)
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From 380206decc76bbc25f8a5713fe686354b4f119ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 092/111] fix: visibilities cannot be appended to a
 PolarizationDataSet that already holds some

---
 lsl/imaging/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..fc6026d 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -64,13 +64,13 @@ class PolarizationDataSet(object):
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
             self.weight = weight
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
             self.mask = mask
             
@@ -79,13 +79,13 @@ class PolarizationDataSet(object):
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
-- 
2.43.0


From 81442c0679edf0de8dfd12ae6cafa2b00e12e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 093/111] fix: VisibilityData.get_antenna_subset takes stand
 numbers for indices

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index fc6026d..f3715f1 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -619,6 +619,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From bace8eeb97e1a148651b2d628db8f605aa9cd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:31 +0000
Subject: [PATCH 094/111] fix: measurement sets with more than two spectral
 windows cannot be read

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index ee7ac67..5057110 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1107,7 +1107,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From afd3f8dbf1aa76d035caf7e6a31eb559432b90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 095/111] fix: VirtualWriter computes (u,v,w) for an hour angle
 15 times too large

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..7164345 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -109,7 +109,7 @@ class VirtualWriter(WriterBase):
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).deg
+        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).hourangle
         dec = it.spherical.lat.deg
         
         # (u,v,w) coordinates
-- 
2.43.0


From 40787181c99cc9ed45f3ba0ea1440a94ef665636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 096/111] fix: data sets of a VirtualWriter lack the
 integration time

---
 lsl/writer/virtual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 7164345..708c2a1 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -176,7 +176,8 @@ class VirtualWriter(WriterBase):
         pds = PolarizationDataSet(pol, visibilities, weight=weights)
         vds = VisibilityDataSet(obsJD, self.freq, numericBaselines, uvw,
                                 antennaarray=self.antenna_array,
-                                phase_center=phase_center)
+                                phase_center=phase_center,
+                                int_time=intTime)
         vds.append(pds)
         return vds
         
-- 
2.43.0


From 27878c47980f43b9619944ec5e4a253adeec6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 097/111] fix: changing a data set obtained from a
 VirtualWriter changes what it returns later

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 708c2a1..e177227 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -227,7 +227,7 @@ class VirtualWriter(WriterBase):
         except TypeError:
             sets = range(sets, sets+1)
         for set in sets:
-            dataSets.append(self.visibility_data[set-1])
+            dataSets.append(self.visibility_data[set-1].copy())
             
         # Sort
         if sort:
-- 
2.43.0


From c1ee3cedd04c93f7b61b0432f31843e4b1a84ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 098/111] fix: LSL cannot be imported when standard input is
 closed

---
 lsl/misc/telemetry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index f3b4aae..261787d 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -82,7 +82,7 @@ class _TelemetryClient(object):
         self._session_tag = os.getenv('LSL_TELEMETRY_TAG', 'None')
         if self._session_tag == 'None':
             try:
-                if sys.__stdin__.isatty():
+                if sys.__stdin__ is not None and sys.__stdin__.isatty():
                     self._session_tag = 'interactive'
             except ValueError:
                 pass
-- 
2.43.0


From 2273fc8b5e8bb9ea240d16cb043ec22a6f57a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 099/111] fix: get_sdf returns the beamformer minimum delay
 file as the session definition file

---
 lsl/common/metabundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 74e2374..ae4f5cd 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -409,7 +409,8 @@ def get_sdf(tarname):
         # Find the right .txt file (not the metadata one) and extract it
         tf = _open_tarball(tarname)
         for ti in tf.getmembers():
-            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
+            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 \
+               and ti.name != 'mindelay.txt':
                 break
         else:
             raise RuntimeError(f"No session definition file found in {tarname}")
-- 
2.43.0


From fdc96ab98490ba2277ce5c9b6cb7efae347eece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 100/111] fix: short SDM and SSMIF files are filled up with
 zeros

---
 lsl/common/sdm.py      | 19 +++++++++++++++----
 lsl/common/stations.py |  7 +++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..4c74421 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -3,6 +3,7 @@ Module for reading in and interpreting binary-packed Station Dynamic MIB (SDM)
 files (as defined in MCS0031, v5).
 """
 
+import ctypes
 from datetime import datetime, timezone
 
 from lsl.common.mcs import SummaryCode, parse_c_struct, flat_to_multi, \
@@ -16,6 +17,16 @@ __version__ = '0.1'
 __all__ = ['SubSystemStatus', 'SubSubSystemStatus', 'StationSettings', 'SDM', 'parse_sdm']
 
 
+def _read_struct(fh, cStruct):
+    """
+    Fill a C structure from an open file handle, making sure that all of it is
+    there.
+    """
+    
+    if fh.readinto(cStruct) != ctypes.sizeof(cStruct):
+        raise RuntimeError("SDM file is too short")
+
+
 class SubSystemStatus(object):
     """
     Python object that holds the status for a particular subsystem in a SDM 
@@ -40,7 +51,7 @@ class SubSystemStatus(object):
         ## They are the same size so this really doesn't matter
         sssStruct = parse_c_struct(SUBSYSTEM_STATUS_STRUCT, endianness='little')
         
-        fh.readinto(sssStruct)
+        _read_struct(fh, sssStruct)
         
         self.summary = sssStruct.summary
         self.info = sssStruct.info
@@ -99,7 +110,7 @@ class SubSubSystemStatus(object):
         ssssStruct = parse_c_struct(SUBSUBSYSTEM_STATUS_STRUCT, endianness='little', overrides=overrides)
         
         # Read
-        fh.readinto(ssssStruct)
+        _read_struct(fh, ssssStruct)
         
         # Parse and save
         self.fee = list(ssssStruct.eFEEStat)
@@ -165,7 +176,7 @@ class StationSettings(object):
         ssStruct = parse_c_struct(STATION_SETTINGS_STRUCT, endianness='little')
         
         # Read
-        fh.readinto(ssStruct)
+        _read_struct(fh, ssStruct)
         
         # Parse and save
         ## Common
@@ -289,7 +300,7 @@ def parse_sdm(filename):
         int ndpo_stat[ME_MAX_NDR];     /* corresponds to sc.DPO[i].iStat, but dynamically updated */
         """, endianness='little')
         
-        fh.readinto(ndpsStruct)
+        _read_struct(fh, ndpsStruct)
         
         dynamic.ant_status  = flat_to_multi(ndpsStruct.ant_stat,  *ndpsStruct.dims['ant_stat'])
         dynamic.ndpo_status = flat_to_multi(ndpsStruct.ndpo_stat, *ndpsStruct.dims['ndpo_stat'])
diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..bbde82a 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -6,6 +6,7 @@ import os
 import re
 import numpy as np
 import ephem
+import ctypes
 import struct
 import weakref
 import importlib.util
@@ -1610,7 +1611,8 @@ def _parse_ssmif_binary(filename_or_fh):
         bssmif = mcs_mod.parse_c_struct(mcs_mod.SSMIF_STRUCT, char_mode='int', endianness='little')
         bsettings = mcs_mod.parse_c_struct(mcs_mod.STATION_SETTINGS_STRUCT, endianness='little')
         
-        fh.readinto(bssmif)
+        if fh.readinto(bssmif) != ctypes.sizeof(bssmif):
+            raise RuntimeError("SSMIF file is too short")
         
         #
         # Station Data
@@ -1714,7 +1716,8 @@ def _parse_ssmif_binary(filename_or_fh):
         drPC   = [''.join([k for k in i if k != '\x00']) for i in drPC]
         drNDP   = list(bssmif.iDRNDP)
         
-        fh.readinto(bsettings)
+        if fh.readinto(bsettings) != ctypes.sizeof(bsettings):
+            raise RuntimeError("SSMIF file is too short")
         
         #
         # ASP Settings
-- 
2.43.0


From c14a0e8624c43941114e017f2291187e1776d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 101/111] fix: GloTEC maps cannot be loaded for the last half
 second of a day

---
 lsl/misc/ionosphere/_glotec.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lsl/misc/ionosphere/_glotec.py b/lsl/misc/ionosphere/_glotec.py
index 732f7a7..dda11bd 100644
--- a/lsl/misc/ionosphere/_glotec.py
+++ b/lsl/misc/ionosphere/_glotec.py
@@ -33,10 +33,7 @@ def _download(mjd, type='final'):
     # and the day-of-year
     mpm = int((mjd - int(mjd))*24.0*3600.0*1000)
     dt = mjdmpm_to_datetime(int(mjd), mpm)
-    if dt.microsecond > 500000:
-        dt = dt.replace(microsecond=0)
-        dt += timedelta(seconds=1)
-        
+    
     year = dt.year
     month = dt.month
     dateStr = dt.strftime("%Y_%m_%d")
-- 
2.43.0


From bef5f502e98fad7979ab7dbe88bd004f26a7cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 102/111] fix: downloads fail when standard input is closed

---
 lsl/common/data_access.py     | 17 ++++++++++++++---
 lsl/misc/ionosphere/_utils.py |  4 ++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index d47f3ce..46f30a4 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -70,6 +70,19 @@ def check_url(url, byte_range=None, verbose=True):
     return remote_size, mtime
 
 
+def _is_interactive():
+    """
+    Return whether or not there is a user at a terminal that a progress bar
+    could be shown to.
+    """
+    
+    try:
+        return sys.__stdin__.isatty()
+    except (AttributeError, ValueError):
+        ## Standard input is closed
+        return False
+
+
 def download_file(url, filename_or_fh, byte_range=None, verbose=True):
     """
     Given a URL and either a filename or open file handle, download the URL and
@@ -83,7 +96,7 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
                between [start_byte, end_byte] is downloaded.
     """
     
-    is_interactive = sys.__stdin__.isatty()
+    is_interactive = _is_interactive()
     
     req = Request(url)
     if os.path.splitext(url)[1] not in ('.Z', '.gz', '.bz2', '.tgz', '.zip'):
@@ -254,8 +267,6 @@ class _DataAccess(object):
         Download the URL and save it to a file.
         """
         
-        is_interactive = sys.__stdin__.isatty()
-        
         metaname = filename+'_meta'
         tempname = self._temp_name(filename)
         
diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index c0ddc5a..b4daa27 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -13,7 +13,7 @@ from datetime import datetime, timedelta
 from threading import get_ident
 from ftplib import FTP_TLS, all_errors as FTP_ERRORS
 
-from lsl.common.data_access import download_file
+from lsl.common.data_access import download_file, _is_interactive
 from lsl.common.mcs import mjdmpm_to_datetime, datetime_to_mjdmpm
 from lsl.common.progress import DownloadBar
 from lsl.common.color import colorfy
@@ -78,7 +78,7 @@ def _download_worker_cddis(url, filename):
     Download the URL from gdc.cddis.eosdis.nasa.gov via FTP-SSL and save it to a file.
     """
     
-    is_interactive = sys.__stdin__.isatty()
+    is_interactive = _is_interactive()
     
     # Attempt to download the data
     LSL_LOGGER.info(f"Downloading {url}")
-- 
2.43.0


From df39d06afa8f6ddd764293277f59815008f1acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 103/111] fix: the download of an empty file from a terminal
 fails with a ZeroDivisionError

---
 lsl/common/data_access.py     | 2 +-
 lsl/misc/ionosphere/_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 46f30a4..dc74b4e 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -137,7 +137,7 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
                     warnings.warn(f"Cannot find a 'Last-Modified' time for {url}, modification time will be set to zero")
                 mtime = 0.0
                 
-            pbar = DownloadBar(max=remote_size)
+            pbar = DownloadBar(max=max([remote_size, 1]))
             received = 0
             while True:
                 data = uh.read(DOWN_CONFIG.get('block_size'))
diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index b4daa27..e284e31 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -101,7 +101,7 @@ def _download_worker_cddis(url, filename):
         remote_size = ftps.size(remote_path)
 
         with _CACHE_DIR.open(filename, 'wb') as fh:
-            pbar = DownloadBar(max=remote_size)
+            pbar = DownloadBar(max=max([remote_size, 1]))
             def write(data):
                 fh.write(data)
                 pbar.inc(len(data))
-- 
2.43.0


From 0c19daf722957f871c5ed48d91c9e6f341498882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:34 +0000
Subject: [PATCH 104/111] fix: the FFTW planner is called from several threads
 at once

The F-engine, spectrometer, and gridder extensions create and destroy their
FFTW plans after the GIL has been released.  Only fftwf_execute is thread safe
so plan with the GIL held and release it around the processing alone.
---
 lsl/correlator/core.cpp   | 16 ++++++++--------
 lsl/correlator/spec.cpp   | 18 ++++++++++--------
 lsl/correlator/stokes.cpp | 18 ++++++++++--------
 lsl/imaging/gridder.cpp   |  8 ++++----
 4 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..03f7fc3 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -131,8 +131,6 @@ void compute_fengine_real(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan     
     float *inP, *in;                          
     Complex32 *outP, *out;
@@ -145,6 +143,8 @@ void compute_fengine_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -218,12 +218,12 @@ void compute_fengine_real(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
     
-    Py_END_ALLOW_THREADS
-    
 }
 
 
@@ -246,8 +246,6 @@ void compute_fengine_complex(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan
     Complex32 *inP, *in;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
@@ -258,6 +256,8 @@ void compute_fengine_complex(long nStand,
                           reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                           FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -328,10 +328,10 @@ void compute_fengine_complex(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..a220353 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -46,8 +46,6 @@ void compute_spec_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan                          
     float *inP, *in;                          
     Complex32 *outP, *out;
@@ -60,6 +58,8 @@ void compute_spec_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -130,11 +130,12 @@ void compute_spec_real(long nStand,
         fftwf_free(in);
         fftwf_free(out);
     }
+    
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -152,8 +153,6 @@ void compute_spec_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan
     Complex32 *inP, *in;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
@@ -164,6 +163,8 @@ void compute_spec_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -234,10 +235,11 @@ void compute_spec_complex(long nStand,
         fftwf_free(in);
         aligned64_free(temp2);
     }
-    fftwf_destroy_plan(p);
-    fftwf_free(inP);
     
     Py_END_ALLOW_THREADS
+    
+    fftwf_destroy_plan(p);
+    fftwf_free(inP);
 }
 
 
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..d87d7d7 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -47,8 +47,6 @@ void compute_stokes_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan                          
     float *inP, *inX, *inY;                          
     Complex32 *outP, *outX, *outY;
@@ -61,6 +59,8 @@ void compute_stokes_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -162,11 +162,12 @@ void compute_stokes_real(long nStand,
         fftwf_free(outX);
         fftwf_free(outY);
     }
+    
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -185,8 +186,6 @@ void compute_stokes_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Create the FFTW plan
     Complex32 *inP, *inX, *inY;
     inP = (Complex32*) fftwf_malloc(sizeof(Complex32) * nChan*nTap);
@@ -197,6 +196,8 @@ void compute_stokes_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -294,10 +295,11 @@ void compute_stokes_complex(long nStand,
         fftwf_free(inY);
         aligned64_free(temp2);
     }
-    fftwf_destroy_plan(p);
-    fftwf_free(inP);
     
     Py_END_ALLOW_THREADS
+    
+    fftwf_destroy_plan(p);
+    fftwf_free(inP);
 }
 
 
diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..37ee041 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -194,8 +194,6 @@ void compute_gridding(long nVis,
     // Setup
     long i, j, l, m;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
@@ -227,6 +225,8 @@ void compute_gridding(long nVis,
                            reinterpret_cast<fftwf_complex*>(inP), \
                            FFTW_BACKWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Go!
     #ifdef _OPENMP
         #pragma omp parallel default(shared) private(suv, sbm, kern, i, j, l, m, secStart, secStop, avgW, ci, cj, pi, pj, gi, gj, temp, temp2)
@@ -338,6 +338,8 @@ void compute_gridding(long nVis,
         fftwf_free(kern);
     }
     
+    Py_END_ALLOW_THREADS
+    
     // Correct for the kernel
     compute_kernel_correction(nPixSide, kernel1D, corr);
     
@@ -350,8 +352,6 @@ void compute_gridding(long nVis,
     
     free(planeStart);
     free(planeStop);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
-- 
2.43.0


From 60b26c2c40c19cec0a0a1c7c68f0beabda96aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:48 +0000
Subject: [PATCH 105/111] fix: the gridder normalizes by the size of the first
 grid of the process

The normalization was a static variable and, thus, set only on the first call.
---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 37ee041..9e254f6 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -210,7 +210,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From 1ca25a6012d1b50b21835780a5ad97dd06706651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:48 +0000
Subject: [PATCH 106/111] fix: the gridder drops data in a single w-plane and
 overruns with many

The check on the last plane looked at the entry before the first one when
there is only one plane, and the list of planes had a fixed size.
---
 lsl/imaging/gridder.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 9e254f6..216b442 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -20,9 +20,6 @@
 #include "../correlator/common.hpp"
 
 
-// Maximum number of w-planes to project
-#define MAX_W_PLANES 1024
-
 // Gridding convolution size on a side and oversampling factor
 #define GRID_KERNEL_SIZE 7    // should be an odd number
 #define GRID_KERNEL_OVERSAMPLE 64
@@ -111,7 +108,7 @@ int compute_planes(int nVis,
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
+    if( *(planeStart + nPlanes) < nVis) {
         *(planeStop + nPlanes) = nVis;
         nPlanes++;
     }
@@ -197,8 +194,8 @@ void compute_gridding(long nVis,
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
-    planeStart = (long *) malloc(MAX_W_PLANES*sizeof(long));
-    planeStop = (long *) malloc(MAX_W_PLANES*sizeof(long));
+    planeStart = (long *) malloc((nVis+1)*sizeof(long));
+    planeStop = (long *) malloc((nVis+1)*sizeof(long));
     nPlanes = compute_planes(nVis, wRes, w, planeStart, planeStop);
     
     // Fill in the 1-D gridding kernel
-- 
2.43.0


From 6cba220bc357c43557b98aaced337b060d7b9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:36 +0000
Subject: [PATCH 107/111] fix: concurrent calls can use each other's window
 function

The window function was kept in a global variable that another thread can
replace while the arrays of the call are being converted.
---
 lsl/correlator/core.cpp   | 26 +++++++-------------------
 lsl/correlator/spec.cpp   | 17 ++---------------
 lsl/correlator/stokes.cpp | 17 ++---------------
 3 files changed, 11 insertions(+), 49 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 03f7fc3..1e0cf4f 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -20,13 +20,6 @@
 #include "blas.hpp"
 
 
-/*
-Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
 /*
 Function to compute the interger and fractional delays for a set of inputs
 */
@@ -336,7 +329,7 @@ void compute_fengine_complex(long nStand,
 
 
 static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
-    PyObject *signals, *freqs, *delays, *window=Py_None, *signalsF;
+    PyObject *signals, *freqs, *delays, *window=Py_None, *signalsF, *arglist, *windowValue;
     PyArrayObject *data=NULL, *freq=NULL, *delay=NULL, *dataF=NULL, *validF=NULL, *windowData=NULL;
     int isReal;
     int nChan = 64;
@@ -355,9 +348,6 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
 
     // Bring the data into C and make it usable
@@ -405,11 +395,12 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
-        window = Py_BuildValue("(i)", (1+isReal)*nChan);
-        window = PyObject_CallObject(windowFunc, window);
-        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(window, NPY_DOUBLE, 1, 1);
-        Py_DECREF(window);
+    if( window != Py_None ) {
+        arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
+        windowValue = PyObject_CallObject(window, arglist);
+        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
+        Py_DECREF(arglist);
+        Py_DECREF(windowValue);
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
@@ -558,9 +549,6 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
 
     // Bring the data into C and make it usable
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index a220353..cc1e366 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -19,13 +19,6 @@
 #include "common.hpp"
 #include "blas.hpp"
 
-/*
-  Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
 /*
   FFT Functions
     1. FPSD - FFT a real or complex-valued collection of signals
@@ -262,9 +255,6 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
@@ -286,9 +276,9 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
+    if( window != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
-        windowValue = PyObject_CallObject(windowFunc, arglist);
+        windowValue = PyObject_CallObject(window, arglist);
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
         Py_DECREF(arglist);
         Py_DECREF(windowValue);
@@ -390,9 +380,6 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index d87d7d7..087205b 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -20,13 +20,6 @@
 #include "blas.hpp"
 
 
-/*
-  Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
 /*
   FFT Functions
     1. FPSD - FFT a real or complex-valued collection of signals
@@ -322,9 +315,6 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
@@ -367,9 +357,9 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
+    if( window != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
-        windowValue = PyObject_CallObject(windowFunc, arglist);
+        windowValue = PyObject_CallObject(window, arglist);
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
         Py_DECREF(arglist);
         Py_DECREF(windowValue);
@@ -478,9 +468,6 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
-- 
2.43.0


From b775485f95871b374a94877fc542c81dea9d9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:36 +0000
Subject: [PATCH 108/111] fix: a window function that fails or is too short
 crashes the process

---
 lsl/correlator/core.cpp   | 13 ++++++++++++-
 lsl/correlator/spec.cpp   | 13 ++++++++++++-
 lsl/correlator/stokes.cpp | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 1e0cf4f..bf6dcb3 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -398,9 +398,20 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     if( window != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(window, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window array to 1-D double");
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window has a different size than the transform");
+            goto fail;
+        }
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index cc1e366..9e9a011 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -279,9 +279,20 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( window != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(window, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window array to 1-D double");
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window has a different size than the transform");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 087205b..4298f52 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -360,9 +360,20 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( window != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(window, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            PyErr_Format(PyExc_RuntimeError, "Cannot cast window array to 1-D double");
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window has a different size than the transform");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
-- 
2.43.0


From 390df4bdde7401efaf74068db16601955e0745d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 109/111] fix: transforms overlapped by a non-divisor of their
 length read past the data

The number of transforms was computed from the step between them rounded down,
the positions of the transforms are not.
---
 lsl/correlator/core.cpp   | 4 ++--
 lsl/correlator/spec.cpp   | 4 ++--
 lsl/correlator/stokes.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index bf6dcb3..bccd251 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -427,7 +427,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = (nSamps - fifoMax)*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -626,7 +626,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = (nSamps - fifoMax)*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 9e9a011..ad49d29 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -296,7 +296,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -419,7 +419,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 4298f52..1cf25d9 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -377,7 +377,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -528,7 +528,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps*Overlap / ((1+isReal)*nChan) - Overlap + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From c511f3c8c499ce287f6e3f032c8232bbfef47356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:02 +0000
Subject: [PATCH 110/111] fix: FXStokes only gain corrects the first four
 baselines

---
 lsl/correlator/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..0ee52c4 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -483,7 +483,7 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         
     # Apply cable gain corrections (if needed)
     if gain_correct:
-        for bl in range(output.shape[0]):
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 6455ba647fa099b6decd7699cee319b40b7d42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:02 +0000
Subject: [PATCH 111/111] fix: polarizations with different delays cannot be
 cross-correlated

The number of FFTs from the F-engine depends on the largest delay.
---
 lsl/correlator/fx.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 0ee52c4..338c92e 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -322,6 +322,11 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
         
+        # The largest delay sets the number of FFTs so it can depend on the polarization
+        nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+        signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+        signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
+        
     # X
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
@@ -470,6 +475,11 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
+    # The largest delay sets the number of FFTs so it can depend on the polarization
+    nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
+    
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
-- 
2.43.0

