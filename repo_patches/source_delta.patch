From 4877f7fb26f0b24b78d065f6011fc043c4fb4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 01/28] Let a simulator choose the gather segment size
 (KVTREE_SIM only)

---
 src/kvtree_mpi_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..6a18671 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -20,6 +20,11 @@
 #include <errno.h>
 #include <limits.h>
 
+#ifdef KVTREE_SIM
+/* deterministic simulation can shrink the segment size */
+extern unsigned long kvtree_sim_segsize(unsigned long segsize);
+#endif
+
 #define KVTREE_MAP_COUNT (0)
 #define KVTREE_MAP_RANKS (1)
 #define KVTREE_MAP_RANK  (2)
@@ -32,6 +37,9 @@ static int pick_writer(
 {
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
+#ifdef KVTREE_SIM
+  segsize = kvtree_sim_segsize(segsize);
+#endif
 
   /* get communicator info */
   int rank, ranks;
-- 
2.43.0


From eb775b010283e9239716be41bb2dc9be558f7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 02/28] fix: kvtree_open_with_lock returned KVTREE_FAILURE (1)
 as a descriptor when locking failed

---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 15c6db4586a34374558f2c0f1fb92ef6bd85da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 03/28] fix: kvtree_close_with_unlock left the file open and
 locked when unlocking failed

---
 src/kvtree_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..c9f82f5 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -235,6 +235,8 @@ int kvtree_close_with_unlock(const char* file, int fd)
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
   if (ret != KVTREE_SUCCESS) {
+    /* close the file regardless, this also drops the lock */
+    kvtree_close(file, fd);
     return ret;
   }
 
-- 
2.43.0


From cf6c7238cc2dff2465783eae8e8d2047a76c7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 04/28] fix: kvtree_close reported success when fsync failed

---
 src/kvtree_io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index c9f82f5..7be75c9 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -115,8 +115,16 @@ int kvtree_open(const char* file, int flags, ...)
 /* fsync and close file */
 int kvtree_close(const char* file, int fd)
 {
+  int rc = KVTREE_SUCCESS;
+
   /* fsync first */
   if (fsync(fd) < 0) {
+    /* the data may be lost, unless there is nothing to synchronize
+     * on this type of file or file system */
+    if (errno != EINVAL && errno != EROFS) {
+      rc = KVTREE_FAILURE;
+    }
+
     /* print warning that fsync failed */
     kvtree_dbg(2, "Failed to fsync file descriptor: %s errno=%d %s @ %s:%d",
       file, errno, strerror(errno), __FILE__, __LINE__
@@ -132,7 +140,7 @@ int kvtree_close(const char* file, int fd)
     return KVTREE_FAILURE;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /*
-- 
2.43.0


From 487b77959cc3cc97833a11fffef670abc2d42671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 05/28] fix: kvtree_write_with_lock ignored failures and kept
 the tail of a longer file

---
 src/kvtree.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..917e4d9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1571,13 +1571,26 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
+    int rc = KVTREE_SUCCESS;
+
     /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    } else if (ftruncate(fd, (off_t) nwrite) == -1) {
+      /* failed to drop the rest of a longer, previous file */
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From 50227914a9698702c1959bd77d7a304dbacbe23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 06/28] fix: kvtree_write_close_unlock reported success when
 writing, truncating or closing failed

---
 src/kvtree.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 917e4d9..a5c46b9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1685,12 +1685,15 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
-  if (*fd >= 0) {
-    /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
+  int rc = KVTREE_SUCCESS;
 
-    /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+  if (*fd >= 0) {
+    /* wind the file pointer back to the start of the file,
+     * and write the updated hash back to the file */
+    ssize_t nwrite = -1;
+    if (kvtree_lseek(file, *fd, 0, SEEK_SET) == KVTREE_SUCCESS) {
+      nwrite = kvtree_write_fd(file, *fd, hash);
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1698,17 +1701,22 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
+    } else {
+      rc = KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From be89ed855fd6ff746e354d99086471afb3f5f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 07/28] fix: kvtree_lock_open_read reported success when it
 could not read the file

---
 src/kvtree.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a5c46b9..2ea36a4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1642,8 +1642,13 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
-    return KVTREE_SUCCESS;
+    if (kvtree_read_fd(file, *fd, hash) >= 0) {
+      return KVTREE_SUCCESS;
+    }
+
+    /* failed to read the file, release the lock and hand out no descriptor */
+    kvtree_close_with_unlock(file, *fd);
+    *fd = -1;
   }
 
   return KVTREE_FAILURE;
-- 
2.43.0


From 6214a4aa0b6601b3aa72b70fbe4957925ddb6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 08/28] fix: kvtree_malloc passed its message too few arguments
 and crashed instead of aborting

---
 src/kvtree_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..fb3e2d1 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,7 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", (unsigned long long) size, file, line);
     }
   }
   return ptr;
-- 
2.43.0


From dc54454e3bc117d120ca51499a1144dfe8ccd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 09/28] fix: kvtree_read_fd aborted the process when a damaged
 header held a huge size

---
 src/kvtree.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 2ea36a4..499dd90 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1397,7 +1397,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   }
 
   /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  /* the size comes from the file, so being unable to allocate that much
+   * may mean the file is damaged rather than that we are out of memory */
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__
+    );
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
-- 
2.43.0


From ecb985bac3b0bc7a7eca8b2dfabe99554f66685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 10/28] fix: kvtree_read_fd unpacked beyond its buffer when a
 record without checksum was damaged

---
 src/kvtree.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 499dd90..942f5b2 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1097,6 +1097,38 @@ size_t kvtree_unpack(const char* buf, kvtree* hash)
   /* return the size */
   return size;
 }
+
+/** computes the number of bytes kvtree_unpack would read from buf,
+ * returns 0 if that is more than the avail bytes there are */
+static size_t kvtree_packed_extent(const char* buf, size_t avail)
+{
+  /* read in the COUNT value */
+  uint32_t count_network = 0;
+  if (avail < sizeof(uint32_t)) {
+    return 0;
+  }
+  memcpy(&count_network, buf, sizeof(uint32_t));
+  uint32_t count = kvtree_ntoh32(count_network);
+  size_t size = sizeof(uint32_t);
+
+  /* step over the key and the hash of each element */
+  uint32_t i;
+  for (i = 0; i < count; i++) {
+    size_t keylen = strnlen(buf + size, avail - size);
+    if (keylen == avail - size) {
+      return 0;
+    }
+    size += keylen + 1;
+
+    size_t extent = kvtree_packed_extent(buf + size, avail - size);
+    if (extent == 0) {
+      return 0;
+    }
+    size += extent;
+  }
+
+  return size;
+}
 ///@}
 
 /* ================================================= */
@@ -1453,6 +1485,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* there may be no crc, check that we would not unpack beyond our buffer */
+  if (kvtree_packed_extent(buf + size, filesize - size) == 0) {
+    kvtree_err("Invalid data in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From c968cc9a7190bec2c7513ab3fcb6b0ffa8ca63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 11/28] fix: kvtree_read_file and kvtree_read_with_lock changed
 the caller's tree although they failed

---
 src/kvtree.c | 57 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 942f5b2..ef1c9a9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1357,16 +1357,10 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
-/** executes logic of kvtree_read using an opened file descriptor */
-ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
+/** executes logic of kvtree_read using an opened file descriptor,
+ * unpacks into hash, which must be empty */
+static ssize_t kvtree_read_fd_unpack(const char* file, int fd, kvtree* hash)
 {
-  /* check that we have a hash, a file name, and a file descriptor */
-  if (file == NULL || fd < 0 || hash == NULL) {
-    kvtree_err("Bad file/fd/hash in %s @ %s:%d",
-      file, __FILE__, __LINE__);
-    return -1;
-  }
-
   /* read in the file header */
   char header[KVTREE_FILE_HASH_HEADER_SIZE];
   ssize_t nread = kvtree_read_attempt(file, fd, header, KVTREE_FILE_HASH_HEADER_SIZE);
@@ -1494,11 +1488,8 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     return -1;
   }
 
-  /* create a temporary hash to read data into, unpack, and merge */
-  kvtree* tmp_hash = kvtree_new();
-  kvtree_unpack(buf + size, tmp_hash);
-  kvtree_merge(hash, tmp_hash);
-  kvtree_delete(&tmp_hash);
+  /* unpack the data */
+  kvtree_unpack(buf + size, hash);
 
   /* free the buffer holding the file contents */
   kvtree_free(&buf);
@@ -1506,6 +1497,27 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   return filesize;
 }
 
+/** executes logic of kvtree_read using an opened file descriptor */
+ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
+{
+  /* check that we have a hash, a file name, and a file descriptor */
+  if (file == NULL || fd < 0 || hash == NULL) {
+    kvtree_err("Bad file/fd/hash in %s @ %s:%d",
+      file, __FILE__, __LINE__);
+    return -1;
+  }
+
+  /* create a temporary hash to read data into and merge */
+  kvtree* tmp_hash = kvtree_new();
+  ssize_t nread = kvtree_read_fd_unpack(file, fd, tmp_hash);
+  if (nread > 0) {
+    kvtree_merge(hash, tmp_hash);
+  }
+  kvtree_delete(&tmp_hash);
+
+  return nread;
+}
+
 /** opens specified file and reads in a hash storing its contents in
  * the given hash object */
 int kvtree_read_file(const char* file, kvtree* hash)
@@ -1535,7 +1547,8 @@ int kvtree_read_file(const char* file, kvtree* hash)
   int rc = KVTREE_SUCCESS;
 
   /* read the hash */
-  ssize_t nread = kvtree_read_fd(file, fd, hash);
+  kvtree* tmp_hash = kvtree_new();
+  ssize_t nread = kvtree_read_fd_unpack(file, fd, tmp_hash);
   if (nread < 0) {
     rc = KVTREE_FAILURE;
   }
@@ -1545,6 +1558,12 @@ int kvtree_read_file(const char* file, kvtree* hash)
     rc = KVTREE_FAILURE;
   }
 
+  /* change the caller's hash only if everything worked */
+  if (rc == KVTREE_SUCCESS) {
+    kvtree_merge(hash, tmp_hash);
+  }
+  kvtree_delete(&tmp_hash);
+
   return rc;
 }
 
@@ -1590,19 +1609,25 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
   if (fd >= 0) {
     int rc;
     /* read the file into the hash */
-    rc = kvtree_read_fd(file, fd, hash);
+    kvtree* tmp_hash = kvtree_new();
+    rc = kvtree_read_fd_unpack(file, fd, tmp_hash);
     if (rc == -1) {
       kvtree_err("Couldn't read file @ %s:%d", __FILE__, __LINE__);
       kvtree_close_with_unlock(file, fd);
+      kvtree_delete(&tmp_hash);
       return KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
     rc = kvtree_close_with_unlock(file, fd);
     if (rc != 0) {
+      kvtree_delete(&tmp_hash);
       return KVTREE_FAILURE;
     }
 
+    /* change the caller's hash only if everything worked */
+    kvtree_merge(hash, tmp_hash);
+    kvtree_delete(&tmp_hash);
     return KVTREE_SUCCESS;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
-- 
2.43.0


From b7459d806d176fd54e7117b4f637a90066acfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 12/28] fix: kvtree_write_gather reported success when syncing
 or closing one of its files failed

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 6a18671..e8058a0 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -254,7 +254,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -364,7 +366,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From ee55467aee5afaac0428b6afd3f7054e376c0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 13/28] fix: kvtree_write_gather put unlimited data in one file
 when sizes divide the segment size

---
 src/kvtree_mpi_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index e8058a0..58e5578 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -57,11 +57,12 @@ static int pick_writer(
     /* force rank 0 to start a segment, even if it has no bytes */
     starts_new = 1;
   } else if (count > 0) {
-    /* otherwise we only start a segment if our bytes overflow the boundary */
+    /* otherwise we only start a segment if our bytes overflow the boundary,
+     * or if the bytes before ours end exactly at the boundary */
     unsigned long segindex = offset / segsize;
     unsigned long seglastbyte = (segindex + 1) * segsize - 1;
     unsigned long mylastbyte  = offset + count - 1;
-    if (mylastbyte > seglastbyte) {
+    if (mylastbyte > seglastbyte || offset % segsize == 0) {
       starts_new = 1;
     }
   }
-- 
2.43.0


From 1b12b3854658009cf60c31e05032cd00e120e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 14/28] fix: kvtree_write_to_gather looped forever when
 KVTREE_ENTRIES_PER_FILE was not positive

---
 src/kvtree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index ef1c9a9..474c54d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1815,7 +1815,11 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
    * multiple kvtree files.
    */
   if (getenv("KVTREE_ENTRIES_PER_FILE")) {
-    entries_per_file = atol(getenv("KVTREE_ENTRIES_PER_FILE"));
+    /* ignore values that are not positive, no file would ever be filled */
+    long value = atol(getenv("KVTREE_ENTRIES_PER_FILE"));
+    if (value > 0) {
+      entries_per_file = value;
+    }
   }
 
   /* we hardcode this to be two levels deep */
-- 
2.43.0


From 991e44c07b03f0336a95017632e4e236c7e94baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 15/28] fix: kvtree_read_scatter_single took the prefix for a
 regular expression, and leaked the compiled one

---
 src/kvtree.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 474c54d..c4c5655 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -21,7 +21,6 @@
 #include <libgen.h>
 #include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1901,6 +1900,18 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* returns 1 if name is prefix_file followed by ".0." and a number, 0 otherwise,
+ * compares literally since the prefix may contain any character */
+static int kvtree_is_subfile(const char* name, const char* prefix_file)
+{
+  size_t len = strlen(prefix_file);
+  if (strncmp(name, prefix_file, len) != 0 || strncmp(name + len, ".0.", 3) != 0) {
+    return 0;
+  }
+  const char* digits = name + len + 3;
+  return digits[0] != '\0' && digits[strspn(digits, "0123456789")] == '\0';
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1953,18 +1964,6 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   char* prefix_file_copy = strdup(prefix);
   char* prefix_file = basename(prefix_file_copy);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
-
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
   DIR* d = opendir(prefix_dir);
   if (!d) {
     rc = KVTREE_FAILURE;
@@ -1980,8 +1979,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
      * like "rank2file.".
      */
     /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
+    if (kvtree_is_subfile(dir->d_name, prefix_file)) {
       /* subfile matches */
 
       /* Construct the full path to the subfile kvtree */
-- 
2.43.0


From d69bddcc42f3e1373e7daa9c0693b01812e3990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 16/28] fix: free the RANK subtree of each part in
 kvtree_read_scatter_single

---
 src/kvtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index c4c5655..ec828b7 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2002,6 +2002,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
             if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
               actual_ranks += kvtree_size(subfile_rank_tree);
             }
+            kvtree_delete(&subfile_rank_tree);
           }
         }
       }
-- 
2.43.0


From dc1ec6cb188979c17c933e2aaec547b2dde15e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 17/28] fix: stop when a key or file name cannot be duplicated
 for lack of memory

---
 src/kvtree.c        | 12 +++++++++++-
 src/kvtree_mpi_io.c | 10 ++++++++++
 src/kvtree_print.c  |  4 ++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index ec828b7..89487d5 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -99,6 +99,11 @@ static kvtree_elem* kvtree_elem_init(kvtree_elem* elem, const char* key, kvtree*
   if (elem != NULL) {
     if (key != NULL) {
       elem->key = strdup(key);
+      if (elem->key == NULL) {
+        kvtree_abort(-1, "Failed to duplicate key @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       /* bad idea to allow key to be set to NULL */
       elem->key = NULL;
@@ -1960,8 +1965,13 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 
   /* Look at all the subfiles with our prefix and read in the file lists */
   char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file_copy = strdup(prefix);
+  if (prefix_dir_copy == NULL || prefix_file_copy == NULL) {
+    kvtree_abort(-1, "Failed to duplicate prefix @ %s:%d",
+      __FILE__, __LINE__
+    );
+  }
+  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file = basename(prefix_file_copy);
 
   DIR* d = opendir(prefix_dir);
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 58e5578..6b054aa 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -468,6 +468,11 @@ static int kvtree_read_scatter_map(
       char mappath[1024];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
+      if (newfile == NULL) {
+        kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -546,6 +551,11 @@ int kvtree_read_scatter(
     /* rank 0 is only valid reader to start with */
     valid  = 1;
     file   = strdup(mappath);
+    if (file == NULL) {
+      kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+        __FILE__, __LINE__
+      );
+    }
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
diff --git a/src/kvtree_print.c b/src/kvtree_print.c
index 857e223..6202dba 100644
--- a/src/kvtree_print.c
+++ b/src/kvtree_print.c
@@ -49,6 +49,10 @@ int main(int argc, char* argv[])
     switch(c) {
       case 'm':
         mode = strdup(optarg);
+        if (mode == NULL) {
+          printf("ERROR: Failed to duplicate mode name\n");
+          return 1;
+        }
         break;
       case 'h':
         usage = 1;
-- 
2.43.0


From 886860c09f84d135dd566cb4990698f74ca574af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 18/28] fix: free the name of the next file when a map level of
 a scatter read fails

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 6b054aa..2aa5ab8 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -501,6 +501,7 @@ static int kvtree_read_scatter_map(
 
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
+    kvtree_free(&newfile);
     rc = KVTREE_FAILURE;
     goto cleanup;
   }
-- 
2.43.0


From 62741a6383dc94faf31c2d32a39b9b2d9d39c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 19/28] fix: do not change the umask of the process to look it
 up

---
 src/kvtree_io.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 7be75c9..93f6d4e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -42,13 +42,11 @@ open/lock/close/read/write functions
 =========================================
 */
 
-/* returns user's current mode as determined by their umask */
+/* returns mode to create a file with, the umask of the user is applied
+ * when the file is created (looking it up with umask() would change it
+ * for all threads of the process in the meantime) */
 mode_t kvtree_getmode(int read, int write, int execute)
 {
-  /* lookup current mask and set it back */
-  mode_t old_mask = umask(S_IWGRP | S_IWOTH);
-  umask(old_mask);
-
   mode_t bits = 0;
   if (read) {
     bits |= (S_IRUSR | S_IRGRP | S_IROTH);
@@ -60,9 +58,7 @@ mode_t kvtree_getmode(int read, int write, int execute)
     bits |= (S_IXUSR | S_IXGRP | S_IXOTH);
   }
 
-  /* convert mask to mode */
-  mode_t mode = bits & ~old_mask & 0777;
-  return mode;
+  return bits;
 }
 
 /* open file with specified flags and mode, retry open a few times on failure */
-- 
2.43.0


From 81a21c403ed60083c59c1da8533807dc226ab08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 20/28] fix: print and log trees of any depth within bounds

---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 89487d5..3acf950 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2042,23 +2042,16 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2073,25 +2066,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2103,20 +2096,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2130,22 +2116,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2153,20 +2132,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From b406ea863f301684dbe7f97d299e0624fb7d67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 21/28] fix: leave the caller's tree alone when
 kvtree_read_scatter_single fails

---
 src/kvtree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 3acf950..34ad360 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2020,9 +2020,13 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
     }
   }
   closedir(d);
-  kvtree_merge(data, final_tree);
   rc = KVTREE_SUCCESS;
 
+  /* hand the data to the caller only if we got all of it */
+  if (actual_ranks == expected_ranks) {
+    kvtree_merge(data, final_tree);
+  }
+
 end:
   kvtree_free(&prefix_dir_copy);
   kvtree_free(&prefix_file_copy);
-- 
2.43.0


From 83e6483e662eb916859fafe67803a9480a875b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 22/28] fix: gather and scatter truncated paths longer than
 1023 characters

---
 src/kvtree.c        | 2 +-
 src/kvtree_mpi_io.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 34ad360..3346bf3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1869,7 +1869,7 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
     }
 
     /* build name for part file */
-    char filename[1024];
+    char filename[PATH_MAX + 1024];
     snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
 
     /* write hash to file */
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2aa5ab8..929a4eb 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -209,7 +209,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
+  char mappath[PATH_MAX + 1024];
   snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
 
   /* call gather recursively if there's another level */
@@ -323,7 +323,7 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
+  char mappath[PATH_MAX + 1024];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
   snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
 
@@ -465,7 +465,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
+      char mappath[PATH_MAX + 1024];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
       if (newfile == NULL) {
@@ -541,7 +541,7 @@ int kvtree_read_scatter(
   MPI_Comm_size(comm, &ranks_world);
 
   /* build path to file */
-  char mappath[1024];
+  char mappath[PATH_MAX + 1024];
   snprintf(mappath, sizeof(mappath), "%s", prefix);
 
   /* fetch file names and offsets containing file hash data */
-- 
2.43.0


From c02ec419c874ab32422131f7b24390e2a8bd13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 23/28] fix: kvtree_read_scatter_single reads the files of the
 set only

It used to read every file of the directory with a matching name, so parts left
over from an earlier, larger set of the same name made it fail, or stood in for
a missing part.
---
 src/kvtree.c | 130 +++++++++++++++++++++------------------------------
 1 file changed, 53 insertions(+), 77 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 3346bf3..dff8117 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -18,8 +18,6 @@
 #include <fcntl.h>
 #include <string.h>
 #include <errno.h>
-#include <libgen.h>
-#include <dirent.h>
 #include <limits.h>
 
 
@@ -1905,16 +1903,53 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
-/* returns 1 if name is prefix_file followed by ".0." and a number, 0 otherwise,
- * compares literally since the prefix may contain any character */
-static int kvtree_is_subfile(const char* name, const char* prefix_file)
+/* reads the file of a gather/scatter file set with the given suffix, and all files
+ * it refers to, and merges the hash of each rank into data, a level of -1 stands for
+ * the root file, which may have any level */
+static int kvtree_read_scatter_subfile(const char* prefix, const char* suffix, int level, kvtree* data)
 {
-  size_t len = strlen(prefix_file);
-  if (strncmp(name, prefix_file, len) != 0 || strncmp(name + len, ".0.", 3) != 0) {
-    return 0;
+  /* Construct the full path to the subfile kvtree */
+  size_t len = strlen(prefix) + strlen(suffix) + 1;
+  char* path = (char*) KVTREE_MALLOC(len);
+  snprintf(path, len, "%s%s", prefix, suffix);
+
+  /* Read in the subfile */
+  kvtree* tree = kvtree_new();
+  int rc = kvtree_read_file(path, tree);
+  kvtree_free(&path);
+
+  /* Sanity: the level of each subfile is one less than that of the file referring to it */
+  int file_level = -1;
+  if (rc == KVTREE_SUCCESS) {
+    rc = kvtree_util_get_int(tree, "LEVEL", &file_level);
+    if (file_level < 0 || (level >= 0 && file_level != level)) {
+      rc = KVTREE_FAILURE;
+    }
+  }
+
+  if (rc == KVTREE_SUCCESS) {
+    kvtree* ranks = kvtree_get(tree, "RANK");
+    if (file_level == 0) {
+      /* got data from ranks */
+      rc = kvtree_merge(data, ranks);
+    } else {
+      /* got names of files of the next level */
+      kvtree_elem* elem;
+      for (elem = kvtree_elem_first(ranks);
+           elem != NULL && rc == KVTREE_SUCCESS;
+           elem = kvtree_elem_next(elem))
+      {
+        char* value = NULL;
+        rc = kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &value);
+        if (rc == KVTREE_SUCCESS) {
+          rc = kvtree_read_scatter_subfile(prefix, value, file_level - 1, data);
+        }
+      }
+    }
   }
-  const char* digits = name + len + 3;
-  return digits[0] != '\0' && digits[strspn(digits, "0123456789")] == '\0';
+
+  kvtree_delete(&tree);
+  return rc;
 }
 
 /*
@@ -1963,79 +1998,20 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   /* Start construction of the final tree that we will return */
   final_tree = kvtree_new();
 
-  /* Look at all the subfiles with our prefix and read in the file lists */
-  char* prefix_dir_copy = strdup(prefix);
-  char* prefix_file_copy = strdup(prefix);
-  if (prefix_dir_copy == NULL || prefix_file_copy == NULL) {
-    kvtree_abort(-1, "Failed to duplicate prefix @ %s:%d",
-      __FILE__, __LINE__
-    );
-  }
-  char* prefix_dir = dirname(prefix_dir_copy);
-  char* prefix_file = basename(prefix_file_copy);
+  /* Read the root file and all subfiles it refers to, files left over from an
+   * earlier set of the same name do not belong to it */
+  rc = kvtree_read_scatter_subfile(prefix, "", -1, final_tree);
 
-  DIR* d = opendir(prefix_dir);
-  if (!d) {
+  /* hand the data to the caller only if we got all of it */
+  if (rc == KVTREE_SUCCESS && (unsigned long) kvtree_size(final_tree) != expected_ranks) {
     rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
-  struct dirent* dir;
-  while ((dir = readdir(d)) != NULL) {
-    /*
-     * Search for any file starting with "prefix_file."
-     * like "rank2file.".
-     */
-    /* Is this one of our subfiles?  It should have .0.x in the extension */
-    if (kvtree_is_subfile(dir->d_name, prefix_file)) {
-      /* subfile matches */
-
-      /* Construct the full path to the subfile kvtree */
-      char tmp[PATH_MAX];
-      memset(tmp, 0, sizeof(tmp));
-      snprintf(tmp, sizeof(tmp), "%s/%s", prefix_dir, dir->d_name);
-      tmp[sizeof(tmp) - 1] = '\0';
-
-      /* Read in the subfile */
-      kvtree* subfile_tree = kvtree_new();
-      rc = kvtree_read_file(tmp, subfile_tree);
-      if (rc == KVTREE_SUCCESS) {
-        /* Sanity: each subfile we want will have LEVEL=0 */
-        unsigned long level;
-        rc = kvtree_util_get_unsigned_long(subfile_tree, "LEVEL", &level);
-        if (rc == KVTREE_SUCCESS && level == 0) {
-          /* Break off and remove the "RANK" subtree from the rank2file tree */
-          kvtree* subfile_rank_tree = kvtree_extract(subfile_tree, "RANK");
-          if (subfile_rank_tree) {
-            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
-              actual_ranks += kvtree_size(subfile_rank_tree);
-            }
-            kvtree_delete(&subfile_rank_tree);
-          }
-        }
-      }
-      kvtree_delete(&subfile_tree);
-    }
   }
-  closedir(d);
-  rc = KVTREE_SUCCESS;
-
-  /* hand the data to the caller only if we got all of it */
-  if (actual_ranks == expected_ranks) {
-    kvtree_merge(data, final_tree);
+  if (rc == KVTREE_SUCCESS) {
+    rc = kvtree_merge(data, final_tree);
   }
-
-end:
-  kvtree_free(&prefix_dir_copy);
-  kvtree_free(&prefix_file_copy);
   kvtree_delete(&final_tree);
-  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
-    return KVTREE_FAILURE;
-  }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 ///@}
 
-- 
2.43.0


From c79328507b77a68804c2c0bbf479100e5d4b0701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 24/28] fix: kvtree_read_scatter reported success when the set
 holds no data for a rank

---
 src/kvtree_mpi_io.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 929a4eb..8889052 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -625,6 +625,22 @@ int kvtree_read_scatter(
   /* scatter to groups */
   kvtree_exchange_direction(send, recv, comm, KVTREE_EXCHANGE_RIGHT);
 
+  /* every rank has an entry in a complete set, though it may be empty,
+   * one is missing if the set was not completely written */
+  if (kvtree_size(recv) == 0) {
+    kvtree_err("No data for rank %d in %s @ %s:%d",
+      rank_world, prefix, __FILE__, __LINE__
+    );
+    rc = KVTREE_FAILURE;
+  }
+
+  /* check that everyone read the data ok */
+  if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
+    kvtree_dbg(1, "kvtree_fetch_summary FINAL FAILURE @ %s:%d", __FILE__, __LINE__);
+    rc = KVTREE_FAILURE;
+    goto cleanup_hashes;
+  }
+
   /* iterate over the ranks that sent data to us, and set up our
    * list of files */
   kvtree_elem* elem;
@@ -638,13 +654,6 @@ int kvtree_read_scatter(
     kvtree_merge(data, elem_hash);
   }
 
-  /* check that everyone read the data ok */
-  if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
-    kvtree_dbg(1, "kvtree_fetch_summary FINAL FAILURE @ %s:%d", __FILE__, __LINE__);
-    rc = KVTREE_FAILURE;
-    goto cleanup_hashes;
-  }
-
 cleanup_hashes:
   /* delete send and receive hashes */
   kvtree_delete(&recv);
-- 
2.43.0


From 97a2d3b9a63ed2800acbb9802001e40488c1edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 25/28] fix: kvtree_recv from MPI_PROC_NULL used an
 uninitialised size

---
 src/kvtree_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..bbf9f79 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -65,8 +65,9 @@ int kvtree_recv(kvtree* hash, int rank, MPI_Comm comm)
   /* clear the hash */
   kvtree_unset_all(hash);
 
-  /* get the size of the incoming hash */
-  int size;
+  /* get the size of the incoming hash,
+   * nothing arrives if the rank is MPI_PROC_NULL */
+  int size = 0;
   MPI_Status status;
   MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);
 
-- 
2.43.0


From e51d5a002a72d2ea09db22304ca82c81ba2db4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 26/28] fix: kvtree_print exited with 0 although its output
 could not be written

---
 src/kvtree_print.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree_print.c b/src/kvtree_print.c
index 6202dba..2d44397 100644
--- a/src/kvtree_print.c
+++ b/src/kvtree_print.c
@@ -107,5 +107,11 @@ int main(int argc, char* argv[])
   }
   kvtree_delete(&hash);
 
+  /* what we printed may still be buffered, or may be lost already */
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "ERROR: Failed to write output\n");
+    rc = 1;
+  }
+
   return rc;
 }
-- 
2.43.0


From cd443398883369ecaf9853f1a4e2f54b761baf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 27/28] fix: sorting and listing keys by integer value
 misordered keys more than INT_MAX apart

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index dff8117..25c9c6a 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -553,7 +553,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -563,7 +563,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From a310725ecd074b778dbe55f5ef505d66b97fefbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:54 +0000
Subject: [PATCH 28/28] fix: check the levels of the files of a set when it is
 scattered

A file of the set copied over one of another level (both intact by
their checksums) made the ranks take names of files for their data, or
read the same map file over and over until the stack was exhausted.
The single-process read checks the levels already.
---
 src/kvtree_mpi_io.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 8889052..891dcfe 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -388,9 +388,11 @@ int kvtree_write_gather(
   return KVTREE_FAILURE;
 }
 
+/* level is that of the file referring to ours, or -1 for the root file */
 static int kvtree_read_scatter_map(
   const char*     prefix,
   int             depth,
+  int             level,
   int*            ptr_valid,
   char**          ptr_file,
   unsigned long*  ptr_offset,
@@ -496,6 +498,11 @@ static int kvtree_read_scatter_map(
     {
       rc = KVTREE_FAILURE;
     }
+
+    /* the level of each file is one less than that of the file referring to it */
+    if (level >= 0 && level_id != level - 1) {
+      rc = KVTREE_FAILURE;
+    }
   }
   MPI_Bcast(&level_id, 1, MPI_INT, 0, comm);
 
@@ -517,7 +524,7 @@ static int kvtree_read_scatter_map(
 
   /* recurse if we still have levels to read */
   if (level_id > 1) {
-    rc = kvtree_read_scatter_map(prefix, depth+1, ptr_valid, ptr_file, ptr_offset, comm);
+    rc = kvtree_read_scatter_map(prefix, depth+1, level_id, ptr_valid, ptr_file, ptr_offset, comm);
   }
 
 cleanup:
@@ -559,7 +566,7 @@ int kvtree_read_scatter(
     }
     offset = 0;
   }
-  if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
+  if (kvtree_read_scatter_map(prefix, 1, -1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
   {
     rc = KVTREE_FAILURE;
   }
@@ -596,6 +603,15 @@ int kvtree_read_scatter(
         rc = KVTREE_FAILURE;
       }
 
+      /* check that the file holds data of ranks rather than names of files */
+      int level = -1;
+      if (kvtree_util_get_int(save, "LEVEL", &level) != KVTREE_SUCCESS || level != 0) {
+        kvtree_err("Invalid level in %s @ %s:%d",
+          file, __FILE__, __LINE__
+        );
+        rc = KVTREE_FAILURE;
+      }
+
       /* delete current send hash, set it to values from file,
        * delete file hash */
       kvtree_delete(&send);
-- 
2.43.0

