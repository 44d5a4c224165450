From a553caf0303e3dfff82d4fcb179478dbeb84087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 01/20] fix: shr_appdata copies only the stored length into a
 larger caller buffer

---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..a374857 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1060,7 +1060,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From abdb5663a42f2b60173fcc63f047b008a17021a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 02/20] fix: shr_writev rejects an empty message anywhere in
 the vector

---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index a374857..2328ceb 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,8 +886,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done;
     len += iov[i].iov_len;
-    if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From 09376046c31887c39275d199222a2677e8737175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 03/20] fix: shr_writev rejects vectors whose byte total would
 wrap

---
 src/shr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shr.c b/src/shr.c
index 2328ceb..649d95b 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -887,6 +887,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
 
   for(i=0; i < niov; i++) {
     if (iov[i].iov_len == 0) goto done;
+    if (iov[i].iov_len > s->n - len) goto done;
     len += iov[i].iov_len;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
-- 
2.43.0


From 0277e058214cafb444ada3c3a78f081e6d110072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 04/20] fix: shr_open refuses SHR_RDONLY together with
 SHR_WRONLY

---
 src/shr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 649d95b..6034c3a 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -475,7 +475,10 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  int mode = flags & (SHR_RDONLY | SHR_WRONLY);
+
+  /* exactly one of the two */
+  if ((mode != SHR_RDONLY) && (mode != SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From 699250d96f16b5d3349bccbd2ace38800b6c2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 05/20] fix: shr_open releases wakeup handles and cache when it
 fails late

---
 src/shr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 6034c3a..6d78b5c 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -615,8 +615,13 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  /* on failure undo open_blockwake (still under lock) and init_cache */
+  if (s && rc && s->r2w) bw_close(s->r2w);
+  if (s && rc && s->w2r) bw_close(s->w2r);
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
     if (s->ring_fd != -1) close(s->ring_fd);
     if (s->buf) munmap(s->buf, s->s.st_size);
     free(s);
-- 
2.43.0


From de1e05e9212c53a211b2a8d9ceb3e3fe64278363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 06/20] fix: shr_init refuses sizes whose total overflows

---
 src/shr.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 6d78b5c..1ade8fe 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -200,7 +200,7 @@ static int shr_sync(shr *s) {
  *
  */
 int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
-  size_t appsize=0, sz=0, mv_bytes, max_msgs=0, pad, m;
+  size_t appsize=0, sz=0, mv_bytes, max_msgs=0, pad, m, avail;
   int rc = -1, fd = -1, exists, sc;
   char *appdata=NULL, *buf=NULL;
 
@@ -225,7 +225,6 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     max_msgs = va_arg(ap, size_t);
   if (max_msgs == 0)
     max_msgs = (100 + data_sz / 100);
-  mv_bytes = max_msgs * sizeof(struct msg);
 
   exists = (access(file, F_OK) == 0) ? 1 : 0;
   if (exists && (flags & SHR_KEEPEXIST)) {
@@ -233,6 +232,16 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     goto done;
   } 
   
+  /* refuse sizes whose total is not representable as a file size */
+  avail = SSIZE_MAX - sizeof(shr_ctrl) - sizeof(void*);
+  if ((data_sz > avail) ||
+      (max_msgs > (avail - data_sz) / sizeof(struct msg)) ||
+      (appsize > avail - data_sz - max_msgs * sizeof(struct msg))) {
+    shr_log("shr_init: invalid size\n");
+    goto done;
+  }
+  mv_bytes = max_msgs * sizeof(struct msg);
+
   sc = exists ? unlink(file) : 0;
   if (sc < 0) {
     shr_log("unlink %s: %s\n", file, strerror(errno));
-- 
2.43.0


From 00ef3c5f292a2f3c3f81558182dad43ef9a95baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 07/20] fix: shr_open checks all recorded sizes and message
 counters of a ring file

---
 src/shr.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 1ade8fe..1615381 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -395,18 +395,28 @@ size_t shr_farm_stat(shr *s, int reset) {
 static int validate_ring(struct shr *s) {
   int rc = -1;
   shr_ctrl *r = s->r;
-  ssize_t sz, exp_sz;
+  size_t avail;
 
   if (s->s.st_size < (off_t)MIN_RING_SZ)       { rc = -2; goto done; }
   if (memcmp(s->r->magic,magic,sizeof(magic))) { rc = -3; goto done; }
 
-  exp_sz = sizeof(shr_ctrl) + r->n + r->pad_len + r->mv_len + r->app_len;
-  sz = s->s.st_size;
+  /* undersize (see note). subtract, since a sum could overflow */
+  avail = s->s.st_size - sizeof(shr_ctrl);
+  if (r->n       > avail) {rc = -4; goto done; }
+  avail -= r->n;
+  if (r->pad_len > avail) {rc = -4; goto done; }
+  avail -= r->pad_len;
+  if (r->mv_len  > avail) {rc = -4; goto done; }
+  avail -= r->mv_len;
+  if (r->app_len > avail) {rc = -4; goto done; }
 
-  if (sz <  exp_sz) {rc = -4; goto done; } /* undersize (see note) */
   if (r->u >  r->n) {rc = -5; goto done; } /* used > size */
   if (r->i >= r->n) {rc = -6; goto done; } /* input position >= size */
   if (r->r >= r->mm){rc = -7; goto done; } /* output slot# >= #slots */
+  if (r->e >= r->mm){rc = -8; goto done; } /* eldest slot# >= #slots */
+  if (r->m >  r->mp){rc = -9; goto done; } /* unread > present msgs */
+  if (r->mp > r->mm){rc = -10; goto done;} /* present msgs > #slots */
+  if (r->mm > r->mv_len / sizeof(struct msg)) {rc = -11; goto done;}
 
   rc = 0;
 
-- 
2.43.0


From 96c610d18b094016f73737ba1c122e2a0ce92a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 08/20] fix: bw_open closes the wake-up sockets it connected
 when it fails

---
 lib/bw.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..738f795 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -425,6 +425,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     free(w);
     w = NULL;
   }
-- 
2.43.0


From 194517f79e97f06ae351885c264810687dc3b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 09/20] fix: close the directory stream when probing a waiter
 fails

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..bcd8200 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From f8f4212f616d42134c497f371c6335ccd19000b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 10/20] fix: do not take a directory read error for the end of
 the listing

---
 lib/ux.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index bcd8200..83a578b 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -77,7 +77,7 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     goto done;
   }
 
-  while ( (dent = readdir(d)) != NULL) {
+  while ( (errno = 0, dent = readdir(d)) != NULL) {
 
     if (dent->d_type != DT_LNK) continue;
 
@@ -117,6 +117,11 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
+  if (errno) {
+    bw_log("readdir: %s\n", strerror(errno));
+    goto done;
+  }
+
   rc = 0;
 
  done:
-- 
2.43.0


From e324bb2662fab091184fe7ac513f7dc25db41abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:29 +0000
Subject: [PATCH 11/20] fix: size the subscriber buffer for the longest frame
 it accepts

A frame of up to MAX_FRAME bytes passes the length check, yet the buffer
held 1000000 bytes, so once a longer frame filled it the zero-size read
was taken for a disconnect (and every message of that frame was lost).
---
 util/shr-tool.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..47df85c 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -28,19 +28,21 @@ extern char **environ;
  *
  */
 
+/* subscriber safeguard */
+#define MAX_FRAME (1024*1024)
+
 /* we put a couple of buffers out here 
  * to make them go into bss, whereas if
  * they're in the struct below they'd be
  * in the initialized data area and the
- * resulting binary gets much larger */
-#define BUFLEN 1000000
+ * resulting binary gets much larger.
+ * BUFLEN has room for the longest frame
+ * and the length that precedes it */
+#define BUFLEN (MAX_FRAME + sizeof(uint32_t))
 #define NUMIOV (1024 * 1024)
 char buf_bss[BUFLEN];
 struct iovec iov_bss[NUMIOV];
 
-/* subscriber safeguard */
-#define MAX_FRAME (1024*1024)
-
 struct {
   char *prog;
   int verbose;
-- 
2.43.0


From 145028496e29d15a47dd4968c071bd2d3770f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:29 +0000
Subject: [PATCH 12/20] fix: forward whole messages when a write is partial

read: a failed write went unnoticed because its result was kept in an
unsigned variable, and after a partial write the message was written from
its first byte again. pub: a partial write of the length prefix aborted.
---
 util/shr-tool.c | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 47df85c..94fb7c3 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -649,6 +649,34 @@ int handle_signal(void) {
   return rc;
 }
 
+/*
+ * write_all
+ *
+ * write whole buffer to descriptor,
+ * continuing after any partial write
+ *
+ * returns
+ *  0 success
+ * -1 error
+ *
+ */
+int write_all(int fd, void *data, size_t len) {
+  char *c = data;
+  ssize_t nr;
+
+  while (len > 0) {
+    nr = write(fd, c, len);
+    if (nr < 0) {
+      fprintf(stderr, "write: %s\n", strerror(errno));
+      return -1;
+    }
+    c += nr;
+    len -= nr;
+  }
+
+  return 0;
+}
+
 /*
  * handle_io
  *
@@ -656,9 +684,9 @@ int handle_signal(void) {
  */
 int handle_io(void) {
   int rc = -1, sc, fl;
-  ssize_t nr, np;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
+  ssize_t nr;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -686,16 +714,7 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
-        nw = write(STDOUT_FILENO, out, nr);
-        if (nw < 0) {
-          fprintf(stderr, "write: %s\n", strerror(errno));
-          goto done;
-        }
-        nr -= nw;
-        out += nw;
-      } while (nr > 0);
+      else if (write_all(STDOUT_FILENO, cfg.buf, nr) < 0) goto done;
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
@@ -717,13 +736,10 @@ int handle_io(void) {
           goto done;
         }
         len32 = (uint32_t)nr;
-        np = write(cfg.pub_fd, &len32, sizeof(len32));
-        if (np < 0) {
-          fprintf(stderr, "write: %s\n", strerror(errno));
+        if (write_all(cfg.pub_fd, &len32, sizeof(len32)) < 0) {
           if (close_client() < 0) goto done;
           break;
         }
-        assert(np == sizeof(len32));
       }
 
       /* write frame proper */
-- 
2.43.0


From 1decdb211af60b4e4b4eab0a408eb85ce08d6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:29 +0000
Subject: [PATCH 13/20] fix: the publisher outlives its clients

A receive error on the client connection ended the publisher; a failure
to watch a new connection was overwritten by the next return value and
left a client that is never noticed to disconnect.
---
 util/shr-tool.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 94fb7c3..721fb7d 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -566,14 +566,12 @@ int handle_client(void) {
   nr = recv(cfg.pub_fd, buf, sizeof(buf), MSG_DONTWAIT);
   if (nr < 0) {
     fprintf(stderr, "recv: %s\n", strerror(errno) );
-    close_client();
-    return -1;
+    return close_client();
   }
 
   if (nr == 0) {
     fprintf(stderr, "client disconnected\n");
-    close_client();
-    return 0;
+    return close_client();
   }
 
   assert(nr > 0);
@@ -609,6 +607,7 @@ int accept_client(void) {
 
   cfg.pub_fd = sc;
   sc = new_epoll(EPOLLIN, cfg.pub_fd);
+  if (sc < 0) goto done;
   fprintf(stderr, "connection from %s\n", inet_ntoa(remote.sin_addr));
 
   /* start epolling ring */
-- 
2.43.0


From 512e2caeb686c863e37ef4592fe7c8bcd79dec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 14/20] fix: do not mount where the mount point could not be
 checked

Only the answer "already a ramdisk" stopped the mount; when the mount
point or its parent could not be examined it was mounted regardless, so
an existing ramdisk could be hidden under a new one.
---
 util/shr-tool.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 721fb7d..f1a96c3 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1035,10 +1035,9 @@ int main(int argc, char *argv[]) {
       switch (cfg.mount_mode) {
         case mnt_mount:
         case mnt_make_subdirs:
-          if (suitable_mountpoint(cfg.mountpoint, &sb, &sf) == -2) {
-            printf("%s: already a ramdisk\n", cfg.mountpoint);
-            goto done;
-          }
+          sc = suitable_mountpoint(cfg.mountpoint, &sb, &sf);
+          if (sc == -2) printf("%s: already a ramdisk\n", cfg.mountpoint);
+          if (sc < 0) goto done;
           snprintf(opts, sizeof(opts), "size=%zu", cfg.size);
           data = cfg.size ? opts : NULL;
           sc = mount("shr", cfg.mountpoint, cfg.fs_type, MS_NOATIME, data);
-- 
2.43.0


From 67ebff74bd1b432b345e80a11d8e32f00c9ed0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 15/20] fix: -H does not also set the maximum number of
 messages

---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index f1a96c3..3cd11c2 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -989,7 +989,7 @@ int main(int argc, char *argv[]) {
       case 'd': cfg.mount_mode = mnt_make_subdirs; break;
       case 'u': cfg.mount_mode = mnt_unmount; break;
       case 'q': cfg.mount_mode = mnt_query; break;
-      case 'H': cfg.nr_hugepages = atoi(optarg);
+      case 'H': cfg.nr_hugepages = atoi(optarg); break;
       case 'N': cfg.flags |= SHR_MAXMSGS_2;
                 cfg.max_msgs = atoi(optarg);
                 break;
-- 
2.43.0


From ee323190333e0d8e102f659edf70899f371fb4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 16/20] fix: writehex takes hexadecimal digits only

Pairs such as "1z" or " 1" were written as another byte than stated, and
"-1" ended the program in an assertion.
---
 util/shr-tool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3cd11c2..3ab0c58 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -198,6 +198,7 @@ int unhex(char *h) {
 
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
+  if (strspn(h, "0123456789abcdefABCDEF") != len) goto done;
   for(i=0; i < len; i += 2) {
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
-- 
2.43.0


From fd82c57563a454b7cf588ea8db09dc18c5a51c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 17/20] fix: status -A fails when the file was not completely
 written

---
 util/shr-tool.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3ab0c58..cf1d62b 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1150,14 +1150,12 @@ int main(int argc, char *argv[]) {
           int fd = open(cfg.wfile, O_WRONLY|O_CREAT|O_TRUNC, 0644);
           if (fd < 0) {
             fprintf(stderr, "open %s: %s\n", cfg.wfile, strerror(errno));
-          } else { 
-            nr = write(fd, app_data, app_len);
-            if (nr < 0) {
-              fprintf(stderr, "write: %s\n", strerror(errno));
-              goto done;
-            }
-            close(fd);
+            rc = -1;
+            goto done;
           }
+          rc = write_all(fd, app_data, app_len);
+          close(fd);
+          if (rc < 0) goto done;
         }
         free(app_data);
       }
-- 
2.43.0


From 07bb48e944251f31d884184feb3fed81536001aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:07 +0000
Subject: [PATCH 18/20] fix: unnamed sockets do not end the search for a
 socket's name

---
 lib/ux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index 83a578b..7b949d7 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -274,9 +274,9 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       b++;
     }
 
-    /* name is after inode */
+    /* name is after inode; absent if socket is unnamed */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
+    if (name == NULL) { name = b; len = 0; }
 
     /* does name match? */
     if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
-- 
2.43.0


From fb13440e30b90558bd3c34e22d9a741415349636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:17 +0000
Subject: [PATCH 19/20] fix: shr_ctl keeps the descriptor given for a
 non-blocking writer

shr_ctl(SHR_POLLFD) reported success for a writer without a wake-up
handle, but kept no trace of the descriptor, so that a later blocking
shr_flush did not return -3 when it became ready.
---
 src/shr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 1615381..06d63da 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1220,7 +1220,7 @@ void shr_close(struct shr *s) {
  * -1 on error
  */
 int shr_ctl(shr *s, int flag, ...) {
-  int rc = -1, fd, sc;
+  int rc = -1, fd, sc, need_r2w;
 
   va_list ap;
   va_start(ap, flag);
@@ -1230,6 +1230,16 @@ int shr_ctl(shr *s, int flag, ...) {
     case SHR_POLLFD:
       fd = (int)va_arg(ap, int);
 
+      /* a non-blocking writer can block too, in shr_flush. that opens r2w
+       * if needed, too late for fd; open it now. (no wait in SHR_DROP mode) */
+      if ((s->flags & SHR_WRONLY) && (s->r2w == NULL)) {
+        if (lock(s->ring_fd) < 0) goto done;
+        need_r2w = (s->r->gflags & SHR_DROP) ? 0 : 1;
+        if (need_r2w) s->r2w = bw_open(BW_WAIT, &s->r->r2w, &s->wait_fd);
+        unlock(s->ring_fd);
+        if (need_r2w && (s->r2w == NULL)) goto done;
+      }
+
       /* add the fd to be monitored to the "wait" mode bw depending on r vs w */
       sc = 0;
       if ((s->flags & SHR_WRONLY) && s->r2w) sc = bw_ctl(s->r2w, BW_POLLFD, fd);
-- 
2.43.0


From 4d96e99e69c6b6340d986a752610c7bd6566398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:27 +0000
Subject: [PATCH 20/20] fix: shr-tool write stores each input line whole and
 reports read errors

A line of more than 999 bytes was stored as several messages, text behind a
NUL byte was lost, and a read error on standard input was reported as success.
---
 util/shr-tool.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index cf1d62b..ffbb92c 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -925,11 +925,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1177,14 +1177,17 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
-        if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
+      while ((nr = getline(&line, &line_sz, stdin)) > 0) {
+        if (line[nr-1] == '\n') line[--nr] = '\0';
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
         }
       }
+      if (!feof(stdin)) {
+        fprintf(stderr, "getline: %s\n", strerror(errno));
+        goto done;
+      }
       break;
 
     case mode_write_hex:
@@ -1327,6 +1330,7 @@ int main(int argc, char *argv[]) {
   if (cfg.o1) shr_close(cfg.o1);
   if (cfg.o2) shr_close(cfg.o2);
   if (cfg.hex_arg) free(cfg.hex_arg);
+  if (line) free(line);
   // don't free(cfg.fs_type);, default is static string
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
-- 
2.43.0

