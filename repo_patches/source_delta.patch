From 710d2bb1a1c5845b66be8b05607c165af8bde889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 01/65] fix: reject sequence entries beyond the file list (off
 by one in bounds check)

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..ee05ef7 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -146,7 +146,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From d7ebac0ed4d7f6a95a3aa3297bf51e965fc38014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 02/65] fix: reject oversized numbers in sequence instead of
 shifting out of range

---
 src/drpm_apply.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index ee05ef7..115d0b2 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -121,6 +121,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
                 num_buf <<= shift;
             num |= num_buf;
             shift += 3;
+            if (shift > 60) {
+                error = DRPM_ERR_FORMAT;
+                goto cleanup_fail;
+            }
             continue;
         }
         if (shift)
-- 
2.43.0


From fb762ae3ab80faa7f7a4107d9fa80aad3055992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 03/65] fix: free file index when an installed file fails its
 check

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 115d0b2..9b8b74d 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -233,7 +233,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
                 break;
             }
             if (check != NULL && (error = check(files[i].name, digest_algo, digest, filesize)) != DRPM_ERR_OK)
-                goto cleanup;
+                goto cleanup_fail;
         }
 
         if (want_seq) {
-- 
2.43.0


From 3ffadf436de68eb7a3c083b1d40b05b515eea209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 04/65] fix: close checked file when prelink detection fails

---
 src/drpm_apply.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 9b8b74d..0134ceb 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -306,8 +306,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,7 +351,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From a9d696300b2a681e251f5d74525376cc956ad42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 05/65] fix: report read errors of checked files as I/O errors

---
 src/drpm_apply.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 0134ceb..f888ffb 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -333,7 +333,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     unsigned char buf[BUFFER_SIZE];
     struct checksum chsm;
     unsigned char chsm_digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)];
-    ssize_t read_len;
+    ssize_t read_len = 0;
     struct stat stats;
     bool prelink;
 
@@ -372,6 +372,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
-- 
2.43.0


From c5ffc6da2ce60541a6c5bf850559724ffaae30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 06/65] fix: do not free a pointer into the section table when
 detecting prelink

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index f888ffb..9910809 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -537,6 +537,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *strhdr;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -590,14 +591,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From 96d2e8271be9881bf0d929fb0372578e767da4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 07/65] fix: always remove the temporary file used for undoing
 prelink

---
 src/drpm_apply.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 9910809..192a6e6 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -652,6 +652,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -661,11 +662,13 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
+    fd = open(template, O_RDONLY);
 
     unlink(template);
 
+    if (fd < 0)
+        return DRPM_ERR_IO;
+
     *filedesc = fd;
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 7df9e020c3830a96c5a539aa9b474df1b1078239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 08/65] fix: do not wait forever for prelink when its status
 cannot be collected

---
 src/drpm_apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 192a6e6..61d02b3 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -26,6 +26,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>
@@ -660,7 +661,7 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
     fd = open(template, O_RDONLY);
 
-- 
2.43.0


From 83c345843969a1664931d1017a2e8617eb263e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 09/65] fix: check digest string length before decoding into
 fixed-size buffer

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..ff3ad89 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) / 2 == MD5_DIGEST_LENGTH &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) / 2 == SHA256_DIGEST_LENGTH &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From df0f1a0516e2d14eff598775cfbb4a4848b91057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 10/65] fix: release RPM structure when reading an RPM fails

---
 src/drpm_rpm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..43c1ef0 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -285,8 +285,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        rpm_destroy(rpmst);
         return DRPM_ERR_IO;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -342,7 +344,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
-- 
2.43.0


From 538a5f6a36305af6adff2918fcff2d3132503436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 11/65] fix: keep reallocated archive buffer when hashing it
 fails

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 43c1ef0..7f5ba8e 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -210,12 +210,12 @@ int rpm_read_archive(struct rpm *rpmst, const char *filename,
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
+            rpmst->archive = archive_tmp;
             if ((seq_md5 != NULL && MD5_Update(seq_md5, buffer, bytes_read) != 1) ||
                 (full_md5 != NULL && MD5_Update(full_md5, buffer, bytes_read) != 1)) {
                 error = DRPM_ERR_OTHER;
                 goto cleanup;
             }
-            rpmst->archive = archive_tmp;
             memcpy(rpmst->archive + rpmst->archive_size, buffer, bytes_read);
             rpmst->archive_size += bytes_read;
         }
-- 
2.43.0


From 6d047b60a1f6f834716e39762071c5496a2d659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 12/65] fix: handle failures to unload the immutable header
 region

---
 src/drpm_rpm.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 7f5ba8e..e1242b0 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -54,7 +54,7 @@ static void rpm_init(struct rpm *);
 static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
-static void rpm_header_unload_region(struct rpm *, rpmTagVal);
+static int rpm_header_unload_region(struct rpm *, rpmTagVal);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
 
@@ -144,24 +144,30 @@ int rpm_export_header(struct rpm *rpmst, unsigned char **header_ret, size_t *len
     return DRPM_ERR_OK;
 }
 
-void rpm_header_unload_region(struct rpm *rpmst, rpmTagVal rpmtag)
+int rpm_header_unload_region(struct rpm *rpmst, rpmTagVal rpmtag)
 {
+    int error = DRPM_ERR_OK;
     Header hdr;
     HeaderIterator hdr_iter;
     rpmtd copy_td;
     rpmtd td = rpmtdNew();
 
     if (headerGet(rpmst->header, rpmtag, td, HEADERGET_DEFAULT)) {
+        if ((hdr = headerImport(td->data, 0, HEADERIMPORT_COPY)) == NULL) {
+            rpmtdFreeData(td);
+            rpmtdFree(td);
+            return DRPM_ERR_FORMAT;
+        }
+
         headerFree(rpmst->header);
         rpmst->header = headerNew();
         copy_td = rpmtdNew();
 
-        hdr = headerImport(td->data, 0, HEADERIMPORT_COPY);
         hdr_iter = headerInitIterator(hdr);
 
         while (headerNext(hdr_iter, copy_td)) {
-            if (copy_td->data)
-                headerPut(rpmst->header, copy_td, HEADERPUT_DEFAULT);
+            if (copy_td->data && headerPut(rpmst->header, copy_td, HEADERPUT_DEFAULT) != 1)
+                error = DRPM_ERR_FORMAT;
             rpmtdFreeData(copy_td);
         }
 
@@ -172,6 +178,8 @@ void rpm_header_unload_region(struct rpm *rpmst, rpmTagVal rpmtag)
     }
 
     rpmtdFree(td);
+
+    return error;
 }
 
 int rpm_read_archive(struct rpm *rpmst, const char *filename,
@@ -706,10 +714,13 @@ int rpm_get_payload_format(struct rpm *rpmst, unsigned short *payfmt)
 /* Replaces the payload format information in the header. */
 int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
 {
+    int error;
+
     if (rpmst == NULL || new_payfmt == NULL)
         return DRPM_ERR_PROG;
 
-    rpm_header_unload_region(rpmst, RPMTAG_HEADERIMMUTABLE);
+    if ((error = rpm_header_unload_region(rpmst, RPMTAG_HEADERIMMUTABLE)) != DRPM_ERR_OK)
+        return error;
 
     if (headerDel(rpmst->header, RPMTAG_PAYLOADFORMAT) != 0)
         return DRPM_ERR_FORMAT;
-- 
2.43.0


From 5510b83c5eb85699ac24698df87637370a62971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 13/65] fix: check result of reloading headers

---
 src/drpm_rpm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index e1242b0..effb37c 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -728,7 +728,8 @@ int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
     if (headerPutString(rpmst->header, RPMTAG_PAYLOADFORMAT, new_payfmt) != 1)
         return DRPM_ERR_FORMAT;
 
-    rpmst->header = headerReload(rpmst->header, RPMTAG_HEADERIMMUTABLE);
+    if ((rpmst->header = headerReload(rpmst->header, RPMTAG_HEADERIMMUTABLE)) == NULL)
+        return DRPM_ERR_FORMAT;
 
     return DRPM_ERR_OK;
 }
@@ -979,7 +980,11 @@ int rpm_signature_set_md5(struct rpm *rpmst, unsigned char md5[MD5_DIGEST_LENGTH
 /* Reloads the signature to accommodate for changes. */
 int rpm_signature_reload(struct rpm *rpmst)
 {
-    rpmst->signature = headerReload(rpmst->signature, RPMTAG_HEADERSIGNATURES);
+    if (rpmst == NULL)
+        return DRPM_ERR_PROG;
+
+    if ((rpmst->signature = headerReload(rpmst->signature, RPMTAG_HEADERSIGNATURES)) == NULL)
+        return DRPM_ERR_FORMAT;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From a7a7034bab27ace98bfe6da64050ce2e4aa9380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 14/65] fix: report failures to set signature tags

---
 src/drpm_rpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index effb37c..17c6c13 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -935,6 +935,7 @@ int rpm_signature_empty(struct rpm *rpmst)
  * Should be equal to the size all data following the signature. */
 int rpm_signature_set_size(struct rpm *rpmst, uint32_t size)
 {
+    int error = DRPM_ERR_OK;
     rpmtd tag_data;
 
     if (rpmst == NULL)
@@ -947,17 +948,19 @@ int rpm_signature_set_size(struct rpm *rpmst, uint32_t size)
     tag_data->data = &size;
     tag_data->count = 1;
 
-    headerPut(rpmst->signature, tag_data, HEADERPUT_DEFAULT);
+    if (headerPut(rpmst->signature, tag_data, HEADERPUT_DEFAULT) != 1)
+        error = DRPM_ERR_FORMAT;
 
     rpmtdFree(tag_data);
 
-    return DRPM_ERR_OK;
+    return error;
 }
 
 /* Sets MD5 tag in the signature.
  * Should be equal to the MD5 sum of all data following the signature. */
 int rpm_signature_set_md5(struct rpm *rpmst, unsigned char md5[MD5_DIGEST_LENGTH])
 {
+    int error = DRPM_ERR_OK;
     rpmtd tag_data;
 
     if (rpmst == NULL || md5 == NULL)
@@ -970,11 +973,12 @@ int rpm_signature_set_md5(struct rpm *rpmst, unsigned char md5[MD5_DIGEST_LENGTH
     tag_data->data = md5;
     tag_data->count = MD5_DIGEST_LENGTH;
 
-    headerPut(rpmst->signature, tag_data, HEADERPUT_DEFAULT);
+    if (headerPut(rpmst->signature, tag_data, HEADERPUT_DEFAULT) != 1)
+        error = DRPM_ERR_FORMAT;
 
     rpmtdFree(tag_data);
 
-    return DRPM_ERR_OK;
+    return error;
 }
 
 /* Reloads the signature to accommodate for changes. */
-- 
2.43.0


From 6ff16c75f1b604d735fa7d0d4054355641e09d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 15/65] fix: missing payload format tag is a format error

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 17c6c13..56fd5b4 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -696,7 +696,7 @@ int rpm_get_payload_format(struct rpm *rpmst, unsigned short *payfmt)
         return DRPM_ERR_PROG;
 
     if ((payload_format = headerGetString(rpmst->header, RPMTAG_PAYLOADFORMAT)) == NULL)
-        return DRPM_ERR_MEMORY;
+        return DRPM_ERR_FORMAT;
 
     if (strcmp(payload_format, "drpm") == 0) {
         *payfmt = RPM_PAYLOAD_FORMAT_DRPM;
-- 
2.43.0


From e870feff6daed8af6b282a35bd0530c543cb9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 16/65] fix: report errors when closing a written RPM

---
 src/drpm_rpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 56fd5b4..3dc7295 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -549,7 +549,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
-- 
2.43.0


From 8abc5945c68a9aa7c33be555d038a5278859a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 17/65] fix: check size of signature header before importing it

---
 src/drpm_rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 3dc7295..6ad6fae 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -561,6 +561,7 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    uint64_t blob_len;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -568,6 +569,11 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    /* index and data must fit in buffer */
+    blob_len = 8 + 16 * (uint64_t)parse_be32(leadsig + skip) + parse_be32(leadsig + skip + 4);
+    if (blob_len > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
-- 
2.43.0


From 0338eb7e845d426b647120db0b778eefc7040dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 18/65] fix: do not leak the exported header or release the
 database's own header

---
 src/drpm_rpm.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 6ad6fae..936ea71 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1033,6 +1033,7 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     int error = DRPM_ERR_OK;
     rpmts trans = NULL;
     rpmdbMatchIterator iter = NULL;
+    struct rpm installed;
     char *name;
     char *epoch = NULL;
     char *version;
@@ -1044,14 +1045,18 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
     rpm_init(*rpmst);
 
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
+        error = DRPM_ERR_MEMORY;
+        goto cleanup_fail;
+    }
+
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
@@ -1093,12 +1098,14 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (arch)
         rpmdbSetIteratorRE(iter, RPMTAG_ARCH, RPMMIRE_STRCMP, arch);
 
-    if (((*rpmst)->header = rpmdbNextIterator(iter)) == NULL) {
+    // header belongs to the iterator
+    rpm_init(&installed);
+    if ((installed.header = rpmdbNextIterator(iter)) == NULL) {
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
 
-    if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
+    if ((error = rpm_export_header(&installed, &header, &header_size)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
@@ -1119,6 +1126,7 @@ cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
     free(str);
+    free(header);
 
     return error;
 }
-- 
2.43.0


From ca7088246a4869aa931ef5080cf7de2a87ea6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 19/65] fix: free drpm structure when it cannot be filled

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..e02b96d 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0


From ccc1535c527675d68367b3f5b98a6131eeabc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 20/65] fix: release everything when delta cannot be applied
 from filesystem

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index e02b96d..79bc7d9 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -572,11 +572,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From c21f524f2e1c77ee41358e3d99229b0930622cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 21/65] fix: report errors when closing the reconstructed RPM

---
 src/drpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 79bc7d9..af7b175 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -762,7 +762,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
-- 
2.43.0


From 815a4cd229679204774eef10907d5f92a08746eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 22/65] fix: release copied options when they do not fit the
 delta type

---
 src/drpm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index af7b175..6bdfbcb 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -329,12 +329,17 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
     if (user_opts == NULL)
-        drpm_make_options_defaults(&opts);
+        error = drpm_make_options_defaults(&opts);
     else
-        drpm_make_options_copy(&opts, user_opts);
+        error = drpm_make_options_copy(&opts, user_opts);
 
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    if (error != DRPM_ERR_OK)
+        goto cleanup;
+
+    if (rpm_only && opts.version < 3) {
+        error = DRPM_ERR_ARGS;
+        goto cleanup;
+    }
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
-- 
2.43.0


From 07c318d93268c7520dbda08c4809252ae72c71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 23/65] fix: release target RPM when making a standard delta
 fails early

---
 src/drpm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 6bdfbcb..7dca382 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -380,6 +380,9 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             goto cleanup;
     }
 
+    if (!rpm_only)
+        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
+
     /* checking if archive is in CPIO format */
     if ((error = rpm_get_payload_format(alone ? solo_rpm : new_rpm, &payload_format)) != DRPM_ERR_OK)
         goto cleanup;
@@ -398,9 +401,6 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
         delta.comp_level = delta.tgt_comp_level;
     }
 
-    if (!rpm_only)
-        delta.head.tgt_rpm = alone ? solo_rpm : new_rpm;
-
     /* reading source and target NEVRs */
     if ((error = rpm_get_nevr(alone ? solo_rpm : old_rpm, &delta.src_nevr)) != DRPM_ERR_OK ||
         (rpm_only && (error = rpm_get_nevr(new_rpm, &delta.head.tgt_nevr)) != DRPM_ERR_OK))
-- 
2.43.0


From e596d69a2ac907c6e0f41697b0a844a91c7bc05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 24/65] fix: do not free reallocated archive twice when out of
 memory

---
 src/drpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 7dca382..2bdca20 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -424,12 +424,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
-- 
2.43.0


From c507fb40238d083997662ffdfea4ef544025c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 25/65] fix: report lack of memory when copying options

---
 src/drpm_options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..cf5f211 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -105,19 +105,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From 0b34ccb68cef4d9a4d41329d11578248f6bbab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 26/65] fix: do not destroy options when copying them onto
 themselves

---
 src/drpm_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index cf5f211..a9a59c9 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -86,6 +86,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
-- 
2.43.0


From 576551f569fb9272148be640feef79e31d22ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 27/65] fix: do not dereference NULL when destroying options

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index a9a59c9..301cb62 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From 16d016ae78c1ba108413e02f95334a58d7521872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 28/65] fix: only accept lzip as delta compression if it is
 supported

---
 src/drpm_options.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 301cb62..18bbf09 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -168,7 +168,9 @@ int drpm_make_options_set_delta_comp(struct drpm_make_options *opts, unsigned sh
     case DRPM_COMP_BZIP2:
     case DRPM_COMP_LZMA:
     case DRPM_COMP_XZ:
+#ifdef HAVE_LZLIB_DEVEL
     case DRPM_COMP_LZIP:
+#endif
 #ifdef WITH_ZSTD
     case DRPM_COMP_ZSTD:
 #endif
@@ -215,7 +217,9 @@ int drpm_make_options_set_addblk_comp(struct drpm_make_options *opts, unsigned s
     case DRPM_COMP_BZIP2:
     case DRPM_COMP_LZMA:
     case DRPM_COMP_XZ:
+#ifdef HAVE_LZLIB_DEVEL
     case DRPM_COMP_LZIP:
+#endif
 #ifdef WITH_ZSTD
     case DRPM_COMP_ZSTD:
 #endif
-- 
2.43.0


From 7c3824c4698b2fd72ef8129fd3eac321e366e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 29/65] fix: reject unknown delta versions

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..569ec70 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -110,6 +110,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From f226b8ebfa33c9e995e2875962824e3d0f539ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 30/65] fix: avoid 32-bit overflow in sizes of buffers for
 strings

---
 src/drpm_read.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 569ec70..578f340 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -126,7 +126,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -384,7 +384,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
@@ -511,11 +511,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
          (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-- 
2.43.0


From 84e65f194c5effef10d8267811a4b0adb94bc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 31/65] fix: reject element counts whose size overflows 32 bits

---
 src/drpm_read.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 578f340..5c4c9c4 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -196,6 +196,10 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 goto cleanup;
 
             if (delta->offadj_elems_count > 0) {
+                if (delta->offadj_elems_count > UINT32_MAX / 8) {
+                    error = DRPM_ERR_OVERFLOW;
+                    goto cleanup;
+                }
                 offadj_elems_size = delta->offadj_elems_count * 2;
                 if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
@@ -245,6 +249,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > UINT32_MAX / 8 || delta->ext_copies_count > UINT32_MAX / 8) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
-- 
2.43.0


From 6d17371dc1692947a48cb96ea846cc8c7b61d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 32/65] fix: do not leak target RPM header if the start of a
 standard delta is invalid

---
 src/drpm_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 5c4c9c4..f7584ab 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -431,6 +431,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
@@ -438,8 +440,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
-- 
2.43.0


From 29b1c6bacd46aaaa986b20c13fef839215fa4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 33/65] fix: release compressed delta when writing it fails

---
 src/drpm_write.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..22406bf 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
-- 
2.43.0


From 4eba4a38d2a2e40123048fa58143046ac5cdeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 34/65] fix: report errors when closing the written delta

---
 src/drpm_write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 22406bf..d37c0f6 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -272,7 +272,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From 1e8463b53f39afe9d4ea06e6292835b2da92d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 35/65] fix: report errors when writing the sequence file

---
 src/drpm_write.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index d37c0f6..438e97d 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -294,11 +294,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From 71bd9b1195c1dfceded9fa83a13981bcfe3f6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 36/65] fix: avoid 32-bit overflow in size of sequence string

---
 src/drpm_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 438e97d..f34c76f 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -287,7 +287,7 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
     if ((file = fopen(filename, "w")) == NULL)
         return DRPM_ERR_IO;
 
-    if ((sequence = malloc(delta->sequence_len * 2 + 1)) == NULL) {
+    if ((sequence = malloc((size_t)delta->sequence_len * 2 + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
-- 
2.43.0


From b00012d463397aac4e0b5bb207dfd9329f76fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 37/65] fix: do not truncate 64-bit lengths in older delta
 versions

---
 src/drpm_write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index f34c76f..06c3925 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -85,6 +85,11 @@ int write_deltarpm(struct deltarpm *delta)
     if (delta->type != DRPM_TYPE_STANDARD && delta->type != DRPM_TYPE_RPMONLY)
         return DRPM_ERR_PROG;
 
+    // older versions only have 32 bits for these lengths
+    if (delta->version < 3 &&
+        (delta->ext_data_len > UINT32_MAX || delta->int_data_len > UINT32_MAX))
+        return DRPM_ERR_OVERFLOW;
+
     version[0] = 'D';
     version[1] = 'L';
     version[2] = 'T';
-- 
2.43.0


From cb5e91ca32f71fc37345d97aaf1ad3b39e2446c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 38/65] fix: do not leave dangling pointers behind in
 compression wrapper

---
 src/drpm_write.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 06c3925..a69384f 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -349,6 +349,7 @@ int compstrm_wrapper_destroy(struct compstrm_wrapper **csw)
     compstrm_destroy(&(*csw)->strm);
     free((*csw)->uncomp_data);
     free(*csw);
+    *csw = NULL;
 
     return DRPM_ERR_OK;
 }
@@ -392,6 +393,7 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From dbfa844e5557dfc01231faa64215db4f0e02367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 39/65] fix: free compression stream if the method is not
 supported

---
 src/drpm_compstrm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..e3ab82f 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -484,7 +484,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 110f023741e2081a91a8423e698d8241d2166223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 40/65] fix: fail if compression can not be set up for the
 given level

---
 src/drpm_compstrm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index e3ab82f..d3309d5 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -301,6 +301,10 @@ int init_bzip2(struct compstrm *strm, int level)
     case BZ_MEM_ERROR:
         BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    case BZ_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -326,6 +330,10 @@ int init_gzip(struct compstrm *strm, int level)
     case Z_MEM_ERROR:
         deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    case Z_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -343,7 +351,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From 3f18a8775c79a9e55d0dbd49089a0f6ee6447a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 41/65] fix: do not ignore errors from bzip2 and zlib when
 compressing

---
 src/drpm_compstrm.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index d3309d5..251c5ae 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -114,6 +114,10 @@ int finish_bzip2(struct compstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         ret = BZ2_bzCompress(&strm->stream.bzip2, BZ_FINISH);
+        if (ret != BZ_FINISH_OK && ret != BZ_STREAM_END) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
             continue;
@@ -145,7 +149,10 @@ int finish_gzip(struct compstrm *strm)
     do {
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
-        deflate(&strm->stream.gzip, Z_FINISH);
+        if (deflate(&strm->stream.gzip, Z_FINISH) == Z_STREAM_ERROR) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
         out_len = CHUNK_SIZE - strm->stream.gzip.avail_out;
         if (out_len == 0)
             continue;
@@ -629,7 +636,8 @@ int writechunk_bzip2(struct compstrm *strm, size_t in_len, const void *in_buffer
     do {
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
-        BZ2_bzCompress(&strm->stream.bzip2, BZ_RUN);
+        if (BZ2_bzCompress(&strm->stream.bzip2, BZ_RUN) == BZ_SEQUENCE_ERROR)
+            return DRPM_ERR_OTHER;
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
             continue;
@@ -655,7 +663,8 @@ int writechunk_gzip(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do {
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
-        deflate(&strm->stream.gzip, Z_NO_FLUSH);
+        if (deflate(&strm->stream.gzip, Z_NO_FLUSH) == Z_STREAM_ERROR)
+            return DRPM_ERR_OTHER;
         out_len = CHUNK_SIZE - strm->stream.gzip.avail_out;
         if (out_len == 0)
             continue;
-- 
2.43.0


From a2ff68f3704f5481d82e01f66ff77e9952ab2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 42/65] fix: do not leak zstd buffers and context when
 compressing fails

---
 src/drpm_compstrm.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 251c5ae..51c948a 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -254,10 +254,13 @@ cleanup:
 #ifdef WITH_ZSTD
 int finish_zstd(struct compstrm *strm)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
-    if (buffOut == NULL)
+    if (buffOut == NULL) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_MEMORY;
+    }
     unsigned char *data_tmp;
 
     size_t remaining;
@@ -266,21 +269,26 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(remaining != 0);
 
+cleanup:
     free(buffOut);
     ZSTD_freeCCtx(strm->stream.zstd_context);
-    return DRPM_ERR_OK;
+    return error;
 }
 
 #endif
@@ -424,8 +432,10 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
@@ -763,13 +773,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
-- 
2.43.0


From 0d121b4b653224c78141c67c71787e82f42a7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 43/65] fix: release compression state of streams destroyed
 before they are finished

---
 src/drpm_compstrm.c | 52 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 51c948a..c5f9638 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,6 +55,7 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*release)(struct compstrm *);
     bool finished;
 };
 
@@ -65,6 +66,9 @@ static int init_bzip2(struct compstrm *, int);
 static int init_gzip(struct compstrm *, int);
 static int init_lzma(struct compstrm *, int);
 static int init_xz(struct compstrm *, int);
+static void release_bzip2(struct compstrm *);
+static void release_gzip(struct compstrm *);
+static void release_lzma(struct compstrm *);
 static int writechunk(struct compstrm *, size_t, const void *);
 static int writechunk_bzip2(struct compstrm *, size_t, const void *);
 static int writechunk_gzip(struct compstrm *, size_t, const void *);
@@ -73,6 +77,7 @@ static int writechunk_lzma(struct compstrm *, size_t, const void *);
 #ifdef HAVE_LZLIB_DEVEL
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
+static void release_lzip(struct compstrm *);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
 
 static int lzip_error(struct compstrm *strm)
@@ -94,9 +99,41 @@ static int lzip_error(struct compstrm *strm)
 #ifdef WITH_ZSTD
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
+static void release_zstd(struct compstrm *);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
 #endif
 
+/* Functions for releasing unfinished compression for individual methods. */
+
+void release_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+}
+
+void release_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+}
+
+void release_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void release_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+}
+#endif
+
+#ifdef WITH_ZSTD
+void release_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+}
+#endif
+
 /* Functions for finishing compression for individual methods. */
 
 int finish_bzip2(struct compstrm *strm)
@@ -299,6 +336,7 @@ int init_bzip2(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_bzip2;
     strm->finish = finish_bzip2;
+    strm->release = release_bzip2;
 
     strm->stream.bzip2.bzalloc = NULL;
     strm->stream.bzip2.bzfree = NULL;
@@ -329,6 +367,7 @@ int init_gzip(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_gzip;
     strm->finish = finish_gzip;
+    strm->release = release_gzip;
 
     strm->stream.gzip.zalloc = Z_NULL;
     strm->stream.gzip.zfree = Z_NULL;
@@ -361,6 +400,7 @@ int init_lzma(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->release = release_lzma;
     strm->stream.lzma = stream;
 
     if (level == DRPM_COMP_LEVEL_DEFAULT)
@@ -387,6 +427,7 @@ int init_xz(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->release = release_lzma;
     strm->stream.lzma = stream;
     memset(&strm->stream.lzma, 0, sizeof(lzma_stream));
 
@@ -412,6 +453,7 @@ int init_lzip(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
+    strm->release = release_lzip;
 
     if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -439,6 +481,7 @@ int init_zstd(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->release = release_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -450,6 +493,10 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    // finishing already releases this
+    if (!(*strm)->finished && (*strm)->release != NULL)
+        (*strm)->release(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -480,6 +527,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     case DRPM_COMP_NONE:
         (*strm)->write_chunk = writechunk;
         (*strm)->finish = NULL;
+        (*strm)->release = NULL;
         break;
     case DRPM_COMP_GZIP:
         if ((error = init_gzip(*strm, level)) != DRPM_ERR_OK)
@@ -540,6 +588,8 @@ int compstrm_finish(struct compstrm *strm, unsigned char **data, size_t *data_le
         *data_len = 0;
     }
 
+    strm->finished = true;
+
     if (strm->finish != NULL) {
         if ((error = strm->finish(strm)) != DRPM_ERR_OK)
             return error;
@@ -550,8 +600,6 @@ int compstrm_finish(struct compstrm *strm, unsigned char **data, size_t *data_le
                 return DRPM_ERR_IO;
     }
 
-    strm->finished = true;
-
     if (copy_data && strm->data_len > 0) {
         if ((*data = malloc(strm->data_len)) == NULL)
             return DRPM_ERR_MEMORY;
-- 
2.43.0


From db268823d4ca9a70d5bd30800523b5135cc9358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 44/65] fix: fail if decompression can not be set up

---
 src/drpm_decompstrm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..3cc3c3e 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -161,6 +161,10 @@ int init_bzip2(struct decompstrm *strm)
     case BZ_MEM_ERROR:
         BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    case BZ_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -183,6 +187,10 @@ int init_gzip(struct decompstrm *strm)
     case Z_MEM_ERROR:
         inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    case Z_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 7b97e5df730e9e13a8a1e99a375935901d143b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 45/65] fix: do not leak zstd output buffer when decompression
 fails

---
 src/drpm_decompstrm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 3cc3c3e..e0e3e43 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -767,23 +767,28 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     }
 
+    free(buffOut);
+
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From f87a3c56af966f6383d22a8bbbfff4c219cf428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 46/65] fix: do not mistake corrupt compressed data for the end
 of file

---
 src/drpm_decompstrm.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index e0e3e43..3900c40 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -64,6 +64,7 @@ struct decompstrm {
 #endif
     } stream;
     bool lzip_eof;
+    bool input_eof;
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
     size_t comp_size;
@@ -294,6 +295,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->input_eof = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -432,8 +434,10 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         switch ((error = strm->read_chunk(strm))) {
         case DRPM_ERR_OK:
             break;
-        case DRPM_ERR_FORMAT: // nothing more to read
-            eof = true;
+        case DRPM_ERR_FORMAT:
+            if (!strm->input_eof)
+                return error;
+            eof = true; // nothing more to read
             break;
         default:
             return error;
@@ -447,7 +451,8 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         if (buffer_ret != NULL) {
             if ((*buffer_ret = malloc(*len_ret)) == NULL)
                 return DRPM_ERR_MEMORY;
-            memcpy(*buffer_ret, strm->data + strm->data_pos, *len_ret);
+            if (*len_ret > 0)
+                memcpy(*buffer_ret, strm->data + strm->data_pos, *len_ret);
             strm->data_pos = strm->data_len;
         }
     }
@@ -474,8 +479,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -510,8 +517,10 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.bzip2.next_in = in_buffer;
     strm->stream.bzip2.avail_in = in_len;
@@ -563,8 +572,10 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.gzip.next_in = in_buffer;
     strm->stream.gzip.avail_in = in_len;
@@ -617,8 +628,10 @@ int readchunk_lzma(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.lzma.next_in = in_buffer;
     strm->stream.lzma.avail_in = in_len;
@@ -672,8 +685,10 @@ int readchunk_lzip(struct decompstrm *strm)
     int wr;
     int rd;
 
-    if (strm->lzip_eof)
+    if (strm->lzip_eof) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if (strm->filedesc < 0) {
         in_len = MIN(CHUNK_SIZE, strm->buffer_len);
@@ -754,8 +769,10 @@ int readchunk_zstd(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     size_t const buffOutSize = ZSTD_DStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
-- 
2.43.0


From 590544a64c2fb038b7002adb182b2845b8b716a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 47/65] fix: do not free invalid hash table or stream when
 creating diff fails

---
 src/drpm_diff.c   | 6 +++---
 src/drpm_search.c | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..17d5085 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -221,7 +221,7 @@ int make_diff(const unsigned char *old, size_t old_len,
 
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            goto cleanup_fail;
         }
 
         diff_copies[diff_copies_len].new_off = new_pos_prev + len_forward;
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..d6fdc97 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
@@ -201,8 +202,12 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
+    *hsh = NULL;
 }
 
 size_t hash_search(struct hash *hsh,
-- 
2.43.0


From 8165482e58176be6ed630c759169a62efcf2fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 48/65] fix: do not leak sequence when parsing CPIO archive
 fails

---
 src/drpm_make.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..e0540ab 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -613,7 +615,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
-- 
2.43.0


From 323ad0632edcabe62389547b7e334ddeb67dac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 49/65] fix: reject CPIO entries with an empty name instead of
 writing before the buffer

---
 src/drpm_block.c | 5 +++++
 src/drpm_make.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..110d342 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -777,6 +777,11 @@ int fillblock_rpm_standard(struct blocks *blks, struct block *blk, size_t id, si
             c_filesize = cpio_hdr.filesize;
             c_filesize += CPIO_PADDING(c_filesize);
 
+            if (c_namesize == 0) {
+                error = DRPM_ERR_FORMAT;
+                break;
+            }
+
             if (c_namesize > name_buffer_len) {
                 if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                     error = DRPM_ERR_MEMORY;
diff --git a/src/drpm_make.c b/src/drpm_make.c
index e0540ab..687c90c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -355,6 +355,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
         c_filesize = cpio_hdr.filesize;
         c_namesize = cpio_hdr.namesize;
 
+        if (c_namesize == 0) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
+
         if (c_namesize > name_buffer_len) {
             if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                 error = DRPM_ERR_MEMORY;
-- 
2.43.0


From 8b4bedc66978e9f5b927955942e1e3afdbd04a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 50/65] fix: skip unused strings in RPM lists and do not leave
 freed ones behind

---
 src/drpm_make.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 687c90c..e98ad60 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -665,9 +665,12 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_MEMORY;
         if (read(filedesc, *ret, len) != len) {
             free(*ret);
+            *ret = NULL;
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
+    } else if (len > 0) {
+        return rpml_skip(filedesc, len);
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 7446f657ceba7011eff4fb3d3754dc2682b5a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 51/65] fix: keep track of buffer for file names in RPM lists

---
 src/drpm_make.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index e98ad60..b7c313d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -683,14 +683,12 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
     uint16_t len;
     uint8_t buf[2];
     char *filename;
-    uint32_t filename_len;
     uint32_t new_filename_len;
 
     if (filename_ret == NULL || filename_len_ret == NULL)
         return DRPM_ERR_PROG;
 
     filename = *filename_ret;
-    filename_len = *filename_len_ret;
 
     if (read(filedesc, buf, 2) != 2)
         return DRPM_ERR_FORMAT;
@@ -706,10 +704,12 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     new_filename_len = off + len + 1;
 
-    if (new_filename_len > filename_len) {
+    if (new_filename_len > *filename_len_ret) {
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
-        filename_len = new_filename_len;
+        memset(filename + *filename_len_ret, 0, new_filename_len - *filename_len_ret);
+        *filename_ret = filename;
+        *filename_len_ret = new_filename_len;
     }
 
     if (read(filedesc, filename + off, len) != len)
@@ -717,9 +717,6 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
@@ -734,7 +731,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
     uint32_t magic;
     char *name = NULL;
-- 
2.43.0


From f69e214bda2df011a4258fab599c0f84fe28cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 52/65] fix: initialize and release file names of RPM lists, do
 not ignore truncation

---
 src/drpm_make.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index b7c313d..fc3462c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -733,6 +733,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
     char *filename = NULL;
     uint32_t filename_len = 0;
     const char *fname;
+    struct patch_file *file;
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
@@ -755,7 +756,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -779,16 +780,17 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
-            if ((error = rpml_get_filename(filedesc, &filename, &filename_len)))
+            if ((error = rpml_get_filename(filedesc, &filename, &filename_len)) != DRPM_ERR_OK)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
-            strcpy(patch->files[patch->file_count].name, filename);
-            patch->files[patch->file_count].mode = S_IFREG;
-            patch->files[patch->file_count].flags = RPMFILE_UNPATCHED;
-            memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
-            patch->file_count++;
+            file = &patch->files[patch->file_count++];
+            strcpy(file->name, filename);
+            file->mode = S_IFREG;
+            file->flags = RPMFILE_UNPATCHED;
+            memset(file->md5, 0, MD5_DIGEST_LENGTH);
         }
     }
 
@@ -811,13 +813,15 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        file = &patch->files[patch->file_count++];
+        strcpy(file->name, fname);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -838,23 +842,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
-- 
2.43.0


From 624d7496ff1bad2e192620e3c84941143f26b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 53/65] fix: allocate enough memory for RPM print and release
 what was read for it

---
 src/drpm_make.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index fc3462c..0b5213d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -871,13 +871,13 @@ cleanup:
 int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_patches **patches)
 {
     int error = DRPM_ERR_OK;
-    int filedesc;
+    int filedesc = -1;
     struct patch_info *rpmprint;
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -889,7 +889,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
@@ -919,7 +919,9 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if (file_count == 0)
+            break;
+        if ((rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -956,7 +958,15 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
-    close(filedesc);
+    if (filedesc >= 0)
+        close(filedesc);
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
 
     return error;
 }
-- 
2.43.0


From 2a5c6038092143545f27e8494e46c214828cb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 54/65] fix: do not destroy uninitialized RPM when making
 identity delta fails

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 0b5213d..8ac320d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -1039,7 +1039,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From 555f1a754f9145c6c5af868c3ba8a25feee7ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 55/65] fix: set all output arguments for RPMs without files

---
 src/drpm_rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 936ea71..c38d98f 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -790,7 +790,10 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
         headerGet(rpmst->header, RPMTAG_FILEMODES, filemodes, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILEVERIFYFLAGS, fileverify, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILELINKTOS, filelinktos, HEADERGET_MINMEM) != 1) {
+        *files_ret = NULL;
         *count_ret = 0;
+        if (colors_ret != NULL)
+            *colors_ret = false;
         goto cleanup;
     }
 
-- 
2.43.0


From 473afaf91a8b4064016446d5769fc8258c0de626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 56/65] fix: release blocks once and completely when creating
 them fails

---
 src/drpm_block.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 110d342..190bce8 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -159,6 +159,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -223,9 +225,14 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
 
     return error;
 }
-- 
2.43.0


From ba5d52b1330d9a7ce1b5fc1e4381d1b9629d193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 57/65] fix: count block requests per delta instead of in
 shared static variable

---
 src/drpm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 190bce8..956e723 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -81,6 +81,8 @@ struct blocks {
     struct block **blocks_table;
     size_t *blocks_max;
 
+    size_t cleanup_count;
+
     unsigned char *cpio_buffer;
     const char *linkto;
     ssize_t cpio_files_index;
@@ -316,7 +318,6 @@ int blocks_next(struct blocks *blks, unsigned char buffer[BLOCK_SIZE], size_t *b
 /* gets new block and fills it */
 int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t copy_cnt)
 {
-    static size_t cleanup_count = 0;
     int error;
     struct block *blk;
     struct block *page_blk;
@@ -333,7 +334,7 @@ int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t cop
     }
 
     if ((blk = get_free_core_block(blks)) == NULL) {
-        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++cleanup_count % 8) != 0) {
+        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++blks->cleanup_count % 8) != 0) {
             if ((error = new_core_block(blks, &blk)) != DRPM_ERR_OK)
                 return error;
         } else {
-- 
2.43.0


From bbdd34012b49f5ddae0a03cf0eddf16247fb0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 58/65] fix: do not free page blocks that are still in the list

---
 src/drpm_block.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 956e723..2a2db11 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -482,25 +482,22 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
         new->type = BLK_PAGE;
+        new->id = blk->id;
         new->data.offset = blks->page_blocks_count;
         new->next = blks->page_blocks;
         blks->page_blocks = new;
         blks->page_blocks_count++;
         if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
                 return DRPM_ERR_IO;
-            }
             unlink(template);
         }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From d8ab6e6cae8bc3cba9aeedd8eb1d186a6b62d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 59/65] fix: open the right installed file if files were left
 out of the sequence

---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 2a2db11..0c8cb73 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -986,15 +986,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, cpio - blks->cpio_files);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, cpio - blks->cpio_files)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, cpio - blks->cpio_files);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From b96893ff8de710f28421a7f95f1463f878472876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 60/65] fix: forget files that were closed to limit the number
 of open files

---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 0c8cb73..89afb52 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -616,6 +616,9 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        for (size_t i = 0; i < blks->cpio_files_len; i++)
+            if (blks->rpm_files.from_filesytem.open_files[i] == new)
+                blks->rpm_files.from_filesytem.open_files[i] = NULL;
     }
 
     new->filedesc = filedesc;
-- 
2.43.0


From 32bcc94c7d828d69a83593c6e02d061eeeba2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 61/65] fix: do not read beyond symlink target split between
 blocks

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 89afb52..54c7806 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1124,7 +1124,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From 3c50bdcb14a6e1c1271b9c5be98579c94b3c5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 62/65] fix: do not close file twice if undoing prelink fails

---
 src/drpm_block.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 54c7806..a1cbcab 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1036,7 +1036,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
     struct stat stats;
     uint64_t off = id * BLOCK_SIZE;
     int filedesc = -1;
-    bool prelinked;
+    bool prelinked = false;
     unsigned char plnk_buf[128];
     size_t read_len;
     size_t id_orig = id;
@@ -1157,6 +1157,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0


From 7b1aa5d3c0e31d274aae61c35e005b6a200a7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 63/65] fix: leave the archive compressed when applying
 identity rpm-only deltas

---
 src/drpm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 2bdca20..3889d60 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -526,6 +526,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     MD5_CTX md5;
     unsigned char md5_digest[MD5_DIGEST_LENGTH];
     bool no_full_md5;
+    bool no_diff;
     bool has_md5;
     const unsigned char empty_md5[MD5_DIGEST_LENGTH] = {0};
     struct decompstrm *addblk_strm = NULL;
@@ -559,11 +560,16 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = read_deltarpm(&delta, deltarpm_name)) != DRPM_ERR_OK)
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
 
     if (from_rpm) {
         /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* no-diff DeltaRPMs leave the (compressed) archive as it is */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -618,8 +624,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 4c76218ba216a311b7a1b2d31a030f8014bcefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 64/65] fix: compress data of 4 GiB or more at once completely

compstrm_write() handed all of the data to the codec at once; gzip and bzip2
count their input in 32 bits, so that all but the lowest 4 GiB were lost.
---
 src/drpm_compstrm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index c5f9638..b5dd3a1 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -21,6 +21,7 @@
 #include "drpm.h"
 #include "drpm_private.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <stdbool.h>
@@ -638,6 +639,7 @@ int compstrm_write_be64(struct compstrm *strm, uint64_t number)
 int compstrm_write(struct compstrm *strm, size_t write_len, const void *buffer)
 {
     int error;
+    size_t chunk_len;
     size_t comp_write_len;
 
     if (strm == NULL || strm->finished)
@@ -649,8 +651,12 @@ int compstrm_write(struct compstrm *strm, size_t write_len, const void *buffer)
     if (buffer == NULL)
         return DRPM_ERR_PROG;
 
-    if ((error = strm->write_chunk(strm, write_len, buffer)) != DRPM_ERR_OK)
-        return error;
+    // some of the methods count their input in an int
+    for (size_t done = 0; done < write_len; done += chunk_len) {
+        chunk_len = MIN(write_len - done, INT_MAX);
+        if ((error = strm->write_chunk(strm, chunk_len, (const unsigned char *)buffer + done)) != DRPM_ERR_OK)
+            return error;
+    }
 
     comp_write_len = strm->data_len - strm->data_pos;
 
-- 
2.43.0


From 28439fb9d830cf63de445379403024c76bc28cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:34 +0000
Subject: [PATCH 65/65] fix: keep track of position after copying more than 2
 GiB of old data

---
 src/drpm_diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 17d5085..1739154 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -329,7 +329,7 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
                     old_len -= INT32_MAX;
-                    old_off = offset += INT32_MAX;
+                    offset = old_off += INT32_MAX;
                     continue;
                 }
 
-- 
2.43.0

