From 5ee677e6d081d2f51813698271c728bf2f7b5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 01/94] fix: do not leave a half filled metadata entry behind
 when bpak_add_meta runs out of space

---
 lib/bpak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..77aa1ad 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,12 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
 
             *meta = m;
             return BPAK_OK;
-- 
2.43.0


From f0b0bd559b2fc72ba3443aee9edebe225bb01954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 02/94] fix: bpak_del_meta corrupted the data of following
 entries and left removed data behind

---
 lib/bpak.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 77aa1ad..13ba9a6 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -81,19 +81,28 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
                                struct bpak_meta_header *meta)
 {
-    struct bpak_meta_header *next_meta = meta + 1;
-    uint16_t offset_adjust = meta->size;
+    const unsigned int removed_end =
+        meta->offset + BPAK_META_ALIGN_SIZE((unsigned int)meta->size);
+    const uint16_t offset_adjust = BPAK_META_ALIGN_SIZE(meta->size);
 
-    offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
+    memset(&(hdr->metadata[meta->offset]), 0, meta->size);
 
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
-            memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
-                    &(hdr->metadata[next_meta->offset]),
-                    next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
+    while (meta != &(hdr->meta[BPAK_MAX_META - 1])) {
+        struct bpak_meta_header *next_meta = meta + 1;
+
+        if (next_meta->id != 0 && next_meta->offset >= removed_end) {
+            const unsigned int old_end = next_meta->offset + next_meta->size;
 
             next_meta->offset -= offset_adjust;
+
+            memmove(&(hdr->metadata[next_meta->offset]),
+                    &(hdr->metadata[next_meta->offset + offset_adjust]),
+                    next_meta->size);
+
+            /* Clear what the moved data no longer occupies */
+            const unsigned int clear_length =
+                BPAK_MIN(offset_adjust, next_meta->size);
+            memset(&(hdr->metadata[old_end - clear_length]), 0, clear_length);
         }
 
         memcpy(meta, next_meta, sizeof(*meta));
@@ -101,10 +110,10 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
         if (!meta->id)
             break;
 
-        meta = next_meta++;
+        meta = next_meta;
     }
 
-    memset(next_meta, 0, sizeof(*next_meta));
+    memset(meta, 0, sizeof(*meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From fa117ac24e12a433eb79e5106371b4edc4f06d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 03/94] fix: bpak_valid_header did not check entries that
 follow an empty one

---
 lib/bpak.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 13ba9a6..eb335de 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -248,7 +248,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -257,7 +257,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
-- 
2.43.0


From 8f0082e57e734e4a21586670f08a33cbb72cf86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/94] fix: refuse the reserved id zero in the metadata and
 part tables

---
 lib/bpak.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index eb335de..1811c68 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -19,7 +19,7 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              struct bpak_meta_header **meta)
 {
     bpak_foreach_meta (hdr, m) {
-        if (m->id == id) {
+        if (m->id != 0 && m->id == id) {
             if (match_partref) {
                 if (m->part_id_ref != part_id_ref)
                     continue;
@@ -54,6 +54,10 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 {
     uint16_t new_offset = 0;
 
+    /* Zero marks an unused entry */
+    if (id == 0)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
             if ((new_offset + size) > BPAK_METADATA_BYTES)
@@ -120,7 +124,7 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
     bpak_foreach_part (hdr, p) {
-        if (p->id == id) {
+        if (p->id != 0 && p->id == id) {
             (*part) = p;
             return BPAK_OK;
         }
@@ -132,6 +136,10 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT int bpak_add_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Zero marks an unused entry */
+    if (id == 0)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_part (hdr, p) {
         if (!p->id) {
             p->id = id;
-- 
2.43.0


From 64dd12051afe81bae5eaa8497b89cce56301bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/94] fix: bpak_verify_compute_header_hash reported success
 when hashing failed

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 240c85659cf045b024107bc6cefcd3961c81856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/94] fix: bpak_merkle_init refused trees with four levels

---
 lib/merkle.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..aea48d6 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -69,16 +69,15 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
     /* Compute the length of each level and the total length of the hash tree */
     level_length = input_data_length;
     do {
+        if (level >= BPAK_MERKLE_MAX_LEVELS)
+            return -BPAK_NO_SPACE_LEFT;
+
         level_length = (level_length >> BPAK_MERKLE_BLOCK_BITS) * 32;
         pad_bytes = (~level_length + 1) & (BPAK_MERKLE_BLOCK_SZ - 1);
         level_length += pad_bytes;
         ctx->level_length[level] = level_length;
         ctx->hash_tree_length += level_length;
         level = level + 1;
-
-        if (level >= BPAK_MERKLE_MAX_LEVELS)
-            return -BPAK_NO_SPACE_LEFT;
-
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
 
     ctx->no_of_levels = level;
-- 
2.43.0


From 5e1839205b4c99efcd5757d1d40638b4ad4ede9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/94] fix: merkle tree accepted more or less data than it was
 initialized for

---
 lib/merkle.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/merkle.c b/lib/merkle.c
index aea48d6..83497d2 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -131,6 +131,16 @@ BPAK_EXPORT int bpak_merkle_write_chunk(struct bpak_merkle_context *ctx,
     size_t chunk_length;
     uint8_t *chunk_buffer = buffer;
 
+    /* More data than the tree was initialized for would be written outside
+     * of the hash tree */
+    size_t bytes_left = ctx->input_data_length -
+                        (ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES) *
+                            BPAK_MERKLE_BLOCK_SZ -
+                        (BPAK_MERKLE_BLOCK_SZ - ctx->block_byte_counter);
+
+    if (length > bytes_left)
+        return -BPAK_SIZE_ERROR;
+
     while (data_to_process > 0) {
         if (ctx->block_byte_counter == BPAK_MERKLE_BLOCK_SZ) {
             rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
@@ -206,6 +216,12 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
     ssize_t n_read;
     ssize_t n_written;
 
+    /* All input data must have been processed */
+    if ((ctx->input_chunk_counter / BPAK_MERKLE_HASH_BYTES) *
+            BPAK_MERKLE_BLOCK_SZ !=
+        ctx->input_data_length)
+        return -BPAK_NEEDS_MORE_DATA;
+
     if (ctx->finished) {
         memcpy(roothash, ctx->buffer, 32);
         return BPAK_OK;
-- 
2.43.0


From 02476c8e9401926c054c87904042f0afb5d623fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/94] fix: key loading leaked its context and ignored parse
 and allocation failures

---
 lib/mbedtls_wrapper.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..bae3b98 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -175,6 +175,7 @@ int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
     rc = mbedtls_pk_parse_public_key(&ctx, key->data, key->size);
 
     if (rc != 0) {
+        mbedtls_pk_free(&ctx);
         return -BPAK_KEY_DECODE;
     }
 
@@ -279,7 +280,11 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     unsigned char tmp[1024];
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-    mbedtls_pk_parse_public_keyfile(&ctx, filename);
+
+    if (mbedtls_pk_parse_public_keyfile(&ctx, filename) != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx;
+    }
 
     int len = mbedtls_pk_write_pubkey_der(&ctx, tmp, sizeof(tmp));
 
@@ -289,6 +294,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
@@ -320,6 +331,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
@@ -364,6 +376,12 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     rc = mbedtls_pk_parse_keyfile(&ctx, filename, NULL);
 #endif
 
+    if (rc != 0) {
+        bpak_printf(0, "Error: Could not load private key (%i)\n", rc);
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx_out;
+    }
+
     int len = mbedtls_pk_write_key_der(&ctx, tmp, sizeof(tmp));
 
     if (len < 0) {
@@ -420,12 +438,15 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     }
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
-    mbedtls_pk_free(&ctx);
-    return rc;
+    goto err_free_ctx_out;
 
 err_free_key_out:
     bpak_free(key);
 err_free_ctx_out:
+#if MBEDTLS_VERSION_MAJOR >= 3
+    mbedtls_ctr_drbg_free(&ctr_drbg);
+    mbedtls_entropy_free(&entropy);
+#endif
     mbedtls_pk_free(&ctx);
     return rc;
 }
-- 
2.43.0


From 5ca9dff95488c2fb35651cbc251d7e5fbbc6121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 09/94] fix: keystore key buffers overflowed on large parts and
 could not hold RSA keys

---
 lib/keystore_load_from_file.c | 7 ++++++-
 lib/mbedtls_wrapper.c         | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..0cb46dc 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index bae3b98..fbd453d 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -456,7 +456,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From 196c532b242935687de9ff6bb93f3e5ca5de1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 10/94] fix: keys on unsupported curves were accepted as NIST
 keys of the same size

---
 lib/mbedtls_wrapper.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index fbd453d..01ca689 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -274,6 +274,17 @@ err_free_crypto_ctx_out:
     return rc;
 }
 
+/* Several curves share the same bit length but only the NIST curves are
+ * supported */
+static mbedtls_ecp_group_id ec_group_id(const mbedtls_pk_context *ctx)
+{
+#if MBEDTLS_VERSION_MAJOR >= 3
+    return mbedtls_pk_ec(*ctx)->MBEDTLS_PRIVATE(grp).id;
+#else
+    return mbedtls_pk_ec(*ctx)->grp.id;
+#endif
+}
+
 int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 {
     int rc = BPAK_OK;
@@ -303,14 +314,14 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             key->kind = BPAK_KEY_PUB_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             key->kind = BPAK_KEY_PUB_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             key->kind = BPAK_KEY_PUB_SECP521r1;
             break;
         default:
@@ -402,14 +413,14 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             key->kind = BPAK_KEY_PRI_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             key->kind = BPAK_KEY_PRI_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             key->kind = BPAK_KEY_PRI_SECP521r1;
             break;
         default:
@@ -469,14 +480,14 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
     }
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
-        case 256:
+        switch (ec_group_id(&ctx)) {
+        case MBEDTLS_ECP_DP_SECP256R1:
             kind = BPAK_KEY_PUB_PRIME256v1;
             break;
-        case 384:
+        case MBEDTLS_ECP_DP_SECP384R1:
             kind = BPAK_KEY_PUB_SECP384r1;
             break;
-        case 521:
+        case MBEDTLS_ECP_DP_SECP521R1:
             kind = BPAK_KEY_PUB_SECP521r1;
             break;
         default:
-- 
2.43.0


From ef23cfbc5f6867f4563da3fec8dd40a42b718819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 11/94] fix: bpak_pkg_open overwrote truncated and foreign
 files that were opened for update

---
 lib/pkg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..3f791a6 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,6 +46,13 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* Only a file that is to be created may be without a complete header */
+    if (read_bytes != sizeof(pkg->header) && mode[0] != 'w') {
+        bpak_printf(0, "Could not read header of %s\n", filename);
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
     if (read_bytes != sizeof(pkg->header)) {
         rc = bpak_init_header(&pkg->header);
@@ -86,6 +93,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From 6174c052405a3bedc320de7a940421623a92a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 12/94] fix: write errors that surface when buffered data is
 flushed were not reported

---
 lib/pkg.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 3f791a6..43397df 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -99,11 +99,14 @@ err_close_io:
 
 BPAK_EXPORT int bpak_pkg_close(struct bpak_package *pkg)
 {
+    int rc = BPAK_OK;
+
     if (pkg->fp != NULL) {
-        fclose(pkg->fp);
+        if (fclose(pkg->fp) != 0)
+            rc = -BPAK_WRITE_ERROR;
         pkg->fp = NULL;
     }
-    return BPAK_OK;
+    return rc;
 }
 
 static ssize_t pkg_read_payload(off_t offset, uint8_t *buf, size_t length,
@@ -189,7 +192,7 @@ BPAK_EXPORT int bpak_pkg_write_header(struct bpak_package *pkg)
     size_t bytes_written =
         fwrite(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
-    if (bytes_written != sizeof(pkg->header)) {
+    if (bytes_written != sizeof(pkg->header) || fflush(pkg->fp) != 0) {
         bpak_printf(0, "%s: Write failed\n", __func__);
         return -BPAK_WRITE_ERROR;
     }
@@ -481,7 +484,10 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
+    } else if (fflush(fp) != 0 && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
@@ -581,8 +587,6 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
-    fflush(pkg->fp);
-
     size_t new_size = sizeof(struct bpak_header);
 
     bpak_foreach_part(h, p) {
@@ -632,8 +636,6 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
         return rc;
     }
 
-    fflush(pkg->fp);
-
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
                     __func__, strerror(errno));
-- 
2.43.0


From 573ae6e97c40a5e5ef3576d2a17736b2551e11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 13/94] fix: bpak_pkg_size did not include part padding

---
 lib/pkg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 43397df..56dae3f 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -167,10 +167,7 @@ BPAK_EXPORT size_t bpak_pkg_size(struct bpak_package *pkg)
     size_t transport_size = 0;
 
     bpak_foreach_part (&pkg->header, p) {
-        if (p->flags & BPAK_FLAG_TRANSPORT)
-            transport_size += p->transport_size;
-        else
-            transport_size += p->size;
+        transport_size += bpak_part_size(p);
     }
 
     transport_size += sizeof(struct bpak_header);
-- 
2.43.0


From 9338f788d1437806ba5d55eeade16bf9fd61de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/94] fix: signature sizes beyond the signature field caused
 out of bounds accesses

---
 lib/pkg.c        | 3 +++
 lib/pkg_verify.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 56dae3f..667aaa3 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -201,6 +201,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
diff --git a/lib/pkg_verify.c b/lib/pkg_verify.c
index 944040c..f8e143f 100644
--- a/lib/pkg_verify.c
+++ b/lib/pkg_verify.c
@@ -41,6 +41,9 @@ BPAK_EXPORT int bpak_pkg_verify(struct bpak_package *pkg,
     size_t hash_size = sizeof(hash_output);
     bool header_verified = false;
 
+    if (pkg->header.signature_sz > sizeof(pkg->header.signature))
+        return -BPAK_VERIFY_FAIL;
+
     rc = bpak_verify_compute_header_hash(&pkg->header, hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-- 
2.43.0


From b85317658bfb1b2014d5141546c58d42eb5d46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 15/94] fix: extracting a transport encoded part copied the
 wrong number of bytes

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 667aaa3..b68cfc0 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -456,7 +456,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From 168f0e08cbcf76e197886d3f97793408c7d2e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 16/94] fix: deleting a part never ended or lost data when the
 file size did not match the part table

---
 lib/pkg.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index b68cfc0..c1115f8 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -552,15 +552,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From 3019603c464779500ddb7b2c0b61f18996caacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 17/94] fix: adding an unreadable or changing file never ended
 or corrupted the archive

---
 lib/pkg_create.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..fa52fea 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -255,7 +255,18 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t read_bytes =
+            fread(chunk_buffer,
+                  1,
+                  BPAK_MIN(bytes_to_write, sizeof(chunk_buffer)),
+                  in_fp);
+
+        if (read_bytes == 0) {
+            bpak_printf(0, "Error: Could not read '%s'\n", filename);
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
+
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
-- 
2.43.0


From f00d1f2763904334757c0a55c3c63a66c31ef3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 18/94] fix: key parts were padded with stack contents instead
 of zeroes

---
 lib/pkg_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index fa52fea..08dfca9 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -352,8 +352,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zero[BPAK_PART_ALIGN] = { 0 };
+    if (fwrite(zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
-- 
2.43.0


From 629a94ff91da5061ccb43810a0684c611606dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 19/94] fix: release key memory through the configured
 allocator in bpak_pkg_add_key

---
 lib/pkg_create.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 08dfca9..5880487 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -371,6 +371,6 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 66f63eacb87940f87996f2b501b4d489085d7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 20/94] fix: adding a pipe or device silently stored an empty
 part

---
 lib/pkg_create.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 5880487..553cbe0 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -213,6 +213,12 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
         return -BPAK_FILE_NOT_FOUND;
     }
 
+    /* The size of anything else is not known in advance */
+    if (!S_ISREG(statbuf.st_mode)) {
+        bpak_printf(0, "Error: '%s' is not a regular file\n", filename);
+        return -BPAK_NOT_SUPPORTED;
+    }
+
     FILE *in_fp = NULL;
 
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
-- 
2.43.0


From 09202f50c49a02ca44a1bc8c90a4af78f1ddb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 21/94] fix: a part that could not be added stayed in the
 in-memory header

---
 lib/pkg_create.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 553cbe0..0278c2d 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -220,6 +220,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     FILE *in_fp = NULL;
+    struct bpak_header saved_header = *h;
 
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
@@ -248,7 +249,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_restore_header;
     }
 
     uint64_t bytes_to_write = p->size;
@@ -257,7 +259,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (!in_fp) {
         bpak_printf(0, "Could not open input file: %s\n", filename);
-        return -BPAK_FILE_NOT_FOUND;
+        rc = -BPAK_FILE_NOT_FOUND;
+        goto err_restore_header;
     }
 
     while (bytes_to_write) {
@@ -304,6 +307,9 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
 err_close_fp:
     fclose(in_fp);
+err_restore_header:
+    if (rc != BPAK_OK)
+        *h = saved_header;
     return rc;
 }
 
@@ -316,6 +322,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_part_header *p = NULL;
     uint64_t new_offset = sizeof(struct bpak_header);
 
+    struct bpak_header saved_header = *h;
+
     rc = bpak_crypto_load_public_key(filename, &key);
 
     if (rc != BPAK_OK)
@@ -378,5 +386,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
 
 err_free_key_out:
     bpak_free(key);
+    if (rc != BPAK_OK)
+        *h = saved_header;
     return rc;
 }
-- 
2.43.0


From e686ff173eaba14137e85a211cdbd8a87c321381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 22/94] fix: parts added to a transport encoded archive were
 written at the wrong position

---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 0278c2d..da4285a 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -120,7 +120,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     /* Write tree to bpak file */
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     /* Add salt */
@@ -225,7 +225,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
@@ -331,7 +331,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
 
     /* Write header */
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
-- 
2.43.0


From 145d04b212f8fb065fa2c43ca6c3ac7b000fabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 23/94] fix: adding a part with a merkle tree modified the
 archive before it was refused

---
 lib/pkg_create.c | 51 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index da4285a..b28f75c 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -54,19 +54,55 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    /* Make sure that everything fits before anything is written */
+    struct bpak_header trial_header = *h;
+    struct bpak_part_header *trial_part = NULL;
+    struct bpak_meta_header *trial_meta = NULL;
+
+    rc = bpak_add_part(&trial_header, bpak_id(part_name), &trial_part);
+
+    if (rc != BPAK_OK)
+        return rc;
+
+    rc = bpak_add_part(&trial_header,
+                       bpak_part_name_to_hash_tree_id(part_name),
+                       &trial_part);
+
+    if (rc != BPAK_OK)
+        return rc;
+
+    rc = bpak_add_meta(&trial_header,
+                       BPAK_ID_MERKLE_SALT,
+                       bpak_id(part_name),
+                       sizeof(bpak_merkle_hash_t),
+                       &trial_meta);
+
+    if (rc != BPAK_OK)
+        return rc;
+
+    rc = bpak_add_meta(&trial_header,
+                       BPAK_ID_MERKLE_ROOT_HASH,
+                       bpak_id(part_name),
+                       sizeof(bpak_merkle_hash_t),
+                       &trial_meta);
+
+    if (rc != BPAK_OK)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
-    memset(merkle_buf, 0, merkle_sz);
+    if (merkle_buf == NULL)
+        return -BPAK_FAILED;
+
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
 
@@ -90,6 +126,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
-- 
2.43.0


From 89700e1237124ba2907852b25351ac9bf3dba430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 24/94] fix: a failed signing attempt erased the existing
 signature in memory

---
 lib/pkg_sign.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 9cd2002..0216e5e 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -24,6 +24,7 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     struct bpak_key *sign_key = NULL;
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
+    uint8_t signature[BPAK_SIGNATURE_MAX_BYTES] = { 0 };
 
     rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
 
@@ -36,20 +37,19 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         return rc;
     }
 
-    memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
-
-    size_t signature_length = sizeof(pkg->header.signature);
+    size_t signature_length = sizeof(signature);
 
     rc = bpak_crypto_sign(hash_output,
                           hash_size,
                           pkg->header.hash_kind,
                           sign_key,
-                          pkg->header.signature,
+                          signature,
                           &signature_length);
 
     if (rc != BPAK_OK)
         goto err_free_key_out;
 
+    memcpy(pkg->header.signature, signature, sizeof(signature));
     pkg->header.signature_sz = (uint16_t)signature_length;
 
     rc = bpak_pkg_write_header(pkg);
-- 
2.43.0


From de5939fe355bfe3527c266f7711ecfe9b9576446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 25/94] fix: bsdiff read past the end of the suffix array

---
 lib/bsdiff.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..c758b3e 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -54,6 +54,12 @@ static int64_t search(int64_t *sa_p, uint8_t *from_p, int64_t from_size,
     int64_t x;
     int64_t y;
 
+    /* Nothing to find in an empty origin */
+    if (from_size == 0) {
+        *pos_p = 0;
+        return 0;
+    }
+
     if (from_end - from_begin < 2) {
         x = matchlen(from_p + sa_p[from_begin],
                      from_size - sa_p[from_begin],
@@ -625,7 +631,9 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    ctx->suffix_array = bpak_calloc(origin_length, sizeof(int64_t));
+    /* An empty origin gives an empty array, which may be reported as NULL */
+    ctx->suffix_array =
+        bpak_calloc(origin_length ? origin_length : 1, sizeof(int64_t));
 
     if (!ctx->suffix_array) {
         rc = -BPAK_FAILED;
@@ -675,7 +683,7 @@ BPAK_EXPORT ssize_t bpak_bsdiff(struct bpak_bsdiff_context *ctx)
                               ctx->new_data + ctx->scan,
                               ctx->new_length - ctx->scan,
                               0,
-                              ctx->origin_length,
+                              ctx->origin_length - 1,
                               &(ctx->pos));
 
             for (; scsc < ctx->scan + ctx->len; scsc++) {
-- 
2.43.0


From 6fd910fa06af9c1a601a529e535a05626af6066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 26/94] fix: lzma memory was allocated with one allocator,
 released with another and leaked on errors

---
 lib/bsdiff.c  | 16 ++++++++++------
 lib/bspatch.c |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index c758b3e..9baf103 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -349,7 +349,11 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
-        ctx->compressor_priv = stream;
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        stream->allocator = &lzma_alloc;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
@@ -365,13 +369,13 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            lzma_end(stream);
+            bpak_free(stream);
             return -BPAK_COMPRESSOR_ERROR;
+        }
 
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        ctx->compressor_priv = stream;
     } break;
 #endif
     default:
diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..6297d4d 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -220,14 +220,14 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From 4af8aa7c07a5f5b83637f81a6927f372c69b179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 27/94] fix: bspatch used negative lengths and origin positions
 of corrupt patches

---
 lib/bspatch.c | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6297d4d..5c1c83d 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -51,6 +51,26 @@ static int64_t offtin(uint8_t *buf)
     return y;
 }
 
+/* Move to the next patch block, the origin position may not leave the origin */
+static int next_block(struct bpak_bspatch_context *ctx)
+{
+    int64_t position;
+
+    if (__builtin_add_overflow((int64_t)ctx->origin_position,
+                               ctx->adjust,
+                               &position) ||
+        position < 0 || position > INT64_MAX - ctx->origin_offset) {
+        bpak_printf(0, "Error: Origin position out of range\n");
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+    }
+
+    ctx->origin_position = position;
+    ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
+    ctx->ctrl_buf_count = 0;
+    return BPAK_OK;
+}
+
 static int bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
                          size_t length)
 {
@@ -89,6 +109,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if (ctx->diff_count < 0 || ctx->extra_count < 0) {
+            bpak_printf(0, "Error: Negative length in patch\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
@@ -152,9 +179,10 @@ process_more:
             if (ctx->extra_count > 0) {
                 ctx->state = BPAK_PATCH_STATE_APPLY_EXTRA;
             } else {
-                ctx->origin_position += ctx->adjust;
-                ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
-                ctx->ctrl_buf_count = 0;
+                rc = next_block(ctx);
+
+                if (rc != BPAK_OK)
+                    break;
             }
         }
 
@@ -188,9 +216,10 @@ process_more:
         pp += data_to_process;
 
         if (ctx->extra_count == 0) {
-            ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
-            ctx->ctrl_buf_count = 0;
-            ctx->origin_position += ctx->adjust;
+            rc = next_block(ctx);
+
+            if (rc != BPAK_OK)
+                break;
 
             if (bytes_available > 0) {
                 goto process_more;
-- 
2.43.0


From 977d269545beef9dabd25818a32d2727c008a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 28/94] fix: bspatch looped forever when given an empty work
 buffer

---
 lib/bspatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 5c1c83d..08d78aa 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -416,7 +416,7 @@ BPAK_EXPORT int bpak_bspatch_init(struct bpak_bspatch_context *ctx,
 
     memset(ctx, 0, sizeof(*ctx));
 
-    if (buffer_length % 2 != 0)
+    if (buffer_length < 2 || buffer_length % 2 != 0)
         return -BPAK_SIZE_ERROR;
 
     ctx->patch_buffer = &buffer[0];
-- 
2.43.0


From 45e32c48b93709ee865ad86faa978a9c55a779e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 29/94] fix: bspatch reported success for a truncated patch

---
 lib/bspatch.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 08d78aa..3ede508 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -488,6 +488,12 @@ BPAK_EXPORT ssize_t bpak_bspatch_final(struct bpak_bspatch_context *ctx)
         return -BPAK_NOT_SUPPORTED;
     }
 
+    /* The patch must not end in the middle of a block */
+    if (ctx->diff_count != 0 || ctx->extra_count != 0 ||
+        (ctx->state == BPAK_PATCH_STATE_FILL_CTRL_BUF &&
+         ctx->ctrl_buf_count != 0))
+        return -BPAK_NEEDS_MORE_DATA;
+
     return ctx->output_position;
 }
 
-- 
2.43.0


From 8fab2d99122078cdef71dd21dd98354e791aa5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 30/94] fix: transport decoding accepted an origin with another
 package identity

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..6677878 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,7 +184,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
-- 
2.43.0


From 51d74bb1b3e8696ba7bc1e5e840630a37c0b5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 31/94] fix: parts that need no origin data could not be
 transported if the origin lacked them

---
 lib/pkg.c              | 13 -------------
 lib/transport_decode.c | 13 ++++++++++++-
 lib/transport_encode.c | 31 +++++++++----------------------
 3 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index c1115f8..e029419 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -274,7 +274,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     int rc;
 
     struct bpak_header *patch_header = bpak_pkg_header(input);
-    struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -332,18 +331,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Compute origin and output offsets */
-        if (origin != NULL) {
-            rc = bpak_get_part(&origin->header, part->id, &origin_part);
-
-            if (rc != BPAK_OK) {
-                bpak_printf(0,
-                            "Error could not get part with ref %x\n",
-                            part->id);
-                goto err_out;
-            }
-        }
-
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
         if (rc != BPAK_OK) {
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 6677878..531e722 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -247,11 +247,22 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
         else
             return -BPAK_UNSUPPORTED_COMPRESSION;
 
+        struct bpak_part_header *origin_part = NULL;
+
+        rc = bpak_get_part(ctx->origin_header, part->id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part->id);
+            break;
+        }
+
         /* Compute output and origin offsets */
         off_t output_offset = bpak_part_offset(ctx->patch_header, part) -
                               sizeof(struct bpak_header) + ctx->output_offset;
 
-        off_t origin_offset = bpak_part_offset(ctx->origin_header, part) -
+        off_t origin_offset = bpak_part_offset(ctx->origin_header, origin_part) -
                               sizeof(struct bpak_header) + ctx->origin_offset;
 
         rc = bpak_bspatch_init(&ctx->decoders.bspatch,
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..54d5d0b 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -241,17 +241,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
         return rc;
     }
 
-    if (origin_header != NULL) {
-        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
-
-        if (rc != BPAK_OK) {
-            bpak_printf(0,
-                        "Error could not get part with ref %x\n",
-                        part_ref_id);
-            return rc;
-        }
-    }
-
     alg_id = tm->alg_id_encode;
     bpak_printf(2,
                 "Encoding part 0x%x using encoder 0x%x\n",
@@ -266,17 +255,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
 
-    if (origin_header != NULL && origin_fp != NULL) {
-        rc = fseek(origin_fp,
-                   bpak_part_offset(origin_header, origin_part),
-                   SEEK_SET);
-
-        if (rc != 0) {
-            bpak_printf(0, "%s: Error, could not seek origin stream", __func__);
-            return rc;
-        }
-    }
-
     rc = fseek(input_fp, bpak_part_offset(input_header, input_part), SEEK_SET);
 
     if (rc != BPAK_OK) {
@@ -303,6 +281,15 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
             goto err_out;
         }
 
+        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part_ref_id);
+            goto err_out;
+        }
+
         enum bpak_compression compression = BPAK_COMPRESSION_NONE;
 
         if (alg_id == BPAK_ID_BSDIFF)
-- 
2.43.0


From 0ca8729c96165300023d2ab9e4c7bc51e571c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 32/94] fix: transport decoder reported success for copied
 parts with missing data

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 531e722..31bc002 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -350,7 +350,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From 8cf8b98c6cc33e40bd37b9dbe9c05262d0254981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 33/94] fix: decompressor memory leaked when decoding a part
 failed

---
 lib/pkg.c              |  6 ++++--
 lib/transport_decode.c | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e029419..5485e5d 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -324,7 +324,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_out;
     }
 
     bpak_foreach_part (patch_header, part) {
@@ -351,7 +352,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 31bc002..c373456 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -230,6 +230,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
     case BPAK_ID_BSPATCH_LZMA: {
         if (ctx->read_origin == NULL) {
             /* bspach requires the origin stream */
+            ctx->decoder_id = 0;
             return -BPAK_PATCH_READ_ORIGIN_ERROR;
         }
 
@@ -255,6 +256,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             bpak_printf(0,
                         "Error could not get part with ref %x\n",
                         part->id);
+            ctx->decoder_id = 0;
             break;
         }
 
@@ -276,6 +278,8 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                compression,
                                ctx->user);
 
+        if (rc != BPAK_OK)
+            ctx->decoder_id = 0;
     } break;
 #if BPAK_CONFIG_MERKLE == 1
     case BPAK_ID_MERKLE_GENERATE:
@@ -343,6 +347,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
     {
         output_length = bpak_bspatch_final(&ctx->decoders.bspatch);
         bpak_bspatch_free(&ctx->decoders.bspatch);
+        ctx->decoder_id = 0;
     } break;
 #if BPAK_CONFIG_MERKLE == 1
     case BPAK_ID_MERKLE_GENERATE: /* id("merkle-generate") */
@@ -388,6 +393,16 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
 
 BPAK_EXPORT void bpak_transport_decode_free(struct bpak_transport_decode *ctx)
 {
-    /* Nothing to implement so far */
-    (void)ctx;
+    /* A part that failed to decode still holds its decompressor */
+    switch (ctx->decoder_id) {
+    case BPAK_ID_BSPATCH_NO_COMP:
+    case BPAK_ID_BSPATCH_LZMA:
+    case BPAK_ID_BSPATCH:
+        bpak_bspatch_free(&ctx->decoders.bspatch);
+        break;
+    default:
+        break;
+    }
+
+    ctx->decoder_id = 0;
 }
-- 
2.43.0


From 9079d94ff448b4e96813c7796b4c685f5ac75890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 34/94] fix: transport decoder generated hash trees outside of
 the announced part

---
 lib/transport_decode.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index c373456..5a8c8b2 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -65,6 +65,15 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
 
     bpak_printf(0, "Merkle tree at offset: %i\n", output_offset);
 
+    /* The data must already be in place and the tree must fit exactly,
+     * otherwise it would be written outside of its part */
+    if (fs_part > ctx->part || (fs_part->flags & BPAK_FLAG_TRANSPORT) ||
+        bpak_merkle_compute_size(bpak_part_size(fs_part)) !=
+            (ssize_t)(ctx->part->size + ctx->part->pad_bytes)) {
+        bpak_printf(0, "Error: Hash tree does not match its data\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
     rc = bpak_merkle_init(&ctx->decoders.merkle,
                           bpak_part_size(fs_part),
                           salt,
-- 
2.43.0


From 44450caefa0be20a611a136fe9d9c4987211696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 35/94] fix: transport encoding crashed when a package identity
 was missing

---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 54d5d0b..66a6808 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -355,21 +355,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From 09727d8ae4f62054d43a53801a25678333233ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 36/94] fix: encoding an already encoded archive lost the
 encoded data

---
 lib/transport_encode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 66a6808..cedad91 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -249,7 +249,11 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
 
     /* Already processed for transport ?*/
     if ((output_part->flags & BPAK_FLAG_TRANSPORT))
-        return BPAK_OK;
+        return transport_copy(input_header,
+                              output_header,
+                              part_ref_id,
+                              input_fp,
+                              output_fp);
 
     bpak_printf(1,
                 "Initializing alg, input size %li bytes\n",
-- 
2.43.0


From 8bfebd3927232a69855565a152839b5364ad5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 37/94] fix: delta encoding accessed memory beyond the end of
 truncated archives

---
 lib/transport_encode.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cedad91..805ed1e 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -152,6 +152,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         return -BPAK_FAILED;
     }
 
+    if (target_offset < 0 || target_offset > target_file_sz ||
+        target_length > (size_t)(target_file_sz - target_offset)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     /* Calculate pointer to where the needed data starts */
     target_data = target_data_mmap + target_offset;
 
@@ -178,6 +184,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if (origin_offset < 0 || origin_offset > origin_file_sz ||
+        origin_length > (size_t)(origin_file_sz - origin_offset)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_origin;
+    }
+
     /* Calculate pointer to where the needed data starts */
     origin_data = origin_data_mmap + origin_offset;
 
-- 
2.43.0


From 48397edc06de79c5a80a07042d2595c74530856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 38/94] fix: decoding a package without parts lost its header

---
 lib/pkg.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 5485e5d..e7e02cd 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -328,6 +328,16 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         goto err_out;
     }
 
+    /* A package without parts consists of the header only */
+    if (decode_write_output_header(0,
+                                   (uint8_t *)patch_header,
+                                   sizeof(*patch_header),
+                                   &decode_private) !=
+        sizeof(*patch_header)) {
+        rc = -BPAK_WRITE_ERROR;
+        goto err_out;
+    }
+
     bpak_foreach_part (patch_header, part) {
         if (part->id == 0)
             break;
-- 
2.43.0


From 6ede39d30cb5b46d1e43c8395e496e11316fa2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 39/94] fix: transport encoding and decoding required write
 access to its inputs

---
 src/transport.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..2f31cb8 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -115,7 +115,8 @@ int action_transport(int argc, char **argv)
     struct bpak_package output;
     struct bpak_package origin;
 
-    rc = bpak_pkg_open(&input, filename, "rb+");
+    /* Only adding transport meta data changes the input */
+    rc = bpak_pkg_open(&input, filename, add_flag ? "rb+" : "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package %s\n", filename);
@@ -123,10 +124,11 @@ int action_transport(int argc, char **argv)
     }
 
     if (origin_file) {
-        rc = bpak_pkg_open(&origin, origin_file, "rb+");
+        rc = bpak_pkg_open(&origin, origin_file, "rb");
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
+            bpak_pkg_close(&input);
             return rc;
         }
     }
-- 
2.43.0


From e7a7dc6eb96180d7aa633a64f3d0b6107d7d8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 40/94] fix: transport used an uninitialized origin when none
 was given

---
 src/transport.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 2f31cb8..cea3b19 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -151,12 +151,14 @@ int action_transport(int argc, char **argv)
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input,
+                                       &output,
+                                       origin_file ? &origin : NULL);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_file ? &origin : NULL); /* Origin data to use for patch operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
-- 
2.43.0


From 9d14aed9b22440f47c60081842a4514408140020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 41/94] fix: transport never closed its output and missed write
 errors

---
 src/transport.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index cea3b19..81d1975 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -112,7 +112,7 @@ int action_transport(int argc, char **argv)
     }
 
     struct bpak_package input;
-    struct bpak_package output;
+    struct bpak_package output = { 0 };
     struct bpak_package origin;
 
     /* Only adding transport meta data changes the input */
@@ -181,7 +181,15 @@ int action_transport(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&input);
+    if (bpak_pkg_close(&output) != BPAK_OK && rc == BPAK_OK) {
+        fprintf(stderr, "Error: Could not write %s\n", output_file);
+        rc = -BPAK_WRITE_ERROR;
+    }
+
+    if (bpak_pkg_close(&input) != BPAK_OK && rc == BPAK_OK) {
+        fprintf(stderr, "Error: Could not write %s\n", filename);
+        rc = -BPAK_WRITE_ERROR;
+    }
 
     if (origin_file) {
         bpak_pkg_close(&origin);
-- 
2.43.0


From cb445aaef5069b5a1f49e2b565539c31722e29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 42/94] fix: metadata from a file was silently truncated and
 used without termination

---
 src/add.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/add.c b/src/add.c
index f920938..e605faf 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,7 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    char metadata_input[BPAK_METADATA_BYTES + 1] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -143,7 +143,7 @@ int action_add(int argc, char **argv)
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-            if (metadata_input_length > sizeof(metadata_input)) {
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
                 rc = -BPAK_NO_SPACE_LEFT;
                 goto err_close_pkg_out;
             }
@@ -157,10 +157,22 @@ int action_add(int argc, char **argv)
             }
 
             metadata_input_length = fread(metadata_input, 1,
-                                    sizeof(metadata_input), meta_in_fp);
+                                    BPAK_METADATA_BYTES, meta_in_fp);
+
+            if (ferror(meta_in_fp)) {
+                rc = -BPAK_READ_ERROR;
+            } else if (metadata_input_length == BPAK_METADATA_BYTES &&
+                       fgetc(meta_in_fp) != EOF) {
+                rc = -BPAK_NO_SPACE_LEFT;
+            }
 
             fclose(meta_in_fp);
 
+            if (rc != BPAK_OK) {
+                fprintf(stderr, "Error: Could not read all of '%s'\n", from_file);
+                goto err_close_pkg_out;
+            }
+
             if (metadata_input_length == 0) {
                 fprintf(stderr, "Error: Read zero bytes\n");
                 rc = -BPAK_FAILED;
-- 
2.43.0


From 6b65050c758438be58f3d5d5a71e56ea24eb5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 43/94] fix: add did not understand hexadecimal part references

---
 src/add.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/add.c b/src/add.c
index e605faf..e74b703 100644
--- a/src/add.c
+++ b/src/add.c
@@ -35,7 +35,7 @@ int action_add(int argc, char **argv)
     const char *meta_name = NULL;
     const char *from_file = NULL;
     const char *from_string = NULL;
-    const char *part_ref = NULL;
+    char *part_ref = NULL;
     const char *encoder = NULL;
     int rc = 0;
 
@@ -71,7 +71,7 @@ int action_add(int argc, char **argv)
             meta_name = (const char *)optarg;
             break;
         case 'r':
-            part_ref = (const char *)optarg;
+            part_ref = optarg;
             break;
         case 'f':
             from_file = (const char *)optarg;
@@ -139,7 +139,7 @@ int action_add(int argc, char **argv)
         bpak_id_t part_ref_id = 0;
 
         if (part_ref)
-            part_ref_id = bpak_id(part_ref);
+            part_ref_id = bpak_get_id_for_name_or_ref(part_ref);
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-- 
2.43.0


From 70fb1508e2b10248ba78580bdd0779d300f7c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 44/94] fix: the command line tool ignored errors when closing
 the files it wrote

---
 src/add.c     | 5 ++++-
 src/create.c  | 3 ++-
 src/delete.c  | 3 ++-
 src/extract.c | 5 ++++-
 src/set.c     | 3 ++-
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/add.c b/src/add.c
index e74b703..a000a91 100644
--- a/src/add.c
+++ b/src/add.c
@@ -314,6 +314,9 @@ int action_add(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK) {
+        fprintf(stderr, "Error: Could not write %s\n", filename);
+        rc = -BPAK_WRITE_ERROR;
+    }
     return rc;
 }
diff --git a/src/create.c b/src/create.c
index 32ead64..42a1151 100644
--- a/src/create.c
+++ b/src/create.c
@@ -148,6 +148,7 @@ int action_create(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 }
diff --git a/src/delete.c b/src/delete.c
index 88d917e..5b384da 100644
--- a/src/delete.c
+++ b/src/delete.c
@@ -100,7 +100,8 @@ int action_delete(int argc, char **argv)
         rc = bpak_pkg_delete_part(&pkg, part_id, !keep_metadata);
     }
 
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
     return rc;
 
 }
diff --git a/src/extract.c b/src/extract.c
index 12923f8..15ae6b1 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,10 @@ int action_extract(int argc, char **argv)
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
+    } else if ((fp == stdout) && (fflush(fp) != 0) && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
diff --git a/src/set.c b/src/set.c
index b6adc80..f3f7c61 100644
--- a/src/set.c
+++ b/src/set.c
@@ -261,7 +261,8 @@ int action_set(int argc, char **argv)
     }
 
 err_close_fp_out:
-    fclose(fp);
+    if (fclose(fp) != 0 && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
 err_free_header_out:
     free(h);
     return rc;
-- 
2.43.0


From 916cdb93f244338bf2a8e202de20d46167af8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 45/94] fix: extract required write access to the archive

---
 src/extract.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extract.c b/src/extract.c
index 15ae6b1..57fbadd 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -95,7 +95,7 @@ int action_extract(int argc, char **argv)
 
     struct bpak_package pkg;
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "r");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
-- 
2.43.0


From db224905124f78e60089d1eee9554a6eecc7fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 46/94] fix: set overflowed the header when given a very long
 value

---
 src/set.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/set.c b/src/set.c
index f3f7c61..c85ad16 100644
--- a/src/set.c
+++ b/src/set.c
@@ -153,6 +153,12 @@ int action_set(int argc, char **argv)
         if (!encoder) {
             size_t len = strlen(from_string);
 
+            if (len + 1 > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: Value is too long\n");
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_fp_out;
+            }
+
             if (len + 1 > meta->size) {
                 if (bpak_get_verbosity() > 2) {
                    printf("Need to grow metadata field. Remove and re-add");
@@ -169,6 +175,7 @@ int action_set(int argc, char **argv)
                      * internal bugs
                      */
                     fprintf(stderr, "FATAL ERROR");
+                    free(tmp_header);
                     goto err_close_fp_out;
                 }
 
-- 
2.43.0


From e6aa5eaeb6382b37b3c96e5c5eb2cc013b05d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 47/94] fix: bpak_bin2hex wrote the terminating zero past the
 end of the buffer

---
 lib/utils.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..a872f7a 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two digits per byte and the terminating zero must fit */
+    if (buf_sz == 0 || data_sz > (buf_sz - 1) / 2)
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
-- 
2.43.0


From af9808772eba34182433bb2c92e9647e1bdbb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 48/94] fix: bpak_meta_to_string used bytes outside of short
 entries and left strings unterminated

---
 lib/utils.c | 67 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index a872f7a..4c17b3c 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -60,47 +60,80 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
 {
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
+    size_t required_size = 0;
+    int len = 0;
+
+    if (size == 0)
+        return -BPAK_SIZE_ERROR;
+
+    buf[0] = 0;
+
+    /* Only bytes that belong to this entry may be used */
+    if (m->id == BPAK_ID_BPAK_KEY_ID || m->id == BPAK_ID_BPAK_KEY_STORE ||
+        m->id == BPAK_ID_KEYSTORE_PROVIDER_ID)
+        required_size = sizeof(bpak_id_t);
+    else if (m->id == BPAK_ID_BPAK_PACKAGE)
+        required_size = 16;
+    else if (m->id == BPAK_ID_BPAK_TRANSPORT)
+        required_size = 2 * sizeof(bpak_id_t);
+    else if (m->id == BPAK_ID_MERKLE_SALT || m->id == BPAK_ID_MERKLE_ROOT_HASH)
+        required_size = 32;
+    else if (m->id == BPAK_ID_PB_LOAD_ADDR)
+        required_size = sizeof(uint64_t);
+
+    if (m->size < required_size)
+        return -BPAK_SIZE_ERROR;
 
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "%" PRIx32, *id_ptr);
+        len = snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_KEY_STORE) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "%" PRIx32, *id_ptr);
+        len = snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
 
-        snprintf(buf,
-                 size,
-                 "Encode: %8.8" PRIx32 ", Decode: %8.8" PRIx32,
-                 transport_meta->alg_id_encode,
-                 transport_meta->alg_id_decode);
+        len = snprintf(buf,
+                       size,
+                       "Encode: %8.8" PRIx32 ", Decode: %8.8" PRIx32,
+                       transport_meta->alg_id_encode,
+                       transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        if (bpak_bin2hex(byte_ptr, 32, buf, size) != BPAK_OK)
+            return -BPAK_SIZE_ERROR;
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        if (bpak_bin2hex(byte_ptr, 32, buf, size) != BPAK_OK)
+            return -BPAK_SIZE_ERROR;
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
-        snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
+        len = snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
+        size_t version_len = 0;
+
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        while (version_len < m->size && byte_ptr[version_len] != 0)
+            version_len++;
+
+        if (version_len >= size)
             return -BPAK_SIZE_ERROR;
 
-        memcpy(buf, byte_ptr, m->size);
+        memcpy(buf, byte_ptr, version_len);
+        buf[version_len] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-    } else {
-        if (size)
-            *buf = 0;
+        len = snprintf(buf, size, "0x%" PRIx32, *id_ptr);
+    }
+
+    if (len < 0 || (size_t)len >= size) {
+        buf[0] = 0;
+        return -BPAK_SIZE_ERROR;
     }
 
     return BPAK_OK;
-- 
2.43.0


From d6e5f733050ab595494bedd84fd3a9d80610b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 49/94] fix: show printed an uninitialized hash when the
 package hash could not be computed

---
 src/show.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index 4a6b859..9304fb2 100644
--- a/src/show.c
+++ b/src/show.c
@@ -113,7 +113,7 @@ int action_show(int argc, char **argv)
     rc = bpak_valid_header(h);
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Invalid BPAK header\n");
-        return rc;
+        goto err_pkg_close;
     }
 
     memset(string_output, 0, sizeof(string_output));
@@ -189,7 +189,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From 17efcd51738f67926195c92d41b383b1c0768139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 50/94] fix: show printed the value of another entry for
 metadata it could not render

---
 src/show.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index 9304fb2..9450e63 100644
--- a/src/show.c
+++ b/src/show.c
@@ -127,7 +127,12 @@ int action_show(int argc, char **argv)
                     if (part_id != m->part_id_ref)
                         continue;
 
-                bpak_meta_to_string(h, m, string_output, sizeof(string_output));
+                if (bpak_meta_to_string(h,
+                                        m,
+                                        string_output,
+                                        sizeof(string_output)) != BPAK_OK)
+                    string_output[0] = 0;
+
                 if (strlen(string_output))
                     printf("%s\n", string_output);
 
@@ -212,7 +217,12 @@ int action_show(int argc, char **argv)
 
     bpak_foreach_meta (h, m) {
         if (m->id) {
-            bpak_meta_to_string(h, m, string_output, sizeof(string_output));
+            if (bpak_meta_to_string(h,
+                                    m,
+                                    string_output,
+                                    sizeof(string_output)) != BPAK_OK)
+                string_output[0] = 0;
+
             printf("    %8.8x   %-3u    %-20s ",
                    m->id,
                    m->size,
-- 
2.43.0


From 053aee0f4075a92ad68769846ece2317b8cd27e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 51/94] fix: errors when writing to standard output were
 ignored

---
 src/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.c b/src/main.c
index e2ebaab..9c7d397 100644
--- a/src/main.c
+++ b/src/main.c
@@ -128,5 +128,13 @@ int main(int argc, char **argv)
         fprintf(stderr, "Error: %s (%i)\n", bpak_error_string(rc), rc);
     }
 
+    /* Output that could not be written must not go unnoticed */
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Error: Could not write to standard output\n");
+
+        if (rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
+    }
+
     return rc;
 }
-- 
2.43.0


From 2dec897d29b0acc37bbdbd6586d486d224bd066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 52/94] fix: names that only start like a hexadecimal number
 were taken for one

---
 src/main.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9c7d397..8aebb69 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <stdint.h>
 #include <stdarg.h>
 #include <time.h>
 #include <string.h>
@@ -26,15 +27,16 @@ int bpak_printf(int verbosity, const char *fmt, ...)
 
 bpak_id_t bpak_get_id_for_name_or_ref(char *arg)
 {
-    uint32_t id;
+    unsigned long id;
     char *endptr = NULL;
 
     if (strncmp(arg, "0x", 2) == 0) {
         errno = 0;
 
         id = strtoul(arg, &endptr, 16);
-        if (endptr != arg && errno == 0) {
-            return id;
+        if (endptr != &arg[2] && endptr != arg && *endptr == 0 && errno == 0 &&
+            id <= UINT32_MAX) {
+            return (bpak_id_t)id;
         }
     }
 
-- 
2.43.0


From 0ac2f9d9e99b5fe64d62fbf779f3ed44a653a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 53/94] fix: verify required write access to the archive

---
 src/sign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sign.c b/src/sign.c
index e09c8c9..dcae3ca 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -170,7 +170,7 @@ int action_verify(int argc, char **argv)
         return -1;
     }
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
-- 
2.43.0


From 8696ee76a0aec73276aa6a4f76dd0cc10f1ae911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 54/94] fix: sign crashed without a key and ignored errors
 reading the signature and closing the archive

---
 src/sign.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sign.c b/src/sign.c
index dcae3ca..8b735b8 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -75,6 +75,11 @@ int action_sign(int argc, char **argv)
         return -1;
     }
 
+    if (signature_file == NULL && key_source == NULL) {
+        fprintf(stderr, "Error: Missing --key or --signature parameter\n");
+        return -1;
+    }
+
     rc = bpak_pkg_open(&pkg, filename, "r+");
 
     if (rc != BPAK_OK) {
@@ -94,6 +99,13 @@ int action_sign(int argc, char **argv)
         }
         size = fread(sig, 1, sizeof(sig), sig_fp);
 
+        if (ferror(sig_fp)) {
+            fprintf(stderr, "Error: Could not read signature file\n");
+            fclose(sig_fp);
+            rc = -BPAK_READ_ERROR;
+            goto err_out;
+        }
+
         fclose(sig_fp);
         if (bpak_get_verbosity()) {
             printf("Loaded signature %zu bytes\n", size);
@@ -111,7 +123,11 @@ int action_sign(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK) {
+        fprintf(stderr, "Error: Could not write package\n");
+        rc = -BPAK_WRITE_ERROR;
+    }
+
     return rc;
 }
 
-- 
2.43.0


From 71be20f4c2c76512d08afb10138a2d43f48ccd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 55/94] fix: compare crashed on metadata that is missing in the
 second file and ignored its size

---
 src/compare.c | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index b550cd3..618a85c 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[128];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
@@ -141,25 +141,19 @@ int action_compare(int argc, char **argv)
         if (!m->id)
             continue;
 
-        data1 = NULL;
-        data2 = NULL;
         change = false;
         removed = false;
 
-        data1 = bpak_get_meta_ptr(h1p, m, char);
-
         rc = bpak_get_meta(h2p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 2? */
-        if (rc != BPAK_OK)
+        if (rc != BPAK_OK) {
             removed = true;
+        } else {
+            data1 = bpak_get_meta_ptr(h1p, m, char);
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
-
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (m->size != meta->size || memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
@@ -173,7 +167,12 @@ int action_compare(int argc, char **argv)
             printf("=");
         }
 
-        bpak_meta_to_string(h1p, m, string_output, sizeof(string_output));
+        if (bpak_meta_to_string(h1p,
+                                m,
+                                string_output,
+                                sizeof(string_output)) != BPAK_OK)
+            string_output[0] = 0;
+
         printf("   %8.8x   %-3u    %-20s %s\n",
                m->id,
                m->size,
@@ -187,19 +186,17 @@ int action_compare(int argc, char **argv)
         if (!m->id)
             continue;
 
-        data1 = NULL;
-        data2 = NULL;
-        change = false;
-        removed = false;
-
-        data1 = bpak_get_meta_ptr(h2p, m, char);
-
         rc = bpak_get_meta(h1p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 1? */
         if (rc != BPAK_OK) {
             printf(RED_YL);
-            bpak_meta_to_string(h2p, m, string_output, sizeof(string_output));
+            if (bpak_meta_to_string(h2p,
+                                    m,
+                                    string_output,
+                                    sizeof(string_output)) != BPAK_OK)
+                string_output[0] = 0;
+
             printf("+   %8.8x   %-3u    %-20s %s\n",
                    m->id,
                    m->size,
-- 
2.43.0


From 1470ea5f808f7fb4db71779dba148eec199936b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 56/94] fix: compare failed on parts of different size and
 marked added parts as removed

---
 src/compare.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index 618a85c..48f78f0 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -236,7 +236,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -244,10 +244,14 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
-                size_t data_to_compare = bpak_part_size(p);
+                /* No need to read the data if the sizes already differ */
+                size_t data_to_compare = 0;
+
+                if (bpak_part_size(p) == bpak_part_size(p2))
+                    data_to_compare = bpak_part_size(p);
 
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
@@ -315,7 +319,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
@@ -344,6 +348,8 @@ int action_compare(int argc, char **argv)
         }
     }
 
+    rc = BPAK_OK;
+
 err_close_fp2_out:
     fclose(fp2);
 err_close_fp1_out:
-- 
2.43.0


From 57f3225a54dea3080d189ad247dc1be8e588eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 57/94] fix: keystore generation did not check the provider id
 and used unchecked key positions and sizes

---
 src/generate.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..28c305a 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -149,6 +149,12 @@ int action_generate(int argc, char **argv)
             goto err_free_io_out;
         }
 
+        if (meta->size < sizeof(*keystore_provider_id)) {
+            fprintf(stderr, "Error: Invalid keystore-provider-id meta\n");
+            rc = -BPAK_SIZE_ERROR;
+            goto err_free_io_out;
+        }
+
         keystore_provider_id = bpak_get_meta_ptr(h, meta, uint32_t);
 
         int key_index = 0;
@@ -163,6 +169,11 @@ int action_generate(int argc, char **argv)
 
         char *keystore_name_copy = strdup(keystore_name);
 
+        if (keystore_name_copy == NULL) {
+            rc = -BPAK_FAILED;
+            goto err_free_io_out;
+        }
+
         for (unsigned int i = 0; i < strlen(keystore_name); i++) {
             if (keystore_name[i] == '-')
                 keystore_name_copy[i] = '_';
@@ -182,9 +193,7 @@ int action_generate(int argc, char **argv)
 
             printf("{\n");
             printf("    .id = 0x%x,\n", p->id);
-            printf("    .size = %"PRIu64",\n", p->size);
-
-            if (fseek(fp, p->offset, SEEK_SET) != 0) {
+            if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
                 goto err_free_keystore_name;
             }
@@ -212,6 +221,8 @@ int action_generate(int argc, char **argv)
                 goto err_free_keystore_name;
             }
 
+            printf("    .size = %u,\n", (unsigned int)key->size);
+
             switch (key->kind) {
             case BPAK_KEY_PUB_PRIME256v1:
                 printf("    .kind = BPAK_KEY_PUB_PRIME256v1,\n");
-- 
2.43.0


From 9753bba26b400dfb4ddec28ceaa1b50eb4eed25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 58/94] fix: python log function was used without owning a
 reference

---
 python/python_wrapper.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 161b48e..4c1cad6 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -22,7 +22,21 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     va_end(args);
 
     if (log_func != Py_None) {
-        PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+        PyObject *type, *value, *traceback;
+        PyObject *result;
+
+        /* There may be a pending exception that must not be disturbed */
+        PyErr_Fetch(&type, &value, &traceback);
+
+        result = PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+
+        if (result != NULL) {
+            Py_DECREF(result);
+        } else {
+            PyErr_WriteUnraisable(log_func);
+        }
+
+        PyErr_Restore(type, value, traceback);
     }
 
     return BPAK_OK;
@@ -51,11 +65,18 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
     static char *kwlist[] = {"log_func", NULL};
     (void)module;
 
-    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &log_func);
+    PyObject *new_log_func = NULL;
+    PyObject *old_log_func = log_func;
+
+    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &new_log_func);
     if (!rc) {
         return NULL;
     }
 
+    Py_INCREF(new_log_func);
+    log_func = new_log_func;
+    Py_DECREF(old_log_func);
+
     Py_RETURN_NONE;
 }
 
@@ -180,6 +201,9 @@ PyMODINIT_FUNC PyInit_bpak(void)
     if (PyType_Ready(&BPAKMetaType) < 0)
         return NULL;
 
+    /* log_func always owns a reference */
+    Py_INCREF(log_func);
+
     /* Module creation. */
     m_p = PyModule_Create(&module);
 
-- 
2.43.0


From f29f5f9798b139284635ffe10af33759798bf582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 59/94] fix: python bindings leaked every file name and refused
 names outside of ascii

---
 python/package.c | 58 +++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/python/package.c b/python/package.c
index c30fbcd..ea1e5a9 100644
--- a/python/package.c
+++ b/python/package.c
@@ -58,21 +58,16 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
                                      kwds,
                                      "O&s:bpak.Package.__init__",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename,
                                      &mode);
     if (!rc) {
         return -1;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return -1;
-    }
+    rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename), mode);
 
-    rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
-
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
         PyErr_SetString(BPAKPackageError, "could not open package");
@@ -104,21 +99,16 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
                                      kwds,
                                      "O&:verify",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &verify_key_filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-    rc = bpak_crypto_load_public_key(PyBytes_AsString(filename_ascii), &key);
+    rc = bpak_crypto_load_public_key(PyBytes_AsString(verify_key_filename), &key);
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(verify_key_filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "could not load key: %s",
@@ -147,21 +137,16 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
                                      kwds,
                                      "O&:verify",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &sign_key_filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-    rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(filename_ascii));
+    rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(sign_key_filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "signing failed: %s",
@@ -187,7 +172,7 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
                                      "sO&|p:add_file",
                                      kwlist,
                                      &part_name,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename,
                                      &with_merkle_tree);
 
@@ -195,20 +180,15 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
-                PyBytes_AsString(filename_ascii), part_name, 0);
+                PyBytes_AsString(filename), part_name, 0);
     } else {
-        rc = bpak_pkg_add_file(&package->pkg, PyBytes_AsString(filename_ascii),
+        rc = bpak_pkg_add_file(&package->pkg, PyBytes_AsString(filename),
                 part_name, 0);
     }
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "Failed to add file to package: %s",
@@ -239,22 +219,16 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
                                      "sO&:add_key",
                                      kwlist,
                                      &part_name,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-
-    rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
+    rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to add key to package: %s",
-- 
2.43.0


From 39c4e1857322f06a67022a23d18095cbb16e9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 60/94] fix: opening a python package twice leaked the first
 file

---
 python/package.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/package.c b/python/package.c
index ea1e5a9..f8cc723 100644
--- a/python/package.c
+++ b/python/package.c
@@ -65,13 +65,17 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    /* A package may be initialized more than once */
+    bpak_pkg_close(&self->pkg);
+
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename), mode);
 
     Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
+        memset(&self->pkg, 0, sizeof(self->pkg));
         PyErr_SetString(BPAKPackageError, "could not open package");
-        return rc;
+        return -1;
     }
 
     return 0;
-- 
2.43.0


From 5ea2d31b207677680e12e31f58b99e6a8d4e6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 61/94] fix: python crashed when using a closed package

---
 python/meta.c           | 16 ++++++++++++
 python/package.c        | 58 +++++++++++++++++++++++++++++++++++++++++
 python/part.c           | 12 +++++++++
 python/python_wrapper.c | 10 +++++++
 python/python_wrapper.h |  2 ++
 5 files changed, 98 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 21f34cd..fa3e88b 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -79,6 +79,10 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_check_open(meta->package)) {
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -132,6 +136,10 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         }
     }
 
+    if (!package_check_open(meta->package)) {
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -194,6 +202,10 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (!package_check_open(meta->package)) {
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -312,6 +324,10 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (!package_check_open(meta->package)) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
diff --git a/python/package.c b/python/package.c
index f8cc723..539f9a4 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,6 +9,16 @@
 
 #include "python_wrapper.h"
 
+bool package_check_open(BPAKPackage *package)
+{
+    if (package->pkg.fp == NULL) {
+        PyErr_SetString(PyExc_ValueError, "package is closed");
+        return false;
+    }
+
+    return true;
+}
+
 int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
@@ -110,6 +120,11 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_check_open(self)) {
+        Py_DECREF(verify_key_filename);
+        return NULL;
+    }
+
     rc = bpak_crypto_load_public_key(PyBytes_AsString(verify_key_filename), &key);
 
     Py_DECREF(verify_key_filename);
@@ -148,6 +163,11 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (!package_check_open(package)) {
+        Py_DECREF(sign_key_filename);
+        return NULL;
+    }
+
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
 
     Py_DECREF(sign_key_filename);
@@ -184,6 +204,11 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_check_open(package)) {
+        Py_DECREF(filename);
+        return NULL;
+    }
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename), part_name, 0);
@@ -230,6 +255,11 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (!package_check_open(package)) {
+        Py_DECREF(filename);
+        return NULL;
+    }
+
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
 
     Py_DECREF(filename);
@@ -273,6 +303,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_check_open(package)) {
+        return NULL;
+    }
+
     if (!data && size < 0) {
         return PyErr_Format(PyExc_TypeError, "must specify either initial data or size");
     }
@@ -430,6 +464,10 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
 
     size_t hash_size = sizeof(digest_data);
 
+    if (!package_check_open(package)) {
+        return NULL;
+    }
+
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
@@ -458,6 +496,10 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 	    return -1;
     }
 
+    if (!package_check_open(package)) {
+        return -1;
+    }
+
     hash_kind = PyLong_AsUnsignedLong(value);
     if (PyErr_Occurred()) {
         return -1;
@@ -498,6 +540,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 	    return -1;
     }
 
+    if (!package_check_open(package)) {
+        return -1;
+    }
+
     key_id = PyLong_AsUnsignedLong(value);
     if (PyErr_Occurred()) {
         return -1;
@@ -538,6 +584,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
 	    return -1;
     }
 
+    if (!package_check_open(package)) {
+        return -1;
+    }
+
     keystore_id = PyLong_AsUnsignedLong(value);
     if (PyErr_Occurred()) {
         return -1;
@@ -577,6 +627,10 @@ static int package_set_signature(PyObject *self, PyObject *value,
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_check_open(package)) {
+        return -1;
+    }
+
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
@@ -627,6 +681,10 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
 	    return -1;
     }
 
+    if (!package_check_open(package)) {
+        return -1;
+    }
+
     signature_kind = PyLong_AsUnsignedLong(value);
     if (PyErr_Occurred()) {
         return -1;
diff --git a/python/part.c b/python/part.c
index 0a30d97..4438e07 100644
--- a/python/part.c
+++ b/python/part.c
@@ -78,6 +78,10 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (!package_check_open(part->package)) {
+        return -1;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -160,6 +164,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     PyObject *bytes;
     int rc = 0;
 
+    if (!package_check_open(part->package)) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -196,6 +204,10 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     BPAKPart *part = (BPAKPart *)self;
     int rc;
 
+    if (!package_check_open(part->package)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 4c1cad6..8c73771 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -104,6 +104,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_check_open(input) || !package_check_open(output) ||
+        (origin != NULL && !package_check_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -140,6 +145,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_check_open(input) || !package_check_open(output) ||
+        (origin != NULL && !package_check_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 641ac16..589420b 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,8 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* Returns false and sets an exception if the package is closed */
+bool package_check_open(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From 769c722a0560bbbeb9d8c0139664097088513024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 62/94] fix: python add_meta released its data twice on errors
 and overflowed with sizes beyond 16 bits

---
 python/package.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/package.c b/python/package.c
index 539f9a4..d9417f3 100644
--- a/python/package.c
+++ b/python/package.c
@@ -343,6 +343,11 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
+    if (size > UINT16_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "metadata is too large");
+        goto err_out;
+    }
+
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
@@ -361,10 +366,6 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         memcpy(meta_ptr, new_data, to_copy);
     }
 
-    if (was_unicode) {
-        Py_DECREF(data);
-    }
-
     rc = package_write_header(package, false);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_IOError, "could not write header: %s",
@@ -372,6 +373,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         goto err_out;
     }
 
+    if (was_unicode) {
+        Py_DECREF(data);
+    }
+
     return meta_allocate(package, meta->id, meta->part_id_ref);
 
 err_out:
-- 
2.43.0


From a163b07e951226db30cb46161ca16d5e2398a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 63/94] fix: python crashed when deleting attributes

---
 python/meta.c    | 9 +++++++--
 python/package.c | 8 ++++----
 python/part.c    | 2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index fa3e88b..6d13944 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -65,7 +65,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -121,7 +121,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     struct bpak_meta_header *m;
 
     if (value != Py_None) {
-        if (!PyLong_Check(value)) {
+        if (value == NULL || !PyLong_Check(value)) {
             PyErr_SetString(PyExc_TypeError, "type mismatch");
             return -1;
         }
@@ -214,6 +214,11 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         return -1;
     }
 
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "can not delete attribute");
+        return -1;
+    }
+
     /* Support setting either as raw bytes or as string */
     Py_ssize_t  new_size = 0;
     char *new_data = NULL;
diff --git a/python/package.c b/python/package.c
index d9417f3..f58fc3e 100644
--- a/python/package.c
+++ b/python/package.c
@@ -496,7 +496,7 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -540,7 +540,7 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -584,7 +584,7 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
@@ -681,7 +681,7 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
diff --git a/python/part.c b/python/part.c
index 4438e07..e7000f0 100644
--- a/python/part.c
+++ b/python/part.c
@@ -64,7 +64,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
-    if (!PyLong_Check(value)) {
+    if (value == NULL || !PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
     }
-- 
2.43.0


From 0d57c8ca911925fc695ff6ad1520d6937105f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 64/94] fix: python silently truncated identifiers and kinds
 that are out of range

---
 python/meta.c    |  8 ++++----
 python/package.c | 28 ++++++++++++++++++++++------
 python/part.c    |  4 ++--
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 6d13944..cbcc61f 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -60,7 +60,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int meta_id;
+    unsigned long meta_id;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
@@ -74,7 +74,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     if (PyErr_Occurred()) {
         return -1;
     }
-    if (((uint32_t)meta_id) != meta_id) {
+    if (meta_id > UINT32_MAX) {
         PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
         return -1;
     }
@@ -115,7 +115,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_ref = 0;
+    unsigned long part_ref = 0;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
@@ -130,7 +130,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         if (PyErr_Occurred()) {
             return -1;
         }
-        if (((uint32_t)part_ref) != part_ref) {
+        if (part_ref > UINT32_MAX) {
             PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
             return -1;
         }
diff --git a/python/package.c b/python/package.c
index f58fc3e..8b85e44 100644
--- a/python/package.c
+++ b/python/package.c
@@ -492,7 +492,7 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int hash_kind;
+    unsigned long hash_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -509,8 +509,12 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     if (PyErr_Occurred()) {
         return -1;
     }
+    if (hash_kind > UINT8_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "value out of range");
+        return -1;
+    }
 
-    h->hash_kind = (uint32_t)hash_kind;
+    h->hash_kind = (uint8_t)hash_kind;
 
     rc = package_write_header(package, false);
 
@@ -536,7 +540,7 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int key_id;
+    unsigned long key_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -553,6 +557,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     if (PyErr_Occurred()) {
         return -1;
     }
+    if (key_id > UINT32_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "value out of range");
+        return -1;
+    }
 
     h->key_id = (uint32_t)key_id;
 
@@ -580,7 +588,7 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
 {
     (void)closure;
     int rc;
-    int keystore_id;
+    unsigned long keystore_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -597,6 +605,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     if (PyErr_Occurred()) {
         return -1;
     }
+    if (keystore_id > UINT32_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "value out of range");
+        return -1;
+    }
 
     h->keystore_id = (uint32_t)keystore_id;
 
@@ -677,7 +689,7 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
 {
     (void)closure;
     int rc;
-    int signature_kind;
+    unsigned long signature_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -694,8 +706,12 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     if (PyErr_Occurred()) {
         return -1;
     }
+    if (signature_kind > UINT8_MAX) {
+        PyErr_SetString(PyExc_OverflowError, "value out of range");
+        return -1;
+    }
 
-    h->signature_kind = (uint32_t)signature_kind;
+    h->signature_kind = (uint8_t)signature_kind;
 
     rc = package_write_header(package, false);
 
diff --git a/python/part.c b/python/part.c
index e7000f0..16045de 100644
--- a/python/part.c
+++ b/python/part.c
@@ -59,7 +59,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_id;
+    unsigned long part_id;
     BPAKPart *part = (BPAKPart *)self;
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
@@ -73,7 +73,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     if (PyErr_Occurred()) {
         return -1;
     }
-    if (((uint32_t)part_id) != part_id) {
+    if (part_id > UINT32_MAX) {
         PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
         return -1;
     }
-- 
2.43.0


From 4814c4c90b8b8467cf22b2044f3238dd7cc08a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 65/94] fix: python could create duplicate and hidden metadata
 and part entries

---
 python/meta.c | 18 ++++++++++++++++++
 python/part.c |  9 +++++++++
 2 files changed, 27 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index cbcc61f..8965be2 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -90,6 +90,16 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    /* Identifiers are unique and zero marks an unused entry */
+    struct bpak_meta_header *other;
+
+    if (meta_id == 0 ||
+        (meta_id != meta->meta_id &&
+         bpak_get_meta(h, meta_id, meta->part_ref, &other) == BPAK_OK)) {
+        PyErr_SetString(PyExc_ValueError, "identifier is invalid or in use");
+        return -1;
+    }
+
     m->id = meta_id;
     meta->meta_id = meta_id;
 
@@ -147,6 +157,14 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_meta_header *other;
+
+    if (part_ref != meta->part_ref &&
+        bpak_get_meta(h, meta->meta_id, part_ref, &other) == BPAK_OK) {
+        PyErr_SetString(PyExc_ValueError, "identifier is in use");
+        return -1;
+    }
+
     m->part_id_ref = part_ref;
     meta->part_ref = part_ref;
 
diff --git a/python/part.c b/python/part.c
index 16045de..b4ec044 100644
--- a/python/part.c
+++ b/python/part.c
@@ -89,6 +89,15 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    /* Identifiers are unique and zero marks an unused entry */
+    struct bpak_part_header *other;
+
+    if (part_id == 0 || (part_id != part->part_id &&
+                         bpak_get_part(h, part_id, &other) == BPAK_OK)) {
+        PyErr_SetString(PyExc_ValueError, "identifier is invalid or in use");
+        return -1;
+    }
+
     p->id = part_id;
     part->part_id = part_id;
 
-- 
2.43.0


From 9d7cb4078ca9173412d30f1fecfed3aa7d4e905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 66/94] fix: python read past the end of metadata without
 termination

---
 python/meta.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 8965be2..1fe90ae 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -298,13 +298,17 @@ static PyObject *meta_as_uuid(PyObject *self, PyObject *Py_UNUSED(ignored))
     static PyObject *uuid_ctor = NULL;
 
     /* Setup uuid module */
-    if (!py_uuid) {
+    if (!uuid_ctor) {
         py_uuid = PyImport_ImportModule("uuid");
         if (!py_uuid) {
             /* Exception already set */
             return NULL;
         }
         uuid_ctor = PyObject_GetAttrString(py_uuid, "UUID");
+        Py_CLEAR(py_uuid);
+        if (!uuid_ctor) {
+            return NULL;
+        }
     }
 
     PyObject *bytes = meta_get_rawdata(self, NULL);
@@ -332,9 +336,9 @@ static PyObject *meta_as_string(PyObject *self, PyObject *Py_UNUSED(ignored))
     }
 
     char *meta_ptr = bpak_get_meta_ptr(h, m, char);
-    size_t len = strlen(meta_ptr);
-    if (len > m->size) {
-        len = m->size;
+    size_t len = 0;
+    while (len < m->size && meta_ptr[len] != 0) {
+        len++;
     }
 
     return PyUnicode_DecodeASCII(meta_ptr, len, "strict");
-- 
2.43.0


From 985b2c705bb2897c02106e2bc8b35f1bf2142c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 67/94] fix: python could not read empty parts and trusted the
 part size for allocations

---
 python/part.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/python/part.c b/python/part.c
index b4ec044..d768c2f 100644
--- a/python/part.c
+++ b/python/part.c
@@ -43,7 +43,7 @@ static PyObject *part_repr(PyObject *self)
                 bpak_error_string(rc));
     }
 
-    return PyUnicode_FromFormat("<bpak.Part '0x%08x' (%d bytes)>", part->part_id,
+    return PyUnicode_FromFormat("<bpak.Part '0x%08x' (%zu bytes)>", part->part_id,
             bpak_part_size(p));
 }
 
@@ -186,6 +186,16 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     size_t part_size = bpak_part_size_wo_pad(p);
     size_t read_size;
     FILE *fp = part->package->pkg.fp;
+    long file_size = -1;
+
+    /* Never allocate more than what can be read */
+    if (fseek(fp, 0, SEEK_END) == 0) {
+        file_size = ftell(fp);
+    }
+
+    if (file_size < 0 || part_size > (size_t)file_size) {
+        return PyErr_Format(PyExc_IOError, "part data is missing");
+    }
 
     bytes = PyBytes_FromStringAndSize(NULL, part_size);
     if (!bytes) {
@@ -194,15 +204,13 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
 
     if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) < 0) {
         Py_DECREF(bytes);
-        return PyErr_Format(PyExc_IOError, "failed to seek: %s",
-                strerror(ferror(fp)));
+        return PyErr_SetFromErrno(PyExc_IOError);
     }
 
-    read_size = fread(PyBytes_AsString(bytes), part_size, 1, fp);
-    if (read_size != 1) {
+    read_size = fread(PyBytes_AsString(bytes), 1, part_size, fp);
+    if (read_size != part_size) {
         Py_DECREF(bytes);
-        return PyErr_Format(PyExc_IOError, "failed to read: %s",
-                strerror(ferror(fp)));
+        return PyErr_Format(PyExc_IOError, "failed to read part data");
     }
 
     return bytes;
-- 
2.43.0


From f7a6b197c28167756dcce7b5475c7b1e6de7c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 68/94] fix: python read past the end of the header for
 oversized signatures and ignored errors clearing it

---
 python/package.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/package.c b/python/package.c
index 8b85e44..1766571 100644
--- a/python/package.c
+++ b/python/package.c
@@ -476,7 +476,7 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
-    return Py_BuildValue("y#", digest_data, hash_size);
+    return Py_BuildValue("y#", digest_data, (Py_ssize_t)hash_size);
 }
 
 static PyObject *package_get_hash_kind(PyObject *self, void *closure)
@@ -628,9 +628,14 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package->pkg.header.signature_sz >
+        sizeof(package->pkg.header.signature)) {
+        return PyErr_Format(BPAKPackageError, "invalid signature size");
+    }
+
     return Py_BuildValue("y#",
                          package->pkg.header.signature,
-                         package->pkg.header.signature_sz);
+                         (Py_ssize_t)package->pkg.header.signature_sz);
 }
 
 static int package_set_signature(PyObject *self, PyObject *value,
@@ -650,7 +655,14 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
-        bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
+        rc = bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
+
+        if (rc != BPAK_OK) {
+            PyErr_Format(BPAKPackageError, "failed to clear signature: %s",
+                    bpak_error_string(rc));
+            return -1;
+        }
+
         return 0;
     }
 
-- 
2.43.0


From dd370676ced6c458522016aa0a621dbaa858d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 69/94] fix: python leaked and truncated the lists of parts and
 metadata

---
 python/package.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/package.c b/python/package.c
index 1766571..b0e3a5e 100644
--- a/python/package.c
+++ b/python/package.c
@@ -768,7 +768,7 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
     unsigned int idx = 0;
     bpak_foreach_part(hdr, p) {
         if (!p->id) {
-            break;
+            continue;
         }
 
         part = part_allocate(package, p->id);
@@ -779,6 +779,7 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, part);
+        Py_DECREF(part);
         if (rc < 0) {
             Py_DECREF(list);
 
@@ -809,7 +810,7 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
     unsigned int idx = 0;
     bpak_foreach_meta(hdr, m) {
         if (!m->id) {
-            break;
+            continue;
         }
 
         meta = meta_allocate(package, m->id, m->part_id_ref);
@@ -820,6 +821,7 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, meta);
+        Py_DECREF(meta);
         if (rc < 0) {
             Py_DECREF(list);
 
-- 
2.43.0


From 6dfb7f355ded271fadaf619b0515c6561ac31816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 70/94] fix: python ignored errors when flushing and closing a
 package

---
 python/package.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/package.c b/python/package.c
index b0e3a5e..30a6fba 100644
--- a/python/package.c
+++ b/python/package.c
@@ -31,7 +31,10 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     }
 
     rc = bpak_pkg_write_header(&package->pkg);
-    fflush(package->pkg.fp);
+
+    if (fflush(package->pkg.fp) != 0 && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
+    }
 
     return rc;
 }
@@ -95,9 +98,14 @@ static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
 {
     BPAKPackage *package = (BPAKPackage *)self;
 
-    bpak_pkg_close(&package->pkg);
+    int rc = bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
+    if (rc != BPAK_OK) {
+        return PyErr_Format(PyExc_IOError, "could not close package: %s",
+                bpak_error_string(rc));
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -454,9 +462,7 @@ static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 
 static PyObject *package_exit(PyObject *self, PyObject *args)
 {
-    package_close(self, args);
-
-    Py_RETURN_NONE;
+    return package_close(self, args);
 }
 
 /* Getters and setters */
-- 
2.43.0


From fc3c36853c3f4034392da4194d348d124b5be6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 71/94] fix: python kept changes in memory that could not be
 written

---
 python/meta.c    |  6 ++++--
 python/package.c | 13 +++++++++++++
 python/part.c    |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 1fe90ae..1263a21 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -101,7 +101,6 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     }
 
     m->id = meta_id;
-    meta->meta_id = meta_id;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
@@ -110,6 +109,8 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    meta->meta_id = meta_id;
+
     return 0;
 }
 
@@ -166,7 +167,6 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     }
 
     m->part_id_ref = part_ref;
-    meta->part_ref = part_ref;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
@@ -175,6 +175,8 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    meta->part_ref = part_ref;
+
     return 0;
 }
 
diff --git a/python/package.c b/python/package.c
index 30a6fba..77ff35b 100644
--- a/python/package.c
+++ b/python/package.c
@@ -36,6 +36,19 @@ int package_write_header(BPAKPackage *package, bool update_hash)
         rc = -BPAK_WRITE_ERROR;
     }
 
+    /* Do not keep changes that never made it to the file */
+    if (rc != BPAK_OK) {
+        struct bpak_header h;
+
+        clearerr(package->pkg.fp);
+
+        if (fseek(package->pkg.fp, 0, SEEK_SET) == 0 &&
+            fread(&h, 1, sizeof(h), package->pkg.fp) == sizeof(h) &&
+            bpak_valid_header(&h) == BPAK_OK) {
+            package->pkg.header = h;
+        }
+    }
+
     return rc;
 }
 
diff --git a/python/part.c b/python/part.c
index d768c2f..ed35905 100644
--- a/python/part.c
+++ b/python/part.c
@@ -99,7 +99,6 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     }
 
     p->id = part_id;
-    part->part_id = part_id;
 
     rc = package_write_header(part->package, false);
     if (rc != BPAK_OK) {
@@ -107,6 +106,8 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    part->part_id = part_id;
+
     return 0;
 }
 
-- 
2.43.0


From ab33e92c1ad1c6fcffd7c9d220b723bfc74a2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 72/94] fix: deleting a part used unchecked positions of unused
 metadata entries

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e7e02cd..f449cf6 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -527,7 +527,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     /* Remove any meta-data that points to the part */
     if (remove_meta) {
         bpak_foreach_meta(h, meta) {
-            if (meta->part_id_ref == part_id) {
+            if (meta->id != 0 && meta->part_id_ref == part_id) {
                 bpak_del_meta(h, meta);
                 /* Need to step back as "meta" now points to one beyond the removed element */
                 meta--;
-- 
2.43.0


From 2348a7592e8b496cfec2421d90c74be2a2423131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 73/94] fix: a signature that could not be written stayed in
 the in-memory header

---
 lib/pkg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index f449cf6..8eb427f 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -204,10 +204,18 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
     if (size > sizeof(pkg->header.signature))
         return -BPAK_SIZE_ERROR;
 
+    struct bpak_header saved_header = pkg->header;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-    return bpak_pkg_write_header(pkg);
+
+    int rc = bpak_pkg_write_header(pkg);
+
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
+
+    return rc;
 }
 
 struct decode_private {
-- 
2.43.0


From c854106ae6cb1164f0fbbdfa5a9b8236488f7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 74/94] fix: deleting all parts used unchecked positions of
 unused metadata entries

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 8eb427f..17384a8 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -619,7 +619,7 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     /* Remove any meta-data that points to any part */
     if (remove_meta) {
         bpak_foreach_meta(h, meta) {
-            if (meta->part_id_ref != 0) {
+            if (meta->id != 0 && meta->part_id_ref != 0) {
                 bpak_del_meta(h, meta);
                 /* Need to step back as "meta" now points to one beyond the removed element */
                 meta--;
-- 
2.43.0


From e38ba8a700293d8c53b1f7b1de9cc7962527e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 75/94] fix: deleting a part of a truncated archive moved data
 before it failed

---
 lib/pkg.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 17384a8..6a3c4d8 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -520,6 +520,20 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
 
+    /* Nothing may be moved unless all of the data that follows is there */
+    off_t file_size = -1;
+
+    if (fseek(pkg->fp, 0, SEEK_END) == 0)
+        file_size = ftell(pkg->fp);
+
+    if (file_size < 0)
+        return -BPAK_SEEK_ERROR;
+
+    if ((size_t)file_size < bpak_pkg_size(pkg)) {
+        bpak_printf(0, "%s: Error: Part data is missing\n", __func__);
+        return -BPAK_READ_ERROR;
+    }
+
     bpak_del_part(h, part);
     uint64_t bytes_to_process = 0;
 
-- 
2.43.0


From 6d2b05247150a543bf558418ce71e422ef7c104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 76/94] fix: show had no room for the hexadecimal form of a
 SHA-512 digest

---
 src/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 9450e63..f8d5101 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[2 * BPAK_HASH_MAX_LENGTH + 1];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
-- 
2.43.0


From 505537d6721baa9775fea96d275cca17c6e33b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 77/94] fix: refuse part sizes that exceed a file offset

---
 lib/bpak.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 1811c68..70a89cf 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -253,13 +253,27 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     if (hdr->magic != BPAK_HEADER_MAGIC)
         return -BPAK_BAD_MAGIC;
 
-    /* Check alignment of part data blocks */
+    uint64_t stored_end = sizeof(*hdr);
+    uint64_t installed_end = sizeof(*hdr);
+
+    /* Check alignment of part data blocks and that all of them, stored and
+     * installed, can be addressed with a file offset */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
             continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
+
+        if (p->size > (uint64_t)INT64_MAX - p->pad_bytes ||
+            bpak_part_size(p) > INT64_MAX)
+            return -BPAK_SIZE_ERROR;
+
+        installed_end += p->size + p->pad_bytes;
+        stored_end += bpak_part_size(p);
+
+        if (installed_end > INT64_MAX || stored_end > INT64_MAX)
+            return -BPAK_SIZE_ERROR;
     }
 
     /* Check for out-of-bounds metadata */
-- 
2.43.0


From b9cdb881c448f909ec51c76437dc7cf6b21119cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 78/94] fix: refuse to decode a package with several parts of
 the same id

---
 lib/transport_decode.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 5a8c8b2..2729567 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -206,8 +206,17 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
 {
     int rc;
     struct bpak_meta_header *meta = NULL;
+    struct bpak_part_header *first_part = NULL;
     ssize_t bytes_written;
 
+    /* Parts are located by their id, it must not be used by an other part */
+    rc = bpak_get_part(ctx->patch_header, part->id, &first_part);
+
+    if (rc != BPAK_OK)
+        return rc;
+    if (first_part != part)
+        return -BPAK_EXISTS;
+
     bytes_written = ctx->write_output_header(0,
                                              (uint8_t *)ctx->patch_header,
                                              sizeof(struct bpak_header),
-- 
2.43.0


From 1fdf6b4f770889e602bb8f8771fe18df1564f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 79/94] fix: do not add parts behind missing part data

---
 lib/pkg_create.c | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index b28f75c..7526088 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -236,6 +236,35 @@ err_free_buf_out:
 
 #endif // BPAK_CONFIG_MERKLE
 
+/* Where the data of a new part goes. Nothing may be added behind data that is
+ * missing, that would leave a hole in the file */
+static int new_part_offset(struct bpak_package *pkg, uint64_t *new_offset)
+{
+    *new_offset = sizeof(struct bpak_header);
+
+    bpak_foreach_part (&pkg->header, p) {
+        *new_offset += bpak_part_size(p);
+    }
+
+    if (*new_offset == sizeof(struct bpak_header))
+        return BPAK_OK;
+
+    off_t file_size = -1;
+
+    if (fseek(pkg->fp, 0, SEEK_END) == 0)
+        file_size = ftell(pkg->fp);
+
+    if (file_size < 0)
+        return -BPAK_SEEK_ERROR;
+
+    if ((uint64_t)file_size < *new_offset) {
+        bpak_printf(0, "Error: Part data is missing\n");
+        return -BPAK_READ_ERROR;
+    }
+
+    return BPAK_OK;
+}
+
 BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
                                   const char *filename, const char *part_name,
                                   uint8_t flags)
@@ -244,7 +273,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
     struct stat statbuf;
-    uint64_t new_offset = sizeof(struct bpak_header);
+    uint64_t new_offset;
     char chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
 
     if (stat(filename, &statbuf) != 0) {
@@ -263,9 +292,10 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
-    bpak_foreach_part (h, p) {
-        new_offset += bpak_part_size(p);
-    }
+    rc = new_part_offset(pkg, &new_offset);
+
+    if (rc != BPAK_OK)
+        return rc;
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
 
@@ -359,7 +389,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_key *key = NULL;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
-    uint64_t new_offset = sizeof(struct bpak_header);
+    uint64_t new_offset;
 
     struct bpak_header saved_header = *h;
 
@@ -368,10 +398,10 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     if (rc != BPAK_OK)
         return rc;
 
-    /* Write header */
-    bpak_foreach_part (h, p) {
-        new_offset += bpak_part_size(p);
-    }
+    rc = new_part_offset(pkg, &new_offset);
+
+    if (rc != BPAK_OK)
+        goto err_free_key_out;
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
 
-- 
2.43.0


From e4662390e84ca9f2ce14167d14226578541d6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 80/94] fix: bpak set crashed when memory for the header could
 not be allocated

---
 src/set.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/set.c b/src/set.c
index c85ad16..2a77452 100644
--- a/src/set.c
+++ b/src/set.c
@@ -110,6 +110,9 @@ int action_set(int argc, char **argv)
     FILE *fp = NULL;
     struct bpak_header *h = malloc(sizeof(struct bpak_header));
 
+    if (h == NULL)
+        return -BPAK_FAILED;
+
     fp = fopen(filename, "r+");
 
     if (fp == NULL) {
@@ -165,6 +168,12 @@ int action_set(int argc, char **argv)
                 }
 
                 struct bpak_header *tmp_header = malloc(sizeof(struct bpak_header));
+
+                if (tmp_header == NULL) {
+                    rc = -BPAK_FAILED;
+                    goto err_close_fp_out;
+                }
+
                 memcpy(tmp_header, h, sizeof(struct bpak_header));
 
                 struct bpak_meta_header *meta_tmp = NULL;
-- 
2.43.0


From d69c7a014ae0a59dd71b2367b2baa800a8188e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 81/94] fix: a decode that failed left an output that could
 verify

---
 lib/pkg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 6a3c4d8..cb67d64 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -286,6 +286,7 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     struct decode_private decode_private;
+    bool output_written = false;
 
     memset(&decode_private, 0, sizeof(struct decode_private));
     decode_private.output_fp = output->fp;
@@ -336,6 +337,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         goto err_out;
     }
 
+    output_written = true;
+
     /* A package without parts consists of the header only */
     if (decode_write_output_header(0,
                                    (uint8_t *)patch_header,
@@ -403,6 +406,15 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
 err_out:
     bpak_transport_decode_free(&decode_ctx);
+
+    /* An incomplete output must not be mistaken for a valid package */
+    if (rc != BPAK_OK && output_written) {
+        (void)fflush(output->fp);
+
+        if (ftruncate(fileno(output->fp), 0) != 0)
+            bpak_printf(0, "Error: Could not discard incomplete output\n");
+    }
+
     return rc;
 }
 
-- 
2.43.0


From da26b93232b315382574f20890c179a56cb4e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 82/94] fix: transport decode changed the input package and
 left the output package stale

---
 lib/pkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index cb67d64..9e54ead 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -281,13 +281,16 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 {
     int rc;
 
-    struct bpak_header *patch_header = bpak_pkg_header(input);
+    struct bpak_header *patch_header = bpak_pkg_header(output);
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     struct decode_private decode_private;
     bool output_written = false;
 
+    /* The header is updated as parts are decoded, the input is not touched */
+    output->header = input->header;
+
     memset(&decode_private, 0, sizeof(struct decode_private));
     decode_private.output_fp = output->fp;
     if (origin != NULL)
-- 
2.43.0


From 3c1effa9e519ea6f8006edd655b5b742fc9d6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 83/94] fix: a failed signing kept its signature in the package
 object

---
 lib/pkg_sign.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 0216e5e..e974f77 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -25,17 +25,17 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
     uint8_t signature[BPAK_SIGNATURE_MAX_BYTES] = { 0 };
+    struct bpak_header saved_header = pkg->header;
 
     rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-        return rc;
+        goto err_free_key_out;
 
     rc = bpak_crypto_load_private_key(key_filename, &sign_key);
 
-    if (rc != BPAK_OK) {
-        return rc;
-    }
+    if (rc != BPAK_OK)
+        goto err_free_key_out;
 
     size_t signature_length = sizeof(signature);
 
@@ -58,6 +58,10 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         goto err_free_key_out;
 
 err_free_key_out:
+    /* Do not keep a signature that never made it to the file */
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
+
     bpak_free(sign_key);
     return rc;
 }
-- 
2.43.0


From e3a086eeef90f6f2b17250447ee9dbcc2a72b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 84/94] fix: a refused part deletion changed the package object
 or moved part data

---
 lib/pkg.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 9e54ead..4710289 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -18,6 +18,7 @@
 #include <bpak/bpak.h>
 #include <bpak/verify.h>
 #include <bpak/crc.h>
+#include <bpak/crypto.h>
 #include <bpak/pkg.h>
 #include <bpak/utils.h>
 #include <bpak/transport.h>
@@ -523,6 +524,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     size_t p_size;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
+    struct bpak_hash_context hash_ctx;
+    struct bpak_header saved_header = *h;
 
     bpak_printf(1, "Deleting 0x%08x\n", part_id);
 
@@ -549,6 +552,14 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return -BPAK_READ_ERROR;
     }
 
+    /* The same goes for a payload hash that can't be updated afterwards */
+    rc = bpak_hash_init(&hash_ctx, h->hash_kind);
+
+    if (rc != BPAK_OK)
+        return rc;
+
+    bpak_hash_free(&hash_ctx);
+
     bpak_del_part(h, part);
     uint64_t bytes_to_process = 0;
 
@@ -583,7 +594,8 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         if (fseek(pkg->fp, read_offset, SEEK_SET) != 0) {
             bpak_printf(0, "%s: Error: Couldn't read file: %s\n",
                         __func__, strerror(errno));
-            return -BPAK_READ_ERROR;
+            rc = -BPAK_READ_ERROR;
+            goto err_restore;
         }
 
         size_t chunk_length =
@@ -592,14 +604,16 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         if (chunk_read != chunk_length) {
             bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
-            return -BPAK_READ_ERROR;
+            rc = -BPAK_READ_ERROR;
+            goto err_restore;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
             fwrite(copy_buffer, 1, chunk_read, pkg->fp) != chunk_read) {
             bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
                         __func__, strerror(errno));
-            return -BPAK_WRITE_ERROR;
+            rc = -BPAK_WRITE_ERROR;
+            goto err_restore;
         }
 
         bytes_to_process -= chunk_read;
@@ -610,13 +624,13 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
-        return rc;
+        goto err_restore;
     }
 
     rc = bpak_pkg_write_header(pkg);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not write header\n", __func__);
-        return rc;
+        goto err_restore;
     }
 
     size_t new_size = sizeof(struct bpak_header);
@@ -635,6 +649,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     }
 
     return BPAK_OK;
+
+err_restore:
+    /* The header in the file has not been changed */
+    *h = saved_header;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_meta)
-- 
2.43.0


From 0b9b3e12171e0fadf79e27051e76145506686cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 85/94] fix: Don't write part data to an archive whose payload
 hash can't be updated

---
 lib/pkg_create.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 7526088..4a78aad 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -240,6 +240,17 @@ err_free_buf_out:
  * missing, that would leave a hole in the file */
 static int new_part_offset(struct bpak_package *pkg, uint64_t *new_offset)
 {
+    struct bpak_hash_context hash_ctx;
+    int rc;
+
+    /* Or if the payload hash can't be updated afterwards */
+    rc = bpak_hash_init(&hash_ctx, pkg->header.hash_kind);
+
+    if (rc != BPAK_OK)
+        return rc;
+
+    bpak_hash_free(&hash_ctx);
+
     *new_offset = sizeof(struct bpak_header);
 
     bpak_foreach_part (&pkg->header, p) {
-- 
2.43.0


From 169bb2d91023bdc0fc830f6b061199c7de770586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 86/94] fix: Keep the header when all parts could not be
 deleted

---
 lib/pkg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 4710289..0da04b5 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -659,6 +659,7 @@ err_restore:
 BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_meta)
 {
     struct bpak_header *h = bpak_pkg_header(pkg);
+    struct bpak_header saved_header = *h;
     int rc;
 
     /* Clear out all parts data */
@@ -678,13 +679,13 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     rc = bpak_pkg_update_hash(pkg, NULL, NULL);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not update payload hash\n", __func__);
-        return rc;
+        goto err_restore;
     }
 
     rc = bpak_pkg_write_header(pkg);
     if (rc != BPAK_OK) {
         bpak_printf(0, "%s: Error: Could not write header\n", __func__);
-        return rc;
+        goto err_restore;
     }
 
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
@@ -694,4 +695,9 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     }
 
     return BPAK_OK;
+
+err_restore:
+    /* The parts are still there */
+    *h = saved_header;
+    return rc;
 }
-- 
2.43.0


From 194985baaf8ae71ecc4b6ba84f8e7447a70be67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 87/94] fix: show reported success for the reserved identifier
 zero

---
 src/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index f8d5101..a3b2c24 100644
--- a/src/show.c
+++ b/src/show.c
@@ -122,7 +122,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_MISSING_META_DATA;
 
         bpak_foreach_meta (h, m) {
-            if (m->id == meta_id) {
+            if (m->id && m->id == meta_id) {
                 if (part_name)
                     if (part_id != m->part_id_ref)
                         continue;
@@ -152,7 +152,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_NOT_FOUND;
 
         bpak_foreach_part (h, p) {
-            if (p->id == part_id) {
+            if (p->id && p->id == part_id) {
                 printf("Found 0x%x, %"PRIu64" bytes\n", p->id, p->size);
                 rc = BPAK_OK;
                 break;
-- 
2.43.0


From e3916110d541d3e59f74731ba8c86cee2ff5fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 88/94] fix: a malformed update could be written outside of the
 part it belongs to

---
 lib/transport_decode.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 2729567..188988f 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -201,6 +201,33 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     return BPAK_OK;
 }
 
+/* Decoded data may never end up outside of the part it belongs to */
+static ssize_t write_part(off_t offset, uint8_t *buffer, size_t length,
+                          void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+    off_t part_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
+                        sizeof(struct bpak_header) + ctx->output_offset;
+    uint64_t part_length = ctx->part->size + ctx->part->pad_bytes;
+
+    if (offset < part_offset ||
+        (uint64_t)(offset - part_offset) > part_length ||
+        length > part_length - (uint64_t)(offset - part_offset)) {
+        bpak_printf(0, "Error: Decoded data does not fit its part\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
+    return ctx->write_output(offset, buffer, length, ctx->user);
+}
+
+static ssize_t read_origin(off_t offset, uint8_t *buffer, size_t length,
+                           void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+
+    return ctx->read_origin(offset, buffer, length, ctx->user);
+}
+
 BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                             struct bpak_part_header *part)
 {
@@ -289,12 +316,12 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                ctx->buffer,
                                ctx->buffer_length,
                                patch_input_length,
-                               ctx->read_origin,
+                               read_origin,
                                origin_offset,
-                               ctx->write_output,
+                               write_part,
                                output_offset,
                                compression,
-                               ctx->user);
+                               ctx);
 
         if (rc != BPAK_OK)
             ctx->decoder_id = 0;
@@ -336,8 +363,7 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
                              sizeof(struct bpak_header) + ctx->output_offset +
                              ctx->copy_offset;
 
-        ssize_t bytes_written =
-            ctx->write_output(write_offset, buffer, length, ctx->user);
+        ssize_t bytes_written = write_part(write_offset, buffer, length, ctx);
         if (bytes_written < 0)
             return bytes_written;
         if (bytes_written != (ssize_t)length)
-- 
2.43.0


From bd5b40f00a0311c96865817ddeb7d29c5d7a7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 89/94] fix: documented options of transport were not
 recognised

---
 src/misc.c      | 4 ++--
 src/transport.c | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/misc.c b/src/misc.c
index 328b0bd..1756584 100644
--- a/src/misc.c
+++ b/src/misc.c
@@ -118,8 +118,8 @@ void print_transport_usage(void)
 
     printf("Add options:\n");
     printf("    -p, --part <part name>    Which part id to operate on\n");
-    printf("    -e, --encode <enc. name>  Encoder algorithm to use\n");
-    printf("    -d, --decode <dec. name>  Decoder algorithm to use\n");
+    printf("    -e, --encoder <enc. name> Encoder algorithm to use\n");
+    printf("    -d, --decoder <dec. name> Decoder algorithm to use\n");
     printf("\n");
 
     printf("Encode/Decode options:\n");
diff --git a/src/transport.c b/src/transport.c
index 81d1975..6918b16 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -45,13 +45,14 @@ int action_transport(int argc, char **argv)
         { "decoder", required_argument, 0, 'd' },
         { "encode", no_argument, 0, 'E' },
         { "decode", no_argument, 0, 'D' },
+        { "part", required_argument, 0, 'p' },
         { "part-ref", required_argument, 0, 'r' },
         { 0, 0, 0, 0 },
     };
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:s:O:e:d:EGr:",
+                              "hvao:O:e:d:EDp:r:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
@@ -67,6 +68,7 @@ int action_transport(int argc, char **argv)
         case 'E':
             encode_flag = true;
             break;
+        case 'p':
         case 'r':
             part_ref = bpak_get_id_for_name_or_ref(optarg);
             break;
-- 
2.43.0


From 7e95265627ea6c8113ff0dd03f65cd0b5c7af5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:51 +0000
Subject: [PATCH 90/94] fix: an unknown generator was reported as success

---
 src/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 28c305a..549c4f5 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -284,6 +284,9 @@ err_free_io_out:
         fclose(fp);
 err_free_header_out:
         free(h);
+    } else {
+        fprintf(stderr, "Error: Unknown generator '%s'\n", generator);
+        rc = -BPAK_NOT_SUPPORTED;
     }
 
     return rc;
-- 
2.43.0


From 4ae993ea3a16b133a70f507570efeee7f4428a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 91/94] fix: add --verbose printed a null string for an
 identifier read from a file

---
 src/add.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/add.c b/src/add.c
index a000a91..773da27 100644
--- a/src/add.c
+++ b/src/add.c
@@ -207,7 +207,7 @@ int action_add(int argc, char **argv)
                 memcpy(meta_data, uu, 16);
 
                 if (bpak_get_verbosity()) {
-                    printf("Adding %s <%s>\n", meta_name, from_string);
+                    printf("Adding %s <%s>\n", meta_name, metadata_input);
                 }
             } else if (strcmp(encoder, "integer") == 0) {
                 char *endptr = NULL;
-- 
2.43.0


From 067b64ad2b4f789e6093954af470f0d092451b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:52 +0000
Subject: [PATCH 92/94] fix: a failed add with merkle tree left the data
 without its tree behind

---
 lib/pkg_create.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 4a78aad..c1a279b 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -99,6 +99,8 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     if (merkle_buf == NULL)
         return -BPAK_FAILED;
 
+    struct bpak_header saved_header = *h;
+
     rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
 
     if (rc != BPAK_OK)
@@ -127,13 +129,13 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           merkle_buf);
 
     if (rc != BPAK_OK)
-        goto err_free_buf_out;
+        goto err_restore_header;
 
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
         rc = -BPAK_FILE_NOT_FOUND;
-        goto err_free_buf_out;
+        goto err_restore_header;
     }
 
     rc = BPAK_OK;
@@ -229,6 +231,14 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     rc = bpak_pkg_write_header(pkg);
 err_close_fp_out:
     fclose(fp);
+err_restore_header:
+    /* The data must not stay behind without its tree */
+    if (rc != BPAK_OK) {
+        *h = saved_header;
+
+        if (bpak_pkg_write_header(pkg) != BPAK_OK)
+            bpak_printf(0, "Error: Could not write header\n");
+    }
 err_free_buf_out:
     bpak_free(merkle_buf);
     return rc;
-- 
2.43.0


From 8ac199819097561dcda29957ef988ec614536961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:33 +0000
Subject: [PATCH 93/94] fix: python took over a half written header after a
 failed write

---
 python/meta.c    | 11 +++++++++++
 python/package.c | 28 +++++++++++++++-------------
 python/part.c    |  3 +++
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 1263a21..18e6b9f 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -100,10 +100,13 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     m->id = meta_id;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -166,10 +169,13 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     m->part_id_ref = part_ref;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -267,6 +273,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     }
 
     uint8_t *meta_data = bpak_get_meta_ptr(h, m, uint8_t);
+    struct bpak_header saved_header = *h;
 
     rc = 0;
     if (new_size <= m->size) {
@@ -281,6 +288,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         rc = -1;
@@ -363,10 +371,13 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
                 bpak_error_string(rc));
     }
 
+    struct bpak_header saved_header = *h;
+
     bpak_del_meta(h, m);
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         return PyErr_Format(PyExc_IOError, "could not write header: %s",
             bpak_error_string(rc));
     }
diff --git a/python/package.c b/python/package.c
index 77ff35b..e5e3f1e 100644
--- a/python/package.c
+++ b/python/package.c
@@ -36,19 +36,6 @@ int package_write_header(BPAKPackage *package, bool update_hash)
         rc = -BPAK_WRITE_ERROR;
     }
 
-    /* Do not keep changes that never made it to the file */
-    if (rc != BPAK_OK) {
-        struct bpak_header h;
-
-        clearerr(package->pkg.fp);
-
-        if (fseek(package->pkg.fp, 0, SEEK_SET) == 0 &&
-            fread(&h, 1, sizeof(h), package->pkg.fp) == sizeof(h) &&
-            bpak_valid_header(&h) == BPAK_OK) {
-            package->pkg.header = h;
-        }
-    }
-
     return rc;
 }
 
@@ -369,6 +356,8 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         goto err_out;
     }
 
+    struct bpak_header saved_header = *h;
+
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
@@ -389,6 +378,7 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = package_write_header(package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         goto err_out;
@@ -533,11 +523,14 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->hash_kind = (uint8_t)hash_kind;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -581,11 +574,14 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->key_id = (uint32_t)key_id;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -629,11 +625,14 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->keystore_id = (uint32_t)keystore_id;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -742,11 +741,14 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->signature_kind = (uint8_t)signature_kind;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
diff --git a/python/part.c b/python/part.c
index ed35905..f526fa1 100644
--- a/python/part.c
+++ b/python/part.c
@@ -98,10 +98,13 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     p->id = part_id;
 
     rc = package_write_header(part->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_SetString(PyExc_IOError, "could not write header");
         return -1;
     }
-- 
2.43.0


From d63af24d3682b1d1056d1752c58a80a32d8daa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:04 +0000
Subject: [PATCH 94/94] fix: release each hash context of a merkle tree exactly
 once

---
 lib/merkle.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 83497d2..0bf691d 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -275,26 +275,23 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
             if (rc != BPAK_OK)
                 goto err_free_hash_ctx_out;
 
+            bpak_hash_free(&ctx->running_hash);
+
             n_written = ctx->wr(ctx->offset + output_offset,
                                 ctx->buffer,
                                 sizeof(ctx->buffer),
                                 ctx->priv);
 
-            if (n_written < 0) {
-                rc = n_written;
-                goto err_free_hash_ctx_out;
-            }
-            if (n_written != sizeof(ctx->buffer)) {
-                rc = -BPAK_WRITE_ERROR;
-                goto err_free_hash_ctx_out;
-            }
+            if (n_written < 0)
+                return n_written;
+            if (n_written != sizeof(ctx->buffer))
+                return -BPAK_WRITE_ERROR;
 
             output_offset += n_written;
             input_offset += BPAK_MERKLE_BLOCK_SZ;
         }
     }
 
-    bpak_hash_free(&ctx->running_hash);
     /* Compute the root hash, which is the hash of the top level */
     bpak_printf(2, "Computing root hash\n");
     rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
-- 
2.43.0

