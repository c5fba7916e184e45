From 0b8b16eaf862e84d0e199146863af53c9c70ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 01/10] fix: make the last signature valid and never sign past
 the end of a key

The end-of-key check wiped the secret key before the last signature was
computed from it, so the last signature did not verify.  With an index that
fills all of its bytes (total height 40) it wrapped around and a used-up key
signed again, and for height 64 the check shifted by the width of the type.
---
 xmss_core.c      | 26 ++++++++++++++++++--------
 xmss_core_fast.c | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..86f1694 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -215,20 +215,23 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index fills all of its bytes (total tree heights of 40 and 64) we 
+     * do not use the last signature to be on the safe side (there is no index 
+     * value left to indicate that the key is finished, hence external handling 
+     * would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    unsigned long long last_idx = ~0ULL >> (64 - params->full_height);
+    if (params->full_height == 8*params->index_bytes) {
+        last_idx--;
+    }
+    if (idx > last_idx) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
+    const int is_last = (idx == last_idx);
     
     memcpy(sm, sk, params->index_bytes);
 
@@ -269,5 +272,12 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (is_last) {
+        // This was the last signature; delete the secret key. The key material
+        // and the state inside sk were needed up to here. Again, production
+        // code has to make sure that this happens on disk.
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..bc9d840 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -608,19 +608,20 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index fills all of its bytes (total tree heights of 40 and 64) we 
+     * do not use the last signature to be on the safe side (there is no index 
+     * value left to indicate that the key is finished, hence external handling 
+     * would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    const unsigned long long last_idx = ~0ULL >> (64 - params->full_height);
+    const unsigned long long final_idx =
+        (params->full_height == 8*params->index_bytes) ? last_idx - 1 : last_idx;
+    if (idx > final_idx) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +717,13 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (idx == final_idx) {
+        // This was the last signature; delete the secret key. The key material
+        // and the state inside sk were needed up to here. Again, production
+        // code has to make sure that this happens on disk.
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -829,19 +837,20 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * If the index fills all of its bytes (total tree heights of 40 and 64) we 
+     * do not use the last signature to be on the safe side (there is no index 
+     * value left to indicate that the key is finished, hence external handling 
+     * would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    const unsigned long long last_idx = ~0ULL >> (64 - params->full_height);
+    const unsigned long long final_idx =
+        (params->full_height == 8*params->index_bytes) ? last_idx - 1 : last_idx;
+    if (idx > final_idx) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -984,5 +993,12 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (idx == final_idx) {
+        // This was the last signature; delete the secret key. The key material
+        // and the state inside sk were needed up to here. Again, production
+        // code has to make sure that this happens on disk.
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From 943c2cd27696dcdee993e84ccaa4624c5b0602de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 02/10] fix: do not shift by the width of the type for total
 height 64

The fast multi-tree signer computed 1ULL << 64 (undefined; 1 in practice) for
keys of total height 64, which made it take the wrong branches from the first
signature on.
---
 xmss_core_fast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index bc9d840..a7774c4 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -944,13 +944,13 @@ int xmssmt_core_sign(const xmss_params *params,
 
     set_tree_addr(addr, (idx_tree + 1));
     // mandatory update for NEXT_0 (does not count towards h-k/2) if NEXT_0 exists
-    if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << params->full_height)) {
+    if (idx_tree < last_idx >> params->tree_height) {
         bds_state_update(params, &states[params->d], sk_seed, pub_seed, addr);
     }
 
     for (i = 0; i < params->d; i++) {
         // check if we're not at the end of a tree
-        if (! (((idx + 1) & ((1ULL << ((i+1)*params->tree_height)) - 1)) == 0)) {
+        if (! (((idx + 1) & (last_idx >> (params->full_height - (i+1)*params->tree_height))) == 0)) {
             idx_leaf = (idx >> (params->tree_height * i)) & ((1 << params->tree_height)-1);
             idx_tree = (idx >> (params->tree_height * (i+1)));
             set_layer_addr(addr, i);
@@ -961,14 +961,14 @@ int xmssmt_core_sign(const xmss_params *params,
             updates = bds_treehash_update(params, &states[i], updates, sk_seed, pub_seed, addr);
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
-            if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
+            if (i + 1 < params->d && idx_tree < last_idx >> (params->tree_height * (i+1))) {
                 if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
             }
         }
-        else if (idx < (1ULL << params->full_height) - 1) {
+        else if (idx < last_idx) {
             deep_state_swap(params, states+params->d + i, states + i);
 
             set_layer_addr(ots_addr, (i+1));
-- 
2.43.0


From 0e0547b8d0bf8088a5ee2df0f2383a83f7ab51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 03/10] fix: do not starve the next tree of upper layers

bds_state_update does nothing once all leaves of the next tree are there, but
the caller compared with the total height and spent an update on it all the
same.  With several layers the updates then missing let the next tree of a
higher layer fall behind, so that its root was wrong at the tree switch
(XMSSMT 40/8 and 60/12: all signatures invalid after the first 2^20).
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index a7774c4..806a5d7 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -962,7 +962,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if (i + 1 < params->d && idx_tree < last_idx >> (params->tree_height * (i+1))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0


From 2864729b3c113ace8c098eb5df5affa6d4f0996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/10] fix: do not let the number of updates underflow when
 layers switch trees

When more layers switch trees at once than there are updates, the unsigned
counter wrapped around, so that this one signature did all the work that was
pending in any layer.
---
 xmss_core_fast.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 806a5d7..7361777 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -980,7 +980,10 @@ int xmssmt_core_sign(const xmss_params *params,
             states[params->d + i].stackoffset = 0;
             states[params->d + i].next_leaf = 0;
 
-            updates--; // WOTS-signing counts as one update
+            // WOTS-signing counts as one update
+            if (updates > 0) {
+                updates--;
+            }
             needswap_upto = i;
             for (j = 0; j < params->tree_height-params->bds_k; j++) {
                 states[i].treehash[j].completed = 1;
-- 
2.43.0


From c255e294084c7f1b28fe3ca0c6aa7dab8510b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 05/10] fix: reject input shorter than a signature

The message length underflowed, and verification read and wrote far out of
bounds.
---
 xmss_commons.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..8beff01 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,12 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature cannot be valid. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From 957fa729c15b1e881e34d0bf82adfc736d2c72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 06/10] fix: keep all bits of the WOTS+ checksum for w = 256

len2*log_w is a multiple of 8 for w = 256; the checksum must not be shifted at
all then.  Shifting it by 8 lost its high byte, so that signatures of some
values could be extended into signatures of others.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From ad4b4d3e7229ada6e841d6a45b4e81c2d0709b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 07/10] fix: xmss_sign: store the updated key before any
 signature is output

The signature was output even if signing had failed (so a used-up key gave
output and exit code 0) or if the updated key could not be stored, and the key
was stored only when the file was closed, so that an interrupted or failing
run left a signature without its index being spent.  Truncated key files were
extended, and unreadable messages signed as whatever was in memory.
---
 ui/sign.c | 73 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..ad3eddd 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,8 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    long m_size;
+    int ret;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -48,10 +50,22 @@ int main(int argc, char **argv) {
 
     /* Find out the message length. */
     fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    m_size = ftell(m_file);
+    if (m_size < 0) {
+        fprintf(stderr, "Could not determine message length.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = m_size;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -65,7 +79,12 @@ int main(int argc, char **argv) {
     /* fseek past the public key */
     fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -80,23 +99,57 @@ int main(int argc, char **argv) {
     unsigned char *sm = malloc(params.sig_bytes + mlen);
     unsigned long long smlen;
 
+    if ((m == NULL && mlen > 0) || sm == NULL) {
+        fprintf(stderr, "Could not allocate memory.\n");
+        ret = -1;
+        goto cleanup;
+    }
+
     /* fseek back to start of sk. */
     fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
     fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.sk_bytes) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        ret = -1;
+        goto cleanup;
+    }
+    if (fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read message file.\n");
+        ret = -1;
+        goto cleanup;
+    }
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
+
+    /* The updated secret key has to be stored before any part of the signature
+       is output, or the same one-time key could be used again. It is stored
+       even if signing failed, as it has been deleted then. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) != 0
+            || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file)
+               != params.sk_bytes
+            || fflush(keypair_file) != 0) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+        goto cleanup;
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    if (ret != 0) {
+        fprintf(stderr, "Signing failed.\n");
+        goto cleanup;
+    }
+
+    if (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout) != 0) {
+        fprintf(stderr, "Could not write signature.\n");
+        ret = -1;
+    }
 
+cleanup:
     fclose(keypair_file);
     fclose(m_file);
 
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 7290e715fa1ccb2571e44cc6340e0a9fd80e6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 08/10] fix: xmss_sign: lock the key file while signing

Concurrent runs on one key file read the same index and output two signatures
made with the same one-time key.
---
 ui/sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index ad3eddd..0fa2bda 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -41,6 +42,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* Keep other processes from signing with the same index in the meantime. */
+    if (lockf(fileno(keypair_file), F_LOCK, 0) != 0) {
+        fprintf(stderr, "Could not lock keypair file.\n");
+        fclose(keypair_file);
+        return -1;
+    }
+
     m_file = fopen(argv[2], "rb");
     if (m_file == NULL) {
         fprintf(stderr, "Could not open message file.\n");
-- 
2.43.0


From 6fc1dd4ea35795e48104e4a703a78cc1fd031439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 09/10] fix: xmss_open: reject truncated or unreadable key and
 signature files

A public key that was cut short was completed from uninitialized memory and
could be accepted; input that cannot be sought in crashed.
---
 ui/open.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index a0b0b94..804a586 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -23,6 +23,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long smlen;
+    long sm_size;
     int ret;
 
     if (argc != 3) {
@@ -48,9 +49,21 @@ int main(int argc, char **argv) {
 
     /* Find out the message length. */
     fseek(sm_file, 0, SEEK_END);
-    smlen = ftell(sm_file);
+    sm_size = ftell(sm_file);
+    if (sm_size < 0) {
+        fprintf(stderr, "Could not determine signature + message length.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
+    smlen = sm_size;
 
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -67,10 +80,18 @@ int main(int argc, char **argv) {
 
     fseek(keypair_file, 0, SEEK_SET);
     fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
-
-    ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
+    if (fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.pk_bytes) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        ret = -1;
+    }
+    else if (sm == NULL || m == NULL || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read signature + message file.\n");
+        ret = -1;
+    }
+    else {
+        ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
+    }
 
     if (ret) {
         printf("Verification failed!\n");
-- 
2.43.0


From 16512483fc827d02891a3c2b7c5db000c48279d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 10/10] fix: xmss_keypair: report failure to generate or write
 the key pair

---
 ui/keypair.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..56dd188 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -37,12 +37,19 @@ int main(int argc, char **argv)
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
 
-    XMSS_KEYPAIR(pk, sk, oid);
-
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
+    if (XMSS_KEYPAIR(pk, sk, oid) != 0) {
+        fprintf(stderr, "Error generating keypair.\n");
+        return -1;
+    }
 
-    fclose(stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout)
+            != XMSS_OID_LEN + params.pk_bytes
+        || fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout)
+            != XMSS_OID_LEN + params.sk_bytes
+        || fclose(stdout) != 0) {
+        fprintf(stderr, "Could not write keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0

