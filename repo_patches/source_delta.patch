From 21d92fef95e4b22ecf2be2f1f3435be52690b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 001/100] fix: release the curve group when filling the
 parameters fails

---
 gost_ec_sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..10f648f 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -163,13 +163,15 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
     EC_GROUP_set_curve_name(grp, nid);
     params->group = grp;
-    if (!EC_KEY_set_group(eckey, grp)) {
+    grp = NULL;
+    if (!EC_KEY_set_group(eckey, params->group)) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
         goto end;
     }
     ok = 1;
  end:
     EC_POINT_free(P);
+    EC_GROUP_free(grp);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
     return ok;
-- 
2.43.0


From 467645c338a0703b828dde4ae9e6abe93b3569b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 002/100] fix: release both signature halves when signing fails

---
 gost_ec_sign.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 10f648f..e9db631 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -304,10 +304,16 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
         goto err;
     }
-    ECDSA_SIG_set0(newsig, new_r, new_s);
+    if (!ECDSA_SIG_set0(newsig, new_r, new_s)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+    new_r = new_s = NULL;
 
     ret = newsig;
  err:
+    BN_free(new_r);
+    BN_free(new_s);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
     if (C)
-- 
2.43.0


From 57726815d2331fd1a03d801ad0919494b3b61ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 003/100] fix: check the result of BN_one() when signing

---
 gost_ec_sign.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index e9db631..4bee60c 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -238,8 +238,9 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     BN_print_fp(stderr, e);
     fprintf(stderr, "\n");
 #endif
-    if (BN_is_zero(e)) {
-        BN_one(e);
+    if (BN_is_zero(e) && !BN_one(e)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_INTERNAL_ERROR);
+        goto err;
     }
     k = BN_CTX_get(ctx);
     C = EC_POINT_new(group);
-- 
2.43.0


From 92f2f58677371c23916cf9d20be5ef953aaa04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 004/100] fix: report an unusable digest or key instead of
 aborting the process

---
 gost_ec_sign.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 4bee60c..ca8915b 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -196,7 +196,10 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     EC_POINT *C = NULL;
     BN_CTX *ctx;
 
-    OPENSSL_assert(dgst != NULL && eckey != NULL);
+    if (dgst == NULL || eckey == NULL) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_PASSED_NULL_PARAMETER);
+        return NULL;
+    }
 
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
@@ -204,7 +207,10 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
+    if (dlen != 32 && dlen != 64) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        goto err;
+    }
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -344,7 +350,10 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
     const EC_POINT *pub_key = NULL;
     int ok = 0;
 
-    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
+    if (dgst == NULL || sig == NULL || group == NULL) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_PASSED_NULL_PARAMETER);
+        return 0;
+    }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
@@ -380,7 +389,10 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
+    if (dgst_len != 32 && dgst_len != 64) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        goto err;
+    }
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From c22d5456e9c51774b8a8af16c9388b0f55fda8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 005/100] fix: refuse to compute a shared key without both
 halves of the key pair

---
 gost_ec_keyx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..3ce4b29 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -51,7 +51,12 @@ int VKO_compute_key(unsigned char *shared_key,
         goto err;
     }
 
-    grp = EC_KEY_get0_group(priv_key);
+    if (priv_key == NULL || pub_key == NULL
+        || (grp = EC_KEY_get0_group(priv_key)) == NULL
+        || EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_KEY_IS_NOT_INITIALIZED);
+        goto err;
+    }
     scalar = BN_CTX_get(ctx);
     X = BN_CTX_get(ctx);
 
-- 
2.43.0


From fbeca6bc19967ba50089c025cf1d1b5fe47b210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 006/100] fix: wipe the shared point after VKO

---
 gost_ec_keyx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 3ce4b29..fbad4b7 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -36,7 +36,7 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX *ctx = NULL;
     EVP_MD_CTX *mdctx = NULL;
     const EVP_MD *md = NULL;
-    int buf_len, half_len;
+    int buf_len = 0, half_len;
     int ret = 0;
 
     if ((ctx = BN_CTX_secure_new()) == NULL) {
@@ -123,9 +123,9 @@ int VKO_compute_key(unsigned char *shared_key,
  err:
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
-    EC_POINT_free(pnt);
+    EC_POINT_clear_free(pnt);
     EVP_MD_CTX_free(mdctx);
-    OPENSSL_free(databuf);
+    OPENSSL_clear_free(databuf, buf_len);
 
     return ret;
 }
-- 
2.43.0


From e9e8dd7ccdf2815931c8cad9d8859494432738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 007/100] fix: fail key derivation cleanly when a key is
 missing

---
 gost_ec_keyx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index fbad4b7..82a53f8 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -208,6 +208,12 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
         return 0;
     }
 
+    if (key && (!my_key || !peer_key || !EVP_PKEY_get0(my_key)
+                || !EVP_PKEY_get0(peer_key))) {
+        GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_KEY_IS_NOT_INITIALIZED);
+        return 0;
+    }
+
     /* VKO */
     if (data->vko_dgst_nid) {
         if (!key) {
-- 
2.43.0


From e9fd207d3ba07a3ea7c8ea0f9e9e8fd56e182586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 008/100] fix: do not write a derived key past the caller's
 buffer

---
 gost_ec_keyx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 82a53f8..5df2928 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -220,6 +220,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             *keylen = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
             return 1;
         }
+        if (*keylen < (data->vko_dgst_nid == NID_id_GostR3411_2012_256 ? 32 : 64)) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+            return 0;
+        }
         *keylen = VKO_compute_key(key,
                                   EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
@@ -244,6 +248,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 32;
                 return 1;
             }
+            if (*keylen < 32) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
             EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid);
             if (dgst_nid == NID_id_GostR3411_2012_512)
                 dgst_nid = NID_id_GostR3411_2012_256;
@@ -262,6 +270,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 64;
                 return 1;
             }
+            if (*keylen < 64) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
 
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
                                EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
-- 
2.43.0


From a5b0ec4af035f5f49b54f9424390a39124ca4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 009/100] fix: check the default digest lookup

---
 gost_ec_keyx.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 5df2928..a3d34bf 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -252,7 +252,8 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
                 return 0;
             }
-            EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid);
+            if (EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid) <= 0)
+                return 0;
             if (dgst_nid == NID_id_GostR3411_2012_512)
                 dgst_nid = NID_id_GostR3411_2012_256;
 
@@ -350,7 +351,8 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     if (out) {
         int dgst_nid = NID_undef;
-        EVP_PKEY_get_default_digest_nid(pubk, &dgst_nid);
+        if (EVP_PKEY_get_default_digest_nid(pubk, &dgst_nid) <= 0)
+            goto err;
         if (dgst_nid == NID_id_GostR3411_2012_512)
             dgst_nid = NID_id_GostR3411_2012_256;
 
@@ -654,7 +656,8 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
-    EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
+    if (EVP_PKEY_get_default_digest_nid(priv, &dgst_nid) <= 0)
+        goto err;
     if (dgst_nid == NID_id_GostR3411_2012_512)
         dgst_nid = NID_id_GostR3411_2012_256;
 
-- 
2.43.0


From 31b3fa1d90097c075aa4d7a567ff41674d4b915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 010/100] fix: do not read past a short session key when
 wrapping it

---
 gost_ec_keyx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index a3d34bf..dca27da 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -318,6 +318,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     int res_len = 0;
 
+    if (out && key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
     if (data->shared_ukm_size) {
         memcpy(ukm, data->shared_ukm, 8);
     } else {
-- 
2.43.0


From a28f381fc1cd87491547ef81b8a4cb1ddfb8f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 011/100] fix: release the ephemeral key when key transport
 fails

---
 gost_ec_keyx.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index dca27da..0b9c289 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -343,9 +343,16 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     } else {
         key_is_ephemeral = 1;
         if (out) {
+            EC_KEY *ec = EC_KEY_new();
+
             sec_key = EVP_PKEY_new();
-            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-                || !EVP_PKEY_copy_parameters(sec_key, pubk)
+            if (!sec_key || !ec
+                || !EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), ec)) {
+                EC_KEY_free(ec);
+                GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_MALLOC_FAILURE);
+                goto err;
+            }
+            if (!EVP_PKEY_copy_parameters(sec_key, pubk)
                 || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
                 GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
                         GOST_R_ERROR_COMPUTING_SHARED_KEY);
@@ -483,20 +490,23 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!sec_key)
     {
+      EC_KEY *ec = EC_KEY_new();
+
       sec_key = EVP_PKEY_new();
-      if (sec_key == NULL) {
+      key_is_ephemeral = 1;
+      if (sec_key == NULL || ec == NULL
+          || !EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), ec)) {
+        EC_KEY_free(ec);
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
         goto err;
       }
 
-      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-          || !EVP_PKEY_copy_parameters(sec_key, pubk)
+      if (!EVP_PKEY_copy_parameters(sec_key, pubk)
           || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
       }
-      key_is_ephemeral = 1;
     }
 
     if (data->shared_ukm_size == 0) {
-- 
2.43.0


From 1032f48a3d596fa1582976f8b7116bd4e8c571b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 012/100] fix: do not release the ephemeral key twice

---
 gost_ec_keyx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0b9c289..9776dae 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -401,8 +401,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
+    if (key_is_ephemeral) {
         EVP_PKEY_free(sec_key);
+        sec_key = NULL;
+    }
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
-- 
2.43.0


From 66a85d7381dc831eaa8ede5ac7e969cee0327832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 013/100] fix: report a failed key transport encoding

---
 gost_ec_keyx.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 9776dae..4086df6 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -427,9 +427,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0)
+        if ((res_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
@@ -575,9 +576,10 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_PSKeyTransport_gost(pst, &out)) > 0)
+        if ((res_len = i2d_PSKeyTransport_gost(pst, &out)) > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
-- 
2.43.0


From 913fb7373f49e907de0f1e9582ddcfd997d6c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 014/100] fix: wipe the key encryption key schedule

---
 gost_ec_keyx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 4086df6..872d76a 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -435,10 +435,12 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     OPENSSL_cleanse(shared_key, sizeof(shared_key));
+    OPENSSL_cleanse(&cctx, sizeof(cctx));
     GOST_KEY_TRANSPORT_free(gkt);
     return ret;
  err:
     OPENSSL_cleanse(shared_key, sizeof(shared_key));
+    OPENSSL_cleanse(&cctx, sizeof(cctx));
     if (key_is_ephemeral)
         EVP_PKEY_free(sec_key);
     GOST_KEY_TRANSPORT_free(gkt);
@@ -696,6 +698,7 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     ret = 1;
  err:
     OPENSSL_cleanse(sharedKey, sizeof(sharedKey));
+    OPENSSL_cleanse(&ctx, sizeof(ctx));
     EVP_PKEY_free(eph_key);
     GOST_KEY_TRANSPORT_free(gkt);
     return ret;
-- 
2.43.0


From 33d5e6f69a75ea731760fb987700e7f42c5b9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 015/100] fix: reject malformed key transport data instead of
 aborting the process

---
 gost_ec_keyx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 872d76a..5cf8942 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -669,11 +669,15 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     }
 
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     if (EVP_PKEY_get_default_digest_nid(priv, &dgst_nid) <= 0)
-- 
2.43.0


From 2d87a1775afcc38b22097e26f009216c3b3d6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 016/100] fix: do not ignore an undecodable ephemeral key

---
 gost_ec_keyx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 5cf8942..eee7f17 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -642,9 +642,9 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     }
 
     /* If key transport structure contains public key, use it */
-    eph_key = X509_PUBKEY_get(gkt->key_agreement_info->ephem_key);
-    if (eph_key) {
-        if (EVP_PKEY_derive_set_peer(pctx, eph_key) <= 0) {
+    if (gkt->key_agreement_info->ephem_key) {
+        eph_key = X509_PUBKEY_get(gkt->key_agreement_info->ephem_key);
+        if (eph_key == NULL || EVP_PKEY_derive_set_peer(pctx, eph_key) <= 0) {
             GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
                     GOST_R_INCOMPATIBLE_PEER_KEY);
             goto err;
-- 
2.43.0


From 5709f355edaa49865add2fec4dd4c26b6505b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 017/100] fix: reject an ephemeral key of another type or curve

---
 gost_ec_keyx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index eee7f17..00939db 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -775,6 +775,10 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        ret = 0;
        goto err;
     }
+    if (EVP_PKEY_parameters_eq(priv, eph_key) != 1) {
+       GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_INCOMPATIBLE_PEER_KEY);
+       goto err;
+    }
 
     if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-- 
2.43.0


From 0490a325a928b8be308c69de1abb255bb2b12823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 018/100] fix: notice when the UKM of a key transport message
 is refused

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 00939db..b53593f 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -782,7 +782,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
+        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) <= 0) {
             GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
             goto err;
         }
-- 
2.43.0


From 88b075d72608b98f5932e8223979705f49dd3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 019/100] fix: release an unwrapped key only after its MAC was
 verified

---
 gost_keywrap.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gost_keywrap.c b/gost_keywrap.c
index a2134c2..ef869fc 100644
--- a/gost_keywrap.c
+++ b/gost_keywrap.c
@@ -8,6 +8,7 @@
  *                  Doesn't need OpenSSL                              *
  **********************************************************************/
 #include <string.h>
+#include <openssl/crypto.h>
 #include "gost89.h"
 #include "gost_keywrap.h"
 
@@ -75,6 +76,7 @@ int keyWrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
     memcpy(wrappedKey, ukm, 8);
     gost_enc(ctx, sessionKey, wrappedKey + 8, 4);
     gost_mac_iv(ctx, 32, ukm, sessionKey, 32, wrappedKey + 40);
+    OPENSSL_cleanse(kek_ukm, sizeof(kek_ukm));
     return 1;
 }
 
@@ -93,15 +95,19 @@ int keyUnwrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
                        const unsigned char *wrappedKey,
                        unsigned char *sessionKey)
 {
-    unsigned char kek_ukm[32], cek_mac[4];
+    unsigned char kek_ukm[32], cek_mac[4], cek[32];
+    int ret = 0;
     keyDiversifyCryptoPro(ctx, keyExchangeKey, wrappedKey
                           /* First 8 bytes of wrapped Key is ukm */
                           , kek_ukm);
     gost_key(ctx, kek_ukm);
-    gost_dec(ctx, wrappedKey + 8, sessionKey, 4);
-    gost_mac_iv(ctx, 32, wrappedKey, sessionKey, 32, cek_mac);
-    if (memcmp(cek_mac, wrappedKey + 40, 4)) {
-        return 0;
+    gost_dec(ctx, wrappedKey + 8, cek, 4);
+    gost_mac_iv(ctx, 32, wrappedKey, cek, 32, cek_mac);
+    if (CRYPTO_memcmp(cek_mac, wrappedKey + 40, 4) == 0) {
+        memcpy(sessionKey, cek, 32);
+        ret = 1;
     }
-    return 1;
+    OPENSSL_cleanse(cek, sizeof(cek));
+    OPENSSL_cleanse(kek_ukm, sizeof(kek_ukm));
+    return ret;
 }
-- 
2.43.0


From 2cd10f1797678be40959373edd3717fd212fe1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 020/100] fix: do not write past the IV buffer in gost_kexp15

---
 gost_keyexpimp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..5203790 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -59,6 +59,11 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
         goto err;
     }
 
+    if (ivlen > sizeof(iv_full)) {
+        GOSTerr(GOST_F_GOST_KEXP15, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+
     /* we expect IV of half length */
     memset(iv_full, 0, 16);
     memcpy(iv_full, iv, ivlen);
-- 
2.43.0


From 7052986a149bf312bdde6a2150e87a460feca9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 021/100] fix: wipe the MAC of an exported or imported key

---
 gost_keyexpimp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 5203790..4fed155 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -106,7 +106,7 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
     ret = 1;
 
  err:
-    OPENSSL_cleanse(mac_buf, mac_len);
+    OPENSSL_cleanse(mac_buf, sizeof(mac_buf));
     EVP_MD_CTX_free(mac);
     EVP_CIPHER_CTX_free(ciph);
 
@@ -198,6 +198,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
 
  err:
     OPENSSL_cleanse(out, sizeof(out));
+    OPENSSL_cleanse(mac_buf, sizeof(mac_buf));
     EVP_MD_CTX_free(mac);
     EVP_CIPHER_CTX_free(ciph);
     return ret;
-- 
2.43.0


From b548bbf52a0cccfcc20a0f81c7932f6ca28f6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 022/100] fix: reject truncated keys instead of using
 uninitialised bytes

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 4fed155..53bc2ce 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -141,7 +141,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
-- 
2.43.0


From 5038180fb0c53dcdab295e9c11570399aaf3da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 023/100] fix: release the HMAC context and bound the
 parameters of KDF_TREE

---
 gost_keyexpimp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 53bc2ce..617d438 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -224,8 +224,11 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
         return 0;
     }
 
-    if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
+    if ((keyout_len == 0) || (keyout_len % 32 != 0)
+        || keyout_len > UINT32_MAX / 8
+        || representation < 1 || representation > 4) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
         return 0;
     }
     iters = keyout_len / 32;
-- 
2.43.0


From 98adfe6c311318560161675b52a31bc0548b00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 024/100] fix: wipe the intermediate TLSTREE keys

---
 gost_keyexpimp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 617d438..b82c092 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -278,6 +278,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     uint64_t seed1, seed2, seed3;
     uint64_t seq;
     unsigned char ko1[32], ko2[32];
+    int ret = 0;
 
     switch (cipher_nid) {
     case NID_magma_cbc:
@@ -308,9 +309,13 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
                          (const unsigned char *)&seed2, 8, 1) <= 0
         || gost_kdftree2012_256(out, 32, ko2, 32, (const unsigned char *)"level3", 6,
                          (const unsigned char *)&seed3, 8, 1) <= 0)
-			return 0;
+        goto err;
 
-    return 1;
+    ret = 1;
+ err:
+    OPENSSL_cleanse(ko1, sizeof(ko1));
+    OPENSSL_cleanse(ko2, sizeof(ko2));
+    return ret;
 }
 
 #define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
-- 
2.43.0


From 7938dc912762836f5682019f70bc6777bad7a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 025/100] fix: report a failed unwrapping of a KExp15 key as an
 error

---
 gost_keyexpimp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index b82c092..f05a432 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -384,7 +384,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -437,7 +437,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From 1eafa398bc1af7e10ebfa91caab9e26ea394b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 026/100] fix: do not unwrap a KExp15 key again in the final
 call

---
 gost_keyexpimp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index f05a432..acd3458 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -362,6 +362,10 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
+	/* The final call has no input: do not unwrap the key a second time */
+	if (in == NULL)
+		return 0;
+
 	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
 		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
 			return -1;
@@ -415,6 +419,10 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
+	/* The final call has no input: do not unwrap the key a second time */
+	if (in == NULL)
+		return 0;
+
 	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
 		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
 			return -1;
-- 
2.43.0


From 360ebc85eb97b286167fd0d5fb5b2807c8848576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 027/100] fix: do not crash on keys without parameters

---
 gost_ameth.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..dce8cd5 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -65,6 +65,10 @@ static ASN1_STRING *encode_gost_algor_params(const EVP_PKEY *key)
         GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, ERR_R_MALLOC_FAILURE);
         goto err;
     }
+    if (!key_ptr || !EC_KEY_get0_group(key_ptr)) {
+        GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, GOST_R_KEY_PARAMETERS_MISSING);
+        goto err;
+    }
     switch (EVP_PKEY_base_id(key)) {
     case NID_id_GostR3410_2012_256:
         pkey_param_nid = EC_GROUP_get_curve_name(EC_KEY_get0_group(key_ptr));
@@ -1049,7 +1053,7 @@ static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
     const EC_KEY *ea = EVP_PKEY_get0((EVP_PKEY *)a);
     const EC_KEY *eb = EVP_PKEY_get0((EVP_PKEY *)b);
     const EC_POINT *ka, *kb;
-    if (!ea || !eb)
+    if (!ea || !eb || !EC_KEY_get0_group(ea))
         return 0;
     ka = EC_KEY_get0_public_key(ea);
     kb = EC_KEY_get0_public_key(eb);
@@ -1132,9 +1136,12 @@ static int mac_ctrl_grasshopper(EVP_PKEY *pkey, int op, long arg1, void *arg2)
 
 static int gost2001_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
 {
-    int nid =
-        EC_GROUP_get_curve_name(EC_KEY_get0_group
-                                (EVP_PKEY_get0((EVP_PKEY *)pkey)));
+    const EC_KEY *ec = EVP_PKEY_get0((EVP_PKEY *)pkey);
+    const EC_GROUP *group = ec ? EC_KEY_get0_group(ec) : NULL;
+    int nid = group ? EC_GROUP_get_curve_name(group) : NID_undef;
+
+    if (nid == NID_undef)
+        return 0;
     return i2d_ASN1_OBJECT(OBJ_nid2obj(nid), pder);
 }
 
-- 
2.43.0


From adbb0fc3129c925c0b09ede45bdfe6c5058cd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 028/100] fix: check key allocation and assignment when
 decoding keys

---
 gost_ameth.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index dce8cd5..5624acb 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -136,7 +136,7 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
     case NID_id_GostR3410_2001DH:
         if (!key_ptr) {
             key_ptr = EC_KEY_new();
-            if (!EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
+            if (!key_ptr || !EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
                 EC_KEY_free(key_ptr);
                 break;
             }
@@ -198,7 +198,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             EC_KEY *ec = EVP_PKEY_get0(pkey);
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!ec || !EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
@@ -922,7 +925,8 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
 
     if (!X509_PUBKEY_get0_param(&palgobj, &pubkey_buf, &pub_len, &palg, pub))
         goto ret;
-    EVP_PKEY_assign(pk, OBJ_obj2nid(palgobj), NULL);
+    if (!EVP_PKEY_set_type(pk, OBJ_obj2nid(palgobj)))
+        goto ret;
     if (!decode_gost_algor_params(pk, palg))
         goto ret;
     group = EC_KEY_get0_group(EVP_PKEY_get0(pk));
@@ -947,7 +951,7 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
-- 
2.43.0


From 9b6762f7d1265386f3d72b70f918bdd7b03be4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 029/100] fix: reject key agreement messages without UKM or
 parameters

---
 gost_ameth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5624acb..dc97b4e 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -263,7 +263,7 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
 		  goto err;
 
 	switch (nid) {
@@ -278,6 +278,12 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
   }
 
+	/* The IV of the key wrap is the last part of the UKM */
+	if (ukm == NULL || ASN1_STRING_length(ukm) != 32) {
+		GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_UKM_NOT_SET);
+		goto err;
+	}
+
 	if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
 		ASN1_STRING_length(ukm), (void *)ASN1_STRING_get0_data(ukm)) <= 0)
 			goto err;
-- 
2.43.0


From 4e264634f27c5134ab1c02c56f10959176a6b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 030/100] fix: neither leak nor doubly release the originator
 key of a CMS message

---
 gost_ameth.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index dc97b4e..6c145d8 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -250,6 +250,9 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 	EVP_PKEY *peer_key = NULL;
 	X509_PUBKEY *tmp   = NULL;
+	ASN1_OBJECT *tmpobj = NULL;
+	ASN1_STRING *tmpparam = NULL;
+	unsigned char *tmpdata = NULL;
 
 	int nid;
 	unsigned char shared_key[64];
@@ -303,13 +306,29 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
 
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		if (ptype != V_ASN1_SEQUENCE) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_BAD_KEY_PARAMETERS_FORMAT);
+			goto err;
+		}
+
+		/* The message keeps its own copies */
+		tmpobj = OBJ_dup(paobj);
+		tmpparam = ASN1_STRING_dup(param);
+		tmpdata = OPENSSL_memdup(ASN1_STRING_get0_data(pubkey),
+			ASN1_STRING_length(pubkey));
+		if (tmpobj == NULL || tmpparam == NULL || tmpdata == NULL) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, ERR_R_MALLOC_FAILURE);
+			goto err;
+		}
+
+		if (X509_PUBKEY_set0_param(tmp, tmpobj, ptype, tmpparam, tmpdata,
+			ASN1_STRING_length(pubkey)) == 0) {
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
+		tmpobj = NULL;
+		tmpparam = NULL;
+		tmpdata = NULL;
 
 		if (pub_decode_gost_ec(peer_key, tmp) <= 0) {
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_ERROR_DECODING_PUBLIC_KEY);
@@ -335,9 +354,10 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	ret = 1;
 err:
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
+	ASN1_OBJECT_free(tmpobj);
+	ASN1_STRING_free(tmpparam);
+	OPENSSL_free(tmpdata);
 
 	return ret;
 }
-- 
2.43.0


From c30426a1c5abd9a9ba0c5ccdfbe6c913605826f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 031/100] fix: wipe the shared key of a CMS message

---
 gost_ameth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 6c145d8..599fc60 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -348,11 +348,12 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 	EVP_CIPHER_CTX_set_flags(CMS_RecipientInfo_kari_get0_ctx(ri), EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
 	if (EVP_DecryptInit_ex(CMS_RecipientInfo_kari_get0_ctx(ri), cipher, NULL,
-		shared_key, ukm->data+24) == 0)
+		shared_key, ukm->data+24) <= 0)
 			goto err;
 
 	ret = 1;
 err:
+	OPENSSL_cleanse(shared_key, sizeof(shared_key));
 	EVP_PKEY_free(peer_key);
 	X509_PUBKEY_free(tmp);
 	ASN1_OBJECT_free(tmpobj);
-- 
2.43.0


From 57ad05b763782060de125f6ee1b836a69fc3a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 032/100] fix: report failures to set CMS and PKCS#7 algorithm
 identifiers

---
 gost_ameth.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 599fc60..0ed6c19 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -368,7 +368,8 @@ static int gost_cms_set_ktri_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	X509_ALGOR *alg;
 	struct gost_pmeth_data *gctx = EVP_PKEY_CTX_get_data(pctx);
 
-	CMS_RecipientInfo_ktri_get0_algs(ri, NULL, NULL, &alg);
+	if (CMS_RecipientInfo_ktri_get0_algs(ri, NULL, NULL, &alg) == 0)
+		return 0;
 
 	switch (OBJ_obj2nid(alg->algorithm)) {
 		case NID_kuznyechik_kexp15:
@@ -473,8 +474,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2, NULL,
                                         &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -482,8 +484,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2, NULL, NULL,
                                      &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #endif
@@ -494,8 +497,11 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 return -1;
             }
             PKCS7_RECIP_INFO_get0_alg((PKCS7_RECIP_INFO *)arg2, &alg1);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
-                            V_ASN1_SEQUENCE, params);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
+                                 V_ASN1_SEQUENCE, params)) {
+                ASN1_STRING_free(params);
+                return -1;
+            }
 				}
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -536,9 +542,13 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           if (params == NULL)
               return -1;
 
-          CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
-              NULL, &alg1);
-          X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params);
+          if (!CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
+                  NULL, &alg1)
+              || !X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE,
+                                  params)) {
+              ASN1_STRING_free(params);
+              return -1;
+          }
         } else {
           EVP_PKEY_CTX *pctx;
           CMS_RecipientInfo *ri = arg2;
-- 
2.43.0


From 29fd4bbbeded8b55391122f00d77d0bb6cd2b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 033/100] fix: do not use a private key that could not be
 unmasked

---
 gost_ameth.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 0ed6c19..5abe0f9 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -595,9 +595,11 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     const EC_KEY *key_ptr = (pk) ? EVP_PKEY_get0(pk) : NULL;
     const EC_GROUP *group = (key_ptr) ? EC_KEY_get0_group(key_ptr) : NULL;
 
-    pknum_masked = BN_lebin2bn(buf, len, BN_secure_new());
-    if (!pknum_masked)
+    pknum_masked = BN_secure_new();
+    if (!pknum_masked || !BN_lebin2bn(buf, len, pknum_masked)) {
+        BN_free(pknum_masked);
         return NULL;
+    }
 
     if (num_masks > 0) {
         /*
@@ -613,13 +615,18 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         }
 
         for (; p != buf; p -= len) {
-            BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
+            BIGNUM *mask = BN_secure_new();
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx && BN_lebin2bn(p, len, mask)
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_free(mask);
+            if (!ok) {
+                BN_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
-- 
2.43.0


From 054dd04ebccb6721f438dc93d4381c27b536d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 034/100] fix: reject empty private keys instead of reading
 past them

---
 gost_ameth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5abe0f9..45d6325 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -661,6 +661,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -692,7 +697,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From 318e91804569593620110e65ca24d86dd9a86c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 035/100] fix: release and wipe the temporary copies of a
 decoded private key

---
 gost_ameth.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 45d6325..37cd7af 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -678,16 +678,24 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
-        ASN1_STRING_free(s);
+        pk_num = BN_secure_new();
+        if (pk_num && !BN_lebin2bn(s->data, s->length, pk_num)) {
+            BN_free(pk_num);
+            pk_num = NULL;
+        }
+        ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
         if (!priv_key) {
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
-        ASN1_INTEGER_free(priv_key);
+        pk_num = BN_secure_new();
+        if (pk_num && !ASN1_INTEGER_to_BN(priv_key, pk_num)) {
+            BN_free(pk_num);
+            pk_num = NULL;
+        }
+        ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
 
-- 
2.43.0


From 5e1e25eba4bd8908e5963779420bf458d465c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 036/100] fix: encode private keys without leaks and with the
 right allocator

---
 gost_ameth.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 37cd7af..fe84d59 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -741,18 +741,20 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     const char *pk_format = get_gost_engine_param(GOST_PARAM_PK_FORMAT);
 
     key_len = (key_len < 0) ? 0 : key_len / 8;
-    if (key_len == 0 || !(buf = OPENSSL_secure_malloc(key_len))) {
+    /* The buffer ends up in p8, which releases it with OPENSSL_free() */
+    if (key_len == 0 || gost_get0_priv_key(pk) == NULL
+        || !(buf = OPENSSL_malloc(key_len))) {
         return 0;
     }
 
     if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
@@ -770,19 +772,26 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
             ASN1_STRING_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
-        ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
-
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        ASN1_STRING_clear_free(octet);
+        OPENSSL_clear_free(buf, key_len);
+        if (priv_len <= 0) {
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        buf = priv_buf;
+        key_len = priv_len;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params, buf, key_len)) {
+        ASN1_STRING_free(params);
+        OPENSSL_clear_free(buf, key_len);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
-- 
2.43.0


From b0dc6ca8fc47928c0c22ec23bf9c93fae907049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 037/100] fix: check the numbers used for printing a public key

---
 gost_ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index fe84d59..30d552d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -830,6 +830,10 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
     BN_CTX_start(ctx);
     X = BN_CTX_get(ctx);
     Y = BN_CTX_get(ctx);
+    if (!Y) {
+        GOSTerr(GOST_F_PRINT_GOST_EC_PUB, ERR_R_MALLOC_FAILURE);
+        goto err;
+    }
     pubkey = (key) ? EC_KEY_get0_public_key(key) : NULL;
     group = (key) ? EC_KEY_get0_group(key) : NULL;
     if (!pubkey || !group)
-- 
2.43.0


From c0b5969349c7fb9492efbec5ac6e9b8d140413a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 038/100] fix: release the parameters when encoding a public
 key fails

---
 gost_ameth.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 30d552d..75b8984 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1043,11 +1043,10 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
 {
     ASN1_OBJECT *algobj;
     ASN1_OCTET_STRING *octet = NULL;
-    void *pval;
     unsigned char *buf = NULL, *databuf = NULL;
     int data_len, ret = -1;
     const EC_POINT *pub_key;
-    BIGNUM *X = NULL, *Y = NULL, *order;
+    BIGNUM *X = NULL, *Y = NULL, *order = NULL;
     const EC_KEY *ec = EVP_PKEY_get0((EVP_PKEY *)pk);
     int ptype = V_ASN1_SEQUENCE;
     ASN1_STRING *params;
@@ -1055,7 +1054,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
-    pval = params;
+    if (!params)
+        goto err;
 
     order = BN_new();
     if (order == NULL || EC_GROUP_get_order(EC_KEY_get0_group(ec), order, NULL) == 0) {
@@ -1089,8 +1089,11 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
         goto err;
     }
 
-    store_bignum(X, databuf + data_len / 2, data_len / 2);
-    store_bignum(Y, databuf, data_len / 2);
+    if (!store_bignum(X, databuf + data_len / 2, data_len / 2)
+        || !store_bignum(Y, databuf, data_len / 2)) {
+        GOSTerr(GOST_F_PUB_ENCODE_GOST_EC, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
 
     BUF_reverse(databuf, NULL, data_len);
 
@@ -1117,9 +1120,13 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret <= 0
+        || !X509_PUBKEY_set0_param(pub, algobj, ptype, params, buf, ret)) {
+        ASN1_STRING_free(params);
+        OPENSSL_free(buf);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 69d11067b49c5f88c8da9b1caebc49789234a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 039/100] fix: wipe MAC keys when they are released

---
 gost_ameth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 75b8984..caa4f76 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1164,7 +1164,8 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    OPENSSL_free(EVP_PKEY_get0(pk));
+    /* MAC keys have 32 bytes */
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), 32);
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
-- 
2.43.0


From 1aa2e349168c37ed262c09ce266a66cfac8a1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 040/100] fix: do not lose the key method data when copying
 fails

---
 gost_pmeth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..9d03cc8 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -64,13 +64,11 @@ static int pkey_gost_init(EVP_PKEY_CTX *ctx)
 static int pkey_gost_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
 {
     struct gost_pmeth_data *dst_data, *src_data;
-    if (!pkey_gost_init(dst)) {
+    src_data = EVP_PKEY_CTX_get_data(src);
+    if (!src_data || !pkey_gost_init(dst)) {
         return 0;
     }
-    src_data = EVP_PKEY_CTX_get_data(src);
     dst_data = EVP_PKEY_CTX_get_data(dst);
-    if (!src_data || !dst_data)
-        return 0;
 
     *dst_data = *src_data;
 
@@ -635,13 +633,11 @@ static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
 {
     struct gost_mac_pmeth_data *dst_data, *src_data;
-    if (!pkey_gost_mac_init(dst)) {
+    src_data = EVP_PKEY_CTX_get_data(src);
+    if (!src_data || !pkey_gost_mac_init(dst)) {
         return 0;
     }
-    src_data = EVP_PKEY_CTX_get_data(src);
     dst_data = EVP_PKEY_CTX_get_data(dst);
-    if (!src_data || !dst_data)
-        return 0;
 
     *dst_data = *src_data;
     return 1;
-- 
2.43.0


From d67fe2aeece1614c96ba7553eb5898f421c7d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 041/100] fix: report a missing digest instead of aborting the
 process

---
 gost_pmeth.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 9d03cc8..7229051 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -98,7 +98,10 @@ static int pkey_gost_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             EVP_PKEY *key = EVP_PKEY_CTX_get0_pkey(ctx);
             int pkey_nid = (key == NULL) ? NID_undef : EVP_PKEY_base_id(key);
 
-            OPENSSL_assert(p2 != NULL);
+            if (p2 == NULL) {
+                GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_INVALID_DIGEST_TYPE);
+                return 0;
+            }
 
             switch (EVP_MD_type((const EVP_MD *)p2)) {
             case NID_id_GostR3411_94:
@@ -651,7 +654,7 @@ static int pkey_gost_mac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
     switch (type) {
     case EVP_PKEY_CTRL_MD:
         {
-            int nid = EVP_MD_type((const EVP_MD *)p2);
+            int nid = p2 ? EVP_MD_type((const EVP_MD *)p2) : NID_undef;
             if (nid != NID_id_Gost28147_89_MAC && nid != NID_gost_mac_12) {
                 GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL,
                         GOST_R_INVALID_DIGEST_TYPE);
@@ -788,7 +791,7 @@ static int pkey_gost_omac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2, si
     switch (type) {
     case EVP_PKEY_CTRL_MD:
         {
-            int nid = EVP_MD_type((const EVP_MD *)p2);
+            int nid = p2 ? EVP_MD_type((const EVP_MD *)p2) : NID_undef;
             if (nid != NID_magma_mac && nid != NID_grasshopper_mac
                 && nid != NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac /* FIXME beldmit */
                 && nid != NID_id_tc26_cipher_gostr3412_2015_magma_ctracpkm_omac) {
-- 
2.43.0


From 0a16cb69a21c68c92b48b87c3e9e5536a53a2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 042/100] fix: check the key allocation in parameter generation

---
 gost_pmeth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 7229051..9187269 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -382,7 +382,7 @@ static int pkey_gost2001_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     }
 
     ec = EC_KEY_new();
-    if (!fill_GOST_EC_params(ec, data->sign_param_nid)
+    if (!ec || !fill_GOST_EC_params(ec, data->sign_param_nid)
         || !EVP_PKEY_assign(pkey, NID_id_GostR3410_2001, ec)) {
         EC_KEY_free(ec);
         return 0;
@@ -402,7 +402,7 @@ static int pkey_gost2012_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     }
 
     ec = EC_KEY_new();
-    if (!fill_GOST_EC_params(ec, data->sign_param_nid)) {
+    if (!ec || !fill_GOST_EC_params(ec, data->sign_param_nid)) {
         EC_KEY_free(ec);
         return 0;
     }
-- 
2.43.0


From cb009656808f22e15af3cf55f6b55702cd9729e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 043/100] fix: report failed key generation

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 9187269..f716804 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -448,8 +448,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -458,8 +457,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From 1125e6ddb4cf38139f4f3de502be234d1a91d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 044/100] fix: do not sign into a buffer that is too small,
 check packing of the signature

---
 gost_pmeth.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index f716804..8485fed 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -468,13 +468,14 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 int pack_sign_cp(ECDSA_SIG *s, int order, unsigned char *sig, size_t *siglen)
 {
     const BIGNUM *sig_r = NULL, *sig_s = NULL;
+    int ret;
     ECDSA_SIG_get0(s, &sig_r, &sig_s);
     *siglen = 2 * order;
     memset(sig, 0, *siglen);
-    store_bignum(sig_s, sig, order);
-    store_bignum(sig_r, sig + order, order);
+    ret = store_bignum(sig_s, sig, order)
+        && store_bignum(sig_r, sig + order, order);
     ECDSA_SIG_free(s);
-    return 1;
+    return ret;
 }
 
 static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
@@ -507,6 +508,9 @@ static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
         *siglen = order;
         return 1;
     }
+    if (*siglen < (size_t)order) {
+        return 0;
+    }
     unpacked_sig = gost_ec_sign(tbs, tbs_len, EVP_PKEY_get0(pkey));
     if (!unpacked_sig) {
         return 0;
-- 
2.43.0


From 6b953514c14b11a54755d5774defc42c4b2e3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 045/100] fix: check that both halves of a signature could be
 unpacked

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 8485fed..854b032 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -532,7 +532,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (r == NULL || s == NULL || !ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
-- 
2.43.0


From 61f96ab58712a3a79c1f48c069e49a3ae68b9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 046/100] fix: wipe the MAC key when its key context is
 released

---
 gost_pmeth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 854b032..9bd0ab6 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -637,8 +637,8 @@ static int pkey_gost_grasshopper_mac_init(EVP_PKEY_CTX *ctx)
 static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
-    if (data)
-        OPENSSL_free(data);
+
+    OPENSSL_clear_free(data, sizeof(*data));
 }
 
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
-- 
2.43.0


From 61a102c251e047e2b608bd98b7fa3bec2161e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 047/100] fix: wipe decoded hexadecimal MAC keys

---
 gost_pmeth.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 9bd0ab6..9228123 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -752,11 +752,12 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            if (keybuf)
+                OPENSSL_clear_free(keybuf, keylen);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
@@ -895,11 +896,12 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            if (keybuf)
+                OPENSSL_clear_free(keybuf, keylen);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
-- 
2.43.0


From 682f1788b9f4f5f837d955924412c5234706cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 048/100] fix: check assignment of a generated MAC key

---
 gost_pmeth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 9228123..a7f59f2 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -944,7 +944,10 @@ static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
     memcpy(keydata->key, data->key, 32);
     keydata->mac_param_nid = data->mac_param_nid;
     keydata->mac_size = data->mac_size;
-    EVP_PKEY_assign(pkey, mac_nid, keydata);
+    if (!EVP_PKEY_assign(pkey, mac_nid, keydata)) {
+        OPENSSL_clear_free(keydata, sizeof(*keydata));
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From d099547749a1c08a785d7d3d8d1bc8dc7b536b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 049/100] fix: allow the full size of the grasshopper MAC to be
 set by string

---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index a7f59f2..7cb14a8 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -926,7 +926,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From e6c915294d9ea9b6ec762e8f19d75c8b27aa280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 050/100] fix: check buffer size and setting of the MAC size
 when a MAC is output

---
 gost_pmeth.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 7cb14a8..5fd228d 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -1039,10 +1039,14 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
         return 1;
     }
 
-    EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-        (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL);
+    if (tmpsiglen < (unsigned int)data->mac_size)
+        return 0;
+
+    if (EVP_MD_CTX_ctrl(mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL) <= 0)
+        return 0;
     ret = EVP_DigestFinal_ex(mctx, sig, &tmpsiglen);
-    *siglen = data->mac_size;
+    if (ret > 0)
+        *siglen = data->mac_size;
     return ret;
 }
 
-- 
2.43.0


From 76caa94aea66d1691051e7d29d2885a8c0e785fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 051/100] fix: checking a key without content fails

---
 gost_pmeth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 5fd228d..affc358 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -1055,7 +1055,9 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
 /* Callback for both EVP_PKEY_check() and EVP_PKEY_public_check. */
 static int pkey_gost_check(EVP_PKEY *pkey)
 {
-    return EC_KEY_check_key(EVP_PKEY_get0(pkey));
+    EC_KEY *ec = EVP_PKEY_get0(pkey);
+
+    return ec != NULL && EC_KEY_check_key(ec);
 }
 
 /* ----------------------------------------------------------------*/
-- 
2.43.0


From 7785bbddeb151281533dcc7473d66ee1fcb8f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 052/100] fix: release objects of created NIDs properly and
 only once

---
 gost_eng.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..f3bad03 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -342,11 +342,11 @@ static int create_NIDs() {
         GOST_NID_JOB *job = missing_NIDs[i];
         ASN1_OBJECT *obj =
             ASN1_OBJECT_create(new_nid + i, NULL, 0, job->sn, job->ln);
-        job->asn1 = obj;
         if (!obj || OBJ_add_object(obj) == NID_undef) {
-            OPENSSL_free(obj);
+            ASN1_OBJECT_free(obj);
             return 0;
         }
+        job->asn1 = obj;
         (*missing_NIDs[i]->callback)(new_nid + i);
     }
     return 1;
@@ -356,6 +356,7 @@ static void free_NIDs() {
     int i;
     for (i = 0; i < OSSL_NELEM(missing_NIDs); i++) {
         ASN1_OBJECT_free(missing_NIDs[i]->asn1);
+        missing_NIDs[i]->asn1 = NULL;
     }
 }
 
-- 
2.43.0


From ca209b8fab904cb4da3342c40df47668828474b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 053/100] fix: fail when a cipher or digest method could not be
 created

---
 gost_eng.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index f3bad03..f410800 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -212,7 +212,7 @@ static int gost_digests(ENGINE *e, const EVP_MD **digest,
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
         if (nid == gost_digest_array[i]->nid) {
             *digest = GOST_init_digest(gost_digest_array[i]);
-            return 1;
+            return *digest != NULL;
         }
     *digest = NULL;
     return 0;
@@ -236,7 +236,7 @@ static int gost_ciphers(ENGINE *e, const EVP_CIPHER **cipher,
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
         if (nid == gost_cipher_array[i]->nid) {
             *cipher = GOST_init_cipher(gost_cipher_array[i]);
-            return 1;
+            return *cipher != NULL;
         }
     *cipher = NULL;
     return 0;
@@ -447,12 +447,16 @@ static int bind_gost_engine(ENGINE* e) {
 
     int i;
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
-        if (!EVP_add_cipher(GOST_init_cipher(gost_cipher_array[i])))
+        EVP_CIPHER *cipher = GOST_init_cipher(gost_cipher_array[i]);
+
+        if (cipher == NULL || !EVP_add_cipher(cipher))
             goto end;
     }
 
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
-        if (!EVP_add_digest(GOST_init_digest(gost_digest_array[i])))
+        EVP_MD *digest = GOST_init_digest(gost_digest_array[i]);
+
+        if (digest == NULL || !EVP_add_digest(digest))
             goto end;
     }
 
-- 
2.43.0


From 7d964fc297b819c5c429664f250b30f234c36484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 054/100] fix: kuznyechik_ctracpkm_omac keys are of their own
 type and are released

---
 gost_ameth.c | 18 ++++++++++++++++++
 gost_pmeth.c | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index caa4f76..0ac8c61 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1216,6 +1216,20 @@ static int mac_ctrl_grasshopper(EVP_PKEY *pkey, int op, long arg1, void *arg2)
     return -2;
 }
 
+static int mac_ctrl_grasshopper_acpkm(EVP_PKEY *pkey, int op, long arg1,
+                                      void *arg2)
+{
+    switch (op) {
+    case ASN1_PKEY_CTRL_DEFAULT_MD_NID:
+        if (arg2) {
+            *(int *)arg2 =
+                NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac;
+            return 2;
+        }
+    }
+    return -2;
+}
+
 static int gost2001_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
 {
     const EC_KEY *ec = EVP_PKEY_get0((EVP_PKEY *)pkey);
@@ -1304,6 +1318,10 @@ int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth,
         EVP_PKEY_asn1_set_free(*ameth, mackey_free_gost);
         EVP_PKEY_asn1_set_ctrl(*ameth, mac_ctrl_grasshopper);
         break;
+    case NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac:
+        EVP_PKEY_asn1_set_free(*ameth, mackey_free_gost);
+        EVP_PKEY_asn1_set_ctrl(*ameth, mac_ctrl_grasshopper_acpkm);
+        break;
     }
     return 1;
 }
diff --git a/gost_pmeth.c b/gost_pmeth.c
index affc358..b2428e4 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -971,6 +971,13 @@ static int pkey_gost_grasshopper_mac_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     return pkey_gost_mac_keygen_base(ctx, pkey, NID_grasshopper_mac);
 }
 
+static int pkey_gost_grasshopper_mac_acpkm_keygen(EVP_PKEY_CTX *ctx,
+                                                  EVP_PKEY *pkey)
+{
+    return pkey_gost_mac_keygen_base(ctx, pkey,
+            NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac);
+}
+
 static int pkey_gost_mac_signctx_init(EVP_PKEY_CTX *ctx, EVP_MD_CTX *mctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
@@ -1159,7 +1166,6 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_copy(*pmeth, pkey_gost_mac_copy);
         return 1;
     case NID_grasshopper_mac:
-    case NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac: /* FIXME beldmit */
         EVP_PKEY_meth_set_ctrl(*pmeth, pkey_gost_grasshopper_mac_ctrl,
                                pkey_gost_grasshopper_mac_ctrl_str);
         EVP_PKEY_meth_set_signctx(*pmeth, pkey_gost_grasshopper_mac_signctx_init,
@@ -1169,6 +1175,17 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_cleanup(*pmeth, pkey_gost_mac_cleanup);
         EVP_PKEY_meth_set_copy(*pmeth, pkey_gost_mac_copy);
         return 1;
+    case NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac:
+        EVP_PKEY_meth_set_ctrl(*pmeth, pkey_gost_grasshopper_mac_ctrl,
+                               pkey_gost_grasshopper_mac_ctrl_str);
+        EVP_PKEY_meth_set_signctx(*pmeth, pkey_gost_grasshopper_mac_signctx_init,
+                                  pkey_gost_mac_signctx);
+        EVP_PKEY_meth_set_keygen(*pmeth, NULL,
+                                   pkey_gost_grasshopper_mac_acpkm_keygen);
+        EVP_PKEY_meth_set_init(*pmeth, pkey_gost_grasshopper_mac_init);
+        EVP_PKEY_meth_set_cleanup(*pmeth, pkey_gost_mac_cleanup);
+        EVP_PKEY_meth_set_copy(*pmeth, pkey_gost_mac_copy);
+        return 1;
     default:                   /* Unsupported method */
         return 0;
     }
-- 
2.43.0


From a8512b61debeed67cfdc8bb58335d94b382766d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 055/100] fix: finishing a cipher with MAC fails when the MAC
 could not be computed

---
 gost_gost2015.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..939eb3c 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -20,10 +20,14 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     size_t inl))
 {
     unsigned char calculated_mac[KUZNYECHIK_MAC_MAX_SIZE];
+    const size_t tag_size = mac_size;
+
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0
+            || mac_size != tag_size)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +36,9 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0
+            || mac_size != tag_size)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
-- 
2.43.0


From a059fb5cb967c32dc6d368ae59dcae546bd02fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 056/100] fix: bound the IV length stored in cipher parameters

---
 gost_gost2015.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 939eb3c..eb5444c 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -103,6 +103,11 @@ int gost2015_set_asn1_params(ASN1_TYPE *params,
     unsigned char ukm_buf[MAX_GOST2015_UKM_SIZE];
     unsigned char *buf = NULL;
 
+    if (iv_size > sizeof(ukm_buf) - KDF_SEED_SIZE) {
+        GOST2015_CIPHER_PARAMS_free(gcp);
+        return 0;
+    }
+
     if (gcp == NULL) {
         GOSTerr(GOST_F_GOST2015_SET_ASN1_PARAMS, ERR_R_MALLOC_FAILURE);
         return 0;
-- 
2.43.0


From 9f4c9eb5ddabc4cb53d426a2eeda8d7fa0d15a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 057/100] fix: release the attribute type object of the CMS MAC
 attribute

---
 gost_gost2015.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index eb5444c..1fc4e14 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -145,21 +145,29 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    ASN1_OBJECT *obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+
+    if (obj == NULL)
+        return -1;
+
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            obj, -3, V_ASN1_OCTET_STRING);
 
+        ASN1_OBJECT_free(obj);
         if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
             return -1;
 
         memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
     } else {
-        if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        STACK_OF(X509_ATTRIBUTE) *added = NULL;
+
+        if (attrs != NULL)
+            added = X509at_add1_attr_by_OBJ(&attrs, obj,
+                                            V_ASN1_OCTET_STRING, final_tag,
+                                            mac_len);
+        ASN1_OBJECT_free(obj);
+        return (added == NULL) ? -1 : 1;
     }
     return 1;
 }
-- 
2.43.0


From e28e4cce2505be1119cd3a82a90270c918312325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 058/100] fix: start the MGM authentication counter when there
 is no associated data

---
 gost_gost2015.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 1fc4e14..5d840b3 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -404,6 +404,10 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
+        if (alen == 0) {
+            ctx->nonce.c[0] |= 0x80;
+            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+        }
         ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
@@ -466,6 +470,11 @@ int gost_mgm128_finish(mgm128_context *ctx, const unsigned char *tag,
     void *key = ctx->key;
     int bl = ctx->blocklen;
 
+    if (alen == 0 && clen == 0) {
+        ctx->nonce.c[0] |= 0x80;
+        (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+    }
+
     if (ctx->mres || ctx->ares) {
         /* First call to encrypt finalizes AAD/ENC */
         memset(ctx->ACi.c + ctx->ares + ctx->mres, 0, bl - (ctx->ares + ctx->mres));
-- 
2.43.0


From d26d54c3efb5f53557b2d8261d611f60bd47c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 059/100] fix: copies of MGM contexts do not refer to the
 original, MGM nonce length is fixed

---
 gost_crypt.c              | 20 ++++++++++++++------
 gost_grasshopper_cipher.c | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..6215bc4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,7 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY | EVP_CIPH_FLAG_AEAD_CIPHER,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -1112,15 +1112,23 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* The nonce of MGM always has the length of a block */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* Let the copy refer to its own key and IV */
+        if (mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
         enc = EVP_CIPHER_CTX_encrypting(c);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..e8253c3 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,7 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY | EVP_CIPH_FLAG_AEAD_CIPHER,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -1053,15 +1053,23 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* The nonce of MGM always has the length of a block */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* Let the copy refer to its own key and IV */
+        if (mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
         enc = EVP_CIPHER_CTX_encrypting(c);
-- 
2.43.0


From 3ffd623873382c440f95511746f6f7889b6a34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 060/100] fix: a cipher context with MAC can be copied before
 its key is set

---
 gost_crypt.c              | 3 +++
 gost_grasshopper_cipher.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 6215bc4..2770d1c 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1358,6 +1358,9 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			if (in_cctx->omac_ctx == NULL)
+				return 1;
+
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index e8253c3..0f3d34e 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1214,6 +1214,9 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        if (in_cctx->omac_ctx == NULL)
+            return 1;
+
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
-- 
2.43.0


From 224533cc872d95f3ede8b94d40210e7d3b283b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 061/100] fix: release the MAC context when a cipher with MAC
 gets a new key, wipe the derived key

---
 gost_crypt.c              | 7 ++++++-
 gost_grasshopper_cipher.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2770d1c..3fa797a 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -529,6 +529,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
+		int ret;
+
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
@@ -543,7 +546,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		    return 0;
 		}
 
-		return magma_cipher_init(ctx, cipher_key, iv, enc);
+		ret = magma_cipher_init(ctx, cipher_key, iv, enc);
+		OPENSSL_cleanse(cipher_key, sizeof(cipher_key));
+		return ret;
 	}
 
 	return magma_cipher_init(ctx, key, iv, enc);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 0f3d34e..8909ded 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -351,6 +351,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+        int ret;
+
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
@@ -365,7 +368,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
             return 0;
         }
 
-        return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
+        ret = gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
+        OPENSSL_cleanse(cipher_key, sizeof(cipher_key));
+        return ret;
     }
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
-- 
2.43.0


From 8851a6982456c16dd24756c5507ee7619683f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 062/100] fix: cipher initialisation and parameter decoding
 report failures as such

---
 gost_crypt.c              | 6 +++---
 gost_grasshopper_cipher.c | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 3fa797a..6f980a1 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -496,8 +496,8 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
         if (enc) {
-            if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(c->kdf_seed) <= 0)
+                return 0;
         }
     }
 
@@ -1489,7 +1489,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
 	c->key_meshing = 8192;
 
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 8909ded..b658724 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -242,8 +242,8 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
-            if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(ctr->kdf_seed) <= 0)
+                return 0;
         }
     }
 
-- 
2.43.0


From 7d6d33f1a7437515decc81abaf51af27832452ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 063/100] fix: ciphers with MAC fail when the MAC cannot be
 updated

---
 gost_crypt.c              | 15 +++++++++++----
 gost_grasshopper_cipher.c | 19 ++++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 6f980a1..527b79a 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -882,6 +882,11 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
+  if (c->omac_ctx == NULL) {
+      GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, GOST_R_BAD_ORDER);
+      return -1;
+  }
+
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
@@ -889,15 +894,17 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index b658724..1681859 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -731,9 +731,11 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+    if (c->omac_ctx == NULL) {
+        GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC,
+                GOST_R_BAD_ORDER);
+        return -1;
+    }
 
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
@@ -743,11 +745,18 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
         return -1;
     }
+
+    /* As in and out can be the same pointer, process unencrypted here */
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
+
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
-- 
2.43.0


From f9cc1dbb0a89e561be327b57c055000a4c0d3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 064/100] fix: malformed GOST 28147-89 parameters are rejected

---
 gost_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 527b79a..7f52a8f 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1450,6 +1450,8 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
+    if (gcp == NULL)
+        return -1;
 
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
-- 
2.43.0


From 8962c72fb416c290054d330fdbe6e95a4fea6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 065/100] fix: check encoding of GOST 28147-89 parameters,
 release the string on failure

---
 gost_crypt.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7f52a8f..d3455d4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1393,7 +1393,6 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
     int len = 0;
     unsigned char *buf = NULL;
-    unsigned char *p = NULL;
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     GOST_CIPHER_PARAMS *gcp = GOST_CIPHER_PARAMS_new();
     ASN1_OCTET_STRING *os = NULL;
@@ -1410,20 +1409,18 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     ASN1_OBJECT_free(gcp->enc_param_set);
     gcp->enc_param_set = OBJ_nid2obj(c->paramNID);
 
-    len = i2d_GOST_CIPHER_PARAMS(gcp, NULL);
-    p = buf = OPENSSL_malloc(len);
-    if (!buf) {
-        GOST_CIPHER_PARAMS_free(gcp);
+    len = i2d_GOST_CIPHER_PARAMS(gcp, &buf);
+    GOST_CIPHER_PARAMS_free(gcp);
+    if (len <= 0) {
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
     }
-    i2d_GOST_CIPHER_PARAMS(gcp, &p);
-    GOST_CIPHER_PARAMS_free(gcp);
 
     os = ASN1_OCTET_STRING_new();
 
     if (!os || !ASN1_OCTET_STRING_set(os, buf, len)) {
         OPENSSL_free(buf);
+        ASN1_OCTET_STRING_free(os);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
     }
-- 
2.43.0


From 64747e0f193223a2b51a00c34c5425e75b06af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 066/100] fix: wipe derived section and record keys

---
 gost_crypt.c              | 2 ++
 gost_grasshopper_cipher.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index d3455d4..9a7d5d9 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1344,8 +1344,10 @@ static int magma_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, void *ptr)
                 memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), adjusted_iv, 8);
 
                 magma_key(c, newkey);
+                OPENSSL_cleanse(newkey, sizeof(newkey));
                 return 1;
           }
+          OPENSSL_cleanse(newkey, sizeof(newkey));
         }
         return -1;
     default:
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 1681859..d3c978a 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -175,6 +175,7 @@ static void acpkm_next(gost_grasshopper_cipher_ctx * c)
                                   &c->buffer);
     }
     gost_grasshopper_cipher_key(c, newkey);
+    OPENSSL_cleanse(newkey, sizeof(newkey));
 }
 
 /* Set 256 bit  key into context */
@@ -1180,8 +1181,10 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), adjusted_iv, 16);
 
             gost_grasshopper_cipher_key(c, newkey);
+            OPENSSL_cleanse(newkey, sizeof(newkey));
             return 1;
           }
+          OPENSSL_cleanse(newkey, sizeof(newkey));
         }
         return -1;
 #if 0
-- 
2.43.0


From 70b491e4848516dd1dd883cbbc043269075711d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 067/100] fix: re-initialised ciphers start a new message

---
 gost_crypt.c              | 35 ++++++++++++++++++++++++++---------
 gost_grasshopper_cipher.c |  9 ++++++---
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 9a7d5d9..0d6b27d 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -412,6 +412,21 @@ static int gost_cipher_set_param(struct ossl_gost_cipher_ctx *c, int nid)
     return 1;
 }
 
+/*
+ * Starts a new message: forgets buffered keystream and sets the key, or goes
+ * back to the key set before if it was changed by key meshing
+ */
+static void gost_cipher_restart(EVP_CIPHER_CTX *ctx,
+                                struct ossl_gost_cipher_ctx *c,
+                                const unsigned char *key)
+{
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    if (key)
+        magma_master_key(&(c->cctx), key);
+    gost_key(&(c->cctx), (const unsigned char *)c->cctx.master_key);
+}
+
 /* Initializes EVP_CIPHER_CTX by paramset NID */
 static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
@@ -424,8 +439,7 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
-        gost_key(&(c->cctx), key);
+    gost_cipher_restart(ctx, c, key);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -443,9 +457,7 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
-    c->count = 0;
-    if (key)
-        gost_key(&(c->cctx), key);
+    gost_cipher_restart(ctx, c, key);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -484,6 +496,8 @@ static int gost_cipher_init_cbc(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                   EVP_CIPH_CBC_MODE);
 }
 
+#define MAGMA_BLOCK_SIZE 8
+
 /* Initializes EVP_CIPHER_CTX with default values */
 static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
@@ -501,14 +515,18 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
     }
 
-    if (key) {
-        magma_key(&(c->cctx), key);
+    if (key)
         magma_master_key(&(c->cctx), key);
-    }
+    /* Without a key go back to the one set before */
+    magma_key(&(c->cctx), (const unsigned char *)c->cctx.master_key);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* Start a new message: no keystream left, block counter is zero */
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, MAGMA_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
@@ -814,7 +832,6 @@ static void ctr64_inc(unsigned char *counter)
     inc_counter(counter, 8);
 }
 
-#define MAGMA_BLOCK_SIZE 8
 #define MAGMA_BLOCK_MASK (MAGMA_BLOCK_SIZE - 1)
 static inline void apply_acpkm_magma(struct ossl_gost_cipher_ctx *
                                            ctx, unsigned int *num)
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index d3c978a..a4dba14 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -248,16 +248,19 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         }
     }
 
-    if (key != NULL) {
-        gost_grasshopper_cipher_key(c, key);
+    if (key != NULL)
         gost_grasshopper_master_key(c, key);
-    }
+    /* Without a key go back to the one set before */
+    gost_grasshopper_cipher_key(c, c->master_key.k.b);
 
     if (iv != NULL) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* Start a new message: no keystream left, block counter is zero */
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-- 
2.43.0


From 9ab77c923e11619a535d514abd697a2f7447af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 068/100] fix: release the previous OMAC state when a new key
 is set

---
 gost_omac.c       | 2 ++
 gost_omac_acpkm.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..b43bb7a 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -41,6 +41,8 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+
+    CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..24c195f 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -311,6 +311,8 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
@@ -402,6 +404,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_ACPKM_KEY, ERR_R_MALLOC_FAILURE);
-- 
2.43.0


From 0e784fbdd8071c4ff64f8d507e8ad691697ee2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 069/100] fix: setting the key and finishing of OMAC report
 failures

---
 gost_omac.c       | 7 +++++--
 gost_omac_acpkm.c | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index b43bb7a..a3351ab 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -92,7 +92,9 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (CMAC_Final(c->cmac_ctx, mac, &mac_size) <= 0
+        || c->dgst_size > mac_size)
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -141,6 +143,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    c->key_set = 0;
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -152,7 +155,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 /* Called directly by gost_kexp15() */
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 24c195f..2124df2 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -356,6 +356,8 @@ int omac_acpkm_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
     }
 
     ret = CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size);
+    if (ret <= 0 || c->dgst_size > mac_size)
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return ret;
@@ -404,6 +406,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
 {
     int ret = 0;
 
+    c->key_set = 0;
     CMAC_ACPKM_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -415,7 +418,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
@@ -441,6 +444,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
-- 
2.43.0


From ae0488021ef1acf26ffe743405a6c79e09a3887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 070/100] fix: copying an OMAC context fails when memory is
 exhausted

---
 gost_omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index a3351ab..e82f774 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -120,10 +120,10 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
         }
         return 1;
     }
-    if (c_to->cmac_ctx == c_from->cmac_ctx) {
+    if (c_to->cmac_ctx == c_from->cmac_ctx || c_to->cmac_ctx == NULL) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
-    return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
+    return (c_to->cmac_ctx) ? CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx) : 0;
 }
 
 /* Clean up imit ctx */
-- 
2.43.0


From 89f758de4850169aa810a690275b13e6f869721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 071/100] fix: check and wipe the TLSTREE key of OMAC

---
 gost_omac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_omac.c b/gost_omac.c
index e82f774..0d1a5c7 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -248,13 +248,14 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 int ret = 0;
                 if (gost_tlstree(OBJ_txt2nid(c->cipher_name),
                                  c->key, diversed_key,
-                                 (const unsigned char *)ptr)) {
+                                 (const unsigned char *)ptr) > 0) {
                     EVP_CIPHER *cipher;
                     if ((cipher = (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name))
                         || (cipher = EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)))
                         ret = omac_key(c, cipher, diversed_key, 32);
                     EVP_CIPHER_free(cipher);
                 }
+                OPENSSL_cleanse(diversed_key, sizeof(diversed_key));
                 return ret;
             }
             GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_BAD_ORDER);
-- 
2.43.0


From 5991994a58d34ca5cb5c8ca737b2937c52b2ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 072/100] fix: OMAC-ACPKM recognises negative results of the
 block cipher as failures

---
 gost_omac_acpkm.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 2124df2..dfcb17e 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -165,7 +165,7 @@ static int CMAC_ACPKM_Init(CMAC_ACPKM_CTX *ctx, const void *key, size_t keylen,
         key_len = EVP_CIPHER_key_length(EVP_CIPHER_CTX_cipher(ctx->actx));
 
         /* Generate first key material (K^1 || K^1_1) */
-        if (!EVP_Cipher(ctx->actx, ctx->km, zero_iv, key_len + block_size))
+        if (EVP_Cipher(ctx->actx, ctx->km, zero_iv, key_len + block_size) <= 0)
             return 0;
 
         /* Initialize cbc for CMAC */
@@ -186,7 +186,7 @@ static int CMAC_ACPKM_Master(CMAC_ACPKM_CTX *ctx)
 {
     return EVP_Cipher(ctx->actx, ctx->km, zero_iv,
         EVP_CIPHER_key_length(EVP_CIPHER_CTX_cipher(ctx->actx)) +
-        EVP_CIPHER_CTX_block_size(ctx->cctx));
+        EVP_CIPHER_CTX_block_size(ctx->cctx)) > 0;
 }
 
 static int CMAC_ACPKM_Mesh(CMAC_ACPKM_CTX *ctx)
@@ -228,7 +228,7 @@ static int CMAC_ACPKM_Update(CMAC_ACPKM_CTX *ctx, const void *in, size_t dlen)
         /* Else not final block so encrypt it */
         if (!CMAC_ACPKM_Mesh(ctx))
             return 0;
-        if (!EVP_Cipher(ctx->cctx, ctx->tbl, ctx->last_block, bl))
+        if (EVP_Cipher(ctx->cctx, ctx->tbl, ctx->last_block, bl) <= 0)
             return 0;
         ctx->num += bl;
     }
@@ -236,7 +236,7 @@ static int CMAC_ACPKM_Update(CMAC_ACPKM_CTX *ctx, const void *in, size_t dlen)
     while (dlen > bl) {
         if (!CMAC_ACPKM_Mesh(ctx))
             return 0;
-        if (!EVP_Cipher(ctx->cctx, ctx->tbl, data, bl))
+        if (EVP_Cipher(ctx->cctx, ctx->tbl, data, bl) <= 0)
             return 0;
         dlen -= bl;
         data += bl;
@@ -288,7 +288,7 @@ static int CMAC_ACPKM_Final(CMAC_ACPKM_CTX *ctx, unsigned char *out,
     OPENSSL_cleanse(k1, bl);
     OPENSSL_cleanse(k2, bl);
     OPENSSL_cleanse(ctx->km, ACPKM_T_MAX);
-    if (!EVP_Cipher(ctx->cctx, out, out, bl)) {
+    if (EVP_Cipher(ctx->cctx, out, out, bl) <= 0) {
         OPENSSL_cleanse(out, bl);
         return 0;
     }
@@ -478,8 +478,8 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 /* Set parameter T */
                 if (EVP_CIPHER_get0_provider(EVP_CIPHER_CTX_cipher(c->cmac_ctx->actx))
                     == NULL) {
-                    if (!EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
-                                             *(int *)ptr, NULL))
+                    if (EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
+                                            *(int *)ptr, NULL) <= 0)
                         return 0;
                 } else {
                     size_t cipher_key_mesh = (size_t)*(int *)ptr;
-- 
2.43.0


From 3da19d399bf339aac5c963484dcaa8a92d0a1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 073/100] fix: setting the section size of OMAC-ACPKM without a
 key fails

---
 gost_omac_acpkm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index dfcb17e..e141d36 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -473,6 +473,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (c->cmac_ctx == NULL) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
-- 
2.43.0


From 600acbe073f864a3a3a3cb4be74cfb855ec9bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 074/100] fix: setting an engine parameter fails when memory is
 exhausted

---
 gost_ctl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..df5bbc4 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -60,6 +60,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy = NULL;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -70,8 +71,10 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    if (tmp != NULL && (copy = BUF_strdup(tmp)) == NULL)
+        return 0;
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
 
     return 1;
 }
-- 
2.43.0


From 4db866749f2ed82bb5fc6b46309769e6954cad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 075/100] fix: reject the control command after the last one

---
 gost_ctl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index df5bbc4..ac0bf8d 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -33,7 +33,7 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 {
     int param = cmd - ENGINE_CMD_BASE;
     int ret = 0;
-    if (param < 0 || param > GOST_PARAM_MAX) {
+    if (param < 0 || param >= GOST_PARAM_MAX) {
         return -1;
     }
     ret = gost_set_default_param(param, p);
-- 
2.43.0


From b91db3f5904c28dd76c59b474943f969c43a3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 076/100] fix: terminate the dispatch tables of the digests and
 MACs

---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..744858d 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -160,6 +160,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL }                                                     \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..7399bf3 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -320,6 +320,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL }                                                     \
     }
 
 /*
-- 
2.43.0


From 3b06355e0f202124166dcfe3af2c23f5964c175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 077/100] fix: duplicating a provider context fails when its
 state cannot be copied

---
 gost_prov_cipher.c | 6 ++++--
 gost_prov_digest.c | 6 ++++--
 gost_prov_mac.c    | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..1174413 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -90,8 +90,10 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 744858d..5312f31 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -86,8 +86,10 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 7399bf3..e660835 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -103,8 +103,10 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        mac_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
-- 
2.43.0


From 535be6f08b43872e9b8659e9d18810bf6e71d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 078/100] fix: a duplicated MAC context keeps its MAC size

---
 gost_prov_mac.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index e660835..938b09e 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -107,6 +107,10 @@ static void *mac_dupctx(void *vsrc)
         mac_freectx(dst);
         dst = NULL;
     }
+    if (dst != NULL) {
+        dst->mac_size = src->mac_size;
+        dst->xof_mode = src->xof_mode;
+    }
     return dst;
 }
 
-- 
2.43.0


From 37bf22c4ddafe69d41dc64dc85501512afb700ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 079/100] fix: return the encoded algorithm parameters, not the
 memory around a pointer

---
 gost_prov_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 1174413..fe227ca 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -128,8 +128,8 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
 
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
-            && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && (derlen = i2d_ASN1_TYPE(algidparam, &der)) > 0
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
-- 
2.43.0


From 009f59092c5fe65d2d75f7dfab5150da709166ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 080/100] fix: a negative result of initialising encryption is
 a failure

---
 gost_prov_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index fe227ca..248855a 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -222,7 +222,7 @@ static int cipher_encrypt_init(void *vgctx,
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1);
+                             key, iv, 1) > 0;
 }
 
 static int cipher_decrypt_init(void *vgctx,
-- 
2.43.0


From fc9ef00e16a40a6f6d202190f1f02cd9fc07fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 081/100] fix: reject keys and IVs that are too short

---
 gost_prov_cipher.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 248855a..2f13a9b 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -217,8 +217,10 @@ static int cipher_encrypt_init(void *vgctx,
     GOST_CTX *gctx = vgctx;
 
     if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
-        || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
+        || (key != NULL
+            && keylen != (size_t)EVP_CIPHER_key_length(gctx->cipher))
+        || (iv != NULL
+            && ivlen != (size_t)EVP_CIPHER_iv_length(gctx->cipher)))
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
@@ -233,8 +235,10 @@ static int cipher_decrypt_init(void *vgctx,
     GOST_CTX *gctx = vgctx;
 
     if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
-        || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
+        || (key != NULL
+            && keylen != (size_t)EVP_CIPHER_key_length(gctx->cipher))
+        || (iv != NULL
+            && ivlen != (size_t)EVP_CIPHER_iv_length(gctx->cipher)))
         return 0;
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
                              key, iv, 0) > 0;
-- 
2.43.0


From 752b961534893993e1cd6c2c0f9bef17be6091bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 082/100] fix: check the input length and the output size in
 the provider ciphers

---
 gost_prov_cipher.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 2f13a9b..9771c55 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -249,9 +249,16 @@ static int cipher_update(void *vgctx,
                          const unsigned char *in, size_t inl)
 {
     GOST_CTX *gctx = vgctx;
-    int int_outl = outl != NULL ? *outl : 0;
-    int res = EVP_CipherUpdate(gctx->cctx, out, &int_outl, in, (int)inl);
+    int int_outl = 0;
+    size_t blocksize = EVP_CIPHER_block_size(gctx->cipher);
+    int res;
 
+    if (inl > INT_MAX
+        || (out != NULL
+            && outsize < inl + (blocksize == 1 ? 0 : blocksize)))
+        return 0;
+
+    res = EVP_CipherUpdate(gctx->cctx, out, &int_outl, in, (int)inl);
     if (res > 0 && outl != NULL)
         *outl = (size_t)int_outl;
     return res > 0;
@@ -261,9 +268,14 @@ static int cipher_final(void *vgctx,
                         unsigned char *out, size_t *outl, size_t outsize)
 {
     GOST_CTX *gctx = vgctx;
-    int int_outl = outl != NULL ? *outl : 0;
-    int res = EVP_CipherFinal(gctx->cctx, out, &int_outl);
+    int int_outl = 0;
+    size_t blocksize = EVP_CIPHER_block_size(gctx->cipher);
+    int res;
+
+    if (blocksize != 1 && outsize < blocksize)
+        return 0;
 
+    res = EVP_CipherFinal(gctx->cctx, out, &int_outl);
     if (res > 0 && outl != NULL)
         *outl = (size_t)int_outl;
     return res > 0;
-- 
2.43.0


From f160a8b5d88760c2eda77f3ee0b9f4388291799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 083/100] fix: keep the input length and check the output size
 in the provider digests

---
 gost_prov_digest.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 5312f31..e84fd15 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -118,16 +118,20 @@ static int digest_update(void *vgctx, const unsigned char *in, size_t inl)
 {
     GOST_CTX *gctx = vgctx;
 
-    return EVP_DigestUpdate(gctx->dctx, in, (int)inl) > 0;
+    return EVP_DigestUpdate(gctx->dctx, in, inl) > 0;
 }
 
 static int digest_final(void *vgctx,
                         unsigned char *out, size_t *outl, size_t outsize)
 {
     GOST_CTX *gctx = vgctx;
-    unsigned int int_outl = outl != NULL ? *outl : 0;
-    int res = EVP_DigestFinal(gctx->dctx, out, &int_outl);
+    unsigned int int_outl = 0;
+    int res;
 
+    if (outsize < (size_t)EVP_MD_size(gctx->digest))
+        return 0;
+
+    res = EVP_DigestFinal(gctx->dctx, out, &int_outl);
     if (res > 0 && outl != NULL)
         *outl = (size_t)int_outl;
     return res > 0;
-- 
2.43.0


From 99ea7f765b3733d24d0a8eeab95fafea41e97d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 084/100] fix: provider parameters of an algorithm that could
 not be created

---
 gost_prov_cipher.c | 2 ++
 gost_prov_digest.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 9771c55..e37c792 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -101,6 +101,8 @@ static int cipher_get_params(EVP_CIPHER *c, OSSL_PARAM params[])
 {
     OSSL_PARAM *p;
 
+    if (c == NULL)
+        return 0;
     if (((p = OSSL_PARAM_locate(params, "blocksize")) != NULL
          && !OSSL_PARAM_set_size_t(p, EVP_CIPHER_block_size(c)))
         || ((p = OSSL_PARAM_locate(params, "ivlen")) != NULL
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index e84fd15..5dd793c 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -97,6 +97,8 @@ static int digest_get_params(EVP_MD *d, OSSL_PARAM params[])
 {
     OSSL_PARAM *p;
 
+    if (d == NULL)
+        return 0;
     if (((p = OSSL_PARAM_locate(params, "blocksize")) != NULL
          && !OSSL_PARAM_set_size_t(p, EVP_MD_block_size(d)))
         || ((p = OSSL_PARAM_locate(params, "size")) != NULL
-- 
2.43.0


From 037abb19dc7a8f39bc6e7dc5dcf74174f7e40f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 085/100] fix: a provider MAC never exceeds the output buffer

---
 gost_prov_mac.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 938b09e..52ad382 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -136,7 +136,7 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
                      size_t outsize)
 {
     GOST_CTX *gctx = mctx;
-    unsigned int tmpoutl;
+    unsigned int tmpoutl = 0;
     int ret = 0;
 
     /* This is strange code...  but it duplicates pkey_gost_mac_signctx() */
@@ -144,17 +144,18 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
     if (outl == NULL)
         return 0;
 
-    /* for platforms where sizeof(int) != * sizeof(size_t) */
-    tmpoutl = *outl;
-
     if (out != NULL) {
+        if (outsize < gctx->mac_size)
+            return 0;
         /* We ignore the error for GOST MDs that don't support setting
-           the size */
-        EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
-        ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl);
+           the size, unless the size would have to change */
+        if (EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                            (int)gctx->mac_size, NULL) <= 0
+            && gctx->mac_size != (size_t)EVP_MD_size(gctx->digest))
+            return 0;
+        ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl) > 0;
     }
-    if (outl != NULL)
-        *outl = (size_t)gctx->mac_size;
+    *outl = gctx->mac_size;
     return ret;
 }
 
-- 
2.43.0


From 3e1b794d298d87a75e987b51c9ff31f36d5ff280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 086/100] fix: gostsum: checksum lists that end within a line

---
 gostsum.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..1c85b1d 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -206,8 +206,12 @@ int get_line(FILE *f, char *hash, char *filename)
         fprintf(stderr, "Malformed input line\n");
         return 0;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    if (fgets(filename, PATH_MAX, f) == NULL) {
+        fprintf(stderr, "Malformed input line\n");
+        return 0;
+    }
+    i = strlen(filename);
+    while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
+        filename[--i] = 0;
     return 1;
 }
-- 
2.43.0


From f8d15d1fe0004c2870b8afc125004fefb9a4df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 087/100] fix: gostsum: a malformed list of checksums is not a
 success

---
 gostsum.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index 1c85b1d..8e1152b 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -86,7 +86,7 @@ int main(int argc, char **argv)
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
         char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        int failcount = 0, count = 0, more;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,7 +95,7 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((more = get_line(check_file, inhash, filename)) > 0) {
             count++;
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
@@ -116,6 +116,11 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (more < 0 || count == 0) {
+            fprintf(stderr, "%s: the list of checksums is not valid\n",
+                    argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -192,23 +197,29 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
 int get_line(FILE *f, char *hash, char *filename)
 {
     int i;
-    if (fread(hash, 1, 64, f) < 64)
+    size_t len = fread(hash, 1, 64, f);
+
+    if (len == 0 && feof(f))
         return 0;
+    if (len < 64) {
+        fprintf(stderr, "Malformed input line\n");
+        return -1;
+    }
     hash[64] = 0;
     for (i = 0; i < 64; i++) {
         if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
             || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
             fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+            return -1;
         }
     }
     if (fgetc(f) != ' ') {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
     if (fgets(filename, PATH_MAX, f) == NULL) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
     i = strlen(filename);
     while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
-- 
2.43.0


From 39a67b07d7b72469ece031041f62c81ce178c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 088/100] fix: gostsum: stop when the hash cannot be
 initialised

---
 gostsum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostsum.c b/gostsum.c
index 8e1152b..cdd08da 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -83,7 +83,10 @@ int main(int argc, char **argv)
             help();
         }
     }
-    init_gost_hash_ctx(&ctx, b);
+    if (!init_gost_hash_ctx(&ctx, b)) {
+        fprintf(stderr, "%s: out of memory\n", argv[0]);
+        exit(2);
+    }
     if (check_file) {
         char inhash[65], calcsum[65], filename[PATH_MAX];
         int failcount = 0, count = 0, more;
-- 
2.43.0


From 7368ee83102234b7e89ccfb405087143bb0dbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 089/100] fix: gost12sum: empty lines

---
 gost12sum.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..40cf538 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -180,9 +180,8 @@ int main(int argc, char **argv)
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
             for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -261,8 +260,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0


From eb4e5438a8d5b65a845cd9e4c46e855edd20bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 090/100] fix: gost12sum: a list without checksums or a read
 error is not a success

---
 gost12sum.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gost12sum.c b/gost12sum.c
index 40cf538..8ecd12d 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -161,6 +161,11 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (count == 0 || ferror(check_file)) {
+            fprintf(stderr, "%s: the list of checksums is not valid\n",
+                    argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -188,7 +193,10 @@ int main(int argc, char **argv)
                 printf("%s %s\n", sum, filename);
             }
         }
-
+        if (ferror(stdin)) {
+            perror("stdin");
+            errors++;
+        }
     } else if (optind == argc) {
         char sum[MAX_HASH_TXT_BYTES + 1];
         if (!hash_stream(&ctx, fileno(stdin), sum, hashsize)) {
-- 
2.43.0


From fc530755e8cd31fb1d68f9235112bcdab465fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 091/100] fix: report a failing update when the GOST 28147-89
 MAC is finished

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0d6b27d..e390399 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1607,7 +1607,8 @@ static int gost_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
     if (c->count == 0 && c->bytes_left) {
         unsigned char buffer[8];
         memset(buffer, 0, 8);
-        gost_imit_update(ctx, buffer, 8);
+        if (!gost_imit_update(ctx, buffer, 8))
+            return 0;
     }
     if (c->bytes_left) {
         int i;
-- 
2.43.0


From 1f490e10bff574cadb37abce3d9f4639b40d2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 092/100] fix: creating a digest fails when its alias cannot be
 added

---
 gost_md.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_md.c b/gost_md.c
index b8824eb..275fcd3 100644
--- a/gost_md.c
+++ b/gost_md.c
@@ -64,8 +64,10 @@ EVP_MD *GOST_init_digest(GOST_digest *d)
         EVP_MD_meth_free(md);
         md = NULL;
     }
-    if (md && d->alias)
-        EVP_add_digest_alias(EVP_MD_name(md), d->alias);
+    if (md && d->alias && !EVP_add_digest_alias(EVP_MD_name(md), d->alias)) {
+        EVP_MD_meth_free(md);
+        md = NULL;
+    }
     d->digest = md;
     return md;
 }
-- 
2.43.0


From 98ddd7b8942e18b9582c56cf9ef0d0c31978cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 093/100] fix: the provider offers magma-ecb like the engine

---
 gost_prov_cipher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index e37c792..388a57c 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -292,6 +292,7 @@ static const OSSL_PARAM *known_grasshopper_cbc_cipher_params;
 static const OSSL_PARAM *known_grasshopper_cfb_cipher_params;
 static const OSSL_PARAM *known_grasshopper_ofb_cipher_params;
 static const OSSL_PARAM *known_grasshopper_ctr_cipher_params;
+static const OSSL_PARAM *known_magma_ecb_cipher_params;
 static const OSSL_PARAM *known_magma_ctr_cipher_params;
 static const OSSL_PARAM *known_magma_ctr_acpkm_cipher_params;
 static const OSSL_PARAM *known_magma_ctr_acpkm_omac_cipher_params;
@@ -340,6 +341,7 @@ MAKE_FUNCTIONS(grasshopper_cbc_cipher);
 MAKE_FUNCTIONS(grasshopper_cfb_cipher);
 MAKE_FUNCTIONS(grasshopper_ofb_cipher);
 MAKE_FUNCTIONS(grasshopper_ctr_cipher);
+MAKE_FUNCTIONS(magma_ecb_cipher);
 MAKE_FUNCTIONS(magma_cbc_cipher);
 MAKE_FUNCTIONS(magma_ctr_cipher);
 MAKE_FUNCTIONS(magma_ctr_acpkm_cipher);
@@ -361,6 +363,7 @@ const OSSL_ALGORITHM GOST_prov_ciphers[] = {
     { SN_grasshopper_cfb, NULL, grasshopper_cfb_cipher_functions },
     { SN_grasshopper_ofb, NULL, grasshopper_ofb_cipher_functions },
     { SN_grasshopper_ctr, NULL, grasshopper_ctr_cipher_functions },
+    { SN_magma_ecb, NULL, magma_ecb_cipher_functions },
     { SN_magma_cbc, NULL, magma_cbc_cipher_functions },
     { SN_magma_ctr, NULL, magma_ctr_cipher_functions },
     { SN_magma_ctr_acpkm ":1.2.643.7.1.1.5.1.1", NULL,
@@ -393,6 +396,7 @@ void GOST_prov_deinit_ciphers(void) {
         &grasshopper_cfb_cipher,
         &grasshopper_ofb_cipher,
         &grasshopper_ctr_cipher,
+        &magma_ecb_cipher,
         &magma_cbc_cipher,
         &magma_ctr_cipher,
         &magma_ctr_acpkm_cipher,
-- 
2.43.0


From ae3f4cb4aeb74d41334f035a94f0223181737fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 094/100] fix: do not rename the curve group that all keys
 share

---
 gost_ec_sign.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index ca8915b..4b07b74 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -103,11 +103,12 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
 
     if (params->group) {
-        EC_GROUP_set_curve_name(params->group, nid);
         if (!EC_KEY_set_group(eckey, params->group)) {
             GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
             goto end;
         }
+        /* the key has its own copy, the cached group is shared */
+        EC_GROUP_set_curve_name((EC_GROUP *)EC_KEY_get0_group(eckey), nid);
         return 1;
     }
 
-- 
2.43.0


From 9332784399a9f3b1d5c3a1f26b06923bfc8a70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 095/100] fix: reading an engine parameter does not write to
 shared memory

---
 gost_ctl.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index ac0bf8d..d235963 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -42,19 +42,12 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 
 const char *get_gost_engine_param(int param)
 {
-    char *tmp;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
     if (gost_params[param] != NULL) {
         return gost_params[param];
     }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        return gost_params[param];
-    }
-    return NULL;
+    return getenv(gost_envnames[param]);
 }
 
 int gost_set_default_param(int param, const char *value)
-- 
2.43.0


From 4e8c2566fe0ced1f85412d2ecb3ea203c6f30735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 096/100] fix: report a failed copy of a cipher context as 0

EVP_CIPHER_CTX_copy() takes any non-zero result of EVP_CTRL_COPY for success,
so -1 left the caller with a copy whose MAC context is missing.
---
 gost_crypt.c              | 2 +-
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e390399..5c26011 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1396,7 +1396,7 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
 			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index a4dba14..dbb7aad 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1241,7 +1241,7 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
         return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
-- 
2.43.0


From fe52f8dffbfd7253e683256e38ba4dee5fe94fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 097/100] fix: overwrite the whole of a MAC key when it is
 released

---
 gost_ameth.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 0ac8c61..8f5558d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1164,8 +1164,7 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    /* MAC keys have 32 bytes */
-    OPENSSL_clear_free(EVP_PKEY_get0(pk), 32);
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), sizeof(struct gost_mac_key));
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
-- 
2.43.0


From 90e63a433fef3ff9ce0a73c1d732b4655540ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 098/100] fix: overwrite private key strings of wrong length as
 well

---
 gost_ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8f5558d..15d7e56 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -674,7 +674,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
         if (!s || ((s->length != 32) && (s->length != 64))) {
-            ASN1_STRING_free(s);
+            ASN1_STRING_clear_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-- 
2.43.0


From 99c63dad17e3c317b2bf9c91cd2ece45c1817104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 099/100] fix: no uninitialised bytes in the key transport of a
 size query

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index b53593f..c0eaaef 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -311,7 +311,7 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         OBJ_nid2obj(NID_id_tc26_gost_28147_param_Z);
     const struct gost_cipher_info *param =
         get_encryption_params(crypt_params_obj);
-    unsigned char ukm[8], shared_key[32], crypted_key[44];
+    unsigned char ukm[8], shared_key[32], crypted_key[44] = { 0 };
     int ret = 0;
     int key_is_ephemeral = 1;
     gost_ctx cctx;
-- 
2.43.0


From 9dc098b3b6e4ea7f1701a20c5cbf3548cab4c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:09 +0000
Subject: [PATCH 100/100] fix: overwrite the temporary round keys so that the
 compiler keeps it

---
 gost_grasshopper_core.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gost_grasshopper_core.c b/gost_grasshopper_core.c
index 19c6567..00d53ce 100644
--- a/gost_grasshopper_core.c
+++ b/gost_grasshopper_core.c
@@ -3,6 +3,8 @@
  * This file is distributed under the same license as OpenSSL
  */
 
+#include <openssl/crypto.h>
+
 #if defined(__cplusplus)
 extern "C" {
 #endif
@@ -84,10 +86,10 @@ void grasshopper_set_encrypt_key(grasshopper_round_keys_t* subkeys, const grassh
     }
 
     // security++
-    grasshopper_zero128(&c);
-    grasshopper_zero128(&x);
-    grasshopper_zero128(&y);
-    grasshopper_zero128(&z);
+    OPENSSL_cleanse(&c, sizeof(c));
+    OPENSSL_cleanse(&x, sizeof(x));
+    OPENSSL_cleanse(&y, sizeof(y));
+    OPENSSL_cleanse(&z, sizeof(z));
 }
 
 void grasshopper_set_decrypt_key(grasshopper_round_keys_t* subkeys, const grasshopper_key_t* key) {
-- 
2.43.0

