From 7ec20f07e8f76d919acf8e3b782aa14ccbb80e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:07 +0000
Subject: [PATCH] fix: initialize the tweak accumulator in
 ristretto_pubkey_grind

The sum was accumulated into an uninitialized scalar, so the returned
tweak (and the key produced by ristretto_privkey_grind) was garbage
instead of the number of generator steps taken.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..839d052 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14619,6 +14619,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0

