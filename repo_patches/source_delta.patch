From c6965f4e282889987be969befff12149ff0cfb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 1/6] fix: do not truncate the remaining length to 32 bits in
 the Keccak sponge

With a partially filled block, absorbing (or squeezing) data whose remaining
length modulo 2^32 is small or close to 2^32 made no progress or wrote past
the end of the state (CVE-2022-37454).
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..308e2ed 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..710c858 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0


From 9486cb507d38177e934f4d9f90aa0d633dc7d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 2/6] fix: report failures of the random source in keygen and
 sign

The return value of rand_bytes was ignored: on failure, key generation and
signing continued with whatever the buffers held.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..3b6bb08 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@)) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho))) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From c86259c0ff0b27122a80b43fceccecefed678e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 3/6] fix: report end of file of the random device instead of
 retrying forever

---
 randomness.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomness.c b/randomness.c
index 039ebdb..c321236 100644
--- a/randomness.c
+++ b/randomness.c
@@ -109,6 +109,11 @@ int rand_bytes(uint8_t* dst, size_t len) {
       close(fd);
       return -1;
     }
+    if (ret == 0) {
+      // end of file: no more data will follow
+      close(fd);
+      return -1;
+    }
 
     dst += ret;
     len -= ret;
-- 
2.43.0


From d3f9a239c41d1aa728f418129646f5a1ad6c53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 4/6] fix: do not overflow the int index of randombytes for
 requests beyond 2 GiB

---
 tools/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/rng.c b/tools/rng.c
index ce694fe..d99cb0e 100644
--- a/tools/rng.c
+++ b/tools/rng.c
@@ -88,7 +88,7 @@ void randombytes_init(unsigned char* entropy_input, unsigned char* personalizati
 
 int randombytes(unsigned char* x, unsigned long long xlen) {
   unsigned char block[16];
-  int i = 0;
+  size_t i = 0;
 
   while (xlen > 0) {
     // increment V
-- 
2.43.0


From ef012a9769e08e99342c4a16d7881d988c95aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 5/6] fix: the liboqs variant of hash_init_prefix_x4 uses its
 own parameter

It named a variable that does not exist, so no build with OQS defined
could compile.
---
 hash_shake.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash_shake.h b/hash_shake.h
index e32d2b7..3d607a4 100644
--- a/hash_shake.h
+++ b/hash_shake.h
@@ -138,7 +138,7 @@ static inline void hash_update_x4_1(hash_context_x4* ctx, const uint8_t* data, s
   }
 }
 
-static inline void hash_init_prefix_x4(hash_context_x4* ctx, unsigned int security_parameter,
+static inline void hash_init_prefix_x4(hash_context_x4* ctx, unsigned int security_param,
                                        const uint8_t prefix) {
   if (security_param == 128) {
     OQS_SHA3_shake128_x4_inc_init(&ctx->shake128_ctx);
-- 
2.43.0


From 6fbb803df3a38630ff1583dde6aaec4f828c10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 6/6] fix: hash inputs whose length in bits does not fit a
 size_t in pieces

On 32 bit systems, the length of a message of 2^29 bytes or more was reduced
modulo 2^29: its signature was that of the truncated message.
---
 hash_shake.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hash_shake.h b/hash_shake.h
index 3d607a4..5bf299e 100644
--- a/hash_shake.h
+++ b/hash_shake.h
@@ -218,6 +218,13 @@ static inline void hash_init(hash_context* ctx, unsigned int security_param) {
 }
 
 static inline void hash_update(hash_context* ctx, const uint8_t* data, size_t size) {
+  /* the number of bits of a long input does not fit a size_t of 32 bits */
+  while (size > SIZE_MAX / 8) {
+    const size_t chunk = SIZE_MAX / 8;
+    Keccak_HashUpdate(ctx, data, chunk << 3);
+    data += chunk;
+    size -= chunk;
+  }
   Keccak_HashUpdate(ctx, data, size << 3);
 }
 
-- 
2.43.0

