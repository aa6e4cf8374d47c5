From 30d3a4da68d6748e26225c41ada1a702a9bb8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:53 +0000
Subject: [PATCH 01/15] fix: SaberX4 shake128x4 squeezed a 168-byte block into
 136-byte buffers

The final partial block was written to t0..t3, which were sized with the
SHAKE256 rate: 32 bytes past the end of each on every call whose output
length is not a multiple of 168 (every keypair, enc and dec).
---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 80f195dc7de642ecda50c423277cdc1c7d892409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:39 +0000
Subject: [PATCH 02/15] fix: SaberX4 required 16-byte aligned key and
 ciphertext buffers

crypto_kem_* take unsigned char pointers; packing and unpacking used
aligned SSE loads and stores on them and faulted when the caller's
buffers were not 16-byte aligned.
---
 Variants/SaberX4_avx2/pack_unpack.c | 48 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..a3cb93e 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -21,16 +21,16 @@ void avx_load_16bit_8bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<SABER_K*SABER_N*16/(128*2);i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); 
-		l1 = _mm_load_ps(cfbs1+p*4); 
-		l2 = _mm_load_ps(cfbs2+p*4); 
-		l3 = _mm_load_ps(cfbs3+p*4); 
+		l0 = _mm_loadu_ps(cfbs0+p*4); 
+		l1 = _mm_loadu_ps(cfbs1+p*4); 
+		l2 = _mm_loadu_ps(cfbs2+p*4); 
+		l3 = _mm_loadu_ps(cfbs3+p*4); 
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); 
-		l5 = _mm_load_ps(cfbs5+p*4); 
-		l6 = _mm_load_ps(cfbs6+p*4); 
-		l7 = _mm_load_ps(cfbs7+p*4); 
+		l4 = _mm_loadu_ps(cfbs4+p*4); 
+		l5 = _mm_loadu_ps(cfbs5+p*4); 
+		l6 = _mm_loadu_ps(cfbs6+p*4); 
+		l7 = _mm_loadu_ps(cfbs7+p*4); 
 		
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 7ae6e51e1819fba7d0f26757d6319274112f638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 03/15] fix: Cortex-M0 decapsulation overran the message buffer
 and never packed the message

ExtractKeyBits writes one 16-bit word per coefficient (512 bytes); it was given
crypto_kem_dec's 64-byte byte buffer, and the packing step was commented out, so
decapsulation never recovered the encapsulated secret. Decode in place and pack.
---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..f421544 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -346,11 +346,12 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	// one decoded bit per coefficient, in place
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,v);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(v, message_dec);
 }
 
 
-- 
2.43.0


From 121cb188a95eeda47391a81c468f4553dbe796c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:10 +0000
Subject: [PATCH 04/15] fix: Cortex-M0 hashing loaded plain lanes into a
 bit-interleaved Keccak state

asm_KeccakF-1600.S works on a bit-interleaved state that bytes enter and leave
through KeccakF1600_StateXORBytes/ExtractBytes. fips202.c wrote and read the lanes
directly, so SHA3 and SHAKE were not the FIPS 202 functions and keys, ciphertexts
and shared secrets matched no other implementation.
---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 58 ++++---------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..be3a3e4 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,10 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+/* asm_KeccakF-1600.S keeps the state bit-interleaved: bytes go in and out through these only */
+extern void KeccakF1600_StatePermute(void *state);
+extern void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+extern void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,8 +47,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
+    KeccakF1600_StateXORBytes(s, m, 0, r);
 
     KeccakF1600_StatePermute(s);
     mlen -= r;
@@ -93,8 +60,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +80,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
@@ -131,7 +93,7 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
 
 void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -146,6 +108,7 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[5] = 16; // fixed bitlen of cstm
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
 
   KeccakF1600_StatePermute(s);
 
@@ -338,7 +301,7 @@ void sha3_512(unsigned char *output, const unsigned char *input,  unsigned long
 
 void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -353,6 +316,7 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[5] = 16; // fixed bitlen of cstm
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
 
   KeccakF1600_StatePermute(s);
 
-- 
2.43.0


From 79914c0acc03450d6e033c09ee58cb99cef393f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:04 +0000
Subject: [PATCH 05/15] fix: Cortex-M0 cSHAKE dropped the customization string

cshake*_simple_absorb absorbed the customization block and then called keccak_absorb,
which starts by zeroing the state. Absorb the input into the state as it is.
---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index be3a3e4..0004fe8 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -21,6 +21,30 @@ extern void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsi
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
 
 
+/* absorbs into the state as it is */
+static void absorb_more(uint64_t *s, unsigned int r, const unsigned char *m, unsigned long long int mlen, unsigned char p)
+{
+  unsigned long long i;
+  unsigned char t[200];
+
+  while (mlen >= r)
+  {
+    KeccakF1600_StateXORBytes(s, m, 0, r);
+
+    KeccakF1600_StatePermute(s);
+    mlen -= r;
+    m += r;
+  }
+
+  for (i = 0; i < r; ++i)
+    t[i] = 0;
+  for (i = 0; i < mlen; ++i)
+    t[i] = m[i];
+  t[i] = p;
+  t[r - 1] |= 128;
+  KeccakF1600_StateXORBytes(s, t, 0, r);
+}
+
 /*************************************************
 * Name:        keccak_absorb
 *
@@ -39,28 +63,12 @@ void keccak_absorb(uint64_t *s,
                           unsigned char p)
 {
   unsigned long long i;
-  unsigned char t[200];
 
   // Zero state
   for (i = 0; i < 25; ++i)
     s[i] = 0;
 
-  while (mlen >= r)
-  {
-    KeccakF1600_StateXORBytes(s, m, 0, r);
-
-    KeccakF1600_StatePermute(s);
-    mlen -= r;
-    m += r;
-  }
-
-  for (i = 0; i < r; ++i)
-    t[i] = 0;
-  for (i = 0; i < mlen; ++i)
-    t[i] = m[i];
-  t[i] = p;
-  t[r - 1] |= 128;
-  KeccakF1600_StateXORBytes(s, t, 0, r);
+  absorb_more(s, r, m, mlen, p);
 }
 
 
@@ -113,7 +121,7 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  absorb_more(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -321,7 +329,7 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  absorb_more(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0


From 256211a815e4565c1e01e9f9383fde7e760193b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:11 +0000
Subject: [PATCH 06/15] fix: Cortex-M4 striding Toom-Cook interpolation
 overflowed signed int

---
 .../Cortex-M4/src/saber/m4-striding/poly_mul.c              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
index e1fa661..26f9240 100755
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/poly_mul.c
@@ -131,11 +131,11 @@ void toom_cook_4way_striding(uint16_t a[SABER_N], uint16_t b[SABER_N], uint16_t
 		r2 = r2 - r6;
 		r2 = r2 - r0;
 		r1 = r1 + 45*r2;
-		r4 = (((r4 - (r2 << 3))*SABER_TC_INV3) >> 3);
+		r4 = (((uint32_t)(r4 - (r2 << 3))*SABER_TC_INV3) >> 3);
 		r5 = r5 + r1;
-		r1 = (((r1 + (r3 << 4))*SABER_TC_INV9) >> 1);
+		r1 = (((uint32_t)(r1 + (r3 << 4))*SABER_TC_INV9) >> 1);
 		r3 = -(r3 + r1);
-		r5 = ((30*r1 - r5)*SABER_TC_INV15>>2);
+		r5 = ((uint32_t)(30*r1 - r5)*SABER_TC_INV15>>2);
 		r2 = r2 - r4;
 		r1 = r1 - r5;
 
-- 
2.43.0


From 73336966d604a526973917ed60683d2b7a439e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:11 +0000
Subject: [PATCH 07/15] fix: Cortex-M0 schoolbook product overflowed signed int

---
 .../Cortex-M0/saber-ref-mem/src/poly_mul.c                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
index 06613ad..afd063e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/poly_mul.c
@@ -341,7 +341,7 @@ void school_book_mul2_16(const uint16_t* a, const uint16_t* b, uint16_t *c)
 	int i,j;
 	for (i = 0; i < 16; i++) {
 		for (j = 0; j < 16; ++j) {
-			c[i+j] += a[i]*b[j];
+			c[i+j] += (uint32_t)a[i]*b[j];
 		}
 	}
 }
-- 
2.43.0


From dbdaefac6538b30e960e9f260a129bdae0f208b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 08/15] fix: carry out of the low counter half when a batch
 ends on it (uSaber avx2 AES-256-CTR)

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..88d0012 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                    \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0


From 369914f6eb78b0d80a8121d10378e56eff82d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 09/15] fix: use both bytes of each hardware random word
 (Cortex-M0)

---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..268448e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[2];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From c62ea86461aa06cac7512e6d74db3636f6650ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:25 +0000
Subject: [PATCH 10/15] fix: striding Toom-Cook assembly mixed up two
 coefficients and started from stale carries

toom_cook_4way_striding_asm (tc.s) and its generator evaluated the operands
with the second and third coefficient exchanged, and cleared r9 and r8
instead of the registers that carry the overlap, so every product was wrong.
---
 .../m4-striding/generate-multiplication.py    |  12 +-
 .../Cortex-M4/src/saber/m4-striding/tc.s      | 260 +++++++++---------
 2 files changed, 136 insertions(+), 136 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index c8fdd96..ab9e0ed 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -26,8 +26,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntA},#{i*16+4}]"
 		yield f"ldr {r3},[{pntA},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -63,8 +63,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntB},#{i*16+4}]"
 		yield f"ldr {r3},[{pntB},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -129,8 +129,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 	#yield f"add {sp}, {sp}, #{896}"
 	for i in range(32):
 		if i == 0:
-			yield f"eor r9, r9, r9"
-			yield f"eor r8, r8, r8"
+			yield f"eor {r9}, {r9}, {r9}"
+			yield f"eor {r8}, {r8}, {r8}"
 		yield f"ldr {r0},[{pntB},#{128+i*4}]"
 		yield f"ldr {r1},[{pntB},#{i*4}]"
 		yield f"ldr {r2},[{sp},#{896+i*4}]"
diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
index 5445855..03e0e7c 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
@@ -11,8 +11,8 @@ ldr r6, [r0, #8]
 ldr r5, [r0, #4]
 ldr r7, [r0, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -45,8 +45,8 @@ ldr r6, [r0, #24]
 ldr r5, [r0, #20]
 ldr.w r7, [r0, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -79,8 +79,8 @@ ldr r6, [r0, #40]
 ldr r5, [r0, #36]
 ldr.w r7, [r0, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -113,8 +113,8 @@ ldr r6, [r0, #56]
 ldr r5, [r0, #52]
 ldr.w r7, [r0, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -147,8 +147,8 @@ ldr r6, [r0, #72]
 ldr r5, [r0, #68]
 ldr.w r7, [r0, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -181,8 +181,8 @@ ldr r6, [r0, #88]
 ldr r5, [r0, #84]
 ldr.w r7, [r0, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -215,8 +215,8 @@ ldr r6, [r0, #104]
 ldr r5, [r0, #100]
 ldr.w r7, [r0, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -249,8 +249,8 @@ ldr r6, [r0, #120]
 ldr r5, [r0, #116]
 ldr.w r7, [r0, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -283,8 +283,8 @@ ldr.w r6, [r0, #136]
 ldr.w r5, [r0, #132]
 ldr.w r7, [r0, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -317,8 +317,8 @@ ldr.w r6, [r0, #152]
 ldr.w r5, [r0, #148]
 ldr.w r7, [r0, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -351,8 +351,8 @@ ldr.w r6, [r0, #168]
 ldr.w r5, [r0, #164]
 ldr.w r7, [r0, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -385,8 +385,8 @@ ldr.w r6, [r0, #184]
 ldr.w r5, [r0, #180]
 ldr.w r7, [r0, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -419,8 +419,8 @@ ldr.w r6, [r0, #200]
 ldr.w r5, [r0, #196]
 ldr.w r7, [r0, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -453,8 +453,8 @@ ldr.w r6, [r0, #216]
 ldr.w r5, [r0, #212]
 ldr.w r7, [r0, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -487,8 +487,8 @@ ldr.w r6, [r0, #232]
 ldr.w r5, [r0, #228]
 ldr.w r7, [r0, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -521,8 +521,8 @@ ldr.w r6, [r0, #248]
 ldr.w r5, [r0, #244]
 ldr.w r7, [r0, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -555,8 +555,8 @@ ldr.w r6, [r0, #264]
 ldr.w r5, [r0, #260]
 ldr.w r7, [r0, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -589,8 +589,8 @@ ldr.w r6, [r0, #280]
 ldr.w r5, [r0, #276]
 ldr.w r7, [r0, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -623,8 +623,8 @@ ldr.w r6, [r0, #296]
 ldr.w r5, [r0, #292]
 ldr.w r7, [r0, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -657,8 +657,8 @@ ldr.w r6, [r0, #312]
 ldr.w r5, [r0, #308]
 ldr.w r7, [r0, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -691,8 +691,8 @@ ldr.w r6, [r0, #328]
 ldr.w r5, [r0, #324]
 ldr.w r7, [r0, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -725,8 +725,8 @@ ldr.w r6, [r0, #344]
 ldr.w r5, [r0, #340]
 ldr.w r7, [r0, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -759,8 +759,8 @@ ldr.w r6, [r0, #360]
 ldr.w r5, [r0, #356]
 ldr.w r7, [r0, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -793,8 +793,8 @@ ldr.w r6, [r0, #376]
 ldr.w r5, [r0, #372]
 ldr.w r7, [r0, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -827,8 +827,8 @@ ldr.w r6, [r0, #392]
 ldr.w r5, [r0, #388]
 ldr.w r7, [r0, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -861,8 +861,8 @@ ldr.w r6, [r0, #408]
 ldr.w r5, [r0, #404]
 ldr.w r7, [r0, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -895,8 +895,8 @@ ldr.w r6, [r0, #424]
 ldr.w r5, [r0, #420]
 ldr.w r7, [r0, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -929,8 +929,8 @@ ldr.w r6, [r0, #440]
 ldr.w r5, [r0, #436]
 ldr.w r7, [r0, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -963,8 +963,8 @@ ldr.w r6, [r0, #456]
 ldr.w r5, [r0, #452]
 ldr.w r7, [r0, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -997,8 +997,8 @@ ldr.w r6, [r0, #472]
 ldr.w r5, [r0, #468]
 ldr.w r7, [r0, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1031,8 +1031,8 @@ ldr.w r6, [r0, #488]
 ldr.w r5, [r0, #484]
 ldr.w r7, [r0, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1065,8 +1065,8 @@ ldr.w r6, [r0, #504]
 ldr.w r5, [r0, #500]
 ldr.w r7, [r0, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1099,8 +1099,8 @@ ldr r6, [r1, #8]
 ldr r5, [r1, #4]
 ldr.w r7, [r1, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1133,8 +1133,8 @@ ldr r6, [r1, #24]
 ldr r5, [r1, #20]
 ldr.w r7, [r1, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1167,8 +1167,8 @@ ldr r6, [r1, #40]
 ldr r5, [r1, #36]
 ldr.w r7, [r1, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1201,8 +1201,8 @@ ldr r6, [r1, #56]
 ldr r5, [r1, #52]
 ldr.w r7, [r1, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1235,8 +1235,8 @@ ldr r6, [r1, #72]
 ldr r5, [r1, #68]
 ldr.w r7, [r1, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1269,8 +1269,8 @@ ldr r6, [r1, #88]
 ldr r5, [r1, #84]
 ldr.w r7, [r1, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1303,8 +1303,8 @@ ldr r6, [r1, #104]
 ldr r5, [r1, #100]
 ldr.w r7, [r1, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1337,8 +1337,8 @@ ldr r6, [r1, #120]
 ldr r5, [r1, #116]
 ldr.w r7, [r1, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1371,8 +1371,8 @@ ldr.w r6, [r1, #136]
 ldr.w r5, [r1, #132]
 ldr.w r7, [r1, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1405,8 +1405,8 @@ ldr.w r6, [r1, #152]
 ldr.w r5, [r1, #148]
 ldr.w r7, [r1, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1439,8 +1439,8 @@ ldr.w r6, [r1, #168]
 ldr.w r5, [r1, #164]
 ldr.w r7, [r1, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1473,8 +1473,8 @@ ldr.w r6, [r1, #184]
 ldr.w r5, [r1, #180]
 ldr.w r7, [r1, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1507,8 +1507,8 @@ ldr.w r6, [r1, #200]
 ldr.w r5, [r1, #196]
 ldr.w r7, [r1, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1541,8 +1541,8 @@ ldr.w r6, [r1, #216]
 ldr.w r5, [r1, #212]
 ldr.w r7, [r1, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1575,8 +1575,8 @@ ldr.w r6, [r1, #232]
 ldr.w r5, [r1, #228]
 ldr.w r7, [r1, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1609,8 +1609,8 @@ ldr.w r6, [r1, #248]
 ldr.w r5, [r1, #244]
 ldr.w r7, [r1, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1643,8 +1643,8 @@ ldr.w r6, [r1, #264]
 ldr.w r5, [r1, #260]
 ldr.w r7, [r1, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1677,8 +1677,8 @@ ldr.w r6, [r1, #280]
 ldr.w r5, [r1, #276]
 ldr.w r7, [r1, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1711,8 +1711,8 @@ ldr.w r6, [r1, #296]
 ldr.w r5, [r1, #292]
 ldr.w r7, [r1, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1745,8 +1745,8 @@ ldr.w r6, [r1, #312]
 ldr.w r5, [r1, #308]
 ldr.w r7, [r1, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1779,8 +1779,8 @@ ldr.w r6, [r1, #328]
 ldr.w r5, [r1, #324]
 ldr.w r7, [r1, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1813,8 +1813,8 @@ ldr.w r6, [r1, #344]
 ldr.w r5, [r1, #340]
 ldr.w r7, [r1, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1847,8 +1847,8 @@ ldr.w r6, [r1, #360]
 ldr.w r5, [r1, #356]
 ldr.w r7, [r1, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1881,8 +1881,8 @@ ldr.w r6, [r1, #376]
 ldr.w r5, [r1, #372]
 ldr.w r7, [r1, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1915,8 +1915,8 @@ ldr.w r6, [r1, #392]
 ldr.w r5, [r1, #388]
 ldr.w r7, [r1, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1949,8 +1949,8 @@ ldr.w r6, [r1, #408]
 ldr.w r5, [r1, #404]
 ldr.w r7, [r1, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1983,8 +1983,8 @@ ldr.w r6, [r1, #424]
 ldr.w r5, [r1, #420]
 ldr.w r7, [r1, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2017,8 +2017,8 @@ ldr.w r6, [r1, #440]
 ldr.w r5, [r1, #436]
 ldr.w r7, [r1, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2051,8 +2051,8 @@ ldr.w r6, [r1, #456]
 ldr.w r5, [r1, #452]
 ldr.w r7, [r1, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2085,8 +2085,8 @@ ldr.w r6, [r1, #472]
 ldr.w r5, [r1, #468]
 ldr.w r7, [r1, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2119,8 +2119,8 @@ ldr.w r6, [r1, #488]
 ldr.w r5, [r1, #484]
 ldr.w r7, [r1, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2153,8 +2153,8 @@ ldr.w r6, [r1, #504]
 ldr.w r5, [r1, #500]
 ldr.w r7, [r1, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2213,8 +2213,8 @@ add.w r1, r1, #128
 add.w r0, r0, #128
 bl kara_strd_mem_asm
 ldmia.w sp!, {r0, r1, r2}
-eor.w r9, r9, r9
-eor.w r8, r8, r8
+eor.w lr, lr, lr
+eor.w ip, ip, ip
 ldr.w r4, [r1, #128]
 ldr r5, [r1, #0]
 ldr r6, [sp, #896]
-- 
2.43.0


From 2bd4839f3a390976bba21b0061d23b8aa876a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 11/15] fix: fix-alignment.py dropped a 16-bit instruction
 before the last return

The width of the last bx stayed unknown, so that neither branch below took
the instruction in front of it and it was missing from the rewritten file.
---
 .../Cortex-M4/src/saber/m4-striding/fix-alignment.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
index d32f261..4224a00 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
@@ -60,8 +60,10 @@ for func in funcs:
             nextins = funcs[func][i+1]
             ins['width'] = nextins['address'] - ins['address']
         except IndexError:
-            # we cannot determine the width of the last element, but that does
-            # not matter; the last bx is always two bytes wide.
+            # we cannot determine the width of the last element from the
+            # addresses; the last bx is always two bytes wide.
+            if ins['ins'][:2] == 'bx':
+                ins['width'] = 2
             break
 
 aligned = True
-- 
2.43.0


From 1aa4b9ae605e85978d6dc162319e3a7bb9e71d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 12/15] fix: fix-alignment.py carried the alignment over from
 one function to the next

Every function is aligned on its own (.align 2); after a function that ended
on an odd halfword the next one came out with its 32-bit instructions across
4-byte boundaries.
---
 .../Cortex-M4/src/saber/m4-striding/fix-alignment.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
index 4224a00..db048e6 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
@@ -66,7 +66,6 @@ for func in funcs:
                 ins['width'] = 2
             break
 
-aligned = True
 alignedfuncs = defaultdict(list)
 
 def widen(ins):
@@ -87,6 +86,7 @@ def can_widen(ins):
 
 
 for func in funcs:
+    aligned = True  # every function starts on a 4-byte data line
     for i, ins in enumerate(funcs[func]):
         if ins['ins'][:2] == 'bx' or ins['width'] is None:
             alignedfuncs[func].append(ins['ins'])
-- 
2.43.0


From 1a788907fb3a511dc7639153b3e80086858a7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 13/15] fix: generate-multiplication.py 32 emitted kernels with
 wrong products

The second schoolbook product of karatsuba_64_32 went to the middle of the
first one, and the schoolbook let the carry of c14 spill into c15 where that
coefficient was already there (positions 23 and 31, reached only from 32
coefficients on). The output for 16 is unchanged.
---
 .../src/saber/m4-striding/generate-multiplication.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index ab9e0ed..023e67d 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -484,7 +484,10 @@ def schoolbook_from_next_8x8(SRC1, SRC2, DEST, n):
 
 			# c14
 			if ((index+28) % (2*n) in is_initialized) and ((index+28) % (2*n) == (index+28)):
-				yield f"smlatt {tmp0},{a3},{b3},{c}"
+				# c15 may be in there already: nothing of c14 may spill into it
+				yield f"smultt {tmp0},{a3},{b3}"
+				yield f"movt {tmp0}, #0"
+				yield f"uadd16 {tmp0}, {c}, {tmp0}"
 				yield f"str {tmp0}, [{DEST}, #{(index+28) % (2*n)}]"
 			else:
 				yield f"smultt {tmp0},{a3},{b3}"
@@ -1110,7 +1113,7 @@ def karatsuba_64_32(pntA, pntB, pntC, pntX):
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
 	yield f"ldr {pntB}, [sp, #8]"
-	yield f"add {pntA}, {pntA}, #{32}"
+	yield f"add {pntA}, {pntA}, #{64}"
 	#yield f"push {{r0-r12, r14}}"
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
-- 
2.43.0


From 1b20592760a8f9b720122a7f6de5315800d423fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 14/15] fix: the Cortex-M0 stack measurement painted over
 main's own stack frame

---
 .../Cortex-M0/saber-ref-mem/src/main.c        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
index f4ae16d..4ce1a1a 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
@@ -135,37 +135,38 @@ int main(void)
 	rng_enable();
 
 
-	volatile unsigned char a; /* Mark the beginning of the stack */
+	volatile unsigned char *a; /* The stack in use ends here: what lies below is free */
+	__asm__ volatile ("mov %0, sp" : "=r" (a));
 	//int i;
 	//poly sk;
 	canary = 42;
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a-1);
 	crypto_kem_keypair(pk, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of keygen: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM keygen", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a-1);
 	crypto_kem_enc(sendb, key_b, pk);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of sharedb: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM encaps", 10, ctr);
 
-	WRITE_CANARY(&a);   
+	WRITE_CANARY(a-1);   
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of shareda: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM decaps", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a-1);
 	crypto_kem_keypair(pk, sk_a);
 	crypto_kem_enc(sendb, key_b, pk);
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of KEM: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM total", 9, ctr);
-- 
2.43.0


From 8df2175f3b62d9176f8648a7d764e17853f48a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 15/15] fix: the Cortex-M4 aligner replaced every '.s' in the
 path of its file, not its suffix

---
 .../Cortex-M4/src/saber/m4-striding/fix-alignment.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
index db048e6..a4b9e9b 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/fix-alignment.py
@@ -1,5 +1,6 @@
 
 from collections import defaultdict
+import os
 import sys
 import subprocess
 import argparse
@@ -24,8 +25,9 @@ args = parser.parse_args()
 
 funcs = defaultdict(list)
 
-obj = args.filename.replace('.s', '.o')
-dump = args.filename.replace('.s', '.dump')
+base = os.path.splitext(args.filename)[0]
+obj = base + '.o'
+dump = base + '.dump'
 
 # create an object dump of the assembly file
 subprocess.run(["arm-none-eabi-gcc", f"{args.filename}", "-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=hard", "-mfpu=fpv4-sp-d16", "-c", "-o", f"{obj}"], check=True)
-- 
2.43.0

