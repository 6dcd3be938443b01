From 0e0422ceaee424aec05189ff616b528763241fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 01/15] fix: point subtraction with the identity as an operand

P - O built the finite point (0,0) as the inverse of O, and O - P produced a
point without a curve.
---
 includes/ecc_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..739ea36 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From af48eabee9adb432f03d7dc45563e1f464943627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 02/15] fix: doubling the identity dereferenced a null curve

---
 includes/ecc_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 739ea36..0889ed8 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -556,6 +556,9 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 677c2448d7ea851896560124aef2d8889a0a7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 03/15] fix: define the declared Point::operator*=(const
 mpz_class&)

---
 includes/ecc_template.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 0889ed8..03aafbe 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -464,6 +464,23 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);;
+}
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From b04d3b39794ac8f83e2aa79ca357f925b56ecf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 04/15] fix: ciphertext equality compared the ciphertext with
 itself

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 7de8346267aa5ee72f7362453735555d1d42db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 05/15] fix: copying a DME scheme shared and then freed its
 curve twice

---
 includes/dme.hpp |  2 ++
 src/dme/dme.cpp  | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..c38c6b5 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -116,6 +116,8 @@ public:
     DME_DDH();
     DME_DDH(mode_t mu);
     DME_DDH(crs_ddh_t crs);
+    DME_DDH(const DME_DDH& other);
+    DME_DDH& operator=(const DME_DDH& other);
     ~DME_DDH();
     
     CURVE* getCurve(void) {return curve;}
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 257edac..4d9ce89 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -184,6 +184,24 @@ DME_DDH::DME_DDH(crs_ddh_t crs)
 }
 
 
+DME_DDH::DME_DDH(const DME_DDH& other)
+{
+    *this = other;
+}
+
+
+// every instance owns its curve
+DME_DDH& DME_DDH::operator=(const DME_DDH& other)
+{
+    mode = other.mode;
+    td_m = other.td_m;
+    td_d = other.td_d;
+    crs = other.crs;
+    crs.updateCurve(curve);
+    return *this;
+}
+
+
 DME_DDH::~DME_DDH()
 {
     if (curve)
-- 
2.43.0


From 57f6572f2ba47af4ef796f6c59f7a95d907798bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 06/15] fix: copying a Puda object shared and then freed its
 curves twice

---
 includes/puda.hpp |  2 ++
 src/puda/puda.cpp | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/includes/puda.hpp b/includes/puda.hpp
index 361cec4..4ccd511 100644
--- a/includes/puda.hpp
+++ b/includes/puda.hpp
@@ -72,6 +72,8 @@ private:
 
 public:
   Puda();
+  Puda(const Puda& other);
+  Puda& operator=(const Puda& other);
   ~Puda();
 
   std::tuple<ek_v_t, sk_v_t, ak_t, vk_t> Setup(size_t n);
diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..82b46f6 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -11,6 +11,23 @@ Puda::Puda()
     pp.curve2 = new CURVE2;
 }
 
+Puda::Puda(const Puda& other) : Puda()
+{
+    *this = other;
+}
+
+// every instance owns its curves
+Puda& Puda::operator=(const Puda& other)
+{
+    pp.g1 = other.pp.g1;
+    pp.g2 = other.pp.g2;
+    pp.hash = other.pp.hash;
+    pp.g1.curve = pp.curve1;
+    pp.g2.curve = pp.curve2;
+    pp.hash.curve = pp.curve1;
+    return *this;
+}
+
 Puda::~Puda()
 {
     delete pp.curve1;
-- 
2.43.0


From a343461ddcd14966f4c731d34fd4e191e30ad6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 07/15] fix: aggregation of values summing to 65535 returned 0

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 82b46f6..4528ccd 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -36,7 +36,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From da321d83da1d45908afc6b7b92a2c1f727f046e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 08/15] fix: ElGamal and curve key generation did not compile

---
 includes/ecc_template.hpp | 2 +-
 includes/elgamal.hpp      | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 03aafbe..daa33b9 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -681,7 +681,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..b3f90a0 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,13 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        keypair_t keys;
+        keys.sk = curve.getRandomScalar();
+        keys.pk = curve.getDefaultGen() * keys.sk;
+        return keys;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From f1b7ec812f26d8b275130604c984d9276f2ba21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 09/15] fix: Shamir coefficients were drawn from 1..100 instead
 of the whole field

---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..a944918 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rnd(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(mpz_class(rnd.get_z_range(secret.getField()))));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From 0f74e3977e4a10fc643fcc607ff4376c686415af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 10/15] fix: appending a checksum wrote past the buffer; values
 shorter than a checksum underflowed

---
 includes/crc.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..f14d56b 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,6 +49,9 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
+#include <string.h>
+#include <vector>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -770,9 +773,13 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
-    memcpy(res+len, &crc32c, 4);
+    // the exported buffer has no room for the checksum
+    std::vector<uint8_t> buf(res, res + len);
+    free(res);
+    buf.resize(len + 4);
+    memcpy(buf.data() + len, &crc32c, 4);
 
-    mpz_class r = utils::setRawMpz(res, len+4);    
+    mpz_class r = utils::setRawMpz(buf.data(), len+4);
     return r;
 
 }
@@ -782,6 +789,13 @@ const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    // zero is the empty message with its checksum; nothing else is shorter than the checksum
+    if (len < 4)
+    {
+        free(res);
+        return len == 0;
+    }
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
@@ -790,6 +804,7 @@ const bool validateCRC(mpz_class n)
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    free(res);
     
     return (crc32c == value);
 }
@@ -799,7 +814,8 @@ const mpz_class removeCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
     
-    mpz_class r = utils::setRawMpz(res, len-4);    
+    mpz_class r = utils::setRawMpz(res, len < 4 ? 0 : len-4);
+    free(res);
     return r;
 
 }
-- 
2.43.0


From 12e4d3684e0262b6a0aafcb8f894c5bed3422272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 11/15] fix: AES encrypt and decrypt took their arguments in
 the opposite order of the declaration

---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From af0af42caa6909fa8d5c663e6f19302d33ab3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 12/15] fix: AES read past the end of keys with a leading zero
 byte

---
 src/utilities/aes.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..1e8433c 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,8 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <stdlib.h>
+#include <string.h>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -37,22 +39,35 @@ void AES::init()
     AES::iv = iv;
 }
 
+// the key as 16 bytes, most significant first
+static void exportKey(unsigned char* out, const mpz_class& key)
+{
+    uint8_t *arr;
+    size_t len = utils::getRawMpz(&arr, key);
+    memset(out, 0, CRYPTO_KEYBYTES);
+    if (len >= CRYPTO_KEYBYTES)
+        memcpy(out, arr, CRYPTO_KEYBYTES);
+    else if (len > 0)
+        memcpy(out + CRYPTO_KEYBYTES - len, arr, len);
+    free(arr);
+}
+
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
+    unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the encryption operation. */
-    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,keyarr, (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length if default 12 bytes (96 bits) is not appropriate */
@@ -60,7 +75,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     //     handleErrors();
 
     // /* Initialise key and IV */
-    // if(1 != EVP_EncryptInit_ex(ctx, NULL, NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str())) handleErrors();
+    // if(1 != EVP_EncryptInit_ex(ctx, NULL, NULL, keyarr, (unsigned char*)AES::iv.c_str())) handleErrors();
 
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
@@ -95,17 +110,17 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
+    unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the decryption operation. */
-    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, keyarr, (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length. Not necessary if this is 12 bytes (96 bits) */
-- 
2.43.0


From 42dab2215d02f9611ff796e3c703f748ab18ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 13/15] fix: AES overflowed a 128-byte stack buffer for longer
 messages

---
 src/utilities/aes.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 1e8433c..df34179 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -5,6 +5,7 @@
 #include <iostream>   
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -56,11 +57,11 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
 
     /* Create and initialise the context */
@@ -80,7 +81,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -88,7 +89,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -100,19 +101,19 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    free(ptarr);
+    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
 
 
@@ -135,7 +136,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
         handleErrors();
 
     plaintext_len = len;
@@ -147,14 +148,15 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
     plaintext_len += len;
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    free(ctxtarr);
+    return utils::setRawMpz(plaintext.data(), plaintext_len);
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From f2a6c2de20175dba739cf904cf906573e09578a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 14/15] fix: AES ciphertexts lost their leading zero bytes

---
 src/utilities/aes.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index df34179..cab5103 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -61,7 +61,9 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     unsigned char keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
+    // the ciphertext follows a non-zero byte, so that its leading zero bytes survive as an integer
+    std::vector<unsigned char> ciphertext(1 + pt_len + EVP_MAX_BLOCK_LENGTH);
+    ciphertext[0] = 1;
     exportKey(keyarr, key);
 
     /* Create and initialise the context */
@@ -81,7 +83,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -89,7 +91,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + 1 + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -102,7 +104,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
     free(ptarr);
-    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(), 1 + ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
@@ -114,6 +116,8 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
+    // skip the byte in front of the ciphertext
+    size_t skip = ctxt_len > 0 ? 1 : 0;
     exportKey(keyarr, key);
 
 
@@ -136,7 +140,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr + skip, ctxt_len - skip))
         handleErrors();
 
     plaintext_len = len;
-- 
2.43.0


From 629e556873f85c7e5022f7b6ac661f6cbbaa5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 15/15] fix: AES::init() did not set the default IV

---
 includes/aes.hpp      | 2 +-
 src/utilities/aes.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/aes.hpp b/includes/aes.hpp
index c9ee756..f5cd806 100644
--- a/includes/aes.hpp
+++ b/includes/aes.hpp
@@ -16,7 +16,7 @@ namespace aes
 #define CRYPTO_NOOVERLAP 1 
 
 using std::string;
-static const string iv = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
+static const string iv(16, '\0');
 
 
 typedef mpz_class ctxt_t;
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index cab5103..6b23583 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -14,7 +14,7 @@
 
 namespace aes
 {
-string AES::iv;
+string AES::iv(16, '\0');
 
 void handleErrors(void)
 {
@@ -37,7 +37,7 @@ void AES::init(const string iv)
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = aes::iv;
 }
 
 // the key as 16 bytes, most significant first
-- 
2.43.0

