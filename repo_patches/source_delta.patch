From b6ee2a59b6b37d2455ea6fee5119263c32c2d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 01/16] fix: os_rand_bytes fills the whole buffer when reads
 are short

---
 src/random.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index f763266..721d104 100644
--- a/src/random.c
+++ b/src/random.c
@@ -50,17 +50,20 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
 
 /////////////////////////////Unix//////////////////////////////////////////////
 #include <fcntl.h>
+#include <stdint.h>
 #include <unistd.h>
 void fingera_os_rand_bytes(void *buf, size_t buf_size) {
+  uint8_t *out = (uint8_t *)buf;
   int fd = open("/dev/urandom", O_RDONLY);
   if (fd < 0) {
     FINGERA_FATAL("open /dev/urandom");
   }
   while (buf_size != 0) {
-    int r = read(fd, buf, buf_size);
+    int r = read(fd, out, buf_size);
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    out += r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From f392a991a3c727f2b4845630d9548cd50e5d6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/16] fix: zigzag encoding round-trips INT64_MIN

---
 src/compress_integer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..8a21fd3 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -38,7 +38,7 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -53,7 +53,8 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
     sign = uvalue & 1;
     uvalue >>= 1;
     if (sign) {
-      *out = -(int64_t)uvalue;
+      // 负0用来表示INT64_MIN
+      *out = uvalue == 0 ? INT64_MIN : -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
     }
-- 
2.43.0


From 0158c440dc4d1d03005c540b614dfb248939eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/16] fix: varint decoding rejects encodings that overflow 64
 bits

---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 8a21fd3..392dfdd 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // 超过64位
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;  // 超过64位
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From 073fb1a71f68858a3661382e07bf4191f49b2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/16] fix: base32 decoding stays within the given length and
 raw data has no padding

---
 src/base32.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..ca10992 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,8 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  if (str_len == 0) return 0;
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
@@ -203,7 +204,7 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
 
 static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
   const char *tail_str = str + blocks * 8;
-- 
2.43.0


From e750a74fde204fd8995e34a3aa08bb28e32dcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 05/16] fix: base32 decoding does not index its tables with
 negative chars

---
 src/base32.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index ca10992..cc165cd 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -211,14 +211,14 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[(uint8_t)str[i * 8 + 0]];
+    uint8_t byte2 = decode_string[(uint8_t)str[i * 8 + 1]];
+    uint8_t byte3 = decode_string[(uint8_t)str[i * 8 + 2]];
+    uint8_t byte4 = decode_string[(uint8_t)str[i * 8 + 3]];
+    uint8_t byte5 = decode_string[(uint8_t)str[i * 8 + 4]];
+    uint8_t byte6 = decode_string[(uint8_t)str[i * 8 + 5]];
+    uint8_t byte7 = decode_string[(uint8_t)str[i * 8 + 6]];
+    uint8_t byte8 = decode_string[(uint8_t)str[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -233,19 +233,19 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
-    uint8_t byte1 = decode_string[tail_str[0]];
-    uint8_t byte2 = decode_string[tail_str[1]];
+    uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
+    uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
-      uint8_t byte3 = decode_string[tail_str[2]];
-      uint8_t byte4 = decode_string[tail_str[3]];
+      uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
+      uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
-        uint8_t byte5 = decode_string[tail_str[4]];
+        uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
-          uint8_t byte6 = decode_string[tail_str[5]];
-          uint8_t byte7 = decode_string[tail_str[6]];
+          uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
+          uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From 6a859b9db31d219619fcc19de1b4cb737690a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/16] fix: base32 decoding detects invalid characters in the
 last group

---
 src/base32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index cc165cd..55a30e7 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -235,17 +235,23 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   if (tail_bytes > 0) {
     uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
     uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
+    uint8_t *tail_out = out;
+    if (byte1 == 0xFF || byte2 == 0xFF) return tail_out - (uint8_t *)buf;
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
       uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
       uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
+      if (byte3 == 0xFF || byte4 == 0xFF) return tail_out - (uint8_t *)buf;
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
         uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
+        if (byte5 == 0xFF) return tail_out - (uint8_t *)buf;
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
           uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
           uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
+          if (byte6 == 0xFF || byte7 == 0xFF)
+            return tail_out - (uint8_t *)buf;
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From 5938f753df8bd0d8d295a1ab6b5bec1c219ef0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 07/16] fix: base58 decoding never reads past the given length

---
 src/base58.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..debce0e 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,12 +73,12 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && *str && isspace((uint8_t)*str)) {
     str++;
   }
   int zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
@@ -87,7 +87,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && *str && !isspace((uint8_t)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((uint8_t)*str)) str++;
+  if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 69bf830c45673968be2d81b949f6d16d10b071bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 08/16] fix: base58 decode length helper covers leading '1'
 characters

---
 include/fingera_libc/base58.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..fab7768 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,7 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  return str_len;  // 每个前导'1'都会解码成一个字节
 }
 
 /**
-- 
2.43.0


From 160d070e067bc44ec7355c9dd22caff732567b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 09/16] fix: base58 decode scratch size does not overflow int

---
 src/base58.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index debce0e..f58a4be 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -83,7 +83,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
@@ -96,7 +96,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
-- 
2.43.0


From b97bf3e7c9f6a95e42946be6144931804c95ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 10/16] fix: key_from_string does not overflow its buffer on
 long strings

---
 src/btc/key.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..5a11482 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -373,12 +375,8 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
   return fingera_to_base58_check(key32, 32, param->prefix_secret_key,
                                  param->prefix_secret_key_size, key_str);
 }
-int fingera_btc_key_from_string(const char* key_str, size_t str_len,
-                                void* key32, int* is_compressed,
-                                const chain_parameters* param) {
-  uint8_t buf[32 + 8];
-  assert(param->prefix_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+static int key_from_bytes(const uint8_t* buf, size_t size, void* key32,
+                          int* is_compressed, const chain_parameters* param) {
   if (size <= 32) return 0;
   size_t pre_size = size - 32;
   if (param->prefix_secret_key_size != pre_size) {
@@ -397,6 +395,17 @@ int fingera_btc_key_from_string(const char* key_str, size_t str_len,
   memcpy(key32, buf + param->prefix_secret_key_size, 32);
   return 1;
 }
+int fingera_btc_key_from_string(const char* key_str, size_t str_len,
+                                void* key32, int* is_compressed,
+                                const chain_parameters* param) {
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
+  size_t size = fingera_from_base58_check(key_str, str_len, buf);
+  int r = key_from_bytes(buf, size, key32, is_compressed, param);
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return r;
+}
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
                            void* out_key32, void* out_chain32, uint32_t child) {
-- 
2.43.0


From f0d275240c789c8249cbced537ebb11b82c4585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 11/16] fix: extended key from_string does not overflow its
 buffer on long strings

---
 src/btc/exkey.c | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..28b5114 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -98,22 +99,26 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
   return size;
 }
 
-int fingera_exkey_from_string(const char *str, size_t str_len,
-                              fingera_ex_key *key,
-                              const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_secret_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+static int exkey_from_bytes(const uint8_t *extkey, size_t size,
+                            fingera_ex_key *key, const chain_parameters *param) {
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
   fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
   return 1;
 }
+int fingera_exkey_from_string(const char *str, size_t str_len,
+                              fingera_ex_key *key,
+                              const chain_parameters *param) {
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int r = exkey_from_bytes(extkey, size, key, param);
+  fingera_cleanse(extkey, extkey_size);
+  FREE_BUFFER(extkey);
+  return r;
+}
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
   uint8_t *code = (uint8_t *)extkey74;
@@ -136,18 +141,23 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
                                         param->prefix_ext_public_key_size, str);
   return size;
 }
-int fingera_expubkey_from_string(const char *str, size_t str_len,
-                                 fingera_ex_pubkey *pub,
-                                 const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
-  assert(param->prefix_ext_public_key_size <= 8);
-  size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
+static int expubkey_from_bytes(const uint8_t *extkey, size_t size,
+                            fingera_ex_pubkey *pub, const chain_parameters *param) {
+  if (size <= BIP32_EXTKEY_SIZE) return 0;  // no prefix
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_public_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
   fingera_expubkey_decode(extkey + prefix_size, pub);
   return 1;
+}
+int fingera_expubkey_from_string(const char *str, size_t str_len,
+                                 fingera_ex_pubkey *pub,
+                                 const chain_parameters *param) {
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
+  size_t size = fingera_from_base58_check(str, str_len, extkey);
+  int r = expubkey_from_bytes(extkey, size, pub, param);
+  fingera_cleanse(extkey, extkey_size);
+  FREE_BUFFER(extkey);
+  return r;
 }
\ No newline at end of file
-- 
2.43.0


From 0a70ddb15ddda2195b8ce14fb512c6202163504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 12/16] fix: extended private key strings with a nonzero pad
 byte are rejected

---
 src/btc/exkey.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 28b5114..c405ee9 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -105,6 +105,7 @@ static int exkey_from_bytes(const uint8_t *extkey, size_t size,
   size_t prefix_size = size - BIP32_EXTKEY_SIZE;
   if (prefix_size != param->prefix_ext_secret_key_size) return 0;
   if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
+  if (extkey[prefix_size + 41] != 0) return 0;
   fingera_exkey_decode(extkey + prefix_size, key);
   return 1;
 }
-- 
2.43.0


From 9736492531432e54bb70681f899f359ef77ba03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 13/16] fix: key derivation fails instead of wrapping the depth
 past 255

---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index c405ee9..fb42614 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == UINT8_MAX) return 0;  // depth overflow
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == UINT8_MAX) return 0;  // depth overflow
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From e5770e4e1177ab774036f42678981f86e606bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 14/16] fix: base64 decoding does not accept '=' inside the
 data

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From c82ff8bb442d87426fd129285865ecc961df3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 15/16] fix: bech32 decoding never reads past the given length

---
 src/btc/bech32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..921d1d7 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = str_len; i > 0 && !pos; i--) {
+    if (str[i - 1] == '1') pos = str + i - 1;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
-- 
2.43.0


From 692f6ab8c350010acf01c84add418ffdb16ec742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 16/16] fix: segwit address decoding enforces the BIP173
 padding rules

---
 src/btc/address.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..e7b386e 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -92,6 +92,14 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
   return result_size;
 }
 
+// BIP173: 填充必须小于5位并且全部为0
+static int is_padding_valid(const char *b32, size_t b32_size) {
+  size_t pad_bits = (b32_size * 5) % 8;
+  if (b32_size == 0) return 1;
+  if (pad_bits >= 5) return 0;
+  return (b32[b32_size - 1] & ((1 << pad_bits) - 1)) == 0;
+}
+
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
@@ -103,7 +111,8 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
       fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
 
   if (bech32_size < 1 || hrp_size != param->bech32_hrp_size ||
-      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {
+      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0 ||
+      !is_padding_valid(buffer + 1, bech32_size - 1)) {
     FREE_BUFFER(buffer);
     return BTC_BAD_ADDRESS;
   }
-- 
2.43.0

