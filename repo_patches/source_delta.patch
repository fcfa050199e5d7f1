From e7a5f1f88236f1b1c6bc981f0396bb885349cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:03 +0000
Subject: [PATCH 01/41] fix: keep the counter position when cloning
 DefaultCounter

---
 src/cipher_mode/counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/counter.rs b/src/cipher_mode/counter.rs
index 1117faf..d3f7155 100644
--- a/src/cipher_mode/counter.rs
+++ b/src/cipher_mode/counter.rs
@@ -23,7 +23,7 @@ impl Clone for DefaultCounter {
         Self {
             bits_len: self.bits_len,
             initial_val: self.initial_val.clone(),
-            cur_val: None,
+            cur_val: self.cur_val.clone(),
         }
     }
 }
-- 
2.43.0


From ff8dd00f6678dd29750bc6d9f51e02a28d9ef1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:18 +0000
Subject: [PATCH 02/41] fix: keep the ZUC MAC value once it has been computed

---
 src/zuc/zuc_mac.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..7d8a5b2 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -112,7 +112,7 @@ impl Digest for ZUCMac {
                 self.t ^= (self.key0 << rem) | (self.key1 >> (32 - rem));
                 self.t ^= self.zuc.zuc();
             }
-
+            self.is_check = true;
         }
         
         digest.clear();
@@ -125,5 +125,6 @@ impl Digest for ZUCMac {
         self.key1 = 0;
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 05e1a2fb1ea5761f76cb1815425215ba9fe373df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:47 +0000
Subject: [PATCH 03/41] fix: report the output length when buffered ZUC
 keystream covers the input

---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From a37e2bbb6a5ed3f3bf52fe2aa634049007821162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:54 +0000
Subject: [PATCH 04/41] fix: reject sponge rates that are zero or not below the
 permutation width

---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 5c6adb3c9eb35fb1720e163ea8495d859a20b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:54 +0000
Subject: [PATCH 05/41] fix: reject the SHA-512/t lengths 0, 384 and 512 the
 standard excludes

---
 src/sha/sha.rs    | 10 +++-------
 src/sha/sha512.rs |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sha/sha.rs b/src/sha/sha.rs
index aa2e9f1..0c5407e 100644
--- a/src/sha/sha.rs
+++ b/src/sha/sha.rs
@@ -50,13 +50,9 @@ impl SHA {
     }
 
     pub fn sha512t(bits_len: usize) -> Option<Self> {
-        if bits_len <= 512 {
-            Some(Self {
-                sha_: SHAType::SHA512T(SHA512T::new(bits_len).unwrap())
-            })
-        } else {
-            None
-        }
+        SHA512T::new(bits_len).map(|sha| Self {
+            sha_: SHAType::SHA512T(sha)
+        })
     }
     
     /// SHA512/256
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..42ef26e 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -197,7 +197,7 @@ pub struct SHA512T {
 
 impl SHA512T {
     pub fn new(bits_len: usize) -> Option<SHA512T> {
-        if bits_len <= 512 {
+        if bits_len > 0 && bits_len < 512 && bits_len != 384 {
             let mut sha_ = SHA512::new();
             sha_.digest.iter_mut().for_each(|e| {
                 *e = *e ^ 0xa5a5a5a5a5a5a5a5u64;
-- 
2.43.0


From 407cc3abef5677fe9aae4d72c4dae0afb5e92a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:50 +0000
Subject: [PATCH 06/41] fix: continue the ZUC MAC keystream across writes

---
 src/zuc/zuc_mac.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 7d8a5b2..afaad78 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -82,10 +82,12 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
+        if self.length == 0 && bound > 0 {
+            self.key0 = self.zuc.zuc();
+            self.key1 = self.zuc.zuc();
+        }
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -104,6 +106,10 @@ impl Digest for ZUCMac {
 
     fn checksum(&mut self, digest: &mut Vec<u8>) {
         if !self.is_check {
+            if self.length == 0 {
+                self.key0 = self.zuc.zuc();
+                self.key1 = self.zuc.zuc();
+            }
             let rem = self.length & 31;
             if rem == 0 {
                 self.t ^= self.key0;
-- 
2.43.0


From 4bbc0ca26c65fd8841c8ea0ec72f385ba04a0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:09 +0000
Subject: [PATCH 07/41] fix: clear the SHA-512 length counter once a digest is
 taken

---
 src/sha/sha512.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 42ef26e..0a0e1fb 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -84,6 +84,7 @@ impl Digest for SHA512 {
             let len = (len as u128) << 3;
             let len_bytes = len.to_be_bytes();
             self.write(&len_bytes[..]);
+            self.len = 0;
             self.is_checked = true;
         }
 
-- 
2.43.0


From 0050730f06686f3d2dbe40c3bb6d580719658c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:39 +0000
Subject: [PATCH 08/41] fix: keep the leading bits of the last byte of a
 SHA-512/t digest

---
 src/sha/sha512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 0a0e1fb..74c6227 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -240,7 +240,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 914f5d8be8bc89a6bfeb62e8511c3b4c01ab4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 09/41] fix: chain the padded blocks in one-shot CBC encryption

The blocks left after padding were encrypted on their own instead of being
combined with the previous ciphertext block, so they could not be decrypted.
---
 src/cipher_mode/cbc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..830db84 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -152,9 +152,11 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         let mut data = tmp.as_slice();
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
-            let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            let tmp: Vec<u8> = data[..len].iter().zip(cur_iv.iter()).map(|(&a, &b)| a ^ b).collect();
+            match self.cipher.encrypt(txt, tmp.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
-- 
2.43.0


From 33266f60fc2a08d2c1828093126dbbac3aa9d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 10/41] fix: keep the CBC stream chain through finish and reset
 it afterwards

finish put the IV back after every padded block, so a second block was chained
from the IV, and did not put it back at all when there was no block.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 830db84..74e744c 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -306,8 +306,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -316,6 +315,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             }
         }
         
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         self.data.clear();
         Ok(Pond::new(&mut self.pond, true))
     }
-- 
2.43.0


From 090349d93b1687a6957387a9be8210f0206f6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 11/41] fix: reject a message that CFB cannot cut into segments

Encryption dropped the bytes after the last whole segment when the padding did
not complete it.
---
 src/cipher_mode/cfb.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..7fc041b 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -121,6 +121,15 @@ impl<C, P, IV> CFB<C, P, IV>
         }
     }
     
+    fn check_segments(&self, len: usize) -> Result<(), CryptoError> {
+        if len % self.s != 0 {
+            Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong data len: {}, the padded data length(in bytes) should be a multiple of {}", len, self.s)))
+        } else {
+            Ok(())
+        }
+    }
+    
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
         while data.len() >= self.s {
@@ -199,6 +208,7 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
+        self.check_segments(data.len())?;
 
         self.encrypt_inner(&mut ij, dst, data.as_slice())
     }
@@ -284,6 +294,7 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         self.cfb.padding.padding(&mut self.data);
+        self.cfb.check_segments(self.data.len())?;
 
         if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
-- 
2.43.0


From 5477db1addba9b1b1bb3ea558446ceac79a0ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 12/41] fix: take the padding of a CFB stream off its last
 bytes only

Decryption delivered every whole segment from write and then removed the
padding from whatever output had not been collected yet. A stream whose output
was collected after each write failed to finish. Hold back the last block and
remove the padding from it.
---
 src/cipher_mode/cfb.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 7fc041b..ffbc319 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -316,7 +316,10 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the last block may hold the padding, it is processed in `finish`
+        let block_len = self.cfb.cipher.block_size().unwrap_or(1);
+        let ready = self.data.len().saturating_sub(block_len);
+        let bound = ready - (ready % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -332,12 +335,15 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        self.cfb.check_segments(self.data.len())?;
+        let mut txt = Vec::with_capacity(self.data.len());
+        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut txt, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut txt) {
                 return Err(e);
             } else {
+                self.pond.append(&mut txt);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 3e96ce5d9bc8b435f55ba81499163c5698b43ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 13/41] fix: encrypt the low-order bytes of a counter wider
 than the block

Only the leading bytes of the counter value were given to the cipher, so with a
counter longer than a block every block used the same keystream.
---
 src/cipher_mode/ctr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..e13d9ad 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,7 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From 16424898fa50ece120b45c3b36ee579763038f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:54 +0000
Subject: [PATCH 14/41] fix: restart the counter when a CTR stream is finished

The next message was processed with the counter where the last one left it.
---
 src/cipher_mode/ctr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index e13d9ad..bce710b 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -221,6 +221,7 @@ impl<C, T> EncryptStream for CTREncrypt<C, T>
         match self.ctr.encrypt_inner(self.data.as_slice(), &mut self.pond) {
             Ok(_) => {
                 self.data.clear();
+                self.ctr.get_counter().reset();
                 Ok(Pond::new(&mut self.pond, true))
             },
             Err(e) => {
-- 
2.43.0


From b2d3ef03dc8c0f0b5b015e97fa7c1a5a66cd56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:33 +0000
Subject: [PATCH 15/41] fix: mask the leading bits in PSS verification

The shift was computed from em_len / 8 instead of em_len * 8, so the
subtraction overflowed and no PSS signature could ever be verified.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..9f362ab 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -228,7 +228,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= 0xff >> ((em_len << 3) - em_bits);
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From 6fc32c1727a68dfcdaac6bac32d5cc82f3fa77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:38 +0000
Subject: [PATCH 16/41] fix: DSA verification uses the leftmost bits of the
 digest like signing does

---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..dc5ee15 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From c3c901a4e49297dabe885533cd248a9211de9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:38 +0000
Subject: [PATCH 17/41] fix: PKCS1 verification rejects signatures that are not
 as long as the modulus

---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..fc3b864 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -182,6 +182,10 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if sign.len() != k {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The signature length doesn't match the modulus length"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
-- 
2.43.0


From f94441ba011fff68356a9758f1c2016ed1c67d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:38 +0000
Subject: [PATCH 18/41] fix: PKCS1 verification rejects signature
 representatives not below the modulus

---
 src/rsa/pkcs1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index fc3b864..19aa9ac 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -187,6 +187,9 @@ impl<H, R> PKCS1Inner<H, R>
         }
         
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The signature is out of range"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From 9c9668756df3d025c26fbc9e836e084dac974648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:38 +0000
Subject: [PATCH 19/41] fix: PSS verification rejects signature representatives
 not below the modulus

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 9f362ab..c88b66e 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -299,6 +299,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The signature is out of range"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From 8c4cc77922486fb5baf397b6a7052ccabe2bdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:03 +0000
Subject: [PATCH 20/41] fix: OAEP decryption rejects cipher texts that are not
 as long as the modulus

---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..8a72dc7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,7 +103,7 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From 6f0b47e90d78fc67b6c6a798f69f55dffa2e701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:03 +0000
Subject: [PATCH 21/41] fix: OAEP decryption requires the separator before the
 message

---
 src/rsa/oaep.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 8a72dc7..5d8753d 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,16 +143,22 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        let mut is_found = false;
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
                 if x != 0x01 {
                     return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
                 }
+                is_found = true;
                 break;
             }
         }
         
+        if !is_found {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         msg.clear();
         msg.extend((&em[idx..]).iter());
         Ok(())
-- 
2.43.0


From e07db7308e660d40babec0b874a1465c834a2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:03 +0000
Subject: [PATCH 22/41] fix: the RSA private key operation rejects a
 representative equal to the modulus

---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..c408fa5 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,7 +246,7 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
-- 
2.43.0


From 5192bf02ae7863c5a9fc02c508f34b51ca179d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:43 +0000
Subject: [PATCH 23/41] fix: refuse to encrypt with a short PKCS#1 padding
 string

The random iterator ends early when the source fails. The encryption went on
with as many padding bytes as it had got, down to none.
---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 19aa9ac..25ed5f5 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -67,6 +67,10 @@ impl<H, R> PKCS1Inner<H, R>
             }
         }
         em.truncate(bound);
+        if em.len() != bound {
+            em.clear();
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source ended before the padding string was complete"));
+        }
         em.push(0x00);
         em.extend(msg.iter());
         
-- 
2.43.0


From f7bf2a2d9409f9cfb85d581eddef01e7395033dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:43 +0000
Subject: [PATCH 24/41] fix: refuse to sign with a short PSS salt

The random iterator ends early when the source fails. The signature was made
with a salt shorter than configured, which verification rejects.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index c88b66e..fc6ddfe 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -287,6 +287,9 @@ impl<H, R> PSS<H, R>
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
         salt.truncate(salt_len);
+        if salt.len() != salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source ended before the salt was complete"));
+        }
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
     }
-- 
2.43.0


From 3363867e53cc75b8e9caa57100c538192389e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:43 +0000
Subject: [PATCH 25/41] fix: refuse to sign with short ECDSA entropy

The random iterator ends early when the source fails. The nonce was then
derived from the private key and the hash with little or no entropy.
---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..5e72d7c 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -155,6 +155,9 @@ impl<H, R, C> ECDSA<H, R, C>
             }
         }
         entropy.truncate(entropy_len);
+        if entropy.len() != entropy_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source ended before the entropy was complete"));
+        }
         
         self.md.reset();
         self.md.write(d_bytes.as_slice());
-- 
2.43.0


From a3eb670daaf2f284831be5981806f84efa65bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:43 +0000
Subject: [PATCH 26/41] fix: refuse to generate an ECDSA key from too few
 random bytes

The random iterator ends early when the source fails. The private key was
then taken from as few bytes as had been drawn.
---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 5e72d7c..567d7e2 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -72,6 +72,9 @@ impl<H, R, C> ECDSA<H, R, C>
             }
         }
         buf.truncate(b);
+        if buf.len() != b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source ended before the field element was complete"));
+        }
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
     }
-- 
2.43.0


From d4df5528d2b85890276e629efee0eb26428d2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:43 +0000
Subject: [PATCH 27/41] fix: refuse to generate a curve key from too few random
 bytes

The random iterator ends early when the source fails. The private key was
then short, or the index of its second byte panicked.
---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..9ebc0b3 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -149,6 +149,9 @@ impl CurveParams {
                 priv_key.push((x & 0xff) as u8);
             });
             priv_key.truncate(b_len);
+            if priv_key.len() != b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source ended before the key was complete"));
+            }
 
             // We have to mask off any excess bits in the case that the size of the
             // underlying field is not a whole number of bytes.
-- 
2.43.0


From 92d80b87f4efcf5cbf8bb8c46bd590db20e19086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:04 +0000
Subject: [PATCH 28/41] fix: reject a truncated DSA/ECDSA signature instead of
 panicking

---
 src/dsa/signature.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsa/signature.rs b/src/dsa/signature.rs
index 3124249..dfc8643 100644
--- a/src/dsa/signature.rs
+++ b/src/dsa/signature.rs
@@ -37,8 +37,10 @@ impl SignatureContent {
     
     /// r, s
     pub fn to_bigint(&self) -> (BigInt, BigInt) {
-        (BigInt::from_be_bytes(&self.content.as_slice()[0..self.r_len]),
-        BigInt::from_be_bytes(&self.content.as_slice()[self.r_len..]))
+        // the content can be shortened from outside
+        let r_len = std::cmp::min(self.r_len, self.content.len());
+        (BigInt::from_be_bytes(&self.content.as_slice()[0..r_len]),
+        BigInt::from_be_bytes(&self.content.as_slice()[r_len..]))
     }
     
     pub fn set(&mut self, r: BigInt, s: BigInt) {
-- 
2.43.0


From 70fcccf058864af80727bd4310ff906be1885279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:04 +0000
Subject: [PATCH 29/41] fix: report an unsupported PKCS#1 signature hash as an
 error instead of panicking

---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 25ed5f5..5370da3 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -247,7 +247,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("not support {}", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From 7b288ca6ca0a94fac150e92e4d8e6ec241ef0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:05 +0000
Subject: [PATCH 30/41] fix: PSS verification shift overflow for a modulus of
 8k+1 bits

---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index fc6ddfe..89c09d2 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,7 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        if (em[0] & !(0xffu8 >> ((em_len << 3) - em_bits))) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
-- 
2.43.0


From 9aec072b888eee54872030459c8f7942c67f21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:26:17 +0000
Subject: [PATCH 31/41] fix: P-256 reduction subtracts one from a limb that can
 be zero

---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From 27bdbdcd4cdec5bf59e9f46935bff7f1025a6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:01 +0000
Subject: [PATCH 32/41] fix: an RSA public key shares storage with the integers
 it was built from

---
 src/rsa/rsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index c408fa5..d31e7d4 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -112,8 +112,8 @@ impl PublicKey {
         } else {
             Ok(
                 Self {
-                    n: BigInt::from(modulus.clone()),
-                    e: BigInt::from(exponent.clone()),
+                    n: BigInt::from(modulus.deep_clone()),
+                    e: BigInt::from(exponent.deep_clone()),
                 }
             )
         }
-- 
2.43.0


From 4272c429673276553c2620d365b5fcb89b9888f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:34 +0000
Subject: [PATCH 33/41] fix: block padding adds a whole block of zeros when the
 data ends one byte short of a block

---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..54052c8 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let remain = buf.len() % self.block_size;
+        if remain > 0 {
+            buf.resize(buf.len() + (self.block_size - remain), 0);
         }
     }
 
-- 
2.43.0


From 2e407c801ca81fef865d252d66b69c5df83a126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:34 +0000
Subject: [PATCH 34/41] fix: unpadding accepts data whose tail is not 0x80
 followed by zeros

---
 src/cipher_mode/padding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 54052c8..eb8ec49 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -42,6 +42,8 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From ebd082c100c27d678d26e33b32b8371ad46ddbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:55 +0000
Subject: [PATCH 35/41] fix: PKCS1 encryption of an empty message returns an
 empty cipher text

---
 src/rsa/pkcs1.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 5370da3..75ea46d 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,9 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
         
         self.kp.public_key().is_valid()?;
         
-- 
2.43.0


From ce4882ba42d59023980429993444d32c2435cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:35 +0000
Subject: [PATCH 36/41] fix: P-521 parameters report a field of 512 bits under
 the name P-512

---
 src/elliptic/elliptic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 9ebc0b3..a08ea4c 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -458,8 +458,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From 282cbf750f2049b25437a3b62f30d681ae361253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:10 +0000
Subject: [PATCH 37/41] fix: multi-prime RSA key generation accepts repeated
 primes

Only neighbouring primes were compared, so a key of three or more primes
could contain the same prime twice and fail to decrypt.
---
 src/rsa/rsa.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index d31e7d4..bf949af 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -461,16 +461,15 @@ impl PrivateKey {
                     }
                 };
 
+                // Make sure that primes is pairwise unequal.
+                if primes.contains(&prime) {
+                    continue 'next_set_of_primes;
+                }
+
                 cbits -= prime.bits_len();
                 primes.push(prime);
             }
 
-            // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
-                continue'next_set_of_primes;
-            }
-
             let (mut n, mut totient) = (BigInt::from(1u32), BigInt::from(1u32));
             for prime in primes.iter() {
                 n *= prime.clone();
-- 
2.43.0


From 490f81cbbbf4f01ad6d3676e7d2ec8107d587a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:09 +0000
Subject: [PATCH 38/41] fix: curve key generation accepts the secret key zero

The point at infinity would be returned as the public key.
---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index a08ea4c..4f36318 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -162,7 +162,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key != 0u32 && key < self.n {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From 122e51f6271617424166d5f42950759f5a5d3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:41:15 +0000
Subject: [PATCH 39/41] fix: PKCS1 encryption accepts an empty message for a
 modulus below 11 bytes

The padding string would have been shorter than 8 bytes.
---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 75ea46d..4d65aa9 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -43,7 +43,7 @@ impl<H, R> PKCS1Inner<H, R>
         self.kp.public_key().is_valid()?;
         
         let k = self.kp.modulus_len();
-        if msg.len() > k.saturating_sub(11) {
+        if msg.len() + 11 > k {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The msg length is too long"));
         }
         
-- 
2.43.0


From 53d1176e45ae58a12859c9b67db28fc617b595e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:33 +0000
Subject: [PATCH 40/41] fix: OAEP encryption aborts for a modulus too short for
 the hash

The length limit was computed by a subtraction that underflows.
---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 5d8753d..7801966 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -46,7 +46,7 @@ impl<H, R> OAEPInner<H, R>
     fn encrypt_inner(&mut self, cipher_txt: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         self.kp.public_key().is_valid()?;
         let (k, h_len) = (self.kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if msg.len() > (k - (h_len << 1) -2) {
+        if msg.len() + (h_len << 1) + 2 > k {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The length of message is too long"));
         }
         
-- 
2.43.0


From 8e42806ecc112f39875f14282b90dc19cb16ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:38:10 +0000
Subject: [PATCH 41/41] fix: multiplying a P-256 point with a zero coordinate
 gives a wrong result

---
 src/elliptic/p256.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..0f5f41b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1158,7 +1158,12 @@ impl CurveP256 {
     }
     
     fn p256_from_bigint(&self, out: &mut P256FEle, a: &BigInt) {
-        let mut tmp = a.clone() << 257;
+        // a zero shifted by whole words is not normalized, its remainder is wrong
+        let mut tmp = if a.signnum() == Some(0) {
+            BigInt::from(0u32)
+        } else {
+            a.clone() << 257
+        };
         tmp.rem_euclid_assign(self.cp.field_order().clone());
         
         let mut i = 0;
-- 
2.43.0

