From b8c49ce7ee3fe4c475070fb2e89ccc4f709aca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 001/111] fix: sessions opened while the SO is logged in report
 the SO state

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..35f2c78 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 2163abe95838dd1a52c7ce05e65500d64fdb2a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 002/111] fix: report the number of open sessions in the token
 info

---
 src/slot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 0c44a1d..d78f206 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -99,8 +99,15 @@ impl Slot {
     /// Returns a copy of the token information (`CK_TOKEN_INFO`) for the
     /// token within this slot. Acquires a read lock on the token.
     pub fn get_token_info(&self) -> CK_TOKEN_INFO {
-        let tok = self.token.read().unwrap();
-        *tok.get_token_info()
+        /* the token lock must not be held while locking sessions */
+        let mut info = *self.token.read().unwrap().get_token_info();
+        info.ulSessionCount = self.sessions.len() as CK_ULONG;
+        info.ulRwSessionCount = self
+            .sessions
+            .values()
+            .filter(|s| s.read().unwrap().is_writable())
+            .count() as CK_ULONG;
+        info
     }
 
     /// Gets a read lock guard for the `Token` in this slot.
-- 
2.43.0


From b471e4546b07e1a2d0e2026c6b5ff675a2d5ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 003/111] fix: never check an NSS database PIN with keys cached
 for another PIN

---
 src/storage/nssdb/ci.rs  |  4 ++++
 src/storage/nssdb/mod.rs | 31 ++++++++++++++-----------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 47f3c75..9173992 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -121,6 +121,10 @@ impl KeysWithCaching {
             zeromem(key.as_mut_slice());
             self.enckey = None;
         }
+        match self.cache.get_mut() {
+            Ok(c) => c.clear(),
+            Err(e) => e.into_inner().clear(),
+        }
     }
 
     /// Attempts to get a read lock (`LockedKey`) for a cached derived key
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2e6ffa9..1302656 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1477,37 +1477,34 @@ impl Storage for NSSStorage {
          * to the chosen algorithm. The data is a structured ASN.1
          * structure that includes in formation about which algorithm
          * to use for the decryption.
-         * NOTE: to allow key caching we set the key unchecked, and
-         * then remove it on failure or if only a check was requested */
+         * NOTE: the PIN is checked with its own set of keys, keys cached
+         * for another master key must never be used to check it. */
         let (salt, data) = self.fetch_password()?;
         let enckey = enckey_derive(facilities, pin, salt.as_slice())?;
         let originally_set = self.keys.available();
         if originally_set && self.keys.check_key(enckey.as_slice()) {
             return Ok(());
         }
-        self.keys.set_key(enckey);
-        let check = match decrypt_data(facilities, &self.keys, data.as_slice())
-        {
+        let mut newkeys = KeysWithCaching::default();
+        newkeys.set_key(enckey);
+        match decrypt_data(facilities, &newkeys, data.as_slice()) {
             Ok(plain) => {
-                if plain.as_slice() == NSS_PASS_CHECK {
-                    Ok(())
-                } else {
-                    Err(CKR_PIN_INCORRECT)?
+                if plain.as_slice() != NSS_PASS_CHECK {
+                    return Err(CKR_PIN_INCORRECT)?;
                 }
             }
-            Err(e) => Err(e),
-        };
-        if check.is_err() {
-            /* unconditionally remove the key on failure */
-            self.keys.unset_key();
-            return check;
+            Err(e) => match e.rv() {
+                /* the wrong key yields invalid padding */
+                CKR_ENCRYPTED_DATA_INVALID => return Err(CKR_PIN_INCORRECT)?,
+                _ => return Err(e),
+            },
         }
 
         /* NSS does not support any error counter for authentication attempts */
         *flag = 0;
 
-        if check_only && !originally_set {
-            self.keys.unset_key();
+        if !check_only || originally_set {
+            self.keys = newkeys;
         }
         Ok(())
     }
-- 
2.43.0


From 79ca925c34786fa7ae5d8714a2aa2f2c5ead76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 004/111] fix: AES-CCM with a 7 byte nonce overflows the data
 length check

The limit is 2^(8*L) with L = 15 - nonce length, which does not fit a
CK_ULONG for L = 8: the shift panics (or wraps to 1).
---
 src/ossl/aes.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..ac5cddb 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -213,8 +213,14 @@ impl AesOperation {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 let l = 15 - params.ulNonceLen;
+                /* with l == 8 any length CK_ULONG can express is allowed */
+                let maxlen = if l < 8 {
+                    1 << (8 * l)
+                } else {
+                    CK_ULONG::MAX
+                };
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || params.ulDataLen > maxlen
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -762,8 +768,14 @@ impl AesOperation {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 let l = 15 - params.ulNonceLen;
+                /* with l == 8 any length CK_ULONG can express is allowed */
+                let maxlen = if l < 8 {
+                    1 << (8 * l)
+                } else {
+                    CK_ULONG::MAX
+                };
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || params.ulDataLen > maxlen
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From dba8526ba54e4bcdc011ed60ec90d1272e20861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 005/111] fix: AES-CTR miscounts the blocks left when the
 counter ends mid octet

The partial octet of the counter was masked with the number of bits instead
of a mask of that many bits, so a counter that is about to run out was
accepted and the carry propagated into the nonce part of the counter block.
---
 src/ossl/aes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index ac5cddb..64ddad5 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -315,8 +315,9 @@ impl AesOperation {
                     }
                     let part = u128::try_from(ctrbits % 8)?;
                     if part > 0 {
+                        let mask = (1u128 << part) - 1;
                         maxblocks -=
-                            (u128::try_from(iv[15 - idx])? & part) << (idx * 8);
+                            (u128::try_from(iv[15 - idx])? & mask) << (idx * 8);
                     }
                     if maxblocks == 0 {
                         return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From 83741f78fe52328ae089776aac10ad73d4417fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 006/111] fix: AES key wrap of an empty message is refused

RFC 3394 and RFC 5649 need at least two (one) octet blocks; the empty message
was 'wrapped' to an empty ciphertext.
---
 src/ossl/aes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 64ddad5..2f79ac6 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1261,7 +1261,12 @@ impl Encryption for AesOperation {
                 }
             }
             CKM_AES_KEY_WRAP => {
-                if plain.len() % AES_KWP_BLOCK != 0 {
+                if plain.len() == 0 || plain.len() % AES_KWP_BLOCK != 0 {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
+            }
+            CKM_AES_KEY_WRAP_KWP => {
+                if plain.len() == 0 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
             }
-- 
2.43.0


From f2138d7bcdd40400ad7d333c2485f95903309ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 007/111] fix: AES-CCM decryption of no data succeeds without
 checking the tag

An empty ciphertext (or no ciphertext at all before the final call) was
reported as successfully decrypted although nothing was authenticated. Track
that the declared data has been processed, in both directions.
---
 src/ossl/aes.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 2f79ac6..d5e0a5f 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1245,6 +1245,10 @@ impl Encryption for AesOperation {
                 if plain.len() + self.buffer.len() > self.params.datalen {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                /* blockctr marks that all the data has been processed */
+                if self.blockctr != 0 && plain.len() > 0 {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
                 if plain.len() + self.buffer.len() < self.params.datalen {
                     outlen = 0;
                 }
@@ -1290,6 +1294,9 @@ impl Encryption for AesOperation {
         let mut plain_end = plain.len();
         match self.mech {
             CKM_AES_CCM => {
+                if plain.len() + self.buffer.len() == self.params.datalen {
+                    self.blockctr = 1;
+                }
                 if plain.len() < self.params.datalen {
                     self.buffer.extend_from_slice(plain);
                     if self.buffer.len() == self.params.datalen {
@@ -1390,6 +1397,11 @@ impl Encryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
 
+        if self.mech == CKM_AES_CCM && self.blockctr == 0 {
+            /* CCM can only process all of the declared data */
+            return Err(self.op_err(CKR_DATA_LEN_RANGE));
+        }
+
         let ctx = match &mut self.ctx {
             Some(c) => c,
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
@@ -1607,6 +1619,10 @@ impl Decryption for AesOperation {
                 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                /* blockctr marks that all the data has been processed */
+                if self.blockctr != 0 && cipher.len() > 0 {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
             }
             CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                 if cipher.len() % AES_KWP_BLOCK != 0 {
@@ -1712,6 +1728,7 @@ impl Decryption for AesOperation {
 
                     zeromem(self.buffer.as_mut_slice());
                     self.buffer.clear();
+                    self.blockctr = 1;
                 }
 
                 /* One way or another the cipher buffer has been utilized */
@@ -1860,7 +1877,9 @@ impl Decryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM => {
-                if self.buffer.len() > 0 {
+                /* nothing has been authenticated unless all the declared
+                 * data and the tag have been processed */
+                if self.buffer.len() > 0 || self.blockctr == 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
             }
-- 
2.43.0


From e762955768d2ab2db661e347bbcdec8ce6fe24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 008/111] fix: AES-CTS panics when the buffer is shorter than
 two blocks but longer than the data

---
 src/ossl/aes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d5e0a5f..76caefc 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1360,7 +1360,8 @@ impl Encryption for AesOperation {
                     if cipher_offset != plain.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    cipher.copy_from_slice(&buffer[..cipher_offset]);
+                    cipher[..cipher_offset]
+                        .copy_from_slice(&buffer[..cipher_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     plain_offset = plain_end;
@@ -1824,7 +1825,8 @@ impl Decryption for AesOperation {
                     if plain_offset != cipher.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    plain.copy_from_slice(&buffer[..plain_offset]);
+                    plain[..plain_offset]
+                        .copy_from_slice(&buffer[..plain_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     cipher_offset = cipher_end;
-- 
2.43.0


From 99bcaec006aaff980269f422a8435f0ca7e158fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 009/111] fix: a too small buffer consumes the AES-CTR and
 AES-CTS operations

---
 src/ossl/aes.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 76caefc..ca2f7b4 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1215,9 +1215,9 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
-        self.in_use = true;
 
         let mut outlen = self.encryption_len(plain.len(), false)?;
+        let mut blockctr = self.blockctr;
         match self.mech {
             CKM_AES_CTS => {
                 if plain.len() < AES_BLOCK_SIZE {
@@ -1226,7 +1226,7 @@ impl Encryption for AesOperation {
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
                 if self.blockctr == 0 {
-                    self.blockctr = 1;
+                    blockctr = 1;
                 } else {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
@@ -1261,7 +1261,7 @@ impl Encryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blockctr += reqblocks;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1280,6 +1280,9 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        /* from here on the data is consumed */
+        self.in_use = true;
+        self.blockctr = blockctr;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1600,6 +1603,7 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        let mut blockctr = self.blockctr;
         match self.mech {
             CKM_AES_CTS => {
                 if cipher.len() < AES_BLOCK_SIZE {
@@ -1609,7 +1613,7 @@ impl Decryption for AesOperation {
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
                 if self.blockctr == 0 {
-                    self.blockctr = 1;
+                    blockctr = 1;
                 } else {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
@@ -1632,7 +1636,6 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -1662,7 +1665,7 @@ impl Decryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blockctr += reqblocks;
                 }
                 cipher.len()
             }
@@ -1685,6 +1688,9 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        /* from here on the data is consumed */
+        self.in_use = true;
+        self.blockctr = blockctr;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
-- 
2.43.0


From a7757cfcd0cfb055009dd05174e0d6091e616fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 010/111] fix: AES-CTR multi-part operations count a counter
 block for each part

---
 src/ossl/aes.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index ca2f7b4..2bb2990 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -157,7 +157,8 @@ pub struct AesOperation {
     ctx: Option<OsslCipher>,
     /// Internal buffer for handling partial blocks or accumulating data.
     buffer: Vec<u8>,
-    /// Counter for blocks processed (used for CTR mode limits).
+    /// Counter for octets processed (used for CTR mode limits), other modes
+    /// use it to mark that the data has been processed.
     blockctr: u128,
     /// Option to report fips indicator status
     #[cfg(feature = "fips")]
@@ -737,6 +738,11 @@ impl AesOperation {
         Ok(result)
     }
 
+    /// Number of counter values needed to process this many octets
+    fn ctr_blocks(octets: u128) -> u128 {
+        (octets + (AES_BLOCK_SIZE as u128) - 1) / (AES_BLOCK_SIZE as u128)
+    }
+
     /// Internal helper for dealing with fatal errors
     fn op_err(&mut self, err: CK_RV) -> error::Error {
         self.finalized = true;
@@ -1255,13 +1261,10 @@ impl Encryption for AesOperation {
             }
             CKM_AES_CTR => {
                 if self.params.maxblocks != 0 {
-                    let reqblocks = ((plain.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
+                    blockctr += plain.len() as u128;
+                    if Self::ctr_blocks(blockctr) > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    blockctr += reqblocks;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1435,7 +1438,7 @@ impl Encryption for AesOperation {
             CKM_AES_CTR => {
                 self.finalized = true;
                 if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
+                    if Self::ctr_blocks(self.blockctr) >= self.params.maxblocks {
                         self.finalized = true;
                         return Err(CKR_DATA_LEN_RANGE)?;
                     }
@@ -1659,13 +1662,10 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTR => {
                 if self.params.maxblocks != 0 {
-                    let reqblocks = ((cipher.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
+                    blockctr += cipher.len() as u128;
+                    if Self::ctr_blocks(blockctr) > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    blockctr += reqblocks;
                 }
                 cipher.len()
             }
@@ -1907,7 +1907,7 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTR => {
                 if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
+                    if Self::ctr_blocks(self.blockctr) >= self.params.maxblocks {
                         return Err(CKR_DATA_LEN_RANGE)?;
                     }
                 }
-- 
2.43.0


From 5439fc39c80109efd36c162e132314937beae1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 011/111] fix: AES-CBC-PAD decryption in parts not aligned to
 the block size fails

---
 src/ossl/aes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 2bb2990..7e0c46a 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1801,7 +1801,11 @@ impl Decryption for AesOperation {
                                 self.finalized = true;
                                 Err(CKR_DEVICE_ERROR)
                             })?;
-                        if plain_offset != AES_BLOCK_SIZE {
+                        /* with padding the last block is held back until
+                         * it is known whether more data follows */
+                        if plain_offset != AES_BLOCK_SIZE
+                            && self.mech != CKM_AES_CBC_PAD
+                        {
                             return Err(self.op_err(CKR_DEVICE_ERROR));
                         }
                         zeromem(self.buffer.as_mut_slice());
-- 
2.43.0


From bee36efe7f5d46d0a1043870bb4916d3d954d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 012/111] fix: AES-CBC-PAD decrypt final ignores the size of
 the output buffer

---
 src/ossl/aes.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 7e0c46a..d768cad 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1637,6 +1637,12 @@ impl Decryption for AesOperation {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
             }
+            CKM_AES_CBC_PAD => {
+                /* blockctr marks that the last block has been processed */
+                if self.blockctr != 0 {
+                    return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+                }
+            }
             _ => (),
         }
 
@@ -1934,13 +1940,25 @@ impl Decryption for AesOperation {
                 self.buffer.clear();
             }
             CKM_AES_CBC_PAD => {
-                if self.buffer.len() != 0 {
-                    return Err(CKR_DATA_LEN_RANGE)?;
+                /* blockctr marks that the last block is in the buffer */
+                if self.blockctr == 0 {
+                    if self.buffer.len() != 0 {
+                        return Err(CKR_DATA_LEN_RANGE)?;
+                    }
+                    self.buffer.resize(AES_BLOCK_SIZE, 0);
+                    match ctx.finalize(self.buffer.as_mut_slice()) {
+                        Ok(len) => self.buffer.truncate(len),
+                        Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
+                    };
+                    self.blockctr = 1;
                 }
-                outlen = match ctx.finalize(plain) {
-                    Ok(len) => len,
-                    Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
-                };
+                outlen = self.buffer.len();
+                if plain.len() < outlen {
+                    /* This is the only, non-fatal error */
+                    self.finalized = false;
+                    return Err(error::Error::buf_too_small(outlen));
+                }
+                plain[..outlen].copy_from_slice(self.buffer.as_slice());
             }
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
@@ -1988,10 +2006,18 @@ impl Decryption for AesOperation {
                     data_len
                 }
                 CKM_AES_CBC_PAD => {
+                    if self.blockctr != 0 {
+                        return Ok(self.buffer.len());
+                    }
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    if self.in_use {
+                        /* the block held back may still come out */
+                        self.buffer.len() + data_len + AES_BLOCK_SIZE
+                    } else {
+                        self.buffer.len() + data_len
+                    }
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
-- 
2.43.0


From 0984297b298296bc3af3a37b3f018c49238de4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 013/111] fix: AES key wrap updates wrapped each part
 separately

---
 src/ossl/aes.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d768cad..96dac76 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1271,11 +1271,20 @@ impl Encryption for AesOperation {
                 if plain.len() == 0 || plain.len() % AES_KWP_BLOCK != 0 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                /* one shot, each update would wrap its part separately */
+                if self.blockctr != 0 {
+                    return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+                }
+                blockctr = 1;
             }
             CKM_AES_KEY_WRAP_KWP => {
                 if plain.len() == 0 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                if self.blockctr != 0 {
+                    return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+                }
+                blockctr = 1;
             }
             _ => (),
         }
@@ -1636,6 +1645,10 @@ impl Decryption for AesOperation {
                 if cipher.len() % AES_KWP_BLOCK != 0 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                if self.blockctr != 0 {
+                    return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+                }
+                blockctr = 1;
             }
             CKM_AES_CBC_PAD => {
                 /* blockctr marks that the last block has been processed */
-- 
2.43.0


From 18981fbbc5ac859af625fa5792a42ce6993fb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 014/111] fix: AES one-shot calls consume data when the buffer
 is too small

---
 src/ossl/aes.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 96dac76..7240b9f 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1204,6 +1204,15 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.in_use {
+            return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+        }
+        /* all the output must fit, or data would be consumed and the
+         * operation could not be retried with a larger buffer */
+        let needed = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed {
+            return Err(error::Error::buf_too_small(needed));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1598,6 +1607,9 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.in_use {
+            return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
+        }
         let outl = self.decrypt_update(cipher, plain)?;
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
-- 
2.43.0


From a4e26e4ac8410f51fe86fd6e0f2d321e3df6c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 015/111] fix: AES-CCM decryption length query disagrees with
 what decryption needs

---
 src/ossl/aes.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 7240b9f..f4b388e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2017,7 +2017,7 @@ impl Decryption for AesOperation {
                     {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.params.datalen + self.params.taglen
+                    self.params.datalen
                 }
                 CKM_AES_CTR | CKM_AES_CTS => data_len,
                 CKM_AES_CBC | CKM_AES_ECB => {
@@ -2054,12 +2054,8 @@ impl Decryption for AesOperation {
             }
         } else {
             match self.mech {
-                CKM_AES_CCM => {
-                    if self.buffer.len() + data_len < self.params.taglen {
-                        return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
-                    }
-                    self.buffer.len() + data_len - self.params.taglen
-                }
+                /* update always wants room for all of the data */
+                CKM_AES_CCM => self.params.datalen,
                 CKM_AES_GCM => {
                     if self.buffer.len() + data_len < self.params.taglen {
                         0
-- 
2.43.0


From 599d99cad9fcdeb92baabf2428a086b9e5de369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 016/111] fix: AES decryption leaves unauthenticated plaintext
 in the output buffer

---
 src/ossl/aes.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index f4b388e..6fa96dc 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1614,7 +1614,16 @@ impl Decryption for AesOperation {
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
         }
-        Ok(outl + self.decrypt_final(&mut plain[outl..])?)
+        match self.decrypt_final(&mut plain[outl..]) {
+            Ok(len) => Ok(outl + len),
+            Err(e) => {
+                if self.finalized {
+                    /* do not release data that failed authentication */
+                    zeromem(&mut plain[..outl]);
+                }
+                Err(e)
+            }
+        }
     }
 
     /// Calls the underlying OpenSSL function to decrypt the ciphertext buffer
@@ -2465,7 +2474,9 @@ impl MsgDecryption for AesOperation {
                             }
                         }
                         Err(_) => {
-                            return Err(self.op_err(CKR_ENCRYPTED_DATA_INVALID))
+                            /* do not release unauthenticated data */
+                            zeromem(&mut plain[..len]);
+                            return Err(self.op_err(CKR_ENCRYPTED_DATA_INVALID));
                         }
                     }
                 } else {
-- 
2.43.0


From acf0db9955aab650c315240f647375238fb733d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 017/111] fix: state left over between messages in AES message
 encryption

---
 src/ossl/aes.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 6fa96dc..7a9ec20 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1041,7 +1041,6 @@ impl AesOperation {
         let iv_ptr = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.finalized = false;
-        self.in_use = true;
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1049,6 +1048,9 @@ impl AesOperation {
             &self.key,
             true,
         )?);
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
+        self.in_use = true;
 
         if self.params.iv.generator != CKG_NO_GENERATE {
             let iv = unsafe {
@@ -1111,7 +1113,6 @@ impl AesOperation {
         let _ = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.finalized = false;
-        self.in_use = true;
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1119,6 +1120,9 @@ impl AesOperation {
             &self.key,
             false,
         )?);
+        zeromem(self.buffer.as_mut_slice());
+        self.buffer.clear();
+        self.in_use = true;
 
         #[cfg(feature = "fips")]
         self.fips_approval_aead()?;
-- 
2.43.0


From 4978561ed13d6a0b88f90d1f791e913a1d3a2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 018/111] fix: AES message operations can not be retried after
 a too small buffer

---
 src/ossl/aes.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 7a9ec20..f4dc4bb 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2134,6 +2134,10 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        if cipher.len() < plain.len() {
+            /* refuse before the message begins, so it can be retried */
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
         self.msg_encrypt_final(param, paramlen, plain, cipher)
     }
@@ -2304,8 +2308,9 @@ impl MsgEncryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            /* the declared length is only known once a message has begun */
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
@@ -2324,6 +2329,10 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        if plain.len() < cipher.len() {
+            /* refuse before the message begins, so it can be retried */
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
         self.msg_decrypt_final(param, paramlen, cipher, plain)
     }
@@ -2510,8 +2519,9 @@ impl MsgDecryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            /* the declared length is only known once a message has begun */
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
-- 
2.43.0


From d1543889f68a6fd2626c1ee26032e34d59796e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 019/111] fix: AES-GCM multi-part decryption skips ciphertext

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index f4dc4bb..43f104f 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1804,6 +1804,8 @@ impl Decryption for AesOperation {
                         self.buffer.extend_from_slice(&cipher[cipher_end..]);
                     } else {
                         self.buffer.extend_from_slice(cipher);
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                         if self.buffer.len() > self.params.taglen {
                             let buflen = self.buffer.len() - self.params.taglen;
                             plain_offset = ctx
@@ -1819,8 +1821,6 @@ impl Decryption for AesOperation {
                             let _ = self.buffer.drain(..buflen);
                         }
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From e1ec28acf50bb07318064990b2bf535d39aa2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 020/111] fix: AES-CTS needs a larger buffer than it asks for

---
 src/ossl/aes.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 43f104f..dc4e91c 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1376,10 +1376,15 @@ impl Encryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
+                 * and OpenSSL is only ever given room for entire blocks,
                  * so if the output is smaller we need to use a support buffer
                  * to call into OpenSSL */
-                if cipher.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                let bufsize = std::cmp::max(
+                    AES_BLOCK_SIZE * 2,
+                    plain.len().next_multiple_of(AES_BLOCK_SIZE),
+                );
+                if cipher.len() < bufsize {
+                    let mut buffer = vec![0u8; bufsize];
                     cipher_offset =
                         ctx.update(plain, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1867,10 +1872,15 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
+                 * and OpenSSL is only ever given room for entire blocks,
                  * so if the output is smaller we need to use a support buffer
                  * to call into OpenSSL */
-                if plain.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                let bufsize = std::cmp::max(
+                    AES_BLOCK_SIZE * 2,
+                    cipher.len().next_multiple_of(AES_BLOCK_SIZE),
+                );
+                if plain.len() < bufsize {
+                    let mut buffer = vec![0u8; bufsize];
                     plain_offset =
                         ctx.update(cipher, &mut buffer).or_else(|_| {
                             self.finalized = true;
-- 
2.43.0


From 9e618ac3ad0788f899384afa49b0cd178b21ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 021/111] fix: RSA encryption ignores the output buffer
 protocol

A call offering an empty or short buffer consumed the operation or
reported success without producing any output.
---
 src/ossl/rsa.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index e009014..0a66110 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -548,7 +548,7 @@ impl RsaPKCSOperation {
         info: &CK_MECHANISM_INFO,
     ) -> Result<Vec<u8>> {
         let mut op = Self::decrypt_new(mech, wrapping_key, info)?;
-        let outlen = op.decrypt(data, &mut [])?;
+        let outlen = op.decryption_len(data.len(), true)?;
         let mut result = vec![0u8; outlen];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
         result.resize(outlen, 0);
@@ -583,13 +583,8 @@ impl Encryption for RsaPKCSOperation {
         self.fips_approval.clear();
 
         let len = if let Some(ctx) = &mut self.encctx {
-            let outlen = ctx.encrypt(plain, None)?;
-            if cipher.len() == 0 {
-                return Ok(outlen);
-            } else {
-                if cipher.len() < outlen {
-                    return Err(Error::buf_too_small(outlen));
-                }
+            if cipher.len() < self.output_len {
+                return Err(Error::buf_too_small(self.output_len));
             }
 
             self.finalized = true;
@@ -622,7 +617,9 @@ impl Encryption for RsaPKCSOperation {
 
     fn encryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
@@ -641,16 +638,12 @@ impl Decryption for RsaPKCSOperation {
         self.fips_approval.clear();
 
         let len = if let Some(ctx) = &mut self.encctx {
-            let mut outlen = ctx.decrypt(cipher, None)?;
-            if plain.len() == 0 {
-                return Ok(outlen);
-            }
-
-            if plain.len() < outlen && plain.len() < self.output_len {
-                return Err(CKR_BUFFER_TOO_SMALL)?;
+            if plain.len() < self.output_len {
+                return Err(Error::buf_too_small(self.output_len));
             }
             self.finalized = true;
 
+            let mut outlen = ctx.decrypt(cipher, None)?;
             if outlen > plain.len() {
                 /* the PKCS#11 documentation allows modules to pass
                  * in a buffer that is shorter than modulus by the
@@ -698,7 +691,9 @@ impl Decryption for RsaPKCSOperation {
 
     fn decryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
-- 
2.43.0


From 2712a96272a7bcb5e95a1c8f71e8f03d82d7623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 022/111] fix: OAEP with a hash too long for the key aborts

The maximum message length was computed with an unchecked subtraction.
---
 src/ossl/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 0a66110..675514b 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -268,7 +268,10 @@ impl RsaPKCSOperation {
                     mech.get_parameters::<CK_RSA_PKCS_OAEP_PARAMS>()?;
                 let hs = Self::hash_len(params.hashAlg)?;
 
-                Ok(modulus - 2 * hs - 2)
+                match modulus.checked_sub(2 * hs + 2) {
+                    Some(len) => Ok(len),
+                    None => Err(CKR_KEY_SIZE_RANGE)?,
+                }
             }
             _ => Ok(0),
         }
-- 
2.43.0


From 97bdf1c81b9c08af23d82ee9662cefeb2819c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 023/111] fix: C_WrapKey returned OK for a zero length output
 buffer

---
 src/fns/keymgmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..134b917 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -7,7 +7,7 @@
 //! as defined in the PKCS#11 specification.
 
 use crate::check_allowed_mechs;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::log_debug;
 use crate::misc::bytes_to_slice;
 use crate::object;
@@ -326,6 +326,10 @@ fn wrap_key(
         }
         Err(e) => return Err(e)?,
     };
+    /* mechanisms take an empty buffer as a size query */
+    if !wrapped_key.is_null() && outlen > wrapped.len() {
+        return Err(Error::buf_too_small(outlen));
+    }
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_wrapped_key_len = retlen };
     Ok(())
-- 
2.43.0


From 6a89753fb8ca867f6906af72debb436661cc1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 024/111] fix: C_GetOperationState must report
 CKR_BUFFER_TOO_SMALL for a short buffer

---
 src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 35f2c78..b59449c 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@
 use std::sync::LazyLock;
 
 use crate::encryption;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::kasn1::*;
 use crate::mechanism::*;
 use crate::object::Object;
@@ -687,7 +687,7 @@ impl Session {
         match asn1::write_single(&pdata) {
             Ok(der) => {
                 if der.len() > state.len() {
-                    Err(CKR_GENERAL_ERROR)?
+                    Err(Error::buf_too_small(der.len()))
                 } else {
                     state[..der.len()].clone_from_slice(der.as_slice());
                     Ok(der.len())
-- 
2.43.0


From d702bb1684e351ed4c48a11f369bf3f633cc6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 025/111] fix: a context specific login authorizes only the
 operation that asked for it

---
 src/fns/sessmgmt.rs | 10 ++---
 src/session.rs      | 99 +++++++++++++++++++++++++++++++++------------
 2 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..69533c7 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -299,13 +299,9 @@ fn login(
     let vpin = unsafe { bytes_to_slice(pin as *const u8, pin_len as usize) };
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if user_type == CKU_CONTEXT_SPECIFIC {
-        let session = rstate.get_session_mut(s_handle)?;
-        match session.check_login_status() {
-            Err(e) => match e.rv() {
-                CKR_USER_NOT_LOGGED_IN => (),
-                _ => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-            },
-            Ok(()) => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
+        let mut session = rstate.get_session_mut(s_handle)?;
+        if !session.needs_login() {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
     }
 
diff --git a/src/session.rs b/src/session.rs
index b59449c..e26cfe2 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -49,18 +49,33 @@ impl SearchOperation for SessionSearch {
 }
 
 /// Represents the login status requirement for an active operation.
-#[derive(Debug)]
+#[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub enum OpLoginStatus {
-    /// No operation active.
-    NotInitialized,
-    /// Active operation does not require login.
+    /// Operation does not require login.
+    #[default]
     NotRequired,
     /// Active operation requires login, but user is not logged in.
-    Required,
+    /// The number tells in which order operations were initialized.
+    Required(u64),
     /// Active operation requires login, and user is logged in.
     LoginOk,
 }
 
+/// Login status of each operation, a context specific login authorizes
+/// a single operation only and must not leak to any other.
+#[derive(Debug, Default)]
+struct OperationsLogin {
+    msg_encryption: OpLoginStatus,
+    msg_decryption: OpLoginStatus,
+    search: OpLoginStatus,
+    encryption: OpLoginStatus,
+    decryption: OpLoginStatus,
+    digest: OpLoginStatus,
+    sign: OpLoginStatus,
+    verify: OpLoginStatus,
+    verifysig: OpLoginStatus,
+}
+
 /// Trait defining helper methods for managing specific active operation types
 /// within a `SessionOperations` struct.
 pub trait ManageOperation {
@@ -69,6 +84,7 @@ pub trait ManageOperation {
     fn check_no_op(so: &SessionOperations) -> Result<()>;
     fn get_op(so: &mut SessionOperations) -> Result<&mut Self>;
     fn set_op(so: &mut SessionOperations, op: Box<Self>);
+    fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus;
 }
 
 /// Macro to implement the `ManageOperation` trait for a specific operation
@@ -78,6 +94,7 @@ macro_rules! impl_mop {
         impl ManageOperation for dyn $optype {
             fn cancel_operation(so: &mut SessionOperations) -> Result<()> {
                 so.$($opname).+ = None;
+                so.login.$($opname).+ = OpLoginStatus::NotRequired;
                 Ok(())
             }
 
@@ -113,6 +130,10 @@ macro_rules! impl_mop {
             fn set_op(so: &mut SessionOperations, op: Box<Self>) {
                 so.$($opname).+ = Some(op);
             }
+
+            fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus {
+                &mut so.login.$($opname).+
+            }
         }
     };
 }
@@ -130,6 +151,8 @@ pub struct SessionOperations {
     sign: Option<Box<dyn Sign>>,
     verify: Option<Box<dyn Verify>>,
     verifysig: Option<Box<dyn VerifySignature>>,
+    login: OperationsLogin,
+    login_seq: u64,
 }
 
 impl_mop!(MsgEncryption, msg_encryption);
@@ -301,6 +324,34 @@ impl SessionOperations {
             sign: None,
             verify: None,
             verifysig: None,
+            login: OperationsLogin::default(),
+            login_seq: 0,
+        }
+    }
+
+    /// Returns the login status of the operation, last initialized, that
+    /// still waits for a context specific login, if any.
+    ///
+    /// Only Sign and Decryption operations can require it.
+    fn pending_login(&mut self) -> Option<&mut OpLoginStatus> {
+        let sign = match self.login.sign {
+            OpLoginStatus::Required(n) if <dyn Sign>::check_op(self).is_ok() => n,
+            _ => 0,
+        };
+        let decrypt = match self.login.decryption {
+            OpLoginStatus::Required(n)
+                if <dyn Decryption>::check_op(self).is_ok() =>
+            {
+                n
+            }
+            _ => 0,
+        };
+        if sign > decrypt {
+            Some(&mut self.login.sign)
+        } else if decrypt > 0 {
+            Some(&mut self.login.decryption)
+        } else {
+            None
         }
     }
 }
@@ -314,8 +365,6 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +414,6 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
             fips_indicator: None,
         })
     }
@@ -522,27 +570,23 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
-    ///
-    /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
-    pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
-            }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
-        }
+    /// Checks if there is an operation waiting for a context specific login.
+    pub fn needs_login(&mut self) -> bool {
+        self.operations.pending_login().is_some()
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
     ///
-    /// Checks login status before returning the operation.
+    /// Checks login status before returning the operation, returns
+    /// `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
     pub fn get_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        O::check_op(&self.operations)?;
+        match O::login_status(&mut self.operations) {
+            OpLoginStatus::Required(_) => Err(CKR_USER_NOT_LOGGED_IN)?,
+            _ => (),
+        }
         O::get_op(&mut self.operations)
     }
 
@@ -556,8 +600,9 @@ impl Session {
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
-            OpLoginStatus::Required
+        *O::login_status(&mut self.operations) = if needs_login {
+            self.operations.login_seq += 1;
+            OpLoginStatus::Required(self.operations.login_seq)
         } else {
             OpLoginStatus::NotRequired
         };
@@ -565,9 +610,11 @@ impl Session {
         O::set_op(&mut self.operations, op);
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the pending operation's login requirement as satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        if let Some(status) = self.operations.pending_login() {
+            *status = OpLoginStatus::LoginOk;
+        }
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
-- 
2.43.0


From 3a7522e696d9acb5ba7ac4558c0f1eee03634126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 026/111] fix: a verification refused for its signature length
 must terminate the operation

---
 src/fns/signing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..c7bed8f 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -387,6 +387,7 @@ fn verify(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let dlen = usize::try_from(data_len).map_err(|_| CKR_ARGUMENTS_BAD)?;
@@ -505,6 +506,7 @@ fn verify_final(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let signature: &mut [u8] =
-- 
2.43.0


From 38a5caf7e8f2f7250b2aed718fce2f1b8dddc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 027/111] fix: C_FindObjectsFinal without an active search must
 report CKR_OPERATION_NOT_INITIALIZED

---
 src/fns/objmgmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..d59339e 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -563,6 +563,7 @@ pub extern "C" fn fn_find_objects(
 fn find_objects_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
+    let _ = session.get_operation::<dyn SearchOperation>()?;
     session.cancel_operation::<dyn SearchOperation>()
 }
 
-- 
2.43.0


From 003ee359b0c11d88d3626195602f157cde724679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 028/111] fix: AES key unwrap of an empty message is refused

---
 src/ossl/aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index dc4e91c..535c8db 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1672,7 +1672,7 @@ impl Decryption for AesOperation {
                 }
             }
             CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
-                if cipher.len() % AES_KWP_BLOCK != 0 {
+                if cipher.len() == 0 || cipher.len() % AES_KWP_BLOCK != 0 {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
                 if self.blockctr != 0 {
-- 
2.43.0


From 52c764feb83fc9c9b6eb8d711869d8a20e33b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 029/111] fix: AES MACs of length zero are refused

A zero length MAC verifies for any data and any key. HMAC already refuses it.
---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 535c8db..0e3f99a 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2581,7 +2581,7 @@ impl AesCmacOperation {
             CKM_AES_CMAC_GENERAL => {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
@@ -2888,7 +2888,7 @@ impl AesMacOperation {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
 
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
-- 
2.43.0


From ef2ac664ad0b25e1063aad913f42e113919f48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 030/111] fix: keys derived by simple KDFs inherit the
 protection of the base key

---
 src/native/simplekdf.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..f5bef13 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -201,6 +201,25 @@ impl Derive for SimpleKDFOperation {
         let mut dkey =
             factory.as_key_factory()?.key_derive(tmpl.as_slice(), key)?;
 
+        if self.mech != CKM_CONCATENATE_BASE_AND_KEY {
+            /* the derived key exposes bytes of the base key, therefore it
+             * can never be less protected than the base key */
+            if base_key_info.sensitive {
+                dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, true))?;
+            }
+            if !base_key_info.extractable {
+                dkey.set_attr(Attribute::from_bool(CKA_EXTRACTABLE, false))?;
+            }
+            dkey.set_attr(Attribute::from_bool(
+                CKA_ALWAYS_SENSITIVE,
+                base_key_info.always_sensitive,
+            ))?;
+            dkey.set_attr(Attribute::from_bool(
+                CKA_NEVER_EXTRACTABLE,
+                base_key_info.never_extractable,
+            ))?;
+        }
+
         let other_data_len = match self.mech {
             CKM_CONCATENATE_BASE_AND_KEY => {
                 let another_key_info = match &self.key_info {
-- 
2.43.0


From e3aa078fde5d88e528d2ac5fa4c067c1042f52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 031/111] fix: CKM_EXTRACT_KEY_FROM_KEY handles byte aligned
 and huge offsets

---
 src/native/simplekdf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index f5bef13..01946c0 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -297,10 +297,9 @@ impl Derive for SimpleKDFOperation {
         if self.mech == CKM_EXTRACT_KEY_FROM_KEY {
             let bit_offset =
                 self.bit_offset.ok_or(CKR_MECHANISM_PARAM_INVALID)?;
-            let required_bits = keylen * 8;
             let available_bits = base_key_info.value.len() * 8;
-            if (required_bits > available_bits)
-                || (bit_offset + 7) / 8 > available_bits as CK_ULONG
+            if keylen > base_key_info.value.len()
+                || bit_offset > available_bits as CK_ULONG
             {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
@@ -363,9 +362,10 @@ impl Derive for SimpleKDFOperation {
                     let first_half = base_key_info.value
                         [(base_byte + i) % outlen]
                         << bit_shift;
-                    let second_half = base_key_info.value
-                        [(base_byte + i + 1) % outlen]
-                        >> (8 - bit_shift);
+                    let second_half = u16::from(
+                        base_key_info.value[(base_byte + i + 1) % outlen],
+                    ) >> (8 - bit_shift);
+                    let second_half = second_half as u8;
                     secret[i] = first_half | second_half;
                 }
             }
-- 
2.43.0


From ea505d50faf309aa72e0db373c6293ade27e51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 032/111] fix: the recommended AES key size uses all the
 available bytes

---
 src/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..38a8d0d 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -221,9 +221,9 @@ impl SecretKeyFactory for AesKeyFactory {
     fn recommend_key_size(&self, max: usize) -> Result<usize> {
         if max >= MAX_AES_SIZE_BYTES {
             Ok(MAX_AES_SIZE_BYTES)
-        } else if max > MID_AES_SIZE_BYTES {
+        } else if max >= MID_AES_SIZE_BYTES {
             Ok(MID_AES_SIZE_BYTES)
-        } else if max > MIN_AES_SIZE_BYTES {
+        } else if max >= MIN_AES_SIZE_BYTES {
             Ok(MIN_AES_SIZE_BYTES)
         } else {
             Err(CKR_KEY_SIZE_RANGE)?
-- 
2.43.0


From b1abeef5141d8ae8900f4340805bcccdb8dc8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 033/111] fix: PBKDF2 refuses an iteration count of zero

---
 src/pbkdf2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pbkdf2.rs b/src/pbkdf2.rs
index 8591709..9532f93 100644
--- a/src/pbkdf2.rs
+++ b/src/pbkdf2.rs
@@ -126,6 +126,9 @@ impl Mechanism for PBKDF2Mechanism {
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let iter = usize::try_from(params.iterations)?;
+        if iter == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         /* check early that we have key class and type defined */
         let factory =
-- 
2.43.0


From ba93ff9a350ef22941009df78926267d965fbf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 034/111] fix: SP 800-108 KDFs feed the DKM length in bits, in
 all its widths

---
 src/native/sp800_108.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 96db177..c694c46 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -203,14 +203,16 @@ impl Sp800Operation {
             CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS => klen,
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         } as u64;
+        /* SP 800-108 defines [L] as the length of the DKM in bits */
+        len = len.wrapping_mul(8);
         /* up to 64 bits */
         match param.bits {
             8 => {
-                len = len % maxsize!(8);
+                len = len & maxsize!(8);
                 op.mac_update(&[len as u8])
             }
             16 => {
-                len = len % maxsize!(16);
+                len = len & maxsize!(16);
                 let data = if param.le {
                     (len as u16).to_le_bytes()
                 } else {
@@ -219,7 +221,7 @@ impl Sp800Operation {
                 op.mac_update(&data)
             }
             24 => {
-                len = len % maxsize!(24);
+                len = len & maxsize!(24);
                 let (data, s, e) = if param.le {
                     ((len as u32).to_le_bytes(), 0, 3)
                 } else {
@@ -228,7 +230,7 @@ impl Sp800Operation {
                 op.mac_update(&data[s..e])
             }
             32 => {
-                len = len % maxsize!(32);
+                len = len & maxsize!(32);
                 let data = if param.le {
                     (len as u32).to_le_bytes()
                 } else {
@@ -237,34 +239,34 @@ impl Sp800Operation {
                 op.mac_update(&data)
             }
             40 => {
-                len = len % maxsize!(40);
+                len = len & maxsize!(40);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 5)
+                    (len.to_le_bytes(), 0, 5)
                 } else {
-                    ((len as u32).to_be_bytes(), 3, 8)
+                    (len.to_be_bytes(), 3, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             48 => {
-                len = len % maxsize!(48);
+                len = len & maxsize!(48);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 6)
+                    (len.to_le_bytes(), 0, 6)
                 } else {
-                    ((len as u32).to_be_bytes(), 2, 8)
+                    (len.to_be_bytes(), 2, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             56 => {
-                len = len % maxsize!(56);
+                len = len & maxsize!(56);
                 let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 7)
+                    (len.to_le_bytes(), 0, 7)
                 } else {
-                    ((len as u32).to_be_bytes(), 1, 8)
+                    (len.to_be_bytes(), 1, 8)
                 };
                 op.mac_update(&data[s..e])
             }
             64 => {
-                len = len % maxsize!(64);
+                len = len & maxsize!(64);
                 let data = if param.le {
                     (len as u64).to_le_bytes()
                 } else {
-- 
2.43.0


From d03272145e3f68f60a5731797f9a5d461047762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 035/111] fix: CKM_TLS_KDF refuses to derive a zero length key

---
 src/native/tlskdf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 89f65d2..6501e27 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -857,6 +857,9 @@ impl TLSKDFOperation {
             Ok(n) => n as usize,
             Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
         };
+        if dkmlen == 0 {
+            return Err(CKR_KEY_SIZE_RANGE)?;
+        }
 
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(true);
-- 
2.43.0


From 7783d88c73754c01fabb82009305dcbcca674070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 036/111] fix: a derived key without CKA_VALUE_LEN gets a size
 valid for its type

---
 src/misc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index cc9dca8..c4cc5b5 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -154,11 +154,18 @@ pub fn common_derive_key_object(
             if default_len == 0 {
                 return Err(CKR_TEMPLATE_INCOMPLETE)?;
             }
+            /* the default must be a valid size for the key type */
+            let factory = objfactories
+                .get_obj_factory_from_key_template(tmpl.as_slice())?;
+            let len = factory
+                .as_secret_key_factory()?
+                .recommend_key_size(default_len)
+                .map_err(|_| CKR_TEMPLATE_INCOMPLETE)?;
             obj.set_attr(Attribute::from_ulong(
                 CKA_VALUE_LEN,
-                CK_ULONG::try_from(default_len)?,
+                CK_ULONG::try_from(len)?,
             ))?;
-            default_len
+            len
         }
     };
     Ok((obj, value_len))
-- 
2.43.0


From 3394bbc67dbe81e79d12577b12c6917974c47d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 037/111] fix: CKM_AES_CBC_ENCRYPT_DATA keeps its own copy of
 the IV

---
 src/aes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 38a8d0d..bcb859d 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -537,7 +537,7 @@ impl Mechanism for AesMechanism {
 struct AesKDFOperation<'a> {
     mech: CK_MECHANISM_TYPE,
     finalized: bool,
-    iv: &'a [u8],
+    iv: Vec<u8>,
     data: &'a [u8],
     #[cfg(feature = "fips")]
     fips_approved: Option<bool>,
@@ -567,7 +567,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_ECB,
             finalized: false,
-            iv: &[],
+            iv: Vec::new(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
@@ -592,7 +592,7 @@ impl AesKDFOperation<'_> {
         Ok(AesKDFOperation {
             mech: CKM_AES_CBC,
             finalized: false,
-            iv: unsafe { std::slice::from_raw_parts(params.iv.as_ptr(), 16) },
+            iv: params.iv.to_vec(),
             data: unsafe {
                 std::slice::from_raw_parts(
                     params.pData,
-- 
2.43.0


From 9d5eb2cda2256dcc72ccd3faa34ddc641df9cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 038/111] fix: derivations refuse to produce a zero length
 secret key

---
 src/object/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..f60715e 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -440,6 +440,9 @@ pub trait SecretKeyFactory: KeyFactory {
     /// For example by checking the buffer length.
     fn set_key(&self, obj: &mut Object, key: Vec<u8>) -> Result<()> {
         let keylen = key.len();
+        if keylen == 0 {
+            return Err(CKR_KEY_SIZE_RANGE)?;
+        }
         obj.set_attr(Attribute::from_bytes(CKA_VALUE, key))?;
         self.set_key_len(obj, keylen)?;
         Ok(())
-- 
2.43.0


From bb799be158fef315af1c46f31da90eca58b9cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 039/111] fix: hash key derivation refuses key types longer
 than the digest

---
 src/hash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash.rs b/src/hash.rs
index 3e5666d..acb84e9 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -384,6 +384,9 @@ impl Derive for HashKDFOperation {
                         .as_secret_key_factory()?
                         .recommend_key_size(hashsize)?,
                 )?;
+                if keysize > CK_ULONG::try_from(hashsize)? {
+                    return Err(CKR_TEMPLATE_INCONSISTENT)?;
+                }
                 tmpl.add_ulong(CKA_VALUE_LEN, &keysize);
             }
         }
-- 
2.43.0


From 48d1017b065c1158a6236323612f0fc5d52f4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 040/111] fix: AES encrypt data derivation respects the length
 of the derived key

---
 src/aes.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index bcb859d..5d2c94b 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -652,6 +652,22 @@ impl Derive for AesKDFOperation<'_> {
             return Err(CKR_GENERAL_ERROR)?;
         }
 
+        /* the trailing part of the ciphertext is discarded if not needed */
+        let keylen = match obj.get_attr_as_ulong(CKA_VALUE_LEN) {
+            Ok(len) => usize::try_from(len)?,
+            Err(_) => {
+                factory.as_secret_key_factory()?.recommend_key_size(outsize)?
+            }
+        };
+        if keylen > outsize {
+            zeromem(dkm.as_mut_slice());
+            return Err(CKR_TEMPLATE_INCONSISTENT)?;
+        }
+        if keylen < outsize {
+            zeromem(&mut dkm[keylen..]);
+            dkm.truncate(keylen);
+        }
+
         factory.as_secret_key_factory()?.set_key(&mut obj, dkm)?;
 
         #[cfg(feature = "fips")]
-- 
2.43.0


From e0ab59df3c027e17ecf1a1debe90c446d5e22263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:28 +0000
Subject: [PATCH 041/111] fix: the value of a sensitive DH private key is
 sensitive

---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From ed2e3eb0ff00c5dbb17edc0d1d8d5d136e8b0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:28 +0000
Subject: [PATCH 042/111] fix: DH shared secrets with leading zeros are padded
 to the prime size

---
 ossl/src/derive.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/ossl/src/derive.rs b/ossl/src/derive.rs
index eb214b0..fe0d497 100644
--- a/ossl/src/derive.rs
+++ b/ossl/src/derive.rs
@@ -11,7 +11,7 @@ use crate::digest::{digest_to_string, DigestAlg};
 use crate::mac::{add_mac_alg_to_params, mac_to_digest_and_type, MacAlg};
 use crate::pkey::{EvpPkey, EvpPkeyCtx};
 use crate::{
-    cstr, trace_ossl, Error, ErrorKind, OsslContext, OsslParam,
+    cstr, trace_ossl, zeromem, Error, ErrorKind, OsslContext, OsslParam,
     OsslParamBuilder,
 };
 
@@ -931,31 +931,31 @@ impl FfdhDerive {
             return Err(Error::new(ErrorKind::OsslError));
         }
 
-        let mut outvec = Vec::new();
-        let outbuf_ptr = if output.len() >= outlen {
-            output.as_mut_ptr()
-        } else {
-            outvec.resize(outlen, 0);
-            outvec.as_mut_ptr()
-        };
-
+        let size = outlen;
+        let mut outvec = vec![0u8; size];
         let ret = unsafe {
-            EVP_PKEY_derive(self.ctx.as_mut_ptr(), outbuf_ptr, &mut outlen)
+            EVP_PKEY_derive(
+                self.ctx.as_mut_ptr(),
+                outvec.as_mut_ptr(),
+                &mut outlen,
+            )
         };
         if ret != 1 {
             trace_ossl!("EVP_PKEY_derive()");
             return Err(Error::new(ErrorKind::OsslError));
         }
 
-        let len = if outlen < output.len() {
-            outlen
-        } else {
-            output.len()
-        };
-        if outvec.len() > 0 {
-            output[0..len].copy_from_slice(&outvec[(outvec.len() - len)..]);
+        /* The shared secret is an octet string of the size of the prime but
+         * OpenSSL strips leading zeros by default, add them back. */
+        if outlen < size {
+            outvec[outlen..].fill(0);
+            outvec.rotate_right(size - outlen);
         }
 
+        let len = std::cmp::min(size, output.len());
+        output[..len].copy_from_slice(&outvec[(size - len)..]);
+        zeromem(outvec.as_mut_slice());
+
         Ok(len)
     }
 }
-- 
2.43.0


From df1d41ef8b87ac750727cd60649b9851c6e76b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 043/111] fix: set_key enforces the size defined for the key
 type

---
 src/object/key.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index f60715e..0a84b8a 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -612,6 +612,17 @@ impl KeyFactory for GenericSecretKeyFactory {
 }
 
 impl SecretKeyFactory for GenericSecretKeyFactory {
+    /// Helper to set a key that checks the length matches the size defined
+    /// for the key type, if any
+    fn set_key(&self, obj: &mut Object, key: Vec<u8>) -> Result<()> {
+        let keylen = key.len();
+        if keylen == 0 || (self.keysize != 0 && keylen != self.keysize) {
+            return Err(CKR_KEY_SIZE_RANGE)?;
+        }
+        obj.set_attr(Attribute::from_bytes(CKA_VALUE, key))?;
+        self.set_key_len(obj, keylen)
+    }
+
     /// Provides the recommended key size for this object if available,
     /// otherwise reflects back the provided default
     fn recommend_key_size(&self, default: usize) -> Result<usize> {
-- 
2.43.0


From f0c7435f1efad6dc42c276524e4558d7a2815a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 044/111] fix: ECDH and DH derived keys follow the attribute
 rules for derivation

---
 src/ossl/ecdh.rs | 10 +++-------
 src/ossl/ffdh.rs | 11 ++++-------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..e650ff1 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -7,11 +7,10 @@
 
 use std::borrow::Cow;
 
-use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_vec, zeromem};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -230,12 +229,9 @@ impl Derive for ECDHOperation {
             secret = output;
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret)?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory.as_secret_key_factory()?.set_key(&mut obj, secret)?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 0ba48de..1d989e2 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -7,11 +7,11 @@
 
 use std::fmt::Debug;
 
-use crate::attribute::{Attribute, CkAttrs};
+use crate::attribute::Attribute;
 use crate::error::{Error, Result};
 use crate::ffdh_groups::{get_group_name, DHGroupName};
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -228,12 +228,9 @@ impl Derive for FFDHOperation {
             }
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret.to_vec())?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory.as_secret_key_factory()?.set_key(&mut obj, secret.to_vec())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
-- 
2.43.0


From 60b614d5a627c6faeba004842fe1f1487f870359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 045/111] fix: ECDH and DH derivations check the type of the
 base key

---
 src/ossl/ecdh.rs | 5 +++++
 src/ossl/ffdh.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index e650ff1..f4f6852 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -142,6 +142,11 @@ impl Derive for ECDHOperation {
         }
         self.finalized = true;
 
+        match key.get_attr_as_ulong(CKA_KEY_TYPE)? {
+            CKK_EC | CKK_EC_MONTGOMERY => (),
+            _ => return Err(CKR_KEY_TYPE_INCONSISTENT)?,
+        }
+
         let mut pkey = privkey_from_object(key)?;
         let mut ecdh = EcdhDerive::new(osslctx(), &mut pkey)?;
 
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 1d989e2..88e3049 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -169,6 +169,10 @@ impl Derive for FFDHOperation {
         let factory =
             objectfactories.get_obj_factory_from_key_template(template)?;
 
+        if key.get_attr_as_ulong(CKA_KEY_TYPE)? != CKK_DH {
+            return Err(CKR_KEY_TYPE_INCONSISTENT)?;
+        }
+
         let mut pkey = privkey_from_object(key)?;
         let mut peer = pkey.make_peer(osslctx(), self.public.as_slice())?;
         let mut ffdh = FfdhDerive::new(osslctx(), &mut pkey)?;
-- 
2.43.0


From 9b3cd5342a58eb7778a9bce51b2bb456e1aa8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 046/111] fix: unwrapped keys report that they are not local
 and were exposed

---
 src/object/key.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 0a84b8a..3e1f68f 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -122,11 +122,16 @@ pub trait KeyFactory: ObjectFactory {
     ///
     /// Uses `internal_key_create()` with appropriate flags.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        /* the key material existed outside of the token */
+        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From dc393dae5c996add56e88918573e10ceee656e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:41 +0000
Subject: [PATCH 047/111] fix: unwrapping secret keys honors the key length of
 the template

---
 src/object/key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index 3e1f68f..1e275c9 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -399,6 +399,13 @@ pub trait SecretKeyFactory: KeyFactory {
                 return Err(e);
             }
         };
+        /* a key length in the template tells the key from the padding
+         * some wrapping mechanisms add */
+        let len = self.get_key_len(&obj);
+        if len != 0 && len < data.len() {
+            zeromem(&mut data[len..]);
+            data.truncate(len);
+        }
         self.set_key(&mut obj, data)?;
         Ok(obj)
     }
-- 
2.43.0


From 53ae7d070383b00d6a89e491e4fd1fca67bd1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 048/111] fix: wrapped Montgomery and Edwards keys use the
 encoding of RFC 8410

---
 src/ec/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 3c197a8..639dc25 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -274,7 +274,13 @@ pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
                     _ => return Err(CKR_GENERAL_ERROR)?,
                 }
             }
-            CKK_EC_EDWARDS | CKK_EC_MONTGOMERY => val.to_vec(),
+            /* RFC 8410, the key is a CurvePrivateKey OCTET STRING */
+            CKK_EC_EDWARDS | CKK_EC_MONTGOMERY => {
+                match asn1::write_single(&val.as_slice()) {
+                    Ok(p) => p,
+                    _ => return Err(CKR_GENERAL_ERROR)?,
+                }
+            }
             _ => return Err(CKR_GENERAL_ERROR)?,
         }
     };
@@ -300,6 +306,21 @@ pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
     ret
 }
 
+/// Extracts the key from the CurvePrivateKey OCTET STRING of RFC 8410
+///
+/// The bare key is accepted as well because that is what previous versions
+/// of the library produced.
+fn curve_private_key<'a>(
+    oid: &asn1::ObjectIdentifier,
+    data: &'a [u8],
+) -> Result<&'a [u8]> {
+    if data.len() == ec_key_size(oid)? {
+        return Ok(data);
+    }
+    asn1::parse_single::<&[u8]>(data)
+        .map_err(|_| CKR_WRAPPED_KEY_INVALID.into())
+}
+
 /// Common function to parse a private EC key from PKCS#8 encoded data
 pub fn import_from_wrapped(
     key_type: CK_KEY_TYPE,
@@ -354,11 +375,11 @@ pub fn import_from_wrapped(
             ecpkey.private_key.as_bytes()
         }
         CKK_EC_EDWARDS => match oid {
-            &ED25519_OID | &ED448_OID => pkeyval,
+            &ED25519_OID | &ED448_OID => curve_private_key(oid, pkeyval)?,
             _ => return Err(CKR_TEMPLATE_INCONSISTENT)?,
         },
         CKK_EC_MONTGOMERY => match oid {
-            &X25519_OID | &X448_OID => pkeyval,
+            &X25519_OID | &X448_OID => curve_private_key(oid, pkeyval)?,
             _ => return Err(CKR_TEMPLATE_INCONSISTENT)?,
         },
         _ => return Err(CKR_GENERAL_ERROR)?,
-- 
2.43.0


From 868b19e37dbc04df4dae7a76f57f0df02cfc469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 049/111] fix: unwrapping EC keys checks the size of the
 private value

---
 src/ec/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 639dc25..2a3783c 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -385,6 +385,13 @@ pub fn import_from_wrapped(
         _ => return Err(CKR_GENERAL_ERROR)?,
     };
 
+    /* an EC private value may come without its leading zeros */
+    let size = ec_key_size(oid)?;
+    match key_type {
+        CKK_EC if !value.is_empty() && value.len() <= size => (),
+        _ if value.len() == size => (),
+        _ => return Err(CKR_WRAPPED_KEY_INVALID)?,
+    }
     key.ensure_slice(CKA_VALUE, value)?;
 
     Ok(key)
-- 
2.43.0


From 5e60b092b5e1cd466a21fe52bf7ccf2ac7c63670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 050/111] fix: wrapped EC private values have the size of the
 curve

---
 src/ec/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 2a3783c..19b1c74 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -269,7 +269,14 @@ pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
         let val = key.get_attr_as_bytes(CKA_VALUE)?;
         match key_type {
             CKK_EC => {
-                match asn1::write_single(&ECPrivateKey::new_owned(val)?) {
+                /* RFC 5915, the octet string has the size of the curve */
+                let size = ec_key_size(&oid)?;
+                let mut padded = vec![0u8; size.saturating_sub(val.len())];
+                padded.extend_from_slice(val);
+                let der =
+                    asn1::write_single(&ECPrivateKey::new_owned(&padded)?);
+                zeromem(padded.as_mut_slice());
+                match der {
                     Ok(p) => p,
                     _ => return Err(CKR_GENERAL_ERROR)?,
                 }
-- 
2.43.0


From 62e752e564e9447980071c17350100b8554e42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 051/111] fix: templates can not set attributes only the
 library may set

The flags of attributes that generation, derivation and unwrapping do not
accept were required all at once, so none was ever refused. The OTP
parameters, that can be chosen on generation, are marked unchangeable.
---
 src/hotp.rs           |  4 ++--
 src/object/factory.rs |  7 ++++++-
 src/object/otp.rs     | 12 ++++++------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..d76997e 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -96,7 +96,7 @@ impl HOTPKeyFactory {
 
         /* override CKA_OTP_COUNTER to have 8 bytes of 0s as defval */
         let counter = attr_element!(
-            CKA_OTP_COUNTER; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
+            CKA_OTP_COUNTER; OAFlags::Defval; Attribute::from_bytes;
             val vec![0; 8]);
         match attributes
             .iter()
@@ -108,7 +108,7 @@ impl HOTPKeyFactory {
 
         /* override CKA_OTP_FORMAT to be settable only on creation */
         let format = attr_element!(
-            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong;
+            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong;
             val CK_OTP_FORMAT_DECIMAL);
         match attributes
             .iter()
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..b53c20e 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -129,6 +129,11 @@ impl ObjectAttr {
         self.flags.contains(val)
     }
 
+    /// Check if any of the specified flags is present on the ObjectAttr
+    pub fn is_any(&self, val: OAFlags) -> bool {
+        self.flags.intersects(val)
+    }
+
     /// Checks if the ObjectAttr has a default value
     pub fn has_default(&self) -> bool {
         self.flags.contains(OAFlags::Defval)
@@ -323,7 +328,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(unacceptable_flags) {
+                    if attr.is_any(unacceptable_flags) {
                         return Err(CKR_ATTRIBUTE_TYPE_INVALID)?;
                     }
                     /* duplicate? */
diff --git a/src/object/otp.rs b/src/object/otp.rs
index c4c0e03..b13f13d 100644
--- a/src/object/otp.rs
+++ b/src/object/otp.rs
@@ -17,19 +17,19 @@ pub trait OTPKeyFactory: SecretKeyFactory {
         self.add_common_secret_key_attrs();
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_FORMAT_DECIMAL));
+            CKA_OTP_FORMAT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val CK_OTP_FORMAT_DECIMAL));
         attrs.push(attr_element!(
-            CKA_OTP_LENGTH; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val 6));
+            CKA_OTP_LENGTH; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val 6));
         attrs.push(attr_element!(
             CKA_OTP_USER_FRIENDLY_MODE; OAFlags::Defval; Attribute::from_bool; val false));
         attrs.push(attr_element!(
-            CKA_OTP_CHALLENGE_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_CHALLENGE_REQUIREMENT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_TIME_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_TIME_REQUIREMENT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_COUNTER_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_COUNTER_REQUIREMENT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
-            CKA_OTP_PIN_REQUIREMENT; OAFlags::Defval | OAFlags::SettableOnlyOnCreate; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
+            CKA_OTP_PIN_REQUIREMENT; OAFlags::Defval | OAFlags::Unchangeable; Attribute::from_ulong; val CK_OTP_PARAM_IGNORED));
         attrs.push(attr_element!(
             CKA_OTP_COUNTER; OAFlags::Defval; Attribute::from_bytes; val vec![0u8; 8]));
         attrs.push(attr_element!(
-- 
2.43.0


From b92be1e80bf3ada44f6a60af3f161671f5df22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 052/111] fix: copies obey the attribute rules

The attributes only the library sets (CKA_TRUSTED, CKA_LOCAL, ...) could be
given when copying, while the allowed changes of CKA_SENSITIVE, CKA_COPYABLE
and the like were refused.
---
 src/object/factory.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index b53c20e..8379195 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -413,23 +413,30 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(OAFlags::Unchangeable) {
-                        if attr
-                            .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
-                        {
-                            let val =
-                                match origin.get_attr_as_bool(ck_attr.type_) {
-                                    Ok(a) => a,
-                                    Err(_) => false,
-                                };
-                            if val && !attr.is(OAFlags::ChangeToFalse) {
-                                return Err(CKR_ATTRIBUTE_READ_ONLY)?;
-                            }
-                            if !val && !attr.is(OAFlags::ChangeToTrue) {
-                                return Err(CKR_ATTRIBUTE_READ_ONLY)?;
-                            }
-                        }
-                        if !attr.is(OAFlags::ChangeOnCopy) {
+                    if attr.is(OAFlags::NeverSettable) {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
+                    if attr.is(OAFlags::Unchangeable)
+                        && !attr.is(OAFlags::ChangeOnCopy)
+                    {
+                        /* only the direction that is allowed for the
+                         * attribute, or a value that does not change */
+                        let same = match origin.get_attr(ck_attr.type_) {
+                            Some(a) => a.match_ck_attr(ck_attr),
+                            None => false,
+                        };
+                        let change =
+                            if attr.attribute.get_attrtype()
+                                == AttrType::BoolType
+                            {
+                                match ck_attr.to_bool()? {
+                                    true => attr.is(OAFlags::ChangeToTrue),
+                                    false => attr.is(OAFlags::ChangeToFalse),
+                                }
+                            } else {
+                                false
+                            };
+                        if !same && !change {
                             return Err(CKR_ATTRIBUTE_READ_ONLY)?;
                         }
                     }
-- 
2.43.0


From 291558134bc0694768e2dea459f2379af98d6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 053/111] fix: class, key type and key material can not be
 changed

C_SetAttributeValue and C_CopyObject could give a key another class (and so
make its value readable), another type, another value and another length.
---
 src/aes.rs            |  5 +++--
 src/hotp.rs           |  8 ++++----
 src/object/factory.rs |  2 +-
 src/object/key.rs     | 12 ++++++------
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 5d2c94b..b3f66a7 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -110,10 +110,11 @@ impl AesKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Defval | OAFlags::Sensitive
-            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
+            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate
+            | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate;
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
 
         factory.data.finalize();
diff --git a/src/hotp.rs b/src/hotp.rs
index d76997e..a0c408d 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -68,11 +68,11 @@ impl HOTPKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::Defval; Attribute::from_ulong;
-            val 20));
+            CKA_VALUE_LEN; OAFlags::Defval | OAFlags::Unchangeable;
+            Attribute::from_ulong; val 20));
 
         /* default to true CKA_PRIVATE, CKA_SIGN, CKA_VERIFY */
         let private = attr_element!(
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 8379195..0e8a640 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -270,7 +270,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
     fn add_common_object_attrs(&mut self) {
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CLASS; OAFlags::RequiredOnCreate;
+            CKA_CLASS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_UNIQUE_ID; OAFlags::NeverSettable | OAFlags::Unchangeable;
diff --git a/src/object/key.rs b/src/object/key.rs
index 1e275c9..cd4d1fb 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -25,8 +25,8 @@ pub trait KeyFactory: ObjectFactory {
         self.add_common_storage_attrs(private);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_KEY_TYPE; OAFlags::RequiredOnCreate; Attribute::from_ulong;
-            val CK_UNAVAILABLE_INFORMATION));
+            CKA_KEY_TYPE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            Attribute::from_ulong; val CK_UNAVAILABLE_INFORMATION));
         attrs.push(attr_element!(
             CKA_ID; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
@@ -543,11 +543,11 @@ impl GenericSecretKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate; Attribute::from_bytes;
-            val Vec::new()));
+            CKA_VALUE_LEN; OAFlags::RequiredOnGenerate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
 
         /* default to private */
         let private = attr_element!(
-- 
2.43.0


From 4f78f818f9e6cebb7f2d30fd31f301917568c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 054/111] fix: CKA_ALWAYS_AUTHENTICATE, CKA_PUBLIC_KEY_INFO and
 CKA_TRUSTED of certificates can not be changed at will

---
 src/object/certs.rs |  4 ++--
 src/object/key.rs   | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/object/certs.rs b/src/object/certs.rs
index 9d47268..4f5809a 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -27,8 +27,8 @@ pub trait CertFactory: ObjectFactory {
             CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
-            CKA_TRUSTED; OAFlags::Defval; Attribute::from_bool;
-            val false));
+            CKA_TRUSTED; OAFlags::Defval | OAFlags::ChangeToFalse;
+            Attribute::from_bool; val false));
         attrs.push(attr_element!(
             CKA_CERTIFICATE_CATEGORY; OAFlags::Defval;
             Attribute::from_ulong;
diff --git a/src/object/key.rs b/src/object/key.rs
index cd4d1fb..680cc4d 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -248,8 +248,8 @@ pub trait PubKeyFactory: KeyFactory {
             CKA_WRAP_TEMPLATE; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
         attrs.push(attr_element!(
-            CKA_PUBLIC_KEY_INFO; OAFlags::empty(); Attribute::from_bytes;
-            val Vec::new()));
+            CKA_PUBLIC_KEY_INFO; OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attrs.push(attr_element!(
             CKA_ENCAPSULATE; OAFlags::Defval; Attribute::from_bool;
             val false));
@@ -307,11 +307,11 @@ pub trait PrivKeyFactory: KeyFactory {
             CKA_UNWRAP_TEMPLATE; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
         attrs.push(attr_element!(
-            CKA_ALWAYS_AUTHENTICATE; OAFlags::Defval; Attribute::from_bool;
-            val false));
+            CKA_ALWAYS_AUTHENTICATE; OAFlags::Defval | OAFlags::Unchangeable;
+            Attribute::from_bool; val false));
         attrs.push(attr_element!(
-            CKA_PUBLIC_KEY_INFO; OAFlags::empty(); Attribute::from_bytes;
-            val Vec::new()));
+            CKA_PUBLIC_KEY_INFO; OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attrs.push(attr_element!(
             CKA_DERIVE_TEMPLATE; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
-- 
2.43.0


From 0d06d95f449184d701516a49bd857edfa8894eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 055/111] fix: CKA_DESTROYABLE can not be reset

---
 src/object/factory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 0e8a640..997a189 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -297,8 +297,8 @@ pub trait ObjectFactory: Debug + Send + Sync {
             CKA_COPYABLE; OAFlags::Defval | OAFlags::ChangeToFalse;
             Attribute::from_bool; val true));
         attrs.push(attr_element!(
-            CKA_DESTROYABLE; OAFlags::Defval; Attribute::from_bool;
-            val true));
+            CKA_DESTROYABLE; OAFlags::Defval | OAFlags::ChangeToFalse;
+            Attribute::from_bool; val true));
     }
 
     /// This function implements the creation/import/derivation of any object
-- 
2.43.0


From cd5dca01536f2dc155013be8154b2f682e78b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 056/111] fix: setting attributes of a session object applies
 all or none

---
 src/object/factory.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 997a189..5aebaf2 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -541,9 +541,13 @@ pub trait ObjectFactory: Debug + Send + Sync {
         /* first check that all attributes can be changed */
         self.check_set_attributes(template)?;
 
-        /* if checks clear out, apply changes */
+        /* if checks clear out, apply changes, all or none */
+        let mut attrs = Vec::with_capacity(template.len());
         for ck_attr in template {
-            obj.set_attr(Attribute::from_ck_attr(ck_attr)?)?;
+            attrs.push(Attribute::from_ck_attr(ck_attr)?);
+        }
+        for attr in attrs {
+            obj.set_attr(attr)?;
         }
 
         Ok(())
-- 
2.43.0


From c278f324274916230313b83da9ef3e4269f97ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 057/111] fix: read-only sessions can not create token objects
 by copying

---
 src/fns/objmgmt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index d59339e..a85fb4f 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -147,6 +147,13 @@ fn copy_object(
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
 
+    if !session.is_writable() && !tmpl.iter().any(|a| a.type_ == CKA_TOKEN) {
+        /* the copy of a token object is a token object by default */
+        if token.get_object_by_handle(o_handle)?.is_token() {
+            return Err(CKR_SESSION_READ_ONLY)?;
+        }
+    }
+
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
 
-- 
2.43.0


From ecb5f60690d164a9f222da26aaca046ebe7b3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 058/111] fix: the type of a certificate can not be changed

---
 src/object/certs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/certs.rs b/src/object/certs.rs
index 4f5809a..5ea7519 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -24,7 +24,7 @@ pub trait CertFactory: ObjectFactory {
         self.add_common_storage_attrs(false);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
+            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_TRUSTED; OAFlags::Defval | OAFlags::ChangeToFalse;
-- 
2.43.0


From d9b671a252f1d737d25dac1166985b347f7c7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 059/111] fix: mechanism lists of odd sizes are refused

---
 src/attribute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index f81434f..a935e90 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -615,7 +615,11 @@ impl Attribute {
                 Ok(Attribute::from_bytes(attr.type_, attr.to_buf()?))
             }
             AttrType::UlongArrayType => {
-                Ok(Attribute::from_ulong_bytevec(attr.type_, attr.to_buf()?))
+                let buf = attr.to_buf()?;
+                if buf.len() % std::mem::size_of::<CK_ULONG>() != 0 {
+                    return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+                }
+                Ok(Attribute::from_ulong_bytevec(attr.type_, buf))
             }
             AttrType::DateType => {
                 Ok(Attribute::from_date(attr.type_, attr.to_date()?))
-- 
2.43.0


From 201c3cab95df66d946e0077d212000392e59c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 060/111] fix: unavailable information reads back from NSS
 databases

---
 src/storage/nssdb/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 1302656..fd1de42 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -545,8 +545,11 @@ impl NSSStorage {
                                     return Err(CKR_ATTRIBUTE_VALUE_INVALID)?
                                 }
                             };
-                            let number = u32::from_be_bytes(bytes);
-                            number as CK_ULONG
+                            match u32::from_be_bytes(bytes) {
+                                /* see num_to_val() */
+                                u32::MAX => CK_UNAVAILABLE_INFORMATION,
+                                number => number as CK_ULONG,
+                            }
                         };
                         Attribute::from_attr_slice(
                             cols[i],
-- 
2.43.0


From 6ab4fad6252a5e81cb58ae774b955e1737488f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 061/111] fix: C_DestroyObject reports that an object could not
 be destroyed

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..cf758e6 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -764,7 +764,7 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                self.storage.remove(&self.facilities, o_handle)?;
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From 46dd929c64f58c3eba169fbd7218ae98dfbbc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 062/111] fix: searches of NSS tokens do not depend on the
 template order

---
 src/storage/nssdb/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index fd1de42..a89aadd 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -687,6 +687,8 @@ impl NSSStorage {
                     }
                 }
             }
+        }
+        for attr in template {
             /* In NSSDB sensitive attributes are encrypted, so we can check
              * if the template is searching for any of the encrypted
              * attributes and if so just fail immediately.
-- 
2.43.0


From c7f53b777be5ad02d28a413ebb23e728ce69d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 063/111] fix: encrypted attributes of NSS tokens are not
 returned in place of their values

---
 src/storage/nssdb/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index a89aadd..a7f9cb1 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1165,6 +1165,14 @@ impl Storage for NSSStorage {
         }
         let mut obj =
             self.fetch_by_nssid(&table, nssobjid, attrs.as_slice())?;
+        if !self.keys.available() && table == NSS_PRIVATE_TABLE {
+            /* never hand out the encrypted form as if it was the value */
+            for a in ALL_ATTRIBUTES.iter().filter(|a| a.sensitive) {
+                if obj.get_attr(a.attr_type).is_some() {
+                    return Err(CKR_USER_NOT_LOGGED_IN)?;
+                }
+            }
+        }
         if self.keys.available() {
             if table == NSS_PRIVATE_TABLE {
                 for attr_info in ALL_ATTRIBUTES.iter().filter(|a| a.sensitive) {
-- 
2.43.0


From ff8e85e0b1da5b0ad1026eb59ee1a921be2854fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 064/111] fix: truncated signatures of NSS attributes are not
 accepted

---
 src/storage/nssdb/ci.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 9173992..574d14f 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -522,6 +522,10 @@ fn hmac_verify(
     plaintext: &[u8],
     signature: &[u8],
 ) -> Result<()> {
+    /* a shorter signature would be far easier to forge */
+    if signature.len() != SHA256_LEN {
+        return Err(CKR_SIGNATURE_LEN_RANGE)?;
+    }
     let siglen = CK_ULONG::try_from(signature.len())?;
     let ck_mech = CK_MECHANISM {
         mechanism: mechanism,
-- 
2.43.0


From 4bb31fde883876589cc20ad96c159bd7258585e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 065/111] fix: NSS tokens query each attribute once and never
 ones they do not store

---
 src/storage/nssdb/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index a7f9cb1..3459c86 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1133,7 +1133,18 @@ impl Storage for NSSStorage {
 
         /* the values don't matter, only the type */
         let dnm: CK_ULONG = 0;
-        let mut attrs = CkAttrs::from(attributes);
+        /* unknown attributes and those that have no column can not be
+         * queried from a DB, and each one may be queried only once */
+        let mut wanted = Vec::<CK_ATTRIBUTE>::with_capacity(attributes.len());
+        for a in attributes {
+            if is_db_attribute(a.type_)
+                && !is_skippable_attribute(a.type_)
+                && !wanted.iter().any(|w| w.type_ == a.type_)
+            {
+                wanted.push(*a);
+            }
+        }
+        let mut attrs = CkAttrs::from(wanted.as_slice());
         /* we need CKA_CLASS and CKA_KEY_TYPE to be present in
          * order to get sensitive attrs from the factory later */
         if attributes.len() != 0 {
@@ -1145,16 +1156,6 @@ impl Storage for NSSStorage {
             attrs.add_missing_ulong(CKA_CERTIFICATE_TYPE, &dnm);
             attrs.add_missing_ulong(CKA_EXTRACTABLE, &dnm);
             attrs.add_missing_ulong(CKA_SENSITIVE, &dnm);
-            /* we can not query a DB for these */
-            for a_info in ALL_ATTRIBUTES.iter().filter(|a| a.skippable) {
-                let _ = attrs.remove_ulong(a_info.attr_type);
-            }
-            /* remove unknown attributes from query */
-            for a in attributes {
-                if !is_db_attribute(a.type_) {
-                    let _ = attrs.remove_ulong(a.type_);
-                }
-            }
             #[cfg(feature = "fips")]
             {
                 /* We need these to be able to derive object validation flag */
-- 
2.43.0


From 0347279ed08106b79ec979f3d523ae5225ea97af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 066/111] fix: objects of NSS tokens can be destroyed

---
 src/storage/nssdb/mod.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 3459c86..416a7da 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1432,13 +1432,38 @@ impl Storage for NSSStorage {
         Ok(result)
     }
 
-    /// Removes an object by handle (currently not supported for NSS DB).
+    /// Removes an object by handle.
+    ///
+    /// Parses the internal NSS ID and deletes the object together with the
+    /// signatures of its authenticated attributes within a transaction.
     fn remove(
         &mut self,
-        _facilities: &TokenFacilities,
-        _handle: CK_OBJECT_HANDLE,
+        facilities: &TokenFacilities,
+        handle: CK_OBJECT_HANDLE,
     ) -> Result<()> {
-        Err(CKR_FUNCTION_NOT_SUPPORTED)?
+        let nssid = match facilities.handles.get(handle) {
+            Some(id) => id,
+            None => return Err(CKR_OBJECT_HANDLE_INVALID)?,
+        };
+        let (table, nssobjid) = nss_id_parse(nssid)?;
+        let dbtype = match table.as_str() {
+            NSS_PUBLIC_TABLE => "cert",
+            NSS_PRIVATE_TABLE => "key",
+            _ => return Err(CKR_GENERAL_ERROR)?,
+        };
+
+        let mut conn = self.conn.lock()?;
+        let mut tx = conn.transaction()?;
+        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        let sql = format!("DELETE FROM {} WHERE id = ?", table);
+        if tx.execute(&sql, params![nssobjid])? != 1 {
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
+        if !self.config.no_key_db {
+            let sigs = format!("sig_{}_{:08x}_%", dbtype, nssobjid);
+            tx.execute("DELETE FROM metaData WHERE id LIKE ?", params![sigs])?;
+        }
+        Ok(tx.commit()?)
     }
 
     /// Loads the token info (derived from configuration and DB state).
-- 
2.43.0


From 666d22188b813cea220e649459722e90d114343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 067/111] fix: the SO has no access to private objects

---
 src/token.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index cf758e6..d8d3051 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -329,6 +329,12 @@ impl Token {
         }
     }
 
+    /// Checks if private objects are accessible, only the normal User may
+    /// see them.
+    fn private_access(&self) -> bool {
+        self.is_logged_in(CKU_USER)
+    }
+
     /// Updates token flags related to PIN status (locked, final try, count low).
     fn update_auth_flags(&mut self, user_type: CK_USER_TYPE, flags: CK_FLAGS) {
         match user_type {
@@ -546,8 +552,7 @@ impl Token {
             Some(o) => o.clone(),
             None => self.storage.fetch(&self.facilities, o_handle, &[])?,
         };
-        if !self.is_logged_in(KRY_UNSPEC) && obj.is_token() && obj.is_private()
-        {
+        if !self.private_access() && obj.is_token() && obj.is_private() {
             return Err(CKR_USER_NOT_LOGGED_IN)?;
         }
         if obj.is_sensitive() {
@@ -576,7 +581,9 @@ impl Token {
     ) -> Result<CK_OBJECT_HANDLE> {
         let handle: CK_OBJECT_HANDLE;
         if obj.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.is_logged_in(KRY_UNSPEC)
+                || (obj.is_private() && !self.private_access())
+            {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
             handle = self.storage.store(&mut self.facilities, obj)?;
@@ -725,7 +732,9 @@ impl Token {
         let object = self.facilities.factories.create(template)?;
 
         if object.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.is_logged_in(KRY_UNSPEC)
+                || (object.is_private() && !self.private_access())
+            {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
 
@@ -783,7 +792,7 @@ impl Token {
         o_handle: CK_OBJECT_HANDLE,
         template: &mut [CK_ATTRIBUTE],
     ) -> Result<()> {
-        let is_logged = self.is_logged_in(KRY_UNSPEC);
+        let is_logged = self.private_access();
 
         /* value does not matter, only type does */
         let dnm: CK_BBOOL = CK_FALSE;
@@ -888,7 +897,7 @@ impl Token {
             _ => {
                 let o =
                     self.storage.fetch(&mut self.facilities, o_handle, &[])?;
-                if !self.is_logged_in(KRY_UNSPEC) && o.is_private() {
+                if !self.private_access() && o.is_private() {
                     return Err(CKR_USER_NOT_LOGGED_IN)?;
                 }
                 Cow::Owned(o)
@@ -926,7 +935,7 @@ impl Token {
             }
         }
 
-        if !self.is_logged_in(KRY_UNSPEC) {
+        if !self.private_access() {
             tmpl.add_owned_bool(CKA_PRIVATE, CK_FALSE)?;
         }
 
-- 
2.43.0


From 10724494bc543a884079b55128b582810162251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 068/111] fix: C_GetObjectSize does not reveal private objects

---
 src/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index d8d3051..d723612 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -878,6 +878,10 @@ impl Token {
                 &[],
             )?),
         };
+        if !self.private_access() && obj.is_token() && obj.is_private() {
+            /* do not reveal if the object exists or not */
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
         obj.rough_size()
     }
 
-- 
2.43.0


From 8bf3b60e1c2317649b72d112aacfd2f5c6abbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 069/111] fix: values of unextractable keys can not be probed
 by searching

---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..d96be53 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index d723612..4c2b627 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -928,7 +928,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From 09f37ce36052f584f1a97abbebbeee9f04e8a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 070/111] fix: a search for a number too big to be stored
 matches nothing

---
 src/storage/nssdb/mod.rs | 8 +++++++-
 src/storage/sqlite.rs    | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 416a7da..54bbad0 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -740,7 +740,13 @@ impl NSSStorage {
                 query.params.push(ValueRef::from(val).into());
             } else {
                 query.params.push(match atype {
-                    AttrType::NumType => num_to_val(template[idx].to_ulong()?)?,
+                    AttrType::NumType => {
+                        match num_to_val(template[idx].to_ulong()?) {
+                            Ok(v) => v,
+                            /* numbers that can't be stored match no object */
+                            Err(_) => return Ok(None),
+                        }
+                    }
                     _ => Value::from(template[idx].to_buf()?),
                 });
             }
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index da54f1b..c646c42 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -480,7 +480,11 @@ impl StorageRaw for SqliteStorage {
             search_params.push(Value::from(u32::try_from(a.type_)?));
             search_params.push(match AttrType::attr_id_to_attrtype(a.type_)? {
                 AttrType::BoolType => Value::from(a.to_bool()?),
-                AttrType::NumType => Self::num_to_val(a.to_ulong()?)?,
+                AttrType::NumType => match Self::num_to_val(a.to_ulong()?) {
+                    Ok(v) => v,
+                    /* numbers that can't be stored match no object */
+                    Err(_) => return Ok(Vec::<Object>::new()),
+                },
                 AttrType::StringType => Value::from(a.to_string()?),
                 AttrType::BytesType => Value::from(a.to_buf()?),
                 AttrType::UlongArrayType => Value::from({
-- 
2.43.0


From cfe3ede57a8d86ddbe42834c1a9851247408b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 071/111] fix: readable key values of SQLite tokens can be
 searched for

---
 src/object/factory.rs |  7 +++++++
 src/storage/format.rs | 48 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 5aebaf2..d94009b 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -929,6 +929,13 @@ impl ObjectFactories {
         Ok(())
     }
 
+    /// Reports whether an attribute is sensitive for any type of object
+    pub fn is_sensitive_type(&self, ck_type: CK_ATTRIBUTE_TYPE) -> bool {
+        self.factories
+            .values()
+            .any(|f| f.get_data().get_sensitive().contains(&ck_type))
+    }
+
     /// Fills the template with the specified attributes from the provided
     /// object. Ensures the attribute are valid and can be returned. If the
     /// object is not extractable and a sensitive attribute is requested an
diff --git a/src/storage/format.rs b/src/storage/format.rs
index d96be53..25f1ac3 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -237,6 +237,42 @@ impl StdStorageFormat {
     }
 }
 
+impl StdStorageFormat {
+    /// Matches attributes that may be stored encrypted on this object.
+    fn match_secret(
+        &self,
+        facilities: &TokenFacilities,
+        uid: &String,
+        obj: &Object,
+        template: &[CK_ATTRIBUTE],
+    ) -> bool {
+        for ck_attr in template {
+            let attr = match obj.get_attr(ck_attr.type_) {
+                Some(a) => a,
+                None => return false,
+            };
+            let encrypted = match facilities.factories.get_object_factory(obj) {
+                Ok(f) => f.get_data().get_sensitive().contains(&ck_attr.type_),
+                Err(_) => return false,
+            };
+            let matches = if encrypted {
+                match self.aci.decrypt_value(facilities, uid, attr.get_value())
+                {
+                    Ok(plain) => Attribute::from_bytes(ck_attr.type_, plain)
+                        .match_ck_attr(ck_attr),
+                    Err(_) => false,
+                }
+            } else {
+                attr.match_ck_attr(ck_attr)
+            };
+            if !matches {
+                return false;
+            }
+        }
+        true
+    }
+}
+
 impl Storage for StdStorageFormat {
     /// Opens the underlying raw storage and populates token PIN flags.
     fn open(&mut self) -> Result<StorageTokenInfo> {
@@ -427,7 +463,14 @@ impl Storage for StdStorageFormat {
         facilities: &mut TokenFacilities,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Vec<CK_OBJECT_HANDLE>> {
-        let mut objects = self.store.search(template)?;
+        /* values that are stored encrypted can only be compared after they
+         * have been decrypted */
+        let (secret, clear): (Vec<CK_ATTRIBUTE>, Vec<CK_ATTRIBUTE>) =
+            template.iter().partition(|a| {
+                self.aci.encrypts()
+                    && facilities.factories.is_sensitive_type(a.type_)
+            });
+        let mut objects = self.store.search(&clear)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
             if obj.is_sensitive() || !obj.is_extractable() {
@@ -438,6 +481,9 @@ impl Storage for StdStorageFormat {
                 }
             }
             if let Ok(uid) = obj.get_attr_as_string(CKA_UNIQUE_ID) {
+                if !self.match_secret(facilities, &uid, &obj, &secret) {
+                    continue;
+                }
                 /* do not return internal objects */
                 if let Ok(numuid) = uid.parse::<usize>() {
                     if numuid < 10 {
-- 
2.43.0


From 2563a945897275c6877e564775c15d8e906e7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 072/111] fix: public keys carry no attributes of private keys

---
 src/object/key.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index 680cc4d..fe7c715 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -503,6 +503,11 @@ pub fn default_key_attributes(
     key.set_attr(Attribute::from_bool(CKA_LOCAL, true))?;
     key.set_attr(Attribute::from_ulong(CKA_KEY_GEN_MECHANISM, mech))?;
 
+    if key.get_class() == CKO_PUBLIC_KEY {
+        /* the following attributes do not apply to public keys */
+        return Ok(());
+    }
+
     let extractable = match key.get_attr_as_bool(CKA_EXTRACTABLE) {
         Ok(b) => b,
         _ => true,
-- 
2.43.0


From b3c560ee97a294751642ee500738b47b6d37aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 073/111] fix: a search for an attribute NSS does not store
 matches nothing

---
 src/storage/nssdb/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 54bbad0..e34d1d3 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -688,6 +688,13 @@ impl NSSStorage {
                 }
             }
         }
+        /* attributes that have no column match no object */
+        if template
+            .iter()
+            .any(|a| !is_db_attribute(a.type_) || is_skippable_attribute(a.type_))
+        {
+            return Ok(None);
+        }
         for attr in template {
             /* In NSSDB sensitive attributes are encrypted, so we can check
              * if the template is searching for any of the encrypted
-- 
2.43.0


From 1c3e1e6156d186c174308f91a3b67aefca61aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 074/111] fix: changing the PIN of an NSS token re-encrypts its
 objects

---
 src/storage/nssdb/mod.rs | 167 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 155 insertions(+), 12 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index e34d1d3..086b1d3 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -165,6 +165,20 @@ struct NSSSearchQuery {
     params: Vec<Value>,
 }
 
+/// Internal struct to hold the values of an object protected with new keys.
+struct NSSRekeyed {
+    /// The table the object is stored in.
+    table: &'static str,
+    /// The type used to name the signatures of the object.
+    dbtype: &'static str,
+    /// The numeric id of the object.
+    nssobjid: u32,
+    /// The re-encrypted values of sensitive attributes.
+    values: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>,
+    /// The new signatures of authenticated attributes.
+    signatures: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>,
+}
+
 /// Implements the `Storage` trait using NSS database files.
 #[derive(Debug)]
 pub struct NSSStorage {
@@ -874,11 +888,131 @@ impl NSSStorage {
         Ok(())
     }
 
-    /// Saves the password check entry (salt and encrypted data) to metadata.
-    fn save_password(&mut self, item1: &[u8], item2: &[u8]) -> Result<()> {
+    /// Produces the updates that move all the encrypted attributes and all the
+    /// signatures of authenticated attributes over to a new set of keys.
+    fn rekey_objects(
+        &self,
+        facilities: &TokenFacilities,
+        newkeys: &KeysWithCaching,
+    ) -> Result<Vec<NSSRekeyed>> {
+        let mut result = Vec::<NSSRekeyed>::new();
+        for (table, dbtype, present) in [
+            (NSS_PUBLIC_TABLE, "cert", !self.config.no_cert_db),
+            (NSS_PRIVATE_TABLE, "key", !self.config.no_key_db),
+        ] {
+            if !present {
+                continue;
+            }
+            let private = table == NSS_PRIVATE_TABLE;
+            /* the values don't matter, only the type */
+            let dnm: CK_ULONG = 0;
+            let mut attrs = CkAttrs::new();
+            attrs.add_ulong(CKA_CLASS, &dnm);
+            for a in ALL_ATTRIBUTES.iter() {
+                if (a.authenticated || (private && a.sensitive))
+                    && self.cols.contains(&a.attr_type)
+                {
+                    attrs.add_missing_ulong(a.attr_type, &dnm);
+                }
+            }
+            let query = format!("SELECT ALL id FROM {}", table);
+            let ids = Self::search_with_params(
+                &mut self.conn.lock()?,
+                &query,
+                Vec::<Value>::new(),
+                table,
+            )?;
+            for id in &ids {
+                let (_, nssobjid) = nss_id_parse(id)?;
+                let obj =
+                    self.fetch_by_nssid(table, nssobjid, attrs.as_slice())?;
+                let mut rekeyed = NSSRekeyed {
+                    table: table,
+                    dbtype: dbtype,
+                    nssobjid: nssobjid,
+                    values: Vec::new(),
+                    signatures: Vec::new(),
+                };
+                for attr in obj.get_attributes() {
+                    let typ = attr.get_type();
+                    let value = attr.get_value().as_slice();
+                    if is_sensitive_attribute(typ) {
+                        if value.len() == 0 {
+                            continue;
+                        }
+                        let mut plain =
+                            decrypt_data(facilities, &self.keys, value)?;
+                        let encval = encrypt_data(
+                            facilities,
+                            newkeys,
+                            NSS_MP_PBE_ITERATION_COUNT,
+                            plain.as_slice(),
+                        );
+                        zeromem(plain.as_mut_slice());
+                        rekeyed.values.push((typ, encval?));
+                        continue;
+                    }
+                    let sdbtype = u32::try_from(typ)?;
+                    let signature =
+                        match self.fetch_signature(dbtype, nssobjid, typ) {
+                            Ok(s) => s,
+                            Err(e) => match e.rv() {
+                                CKR_OBJECT_HANDLE_INVALID => continue,
+                                _ => return Err(e),
+                            },
+                        };
+                    check_signature(
+                        facilities,
+                        &self.keys,
+                        value,
+                        signature.as_slice(),
+                        nssobjid,
+                        sdbtype,
+                    )?;
+                    let sig = make_signature(
+                        facilities,
+                        newkeys,
+                        value,
+                        nssobjid,
+                        sdbtype,
+                        NSS_MP_PBE_ITERATION_COUNT,
+                    )?;
+                    rekeyed.signatures.push((typ, sig));
+                }
+                result.push(rekeyed);
+            }
+        }
+        Ok(result)
+    }
+
+    /// Saves the password check entry (salt and encrypted data) to metadata,
+    /// together with all the objects that had to be rekeyed.
+    fn save_password(
+        &mut self,
+        item1: &[u8],
+        item2: &[u8],
+        rekeyed: &[NSSRekeyed],
+    ) -> Result<()> {
         let mut conn = self.conn.lock()?;
         let mut tx = conn.transaction()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        for r in rekeyed {
+            for (typ, val) in &r.values {
+                tx.execute(
+                    &format!("UPDATE {} SET a{:x}=? WHERE id=?", r.table, typ),
+                    params![val, r.nssobjid],
+                )?;
+            }
+            for (typ, sig) in &r.signatures {
+                Self::store_signature(
+                    &mut tx,
+                    r.dbtype,
+                    r.nssobjid,
+                    *typ,
+                    sig.as_slice(),
+                )?;
+            }
+        }
         Self::save_metadata(&mut tx, "password", item1, item2)?;
         tx.commit()?;
         Ok(())
@@ -1569,9 +1703,9 @@ impl Storage for NSSStorage {
     /// Sets the user PIN.
     ///
     /// Derives a new KEK from the PIN+new salt, re-encrypts the password check
-    /// value, and potentially re-encrypts all sensitive/authenticated
-    /// attributes (FIXME).  Updates the stored salt and encrypted password
-    /// check value. Clears key cache.
+    /// value, and re-encrypts/re-signs all sensitive/authenticated attributes.
+    /// Updates the stored salt and encrypted password check value in the same
+    /// transaction. Replaces the key cache.
     fn set_user_pin(
         &mut self,
         facilities: &TokenFacilities,
@@ -1602,16 +1736,25 @@ impl Storage for NSSStorage {
         let mut encdata =
             encrypt_data(facilities, &newkeys, iterations, NSS_PASS_CHECK)?;
 
-        /* FIXME: need to re-encode all encrypted/integrity protected attributes */
+        /* everything protected with the old keys must follow the new pin */
+        let logged_in = self.keys.available();
+        let rekeyed = if logged_in {
+            self.rekey_objects(facilities, &newkeys)?
+        } else {
+            Vec::new()
+        };
+
+        let result = self.save_password(&salt, encdata.as_slice(), &rekeyed);
+        zeromem(encdata.as_mut_slice());
+        result?;
 
         /* now that the pin has changed all cached keys are invalid, replace the lot */
         self.keys = newkeys;
-        /* changing the pin does not leave the token logged in */
-        self.keys.unset_key();
-
-        let result = self.save_password(&salt, encdata.as_slice());
-        zeromem(encdata.as_mut_slice());
-        result
+        if !logged_in {
+            /* changing the pin does not leave the token logged in */
+            self.keys.unset_key();
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 86b1d1b1a0d14a81298421b129dc7b5484dcaf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 075/111] fix: new PINs must be within the advertised length
 bounds

---
 src/fns/stmgmt.rs        |  3 +++
 src/storage/mod.rs       |  4 ++++
 src/storage/nssdb/mod.rs |  5 +++++
 src/token.rs             | 14 ++++++++++++++
 4 files changed, 26 insertions(+)

diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index 87301d1..c6dca44 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -260,6 +260,7 @@ fn init_token(
             CKR_PIN_INCORRECT => Err(CKR_PIN_INCORRECT)?,
             CKR_PIN_INVALID => Err(CKR_PIN_INVALID)?,
             CKR_PIN_EXPIRED => Err(CKR_PIN_EXPIRED)?,
+            CKR_PIN_LEN_RANGE => Err(CKR_PIN_LEN_RANGE)?,
             _ => Err(CKR_GENERAL_ERROR)?,
         },
     }
@@ -303,6 +304,7 @@ fn init_pin(
 
     let vpin = unsafe { bytes_to_slice(pin as *const u8, pin_len as usize) };
 
+    token.check_pin_len(&vpin)?;
     token.set_pin(CKU_USER, &vpin, &vec![0u8; 0])
 }
 
@@ -352,6 +354,7 @@ fn set_pin(
 
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+    token.check_pin_len(&vpin)?;
     let do_logout = if token.is_logged_in(KRY_UNSPEC) {
         false
     } else {
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7a09190..a12f49f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -123,6 +123,10 @@ pub trait Storage: Debug + Send + Sync {
     ) -> Result<()>;
     /// Clears the authenticated state for the specified user type.
     fn unauth_user(&mut self, user_type: CK_USER_TYPE) -> Result<()>;
+    /// Whether this storage keeps a PIN for the Security Officer.
+    fn has_so_pin(&self) -> bool {
+        true
+    }
     /// Sets or changes the PIN for the specified user type.
     /// Requires prior authentication if changing an existing PIN
     /// (handled by `Token::set_pin`).
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 086b1d3..5ee0933 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1700,6 +1700,11 @@ impl Storage for NSSStorage {
         Ok(self.keys.unset_key())
     }
 
+    /// NSS databases only have a User PIN.
+    fn has_so_pin(&self) -> bool {
+        false
+    }
+
     /// Sets the user PIN.
     ///
     /// Derives a new KEK from the PIN+new salt, re-encrypts the password check
diff --git a/src/token.rs b/src/token.rs
index 4c2b627..71a7c5e 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -250,6 +250,8 @@ impl Token {
     pub fn initialize(&mut self, pin: &[u8], label: &[u8]) -> Result<()> {
         if self.is_initialized() {
             self.auth_user(CKU_SO, pin, true)?;
+        } else if self.storage.has_so_pin() {
+            self.check_pin_len(pin)?;
         };
 
         self.facilities.handles = Handles::new();
@@ -289,6 +291,18 @@ impl Token {
         self.token_internal_objects_init()
     }
 
+    /// Checks that a new PIN is within the advertised bounds
+    pub fn check_pin_len(&self, pin: &[u8]) -> Result<()> {
+        let len = CK_ULONG::try_from(pin.len())?;
+        if len < self.info.ulMinPinLen
+            || (self.info.ulMaxPinLen != CK_EFFECTIVELY_INFINITE
+                && len > self.info.ulMaxPinLen)
+        {
+            return Err(CKR_PIN_LEN_RANGE)?;
+        }
+        Ok(())
+    }
+
     /// Sets or changes the PIN for a given user type (SO or User).
     ///
     /// If changing an existing PIN (`old.len() != 0`), it first authenticates
-- 
2.43.0


From bc84cc0cb6ec0702358aa163842c28b70eeaddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 076/111] fix: a new PIN clears the flags about failed attempts

---
 src/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 71a7c5e..1a73726 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -326,6 +326,8 @@ impl Token {
         }
 
         self.storage.set_user_pin(&self.facilities, utype, pin)?;
+        /* a new pin starts with no failed attempts */
+        self.update_auth_flags(utype, 0);
 
         if utype == CKU_USER {
             self.info.flags |= CKF_USER_PIN_INITIALIZED;
-- 
2.43.0


From 1b122c3ac7a67ce8266477005b1798f63f094c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 077/111] fix: TLS MAC needs a key that may sign or verify, not
 derive

---
 src/native/tlskdf.rs | 24 ++++++++++++++++++++----
 src/tlskdf.rs        |  4 ++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 6501e27..e33ab9b 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -76,6 +76,17 @@ impl TLSPRF {
         key: &Object,
         mech: &Box<dyn Mechanism>,
         prf: CK_MECHANISM_TYPE,
+    ) -> Result<TLSPRF> {
+        Self::init_for(key, mech, prf, CKF_DERIVE)
+    }
+
+    /// Initializes a new TLS PRF instance with a key that must allow the
+    /// specified operation
+    fn init_for(
+        key: &Object,
+        mech: &Box<dyn Mechanism>,
+        prf: CK_MECHANISM_TYPE,
+        op_type: CK_FLAGS,
     ) -> Result<TLSPRF> {
         Ok(TLSPRF {
             op: mech.mac_new(
@@ -85,7 +96,7 @@ impl TLSPRF {
                     ulParameterLen: 0,
                 },
                 key,
-                CKF_DERIVE,
+                op_type,
             )?,
         })
     }
@@ -949,8 +960,13 @@ impl TLSMACOperation {
     ///
     /// Parses `CK_TLS_MAC_PARAMS`, validates the PRF mechanism and label
     /// choice (server/client finished), initializes the internal TLS PRF,
-    /// and stores parameters.
-    pub fn new(mech: &CK_MECHANISM, key: &Object) -> Result<TLSMACOperation> {
+    /// and stores parameters. The key must allow the requested operation,
+    /// either signing (CKF_SIGN) or verification (CKF_VERIFY).
+    pub fn new(
+        mech: &CK_MECHANISM,
+        key: &Object,
+        op_type: CK_FLAGS,
+    ) -> Result<TLSMACOperation> {
         #[cfg(feature = "fips")]
         if (*TLS_PRF_SELFTEST).result != CKR_OK {
             return Err((*TLS_PRF_SELFTEST).result)?;
@@ -980,7 +996,7 @@ impl TLSMACOperation {
             in_use: false,
             outputlen: maclen,
             seed: label.to_vec(),
-            tlsprf: TLSPRF::init(key, mac, prf)?,
+            tlsprf: TLSPRF::init_for(key, mac, prf, op_type)?,
             #[cfg(feature = "fips")]
             fips_approved: is_hmac_fips_approved(prf),
         })
diff --git a/src/tlskdf.rs b/src/tlskdf.rs
index 95b2c6a..91f00e9 100644
--- a/src/tlskdf.rs
+++ b/src/tlskdf.rs
@@ -113,7 +113,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_SIGN)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
@@ -133,7 +133,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_VERIFY)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
-- 
2.43.0


From e2bb434540bf052132ddab3777c1c94a48c55f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 078/111] fix: only private keys yield public keys, whether
 CKA_PRIVATE or not

---
 src/native/simplekdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 01946c0..9a61c96 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -521,7 +521,7 @@ impl Derive for PubFromPrivOperation {
         // key must be a private key
         // It does not need to allow derivation, as this is a pseudo
         // mechanism that is alaways usable for any private key
-        if !key.is_private() {
+        if key.get_class() != CKO_PRIVATE_KEY {
             return Err(CKR_KEY_TYPE_INCONSISTENT)?;
         }
 
-- 
2.43.0


From 6735faa2f0c14c786837868c1f1d18034026d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 079/111] fix: AES key wrapping needs an AES or generic secret
 key

---
 src/aes.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index b3f66a7..2e47e57 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -335,6 +335,19 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        if wrapping_key
+            .check_key_ops(CKO_SECRET_KEY, CKK_AES, CKA_WRAP)
+            .or_else(|_| {
+                wrapping_key.check_key_ops(
+                    CKO_SECRET_KEY,
+                    CKK_GENERIC_SECRET,
+                    CKA_WRAP,
+                )
+            })
+            .is_err()
+        {
+            return Err(CKR_WRAPPING_KEY_TYPE_INCONSISTENT)?;
+        }
         AesOperation::wrap(
             mech,
             wrapping_key,
@@ -359,6 +372,19 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        if wrapping_key
+            .check_key_ops(CKO_SECRET_KEY, CKK_AES, CKA_UNWRAP)
+            .or_else(|_| {
+                wrapping_key.check_key_ops(
+                    CKO_SECRET_KEY,
+                    CKK_GENERIC_SECRET,
+                    CKA_UNWRAP,
+                )
+            })
+            .is_err()
+        {
+            return Err(CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT)?;
+        }
         let keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
         key_template
             .as_key_factory()?
-- 
2.43.0


From 819109064c7e219f2ea918f3e33d2e923c93afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 080/111] fix: only secret keys can be concatenated

---
 src/native/simplekdf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 9a61c96..b5c2900 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -163,6 +163,9 @@ impl MechOperation for SimpleKDFOperation {
         if objs.len() != 1 {
             return Err(CKR_GENERAL_ERROR)?;
         }
+        if objs[0].get_class() != CKO_SECRET_KEY {
+            return Err(CKR_KEY_TYPE_INCONSISTENT)?;
+        }
         self.key_info = Some(KeyInfo::new_from_object(objs[0])?);
 
         #[cfg(feature = "fips")]
-- 
2.43.0


From e824f3ee7bce0d0946fbce088560a73da3ab76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 081/111] fix: C_InitToken replaces the token contents all at
 once

A crash or error during C_InitToken left a token that could not be opened,
or one the SO could log into with an empty PIN.
---
 src/storage/format.rs        | 29 +++++++++++++++++++++--
 src/storage/mod.rs           |  7 ++++++
 src/storage/nssdb/mod.rs     | 43 +++++++++++++++++++++++----------
 src/storage/sqlite.rs        | 37 +++++++++++++++++++++--------
 src/storage/sqlite_common.rs | 27 +++++++++++++++++++++
 src/token.rs                 | 46 ++++++++++++++++++++++++++----------
 6 files changed, 152 insertions(+), 37 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 25f1ac3..6d36ad3 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -115,6 +115,16 @@ pub trait StorageRaw: Debug + Send + Sync {
     fn flush(&mut self) -> Result<()> {
         Err(CKR_GENERAL_ERROR)?
     }
+    /// Starts a group of changes.
+    fn begin(&mut self) -> Result<()> {
+        Err(CKR_GENERAL_ERROR)?
+    }
+    /// Makes the changes of a group persistent.
+    fn commit(&mut self) -> Result<()> {
+        Err(CKR_GENERAL_ERROR)?
+    }
+    /// Drops the changes of a group.
+    fn rollback(&mut self) {}
     /// Fetches a raw object representation by its internal UID.
     /// `attrs` can provide hints about needed attributes, but the backend
     /// might return more attributes than requested.
@@ -303,6 +313,21 @@ impl Storage for StdStorageFormat {
         self.store.flush()
     }
 
+    /// Starts a group of changes on the underlying raw storage.
+    fn begin(&mut self) -> Result<()> {
+        self.store.begin()
+    }
+
+    /// Makes a group of changes persistent.
+    fn commit(&mut self) -> Result<()> {
+        self.store.commit()
+    }
+
+    /// Drops a group of changes.
+    fn rollback(&mut self) {
+        self.store.rollback()
+    }
+
     /// Fetches an object, handling potential decryption of sensitive
     /// attributes.
     ///
@@ -397,11 +422,11 @@ impl Storage for StdStorageFormat {
         }
 
         let mut handle = obj.get_handle();
+        self.store.store_obj(obj)?;
         if handle == CK_INVALID_HANDLE {
             handle = facilities.handles.next();
             facilities.handles.insert(handle, uid)?;
         }
-        self.store.store_obj(obj)?;
         Ok(handle)
     }
 
@@ -567,9 +592,9 @@ impl Storage for StdStorageFormat {
 
     /// Unauthenticates a user via the ACI layer (clears the master key).
     fn unauth_user(&mut self, user_type: CK_USER_TYPE) -> Result<()> {
+        self.aci.unauth();
         /* check it exists so we return the correct error */
         let _ = self.store.fetch_user(get_pin_uid(user_type)?)?;
-        self.aci.unauth();
         Ok(())
     }
 
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a12f49f..e9b01a9 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -70,6 +70,13 @@ pub trait Storage: Debug + Send + Sync {
     ) -> Result<StorageTokenInfo>;
     /// Flushes any pending changes to the persistent storage.
     fn flush(&mut self) -> Result<()>;
+    /// Starts a group of changes that become persistent all together when
+    /// [Storage::commit] is called.
+    fn begin(&mut self) -> Result<()>;
+    /// Makes a group of changes persistent, or drops it on failure.
+    fn commit(&mut self) -> Result<()>;
+    /// Drops all changes done since the group of changes was started.
+    fn rollback(&mut self);
     /// Fetches an object from storage by its handle.
     /// Optionally retrieves only specific `attributes`.
     fn fetch(
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 5ee0933..8ea7bf5 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -19,14 +19,17 @@ use crate::misc::{copy_sized_string, zeromem};
 use crate::object::Object;
 use crate::pkcs11::vendor::nss::*;
 use crate::pkcs11::*;
-use crate::storage::sqlite_common::{check_table, set_secure_delete};
+use crate::storage::sqlite_common::{
+    begin_changes, check_table, commit_changes, rollback_changes,
+    set_secure_delete,
+};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
 use crate::token::TokenFacilities;
 use crate::CSPRNG;
 
 use itertools::Itertools;
 use rusqlite::types::{FromSqlError, Value, ValueRef};
-use rusqlite::{params, Connection, OpenFlags, Rows, Transaction};
+use rusqlite::{params, Connection, OpenFlags, Rows, Savepoint};
 
 mod attrs;
 use attrs::*;
@@ -265,7 +268,7 @@ impl NSSStorage {
     /// indexes within a given schema inside a transaction. Drops the table
     /// first if it exists.
     fn new_main_tables(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         schema: &str,
         table: &str,
     ) -> Result<()> {
@@ -338,7 +341,7 @@ impl NSSStorage {
     /// and indexes. Assumes the databases are already attached.
     fn initialize(&mut self) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction()?;
+        let mut tx = conn.savepoint()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
 
         /* we assume the correct databases are attached since db_open()
@@ -872,7 +875,7 @@ impl NSSStorage {
 
     /// Saves a metadata entry (id, item1, item2) within a transaction.
     fn save_metadata(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         name: &str,
         item1: &[u8],
         item2: &[u8],
@@ -994,7 +997,7 @@ impl NSSStorage {
         rekeyed: &[NSSRekeyed],
     ) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction()?;
+        let mut tx = conn.savepoint()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         for r in rekeyed {
             for (typ, val) in &r.values {
@@ -1020,7 +1023,7 @@ impl NSSStorage {
 
     /// Finds the next available numeric ID within a given table (nssPublic or
     /// nssPrivate) inside a transaction. Handles potential wrap-around.
-    fn get_next_id(tx: &mut Transaction, table: &str) -> Result<u32> {
+    fn get_next_id(tx: &mut Savepoint, table: &str) -> Result<u32> {
         let max_query = format!("select MAX(id) from {}", table);
         let mut id: u32;
         let mut stmt = tx.prepare(&max_query)?;
@@ -1065,7 +1068,7 @@ impl NSSStorage {
     /// Assigns the next available ID, converts attributes to the NSS column
     /// format and SQLite values, and executes an INSERT statement.
     fn store_object(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         table: &str,
         obj: &Object,
     ) -> Result<u32> {
@@ -1124,7 +1127,7 @@ impl NSSStorage {
     /// Stores the signature for an authenticated attribute in the metadata
     /// table within a transaction.
     fn store_signature(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         dbtype: &str,
         nssobjid: u32,
         atype: CK_ULONG,
@@ -1140,7 +1143,7 @@ impl NSSStorage {
     /// Converts attributes to NSS column format and SQLite values, then
     /// executes an UPDATE statement based on the object's numeric ID.
     fn store_attributes(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         table: &str,
         id: u32,
         attrs: &CkAttrs,
@@ -1262,6 +1265,20 @@ impl Storage for NSSStorage {
         Ok(())
     }
 
+    fn begin(&mut self) -> Result<()> {
+        begin_changes(&self.conn.lock()?)
+    }
+
+    fn commit(&mut self) -> Result<()> {
+        commit_changes(&self.conn.lock()?)
+    }
+
+    fn rollback(&mut self) {
+        if let Ok(conn) = self.conn.lock() {
+            rollback_changes(&conn);
+        }
+    }
+
     /// Fetches an object by handle.
     ///
     /// Parses the internal NSS ID, fetches raw object data, handles
@@ -1425,7 +1442,7 @@ impl Storage for NSSStorage {
         }
 
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction()?;
+        let mut tx = conn.savepoint()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         let nssobjid = match Self::store_object(&mut tx, table, &obj) {
             Ok(id) => id,
@@ -1516,7 +1533,7 @@ impl Storage for NSSStorage {
         }
 
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction()?;
+        let mut tx = conn.savepoint()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         Self::store_attributes(&mut tx, &table, nssobjid, &attrs)?;
 
@@ -1600,7 +1617,7 @@ impl Storage for NSSStorage {
         };
 
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction()?;
+        let mut tx = conn.savepoint()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         let sql = format!("DELETE FROM {} WHERE id = ?", table);
         if tx.execute(&sql, params![nssobjid])? != 1 {
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index c646c42..1f67d70 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -14,13 +14,16 @@ use crate::object::Object;
 use crate::pkcs11::*;
 use crate::storage::aci::{StorageACI, StorageAuthInfo};
 use crate::storage::format::{StdStorageFormat, StorageRaw};
-use crate::storage::sqlite_common::{check_table, set_secure_delete};
+use crate::storage::sqlite_common::{
+    begin_changes, check_table, commit_changes, rollback_changes,
+    set_secure_delete,
+};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
 
 use itertools::Itertools;
 use rusqlite::types::{Value, ValueRef};
 use rusqlite::{
-    params, params_from_iter, Connection, Rows, Statement, Transaction,
+    params, params_from_iter, Connection, Rows, Savepoint, Statement,
 };
 
 /// Helper to wrap general errors from this module.
@@ -230,7 +233,7 @@ impl SqliteStorage {
     ///
     /// Uses INSERT OR REPLACE.
     fn store_meta(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         name: &str,
         id: Option<u32>,
         value: Option<&str>,
@@ -272,7 +275,7 @@ impl SqliteStorage {
     /// new numeric ID if necessary, then inserts each attribute as a separate
     /// row (id, attr_type, value).
     fn store_object(
-        tx: &mut Transaction,
+        tx: &mut Savepoint,
         uid: &String,
         obj: Object,
     ) -> Result<()> {
@@ -323,7 +326,7 @@ impl SqliteStorage {
     ///
     /// Returns the numeric ID of the deleted object, or 0 if the object was
     /// not found.
-    fn delete_object(tx: &mut Transaction, uid: &String) -> Result<i32> {
+    fn delete_object(tx: &mut Savepoint, uid: &String) -> Result<i32> {
         let mut stmt = tx.prepare(SEARCH_OBJ_ID).map_err(bad_storage)?;
         let objid = match stmt
             .query_row(params![CKA_UNIQUE_ID as u32, uid], |row| row.get(0))
@@ -395,7 +398,7 @@ impl StorageRaw for SqliteStorage {
 
     fn db_reset(&mut self) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
+        let mut tx = conn.savepoint().map_err(bad_storage)?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         /* the drops can fail when files are empty (new) */
         let _ = tx.execute(DROP_META_TABLE, params![]);
@@ -428,6 +431,20 @@ impl StorageRaw for SqliteStorage {
         Ok(())
     }
 
+    fn begin(&mut self) -> Result<()> {
+        begin_changes(&self.conn.lock()?)
+    }
+
+    fn commit(&mut self) -> Result<()> {
+        commit_changes(&self.conn.lock()?)
+    }
+
+    fn rollback(&mut self) {
+        if let Ok(conn) = self.conn.lock() {
+            rollback_changes(&conn);
+        }
+    }
+
     fn fetch_by_uid(
         &self,
         uid: &String,
@@ -533,7 +550,7 @@ impl StorageRaw for SqliteStorage {
     fn store_obj(&mut self, obj: Object) -> Result<()> {
         let uid = obj.get_attr_as_string(CKA_UNIQUE_ID)?;
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
+        let mut tx = conn.savepoint().map_err(bad_storage)?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         Self::store_object(&mut tx, &uid, obj)?;
         tx.commit().map_err(bad_storage)
@@ -541,7 +558,7 @@ impl StorageRaw for SqliteStorage {
 
     fn remove_by_uid(&mut self, uid: &String) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
+        let mut tx = conn.savepoint().map_err(bad_storage)?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
         Self::delete_object(&mut tx, &uid)?;
         tx.commit().map_err(bad_storage)
@@ -579,7 +596,7 @@ impl StorageRaw for SqliteStorage {
 
     fn store_token_info(&mut self, info: &StorageTokenInfo) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
+        let mut tx = conn.savepoint().map_err(bad_storage)?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
 
         Self::store_meta(
@@ -666,7 +683,7 @@ impl StorageRaw for SqliteStorage {
 
     fn store_user(&mut self, uid: &str, data: &StorageAuthInfo) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
+        let mut tx = conn.savepoint().map_err(bad_storage)?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
 
         if data.default_pin {
diff --git a/src/storage/sqlite_common.rs b/src/storage/sqlite_common.rs
index 644fe73..5038af9 100644
--- a/src/storage/sqlite_common.rs
+++ b/src/storage/sqlite_common.rs
@@ -105,3 +105,30 @@ pub fn set_secure_delete(
 ) -> Result<()> {
     Ok(conn.execute_batch("PRAGMA secure_delete = ON")?)
 }
+
+/// Starts a group of changes, the savepoints used by each change nest in it.
+pub fn begin_changes(
+    conn: &MutexGuard<'_, rusqlite::Connection>,
+) -> Result<()> {
+    Ok(conn.execute_batch("BEGIN")?)
+}
+
+/// Makes a group of changes persistent, drops them all if this fails.
+pub fn commit_changes(
+    conn: &MutexGuard<'_, rusqlite::Connection>,
+) -> Result<()> {
+    match conn.execute_batch("COMMIT") {
+        Ok(()) => Ok(()),
+        Err(e) => {
+            rollback_changes(conn);
+            Err(e)?
+        }
+    }
+}
+
+/// Drops a group of changes, unless a failure already caused that.
+pub fn rollback_changes(conn: &MutexGuard<'_, rusqlite::Connection>) {
+    if !conn.is_autocommit() {
+        let _ = conn.execute_batch("ROLLBACK");
+    }
+}
diff --git a/src/token.rs b/src/token.rs
index 1a73726..0bfae5a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -258,6 +258,39 @@ impl Token {
         self.session_objects.clear();
         self.logged = KRY_UNSPEC;
 
+        /* a failure must leave the token as it was */
+        self.storage.begin()?;
+        let result = match self.reinit_storage(pin, label) {
+            Ok(info) => self.storage.commit().map(|()| info),
+            Err(e) => {
+                self.storage.rollback();
+                Err(e)
+            }
+        };
+
+        /* copy info on Token object */
+        if let Ok(info) = &result {
+            self.fill_token_info(info);
+        }
+
+        /* IMPORTANT: we always forcibly unauth here (A reinit
+         * creates the token as if CKU_SO was logged in in oreder
+         * to properly store data and set PINs).
+         * The caller must ensure authentication after a reset
+         * to be able to correctly access the database. */
+        let _ = self.storage.unauth_user(CKU_SO);
+
+        self.token_internal_objects_init()?;
+        result.map(|_| ())
+    }
+
+    /// Reinitializes the storage and sets the SO PIN (if supported by storage)
+    /// and the new token label.
+    fn reinit_storage(
+        &mut self,
+        pin: &[u8],
+        label: &[u8],
+    ) -> Result<StorageTokenInfo> {
         /* this inits from scratch or deletes and reinits an existing db */
         let mut info = self.storage.reinit(&self.facilities)?;
 
@@ -277,18 +310,7 @@ impl Token {
 
         /* save token info with provided label */
         self.storage.store_token_info(&info)?;
-
-        /* copy info on Token object */
-        self.fill_token_info(&info);
-
-        /* IMPORTANT: we always forcibly unauth here (A reinit
-         * creates the token as if CKU_SO was logged in in oreder
-         * to properly store data and set PINs).
-         * The caller must ensure authentication after a reset
-         * to be able to correctly access the database. */
-        self.storage.unauth_user(CKU_SO)?;
-
-        self.token_internal_objects_init()
+        Ok(info)
     }
 
     /// Checks that a new PIN is within the advertised bounds
-- 
2.43.0


From b449a58c6dabbcb7217a08437af84a7290fae4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 082/111] fix: keys generated or derived by one call are stored
 all at once

A crash or error left one half of a key pair, or some of several derived
keys, on the token.
---
 src/fns/keymgmt.rs | 59 +++++++++++++---------------------------------
 src/token.rs       | 39 ++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 134b917..0e3eda5 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -190,20 +190,12 @@ fn generate_key_pair(
                 );
                 session.set_fips_indicator(approved);
             }
-            let pubh = token.insert_object(s_handle, pubkey)?;
-            match token.insert_object(s_handle, privkey) {
-                Ok(privh) => {
-                    unsafe {
-                        core::ptr::write(public_key as *mut _, pubh);
-                        core::ptr::write(private_key as *mut _, privh);
-                    }
-                    Ok(())
-                }
-                Err(e) => {
-                    let _ = token.destroy_object(pubh);
-                    Err(e)?
-                }
+            let ah = token.insert_objects(s_handle, vec![pubkey, privkey])?;
+            unsafe {
+                core::ptr::write(public_key as *mut _, ah[0]);
+                core::ptr::write(private_key as *mut _, ah[1]);
             }
+            Ok(())
         }
         Err(e) => Err(e)?,
     }
@@ -660,8 +652,7 @@ fn derive_key(
         CKM_SP800_108_COUNTER_KDF
         | CKM_SP800_108_FEEDBACK_KDF
         | CKM_SP800_108_DOUBLE_PIPELINE_KDF => {
-            let kh = token.insert_object(s_handle, result.remove(0))?;
-            if result.len() > 0 {
+            if result.len() > 1 {
                 let adk = match mechanism.mechanism {
                     CKM_SP800_108_COUNTER_KDF => {
                         let params = mechanism
@@ -689,30 +680,24 @@ fn derive_key(
 
                     _ => return Err(CKR_MECHANISM_INVALID)?,
                 };
-                if adk.len() != result.len() {
+                if adk.len() + 1 != result.len() {
                     return Err(CKR_GENERAL_ERROR)?;
                 }
-                let mut ah = Vec::<CK_OBJECT_HANDLE>::with_capacity(adk.len());
-                let mut iter_result = result.into_iter();
-                while let Some(obj) = iter_result.next() {
-                    match token.insert_object(s_handle, obj) {
-                        Ok(h) => ah.push(h),
-                        Err(e) => {
-                            for h in ah {
-                                let _ = token.destroy_object(h);
-                            }
-                            let _ = token.destroy_object(kh);
-                            return Err(e)?;
-                        }
+                let ah = token.insert_objects(s_handle, result)?;
+                for i in 0..adk.len() {
+                    unsafe {
+                        core::ptr::write(adk[i].phKey, ah[i + 1]);
                     }
                 }
-                for i in 0..adk.len() {
+                if !key_handle.is_null() {
                     unsafe {
-                        core::ptr::write(adk[i].phKey, ah[i]);
+                        core::ptr::write(key_handle, ah[0]);
                     }
                 }
+                return Ok(());
             }
 
+            let kh = token.insert_object(s_handle, result.remove(0))?;
             if !key_handle.is_null() {
                 unsafe {
                     core::ptr::write(key_handle, kh);
@@ -731,19 +716,7 @@ fn derive_key(
                 _ => return Err(CKR_GENERAL_ERROR)?,
             }
 
-            let mut ah = Vec::<CK_OBJECT_HANDLE>::with_capacity(result.len());
-            let mut iter_result = result.into_iter();
-            while let Some(obj) = iter_result.next() {
-                match token.insert_object(s_handle, obj) {
-                    Ok(h) => ah.push(h),
-                    Err(e) => {
-                        for h in ah {
-                            let _ = token.destroy_object(h);
-                        }
-                        return Err(e)?;
-                    }
-                }
-            }
+            let mut ah = token.insert_objects(s_handle, result)?;
             if ah.len() == 4 {
                 unsafe {
                     (*mat_out).hClientMacSecret = ah.remove(0);
diff --git a/src/token.rs b/src/token.rs
index 0bfae5a..f1234ff 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -636,6 +636,45 @@ impl Token {
         Ok(handle)
     }
 
+    /// Inserts several new objects into the token, either all of them or none.
+    ///
+    /// Returns the assigned handles.
+    pub fn insert_objects(
+        &mut self,
+        s_handle: CK_SESSION_HANDLE,
+        objs: Vec<Object>,
+    ) -> Result<Vec<CK_OBJECT_HANDLE>> {
+        let persistent = objs.iter().any(|o| o.is_token());
+        if persistent {
+            self.storage.begin()?;
+        }
+        let mut handles = Vec::<CK_OBJECT_HANDLE>::with_capacity(objs.len());
+        let mut result = Ok(());
+        for obj in objs {
+            match self.insert_object(s_handle, obj) {
+                Ok(h) => handles.push(h),
+                Err(e) => {
+                    result = Err(e);
+                    break;
+                }
+            }
+        }
+        if persistent {
+            match result {
+                Ok(()) => result = self.storage.commit(),
+                Err(_) => self.storage.rollback(),
+            }
+        }
+        if let Err(e) = result {
+            for h in handles {
+                let _ = self.session_objects.remove(&h);
+                self.facilities.handles.remove(h);
+            }
+            return Err(e);
+        }
+        Ok(handles)
+    }
+
     /// Internal function to check for cert/trust object duplicates
     fn _is_duplicate(
         &mut self,
-- 
2.43.0


From 1047475ac6f1793a4708af627d8364926e3b165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 083/111] fix: NSS changes that span both databases are atomic

SQLite only commits several files atomically if the main database is a file.
---
 src/storage/nssdb/mod.rs | 42 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 8ea7bf5..e048d76 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -63,8 +63,15 @@ const NSS_PUBLIC_TABLE: &str = "nssPublic";
 const NSS_PUBLIC_SCHEMA: &str = "public";
 /// NSS DB private table name (in keyN.db).
 const NSS_PRIVATE_TABLE: &str = "nssPrivate";
-/// NSS DB private schema name (for attaching keyN.db).
-const NSS_PRIVATE_SCHEMA: &str = "private";
+/// NSS DB private schema name (keyN.db is the main database).
+const NSS_PRIVATE_SCHEMA: &str = "main";
+/// Flags all databases are opened with, in order to create the databases we
+/// need to have both the R/W and Create flags, the URIs generated will properly
+/// mark the databases as read-only if needed
+const DB_OPEN_FLAGS: OpenFlags = OpenFlags::SQLITE_OPEN_READ_WRITE
+    .union(OpenFlags::SQLITE_OPEN_CREATE)
+    .union(OpenFlags::SQLITE_OPEN_PRIVATE_CACHE)
+    .union(OpenFlags::SQLITE_OPEN_URI);
 /// Special 3-byte value NSS uses to represent NULL/empty attributes in BLOB
 /// columns.
 const NSS_SPECIAL_NULL_VALUE: [u8; 3] = [0xa5, 0x0, 0x5a];
@@ -1199,6 +1206,16 @@ impl Storage for NSSStorage {
         let mut ret = CKR_OK;
         let mut conn = self.conn.lock()?;
 
+        /* The keys database is the main one of the connection, changes that
+         * span several databases are only atomic if the main one is a file */
+        if !self.config.no_key_db {
+            let uri = Self::db_uri(&self.keysfile()?, self.config.read_only)?;
+            *conn = match Connection::open_with_flags(uri, DB_OPEN_FLAGS) {
+                Ok(c) => c,
+                Err(_) => return Err(CKR_TOKEN_NOT_PRESENT)?,
+            };
+        }
+
         /* Ensure secure delete is always set on the db
          * Doing this before the attach statements ensures the
          * same setting applies to all of the databases
@@ -1223,12 +1240,6 @@ impl Storage for NSSStorage {
             }
         }
         if !self.config.no_key_db {
-            Self::db_attach(
-                &mut conn,
-                &self.keysfile()?,
-                NSS_PRIVATE_SCHEMA,
-                self.config.read_only,
-            )?;
             match check_table(&mut conn, NSS_PRIVATE_SCHEMA, NSS_PRIVATE_TABLE)
             {
                 Ok(_) => Self::check_columns(
@@ -1815,18 +1826,11 @@ impl StorageDBInfo for NSSDBInfo {
         }
 
         /* NSS does not have generic storage, instead it uses different
-         * databases for different object types, so we create an in memory
-         * database to set all common options, and then we attach each
-         * database file so we can operate on all of them with a single
-         * connection. Note: in order to create the database we need to
-         * have both the R/W and Create flags, the URIs generate will
-         * properly mark the attached databases as read-only if needed */
-        let flags = OpenFlags::SQLITE_OPEN_READ_WRITE
-            | OpenFlags::SQLITE_OPEN_CREATE
-            | OpenFlags::SQLITE_OPEN_PRIVATE_CACHE
-            | OpenFlags::SQLITE_OPEN_URI;
+         * databases for different object types, these are opened later so
+         * that we can operate on all of them with a single connection, until
+         * then an in memory database takes their place. */
         let conn = Arc::new(Mutex::from(
-            Connection::open_in_memory_with_flags(flags)?,
+            Connection::open_in_memory_with_flags(DB_OPEN_FLAGS)?,
         ));
 
         Ok(Box::new(NSSStorage {
-- 
2.43.0


From 5976f0497dc96df5619136ea723b0f49cee15cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 084/111] fix: an object id at the maximum makes new objects
 fail, not crash

---
 src/storage/sqlite.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index 1f67d70..1c88414 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -282,13 +282,16 @@ impl SqliteStorage {
         let objid = match Self::delete_object(tx, uid)? {
             0 => {
                 /* find new id to use for new object */
-                let mut maxid = 0;
+                let mut maxid: i32 = 0;
                 let mut stmt = tx.prepare(MAX_ID).map_err(bad_code)?;
                 let mut rows = stmt.query([]).map_err(bad_code)?;
                 while let Some(row) = rows.next().map_err(bad_storage)? {
                     maxid = row.get(0).map_err(bad_storage)?;
                 }
-                maxid + 1
+                match maxid.checked_add(1) {
+                    Some(id) => id,
+                    None => return Err(CKR_DEVICE_MEMORY)?,
+                }
             }
             x => x,
         };
-- 
2.43.0


From 875a312a70f89014df3af6cdd4b079f3ce3230bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 085/111] fix: NSS attribute signatures made with short keys
 are refused

---
 src/storage/nssdb/ci.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 574d14f..ab6ad85 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -568,6 +568,11 @@ pub fn check_signature(
 
     let lockedkey = match &pbmac1.key_derivation_func.params {
         AlgorithmParameters::Pbkdf2(params) => {
+            /* a shorter key would be easy to guess */
+            match params.key_length {
+                Some(l) if l >= u64::try_from(SHA256_LEN)? => (),
+                _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
+            }
             derive_key_internal(facilities, keys, params, KeyOp::Signature)?
         }
         _ => return Err(CKR_MECHANISM_INVALID)?,
-- 
2.43.0


From 0aeb4eee802d9ea152d5917ea299b7784216f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 086/111] fix: secret key generation enforces the key lengths
 of the key type

---
 src/aes.rs        |  5 ++++-
 src/hotp.rs       |  2 +-
 src/object/key.rs | 26 ++++++++++++++++++++------
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index 2e47e57..b547ac7 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -314,7 +314,10 @@ impl Mechanism for AesMechanism {
         key.ensure_ulong(CKA_KEY_TYPE, CKK_AES)
             .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
 
-        default_secret_key_generate(&mut key)?;
+        default_secret_key_generate(
+            AES_KEY_FACTORY.as_secret_key_factory()?,
+            &mut key,
+        )?;
         default_key_attributes(&mut key, mech.mechanism)?;
         Ok(key)
     }
diff --git a/src/hotp.rs b/src/hotp.rs
index a0c408d..ee069aa 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -312,7 +312,7 @@ impl Mechanism for HOTPKeyMechanism {
 
         factory.validate_object(&mut key)?;
 
-        default_secret_key_generate(&mut key)?;
+        default_secret_key_generate(&factory, &mut key)?;
         default_key_attributes(&mut key, mech.mechanism)?;
 
         if key.get_attr_as_bytes(CKA_OTP_COUNTER).is_err() {
diff --git a/src/object/key.rs b/src/object/key.rs
index fe7c715..ba2e232 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -480,18 +480,27 @@ pub trait SecretKeyFactory: KeyFactory {
 ///
 /// The object will be modified to store the secret raw key in the CKA_VALUE
 /// attribute.
-pub fn default_secret_key_generate(key: &mut Object) -> Result<()> {
+///
+/// The factory checks that the requested length is acceptable for the type
+/// of key
+pub fn default_secret_key_generate(
+    factory: &dyn SecretKeyFactory,
+    key: &mut Object,
+) -> Result<()> {
     let value_len = usize::try_from(key.get_attr_as_ulong(CKA_VALUE_LEN)?)?;
 
-    let mut value: Vec<u8> = vec![0; value_len];
+    let mut value: Vec<u8> = Vec::new();
+    value
+        .try_reserve_exact(value_len)
+        .map_err(|_| CKR_KEY_SIZE_RANGE)?;
+    value.resize(value_len, 0);
     match CSPRNG
         .with(|rng| rng.borrow_mut().generate_random(value.as_mut_slice()))
     {
         Ok(()) => (),
         Err(e) => return Err(e),
     }
-    key.set_attr(Attribute::from_bytes(CKA_VALUE, value))?;
-    Ok(())
+    factory.set_key(key, value)
 }
 
 /// Helper function to set generic attributes applicable to all keys
@@ -697,7 +706,7 @@ impl Mechanism for GenericSecretKeyMechanism {
         mech: &CK_MECHANISM,
         template: &[CK_ATTRIBUTE],
         _: &Mechanisms,
-        _: &ObjectFactories,
+        objfactories: &ObjectFactories,
     ) -> Result<Object> {
         let mut key = GENERIC_SECRET_FACTORY
             .as_key_factory()?
@@ -707,7 +716,12 @@ impl Mechanism for GenericSecretKeyMechanism {
         key.ensure_ulong(CKA_KEY_TYPE, self.keytype())
             .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
 
-        default_secret_key_generate(&mut key)?;
+        default_secret_key_generate(
+            objfactories
+                .get_object_factory(&key)?
+                .as_secret_key_factory()?,
+            &mut key,
+        )?;
         default_key_attributes(&mut key, mech.mechanism)?;
         Ok(key)
     }
-- 
2.43.0


From 2b595957511fc4a6fb4e2d21b511cb3b9b73885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 087/111] fix: RSA key pair generation refuses contradicting
 components and sizes it can not produce

---
 src/ossl/rsa.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 675514b..1087520 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -444,15 +444,30 @@ impl RsaPKCSOperation {
             _ => return Err(CKR_GENERAL_ERROR)?,
         };
 
+        /* OpenSSL can not generate a modulus with an odd number of bits at
+         * some sizes, never hand out a different size than requested */
+        let n_bits = match rsa.n.iter().position(|b| *b != 0) {
+            Some(i) => {
+                (rsa.n.len() - i) * 8 - rsa.n[i].leading_zeros() as usize
+            }
+            None => 0,
+        };
+        if n_bits != bits {
+            return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+        }
+
         /* Public Key (has E already set) */
-        pubkey.set_attr(Attribute::from_bytes(CKA_MODULUS, rsa.n.clone()))?;
+        pubkey
+            .ensure_bytes(CKA_MODULUS, rsa.n.clone())
+            .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
 
         /* Private Key */
-        privkey.set_attr(Attribute::from_bytes(CKA_MODULUS, rsa.n.clone()))?;
-        privkey.set_attr(Attribute::from_bytes(
-            CKA_PUBLIC_EXPONENT,
-            exponent.clone(),
-        ))?;
+        privkey
+            .ensure_bytes(CKA_MODULUS, rsa.n.clone())
+            .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
+        privkey
+            .ensure_bytes(CKA_PUBLIC_EXPONENT, exponent)
+            .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
         if let Some(d) = rsa.d.take() {
             privkey.set_attr(Attribute::from_bytes(
                 CKA_PRIVATE_EXPONENT,
-- 
2.43.0


From 5f1ee2b44b2e8604ec93fc1ece5711bf387c796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 088/111] fix: HOTP keys refuse allowed mechanisms that
 conflict with their use

---
 src/hotp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index ee069aa..a7cefd0 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -147,8 +147,9 @@ impl HOTPKeyFactory {
             }
         }
 
-        let set_mech = match obj.get_attr_as_bytes(CKA_ALLOWED_MECHANISMS) {
-            Ok(mechs) => {
+        let set_mech = match obj.get_attr(CKA_ALLOWED_MECHANISMS) {
+            Some(attr) => {
+                let mechs = attr.get_value();
                 if mechs.is_empty() {
                     true
                 } else if mechs != CKM_HOTP.to_ne_bytes().as_slice() {
@@ -157,7 +158,7 @@ impl HOTPKeyFactory {
                     false
                 }
             }
-            Err(_) => true,
+            None => true,
         };
         if set_mech {
             obj.set_attr(Attribute::from_bytes(
-- 
2.43.0


From a62f8aa899584d3242d51665c1b06ea27efb58c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 089/111] fix: each HOTP counter value is spent only once, also
 by concurrent operations

An operation takes the counter when it is started, but the key was updated
without checking that the counter is still the same when the operation ends.
When the counter can not be stored, no password is returned, and the last
counter value does not overflow.
---
 src/fns/signing.rs | 45 ++++++++++++++++++++++++++++++-----------
 src/hotp.rs        | 50 ++++++++++++++++++++++++++++++++--------------
 src/mechanism.rs   | 21 ++++++++++++++++---
 src/token.rs       | 15 ++++++++++++++
 4 files changed, 101 insertions(+), 30 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index c7bed8f..9057bd9 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -12,6 +12,7 @@ use crate::check_allowed_mechs;
 use crate::error::Result;
 use crate::log_debug;
 use crate::mechanism::{Sign, Verify, VerifySignature};
+use crate::misc::zeromem;
 use crate::pkcs11::*;
 use crate::session::Session;
 use crate::STATE;
@@ -114,9 +115,13 @@ fn sign(
 
     operation.sign(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
+            zeromem(signature);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -242,9 +247,13 @@ fn sign_final(
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
     operation.sign_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
+            zeromem(signature);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -396,9 +405,12 @@ fn verify(
         unsafe { std::slice::from_raw_parts(psignature, signature_len) };
     operation.verify(data, signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -513,9 +525,12 @@ fn verify_final(
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
     operation.verify_final(signature)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -799,9 +814,12 @@ fn verify_signature(
     let data: &[u8] = unsafe { std::slice::from_raw_parts(pdata, dlen) };
     operation.verify(data)?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -885,9 +903,12 @@ fn verify_signature_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let operation = session.get_operation::<dyn VerifySignature>()?;
     operation.verify_final()?;
 
-    if let Some((handle, attrs)) = operation.updates_object() {
+    if let Some((handle, old, new)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if token
+            .update_object_attrs(handle, old.as_slice(), new.as_slice())
+            .is_err()
+        {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
diff --git a/src/hotp.rs b/src/hotp.rs
index a7cefd0..f6b56ff 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -392,6 +392,8 @@ pub struct HOTPOperation {
     mech_type: CK_MECHANISM_TYPE,
     hmac: HMACOperation,
     counter: [u8; 8],
+    /* the counter of the key when the operation was initialized */
+    key_counter: [u8; 8],
     key_handle: CK_OBJECT_HANDLE,
     length: usize,
     mac_len: usize,
@@ -479,6 +481,7 @@ impl HOTPOperation {
             mech_type: mech.mechanism,
             hmac,
             counter,
+            key_counter: counter,
             key_handle: key.get_handle(),
             length,
             mac_len,
@@ -552,6 +555,13 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
+        /* the last counter value is never used, as nothing can follow it */
+        let next = match u64::from_be_bytes(self.counter).checked_add(1) {
+            Some(n) => n,
+            None if self.update.is_none() => 0,
+            None => return Err(CKR_GENERAL_ERROR)?,
+        };
+
         let mut otp = vec![0u8; self.length];
         let counter = self.counter;
         self.generate_otp(&counter, &mut otp)?;
@@ -579,9 +589,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -594,14 +602,18 @@ impl Sign for HOTPOperation {
         Ok(struct_size + param_size + self.length)
     }
 
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         if self.update == Some(true) {
-            let mut attrs = CkAttrs::new();
-            if attrs
-                .add_owned_slice(CKA_OTP_COUNTER, &self.counter)
+            let mut old = CkAttrs::new();
+            let mut new = CkAttrs::new();
+            if old
+                .add_owned_slice(CKA_OTP_COUNTER, &self.key_counter)
                 .is_ok()
+                && new.add_owned_slice(CKA_OTP_COUNTER, &self.counter).is_ok()
             {
-                return Some((self.key_handle, attrs));
+                return Some((self.key_handle, old, new));
             }
         }
         None
@@ -640,12 +652,16 @@ impl Verify for HOTPOperation {
             self.generate_otp(&current_counter, &mut otp)?;
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    let next = c_val.checked_add(1).ok_or(CKR_GENERAL_ERROR)?;
+                    self.counter = next.to_be_bytes();
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = match c_val.checked_add(1) {
+                Some(c) => c,
+                None => break,
+            };
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
@@ -654,14 +670,18 @@ impl Verify for HOTPOperation {
         Ok(self.length)
     }
 
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         if self.update == Some(true) {
-            let mut attrs = CkAttrs::new();
-            if attrs
-                .add_owned_slice(CKA_OTP_COUNTER, &self.counter)
+            let mut old = CkAttrs::new();
+            let mut new = CkAttrs::new();
+            if old
+                .add_owned_slice(CKA_OTP_COUNTER, &self.key_counter)
                 .is_ok()
+                && new.add_owned_slice(CKA_OTP_COUNTER, &self.counter).is_ok()
             {
-                return Some((self.key_handle, attrs));
+                return Some((self.key_handle, old, new));
             }
         }
         None
diff --git a/src/mechanism.rs b/src/mechanism.rs
index 130eeb2..808e39f 100644
--- a/src/mechanism.rs
+++ b/src/mechanism.rs
@@ -568,7 +568,12 @@ pub trait Sign: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the handle of the object, the attributes the operation was
+    /// based on, which the object must still have, and the new ones.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
@@ -614,7 +619,12 @@ pub trait Verify: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the handle of the object, the attributes the operation was
+    /// based on, which the object must still have, and the new ones.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
@@ -847,7 +857,12 @@ pub trait VerifySignature: MechOperation {
     ///
     /// This can be used by mechanisms to request the update of object
     /// attributes, such as an OTP counter, after an operation completes.
-    fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
+    ///
+    /// Returns the handle of the object, the attributes the operation was
+    /// based on, which the object must still have, and the new ones.
+    fn updates_object(
+        &self,
+    ) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>, CkAttrs<'_>)> {
         None
     }
 }
diff --git a/src/token.rs b/src/token.rs
index f1234ff..b032957 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -943,6 +943,21 @@ impl Token {
         }
     }
 
+    /// Updates the attributes of an object on behalf of an operation that used
+    /// the object while it had the attributes provided in `old`. Fails if they
+    /// changed in the meantime.
+    pub fn update_object_attrs(
+        &mut self,
+        o_handle: CK_OBJECT_HANDLE,
+        old: &[CK_ATTRIBUTE],
+        new: &[CK_ATTRIBUTE],
+    ) -> Result<()> {
+        if !self.get_object_by_handle(o_handle)?.match_template(old) {
+            return Err(CKR_GENERAL_ERROR)?;
+        }
+        self.set_object_attrs(o_handle, new)
+    }
+
     /// Estimates the memory size of an object (primarily for C_GetInfo
     /// reporting). Currently provides a rough estimate based on attribute
     /// count and value sizes.
-- 
2.43.0


From 8e27ff69b7b2565557407dfa4721e7a73b8034dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 090/111] fix: the EC point encoding of a configuration file
 named in the init args is used

---
 src/config.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 266bbf4..116ac76 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -497,6 +497,11 @@ impl Config {
     pub fn from_init_args(&mut self, args: &str) -> Result<()> {
         let conf = self.conf_from_args(args)?;
 
+        /* global settings come from the first configuration loaded */
+        if self.slots.is_empty() {
+            self.ec_point_encoding = conf.ec_point_encoding;
+        }
+
         /* check and add slots */
         for mut slot in conf.slots {
             let mut found = false;
-- 
2.43.0


From f906e40b0e08fc0f9fd88139ffe6195b18fc2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 091/111] fix: RSA components are normalized on import and
 impossible ones refused

---
 src/kasn1/mod.rs |  3 +++
 src/rsa.rs       | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/kasn1/mod.rs b/src/kasn1/mod.rs
index 356f71e..e37f2e7 100644
--- a/src/kasn1/mod.rs
+++ b/src/kasn1/mod.rs
@@ -35,6 +35,9 @@ impl<'a> DerEncBigUint<'a> {
     /// referenced when the format does not need to be altered, avoiding
     /// unnecessary memory allocation in most cases.
     pub fn new(data: &'a [u8]) -> Result<Self> {
+        if data.is_empty() {
+            return Err(CKR_GENERAL_ERROR)?;
+        }
         let mut de = DerEncBigUint {
             data: Cow::from(data),
         };
diff --git a/src/rsa.rs b/src/rsa.rs
index c52608b..38c29ac 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -136,7 +136,30 @@ macro_rules! bytes_attr_not_empty {
 /// - Presence and consistency of CKA_MODULUS and CKA_MODULUS_BITS.
 /// - Minimum modulus size.
 /// - Presence of required attributes based on CKA_CLASS (Public/Private).
-fn rsa_check_import(obj: &Object) -> Result<()> {
+/// - Components that no RSA key can have
+///
+/// Leading zeros of the components, which are big integers, are removed.
+fn rsa_check_import(obj: &mut Object) -> Result<()> {
+    for id in [
+        CKA_MODULUS,
+        CKA_PUBLIC_EXPONENT,
+        CKA_PRIVATE_EXPONENT,
+        CKA_PRIME_1,
+        CKA_PRIME_2,
+        CKA_EXPONENT_1,
+        CKA_EXPONENT_2,
+        CKA_COEFFICIENT,
+    ] {
+        let skip = match obj.get_attr_as_bytes(id) {
+            Ok(val) => val.iter().take_while(|b| **b == 0).count(),
+            Err(_) => 0,
+        };
+        if skip > 0 {
+            let val = obj.get_attr_as_bytes(id)?[skip..].to_vec();
+            obj.set_attr(Attribute::from_bytes(id, val))?;
+        }
+    }
+
     let modulus = match obj.get_attr_as_bytes(CKA_MODULUS) {
         Ok(m) => m,
         Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
@@ -154,7 +177,9 @@ fn rsa_check_import(obj: &Object) -> Result<()> {
             }
         }
     }
-    if modulus.len() < MIN_RSA_SIZE_BYTES {
+    if modulus.len() < MIN_RSA_SIZE_BYTES
+        || modulus[modulus.len() - 1] & 1 == 0
+    {
         return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
     }
     match obj.get_attr_as_ulong(CKA_CLASS) {
@@ -172,6 +197,22 @@ fn rsa_check_import(obj: &Object) -> Result<()> {
         Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
     }
 
+    /* the exponents are coprime to the even order of the group and smaller
+     * than the modulus */
+    for id in [CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT] {
+        let exp = match obj.get_attr_as_bytes(id) {
+            Ok(e) => e,
+            Err(_) => continue,
+        };
+        if exp.len() == 0
+            || exp[exp.len() - 1] & 1 == 0
+            || exp.as_slice() == [1u8]
+            || (exp.len(), exp) >= (modulus.len(), modulus)
+        {
+            return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+        }
+    }
+
     Ok(())
 }
 
@@ -533,6 +574,7 @@ impl KeyFactory for RSAPrivFactory {
             rsapkey.coefficient.as_nopad_bytes().to_vec(),
         )?;
 
+        rsa_check_import(&mut key).map_err(|_| CKR_WRAPPED_KEY_INVALID)?;
         rsa_check_public_key_info(&mut key)?;
 
         Ok(key)
-- 
2.43.0


From 22a3a1987534410b1164c4b386f127990be28f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 092/111] fix: DH keys with a value of zero or beyond the prime
 are refused on import

---
 src/ffdh.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index d91d38c..78348a3 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -66,6 +66,19 @@ pub fn register(mechs: &mut Mechanisms, ot: &mut ObjectFactories) {
     );
 }
 
+/// Checks that the value of a key is neither zero nor beyond the prime
+fn ffdh_check_value(obj: &Object) -> Result<()> {
+    let strip = |v: &'_ [u8]| v.iter().take_while(|b| **b == 0).count();
+    let prime = obj.get_attr_as_bytes(CKA_PRIME)?;
+    let prime = &prime[strip(prime)..];
+    let value = obj.get_attr_as_bytes(CKA_VALUE)?;
+    let value = &value[strip(value)..];
+    if value.is_empty() || (value.len(), value) >= (prime.len(), prime) {
+        return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+    }
+    Ok(())
+}
+
 fn ffdh_public_key_info(
     group: ffdh_groups::DHGroupName,
     obj: &mut Object,
@@ -147,6 +160,7 @@ impl ObjectFactory for FFDHPubFactory {
     fn create(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
         let mut obj = self.key_create(template)?;
         let group = ffdh_groups::get_group_name(&obj)?;
+        ffdh_check_value(&obj)?;
         ffdh_public_key_info(group, &mut obj)?;
         Ok(obj)
     }
@@ -216,6 +230,7 @@ impl ObjectFactory for FFDHPrivFactory {
         let obj = self.key_create(template)?;
 
         let _ = ffdh_groups::get_group_name(&obj)?;
+        ffdh_check_value(&obj)?;
 
         Ok(obj)
     }
-- 
2.43.0


From 6b146f630ebcaff1749bd6dbf9717996d8277bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 093/111] fix: EC private values out of range and public key
 infos of other keys are refused

Values out of range are refused when the key is unwrapped or used, infos that
do not belong to the private key are refused on import.
---
 src/ec/ecdsa.rs      | 64 ++++++++++++++++++++++++++++++++------------
 src/ec/eddsa.rs      |  4 +--
 src/ec/mod.rs        | 55 ++++++++++++++++++++++++++++++++++++-
 src/ec/montgomery.rs | 13 ++++++---
 src/mldsa.rs         |  4 +--
 src/mlkem.rs         |  4 +--
 src/ossl/common.rs   | 16 +++++++++++
 src/ossl/ecdsa.rs    | 15 +++++++++++
 src/rsa.rs           |  3 +--
 src/slhdsa.rs        |  4 +--
 10 files changed, 151 insertions(+), 31 deletions(-)

diff --git a/src/ec/ecdsa.rs b/src/ec/ecdsa.rs
index ee95882..5e57cfe 100644
--- a/src/ec/ecdsa.rs
+++ b/src/ec/ecdsa.rs
@@ -14,7 +14,7 @@ use crate::error::{Error, Result};
 use crate::kasn1::{oid, pkcs};
 use crate::mechanism::*;
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::ecdsa::EcdsaOperation;
 
 use asn1;
@@ -72,6 +72,46 @@ fn ecdsa_public_key_info(obj: &mut Object, point: Option<&[u8]>) -> Result<()> {
     Ok(())
 }
 
+/// Computes the public key of a private key and sets CKA_PUBLIC_KEY_INFO, or
+/// checks that the one provided with the key belongs to it.
+fn ecdsa_private_key_info(obj: &mut Object) -> Result<()> {
+    match compute_public_key(obj) {
+        Ok(point) => return ecdsa_public_key_info(obj, Some(&point)),
+        Err(e) => {
+            // Key is unextractable on OpenSSL versions older than 4.0.0
+            // do not fail if key is missing in that case which is reported
+            // via CKR_KEY_UNEXTRACTABLE error.
+            if e.rv() != CKR_KEY_UNEXTRACTABLE {
+                return Err(e);
+            }
+        }
+    }
+
+    match obj.get_attr(CKA_PUBLIC_KEY_INFO) {
+        Some(info) if !info.get_value().is_empty() => (),
+        _ => return Ok(()),
+    }
+    let point =
+        extract_public_key(obj).map_err(|_| CKR_ATTRIBUTE_VALUE_INVALID)?;
+    ecdsa_public_key_info(obj, Some(&point))?;
+
+    /* the public key belongs to the private key if it verifies what the
+     * private key signs */
+    let mut pubkey = Object::new(CKO_PUBLIC_KEY);
+    pubkey.set_attr(Attribute::from_ulong(CKA_KEY_TYPE, CKK_EC))?;
+    pubkey.set_attr(Attribute::from_bytes(
+        CKA_EC_PARAMS,
+        obj.get_attr_as_bytes(CKA_EC_PARAMS)?.clone(),
+    ))?;
+    pubkey.set_attr(Attribute::from_bytes(
+        CKA_EC_POINT,
+        asn1::write_single(&point.as_slice())?,
+    ))?;
+    EcdsaOperation::check_key_pair(obj, &pubkey)
+        .map_err(|_| CKR_ATTRIBUTE_VALUE_INVALID)?;
+    Ok(())
+}
+
 /// The static Public Key factory
 static PUBLIC_KEY_FACTORY: LazyLock<Box<dyn ObjectFactory>> =
     LazyLock::new(|| Box::new(ECDSAPubFactory::new()));
@@ -287,7 +327,7 @@ impl ObjectFactory for ECDSAPrivFactory {
          * ANSI X9.62 private value d */
         match obj.get_attr_as_bytes(CKA_VALUE) {
             Ok(v) => {
-                if v.len() > ec_key_size(&oid)? {
+                if v.len() > ec_key_size(&oid)? || v.iter().all(|b| *b == 0) {
                     return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
                 }
             }
@@ -300,20 +340,7 @@ impl ObjectFactory for ECDSAPrivFactory {
             }
         }
 
-        // Extract public key and set CKA_PUBLIC_KEY_INFO
-        match extract_public_key(&obj) {
-            Ok(ec_point_raw) => {
-                ecdsa_public_key_info(&mut obj, Some(&ec_point_raw))?;
-            }
-            Err(e) => {
-                // Key is unextractable on OpenSSL versions older than 4.0.0
-                // do not fail if key is missing in that case which is reported
-                // via CKR_KEY_UNEXTRACTABLE error.
-                if e.rv() != CKR_KEY_UNEXTRACTABLE {
-                    return Err(e);
-                }
-            }
-        }
+        ecdsa_private_key_info(&mut obj)?;
 
         Ok(obj)
     }
@@ -340,7 +367,10 @@ impl KeyFactory for ECDSAPrivFactory {
         data: Vec<u8>,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Object> {
-        import_from_wrapped(CKK_EC, data, self.key_unwrap(template)?)
+        let mut key =
+            import_from_wrapped(CKK_EC, data, self.key_unwrap(template)?)?;
+        ecdsa_private_key_info(&mut key)?;
+        Ok(key)
     }
 }
 
diff --git a/src/ec/eddsa.rs b/src/ec/eddsa.rs
index d3a0ccd..7143b32 100644
--- a/src/ec/eddsa.rs
+++ b/src/ec/eddsa.rs
@@ -15,7 +15,7 @@ use crate::error::{Error, Result};
 use crate::kasn1::{oid, pkcs};
 use crate::mechanism::*;
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::eddsa::EddsaOperation;
 
 /// Object that holds Mechanisms for EDDSA
@@ -286,7 +286,7 @@ impl ObjectFactory for EDDSAPrivFactory {
             }
         }
 
-        let ec_point_raw = extract_public_key(&obj)?;
+        let ec_point_raw = compute_public_key(&obj)?;
         eddsa_public_key_info(&mut obj, Some(&ec_point_raw))?;
 
         Ok(obj)
diff --git a/src/ec/mod.rs b/src/ec/mod.rs
index 19b1c74..a13af14 100644
--- a/src/ec/mod.rs
+++ b/src/ec/mod.rs
@@ -72,6 +72,30 @@ const EC_KEY_BYTES_ED448: usize = (BITS_ED448 + 7) / 8;
 const EC_KEY_BYTES_X25519: usize = (BITS_X25519 + 7) / 8;
 const EC_KEY_BYTES_X448: usize = (BITS_X448 + 7) / 8;
 
+/* Orders of the base points, private values are in the range [1, n - 1] */
+#[cfg(feature = "ecdsa")]
+const EC_ORDER_SECP256R1: [u8; EC_KEY_BYTES_SECP256R1] = [
+    0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84,
+    0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
+];
+#[cfg(feature = "ecdsa")]
+const EC_ORDER_SECP384R1: [u8; EC_KEY_BYTES_SECP384R1] = [
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xc7, 0x63, 0x4d, 0x81, 0xf4, 0x37, 0x2d, 0xdf, 0x58, 0x1a, 0x0d, 0xb2,
+    0x48, 0xb0, 0xa7, 0x7a, 0xec, 0xec, 0x19, 0x6a, 0xcc, 0xc5, 0x29, 0x73,
+];
+#[cfg(feature = "ecdsa")]
+const EC_ORDER_SECP521R1: [u8; EC_KEY_BYTES_SECP521R1] = [
+    0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfa, 0x51, 0x86,
+    0x87, 0x83, 0xbf, 0x2f, 0x96, 0x6b, 0x7f, 0xcc, 0x01, 0x48, 0xf7, 0x09,
+    0xa5, 0xd0, 0x3b, 0xb5, 0xc9, 0xb8, 0x89, 0x9c, 0x47, 0xae, 0xbb, 0x6f,
+    0xb7, 0x1e, 0x91, 0x38, 0x64, 0x09,
+];
+
 /* Curve names as used in CurveName PrinableString */
 pub const PRIME256V1: &str = "prime256v1";
 pub const SECP384R1: &str = "secp384r1";
@@ -246,6 +270,33 @@ pub fn check_ec_point_from_obj(
     Err(CKR_ATTRIBUTE_VALUE_INVALID)?
 }
 
+/// Verifies that the value of a private EC key is in the valid range for the
+/// curve
+#[cfg(feature = "ecdsa")]
+pub fn check_ec_private_value(
+    oid: &asn1::ObjectIdentifier,
+    value: &[u8],
+) -> Result<()> {
+    let order: &[u8] = match oid {
+        &EC_SECP256R1 => &EC_ORDER_SECP256R1,
+        &EC_SECP384R1 => &EC_ORDER_SECP384R1,
+        &EC_SECP521R1 => &EC_ORDER_SECP521R1,
+        _ => return Err(CKR_GENERAL_ERROR)?,
+    };
+    if value.len() > order.len() || value.iter().all(|b| *b == 0) {
+        return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+    }
+    /* leading zeros may be missing */
+    let mut padded = vec![0u8; order.len() - value.len()];
+    padded.extend_from_slice(value);
+    let in_range = padded.as_slice() < order;
+    zeromem(padded.as_mut_slice());
+    if !in_range {
+        return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+    }
+    Ok(())
+}
+
 /// Common function to format a private EC key using PKCS#8 encoding
 pub fn export_for_wrapping(key: &Object) -> Result<Vec<u8>> {
     key.check_key_ops(
@@ -395,7 +446,9 @@ pub fn import_from_wrapped(
     /* an EC private value may come without its leading zeros */
     let size = ec_key_size(oid)?;
     match key_type {
-        CKK_EC if !value.is_empty() && value.len() <= size => (),
+        #[cfg(feature = "ecdsa")]
+        CKK_EC => check_ec_private_value(oid, value)
+            .map_err(|_| CKR_WRAPPED_KEY_INVALID)?,
         _ if value.len() == size => (),
         _ => return Err(CKR_WRAPPED_KEY_INVALID)?,
     }
diff --git a/src/ec/montgomery.rs b/src/ec/montgomery.rs
index 20dbe17..4bbfdf2 100644
--- a/src/ec/montgomery.rs
+++ b/src/ec/montgomery.rs
@@ -14,7 +14,7 @@ use crate::error::{Error, Result};
 use crate::kasn1::{oid, pkcs};
 use crate::mechanism::*;
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::montgomery::ECMontgomeryOperation;
 
 /// Object that holds Mechanisms for Montgomery Ecc
@@ -271,7 +271,7 @@ impl ObjectFactory for ECMontgomeryPrivFactory {
             }
         }
 
-        let ec_point_raw = extract_public_key(&obj)?;
+        let ec_point_raw = compute_public_key(&obj)?;
         montgomery_public_key_info(&mut obj, Some(&ec_point_raw))?;
 
         Ok(obj)
@@ -299,7 +299,14 @@ impl KeyFactory for ECMontgomeryPrivFactory {
         data: Vec<u8>,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Object> {
-        import_from_wrapped(CKK_EC_MONTGOMERY, data, self.key_unwrap(template)?)
+        let mut key = import_from_wrapped(
+            CKK_EC_MONTGOMERY,
+            data,
+            self.key_unwrap(template)?,
+        )?;
+        let ec_point_raw = compute_public_key(&key)?;
+        montgomery_public_key_info(&mut key, Some(&ec_point_raw))?;
+        Ok(key)
     }
 }
 
diff --git a/src/mldsa.rs b/src/mldsa.rs
index 5574a37..9d8c3e0 100644
--- a/src/mldsa.rs
+++ b/src/mldsa.rs
@@ -15,7 +15,7 @@ use crate::error::Result;
 use crate::kasn1::pkcs;
 use crate::mechanism::{Mechanism, Mechanisms, Sign, Verify, VerifySignature};
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::mldsa;
 use crate::pkcs11::*;
 
@@ -326,7 +326,7 @@ impl ObjectFactory for MlDsaPrivFactory {
 
         mldsa_priv_check_import(&mut obj)?;
 
-        let pubkey_raw = extract_public_key(&obj)?;
+        let pubkey_raw = compute_public_key(&obj)?;
         mldsa_public_key_info(&mut obj, Some(&pubkey_raw))?;
 
         Ok(obj)
diff --git a/src/mlkem.rs b/src/mlkem.rs
index 7c90bfb..d5ffc77 100644
--- a/src/mlkem.rs
+++ b/src/mlkem.rs
@@ -16,7 +16,7 @@ use crate::error::Result;
 use crate::kasn1::pkcs;
 use crate::mechanism::{Mechanism, Mechanisms};
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::mlkem;
 use crate::pkcs11::*;
 
@@ -328,7 +328,7 @@ impl ObjectFactory for MlKemPrivFactory {
 
         mlkem_priv_check_import(&mut obj)?;
 
-        let pubkey_raw = extract_public_key(&obj)?;
+        let pubkey_raw = compute_public_key(&obj)?;
         mlkem_public_key_info(&mut obj, Some(&pubkey_raw))?;
 
         Ok(obj)
diff --git a/src/ossl/common.rs b/src/ossl/common.rs
index ffe2b76..9017518 100644
--- a/src/ossl/common.rs
+++ b/src/ossl/common.rs
@@ -17,6 +17,8 @@ use ossl::digest::DigestAlg;
 use ossl::pkey::{EvpPkey, EvpPkeyType, PkeyData};
 use ossl::{api_level, OsslContext};
 
+#[cfg(feature = "ecdsa")]
+use crate::ec::check_ec_private_value;
 #[cfg(feature = "ecc")]
 use crate::ec::get_oid_from_obj;
 #[cfg(feature = "ecdsa")]
@@ -101,6 +103,14 @@ pub fn pubkey_from_object(obj: &Object) -> Result<EvpPkey> {
 /// Creates a private `EvpPkey` from a PKCS#11 `Object`.
 #[allow(dead_code)]
 pub fn privkey_from_object(obj: &Object) -> Result<EvpPkey> {
+    #[cfg(feature = "ecdsa")]
+    if obj.get_attr_as_ulong(CKA_KEY_TYPE)? == CKK_EC {
+        check_ec_private_value(
+            &get_oid_from_obj(obj)?,
+            obj.get_attr_as_bytes(CKA_VALUE)?,
+        )
+        .map_err(|_| CKR_KEY_FUNCTION_NOT_PERMITTED)?;
+    }
     evp_pkey_from_object(obj, CKO_PRIVATE_KEY)
 }
 
@@ -211,6 +221,12 @@ pub fn extract_public_key(privkey: &Object) -> Result<Vec<u8>> {
     }
 
     // Fallback to OpenSSL import/export
+    compute_public_key(privkey)
+}
+
+/// Computes the public key from the components of the private key, whatever
+/// CKA_PUBLIC_KEY_INFO says.
+pub fn compute_public_key(privkey: &Object) -> Result<Vec<u8>> {
     // 1. Import private key into EvpPkey
     let pkey = evp_pkey_from_object(privkey, CKO_PRIVATE_KEY)?;
 
diff --git a/src/ossl/ecdsa.rs b/src/ossl/ecdsa.rs
index e5ba7c9..0ba1810 100644
--- a/src/ossl/ecdsa.rs
+++ b/src/ossl/ecdsa.rs
@@ -232,6 +232,21 @@ impl EcdsaOperation {
         Self::new_op(CKF_VERIFY, mech, key, Some(signature.to_vec()))
     }
 
+    /// Checks that the public key verifies what the private key signs
+    pub fn check_key_pair(privkey: &Object, pubkey: &Object) -> Result<()> {
+        let mech = CK_MECHANISM {
+            mechanism: CKM_ECDSA,
+            pParameter: std::ptr::null_mut(),
+            ulParameterLen: 0,
+        };
+        let data = [0x5au8; 32];
+        let mut op = Self::new_op(CKF_SIGN, &mech, privkey, None)?;
+        let mut signature = vec![0u8; op.output_len];
+        op.sign(&data, &mut signature)?;
+        let mut op = Self::new_op(CKF_VERIFY, &mech, pubkey, None)?;
+        Verify::verify(&mut op, &data, &signature)
+    }
+
     /// Generates an EC key pair using OpenSSL.
     ///
     /// Takes mutable references to pre-created public and private key
diff --git a/src/rsa.rs b/src/rsa.rs
index 38c29ac..1e6c3e7 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -177,8 +177,7 @@ fn rsa_check_import(obj: &mut Object) -> Result<()> {
             }
         }
     }
-    if modulus.len() < MIN_RSA_SIZE_BYTES
-        || modulus[modulus.len() - 1] & 1 == 0
+    if modulus.len() < MIN_RSA_SIZE_BYTES || modulus[modulus.len() - 1] & 1 == 0
     {
         return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
     }
diff --git a/src/slhdsa.rs b/src/slhdsa.rs
index 77e5073..db1918d 100644
--- a/src/slhdsa.rs
+++ b/src/slhdsa.rs
@@ -15,7 +15,7 @@ use crate::error::Result;
 use crate::kasn1::pkcs;
 use crate::mechanism::{Mechanism, Mechanisms, Sign, Verify, VerifySignature};
 use crate::object::*;
-use crate::ossl::common::extract_public_key;
+use crate::ossl::common::{compute_public_key, extract_public_key};
 use crate::ossl::slhdsa;
 use crate::pkcs11::*;
 
@@ -331,7 +331,7 @@ impl ObjectFactory for SlhDsaPrivFactory {
 
         slhdsa_priv_check_import(&mut obj)?;
 
-        let pubkey_raw = extract_public_key(&obj)?;
+        let pubkey_raw = compute_public_key(&obj)?;
         slhdsa_public_key_info(&mut obj, Some(&pubkey_raw))?;
 
         Ok(obj)
-- 
2.43.0


From f0515e0029e27c1341c6a298ea77aa621e914ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 094/111] fix: null and unaligned pointers and absurd lengths
 no longer abort the process

---
 src/fns/encryption.rs   |  4 ++--
 src/fns/keymgmt.rs      |  4 +++-
 src/fns/mod.rs          | 12 +++++++++++-
 src/fns/sessmgmt.rs     |  3 +++
 src/fns/signing.rs      |  3 +++
 src/hmac.rs             | 12 +++++-------
 src/hotp.rs             | 20 ++++++++++++--------
 src/misc.rs             | 24 ++++++++++++++++++++----
 src/native/sp800_108.rs |  5 ++++-
 src/native/tlskdf.rs    | 21 ++++++++++++++++++++-
 src/ossl/aes.rs         |  4 ++--
 src/pkcs11/mod.rs       | 22 +++++++++++++++-------
 src/sp800_108.rs        | 19 ++++++++++++++++---
 13 files changed, 116 insertions(+), 37 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..75e945b 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -242,7 +242,7 @@ fn encrypt_final(
     pul_last_encrypted_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
     let rstate = STATE.rlock()?;
-    if last_encrypted_part.is_null() && pul_last_encrypted_part_len.is_null() {
+    if pul_last_encrypted_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let mut session = rstate.get_session_mut(s_handle)?;
@@ -522,7 +522,7 @@ fn decrypt_final(
     last_part: CK_BYTE_PTR,
     pul_last_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
-    if last_part.is_null() && pul_last_part_len.is_null() {
+    if pul_last_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let rstate = STATE.rlock()?;
diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 0e3eda5..17771df 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -9,7 +9,7 @@
 use crate::check_allowed_mechs;
 use crate::error::{Error, Result};
 use crate::log_debug;
-use crate::misc::bytes_to_slice;
+use crate::misc::{bytes_to_slice, check_requested_len};
 use crate::object;
 use crate::pkcs11::*;
 use crate::{fail_if_cka_token_true, STATE};
@@ -45,6 +45,7 @@ fn generate_key(
     let cnt = usize::try_from(count).map_err(|_| CKR_GENERAL_ERROR)?;
     let tmpl: &mut [CK_ATTRIBUTE] =
         unsafe { std::slice::from_raw_parts_mut(template, cnt) };
+    check_requested_len(tmpl)?;
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
     }
@@ -513,6 +514,7 @@ fn derive_key(
         usize::try_from(attribute_count).map_err(|_| CKR_GENERAL_ERROR)?;
     let tmpl: &mut [CK_ATTRIBUTE] =
         unsafe { std::slice::from_raw_parts_mut(template, cnt) };
+    check_requested_len(tmpl)?;
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
     }
diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6740160..ff76d85 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -7,6 +7,7 @@
 //! PKCS#11 functions exported via the Function List.
 
 use crate::error::Result;
+use crate::misc::bytes_to_slice;
 use crate::pkcs11::*;
 use crate::{get_random_data, random_add_seed, STATE};
 
@@ -48,7 +49,10 @@ fn seed_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let len = usize::try_from(seed_len).map_err(|_| CKR_GENERAL_ERROR)?;
-    let data: &[u8] = unsafe { std::slice::from_raw_parts(seed, len) };
+    if seed.is_null() && len != 0 {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
+    let data: &[u8] = unsafe { bytes_to_slice(seed as *const u8, len) };
     random_add_seed(data)
 }
 
@@ -83,6 +87,12 @@ fn generate_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let rndlen = usize::try_from(random_len).map_err(|_| CKR_GENERAL_ERROR)?;
+    if rndlen == 0 {
+        return Ok(());
+    }
+    if random_data.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let data: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(random_data, rndlen) };
     get_random_data(data)
diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 69533c7..394547e 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -234,6 +234,9 @@ fn set_operation_state(
     let mut session = rstate.get_session_mut(s_handle)?;
     let state_len =
         usize::try_from(operation_state_len).map_err(|_| CKR_ARGUMENTS_BAD)?;
+    if operation_state.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let state: &[u8] =
         unsafe { std::slice::from_raw_parts(operation_state, state_len) };
     let slot_id = session.get_slot_id();
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 9057bd9..a6c3a55 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -736,6 +736,9 @@ fn verify_signature_init(
         session.cancel_operation::<dyn VerifySignature>()?;
         return Ok(());
     }
+    if psignature.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     session.check_no_op::<dyn VerifySignature>()?;
     let mechanism = CK_MECHANISM::from_ptr(mechptr);
     let slot_id = session.get_slot_id();
diff --git a/src/hmac.rs b/src/hmac.rs
index 132f6ac..faa8ddb 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -11,7 +11,7 @@ use std::sync::LazyLock;
 use crate::error::{Error, Result};
 use crate::hash;
 use crate::mechanism::*;
-use crate::misc::{sizeof, zeromem};
+use crate::misc::zeromem;
 use crate::native::hmac::HMACOperation;
 use crate::object::*;
 use crate::pkcs11::*;
@@ -217,12 +217,10 @@ impl HMACMechanism {
             }
             return Ok(self.maxlen);
         }
-        if mech.ulParameterLen != sizeof!(CK_ULONG) {
-            return Err(CKR_MECHANISM_PARAM_INVALID)?;
-        }
-        let genlen = usize::try_from(unsafe {
-            std::slice::from_raw_parts(mech.pParameter as *const CK_ULONG, 1)[0]
-        })?;
+        let genlen = mech
+            .get_parameters::<CK_ULONG>()
+            .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?;
+        let genlen = usize::try_from(genlen)?;
         if genlen < self.minlen || genlen > self.maxlen {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
diff --git a/src/hotp.rs b/src/hotp.rs
index f6b56ff..051b7ab 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -572,17 +572,21 @@ impl Sign for HOTPOperation {
                 signature.as_mut_ptr().add(struct_size) as *mut CK_OTP_PARAM;
             let p_value = signature.as_mut_ptr().add(struct_size + param_size);
 
-            std::ptr::write_unaligned(&mut (*sig_info).pParams, p_params);
-            std::ptr::write_unaligned(&mut (*sig_info).ulCount, 1);
-
-            std::ptr::write_unaligned(&mut (*p_params).type_, CK_OTP_VALUE);
+            /* the caller's buffer may have any alignment */
             std::ptr::write_unaligned(
-                &mut (*p_params).pValue,
-                p_value as *mut std::ffi::c_void,
+                sig_info,
+                CK_OTP_SIGNATURE_INFO {
+                    pParams: p_params,
+                    ulCount: 1,
+                },
             );
             std::ptr::write_unaligned(
-                &mut (*p_params).ulValueLen,
-                self.length as CK_ULONG,
+                p_params,
+                CK_OTP_PARAM {
+                    type_: CK_OTP_VALUE,
+                    pValue: p_value as *mut std::ffi::c_void,
+                    ulValueLen: self.length as CK_ULONG,
+                },
             );
 
             std::ptr::copy_nonoverlapping(otp.as_ptr(), p_value, self.length);
diff --git a/src/misc.rs b/src/misc.rs
index c4cc5b5..aacee82 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -62,12 +62,12 @@ pub(crate) use sizeof;
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts()
 ///
-/// If len is 0 and empty slice reference is returned
+/// If len is 0 or ptr is null an empty slice reference is returned
 pub(crate) unsafe fn bytes_to_slice<'a, T>(
     ptr: *const T,
     len: usize,
 ) -> &'a [T] {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         unsafe { std::slice::from_raw_parts(ptr, len) }
     } else {
         &[]
@@ -80,18 +80,34 @@ pub(crate) unsafe fn bytes_to_slice<'a, T>(
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts_mut()
 ///
-/// If len is 0 an error is returned
+/// If len is 0 or ptr is null an error is returned
 pub(crate) unsafe fn bytes_to_slice_mut<'a, T>(
     ptr: *mut T,
     len: usize,
 ) -> Result<&'a mut [T]> {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         Ok(unsafe { std::slice::from_raw_parts_mut(ptr, len) })
     } else {
         Err(CKR_GENERAL_ERROR)?
     }
 }
 
+/// The longest key, in bytes, that can be requested from a generation or
+/// derivation function
+pub const MAX_KEY_LEN: CK_ULONG = u32::MAX as CK_ULONG;
+
+/// Helper function to check that the length of the key requested via
+/// CKA_VALUE_LEN, which no caller's buffer bounds, is a sensible one
+pub fn check_requested_len(template: &[CK_ATTRIBUTE]) -> Result<()> {
+    for attr in template.iter().filter(|a| a.type_ == CKA_VALUE_LEN) {
+        match attr.to_ulong() {
+            Ok(len) if len > MAX_KEY_LEN => return Err(CKR_KEY_SIZE_RANGE)?,
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 /// Helper function to prepare a Data Object as result of a derivation
 /// function
 ///
diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index c694c46..1e5df18 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -438,8 +438,11 @@ impl Derive for Sp800Operation {
 
         /* additional keys */
         for ak in &self.addl_drv_keys {
+            if ak.phKey.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
-                std::slice::from_raw_parts_mut(
+                bytes_to_slice(
                     ak.pTemplate,
                     usize::try_from(ak.ulAttributeCount)
                         .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?,
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index e33ab9b..98dac5a 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -9,7 +9,9 @@ use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::hmac::{hash_to_hmac_mech, register_mechs_only};
 use crate::mechanism::*;
-use crate::misc::{bytes_to_slice, bytes_to_vec, zeromem, CK_ULONG_SIZE};
+use crate::misc::{
+    bytes_to_slice, bytes_to_vec, zeromem, CK_ULONG_SIZE, MAX_KEY_LEN,
+};
 use crate::object::{Object, ObjectFactories};
 use crate::pkcs11::*;
 use std::fmt::Debug;
@@ -406,6 +408,17 @@ impl TLSKDFOperation {
         if params.pReturnedKeyMaterial.is_null() {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
+        if ivlen > 0 {
+            let mat_out = unsafe { *params.pReturnedKeyMaterial };
+            if mat_out.pIVClient.is_null() || mat_out.pIVServer.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
+        }
+
+        /* the sizes are not otherwise bounded by the caller's buffers */
+        if maclen > MAX_KEY_LEN || keylen > MAX_KEY_LEN || ivlen > MAX_KEY_LEN {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         Ok(TLSKDFOperation {
             finalized: false,
@@ -666,6 +679,9 @@ impl TLSKDFOperation {
                     None => return Err(CKR_GENERAL_ERROR)?,
                     Some(val) => val.to_bytes()?,
                 };
+                if secret.len() < 2 {
+                    return Err(CKR_KEY_SIZE_RANGE)?;
+                }
                 maj = secret[0];
                 min = secret[1];
             }
@@ -980,6 +996,9 @@ impl TLSMACOperation {
             Ok(h) => h,
             Err(_) => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
+        if params.ulMacLength > MAX_KEY_LEN {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
         let maclen = params.ulMacLength as usize;
 
         let label = match params.ulServerOrClient {
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 0e3f99a..b1afc0e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -45,7 +45,7 @@ unsafe fn cast_params<T: Copy + Clone>(
     let Ok(len) = usize::try_from(len) else {
         return Err(CKR_ARGUMENTS_BAD)?;
     };
-    if len != std::mem::size_of::<T>() {
+    if len != std::mem::size_of::<T>() || ptr.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     Ok(unsafe { std::ptr::read_unaligned(ptr as *const T) })
@@ -984,7 +984,7 @@ impl AesOperation {
                         return Err(self.op_err(CKR_ARGUMENTS_BAD));
                     }
                 }
-                if self.params.taglen != (tagbits + 7) / 8 {
+                if self.params.taglen != tagbits.div_ceil(8) {
                     return Err(self.op_err(CKR_ARGUMENTS_BAD));
                 }
                 Ok(params.pTag)
diff --git a/src/pkcs11/mod.rs b/src/pkcs11/mod.rs
index 5591879..e46a62c 100644
--- a/src/pkcs11/mod.rs
+++ b/src/pkcs11/mod.rs
@@ -913,17 +913,21 @@ impl CK_ATTRIBUTE {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
-        Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
+        Ok(unsafe { std::ptr::read_unaligned(self.pValue as CK_ULONG_PTR) })
     }
 
     /// Returns the internal data memory buffer as a bool
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
@@ -1017,7 +1021,7 @@ impl CK_MECHANISM {
         let Ok(len) = usize::try_from(self.ulParameterLen) else {
             return Err(CKR_ARGUMENTS_BAD)?;
         };
-        if len != std::mem::size_of::<T>() {
+        if len != std::mem::size_of::<T>() || self.pParameter.is_null() {
             return Err(CKR_ARGUMENTS_BAD)?;
         }
         Ok(unsafe { std::ptr::read_unaligned(self.pParameter as *const T) })
@@ -1033,17 +1037,21 @@ impl CK_OTP_PARAM {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
-        Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
+        Ok(unsafe { std::ptr::read_unaligned(self.pValue as CK_ULONG_PTR) })
     }
 
     /// Returns the internal data memory buffer as a bool
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
diff --git a/src/sp800_108.rs b/src/sp800_108.rs
index b550c9c..0baeb4d 100644
--- a/src/sp800_108.rs
+++ b/src/sp800_108.rs
@@ -110,7 +110,14 @@ impl Sp800Params {
         if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT) {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
-        let cf = unsafe { *(p.pValue as *const CK_SP800_108_COUNTER_FORMAT) };
+        if p.pValue.is_null() {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
+        let cf = unsafe {
+            std::ptr::read_unaligned(
+                p.pValue as *const CK_SP800_108_COUNTER_FORMAT,
+            )
+        };
         Ok(Sp800CounterFormat {
             defined: true,
             le: match cf.bLittleEndian {
@@ -136,8 +143,14 @@ impl Sp800Params {
         if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT) {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
-        let dkm =
-            unsafe { *(p.pValue as *const CK_SP800_108_DKM_LENGTH_FORMAT) };
+        if p.pValue.is_null() {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
+        let dkm = unsafe {
+            std::ptr::read_unaligned(
+                p.pValue as *const CK_SP800_108_DKM_LENGTH_FORMAT,
+            )
+        };
         Ok(Sp800DKMLengthFormat {
             method: match dkm.dkmLengthMethod {
                 CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS
-- 
2.43.0


From fae901244711a83ece881be564a15dfff94cec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 095/111] fix: report the needed count when a list buffer is
 too small

---
 src/fns/general.rs | 1 +
 src/fns/stmgmt.rs  | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index 54c6105..5e28d1a 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -202,6 +202,7 @@ fn get_interface_list(
     }
     unsafe {
         if *count < iflen {
+            *count = iflen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index c6dca44..d0218e2 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -36,6 +36,7 @@ fn get_slot_list(
     unsafe {
         let num: CK_ULONG = *count;
         if num < silen {
+            *count = silen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -155,8 +156,12 @@ fn get_mechanism_list(
         return Ok(());
     }
     let mechs = token.get_mechs_list();
+    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
     let num = unsafe { *count };
-    if (num as usize) < mechs.len() {
+    if num < cnt {
+        unsafe {
+            *count = cnt;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
     for (udx, mech) in mechs.iter().enumerate() {
@@ -165,7 +170,6 @@ fn get_mechanism_list(
             core::ptr::write(mechanism_list.offset(idx), *mech);
         }
     }
-    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe {
         *count = cnt;
     }
-- 
2.43.0


From f5a664092b6937e068379aea5a47bf97382fcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 096/111] fix: no mechanism objects for mechanisms the
 configuration excludes

---
 src/token.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index b032957..4099838 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -527,6 +527,7 @@ impl Token {
     pub fn set_mech_allow_list(&mut self, list: Vec<CK_MECHANISM_TYPE>) {
         self.filtermechs =
             Some(self.facilities.mechanisms.filter_copy(|k| list.contains(k)));
+        self.filter_mech_objects();
     }
 
     /// Sets a filtered mechanisms list with iall but the mechanism listed
@@ -536,6 +537,26 @@ impl Token {
                 .mechanisms
                 .filter_copy(|k| !list.contains(k)),
         );
+        self.filter_mech_objects();
+    }
+
+    /// Removes the built-in CKO_MECHANISM objects of the mechanisms that
+    /// have been filtered out.
+    fn filter_mech_objects(&mut self) {
+        let mut handles = Vec::<CK_OBJECT_HANDLE>::new();
+        for (h, obj) in &self.session_objects {
+            if obj.get_class() != CKO_MECHANISM {
+                continue;
+            }
+            match obj.get_attr_as_ulong(CKA_MECHANISM_TYPE) {
+                Ok(typ) if self.get_mech_info(typ).is_ok() => (),
+                _ => handles.push(*h),
+            }
+        }
+        for h in handles {
+            let _ = self.session_objects.remove(&h);
+            self.facilities.handles.remove(h);
+        }
     }
 
     /// Returns the number of mechanisms supported by the token.
-- 
2.43.0


From 863acd4e776875e3b8dd864efca9c780d33b1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 097/111] fix: RSA keys of 1017 to 1023 bits are below the
 advertised minimum

---
 src/ossl/rsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 1087520..7709715 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -244,7 +244,9 @@ impl RsaPKCSOperation {
     /// Helper to get and validate the RSA key size from an `Object`.
     fn get_key_size(key: &Object, info: &CK_MECHANISM_INFO) -> Result<usize> {
         let modulus = key.get_attr_as_bytes(CKA_MODULUS)?;
-        let modulus_bits: CK_ULONG = modulus.len() as CK_ULONG * 8;
+        let unused_bits = modulus.first().map_or(0, |b| b.leading_zeros());
+        let modulus_bits: CK_ULONG =
+            modulus.len() as CK_ULONG * 8 - unused_bits as CK_ULONG;
         if modulus_bits < info.ulMinKeySize
             || (info.ulMaxKeySize != 0 && modulus_bits > info.ulMaxKeySize)
         {
-- 
2.43.0


From bb7f85c495044b15b9ecf6ea597de1d4f3ee249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 098/111] fix: a failed C_Initialize leaves library and
 configuration as they were

---
 src/config.rs      |  2 +-
 src/fns/general.rs | 40 +++++++++++++++++++---------------------
 src/lib.rs         |  5 +++++
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 116ac76..809d2d5 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -254,7 +254,7 @@ impl Default for FipsBehavior {
 /// The main config structure is comprised of two elements, a general
 /// EC Point Encoding indicator and a list of slots
 
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct Config {
     /// Type of encoding for EC Public Points
     #[serde(default)]
diff --git a/src/fns/general.rs b/src/fns/general.rs
index 5e28d1a..c8a3381 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -17,7 +17,11 @@ use crate::STATE;
 
 #[inline(always)]
 fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
-    let mut conf = crate::CONFIG.wlock()?;
+    let mut current = crate::CONFIG.wlock()?;
+
+    /* All changes are made on a copy, so that the current configuration is
+     * retained unless initialization succeeds */
+    let mut conf = current.clone();
 
     /* Before loading the default config see if there is a cutsom config
      * provided via reserved arg pointer */
@@ -37,7 +41,7 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
 
     if conf.slots.is_empty() {
         match Config::default_config() {
-            Ok(defconf) => *conf = defconf,
+            Ok(defconf) => conf = defconf,
             Err(_) => return Err(CKR_TOKEN_NOT_PRESENT)?,
         }
     }
@@ -45,34 +49,28 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
     conf.load_env_vars_overrides();
 
     let mut wstate = STATE.wlock_noinitcheck()?;
-    let mut already_init = false;
-
-    if wstate.is_initialized() {
-        already_init = true;
-    } else {
-        wstate.initialize();
-    }
+    let already_init = wstate.is_initialized();
 
     /* create slots for any new slot specified in the configuration
      * that has not been created yet, new slots can be added via
      * init args so we check this every time */
+    let mut slots = Vec::with_capacity(conf.slots.len());
     for slot in &conf.slots {
         let slotnum =
             CK_SLOT_ID::try_from(slot.slot).map_err(|_| CKR_GENERAL_ERROR)?;
-        match Slot::new(slot) {
-            Ok(s) => match wstate.add_slot(slotnum, s) {
-                Ok(_) => (),
-                Err(e) => {
-                    let rv = e.rv();
-                    if rv != CKR_CRYPTOKI_ALREADY_INITIALIZED {
-                        return Err(e)?;
-                    }
-                    already_init = true;
-                }
-            },
-            Err(e) => return Err(e)?,
+        if already_init && wstate.has_slot(slotnum) {
+            continue;
         }
+        slots.push((slotnum, Slot::new(slot)?));
+    }
+
+    if !already_init {
+        wstate.initialize();
+    }
+    for (slotnum, slot) in slots {
+        wstate.add_slot(slotnum, slot)?;
     }
+    *current = conf;
 
     if already_init {
         return Err(CKR_CRYPTOKI_ALREADY_INITIALIZED)?;
diff --git a/src/lib.rs b/src/lib.rs
index 111a908..2e099eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,11 @@ impl State {
         slotids
     }
 
+    /// Checks if a slot is present.
+    pub(crate) fn has_slot(&self, slot_id: CK_SLOT_ID) -> bool {
+        self.slots.contains_key(&slot_id)
+    }
+
     /// Adds a new slot to the global state.
     pub(crate) fn add_slot(
         &mut self,
-- 
2.43.0


From a8553be390d25e88045b8c55d3ca73929297cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 099/111] fix: configuration files found through the
 environment are checked like those of the init args

---
 src/config.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 809d2d5..1f063af 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -376,7 +376,7 @@ impl Config {
     /// Ensure all slot numbers are consistent, and allocates new slot
     /// numbers for slots that have the special invalid slot number of
     /// u32::MAX
-    fn fix_slot_numbers(&mut self) {
+    fn fix_slot_numbers(&mut self) -> Result<()> {
         let mut slotnum: u32 = 0;
         /* if there are any slot missing a valid slot number
          * we are going to allocate slots numbers after the highest
@@ -396,11 +396,16 @@ impl Config {
         if missing {
             for slot in &mut self.slots {
                 if slot.slot == u32::MAX {
+                    if slotnum == u32::MAX {
+                        /* no slot number left */
+                        return Err(CKR_ARGUMENTS_BAD)?;
+                    }
                     slot.slot = slotnum;
                     slotnum += 1;
                 }
             }
         }
+        Ok(())
     }
 
     /// Generates the default configuration structure by searching the default
@@ -408,19 +413,20 @@ impl Config {
     pub fn default_config() -> Result<Config> {
         let filename = Self::find_conf()?;
 
-        match Self::from_file(&filename) {
-            Ok(conf) => Ok(conf),
+        let found = match Self::from_file(&filename) {
+            Ok(conf) => conf,
             Err(e) => {
                 /* attempt fallback, return original error on fail */
                 match Self::from_legacy_conf_string(&filename) {
-                    Ok(mut conf) => {
-                        conf.fix_slot_numbers();
-                        Ok(conf)
-                    }
-                    Err(_) => return Err(e),
+                    Ok(conf) if !conf.slots.is_empty() => conf,
+                    _ => return Err(e),
                 }
             }
-        }
+        };
+
+        let mut conf = Self::new();
+        conf.merge(found)?;
+        Ok(conf)
     }
 
     /// Load environment variables overrides for configurations items.
@@ -496,7 +502,12 @@ impl Config {
     /// reserved argument of the `C_Initialize()` function.
     pub fn from_init_args(&mut self, args: &str) -> Result<()> {
         let conf = self.conf_from_args(args)?;
+        self.merge(conf)
+    }
 
+    /// Adds the slots of a configuration to those already loaded, fails if
+    /// they are in contradiction
+    fn merge(&mut self, conf: Config) -> Result<()> {
         /* global settings come from the first configuration loaded */
         if self.slots.is_empty() {
             self.ec_point_encoding = conf.ec_point_encoding;
@@ -517,7 +528,8 @@ impl Config {
                     }
                 } else {
                     if slot.slot != s.slot {
-                        if s.dbtype.as_deref() == slot.dbtype.as_deref()
+                        if s.dbargs.is_some()
+                            && s.dbtype.as_deref() == slot.dbtype.as_deref()
                             && s.dbargs.as_deref() == slot.dbargs.as_deref()
                         {
                             /* already loaded in a different slot, fail! */
@@ -539,7 +551,6 @@ impl Config {
                 self.slots.push(slot);
             }
         }
-        self.fix_slot_numbers();
-        Ok(())
+        self.fix_slot_numbers()
     }
 }
-- 
2.43.0


From ad1e57f4a5346fa39a70e60a349886a10b291e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 100/111] fix: NSS configuration strings with several flags,
 escapes or a one character last value

---
 src/storage/nssdb/config.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/storage/nssdb/config.rs b/src/storage/nssdb/config.rs
index 5b2f9f7..893484a 100644
--- a/src/storage/nssdb/config.rs
+++ b/src/storage/nssdb/config.rs
@@ -111,7 +111,7 @@ impl NSSConfig {
         let mut idx = 0;
         while idx < args.len() {
             let next = match args[idx..].iter().position(|&x| x == ',' as u8) {
-                Some(n) => n,
+                Some(n) => idx + n,
                 None => args.len(),
             };
             let flag = String::from_utf8_lossy(&args[idx..next]).to_lowercase();
@@ -130,6 +130,21 @@ impl NSSConfig {
         Ok(())
     }
 
+    /// Removes backslash escapes from a parameter value
+    fn unescape(value: &[u8]) -> String {
+        let mut out = Vec::<u8>::with_capacity(value.len());
+        let mut escaped = false;
+        for c in value {
+            if *c == b'\\' && !escaped {
+                escaped = true;
+                continue;
+            }
+            escaped = false;
+            out.push(*c);
+        }
+        String::from_utf8_lossy(&out).to_string()
+    }
+
     /// Parses a single key-value parameter from the configuration string.
     ///
     /// Handles different value delimiters ('"', '\'', '(', '{', '[', '<', or
@@ -146,7 +161,7 @@ impl NSSConfig {
             None => Err(CKR_ARGUMENTS_BAD)?,
         };
 
-        if args.len() <= idx + 2 {
+        if args.len() <= idx + 1 {
             return Err(CKR_ARGUMENTS_BAD)?;
         }
 
@@ -170,8 +185,8 @@ impl NSSConfig {
 
                 /* backtrack check for escapes */
                 let mut esc = 0;
-                while esc < pos {
-                    if args[pos - 1 - esc] == '\\' as u8 {
+                while esc < idx - valx {
+                    if args[idx - 1 - esc] == '\\' as u8 {
                         esc += 1;
                     } else {
                         break;
@@ -195,13 +210,16 @@ impl NSSConfig {
             }
         }
 
-        value = String::from_utf8_lossy(&args[valx..idx]).to_string();
+        value = Self::unescape(&args[valx..idx]);
 
         if idx < args.len() {
             /* accounting for the space separator */
             idx += 1;
             if find != END_VALUE {
                 /* accounting for the closing brace/quote/symbol */
+                if idx < args.len() && args[idx] != END_VALUE {
+                    return Err(CKR_ARGUMENTS_BAD)?;
+                }
                 idx += 1;
             }
         }
-- 
2.43.0


From 387279ebb32fcfa14bc1407786854e62ccdf3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 101/111] fix: empty strings are padded in the information
 structures

---
 src/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index aacee82..b38472e 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -202,7 +202,7 @@ pub fn common_derive_key_object(
 pub fn copy_sized_string(s: &[u8], d: &mut [u8]) {
     let slen;
     match s.last() {
-        None => return,
+        None => slen = 0,
         Some(c) => {
             if *c == b'\0' {
                 slen = s.len() - 1;
-- 
2.43.0


From 76917319179e6319bac6732f76c002b3c5c9bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 102/111] fix: NSS tokens without the certificate or key
 database can be used

---
 src/storage/nssdb/mod.rs | 47 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index e048d76..18a644e 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -382,18 +382,22 @@ impl NSSStorage {
 
         tx.commit()?;
         /* Call check_columns for its side effect of initializing self.cols */
-        Self::check_columns(
-            &mut conn,
-            &mut self.cols,
-            NSS_PUBLIC_SCHEMA,
-            NSS_PUBLIC_TABLE,
-        )?;
-        Self::check_columns(
-            &mut conn,
-            &mut self.cols,
-            NSS_PRIVATE_SCHEMA,
-            NSS_PRIVATE_TABLE,
-        )?;
+        if !self.config.no_cert_db {
+            Self::check_columns(
+                &mut conn,
+                &mut self.cols,
+                NSS_PUBLIC_SCHEMA,
+                NSS_PUBLIC_TABLE,
+            )?;
+        }
+        if !self.config.no_key_db {
+            Self::check_columns(
+                &mut conn,
+                &mut self.cols,
+                NSS_PRIVATE_SCHEMA,
+                NSS_PRIVATE_TABLE,
+            )?;
+        }
         Ok(())
     }
 
@@ -713,10 +717,9 @@ impl NSSStorage {
             }
         }
         /* attributes that have no column match no object */
-        if template
-            .iter()
-            .any(|a| !is_db_attribute(a.type_) || is_skippable_attribute(a.type_))
-        {
+        if template.iter().any(|a| {
+            !is_db_attribute(a.type_) || is_skippable_attribute(a.type_)
+        }) {
             return Ok(None);
         }
         for attr in template {
@@ -816,7 +819,9 @@ impl NSSStorage {
             None => return Ok(result),
         };
         let mut conn = self.conn.lock()?;
-        if let Some(ref sql) = query.public {
+        if let Some(sql) =
+            query.public.as_ref().filter(|_| !self.config.no_cert_db)
+        {
             let mut public = Self::search_with_params(
                 &mut conn,
                 sql,
@@ -825,7 +830,9 @@ impl NSSStorage {
             )?;
             result.append(&mut public);
         }
-        if let Some(ref sql) = query.private {
+        if let Some(sql) =
+            query.private.as_ref().filter(|_| !self.config.no_key_db)
+        {
             let mut private = Self::search_with_params(
                 &mut conn,
                 sql,
@@ -858,6 +865,10 @@ impl NSSStorage {
 
     /// Fetches the password check entry from metadata.
     fn fetch_password(&self) -> Result<(Vec<u8>, Vec<u8>)> {
+        if self.config.no_key_db {
+            /* pins are stored in the key database */
+            return Err(CKR_USER_PIN_NOT_INITIALIZED)?;
+        }
         match self.fetch_metadata("password") {
             Ok((salt, value)) => Ok((salt, value)),
             Err(e) => match e.rv() {
-- 
2.43.0


From 491a2851452fa9f15df620460e2e627c7e88d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 103/111] fix: C_Login and C_Logout lock the state exclusively

---
 src/fns/sessmgmt.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 394547e..e6c091e 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -289,7 +289,11 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* The state is locked exclusively because the token lock is held while
+     * all the sessions are changed, other operations acquire these locks in
+     * the opposite order. This also makes the change visible at once in all
+     * the sessions. */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
@@ -367,7 +371,8 @@ pub extern "C" fn fn_login(
 
 #[inline(always)]
 fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* exclusive for the same reasons as in login() */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
-- 
2.43.0


From dc539eb9eacae560afd1b7492fe02c271e4de8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 104/111] fix: do not replace private duplicates without access
 to them

With objects_dedup set, creating a public object as the SO found and
overwrote a private object of the user, making it public.
---
 src/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 4099838..9a79d50 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -701,7 +701,13 @@ impl Token {
         &mut self,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Option<CK_OBJECT_HANDLE>> {
-        let r = self.storage.search(&mut self.facilities, template)?;
+        let mut tmpl = CkAttrs::from(template);
+        if !self.private_access() {
+            /* private objects can't be replaced, nor their existence
+             * revealed, without access to them */
+            tmpl.add_owned_bool(CKA_PRIVATE, CK_FALSE)?;
+        }
+        let r = self.storage.search(&mut self.facilities, tmpl.as_slice())?;
         return match r.len() {
             0 => Ok(None),
             1 => Ok(Some(r[0])),
-- 
2.43.0


From af73f20a4757f992c1a5ba34689e0084a9bb68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 105/111] fix: leave no attribute of a replaced duplicate
 behind

---
 src/token.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index 9a79d50..4ac7640 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 use std::collections::HashMap;
 use std::vec::Vec;
 
-use crate::attribute::CkAttrs;
+use crate::attribute::{Attribute, CkAttrs};
 use crate::config::ObjectsDedup;
 use crate::defaults;
 use crate::error::Result;
@@ -801,13 +801,7 @@ impl Token {
                     }
                 }
             } {
-                let mut updt = CkAttrs::from_attributes(obj.get_attributes())?;
-                let _ = updt.remove_attr(CKA_UNIQUE_ID);
-                self.storage.update(
-                    &self.facilities,
-                    handle,
-                    updt.as_slice(),
-                )?;
+                self.replace_object(handle, obj.clone())?;
                 return Ok(Some(handle));
             }
         } else {
@@ -821,6 +815,48 @@ impl Token {
         Ok(None)
     }
 
+    /// Replaces a stored object with a new one that takes over its handle.
+    ///
+    /// None of the attributes of the original object is left, keeping those
+    /// the new object does not have would expose them under its rules.
+    fn replace_object(
+        &mut self,
+        handle: CK_OBJECT_HANDLE,
+        mut obj: Object,
+    ) -> Result<()> {
+        let uid = match self.facilities.handles.get(handle) {
+            Some(u) => u.clone(),
+            None => return Err(CKR_OBJECT_HANDLE_INVALID)?,
+        };
+        obj.set_attr(Attribute::from_string(CKA_UNIQUE_ID, uid.clone()))?;
+
+        self.storage.begin()?;
+        let mut id = uid.clone();
+        let mut result = self.storage.remove(&self.facilities, handle);
+        self.facilities.handles.remove(handle);
+        if result.is_ok() {
+            result = match self.storage.store(&mut self.facilities, obj) {
+                Ok(h) => {
+                    if let Some(i) = self.facilities.handles.get(h) {
+                        id = i.clone();
+                    }
+                    self.facilities.handles.remove(h);
+                    Ok(())
+                }
+                Err(e) => Err(e),
+            };
+        }
+        match result {
+            Ok(()) => result = self.storage.commit(),
+            Err(_) => self.storage.rollback(),
+        }
+        if result.is_err() {
+            id = uid;
+        }
+        self.facilities.handles.insert(handle, id)?;
+        result
+    }
+
     /// Creates a new object based on a template.
     ///
     /// Dispatches to the appropriate object factory via
-- 
2.43.0


From 73df58bfabcd6686bca0d4fa7e4924a7662f8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 106/111] fix: softhsm_migrate honours the requested slot

---
 tools/softhsm/migrate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 7fad830..2f1a7c1 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -1044,6 +1044,10 @@ fn main() -> ExitCode {
         }
     }
 
+    if let Some(slot) = args.pkcs11_slot {
+        pkcs11.slot = slot as CK_ULONG;
+    }
+
     if let Some(pin) = args.pkcs11_pin.as_deref() {
         match pkcs11.login(pin) {
             Ok(_) => (),
-- 
2.43.0


From cba685d6d728992be578977930c726ab0cbbb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 107/111] fix: softhsm_migrate reports many failures correctly

---
 tools/softhsm/migrate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 2f1a7c1..9b83248 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -933,6 +933,8 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
         }
     };
 
+    /* exit codes above this value denote fatal errors */
+    const MAX_ERRORS: u8 = 0xFD;
     let mut error = 0u8;
 
     for ent in read_dir(token).unwrap() {
@@ -951,7 +953,7 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
             Ok(a) => a,
             Err(e) => {
                 eprintln!("Failed to parse: {}", e);
-                error += 1;
+                error = MAX_ERRORS.min(error.saturating_add(1));
                 continue;
             }
         };
@@ -963,7 +965,7 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                     Ok(()) => println!("Key imported"),
                     Err(s) => {
                         eprintln!("Failed to import key: {}", s);
-                        error += 1;
+                        error = MAX_ERRORS.min(error.saturating_add(1));
                     }
                 }
             }
@@ -972,13 +974,13 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                     Ok(()) => println!("Object imported"),
                     Err(s) => {
                         eprintln!("Failed to import object {}:", s);
-                        error += 1;
+                        error = MAX_ERRORS.min(error.saturating_add(1));
                     }
                 }
             }
             _ => {
                 eprintln!("Unsupported object class({})", class);
-                error += 1;
+                error = MAX_ERRORS.min(error.saturating_add(1));
             }
         }
     }
-- 
2.43.0


From 23bb282526a6236870687a631003d9444e3a7bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 108/111] fix: softhsm_migrate converts allowed mechanisms to
 native values

---
 tools/softhsm/migrate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 9b83248..805e581 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -675,16 +675,18 @@ fn read_next_attribute(
             index += 8;
 
             if count > 0 {
-                let len = count * 8;
-                if data.len() < index + len {
+                if (data.len() - index) / 8 < count {
                     return Err(format!(
                         "Error parsing mechset attr {} (out of bounds)",
                         attr_type
                     )
                     .into());
                 }
-                attr.value.extend_from_slice(&data[index..index + len]);
-                index += len;
+                for _ in 0..count {
+                    let value = ck_ulong_from_buf(&data, index);
+                    attr.value.extend_from_slice(&value.to_ne_bytes());
+                    index += 8;
+                }
             }
         }
         _ => return Err(format!("Invalid type for attr {}", attr_type).into()),
-- 
2.43.0


From 3657f83d49719602dd37abe15bccb0292ae0916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 109/111] fix: softhsm_migrate decrypts what is encrypted, and
 only that

---
 tools/softhsm/migrate.rs | 67 +++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 805e581..59a41c8 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -498,6 +498,7 @@ const ATTRMAP_ATTR: u64 = 4;
 const MECHSET_ATTR: u64 = 5;
 
 struct Attribute {
+    kind: u64,
     value: Vec<u8>,
     attr: CK_ATTRIBUTE,
 }
@@ -593,6 +594,7 @@ fn read_next_attribute(
             let mut subattrs = Vec::<Attribute>::new();
             while subidx < len {
                 let mut subattr = Attribute {
+                    kind: 0,
                     value: Vec::new(),
                     attr: CK_ATTRIBUTE {
                         type_: 0,
@@ -692,6 +694,7 @@ fn read_next_attribute(
         _ => return Err(format!("Invalid type for attr {}", attr_type).into()),
     }
 
+    attr.kind = attr_kind;
     attr.attr.type_ = attr_type as CK_ULONG;
     if attr.value.len() > 0 {
         attr.attr.pValue = attr.value.as_ptr() as *const _ as CK_VOID_PTR;
@@ -720,6 +723,7 @@ fn read_object(path: &PathBuf) -> Result<Vec<Attribute>, Error> {
 
     while size > index {
         let mut attr = Attribute {
+            kind: 0,
             value: Vec::new(),
             attr: CK_ATTRIBUTE {
                 type_: 0,
@@ -790,6 +794,40 @@ fn find_ulong(
     return val;
 }
 
+/* Byte strings of private objects are encrypted, those of public ones are not */
+fn is_private(class: CK_OBJECT_CLASS, attrs: &Vec<Attribute>) -> bool {
+    match attrs.iter().find(|a| a.attr.type_ == CKA_PRIVATE) {
+        Some(a) => a.value.iter().any(|b| *b != 0),
+        None => class == CKO_PRIVATE_KEY || class == CKO_SECRET_KEY,
+    }
+}
+
+fn decrypt_attrs(
+    pkcs11: &mut FuncList,
+    attrs: &mut Vec<Attribute>,
+    ekey: &Vec<u8>,
+) -> Result<(), String> {
+    for a in attrs {
+        /* Only byte strings are encrypted, and encrypted ones are always
+         * bigger than 16 bytes (IV size) */
+        if a.kind != BYTESTR_ATTR || a.attr.ulValueLen <= 16 {
+            continue;
+        }
+        match decrypt_cbc_buffer(pkcs11, a.value.as_slice(), ekey) {
+            Ok(v) => {
+                /* replace encrypted with plain text */
+                a.value = v;
+                a.attr.pValue = a.value.as_ptr() as *const _ as CK_VOID_PTR;
+                a.attr.ulValueLen = a.value.len() as CK_ULONG;
+            }
+            Err(e) => {
+                return Err(format!("Failed to decrypt values: {}", e));
+            }
+        }
+    }
+    Ok(())
+}
+
 fn import_obj(
     pkcs11: &mut FuncList,
     class: CK_OBJECT_CLASS,
@@ -873,26 +911,8 @@ fn import_key(
         _ => return Err(format!("Unsupported key type {:x}", key_type)),
     }
 
-    for a in &mut *attrs {
-        /* Skip values that are not byte buffers but can be larger than 16 bytes */
-        match a.attr.type_ {
-            CKA_ALLOWED_MECHANISMS => continue,
-            _ => (),
-        }
-        /* Assume all other values bigger than 16 bytes (IV size) are encrypted */
-        if a.attr.ulValueLen > 16 {
-            match decrypt_cbc_buffer(pkcs11, a.value.as_slice(), ekey) {
-                Ok(v) => {
-                    /* replace encrypted with plain text */
-                    a.value = v;
-                    a.attr.pValue = a.value.as_ptr() as *const _ as CK_VOID_PTR;
-                    a.attr.ulValueLen = a.value.len() as CK_ULONG;
-                }
-                Err(e) => {
-                    return Err(format!("Failed to decrypt key values: {}", e));
-                }
-            }
-        }
+    if is_private(class, attrs) {
+        decrypt_attrs(pkcs11, attrs, ekey)?;
     }
     import_obj(pkcs11, class, attrs)
 }
@@ -972,7 +992,12 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
                 }
             }
             CKO_CERTIFICATE | CKO_PUBLIC_KEY => {
-                match import_obj(pkcs11, class, &attrs) {
+                let ret = if is_private(class, &attrs) {
+                    decrypt_attrs(pkcs11, &mut attrs, &encryptionkey)
+                } else {
+                    Ok(())
+                };
+                match ret.and_then(|_| import_obj(pkcs11, class, &attrs)) {
                     Ok(()) => println!("Object imported"),
                     Err(s) => {
                         eprintln!("Failed to import object {}:", s);
-- 
2.43.0


From 308930dea0f6e1fe5ff7de33166aa3f150b3e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 110/111] fix: softhsm_migrate does not panic on malformed
 tokens

---
 tools/softhsm/migrate.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 59a41c8..7189799 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -562,7 +562,7 @@ fn read_next_attribute(
             index += 8;
 
             if len > 0 {
-                if data.len() < index + len {
+                if data.len() - index < len {
                     return Err(format!(
                         "Error parsing bytestr attr {} (out of bounds)",
                         attr_type
@@ -583,7 +583,7 @@ fn read_next_attribute(
             }
             let len = u64_from_buf(data, index) as usize;
             index += 8;
-            if data.len() < index + len {
+            if data.len() - index < len {
                 return Err(format!(
                     "Error parsing attrmap attr {} (out of bounds)",
                     attr_type
@@ -603,7 +603,7 @@ fn read_next_attribute(
                     },
                 };
                 let step = read_next_attribute(
-                    &data[index..index + len],
+                    &data[index + subidx..index + len],
                     &mut subattr,
                 )?;
                 subidx += step;
@@ -746,6 +746,9 @@ fn encryption_key(
     ek: &Vec<u8>,
     pin: &Vec<u8>,
 ) -> Result<Vec<u8>, Error> {
+    if ek.len() <= 24 {
+        return Err("Encrypted key too short".into());
+    }
     let salt = &ek[0..8]; /* 8 bytes salt */
 
     let session = pkcs11.open_session()?;
@@ -774,7 +777,7 @@ fn encryption_key(
     }
 
     let key = decrypt_cbc_buffer(pkcs11, &ek[8..], &data)?;
-    if key[0..3] != MAGIC_VALUE {
+    if !key.starts_with(&MAGIC_VALUE) {
         return Err("Invalid PIN, magic value check failed!".into());
     }
     Ok(key[3..].to_vec())
@@ -787,6 +790,9 @@ fn find_ulong(
     let mut val = CK_UNAVAILABLE_INFORMATION;
     for a in attrs {
         if a.attr.type_ == typ {
+            if a.kind != ULONG_ATTR || a.value.len() != CK_ULONG_SIZE {
+                break;
+            }
             val = unsafe { *(a.attr.pValue as CK_ULONG_PTR) };
             break;
         }
@@ -959,12 +965,20 @@ fn migrate(pkcs11: &mut FuncList, token: &PathBuf, pin: &Vec<u8>) -> u8 {
     const MAX_ERRORS: u8 = 0xFD;
     let mut error = 0u8;
 
-    for ent in read_dir(token).unwrap() {
-        let f = ent.unwrap();
-        if !f.file_type().unwrap().is_file() {
+    let dir = match read_dir(token).and_then(|d| d.collect::<Result<Vec<_>, _>>())
+    {
+        Ok(d) => d,
+        Err(e) => {
+            eprintln!("{}", e);
+            return 0xFE;
+        }
+    };
+
+    for f in dir {
+        if !f.file_type().is_ok_and(|t| t.is_file()) {
             continue;
         }
-        let fname = f.file_name().into_string().unwrap();
+        let fname = f.file_name().to_string_lossy().into_owned();
         if !fname.ends_with(".object") || fname == "token.object" {
             continue;
         }
-- 
2.43.0


From 449c042d5fd137472b84540d242af13ea104fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 111/111] fix: softhsm_migrate never creates session objects

---
 tools/softhsm/migrate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/softhsm/migrate.rs b/tools/softhsm/migrate.rs
index 7189799..5659c80 100644
--- a/tools/softhsm/migrate.rs
+++ b/tools/softhsm/migrate.rs
@@ -839,7 +839,7 @@ fn import_obj(
     class: CK_OBJECT_CLASS,
     attrs: &Vec<Attribute>,
 ) -> Result<(), String> {
-    let mut tmpl = Vec::<CK_ATTRIBUTE>::with_capacity(attrs.len());
+    let mut tmpl = Vec::<CK_ATTRIBUTE>::with_capacity(attrs.len() + 1);
     for a in attrs {
         if a.value.len() == 0 {
             /* No point in importing empty values */
@@ -850,6 +850,10 @@ fn import_obj(
         if a.attr.type_ == CKA_UNIQUE_ID {
             continue;
         }
+        /* stored objects are always token objects, set explicitly below */
+        if a.attr.type_ == CKA_TOKEN {
+            continue;
+        }
         match class {
             CKO_PRIVATE_KEY => {
                 if a.attr.type_ == CKA_LOCAL
@@ -885,6 +889,9 @@ fn import_obj(
         tmpl.push(a.attr);
     }
 
+    let token: CK_BBOOL = CK_TRUE;
+    tmpl.push(make_attribute!(CKA_TOKEN, &token, CK_BBOOL_SIZE));
+
     let session = match pkcs11.open_session() {
         Ok(s) => s,
         Err(e) => return Err(format!("Failed to get pkcs11 session: {}", e)),
-- 
2.43.0

