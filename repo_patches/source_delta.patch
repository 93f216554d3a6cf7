From 224fb6a2baf687db5829f8fd198b52031c126f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 01/14] fix: RC5 panicked on an empty key, which RC5 defines as
 one zero word

---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..60bea77 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1); // an empty key is one zero word
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0);
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From a7c3812796c6e1c42bb455feea84a65a1254dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 02/14] fix: converting Hash384/Hash512 to words always
 panicked

---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From f8547de1a8a822639f163d39907619b328d7d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 03/14] fix: BigUint >>= panicked when shifting by more than
 its length

---
 src/big/uint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..47bef00 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let len = self.bytes.len();
+            self.bytes.splice(0..len.min(steps as usize), []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From 97faf7fa934a25288bd2d56993a0da57e30211cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 04/14] fix: BigUint zero <<= 8 or more left a non-canonical
 zero

---
 src/big/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 47bef00..a29e230 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
-- 
2.43.0


From 4af84f221e40bb2cc6f44300b491c95651a00743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 05/14] fix: clearing the top bits of a BigUint left it
 non-canonical, and its queries panicked

---
 src/big/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index a29e230..4acdddf 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -91,7 +91,6 @@ impl BigUint {
         (self.bytes[byte_idx] >> bit_idx) & 1 != 0
     }
 
-    /** Note: after calling this function the bits_used field might be wrong */
     pub fn update(&mut self, idx: u32, set: bool) {
         if self.bytes.is_empty() {
             panic!("not enough space");
@@ -105,6 +104,7 @@ impl BigUint {
             self.bytes[byte_idx] |= 1 << bit_idx;
         } else {
             self.bytes[byte_idx] &= !(1 << bit_idx);
+            self.trim_trailing_zeroes();
         }
     }
 
-- 
2.43.0


From a46c6d1ad26f1b921738f8735761771b747ebc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 06/14] fix: ASN.1 decoding panicked on truncated or oversized
 length fields and misread indefinite and huge lengths

---
 src/pem/asn1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..8b3deb4 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,11 +16,14 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes == 0 || length_bytes > 16 || length_bytes > bytes.len() - 2 {
+                return Err(format!("tag ({tag}) had an invalid length"));
+            }
             let mut length = 0u128.to_be_bytes();
             length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
             (
                 &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
+                usize::try_from(<u128>::from_be_bytes(length)).unwrap_or(usize::MAX),
             )
         } else {
             (&bytes[2..], bytes[1] as usize)
-- 
2.43.0


From d61283f619e35296bb728b275d9bcea373ed437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 07/14] fix: ASN.1 decoding panicked on an empty bit string

---
 src/pem/asn1.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 8b3deb4..0ead3ae 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -39,6 +39,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no data".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0


From da547621a70df376c97b1dda6f09cd25aca05093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 08/14] fix: ASN.1 decoding silently dropped the contents of a
 null

---
 src/pem/asn1.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 0ead3ae..6e0ffbf 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -41,6 +41,7 @@ impl Asn1 {
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
             0x03 if length == 0 => return Err("bit string had no data".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
+            0x05 if length != 0 => return Err("null had data".to_string()),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 => {
-- 
2.43.0


From b2c4aaed63f40c7c3fd729047bc78f6ceaf52576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 09/14] fix: ASN.1 decoding overflowed the stack on deeply
 nested sequences

---
 src/pem/asn1.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 6e0ffbf..8bc7c60 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,14 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+// deeper nesting is rejected, since decoding is recursive and must not exhaust the stack
+const MAX_DEPTH: usize = 128;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
+        if depth > MAX_DEPTH {
+            return Err("too deeply nested".to_string());
+        }
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -48,7 +54,7 @@ impl Asn1 {
                 let mut left = &*rest[..length].to_owned();
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -65,7 +71,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 0)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From 845db2e1f22caaf24c08974a4a3519868f30d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 10/14] fix: OAEP decoding panicked on encodings of the wrong
 length

---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..04f8ec7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From 106ac94a13e9663a7a8585e4ffb922cc6886153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 11/14] fix: padded RSA failed to decrypt when the ciphertext
 number had a leading zero byte

---
 src/rsa/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..eb20664 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,14 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let n_len = self.modulo_len();
+        let m = padding.encode(b"", plaintext, n_len);
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        to_fixed_be_bytes(&self.encrypt(m), n_len)
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,18 +134,27 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
+        let n_len = self.modulo_len();
         let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let m = to_fixed_be_bytes(&d, n_len);
 
-        padding.decode(b"", &m, m.len()).unwrap()
+        padding.decode(b"", &m, n_len).unwrap()
     }
 
     pub fn decrypt(&self, c: BigUint) -> BigUint {
         pow_mod(&c, &self.exponent, &self.modulo)
     }
+
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
+    }
+}
+
+fn to_fixed_be_bytes(n: &BigUint, len: usize) -> Vec<u8> {
+    let bytes = n.to_be_bytes();
+    let mut res = vec![0; len - bytes.len()];
+    res.extend(bytes);
+    res
 }
 
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
-- 
2.43.0


From 881ea80865fe5d1fc68d251054bd023be76531d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 12/14] fix: create_keys returned a wrong key in release builds
 when p * q exceeds 128 bits

---
 src/rsa/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index eb20664..46be70b 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -45,7 +45,7 @@ pub fn create_keys(p: BigUint, q: BigUint, e: BigUint) -> (PrivateKey, PublicKey
     let q: u128 = q.as_u128().unwrap();
     let e: u128 = e.as_u128().unwrap();
 
-    let n = p * q;
+    let n = p.checked_mul(q).expect("p * q must fit in 128 bits");
 
     let l = lcm(p - 1, q - 1);
     let d = inverse(e, l).unwrap();
-- 
2.43.0


From b04171f60cb2ed245ce00a50092e9a9c567c4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 13/14] fix: bit unpadding accepted blocks with data after the
 marker byte

---
 src/pad.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..5198080 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
-- 
2.43.0


From 9dee14020855b16de27de9539917ac7bbaf2c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:18 +0000
Subject: [PATCH 14/14] fix: PKCS unpadding accepted blocks with invalid
 padding

---
 src/pad.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pad.rs b/src/pad.rs
index 5198080..8a2e786 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -48,6 +48,9 @@ impl<const N: usize> PkcsPadding<N> {
         if amt as usize > N {
             panic!("padding byte is too big");
         }
+        if amt == 0 || block[N - amt as usize..].iter().any(|&b| b != amt) {
+            panic!("invalid padding");
+        }
         N - amt as usize
     }
 }
-- 
2.43.0

