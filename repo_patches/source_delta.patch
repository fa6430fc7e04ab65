From e5ff0052018142161260ed72f319158bd4f41225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 01/15] fix: RSA signing sporadically failed for keys with p <
 q

In CRT recombination, `m_2` (mod q) was subtracted mod p without
being reduced mod p first.  If q > p this left a value out of range for
some messages, and signing then failed.
---
 graviola/src/mid/rsa_priv.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..6d1a0c2 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -164,12 +164,14 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (m_2 is reduced mod p first: it is larger than p if q is.)
+        let m_2: RsaPosIntModN = m_2.widen();
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2.reduce(&self.p, &self.p_montifier), &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-        let m = m_2.widen().add(&low::PosInt::mul(&self.q, &h));
+        let m = m_2.add(&low::PosInt::mul(&self.q, &h));
         let m = low::ct::into_public(m);
 
         // validate the result as a fault attack countermeasure,
-- 
2.43.0


From ef1ebbb0475c102901afdb1a2bdc215894a2fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 02/15] fix: RSA with a modulus that is not a multiple of 64
 bits

Signatures came out longer than the modulus (or signing failed, if the
output was precisely as long), and verification always failed.
---
 graviola/src/high/rsa.rs   | 11 ++++++-----
 graviola/src/low/posint.rs | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..10b5614 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -143,7 +143,7 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = m.to_bytes_fixed(&mut m_bytes[..self.0.modulus_len_bytes()])?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -219,9 +219,10 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_fixed(m_bytes)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig::<H>(m_bytes, hash.as_ref())
     }
 }
 
@@ -522,7 +523,7 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_fixed(&mut signature[..self.0.modulus_len_bytes()])
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -542,7 +543,7 @@ impl SigningKey {
         pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_fixed(&mut signature[..self.0.modulus_len_bytes()])
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..f53d332 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,24 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but the result precisely fills `out`.
+    ///
+    /// It is zero-padded on the left as needed.  An error is returned if
+    /// the value does not fit.
+    pub(crate) fn to_bytes_fixed<'a>(&self, out: &'a mut [u8]) -> Result<&'a [u8], Error> {
+        if self.len_bytes() > out.len() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0x00);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            let word = word.to_be_bytes();
+            chunk.copy_from_slice(&word[word.len() - chunk.len()..]);
+        }
+
+        Ok(out)
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
-- 
2.43.0


From e308420fedfa45cf8deabf3b8feb63e4345dc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 03/15] fix: RSA-PSS with a modulus that is not a whole number
 of bytes

EMSA-PSS works with emBits, the modulus bit length less one.  This was
assumed to be 8 * emLen - 1, so signing failed sporadically and
did not interoperate for other moduli.
---
 graviola/src/high/pkcs1.rs   | 46 +++++++++++++++++++++++++++++-------
 graviola/src/high/rsa.rs     | 12 ++++++----
 graviola/src/mid/rsa_priv.rs |  4 ++++
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..d9ffc45 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -75,11 +75,13 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 ///
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
-/// `out` is the modulus-length output buffer.
+/// `out` is the `emLen`-length output buffer.
+/// `em_bits` is the modulus bit length, less one.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -132,7 +134,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= pss_top_mask(em_len, em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -143,16 +145,32 @@ pub(crate) fn encode_pss_sig<H: Hash>(
     Ok(())
 }
 
+/// `encode_pss_sig_bits`, for a modulus that is a whole number of bytes.
+#[cfg(test)]
+pub(crate) fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    encode_pss_sig_bits::<H>(out, out.len() * 8 - 1, rng, hash)
+}
+
 /// This is EMSA-PSS-VERIFY.
 ///
-/// `sLen` is fixed as `hLen`, like `encode_pss_sig`.
+/// `sLen` is fixed as `hLen`, like `encode_pss_sig_bits`.
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
-/// `em` is the modulus-length input and temporary buffer.
+/// `em` is the `emLen`-length input and temporary buffer.
+///
+/// `em_bits` is the modulus bit length, less one.
 ///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -181,7 +199,8 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    let top_mask = pss_top_mask(em_len, em_bits);
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +211,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -229,6 +248,17 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     }
 }
 
+/// `verify_pss_sig_bits`, for a modulus that is a whole number of bytes.
+#[cfg(test)]
+pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    verify_pss_sig_bits::<H>(em, em.len() * 8 - 1, m_hash)
+}
+
+/// Clears the leftmost 8emLen - emBits bits of an octet.
+fn pss_top_mask(em_len: usize, em_bits: usize) -> u8 {
+    0xff >> (8 * em_len - em_bits)
+}
+
 /// Compute MGF1-H, and XOR the result into `out`.
 fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 10b5614..7c1b971 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -219,10 +219,11 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
-        m.to_bytes_fixed(m_bytes)?;
+        let em_bits = self.0.n.len_bits() - 1;
+        let m_bytes = &mut m_bytes[..em_bits.div_ceil(8)];
+        m.to_bytes_fixed(m_bytes).map_err(|_| Error::BadSignature)?;
 
-        pkcs1::verify_pss_sig::<H>(m_bytes, hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(m_bytes, em_bits, hash.as_ref())
     }
 }
 
@@ -538,9 +539,10 @@ impl SigningKey {
         let hash = H::hash(message);
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m = &mut m[..self.0.modulus_len_bytes()];
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m = &mut m[..em_bits.div_ceil(8)];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(m, em_bits, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
         c.to_bytes_fixed(&mut signature[..self.0.modulus_len_bytes()])
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 6d1a0c2..06506b0 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.n.len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
-- 
2.43.0


From a07a3572fd6c0120fc6bbe7817d26328f5b15a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 04/15] fix: reject RSA signatures that are not as long as the
 modulus

RFC8017 8.1.2 and 8.2.2 step 1.  Signatures with added (PKCS1) or
removed leading zeroes were accepted.
---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 7c1b971..4365e68 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 542c352bdf67aa5d90823d536dbd265e4614cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:15 +0000
Subject: [PATCH 05/15] fix: reject P-256 and P-384 points with unreduced
 coordinates

---
 graviola/src/mid/p256.rs | 6 ++++++
 graviola/src/mid/p384.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..641a56f 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // coordinates must be in the range [0, p - 1]: `as_mont()` reduces
+        // larger values, so they show up as a different encoding.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..132040a 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // coordinates must be in the range [0, p - 1]: `as_mont()` reduces
+        // larger values, so they show up as a different encoding.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
-- 
2.43.0


From 0de6ed5c13c22e69dad16935d745a41d527471be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:02 +0000
Subject: [PATCH 06/15] fix: reject RSA private keys with negative numbers

---
 graviola/src/high/rsa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 4365e68..3dbc0db 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -284,7 +284,14 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        if decoded.modulus.is_negative()
+            || decoded.privateExponent.is_negative()
+            || decoded.prime1.is_negative()
+            || decoded.prime2.is_negative()
+            || decoded.exponent1.is_negative()
+            || decoded.exponent2.is_negative()
+            || decoded.coefficient.is_negative()
+        {
             return Err(Error::OutOfRange);
         }
 
-- 
2.43.0


From 539345df2afe761f3a6883db2018b6937ef54812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 07/15] fix: reject PKCS#8 keys followed by trailing data

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From f9cd7eae45e86cf618b71debc378be94aae39919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 08/15] fix: export RSA public exponents of 2^31 and above as
 positive

---
 graviola/src/high/rsa.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 3dbc0db..b7629e5 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,11 +85,14 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        let mut public_exponent = [0u8; 5];
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
-            publicExponent: asn1::Integer::new(&public_exponent),
+            publicExponent: asn1::Integer::new_positive(
+                &mut public_exponent,
+                &self.0.e.to_be_bytes(),
+            ),
         };
         let used = pub_key
             .encode(&mut asn1::Encoder::new(output))
@@ -328,7 +331,7 @@ impl SigningKey {
         let used = pkix::RSAPrivateKey {
             version: pkix::Version::two_prime,
             modulus: asn1::Integer::new(components.public_modulus),
-            publicExponent: asn1::Integer::new(components.public_exponent),
+            publicExponent: asn1::Integer::new_positive(&mut [0u8; 5], components.public_exponent),
             prime1: asn1::Integer::new(components.p),
             prime2: asn1::Integer::new(components.q),
             privateExponent: asn1::Integer::new(components.d),
-- 
2.43.0


From 26259bd69dd891d05f36094efba3771f250175f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 09/15] fix: reject RSA private keys with out-of-range CRT
 values

---
 graviola/src/mid/rsa_priv.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 06506b0..bbdce04 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -45,6 +45,13 @@ impl RsaPrivateKey {
             return Err(Error::OutOfRange);
         }
 
+        // RFC8017 section 3.2: these are positive, and less than their moduli
+        for (value, modulus) in [(&dp, &p), (&dq, &q), (&iqmp, &p)] {
+            if value.is_zero() || !value.less_than(modulus) {
+                return Err(Error::OutOfRange);
+            }
+        }
+
         let public = RsaPublicKey::new(n, e)?;
         let p_montifier: SecretRsaPosIntModP = p.montifier().into();
         let q_montifier = q.montifier().into();
-- 
2.43.0


From 4b72fcdfa30f46523ce3a8f040545376ab5a889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:53 +0000
Subject: [PATCH 10/15] fix: reject oversized TLS 1.2 ChaCha20-Poly1305 records

---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From 8f662d0da4b9744b5c1c57f2dd522a4d9ef0ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:08 +0000
Subject: [PATCH 11/15] fix: clear zmm16-31 when leaving functions that handle
 secrets

---
 graviola/src/low/x86_64/cpu.rs | 50 +++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..65c7ba4 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -20,7 +20,6 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             // clear z/y/xmm0-15
             "   vzeroall",
 
-            // TODO: add zmm16-31 here if/when we use AVX512
             out("ymm0") _,
             out("ymm1") _,
             out("ymm2") _,
@@ -39,6 +38,55 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             out("ymm15") _,
         )
     }
+
+    // `vzeroall` does not reach the registers that only exist with avx512,
+    // which our AES-GCM uses.
+    if is_x86_feature_detected!("avx512f") {
+        // SAFETY: this checked for the `avx512f` cpu feature
+        unsafe { zero_zmm16_to_31() }
+    }
+}
+
+#[target_feature(enable = "avx512f")]
+fn zero_zmm16_to_31() {
+    // SAFETY: all registers written are listed as clobbers.
+    unsafe {
+        core::arch::asm!(
+            "   vpxord zmm16, zmm16, zmm16",
+            "   vpxord zmm17, zmm17, zmm17",
+            "   vpxord zmm18, zmm18, zmm18",
+            "   vpxord zmm19, zmm19, zmm19",
+            "   vpxord zmm20, zmm20, zmm20",
+            "   vpxord zmm21, zmm21, zmm21",
+            "   vpxord zmm22, zmm22, zmm22",
+            "   vpxord zmm23, zmm23, zmm23",
+            "   vpxord zmm24, zmm24, zmm24",
+            "   vpxord zmm25, zmm25, zmm25",
+            "   vpxord zmm26, zmm26, zmm26",
+            "   vpxord zmm27, zmm27, zmm27",
+            "   vpxord zmm28, zmm28, zmm28",
+            "   vpxord zmm29, zmm29, zmm29",
+            "   vpxord zmm30, zmm30, zmm30",
+            "   vpxord zmm31, zmm31, zmm31",
+            out("zmm16") _,
+            out("zmm17") _,
+            out("zmm18") _,
+            out("zmm19") _,
+            out("zmm20") _,
+            out("zmm21") _,
+            out("zmm22") _,
+            out("zmm23") _,
+            out("zmm24") _,
+            out("zmm25") _,
+            out("zmm26") _,
+            out("zmm27") _,
+            out("zmm28") _,
+            out("zmm29") _,
+            out("zmm30") _,
+            out("zmm31") _,
+            options(nomem, nostack, preserves_flags),
+        )
+    }
 }
 
 /// Effectively memset(ptr, 0, len), but not visible to optimiser
-- 
2.43.0


From 8221948b78f92e00c248286d20227f4918d541d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 12/15] fix: check for avx2 before using the AVX2 SHA-512

---
 graviola/src/low/x86_64/cpu.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 65c7ba4..c401647 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -242,7 +242,7 @@ impl HaveSha256 {
     }
 }
 
-/// Token type reflecting the check for the BMI2 CPU feature
+/// Token type reflecting the check for the BMI2 and AVX2 CPU features
 ///
 /// A value of this type is proof that the CPU dynamic feature check has happened.
 #[derive(Clone, Copy, Debug)]
@@ -250,7 +250,7 @@ pub(crate) struct HaveBmi2(());
 
 impl HaveBmi2 {
     pub(crate) fn check() -> Option<Self> {
-        match have_cpu_feature!("bmi2") {
+        match have_cpu_feature!("bmi2") && have_cpu_feature!("avx2") {
             true => Some(Self(())),
             false => None,
         }
-- 
2.43.0


From 92ad7cc268fa74dbea3fef424435028f8ae094b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 13/15] fix: refuse CPUs without bmi2

---
 graviola/src/low/x86_64/cpu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c401647..5fa059e 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -292,6 +292,11 @@ pub(crate) fn verify_cpu_features() {
         "graviola requires bmi1 CPU support"
     );
 
+    assert!(
+        is_x86_feature_detected!("bmi2"),
+        "graviola requires bmi2 CPU support"
+    );
+
     // see this valgrind bug: https://bugs.kde.org/show_bug.cgi?id=494162
     assert!(
         have_cpu_feature!("adx") || option_env!("VALGRIND_BUG_494162").is_some(),
-- 
2.43.0


From 13b96cb39080f10192cfa05fe62d2b74b3c3906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 14/15] fix: check the CPU when making ChaCha20-Poly1305 keys

---
 graviola/src/mid/chacha20poly1305.rs  | 1 +
 graviola/src/mid/xchacha20poly1305.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graviola/src/mid/chacha20poly1305.rs b/graviola/src/mid/chacha20poly1305.rs
index 1d350e9..ad12c5c 100644
--- a/graviola/src/mid/chacha20poly1305.rs
+++ b/graviola/src/mid/chacha20poly1305.rs
@@ -16,6 +16,7 @@ pub struct ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     /// Create a new [`ChaCha20Poly1305`] from 32 bytes of key material.
     pub fn new(key: [u8; 32]) -> Self {
+        let _entry = Entry::new_secret();
         Self { key }
     }
 
diff --git a/graviola/src/mid/xchacha20poly1305.rs b/graviola/src/mid/xchacha20poly1305.rs
index 87886d7..aebe147 100644
--- a/graviola/src/mid/xchacha20poly1305.rs
+++ b/graviola/src/mid/xchacha20poly1305.rs
@@ -16,6 +16,7 @@ pub struct XChaCha20Poly1305 {
 impl XChaCha20Poly1305 {
     /// Create a new [`XChaCha20Poly1305`] from 32 bytes of key material.
     pub fn new(key: [u8; 32]) -> Self {
+        let _entry = Entry::new_secret();
         Self { key }
     }
 
-- 
2.43.0


From aa56a415efadd72a797f89a0855c03307d1006f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 15/15] fix: allow Ed25519 certificates in TLS1.2

The ECDHE_ECDSA suites did not list the Ed25519 signature scheme: a server with
an Ed25519 certificate had no TLS1.2 suite in common with any client, and a
client that offered Ed25519 rejected the signature of a server that used it.
---
 rustls-graviola/src/suites.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustls-graviola/src/suites.rs b/rustls-graviola/src/suites.rs
index af432e5..6661a56 100644
--- a/rustls-graviola/src/suites.rs
+++ b/rustls-graviola/src/suites.rs
@@ -144,6 +144,7 @@ pub static TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: SupportedCipherSuite =
     });
 
 static TLS12_ECDSA_SCHEMES: &[SignatureScheme] = &[
+    SignatureScheme::ED25519,
     SignatureScheme::ECDSA_NISTP521_SHA512,
     SignatureScheme::ECDSA_NISTP384_SHA384,
     SignatureScheme::ECDSA_NISTP256_SHA256,
-- 
2.43.0

