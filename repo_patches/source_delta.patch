From 029780cddcd8df24586ca22e3562abab94ebfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 01/12] fix: reject P-256 and P-384 public keys with
 coordinates of p or more

---
 graviola/src/mid/p256.rs | 20 ++++++++++++++++----
 graviola/src/mid/p384.rs | 22 ++++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..15113b8 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -261,10 +261,15 @@ impl AffineMontPoint {
         let (_, xy) = bytes.split_at(1);
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
-        let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x4(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x4(y).unwrap()).as_mont(),
-        );
+        let x = FieldElement(util::big_endian_slice_to_u64x4(x).unwrap());
+        let y = FieldElement(util::big_endian_slice_to_u64x4(y).unwrap());
+
+        // coordinates must be canonical field elements
+        if low::bignum_cmp_lt(&x.0, &CURVE_P) == 0 || low::bignum_cmp_lt(&y.0, &CURVE_P) == 0 {
+            return Err(Error::OutOfRange);
+        }
+
+        let point = Self::from_xy(x.as_mont(), y.as_mont());
 
         if !point.on_curve() {
             return Err(Error::NotOnCurve);
@@ -1066,6 +1071,13 @@ type AffineMontPointTableW7 = [[u64; 512]; 37];
 
 type JacobianMontPointTableW5 = [u64; 192];
 
+const CURVE_P: [u64; 4] = [
+    0xffff_ffff_ffff_ffff,
+    0x0000_0000_ffff_ffff,
+    0x0000_0000_0000_0000,
+    0xffff_ffff_0000_0001,
+];
+
 const CURVE_A_MONT: FieldElement = FieldElement([
     0xffff_ffff_ffff_fffc,
     0x0000_0003_ffff_ffff,
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..490dd56 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -261,10 +261,15 @@ impl AffineMontPoint {
         let (_, xy) = bytes.split_at(1);
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
-        let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x6(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x6(y).unwrap()).as_mont(),
-        );
+        let x = FieldElement(util::big_endian_slice_to_u64x6(x).unwrap());
+        let y = FieldElement(util::big_endian_slice_to_u64x6(y).unwrap());
+
+        // coordinates must be canonical field elements
+        if low::bignum_cmp_lt(&x.0, &CURVE_P) == 0 || low::bignum_cmp_lt(&y.0, &CURVE_P) == 0 {
+            return Err(Error::OutOfRange);
+        }
+
+        let point = Self::from_xy(x.as_mont(), y.as_mont());
 
         if !point.on_curve() {
             return Err(Error::NotOnCurve);
@@ -896,6 +901,15 @@ impl Iterator for BoothRecodeW5 {
 /// 16 jacobian points
 type JacobianMontPointTableW5 = [u64; 288];
 
+const CURVE_P: [u64; 6] = [
+    0x0000_0000_ffff_ffff,
+    0xffff_ffff_0000_0000,
+    0xffff_ffff_ffff_fffe,
+    0xffff_ffff_ffff_ffff,
+    0xffff_ffff_ffff_ffff,
+    0xffff_ffff_ffff_ffff,
+];
+
 const CURVE_A_MONT: FieldElement = FieldElement([
     0x0000_0003_ffff_fffc,
     0xffff_fffc_0000_0000,
-- 
2.43.0


From 2591fb74f904799bc2cad6aa9ad80691afb3ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 02/12] fix: reject trailing data after a PKCS#8 key

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From 834f095d016595d319869e4c0cef182133eeb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 03/12] fix: return the documented WrongLength when an output
 buffer is too small

---
 graviola/src/high/ecdsa.rs | 6 +++---
 graviola/src/high/pkcs8.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..ddd1dbb 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -125,7 +125,7 @@ impl<C: Curve> SigningKey<C> {
 
         let used = ecpk
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..used).ok_or(Error::WrongLength)
     }
@@ -152,7 +152,7 @@ impl<C: Curve> SigningKey<C> {
 
         let len = spki
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&output[..len])
     }
 
@@ -203,7 +203,7 @@ impl<C: Curve> SigningKey<C> {
         let sig = asn1::pkix::EcdsaSigValue { r, s };
         let sig_len = sig
             .encode(&mut asn1::Encoder::new(asn1_signature))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
         Ok(&asn1_signature[..sig_len])
     }
 
diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index eee6c5e..e1a0b2f 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -80,7 +80,7 @@ impl<'a> Key<'a> {
         let len = self
             .0
             .encode(&mut asn1::Encoder::new(output))
-            .map_err(Error::Asn1Error)?;
+            .map_err(|_| Error::WrongLength)?;
 
         output.get(..len).ok_or(Error::WrongLength)
     }
-- 
2.43.0


From 3f3d205f60a56ac83f0623ecf8f31404b63afa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 04/12] fix: reject Ed25519 SubjectPublicKeyInfo with algorithm
 parameters

---
 graviola/src/high/ed25519.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..bd4761d 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,9 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From da157569c39e5552649b949425ea4fdfb76fd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 05/12] fix: RSA with moduli that are not a multiple of 64 bits
 long

---
 graviola/src/high/pkcs1.rs   | 41 ++++++++++++++++++++++++++++++------
 graviola/src/high/rsa.rs     | 18 ++++++++++------
 graviola/src/low/posint.rs   | 21 ++++++++++++++++++
 graviola/src/mid/rsa_priv.rs |  4 ++++
 graviola/src/mid/rsa_pub.rs  |  4 ++++
 5 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..4edc7ee 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -75,11 +75,13 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 ///
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
-/// `out` is the modulus-length output buffer.
+/// `out` is the output buffer, of `em_bits` bits rounded up to whole bytes.
+/// `em_bits` is one less than the length of the modulus, in bits.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -93,6 +95,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
     let s_len = hash.len();
     let h_len = hash.len();
     let em_len = out.len();
+    assert_eq!(em_len, em_bits.div_ceil(8));
     assert!(em_len >= h_len + s_len + 2);
 
     // 4.  Generate a random octet string salt of length sLen; if sLen = 0,
@@ -132,7 +135,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= 0xff >> (8 * em_len - em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -149,10 +152,17 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
-/// `em` is the modulus-length input and temporary buffer.
+/// `em` is the input and temporary buffer, of `em_bits` bits rounded up to
+/// whole bytes.
+///
+/// `em_bits` is one less than the length of the modulus, in bits.
 ///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -161,6 +171,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 3.   If emLen < hLen + sLen + 2, output "inconsistent" and stop.
     let em_len = em.len();
+    let top_mask = 0xff >> (8 * em_len - em_bits);
     let h_len = m_hash.len();
     let s_len = h_len;
     if em_len < h_len + s_len + 2 {
@@ -181,7 +192,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +203,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -229,6 +240,22 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     }
 }
 
+/// `encode_pss_sig_bits`, for moduli that are a whole number of bytes.
+#[cfg(test)]
+pub(crate) fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    encode_pss_sig_bits::<H>(out, out.len() * 8 - 1, rng, hash)
+}
+
+/// `verify_pss_sig_bits`, for moduli that are a whole number of bytes.
+#[cfg(test)]
+pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    verify_pss_sig_bits::<H>(em, em.len() * 8 - 1, m_hash)
+}
+
 /// Compute MGF1-H, and XOR the result into `out`.
 fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     for (chunk, counter) in out.chunks_mut(h_len).zip(0u32..) {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..718cd8c 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -143,7 +143,7 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = m.to_bytes_with_len(&mut m_bytes, self.0.modulus_len_bytes())?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -219,9 +219,12 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let em_len = em_bits.div_ceil(8);
+        m.to_bytes_with_len(&mut m_bytes, em_len)
+            .map_err(|_| Error::BadSignature)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(&mut m_bytes[..em_len], em_bits, hash.as_ref())
     }
 }
 
@@ -522,7 +525,7 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_with_len(signature, self.0.modulus_len_bytes())
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -537,12 +540,13 @@ impl SigningKey {
         let hash = H::hash(message);
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m = &mut m[..self.0.modulus_len_bytes()];
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m = &mut m[..em_bits.div_ceil(8)];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(m, em_bits, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        c.to_bytes_with_len(signature, self.0.modulus_len_bytes())
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..c34325a 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,27 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but the encoding is precisely `len` bytes.
+    ///
+    /// An error is returned if the value does not fit.
+    pub(crate) fn to_bytes_with_len<'a>(
+        &self,
+        out: &'a mut [u8],
+        len: usize,
+    ) -> Result<&'a [u8], Error> {
+        if self.len_bytes() > len {
+            return Err(Error::OutOfRange);
+        }
+        let out = out.get_mut(..len).ok_or(Error::OutOfRange)?;
+
+        out.fill(0);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            chunk.copy_from_slice(&word.to_be_bytes()[8 - chunk.len()..]);
+        }
+
+        Ok(out)
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..15a9867 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.modulus_len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..ae253ec 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -46,6 +46,10 @@ impl RsaPublicKey {
         self.n.len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.n.len_bits()
+    }
+
     /// m = c ** e mod n
     pub(crate) fn public_op(&self, mut c: RsaPosInt) -> Result<RsaPosInt, Error> {
         if !c.less_than(&self.n) {
-- 
2.43.0


From 71b3bc3b89c7d5728194d233b547d8240d72fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 06/12] fix: reject RSA signatures that are not as long as the
 modulus

---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 718cd8c..97c0409 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 821c8d5807f8b7b05c3947b1d59db71cf347f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 07/12] fix: RSA signing with keys whose first prime is the
 smaller

---
 graviola/src/mid/rsa_priv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 15a9867..cf98036 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -168,8 +168,12 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (m_2 is reduced mod q, and q may be larger than p.)
+        let m_2_mod_p = m_2
+            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()
+            .reduce(&self.p, &self.p_montifier);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From c8611100dd3d61ff695194596cbc5b390c314a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 08/12] fix: reject RSA private keys with a zero CRT exponent

---
 graviola/src/mid/rsa_priv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index cf98036..d67762f 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -40,6 +40,8 @@ impl RsaPrivateKey {
         let p_len = p.len_bytes();
         if p.is_even()
             || q.is_even()
+            || dp.is_zero()
+            || dq.is_zero()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
         {
             return Err(Error::OutOfRange);
-- 
2.43.0


From b3d2eec791bc5cdff0ce6f14ff20ff25f939625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 09/12] hooks: observation points for RSA operations and ECDSA
 nonces (cfg graviola_verif)

---
 graviola/src/high/hmac_drbg.rs | 10 ++++++++++
 graviola/src/lib.rs            |  7 ++++++-
 graviola/src/low/posint.rs     |  7 +++++++
 graviola/src/mid/rsa_priv.rs   |  4 ++++
 graviola/src/mid/rsa_pub.rs    |  4 ++++
 graviola/src/verif.rs          | 20 ++++++++++++++++++++
 6 files changed, 51 insertions(+), 1 deletion(-)
 create mode 100644 graviola/src/verif.rs

diff --git a/graviola/src/high/hmac_drbg.rs b/graviola/src/high/hmac_drbg.rs
index 28a42f1..81673b5 100644
--- a/graviola/src/high/hmac_drbg.rs
+++ b/graviola/src/high/hmac_drbg.rs
@@ -18,6 +18,11 @@ pub(crate) struct HmacDrbg<H: Hash> {
 
 impl<H: Hash> HmacDrbg<H> {
     pub(crate) fn new(entropy_input: &[u8], nonce: &[u8], personalization_string: &[u8]) -> Self {
+        #[cfg(graviola_verif)]
+        if let Some(hook) = crate::verif::NONCE_SEED.get() {
+            hook(entropy_input, nonce, personalization_string);
+        }
+
         // 1. seed_material = entropy_input || nonce || personalization_string.
         let seed_material = &[entropy_input, nonce, personalization_string];
 
@@ -91,6 +96,11 @@ impl<H: Hash> HmacDrbg<H> {
 
 impl<H: Hash> RandomSource for HmacDrbg<H> {
     fn fill(&mut self, out: &mut [u8]) -> Result<(), Error> {
+        #[cfg(graviola_verif)]
+        if let Some(true) = crate::verif::NONCE_OUTPUT.get().map(|hook| hook(out)) {
+            return Ok(());
+        }
+
         let hashlen = self.v.as_ref().len();
 
         // 1. If reseed_counter > reseed_interval, then
diff --git a/graviola/src/lib.rs b/graviola/src/lib.rs
index c6564ae..198d2cd 100644
--- a/graviola/src/lib.rs
+++ b/graviola/src/lib.rs
@@ -4,7 +4,8 @@
 #![allow(
     clippy::new_without_default,
     clippy::result_unit_err,
-    clippy::too_many_arguments
+    clippy::too_many_arguments,
+    unexpected_cfgs
 )]
 #![forbid(unused_must_use)]
 #![warn(
@@ -47,6 +48,10 @@ mod high;
 /// Errors.  Common to all layers.
 mod error;
 
+#[cfg(graviola_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 /// Test infrastructure.
 #[cfg(test)]
 #[cfg_attr(coverage_nightly, coverage(off))]
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index c34325a..c3e0567 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -146,6 +146,13 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    #[cfg(graviola_verif)]
+    pub(crate) fn verif_op(&self, n: &Self, op: Option<&crate::verif::RsaOp>) -> Option<Self> {
+        let mut r = Self::zero();
+        r.used = n.used;
+        op?(self.as_words(), n.as_words(), r.as_mut_words()).then_some(r)
+    }
+
     #[allow(dead_code)]
     pub(crate) fn debug(&self, why: &str) {
         let mut bytes = [0u8; 1024];
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index d67762f..7cfe3b6 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -148,6 +148,10 @@ impl RsaPrivateKey {
         if !c.less_than(&self.public.n) {
             return Err(Error::OutOfRange);
         }
+        #[cfg(graviola_verif)]
+        if let Some(r) = c.verif_op(&self.public.n, crate::verif::RSA_PRIVATE_OP.get()) {
+            return Ok(r);
+        }
 
         // A note about blinding:
         //
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index ae253ec..e3caa6e 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -55,6 +55,10 @@ impl RsaPublicKey {
         if !c.less_than(&self.n) {
             return Err(Error::OutOfRange);
         }
+        #[cfg(graviola_verif)]
+        if let Some(r) = c.verif_op(&self.n, crate::verif::RSA_PUBLIC_OP.get()) {
+            return Ok(r);
+        }
         c.expand(&self.n);
 
         // bring c into montgomery domain, c_mont = c * M^2 * M^-1 mod n
diff --git a/graviola/src/verif.rs b/graviola/src/verif.rs
new file mode 100644
index 0000000..cd69b7a
--- /dev/null
+++ b/graviola/src/verif.rs
@@ -0,0 +1,20 @@
+//! Observation points for external verification.
+//!
+//! This is only compiled with `--cfg graviola_verif`, and is not part of the API.
+
+use std::sync::OnceLock;
+
+/// `hook(c, n, out)` replaces an RSA operation on `c` mod `n`, if it returns true.
+pub type RsaOp = fn(&[u64], &[u64], &mut [u64]) -> bool;
+
+/// Replaces the RSA public operation.
+pub static RSA_PUBLIC_OP: OnceLock<RsaOp> = OnceLock::new();
+
+/// Replaces the RSA private operation.
+pub static RSA_PRIVATE_OP: OnceLock<RsaOp> = OnceLock::new();
+
+/// Sees the inputs of the ECDSA nonce generator.
+pub static NONCE_SEED: OnceLock<fn(&[u8], &[u8], &[u8])> = OnceLock::new();
+
+/// Replaces the output of the ECDSA nonce generator, if it returns true.
+pub static NONCE_OUTPUT: OnceLock<fn(&mut [u8]) -> bool> = OnceLock::new();
-- 
2.43.0


From f420d930b5ccdf19f94901c394056c72d9c5a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 10/12] hooks: see the output of the ECDSA nonce generator (cfg
 graviola_verif)

---
 graviola/src/high/hmac_drbg.rs | 5 +++++
 graviola/src/verif.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/graviola/src/high/hmac_drbg.rs b/graviola/src/high/hmac_drbg.rs
index 81673b5..bb98154 100644
--- a/graviola/src/high/hmac_drbg.rs
+++ b/graviola/src/high/hmac_drbg.rs
@@ -123,6 +123,11 @@ impl<H: Hash> RandomSource for HmacDrbg<H> {
         // 7. reseed_counter = reseed_counter + 1.
         self.update(&[]);
 
+        #[cfg(graviola_verif)]
+        if let Some(hook) = crate::verif::NONCE_RESULT.get() {
+            hook(out);
+        }
+
         Ok(())
     }
 }
diff --git a/graviola/src/verif.rs b/graviola/src/verif.rs
index cd69b7a..a9644e8 100644
--- a/graviola/src/verif.rs
+++ b/graviola/src/verif.rs
@@ -18,3 +18,8 @@ pub static NONCE_SEED: OnceLock<fn(&[u8], &[u8], &[u8])> = OnceLock::new();
 
 /// Replaces the output of the ECDSA nonce generator, if it returns true.
 pub static NONCE_OUTPUT: OnceLock<fn(&mut [u8]) -> bool> = OnceLock::new();
+
+/// Sees the output of the ECDSA nonce generator.
+pub static NONCE_RESULT: OnceLock<fn(&[u8])> = OnceLock::new();
+
+pub use crate::high::hash::HashBlock;
-- 
2.43.0


From 669232199bb2506f3341a85a91b0b35d5f72a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 11/12] fix: encode RSA public exponents of 32 bits as positive
 integers

---
 graviola/src/high/rsa.rs     | 4 +++-
 graviola/src/mid/rsa_priv.rs | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 97c0409..eefca83 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,7 +85,9 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        // with a leading zero, so that an exponent of 32 bits is not taken for a negative integer
+        let mut public_exponent = [0u8; 5];
+        public_exponent[1..].copy_from_slice(&self.0.e.to_be_bytes());
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 7cfe3b6..e3c9b83 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -102,7 +102,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(5);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -111,7 +111,8 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        public_exponent[0] = 0x00;
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -223,7 +224,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            5 +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -236,7 +237,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
-- 
2.43.0


From 05e78399f7e75d7c8301d998b807f5d1bce29589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 12/12] fix: reject oversized TLS1.2 ChaCha20Poly1305 records

---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0

